//! What instructions cost when everything has piled up: pools and minings whose storage is full of
//! dates, long histories of distributions, and nobody calling for years.
use crate::checks::{pack, start_time, Id, Out};
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::wire::*;
use crate::world::*;

/// every kind of instruction, from this state, on copies
fn probe(w: &mut World, rng: &mut Rng) -> R<()> {
    let n = w.users.len();
    let now = w.now();
    let mut ops = vec![
        Op::Fill { p: 0, amount: 1 + rng.below(1000), ends: (now.max(w.m[0].ends_at as i64) + DAY) as u64 },
        Op::Distribute { p: 0 },
    ];
    for _ in 0..3 {
        let u = rng.idx(n);
        let del = rng.idx(n);
        ops.push(Op::Deposit { p: 0, u, amount: 1 + rng.below(1000), period: *rng.pick(&Period::REAL) as u8, del });
        ops.push(Op::Claim { p: 0, u });
        ops.push(Op::Penalty { p: 0, u, n: rng.below(20) });
        ops.push(Op::Withdraw { p: 0, u, amount: 0, del });
        ops.push(Op::Close { p: 0, u });
        ops.push(Op::ChangeDelegate { p: 0, u, amount: 0, old: del, new: (del + 1) % n });
        ops.push(Op::Slash { p: 0, u, native: rng.below(3), mult: rng.below(3), expiry: None });
    }
    for _ in 0..4 {
        if w.entries.is_empty() {
            break;
        }
        let e = w.entries[rng.idx(w.entries.len())].clone();
        let x = 1 + rng.below(e.amount);
        ops.push(Op::Withdraw { p: 0, u: e.u, amount: x, del: e.del });
        ops.push(Op::ChangeDelegate { p: 0, u: e.u, amount: x, old: e.del, new: (e.del + 1 + rng.idx(n - 1)) % n });
        ops.push(Op::Extend { p: 0, u: e.u, old: e.period as u8, new: *rng.pick(&Period::REAL) as u8, start: e.start as u64, base: e.amount, add: rng.below(9), del: e.del });
        let exp = day(e.start) + e.period.days() * DAY;
        let live = now < exp && e.period != Period::Flex;
        let mult = if live { x as i128 * e.period.mult() } else { x as i128 } as u64;
        ops.push(Op::Slash { p: 0, u: e.u, native: x, mult, expiry: if live { Some(exp as u64) } else { None } });
        ops.push(Op::Penalty { p: 0, u: e.u, n: x });
    }
    for op in ops {
        let ix = w.build(&op);
        w.st.steps += 1;
        w.meter(&ix, op.name())?;
    }
    w.st.count("states in which every instruction was measured", 1);
    Ok(())
}

/// a world in which much has piled up: minings full of dates, a pool with a date for most days of a
/// year, hundreds of distributions; nothing of this is judged on the way
pub fn pile(w: &mut World, rng: &mut Rng) -> R<()> {
    let users = w.users.len();
    for u in 0..users {
        act(w, Op::InitMining { p: 0, u }, Eff::None)?;
    }
    w.watch = false;
    let amount = 1 + rng.below(1 << 50);
    act(w, Op::Fill { p: 0, amount, ends: (w.now() + (100 + rng.range(0, 1500)) * DAY) as u64 }, Eff::None)?;
    let scale = 1 << (1 + rng.idx(40));
    let mut pool = users * 45 > 200 && rng.p(0.6);
    let days = if pool { 150 + rng.idx((users * 45).min(360) - 150) } else { 15 + rng.idx(40) };
    let dist = *rng.pick(&[0.0, 0.0, 0.3, 0.9]);
    let delegate = rng.p(0.5);
    for i in 0..days {
        for u in 0..users {
            // in a pool full of dates each staker holds a stretch of them
            if pool && u != i / 45 {
                continue;
            }
            let period = if pool || rng.p(0.7) { Period::Y1 } else { *rng.pick(&Period::REAL) };
            let del = if delegate && rng.p(0.4) { rng.idx(users) } else { u };
            let amount = 1 + rng.below(scale);
            let e = Entry { p: 0, u, amount, period, start: w.now(), del, del_amt: if del != u { amount } else { 0 } };
            act(w, Op::Deposit { p: 0, u, amount, period: period as u8, del }, Eff::New(e))?;
        }
        if rng.p(dist) {
            act(w, Op::Distribute { p: 0 }, Eff::None)?;
        }
        let t = day(w.now()) + DAY + rng.range(0, DAY - 1);
        w.advance(t)?;
    }
    pool |= rng.p(0.5);
    if !pool {
        // the stakers are away while the pool lives on
        for _ in 0..rng.idx(700) {
            act(w, Op::Distribute { p: 0 }, Eff::None)?;
            let t = day(w.now()) + DAY + rng.range(0, DAY - 1);
            w.advance(t)?;
        }
    }
    let gap = *rng.pick(&[0, 0, 1, 40, 130, 320, 400, 1000]);
    if gap > 0 {
        let t = w.now() + rng.range(gap * DAY / 2, gap * DAY);
        w.advance(t)?;
    }
    w.watch = true;
    w.st.count("worlds in which much had piled up", 1);
    w.look()
}

pub fn job_work(id: Id, job: usize, rng: &mut Rng, thorough: bool) -> Out {
    let t0 = start_time(rng);
    let old = job % 2 == 0;
    let users = if old { 3 + rng.idx(4) } else { 9 };
    let mut w = match World::new(rng, 1, users, t0, SRC_TOKENS, Some(id)) {
        Ok(w) => w,
        Err(e) => return Out { res: Some(e), evals: 1, ..Default::default() },
    };
    let r = (|| -> R<()> {
        for u in 0..users {
            act(&mut w, Op::InitMining { p: 0, u }, Eff::None)?;
        }
        w.watch = false;
        act(&mut w, Op::Fill { p: 0, amount: 1 << 40, ends: (t0 + 1500 * DAY) as u64 }, Eff::None)?;
        let deposit = |w: &mut World, rng: &mut Rng, u: usize, period: Period| -> R<bool> {
            let del = if rng.p(0.4) { rng.idx(users) } else { u };
            let amount = 10 + rng.below(1 << 24);
            let e = Entry { p: 0, u, amount, period, start: w.now(), del, del_amt: if del != u { amount } else { 0 } };
            act(w, Op::Deposit { p: 0, u, amount, period: period as u8, del }, Eff::New(e))
        };
        if old {
            // the stakers lock on many days and are never heard of again, while the pool lives on
            let days = 50 - rng.idx(6);
            let last = if rng.p(0.3) { 60 + rng.idx(500) } else { 900 + rng.idx(if thorough { 195 } else { 100 }) };
            let looks = [last, days + 20 + rng.idx(150), 200 + rng.idx(300)];
            for i in 0..=last {
                if i < days {
                    for u in 0..users {
                        // lockups of others do not settle the staker's own ones
                        let period = if rng.p(0.7) { Period::Y1 } else { *rng.pick(&Period::REAL) };
                        deposit(&mut w, rng, u, period)?;
                    }
                }
                if i > 0 && rng.p(0.995) {
                    act(&mut w, Op::Distribute { p: 0 }, Eff::None)?;
                }
                if looks.contains(&i) {
                    probe(&mut w, rng)?;
                }
                let t = day(w.now()) + DAY + rng.range(0, DAY - 1);
                w.advance(t)?;
            }
            probe(&mut w, rng)?;
        } else {
            // distributions first, then a year of deposits that nothing processes
            let most = if rng.p(0.5) { 5 } else { 700 };
            let first = rng.idx(most);
            deposit(&mut w, rng, users - 1, Period::Flex)?;
            for _ in 0..first {
                let t = day(w.now()) + DAY + rng.range(0, DAY - 1);
                w.advance(t)?;
                act(&mut w, Op::Distribute { p: 0 }, Eff::None)?;
            }
            let n = 300 + rng.idx(66);
            for i in 0..n {
                deposit(&mut w, rng, i / 46, Period::Y1)?;
                if i % 97 == 13 {
                    probe(&mut w, rng)?;
                }
                if i + 1 < n {
                    let t = day(w.now()) + DAY + rng.range(0, DAY - 1);
                    w.advance(t)?;
                }
            }
            probe(&mut w, rng)?;
            for gap in [200 + rng.range(0, 150), 300, 1000] {
                let t = w.now() + gap * DAY;
                w.advance(t)?;
                probe(&mut w, rng)?;
            }
        }
        Ok(())
    })();
    pack(id, Some(w), r)
}
