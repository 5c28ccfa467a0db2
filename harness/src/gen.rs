//! Random histories: what a correct staking program would send, plus (rarely) calls it must see refused.
use crate::model::*;
use crate::rng::Rng;
use crate::wire::*;
use crate::world::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Amounts {
    Tiny,
    Small,
    Mid,
    Large,
    Mixed,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Times {
    /// mostly within days, some jumps
    Normal,
    /// long jumps and expiry boundaries
    Expiry,
    /// day by day
    Daily,
    /// many days in a row, so that many expiry dates pile up, then a jump over all of them
    Burst,
}

pub const W_FILL: usize = 0;
pub const W_DIST: usize = 1;
pub const W_INIT: usize = 2;
pub const W_DEP: usize = 3;
pub const W_WD: usize = 4;
pub const W_CLAIM: usize = 5;
pub const W_EXT: usize = 6;
pub const W_CLOSE: usize = 7;
pub const W_CHD: usize = 8;
pub const W_SLASH: usize = 9;
pub const W_PEN: usize = 10;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub pools: usize,
    pub users: usize,
    pub steps: usize,
    pub w: [u32; 11],
    pub amounts: Amounts,
    pub times: Times,
    /// probability of a clock step before an operation
    pub tick: f64,
    /// probability of an operation the model refuses
    pub wild: f64,
    /// probability of a delegated deposit
    pub deleg: f64,
    /// probability of distributing right after the clock entered a new day
    pub daily: f64,
    /// probability of a fork that walks over the scheduled expiries after a step
    pub probe: f64,
    /// probability of a full exit on a fork after a step
    pub exit: f64,
}

impl Cfg {
    pub fn base() -> Cfg {
        Cfg {
            pools: 1,
            users: 4,
            steps: 60,
            w: [8, 14, 6, 22, 12, 10, 12, 4, 10, 6, 0],
            amounts: Amounts::Mixed,
            times: Times::Normal,
            tick: 0.55,
            wild: 0.08,
            deleg: 0.4,
            daily: 0.25,
            probe: 0.02,
            exit: 0.0,
        }
    }
}

pub fn amount(rng: &mut Rng, a: Amounts) -> u64 {
    match a {
        Amounts::Tiny => rng.below(12),
        Amounts::Small => 1 + rng.below(1000),
        Amounts::Mid => 1 + rng.below(5_000_000_000_000),
        Amounts::Large => 1 + rng.below(1 << 56),
        Amounts::Mixed => {
            let k = match rng.idx(5) {
                0 => Amounts::Tiny,
                1 => Amounts::Small,
                2 | 3 => Amounts::Mid,
                _ => Amounts::Large,
            };
            amount(rng, k)
        }
    }
}

#[derive(Clone, Debug)]
pub enum Eff {
    None,
    New(Entry),
    Take { i: usize, n: u64, del_n: u64 },
    Extend { i: usize, add: u64, new: Period, start: i64 },
    Move { i: usize, n: u64, new: usize },
    Slash { i: usize, n: u64 },
    Gone { p: usize, u: usize },
}

pub fn apply_eff(w: &mut World, e: &Eff) {
    match e {
        Eff::None => {}
        Eff::New(x) => w.entries.push(x.clone()),
        Eff::Take { i, n, del_n } => {
            let e = &mut w.entries[*i];
            e.amount -= n;
            e.del_amt -= del_n;
            if e.amount == 0 && e.del_amt == 0 {
                w.entries.remove(*i);
            }
        }
        Eff::Extend { i, add, new, start } => {
            let e = &mut w.entries[*i];
            e.amount += add;
            if e.del != e.u {
                e.del_amt += add;
            }
            e.period = *new;
            e.start = *start;
        }
        Eff::Move { i, n, new } => {
            let e = &mut w.entries[*i];
            if *new == e.u {
                e.del_amt -= n;
                if e.del_amt == 0 {
                    e.del = e.u;
                }
            } else {
                e.del = *new;
                e.del_amt = *n;
            }
            if e.amount == 0 && e.del_amt == 0 {
                w.entries.remove(*i);
            }
        }
        Eff::Slash { i, n } => {
            let e = &mut w.entries[*i];
            e.amount -= n;
            if e.amount == 0 && e.del_amt == 0 {
                w.entries.remove(*i);
            }
        }
        Eff::Gone { p, u } => w.entries.retain(|e| !(e.p == *p && e.u == *u)),
    }
}

/// perform an operation and keep the staking program's book
pub fn act(w: &mut World, op: Op, eff: Eff) -> R<bool> {
    let ok = w.step(&op)?;
    if ok {
        apply_eff(w, &eff);
    }
    Ok(ok)
}

pub fn next_time(w: &World, rng: &mut Rng, cfg: &Cfg) -> i64 {
    let now = w.now();
    let d = day(now);
    let next_exp = |rng: &mut Rng| -> Option<i64> {
        let p = rng.idx(w.m.len());
        let mut v: Vec<i64> = w.m[p].diffs.keys().copied().collect();
        for m in &w.m[p].m {
            v.extend(m.diffs.keys().copied());
        }
        v.sort();
        v.dedup();
        if v.is_empty() {
            None
        } else {
            Some(v[rng.idx(v.len().min(3))])
        }
    };
    let wts: [u32; 9] = match cfg.times {
        Times::Normal => [22, 14, 14, 14, 8, 12, 10, 1, 5],
        Times::Expiry => [8, 6, 8, 10, 18, 28, 10, 2, 10],
        Times::Daily => [10, 10, 15, 60, 3, 2, 0, 0, 0],
        Times::Burst => {
            let piled = w.m.iter().map(|m| m.diffs.len()).max().unwrap_or(0);
            if piled > 24 && rng.p(0.12) {
                return now + *rng.pick(&[30, 60, 100, 140, 200, 250, 400, 420]) * DAY + rng.range(-10, 10) * DAY + rng.range(0, DAY - 1);
            }
            [6, 4, 20, 66, 0, 1, 3, 0, 0]
        }
    };
    let t = match rng.weighted(&wts) {
        0 => now + rng.range(1, 3600),
        1 => d + DAY - 1,
        2 => d + DAY,
        3 => now + DAY,
        4 | 5 => match next_exp(rng) {
            Some(e) => *rng.pick(&[e - 1, e, e, e + 1, e + DAY / 2, e - DAY, e - DAY / 2, e + DAY]),
            None => now + DAY,
        },
        6 => now + rng.range(1, 40) * DAY + rng.range(0, DAY),
        7 => now + rng.range(100, 500) * DAY + rng.range(0, DAY),
        // land so that a new shorter lockup ends together with a scheduled one
        _ => match next_exp(rng) {
            Some(e) => {
                let back = *rng.pick(&[5, 90, 180, 365]) * DAY;
                let t = e - back + rng.range(0, DAY - 1);
                if t > now {
                    t
                } else {
                    now + DAY
                }
            }
            None => now + DAY,
        },
    };
    t.max(now + 1)
}

fn existing(w: &World, p: usize) -> Vec<usize> {
    (0..w.users.len()).filter(|u| w.exists(p, *u)).collect()
}

fn fill_op(w: &World, rng: &mut Rng, p: usize, cfg: &Cfg) -> Op {
    let now = w.now();
    let min_end = (w.m[p].ends_at as i64).max(day(now));
    let ends = match rng.idx(8) {
        0 => min_end,
        1 => min_end + rng.range(0, DAY - 1),
        2 => now.max(min_end),
        3 => min_end.max(now + rng.range(0, 3) * DAY),
        4 => min_end.max(now + rng.range(0, 12) * DAY + rng.range(0, DAY)),
        5 => min_end.max(now + rng.range(0, 400) * DAY),
        6 => min_end.max(day(now) + DAY * rng.range(0, 2)),
        _ => min_end.max(now + rng.range(20, 60) * DAY),
    };
    let a = amount(rng, cfg.amounts).max(1);
    Op::Fill { p, amount: a, ends: ends as u64 }
}

/// one conforming operation, or None if none of the drawn kind is possible now
pub fn propose(w: &World, rng: &mut Rng, cfg: &Cfg) -> Option<(Op, Eff)> {
    let now = w.now();
    let p = rng.idx(w.pools.len());
    let ex = existing(w, p);
    let kind = rng.weighted(&cfg.w);
    let mine: Vec<usize> = (0..w.entries.len()).filter(|i| w.entries[*i].p == p).collect();
    let pick_entry = |rng: &mut Rng, f: &dyn Fn(&Entry) -> bool| -> Option<usize> {
        let v: Vec<usize> = mine.iter().copied().filter(|i| f(&w.entries[*i])).collect();
        if v.is_empty() {
            None
        } else {
            Some(v[rng.idx(v.len())])
        }
    };
    match kind {
        W_FILL => Some((fill_op(w, rng, p, cfg), Eff::None)),
        W_DIST => Some((Op::Distribute { p }, Eff::None)),
        W_INIT => {
            let v: Vec<usize> = (0..w.users.len()).filter(|u| !w.exists(p, *u)).collect();
            if v.is_empty() {
                return None;
            }
            Some((Op::InitMining { p, u: v[rng.idx(v.len())] }, Eff::None))
        }
        W_DEP => {
            if ex.is_empty() {
                return None;
            }
            let u = ex[rng.idx(ex.len())];
            let period = *rng.pick(&Period::REAL);
            let a = amount(rng, cfg.amounts);
            let del = if rng.p(cfg.deleg) { ex[rng.idx(ex.len())] } else { u };
            let e = Entry { p, u, amount: a, period, start: now, del, del_amt: if del != u { a } else { 0 } };
            let eff = if a == 0 { Eff::None } else { Eff::New(e) };
            Some((Op::Deposit { p, u, amount: a, period: period as u8, del }, eff))
        }
        W_WD => {
            if rng.p(0.08) && !ex.is_empty() {
                // nothing withdrawn: just settles
                let u = ex[rng.idx(ex.len())];
                let del = ex[rng.idx(ex.len())];
                return Some((Op::Withdraw { p, u, amount: 0, del }, Eff::None));
            }
            let i = pick_entry(rng, &|e| !e.locked(now))?;
            Some(withdraw_op(w, i, rng.p(0.7), rng))
        }
        W_CLAIM => {
            if ex.is_empty() {
                return None;
            }
            Some((Op::Claim { p, u: ex[rng.idx(ex.len())] }, Eff::None))
        }
        W_EXT => {
            let i = pick_entry(rng, &|e| e.amount > 0 && (e.del == e.u || e.del_amt >= e.amount))?;
            let e = &w.entries[i];
            let new = if rng.p(0.3) { e.period } else { *rng.pick(&Period::REAL) };
            let add = if rng.p(0.5) { 0 } else { amount(rng, cfg.amounts) };
            Some((
                Op::Extend { p, u: e.u, old: e.period as u8, new: new as u8, start: e.start as u64, base: e.amount, add, del: e.del },
                Eff::Extend { i, add, new, start: now },
            ))
        }
        W_CLOSE => {
            let v: Vec<usize> = ex
                .iter()
                .copied()
                .filter(|u| {
                    let m = &w.m[p].m[*u];
                    m.share == 0 && !w.entries.iter().any(|e| e.p == p && e.u == *u) && m.diffs.values().all(|x| *x == 0)
                })
                .collect();
            if v.is_empty() {
                return None;
            }
            let u = v[rng.idx(v.len())];
            Some((Op::Close { p, u }, Eff::Gone { p, u }))
        }
        W_CHD => {
            let i = pick_entry(rng, &|e| e.amount > 0)?;
            let e = &w.entries[i];
            if e.del == e.u {
                let c: Vec<usize> = ex.iter().copied().filter(|x| *x != e.u).collect();
                if c.is_empty() {
                    return None;
                }
                let new = c[rng.idx(c.len())];
                Some((Op::ChangeDelegate { p, u: e.u, amount: e.amount, old: e.u, new }, Eff::Move { i, n: e.amount, new }))
            } else if rng.p(0.4) {
                Some((Op::ChangeDelegate { p, u: e.u, amount: e.del_amt, old: e.del, new: e.u }, Eff::Move { i, n: e.del_amt, new: e.u }))
            } else {
                let c: Vec<usize> = ex.iter().copied().filter(|x| *x != e.u && *x != e.del).collect();
                if c.is_empty() {
                    return None;
                }
                let new = c[rng.idx(c.len())];
                Some((Op::ChangeDelegate { p, u: e.u, amount: e.del_amt, old: e.del, new }, Eff::Move { i, n: e.del_amt, new }))
            }
        }
        W_SLASH => {
            let i = pick_entry(rng, &|e| e.amount > 0)?;
            let e = &w.entries[i];
            let n = if rng.p(0.2) { e.amount } else { 1 + rng.below(e.amount) }.min(e.amount);
            if e.locked(now) {
                let t = e.expiry() + if rng.p(0.5) { rng.range(0, DAY - 1) } else { 0 };
                let mult = n as u128 * e.period.mult() as u128;
                if mult > u64::MAX as u128 {
                    return None;
                }
                Some((Op::Slash { p, u: e.u, native: n, mult: mult as u64, expiry: Some(t as u64) }, Eff::Slash { i, n }))
            } else {
                let flex_date = e.period == Period::Flex && day(now) < e.expiry() && rng.p(0.2);
                let expiry = if flex_date { Some(e.expiry() as u64) } else { None };
                Some((Op::Slash { p, u: e.u, native: n, mult: n, expiry }, Eff::Slash { i, n }))
            }
        }
        _ => {
            if ex.is_empty() {
                return None;
            }
            let u = ex[rng.idx(ex.len())];
            let s = w.m[p].m[u].share.max(0) as u64;
            let n = match rng.idx(8) {
                0 => 0,
                1 => s,
                2 => s / 2,
                3 => {
                    // exactly one scheduled drop, or one off it
                    let v: Vec<i128> = w.m[p].m[u].diffs.values().copied().filter(|x| *x > 0).collect();
                    if v.is_empty() {
                        s / 3
                    } else {
                        let x = v[rng.idx(v.len())] as u64;
                        (x + rng.below(3)).saturating_sub(1).min(s)
                    }
                }
                4 => (w.m[p].m[u].diffs.values().sum::<i128>().max(0) as u64 + rng.below(3)).min(s),
                _ => rng.below(s.saturating_add(1)),
            };
            Some((Op::Penalty { p, u, n }, Eff::None))
        }
    }
}

/// withdraw (part of) an unlocked entry; a delegate that still counts slashed tokens is corrected first
pub fn withdraw_op(w: &World, i: usize, all: bool, rng: &mut Rng) -> (Op, Eff) {
    let e = &w.entries[i];
    if e.del != e.u && e.del_amt > e.amount {
        let n = e.del_amt - e.amount;
        return (Op::ChangeDelegate { p: e.p, u: e.u, amount: n, old: e.del, new: e.u }, Eff::Move { i, n, new: e.u });
    }
    let n = if all { e.amount } else { rng.below(e.amount + 1) };
    let del_n = if e.del != e.u { n } else { 0 };
    (Op::Withdraw { p: e.p, u: e.u, amount: n, del: e.del }, Eff::Take { i, n, del_n })
}

/// an operation with arbitrary arguments
pub fn wild_op(w: &World, rng: &mut Rng, cfg: &Cfg) -> Op {
    let now = w.now();
    let p = rng.idx(w.pools.len());
    let ex = existing(w, p);
    let n_users = w.users.len();
    let user = |rng: &mut Rng| if ex.is_empty() || rng.p(0.05) { rng.idx(n_users) } else { ex[rng.idx(ex.len())] };
    let u = user(rng);
    let v = user(rng);
    let x = user(rng);
    let m = &w.m[p].m[u];
    let share = m.share.max(0) as u64;
    let amt = |rng: &mut Rng| -> u64 {
        match rng.idx(9) {
            0 => share,
            1 => share.saturating_add(1),
            2 => share / 2,
            3 => share.saturating_mul(2),
            4 => u64::MAX - rng.below(3),
            5 => 0,
            6 => share.saturating_add(rng.below(1 << 40)),
            7 => w.m[p].total.max(0) as u64 + 1 - rng.below(2),
            _ => amount(rng, cfg.amounts),
        }
    };
    let dates: Vec<i64> = m.diffs.keys().copied().collect();
    let adate = |rng: &mut Rng| -> i64 {
        if dates.is_empty() || rng.p(0.3) {
            day(now) + rng.range(-3, 400) * DAY
        } else {
            *rng.pick(&dates) + rng.range(-1, 1) * DAY
        }
    };
    let mine: Vec<&Entry> = w.entries.iter().filter(|e| e.p == p).collect();
    // a date the staker shares with others: enough for the pool, too much for the staker
    if rng.p(0.12) {
        let c: Vec<(i64, u64, u64)> = m
            .diffs
            .iter()
            .filter_map(|(d, x)| {
                let all = w.m[p].diffs.get(d).copied().unwrap_or(0);
                if all > *x && (*x + 1) < m.share {
                    Some((*d, *x as u64, all as u64))
                } else {
                    None
                }
            })
            .collect();
        if !c.is_empty() {
            let (d, own, all) = *rng.pick(&c);
            let room = (all - own).min(share - own - 1);
            if room > 0 {
                let diff = own + 1 + if rng.p(0.5) { 0 } else { rng.below(room) };
                let native = rng.below(share - diff + 1).min(diff / 3);
                return Op::Slash { p, u, native, mult: native + diff, expiry: Some(d as u64) };
            }
        }
    }
    match rng.idx(13) {
        0 => Op::Fill {
            p,
            amount: if rng.p(0.5) { 0 } else { amt(rng) },
            ends: match rng.idx(4) {
                0 => (w.m[p].ends_at as i64 - 1).max(0) as u64,
                1 => (day(now) - 1) as u64,
                2 => rng.below(now as u64 * 2),
                _ => (w.m[p].ends_at as i64 + DAY) as u64,
            },
        },
        1 => Op::Distribute { p },
        2 => Op::InitMining { p, u },
        3 => Op::Deposit { p, u, amount: amt(rng), period: rng.idx(5) as u8, del: v },
        4 => Op::Deposit { p, u, amount: 1 + rng.below(1000), period: 0, del: v },
        5 => Op::Withdraw { p, u, amount: amt(rng), del: v },
        6 => match mine.is_empty() {
            true => Op::Withdraw { p, u, amount: amt(rng), del: u },
            false => {
                let e = mine[rng.idx(mine.len())];
                Op::Withdraw { p, u: e.u, amount: e.amount, del: x }
            }
        },
        7 => match mine.is_empty() {
            true => Op::Extend { p, u, old: 2, new: 3, start: now as u64, base: amt(rng), add: 0, del: u },
            false => {
                let e = mine[rng.idx(mine.len())];
                let (mut old, mut base, mut start, mut del) = (e.period as u8, e.amount, e.start, e.del);
                match rng.idx(5) {
                    0 => old = rng.idx(5) as u8,
                    1 => base = base.saturating_add(1 + rng.below(1 << 50)),
                    2 => start += *rng.pick(&[-DAY, DAY, 30 * DAY]),
                    3 => del = x,
                    _ => base = amt(rng),
                }
                Op::Extend { p, u: e.u, old, new: rng.idx(5) as u8, start: start.max(0) as u64, base, add: if rng.p(0.3) { u64::MAX - rng.below(2) } else { rng.below(100) }, del }
            }
        },
        8 => Op::Close { p, u },
        9 => Op::ChangeDelegate { p, u, amount: amt(rng), old: v, new: x },
        10 => match mine.is_empty() {
            true => Op::ChangeDelegate { p, u, amount: amt(rng), old: v, new: v },
            false => {
                let e = mine[rng.idx(mine.len())];
                Op::ChangeDelegate { p, u: e.u, amount: e.del_amt.saturating_add(rng.below(3)), old: if rng.p(0.6) { e.del } else { v }, new: x }
            }
        },
        11 => {
            let a = amt(rng);
            let mult = if rng.p(0.5) { a } else { amt(rng) };
            Op::Slash { p, u, native: a / *rng.pick(&[1, 2, 4, 6]), mult, expiry: if rng.p(0.3) { None } else { Some(adate(rng).max(0) as u64) } }
        }
        _ => Op::Penalty { p, u, n: share.saturating_add(1 + if rng.p(0.7) { 0 } else { rng.below(1 << 60) }) },
    }
}

/// create pools' first stakers so that histories have substance
pub fn warmup(w: &mut World, rng: &mut Rng, cfg: &Cfg) -> R<()> {
    for p in 0..w.pools.len() {
        for u in 0..w.users.len() {
            if rng.p(0.85) {
                act(w, Op::InitMining { p, u }, Eff::None)?;
            }
        }
        if rng.p(0.8) {
            let op = fill_op(w, rng, p, cfg);
            act(w, op, Eff::None)?;
        }
    }
    Ok(())
}

/// one more step of a history (clock, then operation); returns the operation performed
pub fn advance_history(w: &mut World, rng: &mut Rng, cfg: &Cfg) -> R<()> {
    if rng.p(cfg.tick) {
        let t = next_time(w, rng, cfg);
        let newday = day(t) != day(w.now());
        w.advance(t)?;
        if newday && rng.p(cfg.daily) {
            let p = rng.idx(w.pools.len());
            if w.m[p].total > 0 {
                if w.m[p].avail == 0 && rng.p(0.7) {
                    let op = fill_op(w, rng, p, cfg);
                    if w.predict(&op).0 == V::Ok {
                        act(w, op, Eff::None)?;
                    }
                }
                act(w, Op::Distribute { p }, Eff::None)?;
            }
        }
    }
    if rng.p(cfg.wild) {
        for _ in 0..12 {
            let op = wild_op(w, rng, cfg);
            // without its account there is no such staker; the hostile checks cover that
            if !named_exist(w, &op) {
                continue;
            }
            if let (V::Refuse(_), _) = w.predict(&op) {
                w.st.count("must-refuse calls", 1);
                act(w, op, Eff::None)?;
                break;
            }
        }
        return Ok(());
    }
    for _ in 0..20 {
        if let Some((op, eff)) = propose(w, rng, cfg) {
            let (v, _) = w.predict(&op);
            if let V::Refuse(_) = v {
                // e.g. nothing staked, source exhausted, weight lost to a penalty
                if rng.p(0.7) {
                    continue;
                }
            }
            act(w, op, eff)?;
            break;
        }
    }
    Ok(())
}

pub fn named_exist(w: &World, op: &Op) -> bool {
    match op {
        Op::Deposit { p, u, del, .. } | Op::Withdraw { p, u, del, .. } | Op::Extend { p, u, del, .. } => w.exists(*p, *u) && w.exists(*p, *del),
        Op::Claim { p, u } | Op::Close { p, u } | Op::Slash { p, u, .. } | Op::Penalty { p, u, .. } => w.exists(*p, *u),
        Op::ChangeDelegate { p, u, old, new, .. } => w.exists(*p, *u) && w.exists(*p, *old) && w.exists(*p, *new),
        _ => true,
    }
}

/// everybody withdraws everything, claims and closes; all must be accepted
pub fn exit_all(w: &mut World, rng: &mut Rng, p: usize) -> R<()> {
    let last = w.entries.iter().filter(|e| e.p == p && e.locked(w.now())).map(|e| e.expiry()).max();
    let wait = |w: &mut World, rng: &mut Rng, t: i64| -> R<()> {
        w.advance(t + if rng.p(0.5) { rng.range(0, DAY - 1) } else { 0 })
    };
    // either wait for everything at once, or withdraw entry by entry as they unlock
    if rng.p(0.4) {
        if let Some(t) = last {
            wait(w, rng, t)?;
        }
    }
    loop {
        let now = w.now();
        let un: Vec<usize> = (0..w.entries.len()).filter(|i| w.entries[*i].p == p && !w.entries[*i].locked(now)).collect();
        if un.is_empty() {
            let next = w.entries.iter().filter(|e| e.p == p).map(|e| e.expiry()).min();
            match next {
                None => break,
                Some(t) => {
                    wait(w, rng, t)?;
                    continue;
                }
            }
        }
        let i = un[rng.idx(un.len())];
        let (op, eff) = withdraw_op(w, i, true, rng);
        if !act(w, op.clone(), eff)? {
            return viol(&["P20", "P24"], format!("exit: {op:?} refused"));
        }
        if rng.p(0.2) {
            let u = rng.idx(w.users.len());
            if w.exists(p, u) {
                act(w, Op::Claim { p, u }, Eff::None)?;
            }
        }
    }
    let mut us = existing(w, p);
    rng.shuffle(&mut us);
    for u in us.clone() {
        if !act(w, Op::Claim { p, u }, Eff::None)? {
            return viol(&["P20", "P01", "P07"], format!("exit: claim of {u} refused"));
        }
    }
    if rng.p(0.5) {
        // let flexible lockups' zero drops expire as well
        let t = w.now() + 6 * DAY;
        w.advance(t)?;
    }
    rng.shuffle(&mut us);
    for u in us {
        if !act(w, Op::Close { p, u }, Eff::Gone { p, u })? {
            return viol(&["P20", "P15"], format!("exit: close of {u} refused"));
        }
    }
    let hd = pool_hdr(&w.bank.get(&w.pools[p].key).data).unwrap();
    if hd.total != 0 {
        return viol(&["P20", "P03"], format!("exit: pool {p} keeps a weight of {}", hd.total));
    }
    w.st.count("complete exits", 1);
    Ok(())
}

/// all stakers claim in random order on a fork; every claim must be paid
pub fn claim_all(w: &mut World, rng: &mut Rng, p: usize) -> R<()> {
    let mut us = existing(w, p);
    rng.shuffle(&mut us);
    w.fork(|w| {
        w.watch = false;
        let mut sum = 0u128;
        for u in us {
            let want = w.view[p][u].map(|v| v.claim).unwrap_or(0);
            let before = w.token(&w.pools[p].tok[u]);
            let ix = w.build(&Op::Claim { p, u });
            match w.bank.run(&ix) {
                Ok(_) => {}
                Err(e) => return viol(&["P01", "P07", "P20"], format!("claiming in random order: claim of {want} by {u} refused: {}", e.short())),
            }
            let got = w.token(&w.pools[p].tok[u]) - before;
            if got != want {
                return viol(&["P01", "P07"], format!("claiming in random order: staker {u} got {got} instead of {want}"));
            }
            sum += got as u128;
        }
        let hd = pool_hdr(&w.bank.get(&w.pools[p].key).data).unwrap();
        let left = w.token(&w.pools[p].vault);
        if left < hd.available {
            return viol(&["P01"], format!("after everybody claimed ({sum}) the vault holds {left}, less than the {} still to be distributed", hd.available));
        }
        w.st.count("claim-all forks", 1);
        Ok(())
    })
}

/// one whole history
pub fn history(rng: &mut Rng, cfg: &Cfg, t0: i64, focus: Option<&'static str>, after: &mut dyn FnMut(&mut World, &mut Rng) -> R<()>) -> (Option<World>, Result<(), Stop>) {
    let mut w = match World::new(rng, cfg.pools, cfg.users, t0, SRC_TOKENS, focus) {
        Ok(w) => w,
        Err(e) => return (None, Err(e)),
    };
    let r = history_in(&mut w, rng, cfg, after);
    (Some(w), r)
}

pub fn history_in(w: &mut World, rng: &mut Rng, cfg: &Cfg, after: &mut dyn FnMut(&mut World, &mut Rng) -> R<()>) -> R<()> {
    warmup(w, rng, cfg)?;
    for _ in 0..cfg.steps {
        advance_history(w, rng, cfg)?;
        if rng.p(cfg.probe) {
            let p = rng.idx(w.pools.len());
            let ex = existing(w, p);
            if !ex.is_empty() {
                let u = ex[rng.idx(ex.len())];
                w.probe_future(rng, p, u, 8)?;
            }
        }
        if rng.p(cfg.exit) {
            let p = rng.idx(w.pools.len());
            let seed = rng.u64();
            w.fork(|w| exit_all(w, &mut Rng::new(seed), p))?;
        }
        after(w, rng)?;
    }
    Ok(())
}
