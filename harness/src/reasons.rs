//! What the error of a refused call may be: that of one of its faults.
use crate::checks::{pack, start_time, Id, Out};
use crate::gen::*;
use crate::hostile::{fnv, Stage, NAMES};
use crate::model::*;
use crate::rng::Rng;
use crate::svm::*;
use crate::wire::*;
use crate::world::*;
use solana_program::pubkey::Pubkey;
use std::collections::HashSet;

pub const MATH: &str = "Custom(1)";
pub const NO_DEPOSITS: &str = "Custom(2)";
pub const PERIOD: &str = "Custom(3)";
pub const PAST: &str = "Custom(4)";
pub const OWED: &str = "Custom(6)";
pub const ZERO: &str = "Custom(7)";
pub const OTHERS: &str = "Custom(8)";
pub const NO_DATE: &str = "Custom(9)";
pub const SAME: &str = "Custom(10)";
pub const INIT: &str = "Custom(12)";
pub const MINING: &str = "Custom(13)";
pub const DERIVE: &str = "Custom(14)";
pub const PENALTY: &str = "Custom(15)";
pub const OWNER: &str = "Custom(0)";
pub const EXISTS: &str = "AccountAlreadyInitialized";
pub const SIGNATURE: &str = "MissingRequiredSignature";
pub const FEW: &str = "NotEnoughAccountKeys";
pub const ARGUMENT: &str = "InvalidArgument";
pub const SEEDS: &str = "InvalidSeeds";
pub const DATA: &str = "BorshIoError";

/// the errors of all faults the operation has in this state; empty: nothing is claimed
pub fn of_op(m: &MPool, op: &Op, now: i64, claimable: u128, src: u64) -> Vec<&'static str> {
    let mut e = vec![];
    let mut is = |c: bool, code: &'static str| {
        if c && !e.contains(&code) {
            e.push(code)
        }
    };
    let sum = |xs: &[i128]| xs.iter().sum::<i128>() > U64M;
    match *op {
        Op::Fill { amount, ends, .. } => {
            let d = ends as i128 - ends as i128 % DAY as i128;
            is(amount == 0, ZERO);
            is(d < day(now) as i128, PAST);
            is(d < m.ends_at || m.avail + amount as u128 > u64::MAX as u128, MATH);
            // whatever the token program says
            is(src < amount, "runtime");
        }
        Op::Distribute { .. } => is(m.total == 0, NO_DEPOSITS),
        Op::InitMining { u, .. } => is(m.m[u].exists, EXISTS),
        Op::Deposit { u, amount, period, .. } => {
            is(period == 0, PERIOD);
            let a = amount as i128;
            is(sum(&[a * 7, m.m[u].share, m.total]), MATH);
        }
        Op::Withdraw { .. } => is(true, MATH),
        Op::Claim { .. } => {}
        Op::Extend { u, old, new, start, base, add, del, .. } => {
            if start > 1 << 62 {
                return vec![];
            }
            is(old == 0 || new == 0, PERIOD);
            let p = [Period::None, Period::Flex, Period::M3, Period::M6, Period::Y1][old as usize];
            let exp = if p == Period::Flex || p == Period::None { 0 } else { day(start as i64) + p.days() * DAY };
            let b = base as i128;
            let live = now < exp;
            let part = if live { b * p.mult() } else { b };
            if live {
                for map in [&m.m[u].diffs, &m.diffs] {
                    match map.get(&exp) {
                        None => is(true, NO_DATE),
                        Some(x) => {
                            is(b * p.mult() - b > *x, MATH);
                            // a date on which nothing is dropped need not be kept
                            is(*x == 0 && b * p.mult() > b, NO_DATE);
                        }
                    }
                }
            }
            is(part > U64M || part > m.m[u].share || part > m.total, MATH);
            is(del != u && (b > m.m[del].sfo || part + b > m.total), MATH);
            is(sum(&[b * 6]) || sum(&[(b + add as i128) * 7, m.m[u].share, m.total]), MATH);
        }
        Op::Close { u, .. } => {
            is(m.m[u].sfo > 0, OTHERS);
            is(claimable > 0, OWED);
        }
        Op::ChangeDelegate { u, amount, old, new, .. } => {
            is(old == new, SAME);
            let a = amount as i128;
            is(old != u && a > m.m[old].sfo, MATH);
            is(new != u && sum(&[m.total * 6, a]) || a > m.total, MATH);
        }
        Op::Slash { u, native, mult, expiry, .. } => {
            let mi = mult as i128;
            is(mi > m.m[u].share || mi > m.total, MATH);
            if let Some(x) = expiry {
                is((native as i128) > mi, MATH);
                let d = if x > 1 << 62 { i64::MAX } else { day(x as i64) };
                for map in [&m.m[u].diffs, &m.diffs] {
                    match map.get(&d) {
                        None => is(true, NO_DATE),
                        Some(y) => {
                            is(mi - native as i128 > *y, MATH);
                            is(*y == 0 && mi > native as i128, NO_DATE);
                        }
                    }
                }
            }
        }
        Op::Penalty { u, n, .. } => is(n as i128 > m.m[u].share, PENALTY),
        Op::AdvanceTo { .. } => {}
    }
    e
}

/// the error without its details
pub fn name(f: &Fail) -> String {
    match f {
        Fail::Err(s) => s.split('(').next().filter(|x| *x != "Custom").unwrap_or(s).to_string(),
        Fail::Runtime(_) => "runtime".into(),
        f => f.short(),
    }
}

/// positions of the signers, and of the accounts with a prescribed owning program
const SIGNERS: [&[usize]; 12] = [&[3, 4], &[3], &[2], &[2], &[2], &[4, 5], &[2], &[1], &[1, 3], &[2, 3], &[0], &[0]];
const OWNED: [&[usize]; 12] =
    [&[0, 1], &[0, 1, 2, 4], &[0], &[0, 1, 3], &[0, 1, 3], &[0, 1, 2, 3, 6], &[0, 1, 3], &[0], &[0, 2, 4], &[0, 1, 4, 5], &[1, 2], &[1, 2]];
/// accounts the call has, authorities whose key the pool records, programs and sysvars
const NEED: [usize; 12] = [8, 6, 4, 4, 4, 8, 4, 2, 5, 6, 3, 3];
const RECORDED: [&[usize]; 12] = [&[], &[3], &[], &[2], &[2], &[5], &[2], &[1], &[3], &[2], &[0], &[0]];
const FIXED: [&[usize]; 12] = [&[5, 6, 7], &[5], &[3], &[], &[], &[7], &[], &[], &[], &[], &[], &[]];

#[derive(Default)]
struct Seen {
    tries: u64,
    kinds: HashSet<u64>,
}

fn faults(s: &Stage, rng: &mut Rng, ix: &Ix, seen: &mut Seen) -> R<()> {
    let k = ix.data[0] as usize;
    let mut one = |what: &str, pos: usize, bank: &Bank, x: &Ix, want: &[&str]| -> R<()> {
        seen.tries += 1;
        match bank.exec_named(x) {
            Ok(_) => viol(&["P29", "P08", "P09", "P23"], format!("{} with {what} #{pos} is accepted", NAMES[k])),
            Err(f) => {
                let got = name(&f);
                seen.kinds.insert(fnv(&format!("{k} {what} {pos} {got}")));
                if want.contains(&got.as_str()) {
                    return Ok(());
                }
                viol(&["P29"], format!("{} with {what} #{pos} fails with {} instead of {want:?}", NAMES[k], f.short()))
            }
        }
    };
    let key = |i: usize| ix.metas[i].key;
    for &i in SIGNERS[k] {
        let mut x = ix.clone();
        x.metas.iter_mut().filter(|m| m.key == key(i)).for_each(|m| m.signer = false);
        one("no signature of account", i, &s.bank, &x, &[SIGNATURE])?;
    }
    for n in 0..NEED[k] {
        if rng.p(0.5) {
            let mut x = ix.clone();
            x.metas.truncate(n);
            // with the account that signs for the vault's or source's transfer gone, others may come first
            one("no accounts from", n, &s.bank, &x, &[FEW])?;
        }
    }
    for &i in OWNED[k] {
        let mut bank = s.bank.clone();
        let mut a = bank.get(&key(i));
        a.owner = Pubkey::new_from_array(rng.bytes32());
        bank.set(key(i), a);
        one("another program owning account", i, &bank, ix, &[OWNER])?;
    }
    for &i in FIXED[k] {
        let mut x = ix.clone();
        x.metas[i].key = *rng.pick(&s.universe);
        if x.metas[i].key != key(i) {
            one("another account in place of", i, &s.bank, &x, &[ARGUMENT])?;
        }
    }
    for &i in RECORDED[k] {
        let mut x = ix.clone();
        let who = Pubkey::new_from_array(rng.bytes32());
        let mut bank = s.bank.clone();
        bank.set(who, Acct::wallet(1 << 40));
        x.metas[i].key = who;
        one("a stranger signing in place of", i, &bank, &x, &[ARGUMENT])?;
    }
    for cut in [1, 1 + rng.idx(ix.data.len())] {
        let mut x = ix.clone();
        x.data.truncate(x.data.len() - cut);
        one("bytes missing in its data", cut, &s.bank, &x, &[DATA])?;
    }
    let mut x = ix.clone();
    x.data.extend(&rng.bytes32()[..1 + rng.idx(8)]);
    one("bytes after its data", 0, &s.bank, &x, &[DATA])?;
    let mut x = ix.clone();
    x.data[0] = 12 + rng.idx(244) as u8;
    one("an unknown number", 0, &s.bank, &x, &[DATA])?;
    // the delegate named is not the one whose mining is given
    let arg = match k {
        3 if key(3) != key(1) => 42,
        4 if key(3) != key(1) => 41,
        6 if key(3) != key(1) => 59,
        9 if key(5) != key(1) => 9,
        _ => 0,
    };
    if arg > 0 {
        let mut x = ix.clone();
        let who = if rng.p(0.5) { *rng.pick(&s.w.users) } else { Pubkey::new_from_array(rng.bytes32()) };
        if x.data[arg..arg + 32] != who.to_bytes() {
            x.data[arg..arg + 32].copy_from_slice(who.as_ref());
            one("another delegate named than given", 0, &s.bank, &x, &[MINING, DERIVE])?;
        }
    }
    // somebody else named as the owner, or signing as the owner
    let arg = match k {
        3 => 10,
        4 => 9,
        6 => 27,
        10 | 11 => 1,
        _ => 0,
    };
    if arg > 0 {
        let mut x = ix.clone();
        let who = if rng.p(0.5) { *rng.pick(&s.w.users) } else { Pubkey::new_from_array(rng.bytes32()) };
        if x.data[arg..arg + 32] != who.to_bytes() {
            x.data[arg..arg + 32].copy_from_slice(who.as_ref());
            one("another owner named than the mining's", 0, &s.bank, &x, &[ARGUMENT, SEEDS])?;
        }
    }
    let at = match k {
        5 => 4,
        8 => 1,
        9 => 3,
        _ => 0,
    };
    if at > 0 {
        let who = Pubkey::new_from_array(rng.bytes32());
        let mut bank = s.bank.clone();
        bank.set(who, Acct::wallet(1 << 40));
        let mut x = ix.clone();
        x.metas[at].key = who;
        one("somebody else signing as the owner in place of", at, &bank, &x, &[ARGUMENT, SEEDS])?;
    }
    // tokens elsewhere: the vault of another pool, the account of somebody else
    for at in match k {
        1 => vec![2],
        5 => vec![2, 6],
        _ => vec![],
    } {
        let who = Pubkey::new_from_array(rng.bytes32());
        let mut bank = s.bank.clone();
        let mut a = bank.get(&key(at));
        std::sync::Arc::make_mut(&mut a.data)[32..64].copy_from_slice(&rng.bytes32());
        bank.set(who, a);
        let mut x = ix.clone();
        x.metas[at].key = who;
        one("another token account in place of", at, &bank, &x, &[ARGUMENT])?;
    }
    if k == 2 {
        let mut x = ix.clone();
        x.metas[1].key = Pubkey::new_from_array(rng.bytes32());
        one("another address than the mining's in place of", 1, &s.bank, &x, &[ARGUMENT])?;
    }
    if k == 0 {
        for len in [POOL_LEN - 8, POOL_LEN + 8, POOL_LEN * 2, 0] {
            let mut bank = s.bank.clone();
            bank.set(key(0), Acct::with_data(mplx_rewards::ID, vec![0; len]));
            one("a pool account of another size", len, &bank, ix, &[ARGUMENT])?;
        }
        let mut x = ix.clone();
        x.metas[2].key = Pubkey::new_from_array(rng.bytes32());
        one("another address than the vault's in place of", 2, &s.bank, &x, &[ARGUMENT])?;
        let mut bank = s.bank.clone();
        if bank.run(ix).is_ok() {
            one("a second call", 0, &bank, ix, &[EXISTS, INIT])?;
            // with another mint, whose vault does not exist yet
            let mint = Pubkey::new_from_array(rng.bytes32());
            bank.set(mint, bank.get(&key(1)));
            let mut x = ix.clone();
            x.metas[1].key = mint;
            x.metas[2].key = vault_pda(&key(0), &mint).0;
            one("a second call for another mint", 0, &bank, &x, &[EXISTS, INIT])?;
        }
    }
    Ok(())
}

/// a staker, or a pool, whose storage is full: whatever is refused then says so
fn full(rng: &mut Rng, id: Id) -> Out {
    let t0 = start_time(rng);
    let mut w = match World::new(rng, 1, 2, t0, SRC_TOKENS, Some(id)) {
        Ok(w) => w,
        Err(e) => return Out { res: Some(e), evals: 1, ..Default::default() },
    };
    let mut keys = vec![];
    let r = (|| -> R<()> {
        w.watch = false;
        for u in 0..2 {
            act(&mut w, Op::InitMining { p: 0, u }, Eff::None)?;
        }
        act(&mut w, Op::Fill { p: 0, amount: 1 << 40, ends: (t0 + 2000 * DAY) as u64 }, Eff::None)?;
        let h = w.pools[0].clone();
        let ask = |w: &mut World, ix: &Ix, what: &'static str, n: u64, keys: &mut Vec<u64>| -> R<bool> {
            match w.bank.run(ix) {
                Ok(_) => Ok(true),
                Err(f) => {
                    w.st.count("refusals for want of room", 1);
                    keys.push(fnv(&format!("{what} {n}")));
                    match name(&f).as_str() {
                        "AccountDataTooSmall" => Ok(false),
                        _ => viol(&["P29"], format!("{what} number {n} fails with {} instead of AccountDataTooSmall", f.short())),
                    }
                }
            }
        };
        if rng.p(0.5) {
            let period = *rng.pick(&[2u8, 3, 4]);
            let mut extended = false;
            for n in 0..60 {
                let ix = deposit(&h.key, &h.mining[0], &h.dep, &h.mining[0], 10, period, &w.users[0], &w.users[0]);
                if !ask(&mut w, &ix, "deposit on a further day", n, &mut keys)? {
                    // an extension needs the same room
                    if n > 1 && !extended {
                        let start = (t0 + DAY) as u64;
                        let ix = extend(&h.key, &h.mining[0], &h.dep, &h.mining[0], period, period, start, 10, 5, &w.users[0], &w.users[0]);
                        extended = ask(&mut w, &ix, "extension to a further day", n, &mut keys)?;
                    }
                }
                w.bank.now += DAY;
            }
        } else {
            let ix = deposit(&h.key, &h.mining[0], &h.dep, &h.mining[0], 1000, 1, &w.users[0], &w.users[0]);
            ask(&mut w, &ix, "deposit", 0, &mut keys)?;
            for n in 0..1105 {
                w.bank.now += DAY;
                ask(&mut w, &distribute(&h.key, &h.dist), "distribution on a further day", n, &mut keys)?;
            }
        }
        Ok(())
    })();
    let mut o = pack(id, Some(w), r);
    o.evals = o.st.counters.get("refusals for want of room").copied().unwrap_or(0);
    o.keys.extend(keys);
    o
}

pub fn job_reasons(id: Id, job: usize, rng: &mut Rng) -> Out {
    if job % 40 == 7 {
        return full(rng, id);
    }
    let mut cfg = Cfg::base();
    cfg.pools = 1 + rng.idx(2);
    cfg.users = 2 + rng.idx(4);
    cfg.steps = 40 + rng.idx(60);
    cfg.amounts = *rng.pick(&[Amounts::Mixed, Amounts::Small, Amounts::Mid]);
    cfg.wild = 0.5;
    cfg.exit = 0.0;
    cfg.probe = 0.0;
    if rng.p(0.5) {
        cfg.w[W_PEN] = 5;
    }
    let t0 = start_time(rng);
    let mut seen = Seen::default();
    let (w, r) = history(rng, &cfg, t0, Some(id), &mut |w, rng| {
        if !rng.p(0.05) {
            return Ok(());
        }
        let s = Stage::new(w, rng);
        let kinds: Vec<u8> = (0..12).collect();
        for ix in s.valid(rng, &kinds) {
            if s.bank.exec(&ix).is_ok() {
                faults(&s, rng, &ix, &mut seen)?;
            }
        }
        Ok(())
    });
    let mut o = pack(id, w, r);
    o.evals = seen.tries + o.st.counters.get("refusals whose error was judged").copied().unwrap_or(0);
    o.keys.extend(seen.kinds);
    o.st.count("calls with one fault", seen.tries);
    o
}
