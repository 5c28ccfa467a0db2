//! P30: what the crate's functions tell other programs and clients, against what the program then does
use borsh::{BorshDeserialize, BorshSerialize};
use mon::checks::{drive, job_rng, pack, start_time, Out, Plan};
use mon::gen::{history, Amounts, Cfg, W_PEN};
use mon::hostile::fnv;
use mon::rng::Rng;
use mon::svm::{at_time, Bank};
use mon::wire::{self, mining_hdr, pool_hdr, DAY};
use mon::model::Op;
use mon::world::{viol, World, R};
use mplx_rewards::utils::{create_mining_address, find_mining_program_address, find_vault_program_address, LockupPeriod};
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, HashSet};
use std::time::Duration;

const ID: &str = "P30";
const REAL: [LockupPeriod; 4] = [LockupPeriod::Flex, LockupPeriod::ThreeMonths, LockupPeriod::SixMonths, LockupPeriod::OneYear];

fn bad<T>(m: String) -> R<T> {
    viol(&[ID], m)
}

type Counts = BTreeMap<&'static str, u64>;

/// a call of the library that must not panic
fn call<T>(now: i64, what: &str, f: impl FnOnce() -> T) -> R<T> {
    match at_time(now, f) {
        Ok(x) => Ok(x),
        Err(e) => bad(format!("{what} panics: {e}")),
    }
}

/// lockup periods by themselves
fn periods(rng: &mut Rng, n: &mut Counts) -> R<()> {
    let all = [LockupPeriod::None, REAL[0], REAL[1], REAL[2], REAL[3]];
    for (i, a) in all.iter().enumerate() {
        let enc = a.try_to_vec_();
        if enc != [i as u8] || LockupPeriod::try_from_slice(&enc).ok() != Some(*a) {
            return bad(format!("{a:?} is encoded as {enc:?}"));
        }
        for (j, b) in all.iter().enumerate() {
            if a.cmp(b) != i.cmp(&j) || (a == b) != (i == j) {
                return bad(format!("{a:?} compares with {b:?} as {:?}", a.cmp(b)));
            }
        }
    }
    let t = match rng.idx(5) {
        0 => rng.below(4 * DAY as u64),
        1 => rng.below(1 << 31),
        2 => rng.below(1 << 40),
        3 => rng.below(1 << 62),
        _ => (rng.below(1 << 20) + 2) * DAY as u64 - rng.below(3),
    };
    let day = t - t % DAY as u64;
    use mplx_rewards::error::MplxRewardsError::InvalidLockupPeriod as Invalid;
    if call(0, "end_timestamp", || LockupPeriod::None.end_timestamp(t))? != Err(Invalid) || call(0, "days", || LockupPeriod::None.days())? != Err(Invalid) {
        return bad("no period has an end".to_string());
    }
    if LockupPeriod::None.multiplier() != 0 {
        return bad(format!("no period has the multiplier {}", LockupPeriod::None.multiplier()));
    }
    for p in REAL {
        let end = call(0, "end_timestamp", || p.end_timestamp(t))?;
        let days = call(0, "days", || p.days())?;
        match (&end, &days) {
            (Ok(e), Ok(d)) if *e == day + d * DAY as u64 => {}
            _ => return bad(format!("{p:?} from {t}: ends at {end:?}, {days:?} days from the start of the day {day}")),
        }
    }
    *n.entry("ends of periods compared").or_default() += 4;
    Ok(())
}

trait Enc {
    fn try_to_vec_(&self) -> Vec<u8>;
}
impl<T: BorshSerialize> Enc for T {
    fn try_to_vec_(&self) -> Vec<u8> {
        let mut v = vec![];
        self.serialize(&mut v).unwrap();
        v
    }
}

/// addresses computed for other programs and keys
fn addresses(w: &World, rng: &mut Rng, n: &mut Counts) -> R<()> {
    let key = |rng: &mut Rng| Pubkey::new_from_array(rng.bytes32());
    for (p, h) in w.pools.iter().enumerate() {
        let vb = pool_hdr(&w.bank.get(&h.key).data).map(|x| x.bump);
        if find_vault_program_address(&mplx_rewards::ID, &h.key, &h.mint) != (h.vault, vb.unwrap_or(0)) {
            return bad(format!("vault of pool {p} is at {} with bump {vb:?}, announced is {:?}", h.vault, find_vault_program_address(&mplx_rewards::ID, &h.key, &h.mint)));
        }
        for (u, k) in h.mining.iter().enumerate() {
            let (a, b) = find_mining_program_address(&mplx_rewards::ID, &w.users[u], &h.key);
            if a != *k || create_mining_address(&mplx_rewards::ID, &w.users[u], &h.key, b) != Ok(a) {
                return bad(format!("mining {u} of pool {p} is at {k}, announced is {a} with bump {b}"));
            }
            let d = w.bank.get(k);
            if let Some(m) = mining_hdr(&d.data).filter(|m| m.kind == 2) {
                if m.bump != b {
                    return bad(format!("mining {u} of pool {p} has bump {}, announced is {b}", m.bump));
                }
            }
            *n.entry("addresses compared").or_default() += 1;
        }
        // somebody new
        let owner = key(rng);
        let (a, b) = find_mining_program_address(&mplx_rewards::ID, &owner, &h.key);
        match w.bank.exec(&wire::init_mining(&h.key, &a, &w.payer, &owner)) {
            Ok(d) => {
                let m = d.get(&a).and_then(|x| mining_hdr(&x.data));
                if m.as_ref().map(|m| (m.owner, m.pool, m.bump)) != Some((owner, h.key, b)) {
                    return bad(format!("a mining created at the announced address {a} with bump {b} is {m:?}"));
                }
            }
            Err(e) => return bad(format!("a mining at the announced address is refused: {}", e.short())),
        }
    }
    // another deployment of the program
    let (id, x, y) = (key(rng), key(rng), key(rng));
    let (m, mb) = find_mining_program_address(&id, &x, &y);
    let (v, vb) = find_vault_program_address(&id, &x, &y);
    if (m, mb) != Pubkey::find_program_address(&[b"mining", x.as_ref(), y.as_ref()], &id) || (v, vb) != Pubkey::find_program_address(&[b"vault", x.as_ref(), y.as_ref()], &id) {
        return bad(format!("addresses announced for the program {id} are not its own"));
    }
    for bump in [mb, rng.below(256) as u8] {
        let want = Pubkey::create_program_address(&[b"mining", x.as_ref(), y.as_ref(), &[bump]], &id);
        if create_mining_address(&id, &x, &y, bump) != want {
            return bad(format!("address announced for the bump {bump} is not that of the seeds"));
        }
    }
    *n.entry("addresses compared").or_default() += 4;
    Ok(())
}

/// a staker's weight when everything due has been processed
fn weight(b: &Bank, w: &World, p: usize, u: usize) -> Option<u64> {
    let d = b.exec(&w.build(&Op::Claim { p, u })).ok()?;
    let k = w.pools[p].mining[u];
    let a = d.get(&k).cloned().unwrap_or_else(|| b.get(&k));
    mining_hdr(&a.data).map(|m| m.share)
}

/// a deposit weighs what its period's functions say, until when they say
fn lockups(w: &World, rng: &mut Rng, n: &mut Counts, keys: &mut HashSet<u64>) -> R<()> {
    let p = rng.idx(w.pools.len());
    let us: Vec<usize> = (0..w.users.len()).filter(|u| w.exists(p, *u)).collect();
    if us.is_empty() {
        return Ok(());
    }
    let u = us[rng.idx(us.len())];
    let i = rng.idx(4);
    let amount = mon::gen::amount(rng, Amounts::Mixed);
    let (now, per) = (w.now(), REAL[i]);
    let op = Op::Deposit { p, u, amount, period: i as u8 + 1, del: u };
    let mut after = w.bank.clone();
    if after.run(&w.build(&op)).is_err() {
        return Ok(());
    }
    let end = match call(now, "end_timestamp", || per.end_timestamp(now as u64))? {
        Ok(e) => e as i64,
        Err(e) => return bad(format!("{per:?} from {now} has no end: {e:?}")),
    };
    let mut before = w.bank.clone();
    for (t, want) in [(now, amount as u128 * per.multiplier() as u128), (end - 1, amount as u128 * per.multiplier() as u128), (end, amount as u128), (end + 2 * DAY, amount as u128)] {
        if t < now {
            return bad(format!("{per:?} from {now} ends at {end}, before it begins"));
        }
        before.now = t;
        after.now = t;
        let (Some(a), Some(b)) = (weight(&before, w, p, u), weight(&after, w, p, u)) else { continue };
        if b as i128 - a as i128 != want as i128 {
            return bad(format!("{amount} deposited for {per:?} at {now} weigh {} at {t}, announced are {want} (multiplier {}, end {end})", b as i128 - a as i128, per.multiplier()));
        }
        *n.entry("weights compared").or_default() += 1;
    }
    keys.insert(fnv(&format!("{per:?} {amount} {now}")));
    Ok(())
}

/// account contents where they may be read in place
#[allow(dead_code)]
struct Copy {
    buf: Vec<u128>,
    len: usize,
}
#[allow(dead_code)]
impl Copy {
    fn of(d: &[u8]) -> Copy {
        let mut c = Copy { buf: vec![0; d.len().div_ceil(16)], len: d.len() };
        c.bytes().copy_from_slice(d);
        c
    }
    fn bytes(&mut self) -> &mut [u8] {
        // SAFETY: the buffer is at least that long
        unsafe { std::slice::from_raw_parts_mut(self.buf.as_mut_ptr() as *mut u8, self.len) }
    }
}

/// what a distribution takes
#[cfg(feature = "amounts")]
fn amounts(w: &World, n: &mut Counts, keys: &mut HashSet<u64>) -> R<()> {
    use mplx_rewards::state::WrappedRewardPool;
    for (p, h) in w.pools.iter().enumerate() {
        for late in [0, 5 * 3600, DAY, 3 * DAY] {
            let mut bank = w.bank.clone();
            bank.now += late;
            let a = bank.get(&h.key);
            let was = pool_hdr(&a.data).expect("pool");
            let mut c = Copy::of(&a.data);
            let said = call(bank.now, "rewards_to_distribute", || WrappedRewardPool::from_bytes_mut(c.bytes()).and_then(|v| v.pool.rewards_to_distribute()))?;
            let Ok(d) = bank.exec(&wire::distribute(&h.key, &h.dist)) else { continue };
            let Some(is) = d.get(&h.key).and_then(|x| pool_hdr(&x.data)) else { continue };
            // a second one on the same day takes nothing
            if w.m[p].dist_days.contains(&wire::day(bank.now)) {
                continue;
            }
            if said != Ok(was.available - is.available) {
                return bad(format!("pool {p}: a distribution takes {} of {}, announced is {said:?}", was.available - is.available, was.available));
            }
            keys.insert(fnv(&format!("{} {} {}", was.available, was.ends_at, bank.now)));
            *n.entry("announced distributions compared").or_default() += 1;
            if was.available != is.available {
                *n.entry("of something").or_default() += 1;
            }
        }
    }
    Ok(())
}
#[cfg(not(feature = "amounts"))]
fn amounts(_: &World, _: &mut Counts, _: &mut HashSet<u64>) -> R<()> {
    Ok(())
}

/// what a claim pays
#[cfg(feature = "claims")]
fn claims(w: &World, n: &mut Counts, keys: &mut HashSet<u64>) -> R<()> {
    use mplx_rewards::state::{WrappedMining, WrappedRewardPool};
    for (p, h) in w.pools.iter().enumerate() {
        for u in (0..w.users.len()).filter(|u| w.exists(p, *u)) {
            for late in [0, DAY, 100 * DAY] {
                let mut bank = w.bank.clone();
                bank.now += late;
                let mut pc = Copy::of(&bank.get(&h.key).data);
                let mut mc = Copy::of(&bank.get(&h.mining[u]).data);
                let said = call(bank.now, "refresh_rewards", || {
                    let pool = WrappedRewardPool::from_bytes_mut(pc.bytes())?;
                    let mut m = WrappedMining::from_bytes_mut(mc.bytes())?;
                    m.refresh_rewards(pool.cumulative_index)?;
                    Ok::<_, solana_program::program_error::ProgramError>(m.mining.unclaimed_rewards)
                })?;
                let Ok(d) = bank.exec(&w.build(&Op::Claim { p, u })) else { continue };
                let was = wire::token_amount(&bank.get(&h.tok[u]).data);
                let paid = d.get(&h.tok[u]).map(|a| wire::token_amount(&a.data)).unwrap_or(was) - was;
                if said != Ok(paid) {
                    return bad(format!("pool {p}, staker {u}: a claim pays {paid}, announced is {said:?}"));
                }
                keys.insert(fnv(&format!("{paid} {p} {u}")));
                *n.entry("announced claims compared").or_default() += 1;
                if paid > 0 {
                    *n.entry("of some rewards").or_default() += 1;
                }
            }
        }
    }
    Ok(())
}
#[cfg(not(feature = "claims"))]
fn claims(_: &World, _: &mut Counts, _: &mut HashSet<u64>) -> R<()> {
    Ok(())
}

/// what an account is said to be
#[cfg(feature = "kinds")]
fn kinds(w: &World, rng: &mut Rng, n: &mut Counts) -> R<()> {
    use mplx_rewards::state::{AccountType, Mining, RewardPool, WrappedMining, WrappedRewardPool};
    use solana_program::program_pack::IsInitialized;
    for (i, t) in [AccountType::Uninitialized, AccountType::RewardPool, AccountType::Mining].into_iter().enumerate() {
        if u8::from(t.clone()) != i as u8 || AccountType::from(i as u8) != t || t.try_to_vec_() != [i as u8] {
            return bad(format!("{t:?} is not {i}"));
        }
    }
    if AccountType::default() != AccountType::Uninitialized {
        return bad(format!("an account is {:?} by default", AccountType::default()));
    }
    if RewardPool::default().is_initialized() || Mining::default().is_initialized() {
        return bad("what has not been initialised is said to be".into());
    }
    let pool_is = |d: &[u8]| call(0, "is_initialized", || WrappedRewardPool::from_bytes_mut(Copy::of(d).bytes()).map(|v| v.pool.is_initialized()).unwrap_or(false));
    let mining_is = |d: &[u8]| {
        call(0, "is_initialized", || WrappedMining::from_bytes_mut(Copy::of(d).bytes()).map(|v| (v.mining.is_initialized(), v.mining.account_type())).unwrap_or((false, AccountType::Uninitialized)))
    };
    let mut see = |d: &[u8], kind: u8| -> R<()> {
        *n.entry("kinds compared").or_default() += 1;
        if d.len() > 20_000 {
            let is = pool_is(d)?;
            if is != (kind == 1) {
                return bad(format!("an account of kind {kind} is said to be {}a pool", if is { "" } else { "not " }));
            }
        } else {
            let (is, t) = mining_is(d)?;
            if is != (kind == 2) || u8::from(t.clone()) != kind {
                return bad(format!("an account of kind {kind} is said to be {}a mining, and {t:?}", if is { "" } else { "not " }));
            }
        }
        Ok(())
    };
    for h in &w.pools {
        let a = w.bank.get(&h.key);
        see(&a.data, 1)?;
        let blank = vec![0u8; a.data.len()];
        see(&blank, 0)?;
        let mut other = a.data.to_vec();
        let at = 169;
        other[at] = 2;
        see(&other, 2)?;
        for k in &h.mining {
            let a = w.bank.get(k);
            if a.data.len() < 144 {
                continue;
            }
            see(&a.data, 2)?;
            see(&vec![0u8; a.data.len()], 0)?;
            let mut other = a.data.to_vec();
            other[137] = rng.below(2) as u8;
            let kind = other[137];
            see(&other, kind)?;
        }
    }
    Ok(())
}
#[cfg(not(feature = "kinds"))]
fn kinds(_: &World, _: &mut Rng, _: &mut Counts) -> R<()> {
    Ok(())
}

/// how long accounts are said to be
#[cfg(feature = "sizes")]
fn sizes(w: &World, n: &mut Counts) -> R<()> {
    use mplx_rewards::state::{WrappedMining, WrappedRewardPool};
    for h in &w.pools {
        let len = w.bank.get(&h.key).data.len();
        if len != WrappedRewardPool::LEN {
            return bad(format!("a pool has {len} bytes, announced are {}", WrappedRewardPool::LEN));
        }
        for k in &h.mining {
            let len = w.bank.get(k).data.len();
            if len != 0 && len != WrappedMining::LEN {
                return bad(format!("a mining has {len} bytes, announced are {}", WrappedMining::LEN));
            }
            *n.entry("sizes compared").or_default() += 1;
        }
    }
    Ok(())
}
#[cfg(not(feature = "sizes"))]
fn sizes(_: &World, _: &mut Counts) -> R<()> {
    Ok(())
}

fn job(rng: &mut Rng) -> Out {
    let mut cfg = Cfg::base();
    cfg.pools = 1 + rng.idx(2);
    cfg.users = 4;
    cfg.steps = 40 + rng.idx(60);
    cfg.wild = 0.02;
    cfg.probe = 0.0;
    // a penalty may shorten a later deposit's weight
    cfg.w[W_PEN] = 0;
    let t0 = start_time(rng);
    let mut keys: HashSet<u64> = HashSet::new();
    let mut n = Counts::new();
    let (w, r) = history(rng, &cfg, t0, Some(ID), &mut |w, rng| {
        w.watch = false;
        if !rng.p(0.2) {
            return Ok(());
        }
        periods(rng, &mut n)?;
        addresses(w, rng, &mut n)?;
        for _ in 0..2 {
            lockups(w, rng, &mut n, &mut keys)?;
        }
        amounts(w, &mut n, &mut keys)?;
        claims(w, &mut n, &mut keys)?;
        kinds(w, rng, &mut n)?;
        sizes(w, &mut n)
    });
    let mut o = pack(ID, w, r);
    o.evals = n.values().sum();
    o.keys = keys.into_iter().collect();
    for (k, v) in n {
        o.st.count(k, v);
    }
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let seed = get("--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|x| x.parse().ok()).unwrap_or(1);
    let thorough = a.iter().any(|x| x == "--thorough") || std::env::var("VERIF_TIER").map(|x| x == "thorough").unwrap_or(false);
    let ev = get("--evidence").unwrap_or("/verif/evidence".into());
    let only = get("--job").and_then(|x| x.parse().ok());
    let pl = Plan { jobs: if thorough { 20_000 } else { 600 }, cap: Duration::from_secs(if thorough { 600 } else { 120 }) };
    let rule = "a case is one comparison of what a function of the crate announces (a period's multiplier and end, an address, the amount of a distribution or claim, the kind or size of an account) with what the program does in a state of a generated history; non-trivial: distinct periods, amounts and times deposited, distributions and payments";
    let code = drive(ID, seed, thorough, &ev, only, pl, rule, &["the runtime of harness/src/svm.rs stands for the Solana runtime"], &|j| job(&mut job_rng(ID, seed, j)));
    std::process::exit(code);
}
