//! What may decide an instruction's outcome: its data, the signatures, the accounts it names and
//! the day. Everything else is varied here and must make no difference.
use crate::gen::*;
use crate::hostile::fnv;
use crate::model::Op;
use crate::rng::Rng;
use crate::svm::*;
use crate::wire::*;
use crate::world::*;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::sync::Arc;

/// what an accepted call did to one account
#[derive(Debug, PartialEq, Eq)]
enum Change {
    Token { amount: i128, rest: bool },
    Data(Arc<Vec<u8>>),
    Same,
}
type Effect = BTreeMap<Pubkey, (i128, Pubkey, Change)>;

fn effect(b: &Bank, d: &Delta, op: &Op) -> Effect {
    let lam = !matches!(op, Op::Close { .. } | Op::InitMining { .. });
    let mut e = Effect::new();
    for (k, a) in &d.changes {
        let pre = b.get(k);
        let dl = if lam { a.lamports as i128 - pre.lamports as i128 } else { 0 };
        let c = if a.data == pre.data {
            Change::Same
        } else if a.data.len() == 165 && pre.data.len() == 165 && pre.owner == spl_token::ID {
            let rest = a.data[..64] == pre.data[..64] && a.data[72..] == pre.data[72..];
            Change::Token { amount: token_amount(&a.data) as i128 - token_amount(&pre.data) as i128, rest }
        } else {
            Change::Data(a.data.clone())
        };
        e.insert(*k, (dl, a.owner, c));
    }
    e
}

fn give(b: &mut Bank, k: &Pubkey, n: u64) {
    let mut a = b.get(k);
    a.lamports = a.lamports.saturating_add(n);
    b.set(*k, a);
}
fn put_u64(b: &mut Bank, k: &Pubkey, o: usize, f: impl FnOnce(u64) -> u64) {
    let mut a = b.get(k);
    let d = Arc::make_mut(&mut a.data);
    let v = f(u64::from_le_bytes(d[o..o + 8].try_into().unwrap()));
    d[o..o + 8].copy_from_slice(&v.to_le_bytes());
    b.set(*k, a);
}

/// the same call in circumstances that must not matter
fn circumstances(w: &World, rng: &mut Rng, op: &Op, ix: &Ix) -> Vec<(&'static str, Bank, Ix)> {
    let mut out = vec![];
    let p = op.pool().unwrap();
    let h = &w.pools[p];
    let now = w.bank.now;
    // another hour of the same day, another slot, another epoch
    let dist = matches!(op, Op::Distribute { .. });
    {
        let mut b = w.bank.clone();
        b.skew = 1 + (rng.u64() >> (1 + rng.idx(60)));
        out.push(("other slot and epoch", b.clone(), ix.clone()));
        if !(dist && now == day(now)) {
            let lo = dist as i64;
            let any = rng.range(lo, DAY - 1);
            b.now = day(now) + *rng.pick(&[lo, lo + 1, DAY - 1, any]);
            out.push(("another hour", b, ix.clone()));
        }
    }
    // more accounts behind the named ones
    {
        let mut x = ix.clone();
        for _ in 0..1 + rng.idx(4) {
            let q = rng.idx(w.pools.len());
            let g = &w.pools[q];
            let u = rng.idx(w.users.len());
            let key = match rng.idx(12) {
                0 => g.key,
                1 => g.vault,
                2 | 3 => g.mining[u],
                4 => g.tok[u],
                5 => w.users[u],
                6 => spl_token::ID,
                7 => solana_program::system_program::ID,
                8 => solana_program::sysvar::rent::ID,
                9 => mplx_rewards::ID,
                10 => w.target,
                _ => Pubkey::new_from_array(rng.bytes32()),
            };
            x.metas.push(Meta { key, signer: rng.p(0.3), writable: rng.p(0.5) });
        }
        out.push(("more accounts", w.bank.clone(), x));
    }
    // lamports that somebody sent
    {
        let mut b = w.bank.clone();
        for m in &ix.metas {
            let a = b.get(&m.key);
            let fresh = matches!(op, Op::InitMining { .. }) && a.lamports == 0;
            if !a.executable && a.owner != solana_program::sysvar::ID && !fresh && rng.p(0.7) {
                give(&mut b, &m.key, 1 + (rng.u64() >> (24 + rng.idx(38))));
            }
        }
        out.push(("surplus lamports", b, ix.clone()));
    }
    // tokens that somebody sent, another state of the mint
    {
        let mut b = w.bank.clone();
        for k in [vec![h.vault], h.tok.clone()].concat() {
            if rng.p(0.7) {
                put_u64(&mut b, &k, 64, |v| v.max(v.saturating_add(1 + (rng.u64() >> (2 + rng.idx(60)))).min(1 << 62)));
            }
        }
        let mut a = b.get(&h.mint);
        let d = Arc::make_mut(&mut a.data);
        d[44] = *rng.pick(&[0, 1, 6, 9, 18]);
        let s = rng.u64();
        d[36..44].copy_from_slice(&s.to_le_bytes());
        if rng.p(0.5) {
            d[0..4].copy_from_slice(&0u32.to_le_bytes());
        }
        b.set(h.mint, a);
        out.push(("surplus tokens, other mint", b, ix.clone()));
    }
    // who else may sign: wallets, derived addresses without or with an account of any program
    {
        let mut b = w.bank.clone();
        for m in ix.metas.iter().filter(|m| m.signer && m.key != w.payer) {
            b.set(m.key, signer_account(rng));
        }
        out.push(("other kinds of signers", b, ix.clone()));
    }
    out
}

fn compare(w: &World, rng: &mut Rng, op: &Op, ix: &Ix, st: &mut Stats, keys: &mut Vec<u64>, part: f64) -> R<()> {
    let base = w.bank.exec_real(ix);
    let want = base.as_ref().ok().map(|d| (effect(&w.bank, d, op), d.ret.clone()));
    for (name, b, x) in circumstances(w, rng, op, ix) {
        if !rng.p(part) {
            continue;
        }
        let got = b.exec_real(&x);
        st.count(name, 1);
        st.steps += 1;
        match (&want, &got) {
            (None, Err(_)) => st.count("refused alike", 1),
            (Some(e), Ok(d)) => {
                let f = (effect(&b, d, op), d.ret.clone());
                if *e != f {
                    let k = e.0.keys().chain(f.0.keys()).find(|k| e.0.get(k) != f.0.get(k)).copied();
                    let short = |e: &Effect| k.and_then(|k| e.get(&k)).map(|x| format!("{x:?}").chars().take(300).collect::<String>());
                    return viol(&["P26"], format!("{op:?} has another effect ({name}): account {k:?} {:?} instead of {:?}, returns {:?} instead of {:?}", short(&f.0), short(&e.0), f.1, e.1));
                }
                keys.push(fnv(&format!("{name} {op:?} {}", w.bank.now)));
                st.count("accepted alike", 1);
            }
            (Some(_), Err(e)) => return viol(&["P26"], format!("{op:?} is refused ({name}): {}", e.short())),
            (None, Ok(_)) => return viol(&["P26"], format!("{op:?} is accepted ({name}), otherwise refused: {}", base.as_ref().err().unwrap().short())),
        }
    }
    Ok(())
}

fn moved(op: &Op, s: i64) -> Op {
    let f = |t: u64| if (1_000_000_000..20_000_000_000).contains(&t) { (t as i64 + s) as u64 } else { t };
    let mut o = op.clone();
    match &mut o {
        Op::Fill { ends, .. } => *ends = f(*ends),
        Op::Extend { start, .. } => *start = f(*start),
        Op::Slash { expiry: Some(e), .. } => *e = f(*e),
        Op::AdvanceTo { t } => *t += s,
        _ => {}
    }
    o
}

/// everything but keys and dates
fn same_numbers(a: &World, b: &World, s: i64) -> R<()> {
    for (x, y) in a.pools.iter().zip(&b.pools) {
        let (p, q) = (a.bank.get(&x.key).data, b.bank.get(&y.key).data);
        let (hp, hq) = (pool_hdr(&p).unwrap(), pool_hdr(&q).unwrap());
        let same = (hp.index, hp.total, hp.available, hp.kind) == (hq.index, hq.total, hq.available, hq.kind)
            && (hq.ends_at as i64 - hp.ends_at as i64 == s || (hp.ends_at == 0 && hq.ends_at == 0))
            && (s != 0 || p[169..] == q[169..]);
        if !same {
            return viol(&["P26"], format!("pool is {hq:?} instead of {hp:?}"));
        }
        if token_amount(&a.bank.get(&x.vault).data) != token_amount(&b.bank.get(&y.vault).data) {
            return viol(&["P26"], "vaults differ".into());
        }
        for u in 0..a.users.len() {
            let (p, q) = (a.bank.get(&x.mining[u]).data, b.bank.get(&y.mining[u]).data);
            if p.len() != q.len() {
                return viol(&["P26"], format!("mining of staker {u} has {} instead of {} bytes", q.len(), p.len()));
            }
            if p.is_empty() {
                continue;
            }
            if p[96..136] != q[96..136] || (s == 0 && p[137..] != q[137..]) {
                return viol(&["P26"], format!("mining of staker {u} is {:?} instead of {:?}", mining_hdr(&q), mining_hdr(&p)));
            }
            if token_amount(&a.bank.get(&x.tok[u]).data) != token_amount(&b.bank.get(&y.tok[u]).data) {
                return viol(&["P26"], format!("staker {u} was paid otherwise"));
            }
        }
    }
    Ok(())
}

/// replays a history; on the way every call is repeated in other circumstances, and the whole
/// history is repeated with other keys, on other days
pub fn replay(log: &[Op], start: &World, rng: &mut Rng, st: &mut Stats, keys: &mut Vec<u64>, part: f64) -> R<()> {
    let mut a = start.clone();
    a.watch = false;
    let mut others = vec![];
    for s in [0, rng.range(-4000, 6000) * DAY] {
        let mut b = World::new(rng, start.pools.len(), start.users.len(), start.t0 + s, SRC_TOKENS, Some("P26"))?;
        b.bank.skew = rng.u64() >> 8;
        others.push((s, b));
    }
    for op in log {
        if let Op::AdvanceTo { t } = op {
            a.bank.now = *t;
            for (s, b) in &mut others {
                b.bank.now = *t + *s;
            }
            continue;
        }
        let ix = a.build(op);
        compare(&a, rng, op, &ix, st, keys, part)?;
        let ra = a.bank.exec_real(&ix);
        if let Ok(d) = &ra {
            a.bank.commit(d);
        }
        for (s, b) in &mut others {
            let op = moved(op, *s);
            let rb = b.bank.exec_real(&b.build(&op));
            st.steps += 1;
            let what = if *s == 0 { "with other keys" } else { "with other keys on another day" };
            match (&ra, &rb) {
                (Ok(x), Ok(y)) if x.ret != y.ret => return viol(&["P26"], format!("{op:?} {what} returns {:?} instead of {:?}", y.ret, x.ret)),
                (Ok(_), Err(e)) => return viol(&["P26"], format!("{op:?} {what} (start {}) is refused: {}", b.t0, e.short())),
                (Err(e), Ok(_)) => return viol(&["P26"], format!("{op:?} {what} (start {}) is accepted, otherwise refused: {}", b.t0, e.short())),
                _ => {}
            }
            if let Ok(d) = &rb {
                b.bank.commit(d);
                st.count(what, 1);
                if let Err(Stop::Viol(mut v)) = same_numbers(&a, b, *s) {
                    v.msg = format!("after {op:?} {what} (start {}): {}", b.t0, v.msg);
                    return Err(Stop::Viol(v));
                }
            }
        }
    }
    Ok(())
}

/// a history and its repetitions
pub fn run(cfg: &Cfg, t0: i64, rng: &mut Rng) -> (Option<World>, Vec<u64>, R<()>) {
    let start = match World::new(rng, cfg.pools, cfg.users, t0, SRC_TOKENS, Some("P26")) {
        Ok(w) => w,
        Err(e) => return (None, vec![], Err(e)),
    };
    let mut w = start.clone();
    let r = history_in(&mut w, rng, cfg, &mut |_, _| Ok(()));
    let mut keys = vec![];
    let mut st = Stats::default();
    let log = w.log.clone();
    let part = *rng.pick(&[0.2, 0.5]);
    let mut r2 = replay(&log, &start, rng, &mut st, &mut keys, part);
    if r2.is_ok() {
        r2 = r.and(Ok(()));
    }
    w.st.add(&st);
    (Some(w), keys, r2)
}
