//! The checks: one workload mix per property, run on all cores, with evidence of what was observed.
use crate::gen::*;
use crate::hostile::*;
use crate::model::*;
use crate::rng::Rng;
use crate::svm::*;
use crate::wire::{self, *};
use crate::reasons::job_reasons;
use crate::work::{job_work, pile};
use crate::world::*;
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct Out {
    pub evals: u64,
    /// fingerprints of the non-trivial cases
    pub keys: Vec<u64>,
    pub sample: Option<String>,
    pub st: Stats,
    pub res: Option<Stop>,
    pub trace: String,
    pub notes: Vec<String>,
}

pub type Id = &'static str;

pub fn start_time(rng: &mut Rng) -> i64 {
    let base = *rng.pick(&[1_700_000_000i64, 1_709_164_800, 1_735_603_200, 1_600_000_000, 86_400 * 20_000]);
    let t = match rng.idx(4) {
        0 => day(base),
        1 => day(base) + DAY - 1,
        _ => base + rng.range(0, DAY),
    };
    // some histories begin shortly before the seconds outgrow 31 and 32 bits
    match t % 29 {
        3 => day(i32::MAX as i64) - 130 * DAY + t % DAY,
        7 => day(u32::MAX as i64) - 130 * DAY + t % DAY,
        _ => t,
    }
}

fn log_hash(w: &World) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for o in &w.log {
        for b in format!("{o:?}").bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
    h
}

fn cfg_for(id: Id, job: usize, rng: &mut Rng) -> Cfg {
    let mut c = Cfg::base();
    c.users = 2 + rng.idx(5);
    c.amounts = *rng.pick(&[Amounts::Mixed, Amounts::Mixed, Amounts::Small, Amounts::Mid, Amounts::Tiny]);
    c.times = *rng.pick(&[Times::Normal, Times::Normal, Times::Expiry, Times::Daily]);
    c.steps = 40 + rng.idx(60);
    if rng.p(0.15) {
        c.pools = 2;
    }
    if rng.p(0.04) {
        c.steps *= 4;
    }
    // a fifth of the histories is common to all checks
    if job % 5 == 4 {
        c.exit = 0.005;
        if rng.p(0.3) {
            c.w[W_PEN] = 6;
            c.exit = 0.0;
        }
        return c;
    }
    // many pending dates, then a long jump
    if job % 9 == 3 {
        c.times = Times::Burst;
        c.users = 2 + rng.idx(3);
        c.pools = 1;
        c.steps = 90 + rng.idx(80);
        c.tick = 0.9;
        c.daily = *rng.pick(&[0.0, 0.1, 0.5]);
        c.w = [8, *rng.pick(&[2, 6, 14]), 4, 80, 2, 4, 8, 1, 6, 4, 0];
        if id == "P13" || rng.p(0.15) {
            c.w[W_PEN] = 5;
        }
        c.wild = 0.03;
        c.deleg = *rng.pick(&[0.1, 0.5]);
        c.exit = if id == "P20" { 0.03 } else { 0.002 };
        if c.w[W_PEN] > 0 {
            c.exit = 0.0;
        }
        return c;
    }
    match id {
        "P02" => {
            c.daily = 0.8;
            c.w[W_CLAIM] = 14;
            if rng.p(0.3) {
                c.w[W_PEN] = 5;
            }
        }
        "P03" => {
            if rng.p(0.5) {
                c.w[W_PEN] = 8;
            }
            c.probe = 0.05;
        }
        "P04" => {
            c.times = *rng.pick(&[Times::Expiry, Times::Expiry, Times::Normal]);
            c.w[W_DEP] = 30;
            c.w[W_EXT] = 16;
            c.daily = 0.6;
            c.probe = 0.12;
        }
        "P05" => {
            c.w = [26, 40, 4, 16, 8, 6, 4, 2, 4, 2, 0];
            c.times = *rng.pick(&[Times::Normal, Times::Daily, Times::Daily, Times::Expiry]);
            c.daily = 0.5;
        }
        "P06" => c.w = [50, 14, 4, 14, 6, 6, 4, 2, 4, 2, 0],
        "P07" => {
            c.w[W_CLAIM] = 40;
            c.w[W_DIST] = 24;
            c.daily = 0.6;
        }
        "P11" => {
            c.deleg = 0.9;
            c.w[W_CHD] = 34;
            c.w[W_EXT] = 16;
            c.w[W_DIST] = 20;
            c.daily = 0.5;
        }
        "P12" => {
            c.w[W_SLASH] = 34;
            c.w[W_DEP] = 30;
            c.probe = 0.12;
            c.times = *rng.pick(&[Times::Expiry, Times::Normal]);
        }
        "P13" => {
            c.w[W_PEN] = 30;
            c.w[W_DEP] = 30;
            c.daily = 0.5;
            c.probe = 0.12;
            c.times = *rng.pick(&[Times::Expiry, Times::Normal]);
        }
        "P14" => {
            c.w[W_EXT] = 40;
            c.w[W_DEP] = 26;
            c.probe = 0.12;
            c.times = *rng.pick(&[Times::Expiry, Times::Normal]);
        }
        "P15" => {
            c.w[W_CLOSE] = 30;
            c.w[W_INIT] = 20;
            c.w[W_CLAIM] = 20;
            c.w[W_WD] = 20;
            c.daily = 0.6;
            c.wild = 0.15;
        }
        "P16" => {
            c.w[W_INIT] = 24;
            c.w[W_CLOSE] = 20;
            c.w[W_CLAIM] = 16;
        }
        "P19" => {
            c.w[W_DIST] = 24;
            c.w[W_CHD] = 18;
            c.daily = 0.5;
            if rng.p(0.4) {
                c.w[W_PEN] = 10;
            }
        }
        "P20" => c.exit = 0.06,
        "P24" => {
            c.w[W_DEP] = 40;
            c.w[W_WD] = 30;
            c.wild = 0.25;
            c.times = *rng.pick(&[Times::Expiry, Times::Normal]);
        }
        "P25" => {
            c.w[W_PEN] = 6;
            c.pools = 2;
            c.daily = 0.5;
        }
        "P01" => {
            c.daily = 0.6;
            if rng.p(0.4) {
                c.w[W_PEN] = 6;
            }
        }
        _ => {}
    }
    c
}

/// what a history must contain to count as non-trivial for a property
fn nontrivial(id: Id, st: &Stats) -> bool {
    let ok = |k: &str| st.by_op.get(k).map(|x| x.0).unwrap_or(0);
    let no = |k: &str| st.by_op.get(k).map(|x| x.1).unwrap_or(0);
    let c = |k: &str| st.counters.get(k).copied().unwrap_or(0);
    match id {
        "P01" => ok("distribute") > 0 && c("claim-all forks") > 0 && st.claims_paid > 0,
        "P02" | "P17" => ok("distribute") > 1 && st.claims_paid > 0,
        "P03" | "P04" => st.expiries > 0 && ok("deposit") > 2,
        "P05" => ok("distribute") > 3,
        "P06" => ok("fill") > 3 && no("fill") > 0,
        "P07" => st.claims_paid > 1,
        "P11" => ok("change_delegate") > 1 && ok("distribute") > 0,
        "P12" => ok("slash") > 1,
        "P13" => ok("penalty") > 1,
        "P14" => ok("extend") > 1,
        "P15" => ok("close") > 0 && no("close") > 0,
        "P16" => ok("init_mining") > 1,
        "P20" => c("complete exits") > 0,
        "P24" => ok("deposit") > 3 && ok("withdraw") > 1,
        _ => ok("distribute") > 0 && ok("deposit") > 1,
    }
}

fn rule(id: Id) -> &'static str {
    match id {
        "P01" => "a case is a random history; non-trivial if it has distributions, paid claims and at least one fork on which everybody claims",
        "P02" => "a case is a random history; non-trivial with at least two distributions and a paid claim",
        "P03" | "P04" => "a case is a random history; non-trivial with several deposits and at least one processed expiry",
        "P05" => "a case is a random history; non-trivial with more than three distribution calls accepted",
        "P06" => "a case is a random history with fills from hostile sources tried on copies; non-trivial with accepted and refused fills",
        "P07" => "a case is a random history with claims to hostile destinations tried on copies; non-trivial with at least two paid claims",
        "P08" => "a case is one call with signatures removed or other keys in an authority's place, made from an accepted call in a random state; non-trivial if the wire-level specification says it must be refused, counted distinct by instruction, roles in every position, flags and reasons",
        "P09" => "a case is one call with accounts or key arguments substituted, made from an accepted call in a random state; non-trivial if the wire-level specification says it must be refused, counted distinct by instruction, roles in every position, flags and reasons",
        "P10" => "a case is a history with amounts at 64-bit boundaries; non-trivial if calls were accepted as well as refused",
        "P11" => "a case is a random history; non-trivial with at least two delegate changes and a distribution",
        "P12" => "a case is a random history; non-trivial with at least two accepted slashes",
        "P13" => "a case is a random history; non-trivial with at least two accepted penalties",
        "P14" => "a case is a random history; non-trivial with at least two accepted extensions",
        "P15" => "a case is a random history with hostile closes tried on copies; non-trivial with accepted and refused closes",
        "P16" => "a case is a random history or one initialisation under a hostile precondition; non-trivial with at least two initialisations",
        "P17" => "a case is a pair of executions, the second with settlements inserted or operations reordered; non-trivial with at least two distributions and a paid claim",
        "P18" => "a case is a long history that fills a fixed-size tree; non-trivial if the capacity was reached",
        "P20" => "a case is a random history with complete exits on copies; non-trivial with at least one complete exit",
        "P23" => "a case is one call with malformed data or accounts under AddressSanitizer and canaries; non-trivial if it reached the program with a base call that is accepted unmodified, counted distinct by instruction, kind of mutation and result",
        "P26" => "a case is one call of a random history repeated from the same state in circumstances that must not matter; non-trivial if accepted, counted distinct by circumstance, call and time",
        "P29" => "a case is one refused call whose error is judged: an impossible operation of a random history, or an accepted call with one fault; counted distinct by instruction, fault, position and error",
        "P28" => "a case is a history in which the basic blocks of every call are counted, two in three with full storage and long histories; non-trivial with deposits and a distribution",
        "P27" => "a case is a random history, one in eight filling the fixed-size storage, in which every call's heap is counted and every fourth call's stack measured; non-trivial with deposits and a distribution",
        "P24" => "a case is a random history; non-trivial with several accepted deposits and withdrawals",
        _ => "a case is a random history; non-trivial with deposits and a distribution",
    }
}

pub fn pack(id: Id, w: Option<World>, r: Result<(), Stop>) -> Out {
    let mut o = Out { evals: 1, ..Default::default() };
    if let Some(w) = w {
        if nontrivial(id, &w.st) {
            o.keys.push(log_hash(&w));
        }
        o.sample = Some(short_log(&w));
        o.st = w.st.clone();
        o.notes = w.notes.clone();
        if std::env::var("MON_NOTES").map(|v| v == "2").unwrap_or(false) && !w.notes.is_empty() {
            o.notes.push(w.describe());
        }
        if let Err(Stop::Viol(_)) = &r {
            o.trace = w.describe();
        }
    }
    match r {
        Ok(()) => {}
        Err(s) => o.res = Some(s),
    }
    o
}

fn short_log(w: &World) -> String {
    let v: Vec<String> = w.log.iter().take(14).map(|o| format!("{o:?}")).collect();
    format!("start {}; {}{}", w.t0, v.join("; "), if w.log.len() > 14 { format!("; ... {} more", w.log.len() - 14) } else { String::new() })
}

/// plain monitored history with per-property extras
fn job_history(id: Id, job: usize, rng: &mut Rng) -> Out {
    let cfg = cfg_for(id, job, rng);
    let t0 = start_time(rng);
    let (w, r) = history(rng, &cfg, t0, Some(id), &mut |w, rng| {
        match id {
            "P01" if rng.p(0.08) => {
                let p = rng.idx(w.pools.len());
                claim_all(w, rng, p)?;
            }
            "P06" if rng.p(0.08) => hostile_fills(w, rng)?,
            "P07" if rng.p(0.06) => hostile_claims(w, rng)?,
            "P15" if rng.p(0.08) => hostile_closes(w, rng)?,
            "P16" if rng.p(0.04) => hostile_inits(w, rng)?,
            _ => {}
        }
        Ok(())
    });
    pack(id, w, r)
}

/// a few steps in a world in which much has piled up
fn job_dense(id: Id, job: usize, rng: &mut Rng) -> Out {
    let mut cfg = cfg_for(id, job, rng);
    cfg.pools = 1;
    cfg.users = 2 + rng.idx(7);
    let t0 = start_time(rng);
    let mut w = match World::new(rng, 1, cfg.users, t0, SRC_TOKENS, Some(id)) {
        Ok(w) => w,
        Err(e) => return Out { res: Some(e), evals: 1, ..Default::default() },
    };
    let r = (|| -> R<()> {
        pile(&mut w, rng)?;
        for _ in 0..6 + rng.idx(16) {
            advance_history(&mut w, rng, &cfg)?;
            if rng.p(cfg.exit * 0.3) {
                let seed = rng.u64();
                w.fork(|w| exit_all(w, &mut Rng::new(seed), 0))?;
            }
        }
        if id == "P01" {
            claim_all(&mut w, rng, 0)?;
        }
        Ok(())
    })();
    pack(id, Some(w), r)
}

fn focus_viol(w: &mut World, tags: &[Id], msg: String) -> R<()> {
    match w.focus {
        Some(f) if !tags.contains(&f) => {
            w.st.count("violations of other properties (not judged here)", 1);
            Ok(())
        }
        _ => viol(tags, msg),
    }
}

/// fills from every sort of source
fn hostile_fills(w: &mut World, rng: &mut Rng) -> R<()> {
    use solana_program::program_pack::Pack;
    let p = rng.idx(w.pools.len());
    let h = w.pools[p].clone();
    let ends = (w.m[p].ends_at as i64).max(day(w.now())) as u64;
    let room = (u64::MAX as u128 - w.m[p].avail).min(u64::MAX as u128) as u64;
    let a = (1 + rng.below(1000)).min(room.max(1));
    let other = Pubkey::new_from_array(rng.bytes32());
    let fmint = Pubkey::new_from_array(rng.bytes32());
    let mk = |mint: &Pubkey, owner: &Pubkey, amt: u64, f: &dyn Fn(&mut spl_token::state::Account)| -> Acct {
        let d = wire::token_account(mint, owner, amt);
        let mut t = spl_token::state::Account::unpack(&d).unwrap();
        f(&mut t);
        let mut d = vec![0; 165];
        t.pack_into_slice(&mut d);
        Acct::with_data(spl_token::ID, d)
    };
    use spl_token::state::AccountState;
    let fill = h.fill;
    let mut cases: Vec<(&'static str, Acct, bool)> = vec![
        ("own tokens", mk(&h.mint, &h.fill, a, &|_| {}), true),
        ("one token too few", mk(&h.mint, &h.fill, a - 1, &|_| {}), false),
        ("someone else's tokens", mk(&h.mint, &other, a * 2, &|_| {}), false),
        ("deposit authority's tokens", mk(&h.mint, &h.dep, a * 2, &|_| {}), h.dep == h.fill),
        ("approved tokens", mk(&h.mint, &other, a * 2, &|t| {
            t.delegate = Some(fill).into();
            t.delegated_amount = a;
        }), true),
        ("approval one token short", mk(&h.mint, &other, a * 2, &|t| {
            t.delegate = Some(fill).into();
            t.delegated_amount = a - 1;
        }), false),
        ("approval to someone else", mk(&h.mint, &other, a * 2, &|t| {
            t.delegate = Some(other).into();
            t.delegated_amount = a;
        }), false),
        ("frozen tokens", mk(&h.mint, &h.fill, a * 2, &|t| t.state = AccountState::Frozen), false),
        ("tokens of another mint", mk(&fmint, &h.fill, a * 2, &|_| {}), false),
        ("uninitialised token account", Acct::with_data(spl_token::ID, vec![0; 165]), false),
        ("short token account", Acct::with_data(spl_token::ID, wire::token_account(&h.mint, &h.fill, a)[..164].to_vec()), false),
        ("forged token account of another program", {
            let mut x = mk(&h.mint, &h.fill, a, &|_| {});
            x.owner = other;
            x
        }, false),
        ("wallet", Acct::wallet(1 << 40), false),
    ];
    if room < a {
        for c in cases.iter_mut() {
            c.2 = false;
        }
    }
    for (name, acct, ok) in cases {
        let k = Pubkey::new_from_array(rng.bytes32());
        let mut b = w.bank.clone();
        b.set(k, acct.clone());
        let ix = wire::fill(&h.key, &h.mint, &h.vault, &h.fill, &k, a, ends);
        let res = b.exec(&ix);
        w.st.count("fills from special sources", 1);
        match res {
            Ok(d) if !ok => return focus_viol(w, &["P06", "P01"], format!("fill of {a} from {name} accepted; changed {:?}", d.changes.iter().map(|c| c.0).collect::<Vec<_>>())),
            Err(f) if ok => return focus_viol(w, &["P06"], format!("fill of {a} from {name} refused: {}", f.short())),
            Ok(d) => {
                let src = d.get(&k).map(|x| token_amount(&x.data)).unwrap_or(token_amount(&acct.data));
                let v = d.get(&h.vault).map(|x| token_amount(&x.data)).unwrap_or(w.token(&h.vault));
                let av = d.get(&h.key).and_then(|x| pool_hdr(&x.data)).map(|x| x.available).unwrap_or(0);
                if token_amount(&acct.data) - src != a || v - w.token(&h.vault) != a || av as u128 != w.m[p].avail + a as u128 {
                    return focus_viol(w, &["P06", "P01"], format!("fill of {a} from {name}: source -{}, vault +{}, available {av}", token_amount(&acct.data) - src, v - w.token(&h.vault)));
                }
            }
            Err(_) => {}
        }
    }
    // the vault as its own source
    let mut b = w.bank.clone();
    let ix = wire::fill(&h.key, &h.mint, &h.vault, &h.fill, &h.vault, a, ends);
    w.st.count("fills from special sources", 1);
    if b.run(&ix).is_ok() {
        return focus_viol(w, &["P06", "P01"], "fill of the vault from itself accepted".into());
    }
    // also when one key holds both roles: the vault then belongs to the fill authority
    let (pk, mint, auth) = (Pubkey::new_from_array(rng.bytes32()), h.mint, h.fill);
    b.set(pk, Acct::with_data(mplx_rewards::ID, vec![0; POOL_LEN]));
    let vault = vault_pda(&pk, &mint).0;
    if b.run(&wire::init_pool(&pk, &mint, &vault, &w.payer, &auth, &auth, &auth)).is_ok() {
        let x = Pubkey::new_from_array(rng.bytes32());
        b.set(x, Acct::with_data(spl_token::ID, wire::token_account(&mint, &auth, 1000)));
        if b.run(&wire::fill(&pk, &mint, &vault, &auth, &x, 100, ends)).is_err() {
            return focus_viol(w, &["P06"], "fill of a pool with a single authority refused".into());
        }
        w.st.count("fills from special sources", 1);
        if b.run(&wire::fill(&pk, &mint, &vault, &auth, &vault, 50, ends)).is_ok() {
            return focus_viol(w, &["P06", "P01"], "fill of the vault from itself accepted for a pool with a single authority".into());
        }
    }
    Ok(())
}

fn hostile_claims(w: &mut World, rng: &mut Rng) -> R<()> {
    use solana_program::program_pack::Pack;
    let p = rng.idx(w.pools.len());
    let ex: Vec<usize> = (0..w.users.len()).filter(|u| w.exists(p, *u)).collect();
    if ex.is_empty() {
        return Ok(());
    }
    // prefer somebody who is owed something
    let u = ex.iter().copied().find(|u| w.view[p][*u].map(|v| v.claim > 0).unwrap_or(false)).unwrap_or(ex[0]);
    let owed = match w.view[p][u] {
        Some(v) => v.claim,
        None => return Ok(()),
    };
    let h = w.pools[p].clone();
    let owner = w.users[u];
    let other = Pubkey::new_from_array(rng.bytes32());
    let fmint = Pubkey::new_from_array(rng.bytes32());
    let frozen = {
        let d = wire::token_account(&h.mint, &owner, 5);
        let mut t = spl_token::state::Account::unpack(&d).unwrap();
        t.state = spl_token::state::AccountState::Frozen;
        let mut d = vec![0; 165];
        t.pack_into_slice(&mut d);
        d
    };
    let delegated = {
        let d = wire::token_account(&h.mint, &other, 5);
        let mut t = spl_token::state::Account::unpack(&d).unwrap();
        t.delegate = Some(owner).into();
        t.delegated_amount = u64::MAX;
        t.close_authority = Some(owner).into();
        let mut d = vec![0; 165];
        t.pack_into_slice(&mut d);
        d
    };
    let tok = spl_token::ID;
    // Some(true): must be accepted, Some(false): must be refused
    let cases: Vec<(&'static str, Option<Acct>, Option<Pubkey>, Option<bool>)> = vec![
        ("a second account of the staker", Some(Acct::with_data(tok, wire::token_account(&h.mint, &owner, 77))), None, Some(true)),
        ("an account of somebody else", Some(Acct::with_data(tok, wire::token_account(&h.mint, &other, 0))), None, Some(false)),
        ("an account of the deposit authority", Some(Acct::with_data(tok, wire::token_account(&h.mint, &h.dep, 0))), None, Some(false)),
        ("an account merely delegated to the staker", Some(Acct::with_data(tok, delegated)), None, Some(false)),
        ("a frozen account", Some(Acct::with_data(tok, frozen)), None, if owed > 0 { Some(false) } else { None }),
        ("an account of another mint", Some(Acct::with_data(tok, wire::token_account(&fmint, &owner, 0))), None, if owed > 0 { Some(false) } else { None }),
        ("a forged account", Some(Acct::with_data(other, wire::token_account(&h.mint, &owner, 0))), None, Some(false)),
        ("an uninitialised account", Some(Acct::with_data(tok, vec![0; 165])), None, Some(false)),
        ("the vault", None, Some(h.vault), Some(false)),
        ("the fill source", None, Some(h.src), Some(false)),
        ("the staker's wallet", None, Some(owner), Some(false)),
    ];
    for (name, acct, key, want) in cases {
        let k = key.unwrap_or_else(|| Pubkey::new_from_array(rng.bytes32()));
        let mut b = w.bank.clone();
        let before = match &acct {
            Some(a) => token_amount(&a.data),
            None => 0,
        };
        if let Some(a) = acct {
            b.set(k, a);
        }
        let ix = wire::claim(&h.key, &h.mint, &h.vault, &h.mining[u], &owner, &h.dep, &k);
        w.st.count("claims to special destinations", 1);
        let res = b.exec(&ix);
        match (res, want) {
            (Ok(_), Some(false)) => return focus_viol(w, &["P07"], format!("claim of {owed} by staker {u} to {name} accepted")),
            (Err(f), Some(true)) => return focus_viol(w, &["P07"], format!("claim of {owed} by staker {u} to {name} refused: {}", f.short())),
            (Ok(d), Some(true)) => {
                let got = d.get(&k).map(|x| token_amount(&x.data)).unwrap_or(before) - before;
                if got != owed || d.ret.as_deref() != Some(&owed.to_le_bytes()[..]) {
                    return focus_viol(w, &["P07"], format!("claim of {owed} to {name} paid {got}, returned {:?}", d.ret));
                }
                // twice in a row pays nothing more
                b.commit(&d);
                match b.exec(&ix) {
                    Ok(d2) => {
                        if d2.get(&k).is_some() || d2.get(&h.vault).is_some() || d2.ret.as_deref() != Some(&0u64.to_le_bytes()[..]) {
                            return focus_viol(w, &["P07"], format!("second claim moved tokens or returned {:?}", d2.ret));
                        }
                    }
                    Err(f) => return focus_viol(w, &["P07"], format!("second claim refused: {}", f.short())),
                }
            }
            _ => {}
        }
    }
    Ok(())
}

fn hostile_closes(w: &mut World, rng: &mut Rng) -> R<()> {
    let p = rng.idx(w.pools.len());
    let h = w.pools[p].clone();
    for u in 0..w.users.len() {
        if !w.exists(p, u) {
            continue;
        }
        let v = match w.view[p][u] {
            Some(v) => v,
            None => continue,
        };
        let owed = w.probe_owed(p, u).unwrap_or(v.claim).max(v.claim);
        // anybody may get the lamports
        let other = *rng.pick(&w.users);
        let target = *rng.pick(&[w.target, w.target, w.users[u], other, h.dep, h.dist, h.fill, w.payer, Pubkey::new_from_array([77; 32])]);
        let target = if w.bank.get(&target).owner == solana_program::system_program::ID { target } else { w.target };
        let mut ix = wire::close(&h.mining[u], &w.users[u], &target, &h.dep, &h.key);
        if rng.p(0.5) {
            ix = ix.all_writable();
        }
        w.st.count("closes tried on copies", 1);
        let may = owed == 0 && v.sfo == 0;
        match w.bank.exec(&ix) {
            Ok(_) if !may => return focus_viol(w, &["P15"], format!("closing staker {u} accepted with {owed} owed and {} delegated to it", v.sfo)),
            Err(f) if may && v.share == 0 => return focus_viol(w, &["P15", "P20"], format!("closing the empty mining of staker {u} refused: {}", f.short())),
            Ok(d) => {
                let t = w.bank.get(&target).lamports;
                let m = w.bank.get(&h.mining[u]).lamports;
                let t2 = d.get(&target).map(|a| a.lamports).unwrap_or(t);
                if t2 != t + m {
                    return focus_viol(w, &["P15"], format!("closing sent {} of {m} lamports", t2 - t));
                }
                for (k, _) in &d.changes {
                    if *k != target && *k != h.mining[u] {
                        return focus_viol(w, &["P15"], format!("closing changed {k}"));
                    }
                }
                // erased even if the transaction brings lamports back
                if d.relics.iter().any(|(k, a)| *k == h.mining[u] && a.data.iter().any(|b| *b != 0)) {
                    return focus_viol(w, &["P15"], "closed mining not erased".into());
                }
                let mut b = w.bank.clone();
                b.commit(&d);
                let mut r = ix.clone();
                r.metas[1].signer = true;
                if b.exec(&r).is_ok() {
                    return focus_viol(w, &["P15"], "closed twice".into());
                }
                // opens afresh
                let ix = wire::init_mining(&h.key, &h.mining[u], &w.payer, &w.users[u]);
                match b.run(&ix) {
                    Ok(_) => {
                        let hd = mining_hdr(&b.get(&h.mining[u]).data);
                        let fresh = hd.as_ref().map(|m| m.share == 0 && m.sfo == 0 && m.unclaimed == 0).unwrap_or(false);
                        if !fresh {
                            return focus_viol(w, &["P15", "P16"], format!("mining reopened as {hd:?}"));
                        }
                        // and has no claim on the past
                        let f = b.exec(&wire::claim(&h.key, &h.mint, &h.vault, &h.mining[u], &w.users[u], &h.dep, &h.tok[u]));
                        match f {
                            Ok(d) if d.ret.as_deref() == Some(&0u64.to_le_bytes()[..]) => {}
                            x => return focus_viol(w, &["P15", "P16"], format!("claim of a reopened mining: {x:?}")),
                        }
                    }
                    Err(f) => return focus_viol(w, &["P15", "P16"], format!("reopening a closed mining refused: {}", f.short())),
                }
            }
            _ => {}
        }
        // other signers, other pools, other targets
        let mut t = Tally { focus: w.focus, ..Default::default() };
        let s = Stage::new(w, rng);
        signer_attacks(&s, rng, &ix, &mut t)?;
        account_attacks(&s, rng, &ix, &mut t, 40)?;
        w.st.count("hostile closes", t.tries);
    }
    Ok(())
}

fn hostile_inits(w: &mut World, rng: &mut Rng) -> R<()> {
    use solana_program::rent::Rent;
    let rent = Rent::default();
    let key = |rng: &mut Rng| Pubkey::new_from_array(rng.bytes32());
    // --- pools
    let keys = (key(rng), key(rng), key(rng));
    let mint = w.pools[0].mint;
    for variant in 0..24 {
        let (mut dep, mut dist, mut fill) = keys;
        // any keys may be named, also equal or special ones
        let special = [Pubkey::default(), dep, fill, dist, mint, w.payer, w.pools[0].key, mplx_rewards::ID, spl_token::ID, Pubkey::new_from_array([255; 32]), w.users[0]];
        match variant {
            16 | 17 => dist = *rng.pick(&special),
            18 | 19 => fill = *rng.pick(&special),
            20 => (dist, fill) = (Pubkey::default(), Pubkey::default()),
            21 => (dist, fill) = (*rng.pick(&special), *rng.pick(&special)),
            22 => dep = *rng.pick(&[w.payer, fill, dist]),
            23 => (dep, dist, fill) = (fill, fill, fill),
            _ => {}
        }
        let pk = key(rng);
        let mut b = w.bank.clone();
        b.set(dep, Acct::wallet(1 << 40));
        let vault = vault_pda(&pk, &mint).0;
        let (len, owner) = match variant {
            0 => (POOL_LEN - 8, mplx_rewards::ID),
            1 => (POOL_LEN + 8, mplx_rewards::ID),
            2 => (0, mplx_rewards::ID),
            3 => (POOL_LEN, key(rng)),
            4 => (POOL_LEN, solana_program::system_program::ID),
            5 => (176, mplx_rewards::ID),
            6 => (POOL_LEN * 2, mplx_rewards::ID),
            _ => (POOL_LEN, mplx_rewards::ID),
        };
        b.set(pk, Acct::with_data(owner, vec![0; len]));
        let vault_len = 165;
        let need = rent.minimum_balance(vault_len);
        match variant {
            8 => b.set(vault, Acct::wallet(1)),
            9 => b.set(vault, Acct::wallet(need)),
            10 => b.set(vault, Acct::wallet(need - 1)),
            11 => b.set(vault, Acct::wallet(need * 100)),
            _ => {}
        }
        let must = variant >= 7;
        let ix = wire::init_pool(&pk, &mint, &vault, &w.payer, &dep, &fill, &dist);
        w.st.count("pool initialisations under special conditions", 1);
        match b.run(&ix) {
            Ok(_) if !must => return focus_viol(w, &["P16", "P23"], format!("pool of {len} bytes owned by {owner} initialised")),
            Err(f) if must => return focus_viol(w, &["P16"], format!("pool initialisation (variant {variant}: {} lamports at the vault's address) refused: {}", w.bank.get(&vault).lamports, f.short())),
            Ok(_) => {
                let hd = pool_hdr(&b.get(&pk).data).unwrap();
                if hd.deposit_authority != dep || hd.fill_authority != fill || hd.distribute_authority != dist || hd.mint != mint || hd.total != 0 || hd.available != 0 || hd.index != 0 || hd.ends_at != 0 || hd.kind != 1 {
                    return focus_viol(w, &["P16"], format!("initialised pool is {hd:?}"));
                }
                let va = b.get(&vault);
                if va.data.len() != 165 || va.owner != spl_token::ID || va.data[..32] != mint.to_bytes() || va.data[32..64] != dep.to_bytes() || token_amount(&va.data) != 0 || va.data[108] != 1 || !rent.is_exempt(va.lamports, 165) {
                    return focus_viol(w, &["P16"], "vault is not the deposit authority's empty token account".into());
                }
                // nobody can do it again
                for (d2, f2, di2) in [(dep, fill, dist), (key(rng), fill, dist), (fill, fill, fill), (w.payer, w.payer, w.payer)] {
                    for m2 in [mint, w.pools[w.pools.len() - 1].mint, key(rng)] {
                        let mut b2 = b.clone();
                        if b2.get(&m2).lamports == 0 {
                            b2.set(m2, Acct::with_data(spl_token::ID, wire::mint_account(&fill, 0)));
                        }
                        b2.set(d2, Acct::wallet(1 << 40));
                        let v2 = vault_pda(&pk, &m2).0;
                        w.st.count("repeated initialisations", 1);
                        if b2.exec(&wire::init_pool(&pk, &m2, &v2, &w.payer, &d2, &f2, &di2)).is_ok() {
                            return focus_viol(w, &["P16", "P25"], "a pool was initialised a second time".into());
                        }
                    }
                }
            }
            _ => {}
        }
    }
    // --- re-initialising the live pools
    for p in 0..w.pools.len() {
        let h = w.pools[p].clone();
        for m2 in [h.mint, key(rng)] {
            let mut b2 = w.bank.clone();
            if b2.get(&m2).lamports == 0 {
                b2.set(m2, Acct::with_data(spl_token::ID, wire::mint_account(&h.fill, 0)));
            }
            let v2 = vault_pda(&h.key, &m2).0;
            for d2 in [h.dep, w.users[0]] {
                w.st.count("repeated initialisations", 1);
                if b2.exec(&wire::init_pool(&h.key, &m2, &v2, &w.payer, &d2, &d2, &d2)).is_ok() {
                    return focus_viol(w, &["P16", "P25"], "a live pool was initialised a second time".into());
                }
            }
        }
        // --- minings
        for u in 0..w.users.len() {
            let ix = wire::init_mining(&h.key, &h.mining[u], &w.payer, &w.users[u]);
            w.st.count("repeated initialisations", 1);
            if w.exists(p, u) {
                let mut ix2 = ix.clone();
                if rng.p(0.5) {
                    ix2.metas[2].key = w.users[u];
                }
                if w.bank.exec(&ix2).is_ok() {
                    return focus_viol(w, &["P16", "P25"], format!("mining of staker {u} was initialised a second time"));
                }
            }
        }
        let o = match rng.idx(3) {
            0 => {
                let special = [Pubkey::default(), h.key, h.vault, h.mint, h.fill, mplx_rewards::ID, solana_program::system_program::ID, Pubkey::new_from_array([255; 32])];
                *rng.pick(&special)
            }
            _ => key(rng),
        };
        let (m, bump) = mining_pda(&o, &h.key);
        let len = w.m[p].m.iter().position(|x| x.exists).map(|u| w.bank.get(&h.mining[u]).data.len());
        let need = rent.minimum_balance(len.unwrap_or(3000));
        for lam in [0, 1, need / 2, need - 1, need, need + 1, need * 50] {
            let mut b = w.bank.clone();
            if lam > 0 {
                b.set(m, Acct::wallet(lam));
            }
            w.st.count("mining initialisations under special conditions", 1);
            match b.run(&wire::init_mining(&h.key, &m, &w.payer, &o)) {
                Err(f) => return focus_viol(w, &["P16"], format!("creating a mining with {lam} lamports at its address refused: {}", f.short())),
                Ok(_) => {
                    let a = b.get(&m);
                    let hd = mining_hdr(&a.data);
                    let good = hd.as_ref().map(|x| x.owner == o && x.pool == h.key && x.bump == bump && x.kind == 2 && x.share == 0 && x.sfo == 0 && x.unclaimed == 0 && x.index == 0).unwrap_or(false);
                    if !good || a.owner != mplx_rewards::ID || len.map(|l| l != a.data.len()).unwrap_or(false) || !rent.is_exempt(a.lamports, a.data.len()) {
                        return focus_viol(w, &["P16"], format!("created mining is {hd:?}, {} bytes", a.data.len()));
                    }
                    // usable: it can be staked into and again be claimed from
                    let ix = wire::deposit(&h.key, &m, &h.dep, &m, 10, 2, &o, &o);
                    if (w.m[p].total as u128) < u64::MAX as u128 / 2 && w.m[p].diffs.len() < POOL_CAP - 1 {
                        if let Err(f) = b.exec(&ix) {
                            return focus_viol(w, &["P16", "P20"], format!("first deposit of a new staker refused: {}", f.short()));
                        }
                    }
                }
            }
        }
        // a pool that is none of the program's accounts
        for foreign in [h.vault, h.mint, h.fill, w.payer, key(rng), mplx_rewards::ID, solana_program::system_program::ID] {
            w.st.count("mining initialisations under special conditions", 1);
            if w.bank.exec(&wire::init_mining(&foreign, &mining_pda(&o, &foreign).0, &w.payer, &o)).is_ok() {
                return focus_viol(w, &["P09", "P16"], "a mining was created for an account that is no pool".into());
            }
        }
        // wrong addresses
        let other_bump = (0..bump).rev().find_map(|b| Pubkey::create_program_address(&[b"mining", o.as_ref(), h.key.as_ref(), &[b]], &mplx_rewards::ID).ok());
        for bad in [other_bump.unwrap_or(h.fill), h.mining[0], key(rng), h.vault, mining_pda(&w.users[0], &key(rng)).0] {
            let mut b = w.bank.clone();
            w.st.count("mining initialisations under special conditions", 1);
            if b.run(&wire::init_mining(&h.key, &bad, &w.payer, &o)).is_ok() {
                return focus_viol(w, &["P16", "P09"], "a mining was created at another address".into());
            }
        }
    }
    Ok(())
}

/// signatures and substitutions, from random states
fn job_hostile(id: Id, _job: usize, rng: &mut Rng, thorough: bool) -> Out {
    let mut cfg = Cfg::base();
    cfg.pools = if rng.p(0.85) { 2 } else { 3 };
    cfg.users = 3 + rng.idx(2);
    cfg.steps = 30 + rng.idx(40);
    cfg.amounts = Amounts::Mid;
    cfg.wild = 0.02;
    cfg.probe = 0.0;
    cfg.w[W_PEN] = 2;
    let t0 = start_time(rng);
    let mut t = Tally { focus: Some(id), ..Default::default() };
    let mut bases: BTreeMap<&'static str, u64> = Default::default();
    let mut fails = None;
    let mut sample = None;
    let (w, mut r) = history(rng, &cfg, t0, Some(id), &mut |w, rng| {
        if !rng.p(0.05) {
            return Ok(());
        }
        let s = Stage::new(w, rng);
        let kinds: Vec<u8> = (0..12).chain([3, 4, 6, 9, 10]).collect();
        for ix in s.valid(rng, &kinds) {
            for x in s.variants(rng, &ix) {
                t.variants += 1;
                signer_attacks(&s, rng, &x, &mut t)?;
                account_attacks_some(&s, rng, &x, &mut t, if id == "P08" { 20 } else { 60 }, if id == "P08" { 0.1 } else { 0.4 })?;
            }
            let name = NAMES[ix.data[0] as usize];
            if let Err(f) = s.bank.exec(&ix) {
                // a valid call that is refused breaks other properties; note it
                fails = Some(format!("{name}: {}", f.short()));
                continue;
            }
            *bases.entry(name).or_default() += 1;
            let v = s.spec(&ix);
            if !v.no.is_empty() {
                return viol(&["P08", "P09"], format!("harness: specification refuses the valid call {}: {:?}", s.describe(&ix), v.no));
            }
            if id == "P08" {
                signer_attacks(&s, rng, &ix, &mut t)?;
                account_attacks(&s, rng, &ix, &mut t, 20)?;
            } else {
                account_attacks(&s, rng, &ix, &mut t, if thorough { 1500 } else { 250 })?;
                if rng.p(0.1) {
                    signer_attacks(&s, rng, &ix, &mut t)?;
                }
            }
            if sample.is_none() && ix.metas.len() > 1 {
                let mut x = ix.clone();
                x.metas[0].key = s.universe[rng.idx(s.universe.len())];
                sample = Some(s.describe(&x));
            }
        }
        Ok(())
    });
    if let (Err(Stop::Viol(v)), Some(f)) = (&mut r, &fails) {
        v.msg.push_str(&format!(" (also: {f})"));
    }
    let mut o = pack(id, w, r);
    o.evals = t.tries;
    o.keys = t.seen.iter().copied().collect();
    o.st.count("calls that must be refused", t.must_refuse);
    o.st.count("accepted calls with other numbers, attacked as well", t.variants);
    o.st.count("substituted calls that are legitimate and were accepted", t.accepted);
    for (k, v) in bases {
        o.st.count(k, v);
    }
    o.sample = sample;
    o
}

/// the stakers spend what they got, and it comes back to the one who fills
fn spend(w: &mut World) {
    let h = w.pools[0].clone();
    let room = u64::MAX - w.token(&h.vault);
    for (k, n) in h.tok.into_iter().map(|k| (k, 0)).chain([(h.src, room)]) {
        let mut a = w.bank.get(&k);
        std::sync::Arc::make_mut(&mut a.data)[64..72].copy_from_slice(&n.to_le_bytes());
        w.bank.set(k, a);
    }
}

/// tokens that circulate: whole vaults distributed over a tiny weight for years, so that the index climbs
/// to where 128 bits begin to matter
fn job_rich(id: Id, _job: usize, rng: &mut Rng) -> Out {
    let t0 = start_time(rng);
    let users = 1 + rng.idx(3);
    let mut w = match World::new(rng, 1, users, t0, u64::MAX, Some(id)) {
        Ok(w) => w,
        Err(e) => return Out { res: Some(e), evals: 1, ..Default::default() },
    };
    w.extreme = true;
    let r = (|| -> R<()> {
        for u in 0..users {
            act(&mut w, Op::InitMining { p: 0, u }, Eff::None)?;
        }
        let tiny = rng.p(0.7);
        for u in 0..users {
            if u > 0 && tiny {
                break;
            }
            let e = Entry { p: 0, u, amount: 1 + rng.below(3), period: Period::Flex, start: w.now(), del: u, del_amt: 0 };
            let amount = if tiny { 1 } else { e.amount };
            act(&mut w, Op::Deposit { p: 0, u, amount, period: 1, del: u }, Eff::New(Entry { amount, ..e }))?;
        }
        w.watch = false;
        let days = *rng.pick(&[40, 300, 1000, 1095]);
        for i in 0..days {
            spend(&mut w);
            let room = u64::MAX - w.token(&w.pools[0].vault);
            let amount = if rng.p(0.95) { room } else { room / (2 + rng.below(9)) };
            if amount > 0 {
                let ends = w.now() as u64;
                act(&mut w, Op::Fill { p: 0, amount, ends }, Eff::None)?;
            }
            act(&mut w, Op::Distribute { p: 0 }, Eff::None)?;
            if i + 30 > days {
                w.watch = true;
                w.look()?;
            }
            for u in 0..users {
                if rng.p(0.98) {
                    act(&mut w, Op::Claim { p: 0, u }, Eff::None)?;
                }
            }
            let t = day(w.now()) + DAY + rng.range(0, DAY - 1);
            w.advance(t)?;
        }
        w.st.count("years of whole vaults distributed over a tiny weight", 1);
        let cfg = Cfg::base();
        for _ in 0..10 {
            spend(&mut w);
            advance_history(&mut w, rng, &cfg)?;
        }
        spend(&mut w);
        w.fork(|w| exit_all(w, &mut Rng::new(5), 0))
    })();
    pack(id, Some(w), r)
}

/// amounts and dates at the edges of 64 bits
fn job_extreme(id: Id, _job: usize, rng: &mut Rng) -> Out {
    let t0 = start_time(rng);
    let users = 2 + rng.idx(2);
    let mut w = match World::new(rng, 1, users, t0, u64::MAX, Some(id)) {
        Ok(w) => w,
        Err(e) => return Out { res: Some(e), evals: 1, ..Default::default() },
    };
    w.conforming = false;
    w.extreme = true;
    let edge = |rng: &mut Rng, w: &World| -> u64 {
        let m = u64::MAX;
        let tot = w.m[0].total.max(0) as u128;
        let room = (m as u128).saturating_sub(tot) as u64;
        let k = *rng.pick(&[1u64, 2, 3, 4, 6, 7]);
        let base = match rng.idx(16) {
            0 => 0,
            1 => m,
            2 => m / k,
            3 => 1 << 63,
            4 => 1 << 53,
            5 => 1 << 32,
            6 => room / k,
            7 => room,
            8 => (tot as u64) / k,
            9 => w.m[0].avail as u64,
            10 => m - w.m[0].avail as u64,
            11 => 1 << rng.idx(64),
            12 => rng.u64(),
            13 => rng.u64() >> rng.idx(64),
            _ => 1 + rng.below(1000),
        };
        match rng.idx(4) {
            0 => base.saturating_add(rng.below(3)),
            1 => base.saturating_sub(rng.below(3)),
            _ => base,
        }
    };
    let r = (|| -> R<()> {
        for u in 0..w.users.len() {
            w.step(&Op::InitMining { p: 0, u })?;
        }
        let n = 30 + rng.idx(60);
        for _ in 0..n {
            if rng.p(0.3) {
                let t = next_time(&w, rng, &Cfg::base());
                w.advance(t)?;
            }
            let nu = w.users.len();
            let u = rng.idx(nu);
            let v = if rng.p(0.6) { u } else { rng.idx(nu) };
            let x = rng.idx(nu);
            let a = edge(rng, &w);
            let now = w.now();
            let ends = match rng.idx(9) {
                0 => u64::MAX,
                1 => i64::MAX as u64,
                2 => rng.u64() >> rng.idx(40),
                3 => day(now) as u64,
                4 => (day(now) - 1) as u64,
                5 => w.m[0].ends_at as u64,
                _ => (w.m[0].ends_at as i64).max(now).saturating_add(rng.range(0, 40) * DAY) as u64,
            };
            // end dates that never come would stop everything else
            let ends = if ends > (now as u64) * 2 && rng.p(0.9) { now as u64 + 5 * DAY as u64 } else { ends };
            let share = w.m[0].m[u].share.max(0) as u64;
            let op = match rng.idx(22) {
                0..=2 => Op::Fill { p: 0, amount: a, ends },
                3..=4 => Op::Distribute { p: 0 },
                5..=10 => Op::Deposit { p: 0, u, amount: a, period: 1 + rng.idx(4) as u8, del: v },
                11..=12 => {
                    let es: Vec<&Entry> = w.entries.iter().filter(|e| e.amount > 0 && !e.locked(now)).collect();
                    if es.is_empty() || rng.p(0.4) {
                        Op::Withdraw { p: 0, u, amount: *rng.pick(&[a, share, share.wrapping_add(1), share / 2]), del: v }
                    } else {
                        let e = es[rng.idx(es.len())];
                        Op::Withdraw { p: 0, u: e.u, amount: if rng.p(0.7) { e.amount } else { e.amount - e.amount / 3 }, del: e.del }
                    }
                }
                13 => Op::Claim { p: 0, u },
                14..=16 => {
                    let es: Vec<&Entry> = w.entries.iter().filter(|e| e.u == u && e.amount > 0).collect();
                    if es.is_empty() {
                        Op::Extend { p: 0, u, old: 1 + rng.idx(4) as u8, new: 1 + rng.idx(4) as u8, start: *rng.pick(&[0, now as u64, u64::MAX, i64::MAX as u64, u64::MAX / 2 + 1000]), base: a, add: edge(rng, &w), del: v }
                    } else {
                        let e = es[rng.idx(es.len())];
                        Op::Extend {
                            p: 0,
                            u,
                            old: e.period as u8,
                            new: 1 + rng.idx(4) as u8,
                            start: e.start as u64,
                            base: e.amount,
                            add: edge(rng, &w),
                            del: e.del,
                        }
                    }
                }
                17 => match w.entries.is_empty() || rng.p(0.5) {
                    true => Op::ChangeDelegate { p: 0, u, amount: a, old: v, new: x },
                    false => {
                        let e = &w.entries[rng.idx(w.entries.len())];
                        Op::ChangeDelegate { p: 0, u: e.u, amount: e.amount, old: e.del, new: x }
                    }
                },
                18 | 19 => {
                    let es: Vec<&Entry> = w.entries.iter().filter(|e| e.u == u && e.amount > 0).collect();
                    if es.is_empty() || rng.p(0.4) {
                        Op::Slash { p: 0, u, native: edge(rng, &w), mult: a, expiry: *rng.pick(&[None, Some(u64::MAX), Some(0), Some(now as u64 + 90 * DAY as u64)]) }
                    } else {
                        let e = es[rng.idx(es.len())];
                        let n = e.amount.min(edge(rng, &w));
                        let (mult, expiry) = if e.locked(now) { (n.saturating_mul(e.period.mult() as u64), Some(e.expiry() as u64)) } else { (n, None) };
                        Op::Slash { p: 0, u, native: n, mult, expiry }
                    }
                }
                20 => Op::Penalty { p: 0, u, n: *rng.pick(&[a, share, share.saturating_add(1), share / 2]) },
                _ => Op::Close { p: 0, u },
            };
            // avoid what no staking program does and the model has no opinion on: stake that is still
            // locked withdrawn, or an account closed with stake in it
            if let Op::Close { .. } = op {
                if w.m[0].m[u].share > 0 || w.m[0].m[u].diffs.values().any(|x| *x > 0) {
                    continue;
                }
            }
            let ok = w.step(&op)?;
            if ok {
                match op {
                    Op::Deposit { u, amount, period, del, .. } if amount > 0 => {
                        let period = Period::REAL[period as usize - 1];
                        w.entries.push(Entry { p: 0, u, amount, period, start: now, del, del_amt: if del != u { amount } else { 0 } })
                    }
                    Op::Extend { u, start, old, base, add, new, .. } => {
                        if let Some(e) = w.entries.iter_mut().find(|e| e.u == u && e.start == start as i64 && e.period as u8 == old && e.amount == base) {
                            e.amount += add;
                            e.start = now;
                            e.period = Period::REAL[new as usize - 1];
                        }
                    }
                    Op::Close { u, .. } => {
                        w.entries.retain(|e| e.u != u);
                        w.step(&Op::InitMining { p: 0, u })?;
                    }
                    Op::Withdraw { u, amount, del, .. } => {
                        if let Some(e) = w.entries.iter_mut().find(|e| e.u == u && e.del == del && e.amount >= amount && !e.locked(now)) {
                            e.amount -= amount;
                            if e.amount == 0 {
                                e.del = u;
                            }
                        }
                    }
                    Op::ChangeDelegate { u, old, new, amount, .. } => {
                        if let Some(e) = w.entries.iter_mut().find(|e| e.u == u && e.del == old && e.amount == amount) {
                            e.del = new;
                        }
                    }
                    Op::Slash { u, native, .. } => {
                        if let Some(e) = w.entries.iter_mut().find(|e| e.u == u && e.amount >= native) {
                            e.amount -= native;
                        }
                    }
                    _ => {}
                }
            }
        }
        Ok(())
    })();
    let mut o = pack(id, Some(w), r);
    if o.st.accepted > 10 && o.st.refused > 2 {
        o.keys = vec![o.st.steps.wrapping_mul(0x9E37) ^ rng.u64()];
    } else {
        o.keys.clear();
    }
    o
}

/// total received by each staker
fn totals(w: &World, p: usize) -> Vec<Option<u128>> {
    (0..w.users.len())
        .map(|u| {
            let t = w.token(&w.pools[p].tok[u]) as u128;
            if w.exists(p, u) {
                w.probe_view(p, u).ok().map(|v| t + v.claim as u128)
            } else {
                Some(t)
            }
        })
        .collect()
}

fn named(op: &Op) -> Vec<usize> {
    match op {
        Op::Deposit { u, del, .. } | Op::Withdraw { u, del, .. } | Op::Extend { u, del, .. } => vec![*u, *del],
        Op::Claim { u, .. } | Op::Close { u, .. } | Op::Slash { u, .. } | Op::Penalty { u, .. } | Op::InitMining { u, .. } => vec![*u],
        Op::ChangeDelegate { u, old, new, .. } => vec![*u, *old, *new],
        _ => vec![],
    }
}

/// a history and its variants with extra or reordered settlements
fn job_vary(id: Id, job: usize, rng: &mut Rng) -> Out {
    let mut cfg = cfg_for(["P02", "P24", "P14", "P11", "P05", "P15"][job % 6], job, rng);
    cfg.probe = 0.0;
    cfg.exit = 0.0;
    if rng.p(0.4) {
        cfg.wild = 0.25;
    }
    if rng.p(0.2) {
        cfg.w[W_PEN] = 4;
    }
    let t0 = start_time(rng);
    let (w, keys, r) = crate::vary::run(&cfg, t0, rng);
    let mut o = pack(id, w, r);
    o.evals = o.st.counters.iter().filter(|(k, _)| k.ends_with("alike")).map(|(_, n)| *n).sum::<u64>().max(1);
    o.keys = keys;
    o
}

fn job_meta(id: Id, job: usize, rng: &mut Rng) -> Out {
    let mut cfg = cfg_for("P02", job, rng);
    cfg.pools = 1;
    cfg.wild = 0.0;
    cfg.probe = 0.0;
    cfg.exit = 0.0;
    if rng.p(0.3) {
        cfg.w[W_PEN] = 4;
    }
    let t0 = start_time(rng);
    let mut base = match World::new(rng, 1, cfg.users, t0, SRC_TOKENS, Some(id)) {
        Ok(w) => w,
        Err(e) => return Out { res: Some(e), evals: 1, ..Default::default() },
    };
    let dense = job % 20 == 13;
    if dense {
        if let Err(e) = pile(&mut base, rng) {
            return pack(id, Some(base), Err(e));
        }
        cfg.steps = 6 + rng.idx(16);
    }
    let start = base.clone();
    let before = base.log.len();
    let mut accepted: Vec<Op> = vec![];
    let r = if dense {
        (0..cfg.steps).try_for_each(|_| advance_history(&mut base, rng, &cfg))
    } else {
        history_in(&mut base, rng, &cfg, &mut |_, _| Ok(()))
    };
    // replaying decides acceptance again
    if r.is_err() {
        return pack(id, Some(base), r);
    }
    {
        let mut w = start.clone();
        w.watch = false;
        for op in &base.log[before..] {
            if let Op::AdvanceTo { t } = op {
                w.bank.now = *t;
                accepted.push(op.clone());
                continue;
            }
            let ix = w.build(op);
            if w.bank.run(&ix).is_ok() {
                accepted.push(op.clone());
            }
        }
    }
    let n_users = base.users.len();
    let mut st = base.st.clone();
    let mut variant_log = vec![];
    let r = (|| -> R<()> {
        let variants = 4;
        for k in 0..variants {
            variant_log.clear();
            let reorder = k == 3;
            let mut ops = accepted.clone();
            if reorder {
                let mut swaps = 0;
                for _ in 0..ops.len() * 4 {
                    let i = rng.idx(ops.len().max(2) - 1);
                    if i + 1 >= ops.len() {
                        continue;
                    }
                    let (a, b) = (&ops[i], &ops[i + 1]);
                    let movable = |o: &Op| !named(o).is_empty();
                    if movable(a) && movable(b) && !named(a).iter().any(|x| named(b).contains(x)) {
                        ops.swap(i, i + 1);
                        swaps += 1;
                    }
                }
                st.count("operations exchanged", swaps);
            }
            let mut a = start.clone();
            let mut b = start.clone();
            let dens = *rng.pick(&[0.05, 0.2, 0.6]);
            let mut extra = vec![0u128; n_users];
            let mut exists: Vec<bool> = (0..n_users).map(|u| start.exists(0, u)).collect();
            // a deposit of nothing takes the space of its date
            let mut zero_deps = vec![if dense { 3 } else { 0 }; n_users];
            let mut bi = ops.iter();
            for op in &accepted {
                // base
                if let Op::AdvanceTo { t } = op {
                    a.bank.now = *t;
                } else {
                    let ix = a.build(op);
                    a.bank.run(&ix).map_err(|_| Stop::Broken)?;
                }
                // variant
                let vop = bi.next().unwrap();
                variant_log.push(vop.clone());
                if let Op::AdvanceTo { t } = vop {
                    b.bank.now = *t;
                } else {
                    let ix = b.build(vop);
                    if let Err(f) = b.bank.run(&ix) {
                        return viol(&["P17", "P20"], format!("{vop:?} is refused in the variant: {}", f.short()));
                    }
                }
                match vop {
                    Op::InitMining { u, .. } => exists[*u] = true,
                    Op::Close { u, .. } => exists[*u] = false,
                    _ => {}
                }
                for (x, y) in [(&mut a, op), (&mut b, vop)] {
                    match y {
                        Op::InitMining { u, .. } => x.m[0].m[*u].exists = true,
                        Op::Close { u, .. } => x.m[0].m[*u].exists = false,
                        _ => {}
                    }
                }
                while !reorder && rng.p(dens) {
                    let ex: Vec<usize> = (0..n_users).filter(|u| exists[*u]).collect();
                    if ex.is_empty() {
                        break;
                    }
                    let u = ex[rng.idx(ex.len())];
                    let d = ex[rng.idx(ex.len())];
                    let e = ex[rng.idx(ex.len())];
                    let x = match rng.idx(6) {
                        0 | 1 => Op::Claim { p: 0, u },
                        2 => Op::Withdraw { p: 0, u, amount: 0, del: d },
                        3 if zero_deps[u] < 3 => {
                            zero_deps[u] += 1;
                            extra[u] += 1;
                            Op::Deposit { p: 0, u, amount: 0, period: 1 + rng.idx(4) as u8, del: d }
                        }
                        4 if e != d => Op::ChangeDelegate { p: 0, u, amount: 0, old: d, new: e },
                        5 => Op::Slash { p: 0, u, native: 0, mult: 0, expiry: None },
                        _ => Op::Claim { p: 0, u },
                    };
                    let ix = b.build(&x);
                    if let Err(f) = b.bank.run(&ix) {
                        return viol(&["P17", "P20"], format!("inserted {x:?} is refused: {}", f.short()));
                    }
                    for y in named(&x) {
                        extra[y] += 1;
                    }
                    st.count("settlements inserted", 1);
                    variant_log.push(x);
                }
                let dist = matches!(op, Op::Distribute { .. });
                if !reorder && (dist || rng.p(0.05)) {
                    compare(&a, &b, &extra, &mut st)?;
                }
            }
            compare(&a, &b, &extra, &mut st)?;
            if reorder {
                // the same bytes, not just the same totals
                for u in 0..n_users {
                    let (x, y) = (mining_hdr(&a.bank.get(&a.pools[0].mining[u]).data), mining_hdr(&b.bank.get(&b.pools[0].mining[u]).data));
                    if x != y {
                        return viol(&["P17"], format!("after reordering, mining of staker {u} is {y:?} instead of {x:?}"));
                    }
                }
            }
            st.count("variants compared", 1);
        }
        Ok(())
    })();
    let mut o = pack(id, Some(base), r);
    o.st = st;
    o.evals = 4;
    if o.res.is_some() {
        let s: Vec<String> = variant_log.iter().enumerate().map(|(i, o)| format!("{i}: {o:?}")).collect();
        o.trace.push_str(&format!("\nvariant:\n{}", s.join("\n")));
    }
    o
}

fn compare(a: &World, b: &World, extra: &[u128], st: &mut Stats) -> R<()> {
    let (x, y) = (totals(a, 0), totals(b, 0));
    for u in 0..extra.len() {
        match (x[u], y[u]) {
            (Some(x), Some(y)) => {
                st.count("totals compared", 1);
                if x.abs_diff(y) > extra[u] {
                    return viol(&["P17"], format!("staker {u} has received and can claim {y} instead of {x} after {} extra settlements", extra[u]));
                }
            }
            (Some(_), None) => return viol(&["P17", "P20"], format!("claim of staker {u} is refused in the variant")),
            _ => {}
        }
    }
    for u in 0..extra.len() {
        if !a.exists(0, u) {
            continue;
        }
        let (v, w) = (a.probe_view(0, u), b.probe_view(0, u));
        if let (Ok(v), Ok(w)) = (v, w) {
            st.count("weights compared", 1);
            if v.share != w.share || v.sfo != w.sfo {
                return viol(&["P17"], format!("staker {u} weighs {}+{} instead of {}+{} after extra settlements", w.share, w.sfo, v.share, v.sfo));
            }
        }
    }
    let (v, w) = (a.probe_total(0), b.probe_total(0));
    if v != w {
        return viol(&["P17"], format!("the pool weighs {w:?} instead of {v:?} after extra settlements"));
    }
    Ok(())
}

/// long histories that fill the fixed-size trees
fn job_capacity(id: Id, job: usize, rng: &mut Rng, thorough: bool) -> Out {
    let t0 = start_time(rng);
    let kind = job % 5;
    let users = match kind {
        0 => 3,
        3 => 7,
        _ => 11,
    };
    let mut w = match World::new(rng, 1, users, t0, SRC_TOKENS, Some(id)) {
        Ok(w) => w,
        Err(e) => return Out { res: Some(e), evals: 1, ..Default::default() },
    };
    let mut reached = false;
    let r = (|| -> R<()> {
        for u in 0..users {
            act(&mut w, Op::InitMining { p: 0, u }, Eff::None)?;
        }
        act(&mut w, Op::Fill { p: 0, amount: 1 << 40, ends: (t0 + 2000 * DAY) as u64 }, Eff::None)?;
        match kind {
            // one staker with more than 50 expiry dates, fully watched
            0 => {
                let dist = rng.p(0.7);
                let only = rng.idx(5);
                let mut refused = 0;
                for i in 0..75 {
                    let period = if only < 4 { Period::REAL[only] } else { *rng.pick(&Period::REAL) };
                    let (u, del) = (0, rng.idx(3));
                    let most = if rng.p(0.3) { 3 } else { 1 << 30 };
                    let a = 1 + rng.below(most);
                    let now = w.now();
                    let e = Entry { p: 0, u, amount: a, period, start: now, del, del_amt: if del != u { a } else { 0 } };
                    if !act(&mut w, Op::Deposit { p: 0, u, amount: a, period: period as u8, del }, Eff::New(e))? {
                        refused += 1;
                    }
                    if w.m[0].m[0].diffs.len() >= MINING_CAP {
                        reached = true;
                    }
                    if i % 3 == 0 {
                        let a = 1 + rng.below(1 << 20);
                        let e = Entry { p: 0, u: 1, amount: a, period: Period::Y1, start: now, del: 0, del_amt: a };
                        act(&mut w, Op::Deposit { p: 0, u: 1, amount: a, period: 4, del: 0 }, Eff::New(e))?;
                    }
                    if reached && rng.p(0.3) {
                        // extend while full
                        let c: Vec<usize> = (0..w.entries.len()).filter(|i| w.entries[*i].u == 0).collect();
                        let i = c[rng.idx(c.len())];
                        let e = w.entries[i].clone();
                        let new = *rng.pick(&Period::REAL);
                        act(
                            &mut w,
                            Op::Extend { p: 0, u: 0, old: e.period as u8, new: new as u8, start: e.start as u64, base: e.amount, add: 5, del: e.del },
                            Eff::Extend { i, add: 5, new, start: now },
                        )?;
                    }
                    let t = w.now() + DAY + rng.range(-3000, 3000);
                    w.advance(t.max(now + 1))?;
                    if dist {
                        act(&mut w, Op::Distribute { p: 0 }, Eff::None)?;
                    }
                }
                w.st.count("deposits refused for lack of space", refused);
                w.probe_future(rng, 0, 0, 60)?;
                let seed = rng.u64();
                w.fork(|w| exit_all(w, &mut Rng::new(seed), 0))?;
            }
            // a pool with deposits of every period every day, with or without daily distributions
            1 | 2 => {
                w.watch = false;
                let dist = kind == 1;
                let days = if thorough { 900 } else { 460 };
                let d0 = day(t0) / DAY;
                for i in 0..days {
                    let now = w.now();
                    let mut ps = Period::REAL;
                    rng.shuffle(&mut ps);
                    for period in ps {
                        // expiry days in blocks of 40, each block its own staker (at most 45 dates each)
                        let exp = day(now) / DAY + period.days() - d0;
                        let u = (exp / 40) as usize % 11;
                        let a = 1 + { let most = if rng.p(0.2) { 3 } else { 1 << 20 }; rng.below(most) };
                        let del = if rng.p(0.2) { (u + 1) % 11 } else { u };
                        let e = Entry { p: 0, u, amount: a, period, start: now, del, del_amt: if del != u { a } else { 0 } };
                        let op = Op::Deposit { p: 0, u, amount: a, period: period as u8, del };
                        let (v, _) = w.predict(&op);
                        let ok = act(&mut w, op.clone(), Eff::New(e))?;
                        if v == V::Ok && !ok {
                            return viol(&["P18", "P20"], format!("day {i}: {op:?} refused with {} dates in the pool and {} in the mining", w.m[0].diffs.len(), w.m[0].m[u].diffs.len()));
                        }
                    }
                    if w.m[0].diffs.len() >= 360 {
                        reached = true;
                    }
                    if dist && !act(&mut w, Op::Distribute { p: 0 }, Eff::None)? {
                        return viol(&["P18", "P05"], format!("day {i}: distribution refused"));
                    }
                    if i % 60 == 59 || (i > 360 && i % 15 == 0) {
                        look(&mut w)?;
                    }
                    let t = day(now) + DAY + rng.range(0, DAY - 1);
                    w.advance(t)?;
                }
                look(&mut w)?;
                if dist {
                    w.watch = true;
                    look(&mut w)?;
                    // unlock and leave
                    let seed = rng.u64();
                    w.fork(|w| {
                        w.watch = false;
                        exit_all(w, &mut Rng::new(seed), 0)
                    })?;
                }
            }
            // more distributions than the index has room for
            3 => {
                w.watch = false;
                let e = Entry { p: 0, u: 0, amount: 1000, period: Period::Flex, start: t0, del: 0, del_amt: 0 };
                act(&mut w, Op::Deposit { p: 0, u: 0, amount: 1000, period: 1, del: 0 }, Eff::New(e))?;
                let e = Entry { p: 0, u: 1, amount: 777, period: Period::Y1, start: t0, del: 2, del_amt: 777 };
                act(&mut w, Op::Deposit { p: 0, u: 1, amount: 777, period: 4, del: 2 }, Eff::New(e))?;
                // stakers whose accounts nobody touches until the end
                for (u, period) in [(3, Period::M3), (4, Period::M6), (5, Period::Flex), (6, Period::M3)] {
                    let a = 1 + rng.below(5000);
                    let e = Entry { p: 0, u, amount: a, period, start: t0, del: u, del_amt: 0 };
                    act(&mut w, Op::Deposit { p: 0, u, amount: a, period: period as u8, del: u }, Eff::New(e))?;
                }
                let mut refused = 0;
                for i in 0..1095 + 130 {
                    let t = day(w.now()) + DAY + rng.range(0, DAY - 1);
                    w.advance(t)?;
                    let ok = act(&mut w, Op::Distribute { p: 0 }, Eff::None)?;
                    if !ok {
                        refused += 1;
                        reached = true;
                    }
                    if w.m[0].dist_days.len() >= INDEX_CAP {
                        reached = true;
                    }
                    // again on the same day
                    if rng.p(0.1) || i > 1080 {
                        let t = w.now() + 1;
                        if day(t) == day(w.now()) {
                            w.advance(t)?;
                        }
                        let before = w.bank.get(&w.pools[0].key);
                        let a = w.bank.exec(&w.build(&Op::Distribute { p: 0 }));
                        if let Ok(d) = &a {
                            let x = d.get(&w.pools[0].key).and_then(|a| pool_hdr(&a.data));
                            let y = pool_hdr(&before.data);
                            if let (Some(x), Some(y)) = (x, y) {
                                if x.available != y.available || x.index != y.index {
                                    return viol(&["P18", "P05"], format!("after {i} days: a second distribution on the same day took effect"));
                                }
                            }
                        }
                        w.st.count("same-day repetitions", 1);
                    }
                    if i % 97 == 0 || (i > 1085 && i < 1105) || i > 1095 && i % 9 == 0 {
                        look(&mut w)?;
                    }
                    if rng.p(0.02) {
                        act(&mut w, Op::Claim { p: 0, u: rng.idx(3) }, Eff::None)?;
                    }
                }
                w.st.count("distributions refused for lack of space", refused);
                look(&mut w)?;
                let seed = rng.u64();
                w.fork(|w| {
                    w.watch = true;
                    for u in 0..w.users.len() {
                        w.view[0][u] = w.probe_view(0, u).ok();
                    }
                    exit_all(w, &mut Rng::new(seed), 0)
                })?;
            }
            // expired dates must make room again, without distributions in between
            _ => {
                w.watch = false;
                for round in 0..3 {
                    let mut n = 0;
                    for i in 0..50 {
                        let u = round % users;
                        let now = w.now();
                        let a = 1 + rng.below(1 << 20);
                        let period = *rng.pick(&[Period::M3, Period::M6, Period::Y1]);
                        let op = Op::Deposit { p: 0, u, amount: a, period: period as u8, del: u };
                        let (v, _) = w.predict(&op);
                        let e = Entry { p: 0, u, amount: a, period, start: now, del: u, del_amt: 0 };
                        let ok = act(&mut w, op.clone(), Eff::New(e))?;
                        if v == V::Ok && !ok {
                            return viol(&["P18", "P20"], format!("round {round}, deposit {i}: {op:?} refused"));
                        }
                        if w.m[0].m[u].diffs.len() >= MINING_CAP - 1 {
                            reached = true;
                        }
                        n += ok as u32;
                        let t = day(now) + DAY + rng.range(0, DAY - 1);
                        w.advance(t)?;
                    }
                    w.st.count("deposits in rounds", n as u64);
                    look(&mut w)?;
                    let t = w.now() + 370 * DAY;
                    w.advance(t)?;
                    if round == 1 {
                        act(&mut w, Op::Distribute { p: 0 }, Eff::None)?;
                    }
                    look(&mut w)?;
                }
            }
        }
        Ok(())
    })();
    let mut o = pack(id, Some(w), r);
    o.keys = if reached { vec![(kind as u64) << 56 | rng.u64() >> 8] } else { vec![] };
    o.st.count(["one staker, more than 50 dates", "365 dates, daily distributions", "365 dates, no distributions", "more than 1095 distributions", "expired dates make room"][kind], 1);
    o
}

/// look at everything once (for histories that do not watch each step)
fn look(w: &mut World) -> R<()> {
    w.look()
}

// ------------------------------------------------------------------------------------- malformed input

pub fn job_malformed(id: Id, _job: usize, rng: &mut Rng, mode: Mode) -> Out {
    let mut cfg = Cfg::base();
    cfg.pools = 2;
    cfg.users = 3;
    cfg.steps = 25 + rng.idx(30);
    cfg.wild = 0.05;
    cfg.probe = 0.0;
    let t0 = start_time(rng);
    let mut t = Tally { focus: Some(id), ..Default::default() };
    let mut keys: HashSet<u64> = Default::default();
    let mut sample = None;
    let mut counts: BTreeMap<&'static str, u64> = Default::default();
    let (w, r) = history(rng, &cfg, t0, Some(id), &mut |w, rng| {
        if !rng.p(0.07) {
            return Ok(());
        }
        let s = Stage::new(w, rng);
        let kinds: Vec<u8> = (0..12).collect();
        for ix in s.valid(rng, &kinds) {
            let base = match s.bank.exec_mode(&ix, mode) {
                Ok(d) => d,
                Err(Fail::Corrupt(m)) => return viol(&["P23"], format!("{m}: {}", s.describe(&ix))),
                Err(_) => continue,
            };
            // the loader's own entry point does the same
            match s.bank.exec_mode(&ix, Mode::Entry) {
                Ok(d) => {
                    *counts.entry("calls compared through the entry point").or_default() += 1;
                    let same = d.changes.len() == base.changes.len() && base.changes.iter().all(|(k, a)| d.get(k) == Some(a)) && d.ret == base.ret;
                    if !same {
                        return t.judge(&["P23"], format!("entry point and processor differ: {}", s.describe(&ix)));
                    }
                }
                Err(Fail::Runtime(x)) if x.starts_with("harness") => {}
                Err(f) => return t.judge(&["P23"], format!("entry point refuses ({}) what the processor accepts: {}", f.short(), s.describe(&ix))),
            }
            let mut run = |x: &Ix, b: Option<&Bank>, what: &'static str, must_refuse: bool| -> R<()> {
                t.tries += 1;
                *counts.entry(what).or_default() += 1;
                let bank = b.unwrap_or(&s.bank);
                let mut res = bank.exec_mode(x, mode);
                // what the processor refuses, the entry point refuses
                if must_refuse && t.tries % 3 == 0 && matches!(res, Err(Fail::Err(_) | Fail::Runtime(_))) {
                    if let Ok(d) = bank.exec_mode(x, Mode::Entry) {
                        res = Ok(d);
                    }
                }
                let code = match &res {
                    Ok(_) => 1,
                    Err(Fail::Err(_)) => 2,
                    Err(Fail::Panic(_)) => 3,
                    Err(Fail::Runtime(_)) => 4,
                    Err(Fail::Corrupt(_)) => 5,
                };
                let mut h = (x.data.first().copied().unwrap_or(255) as u64) << 32 | (x.data.len() as u64) << 16 | (x.metas.len() as u64) << 8 | code;
                for b in what.bytes() {
                    h = h.wrapping_mul(31).wrapping_add(b as u64);
                }
                keys.insert(h);
                match res {
                    Err(Fail::Corrupt(m)) => viol(&["P23"], format!("{m} ({what}): {}", s.describe(x))),
                    Ok(d) if must_refuse && !d.changes.is_empty() => viol(&["P23"], format!("accepted ({what}): {}; changed {} accounts", s.describe(x), d.changes.len())),
                    Ok(_) if must_refuse => viol(&["P23"], format!("accepted ({what}): {}", s.describe(x))),
                    _ => Ok(()),
                }
            };
            if sample.is_none() {
                sample = Some(format!("{} truncated to {} bytes", s.describe(&ix), ix.data.len() - 1));
            }
            // --- data
            for n in 0..ix.data.len() {
                let mut x = ix.clone();
                x.data.truncate(n);
                run(&x, None, "truncated data", !data_valid(&x.data))?;
            }
            for n in [1usize, 2, 7, 8, 32, 64, 1000] {
                let mut x = ix.clone();
                x.data.extend((0..n).map(|_| if rng.p(0.5) { 0 } else { rng.u64() as u8 }));
                run(&x, None, "surplus data", !data_valid(&x.data))?;
            }
            for tag in 0..=255u8 {
                let mut x = ix.clone();
                x.data[0] = tag;
                if data_valid(&x.data) {
                    // the account list of another instruction: refused by its own rules or harmless
                    let v = s.spec(&x);
                    run(&x, None, "another instruction's tag", !v.no.is_empty())?;
                } else {
                    run(&x, None, "invalid tag", true)?;
                }
            }
            for b in 5..=255u8 {
                for o in match ix.data[0] {
                    3 => vec![9],
                    6 => vec![1, 2],
                    _ => vec![],
                } {
                    let mut x = ix.clone();
                    x.data[o] = b;
                    run(&x, None, "invalid lockup period", true)?;
                }
            }
            if ix.data[0] == 10 {
                for b in 2..=255u8 {
                    let mut x = ix.clone();
                    x.data[49] = b;
                    run(&x, None, "invalid option tag", true)?;
                }
            }
            for _ in 0..60 {
                let mut x = ix.clone();
                for _ in 0..1 + rng.idx(4) {
                    let i = rng.idx(x.data.len());
                    x.data[i] ^= 1 << rng.idx(8);
                }
                let v = s.spec(&x);
                run(&x, None, "flipped data bits", !data_valid(&x.data) || !v.no.is_empty())?;
            }
            for _ in 0..30 {
                let mut x = ix.clone();
                let n = rng.idx(120);
                x.data = (0..n).map(|_| rng.u64() as u8).collect();
                if n > 0 && rng.p(0.8) {
                    x.data[0] = rng.idx(13) as u8;
                }
                let v = s.spec(&x);
                run(&x, None, "random data", !data_valid(&x.data) || !v.no.is_empty())?;
            }
            // --- account lists
            for n in 0..ix.metas.len() {
                let mut x = ix.clone();
                x.metas.truncate(n);
                run(&x, None, "missing accounts", true)?;
                let mut x = ix.clone();
                x.metas.remove(n);
                let v = s.spec(&x);
                run(&x, None, "one account missing", !v.no.is_empty())?;
                let mut x = ix.clone();
                let m = x.metas[n].clone();
                x.metas.push(m);
                run(&x, None, "surplus account", false)?;
                for j in 0..ix.metas.len() {
                    if j != n {
                        let mut x = ix.clone();
                        x.metas[n].key = ix.metas[j].key;
                        let v = s.spec(&x);
                        run(&x, None, "same account twice", !v.no.is_empty())?;
                    }
                }
                // accounts not passed as writable
                let mut x = ix.clone();
                if x.metas[n].writable {
                    x.metas[n].writable = false;
                    run(&x, None, "read-only account", false)?;
                }
            }
            // --- account contents: every account resized, emptied, retyped, scribbled on
            for n in 0..ix.metas.len() {
                let k = ix.metas[n].key;
                let a = s.bank.get(&k);
                if a.executable || a.owner == solana_program::sysvar::ID || a.lamports == 0 {
                    continue;
                }
                let len = a.data.len();
                let program = a.owner == mplx_rewards::ID;
                let mut with = |data: Vec<u8>, what: &'static str, must: bool| -> R<()> {
                    let mut b = s.bank.clone();
                    let mut y = a.clone();
                    let l = solana_program::rent::Rent::default().minimum_balance(data.len());
                    y.lamports = y.lamports.max(l);
                    y.data = std::sync::Arc::new(data);
                    b.set(k, y);
                    run(&ix, Some(&b), what, must)
                };
                // a pool or mining that is too short is refused (longer ones do not exist, and what
                // is done with the surplus is nobody's business)
                let must = program && len > 0 && ix.data[0] != 2;
                for m in [0usize, 1, 8, 32, 143, 144, 145, 175, 176, 177, 1000, len / 2, len.saturating_sub(8), len.saturating_sub(1)] {
                    if m < len {
                        with(a.data[..m].to_vec(), "account too short", must)?;
                    }
                }
                for m in [1usize, 8, 16, 48, 1000] {
                    let mut d = (*a.data).clone();
                    d.extend(std::iter::repeat(0).take(m));
                    with(d, "account too long", false)?;
                }
                if program && len > 0 {
                    let mut d = (*a.data).clone();
                    for x in d.iter_mut() {
                        *x = 0;
                    }
                    with(d, "blank account", false)?;
                    // headers scribbled on (the trees behind them are left alone: endless walks
                    // over forged trees end by the compute limit on chain)
                    let hdr = if len == POOL_LEN { 176 } else { 144 };
                    for _ in 0..6 {
                        let mut d = (*a.data).clone();
                        for _ in 0..1 + rng.idx(20) {
                            let i = rng.idx(hdr.min(len));
                            d[i] = *rng.pick(&[0, 1, 2, 0x7f, 0x80, 0xff, 0x55]);
                        }
                        with(d, "scribbled header", false)?;
                    }
                    // header of the other type
                    for h in &s.w.pools {
                        let o = if len == POOL_LEN { h.mining[0] } else { h.key };
                        let od = s.bank.get(&o).data;
                        let mut d = (*a.data).clone();
                        let c = 144.min(od.len()).min(d.len());
                        d[..c].copy_from_slice(&od[..c]);
                        with(d, "header of another type", false)?;
                        if !od.is_empty() {
                            with((*od).clone(), "account of another type", must && od.len() < len)?;
                        }
                    }
                } else if len > 0 {
                    for _ in 0..4 {
                        let mut d = (*a.data).clone();
                        let i = rng.idx(len);
                        d[i] ^= 1 << rng.idx(8);
                        with(d, "scribbled token account", false)?;
                    }
                }
            }
        }
        Ok(())
    });
    let mut o = pack(id, w, r);
    o.evals = t.tries;
    o.keys = keys.into_iter().collect();
    for (k, v) in counts {
        o.st.count(k, v);
    }
    o.sample = sample;
    o
}

// ------------------------------------------------------------------------------------- running

pub struct Plan {
    pub jobs: usize,
    pub cap: Duration,
}

fn plan(id: Id, thorough: bool) -> Plan {
    let quick = match id {
        "P08" => 320,
        "P09" => 200,
        "P10" => 15000,
        "P16" => 3000,
        "P15" => 1300,
        "P17" => 1400,
        "P18" => 1000,
        "P20" => 4000,
        "P23" => 50,
        "P26" => 1500,
        "P27" => 1500,
        "P28" => 600,
        "P29" => 4000,
        "P04" | "P12" | "P13" | "P14" => 5000,
        _ => 5500,
    };
    Plan { jobs: if thorough { quick * 100 } else { quick }, cap: Duration::from_secs(if thorough { 700 } else { 120 }) }
}

fn run_job(id: Id, job: usize, seed: u64, thorough: bool, mode: Mode) -> Out {
    let mut rng = job_rng(id, seed, job);
    let rng = &mut rng;
    match id {
        "P08" | "P09" => job_hostile(id, job, rng, thorough),
        "P01" | "P02" | "P05" | "P07" | "P10" | "P19" | "P25" if job % 450 == 58 => job_rich(id, job, rng),
        "P10" if job % 6 != 5 => job_extreme(id, job, rng),
        "P01" | "P02" | "P03" | "P05" | "P06" | "P07" | "P11" | "P12" | "P13" | "P14" | "P19" | "P24" | "P25" if job % 12 == 7 => job_extreme(id, job, rng),
        "P01" | "P02" | "P03" | "P04" | "P05" | "P07" | "P11" | "P12" | "P13" | "P14" | "P15" | "P19" | "P20" | "P24" | "P25" if job % 40 == 23 => job_dense(id, job, rng),
        "P17" => job_meta(id, job, rng),
        "P18" => job_capacity(id, job, rng, thorough),
        "P23" => job_malformed(id, job, rng, mode),
        "P27" if job % 8 == 0 => job_capacity(id, job / 8, rng, thorough),
        "P27" if job % 16 == 3 => job_work(id, job / 16, rng, thorough),
        "P28" if job % 3 != 2 => job_work(id, job / 3 * 2 + job % 3, rng, thorough),
        "P26" => job_vary(id, job, rng),
        "P29" => job_reasons(id, job, rng),
        _ => job_history(id, job, rng),
    }
}

fn evidence(id: Id, seed: u64, tier: &str, ev: &str, body: serde_json::Value) {
    let dir = std::path::Path::new(ev);
    let _ = std::fs::create_dir_all(dir);
    let f = dir.join(format!("{id}.json"));
    let mut v = body;
    v["property"] = id.into();
    v["seed"] = seed.into();
    v["tier"] = tier.into();
    v["level"] = "exploration".into();
    std::fs::write(&f, serde_json::to_string_pretty(&v).unwrap() + "\n").expect("evidence");
}

/// returns the exit code
pub fn check(id: Id, seed: u64, thorough: bool, ev: &str, mode: Mode, only: Option<usize>) -> i32 {
    let assume = [
        "the transaction runtime of harness/src/svm.rs stands for the Solana runtime (its compute budget only as basic blocks, P28)",
        "the staking program in front of this one sends what harness/src/gen.rs proposes as conforming",
    ];
    drive(id, seed, thorough, ev, only, plan(id, thorough), rule(id), &assume, &|j| run_job(id, j, seed, thorough, mode))
}

pub fn job_rng(id: Id, seed: u64, job: usize) -> Rng {
    Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(job as u64).wrapping_mul(0x2545_F491_4F6C_DD1D) ^ id.bytes().fold(7, |h, b| h * 131 + b as u64))
}

#[allow(clippy::too_many_arguments)]
pub fn drive(id: Id, seed: u64, thorough: bool, ev: &str, only: Option<usize>, pl: Plan, rule: &str, assume: &[&str], job: &(dyn Fn(usize) -> Out + Sync)) -> i32 {
    let t0 = Instant::now();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    struct Acc {
        evals: u64,
        keys: HashSet<u64>,
        st: Stats,
        samples: Vec<String>,
        broken: u64,
        jobs: u64,
        viol: Option<(usize, Viol, String)>,
        notes: Vec<String>,
    }
    let acc = Mutex::new(Acc { evals: 0, keys: HashSet::new(), st: Stats::default(), samples: vec![], broken: 0, jobs: 0, viol: None, notes: vec![] });
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || loop {
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let mut j = next.fetch_add(1, Ordering::Relaxed);
                    if let Some(o) = only {
                        if j > 0 {
                            break;
                        }
                        j = o;
                    }
                    if j >= pl.jobs && only.is_none() || t0.elapsed() > pl.cap {
                        break;
                    }
                    let o = job(j);
                    let mut a = acc.lock().unwrap();
                    a.jobs += 1;
                    a.evals += o.evals;
                    a.keys.extend(o.keys);
                    a.st.add(&o.st);
                    if a.notes.len() < 10 {
                        a.notes.extend(o.notes.iter().take(3).map(|n| format!("job {j}: {n}")));
                    }
                    if a.samples.len() < 3 {
                        if let Some(s) = o.sample {
                            a.samples.push(s);
                        }
                    }
                    match o.res {
                        Some(Stop::Broken) => a.broken += 1,
                        Some(Stop::Viol(v)) => {
                            if v.tags.contains(&id) {
                                if a.viol.as_ref().map(|x| x.0 > j).unwrap_or(true) {
                                    a.viol = Some((j, v, o.trace));
                                }
                                stop.store(true, Ordering::Relaxed);
                            } else {
                                if a.notes.len() < 10 {
                                    a.notes.push(format!("job {j}: {:?} {}", v.tags, v.msg));
                                }
                                a.st.count("violations of other properties (not judged here)", 1);
                            }
                        }
                        None => {}
                    }
                })
                .expect("thread");
        }
    });
    let a = acc.into_inner().unwrap();
    let mut by_op = serde_json::Map::new();
    for (k, (x, y)) in &a.st.by_op {
        by_op.insert(k.to_string(), serde_json::json!({"accepted": x, "refused": y}));
    }
    let counters: serde_json::Map<String, serde_json::Value> = a.st.counters.iter().map(|(k, v)| (k.to_string(), (*v).into())).collect();
    let tier = if thorough { "thorough" } else { "quick" };
    let mut code = 0;
    let mut nviol = 0;
    if id == "P28" && !a.st.counters.contains_key("calls whose basic blocks were counted") {
        eprintln!("P28: the program is not instrumented");
        return 3;
    }
    if let Some((j, v, trace)) = &a.viol {
        nviol = 1;
        code = 1;
        let rd = std::path::Path::new(ev).join("replays");
        let _ = std::fs::create_dir_all(&rd);
        let path = rd.join(format!("{id}-{seed}-{j}.txt"));
        let _ = std::fs::write(
            &path,
            format!("property {id}\n{}\nconcerns {:?}\nagain: mon check {id} --seed {seed} --job {j}{}\n\n{trace}\n", v.msg, v.tags, if thorough { " --thorough" } else { "" }),
        );
        println!("{id}: {}", v.msg);
        println!("VIOLATION property={id} replay={}", path.display());
    }
    let off = a.st.counters.get("violations of other properties (not judged here)").copied().unwrap_or(0);
    evidence(
        id,
        seed,
        tier,
        ev,
        serde_json::json!({
            "coverage": {
                "evaluations": a.evals,
                "distinct_nontrivial": a.keys.len(),
                "rule": rule,
                "samples": a.samples,
                "jobs": a.jobs,
                "instructions_executed_and_monitored": a.st.steps,
                "accepted": a.st.accepted,
                "refused": a.st.refused,
                "claimable_views_measured": a.st.views,
                "forks_explored": a.st.forks,
                "distribution_calls_accepted": a.st.dists,
                "claims_that_paid": a.st.claims_paid,
                "pool_expiries_processed": a.st.expiries,
                "histories_beyond_the_model": a.broken,
                "distinct_situations": a.st.situations.len(),
                "by_instruction": by_op,
                "heap_biggest_stack_blocks": a.st.used,
                "counters": counters,
                "seen_but_not_of_this_property": a.notes,
            },
            "assumptions": assume,
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": nviol,
        }),
    );
    if std::env::var("MON_NOTES").is_ok() {
        for n in &a.notes {
            println!("note {n}");
        }
    }
    println!(
        "{id} {tier} seed {seed}: {} cases, {} distinct non-trivial, {} monitored instructions, {} views, {} forks, {:.1} s{}",
        a.evals,
        a.keys.len(),
        a.st.steps,
        a.st.views,
        a.st.forks,
        t0.elapsed().as_secs_f64(),
        if off > 0 { format!(", {off} violations of other properties seen") } else { String::new() }
    );
    if code == 0 && (a.keys.is_empty() || a.evals == 0) && only.is_none() {
        if off > 0 {
            // the tree is so broken that nothing of this property can be observed
            println!("{id}: nothing observed, other properties are violated");
        }
        println!("{id}: no non-trivial case was observed");
        return 2;
    }
    code
}
