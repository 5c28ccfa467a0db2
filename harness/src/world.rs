//! A world of pools and stakers driven through the real program, with the monitors that run after
//! every instruction and every clock step.
use crate::model::*;
use crate::rng::Rng;
use crate::svm::*;
use crate::wire::{self, *};
use solana_program::{program_pack::Pack, pubkey::Pubkey, rent::Rent};
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug)]
pub struct Viol {
    pub tags: Vec<&'static str>,
    pub msg: String,
}

#[derive(Debug)]
pub enum Stop {
    Viol(Viol),
    /// the model cannot continue (non-conforming arguments); not a verdict
    Broken,
}
pub type R<T> = Result<T, Stop>;

impl Viol {
    pub fn new(tags: &[&'static str], msg: String) -> Viol {
        let mut t = tags.to_vec();
        t.sort();
        t.dedup();
        Viol { tags: t, msg }
    }
}

pub fn viol<T>(tags: &[&'static str], msg: String) -> R<T> {
    let mut t = tags.to_vec();
    t.sort();
    t.dedup();
    Err(Stop::Viol(Viol { tags: t, msg }))
}

#[derive(Clone)]
pub struct PoolH {
    pub key: Pubkey,
    pub mint: Pubkey,
    pub vault: Pubkey,
    pub dep: Pubkey,
    pub dist: Pubkey,
    pub fill: Pubkey,
    pub src: Pubkey,
    /// per user
    pub mining: Vec<Pubkey>,
    pub tok: Vec<Pubkey>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct View {
    pub claim: u64,
    pub share: u64,
    pub sfo: u64,
}

/// a deposit as the staking program would remember it
#[derive(Clone, Debug)]
pub struct Entry {
    pub p: usize,
    pub u: usize,
    pub amount: u64,
    pub period: Period,
    pub start: i64,
    pub del: usize,
    pub del_amt: u64,
}
impl Entry {
    pub fn expiry(&self) -> i64 {
        day(self.start) + self.period.days() * DAY
    }
    pub fn locked(&self, now: i64) -> bool {
        self.period != Period::Flex && day(now) < self.expiry()
    }
}

#[derive(Clone, Default, Debug)]
pub struct Stats {
    pub steps: u64,
    pub accepted: u64,
    pub refused: u64,
    pub refusals_checked: u64,
    pub views: u64,
    pub forks: u64,
    pub dists: u64,
    pub claims_paid: u64,
    pub expiries: u64,
    pub by_op: BTreeMap<&'static str, (u64, u64)>,
    pub counters: BTreeMap<&'static str, u64>,
    /// most heap, biggest single piece, most stack
    pub used: BTreeMap<&'static str, (u64, u64, u64, u64)>,
    /// fingerprints of the situations in which instructions were observed
    pub situations: HashSet<u64>,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.steps += o.steps;
        self.accepted += o.accepted;
        self.refused += o.refused;
        self.refusals_checked += o.refusals_checked;
        self.views += o.views;
        self.forks += o.forks;
        self.dists += o.dists;
        self.claims_paid += o.claims_paid;
        self.expiries += o.expiries;
        for (k, v) in &o.by_op {
            let e = self.by_op.entry(k).or_default();
            e.0 += v.0;
            e.1 += v.1;
        }
        for (k, v) in &o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for (k, v) in &o.used {
            let e = self.used.entry(k).or_default();
            *e = (e.0.max(v.0), e.1.max(v.1), e.2.max(v.2), e.3.max(v.3));
        }
        self.situations.extend(&o.situations);
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_default() += n;
    }
}

#[derive(Clone)]
pub struct World {
    pub bank: Bank,
    pub pools: Vec<PoolH>,
    pub users: Vec<Pubkey>,
    pub payer: Pubkey,
    pub target: Pubkey,
    pub m: Vec<MPool>,
    pub entries: Vec<Entry>,
    pub view: Vec<Vec<Option<View>>>,
    pub ptotal: Vec<Option<u64>>,
    pub log: Vec<Op>,
    pub notes: Vec<String>,
    pub t0: i64,
    pub st: Stats,
    /// recompute all views after each step (off only for long histories, which sample)
    pub watch: bool,
    /// only arguments a correct staking program sends have been used
    pub conforming: bool,
    /// amounts and dates at the edges of 64 bits
    pub extreme: bool,
    /// stop only for violations of this property; after others follow what was observed
    pub focus: Option<&'static str>,
    pub dirty: bool,
}

/// what happened before to the stakers an operation names
fn named_flags(op: &Op, m: &MPool) -> Vec<&'static str> {
    let mut f = 0;
    match op {
        Op::Deposit { u, del, .. } | Op::Withdraw { u, del, .. } | Op::Extend { u, del, .. } => f |= m.m[*u].flags | m.m[*del].flags,
        Op::Claim { u, .. } | Op::Close { u, .. } | Op::Slash { u, .. } | Op::Penalty { u, .. } => f |= m.m[*u].flags,
        Op::ChangeDelegate { u, old, new, .. } => f |= m.m[*u].flags | m.m[*old].flags | m.m[*new].flags,
        _ => {}
    }
    flag_tags(f)
}

/// the heap of a program, never freed
pub const HEAP_MAX: u64 = 32 * 1024;
/// basic blocks of the program's own code in one call
pub const WORK_MAX: u64 = 100_000;
/// about 4 KB are needed; a pool takes 64 KB, its smaller tree 12 KB
pub const STACK_MAX: u64 = 12 * 1024;
pub const SRC_TOKENS: u64 = 1 << 62;

fn some_key(rng: &mut Rng) -> Pubkey {
    Pubkey::new_from_array(rng.bytes32())
}

/// whoever signs may be a wallet, an address derived by the staking program (which needs no
/// account there, or holds that program's data), a multisig
pub fn signer_account(rng: &mut Rng) -> Acct {
    match rng.idx(5) {
        0 | 1 => Acct::wallet(1 << 40),
        2 => Acct::empty(),
        _ => {
            let n = *rng.pick(&[1usize, 40, 176, 300]);
            let mut d = vec![0; n];
            d.iter_mut().for_each(|b| *b = rng.u64() as u8);
            Acct::with_data(some_key(rng), d)
        }
    }
}

impl World {
    pub fn new(rng: &mut Rng, n_pools: usize, n_users: usize, now: i64, src_tokens: u64, focus: Option<&'static str>) -> R<World> {
        let mut bank = Bank::new(now);
        let (payer, target) = (some_key(rng), some_key(rng));
        bank.set(payer, Acct::wallet(1 << 50));
        bank.set(target, Acct::wallet(10_000_000));
        let users: Vec<Pubkey> = (0..n_users).map(|_| some_key(rng)).collect();
        for u in &users {
            bank.set(*u, signer_account(rng));
        }
        let mut pools = vec![];
        for _ in 0..n_pools {
            let (pk, mint, dep, dist, fill, src) = (some_key(rng), some_key(rng), some_key(rng), some_key(rng), some_key(rng), some_key(rng));
            for a in [dep, dist, fill] {
                bank.set(a, signer_account(rng));
            }
            bank.set(pk, Acct::with_data(mplx_rewards::ID, vec![0; POOL_LEN]));
            bank.set(mint, Acct::with_data(spl_token::ID, wire::mint_account(&fill, src_tokens)));
            bank.set(src, Acct::with_data(spl_token::ID, wire::token_account(&mint, &fill, src_tokens)));
            let vault = vault_pda(&pk, &mint).0;
            let mut mining = vec![];
            let mut tok = vec![];
            for u in &users {
                mining.push(mining_pda(u, &pk).0);
                let t = some_key(rng);
                bank.set(t, Acct::with_data(spl_token::ID, wire::token_account(&mint, u, 0)));
                tok.push(t);
            }
            pools.push(PoolH { key: pk, mint, vault, dep, dist, fill, src, mining, tok });
        }
        let mut w = World {
            bank,
            m: vec![MPool::new(n_users); n_pools],
            view: vec![vec![None; n_users]; n_pools],
            ptotal: vec![None; n_pools],
            pools,
            users,
            payer,
            target,
            entries: vec![],
            log: vec![],
            notes: vec![],
            t0: now,
            st: Stats::default(),
            watch: true,
            conforming: true,
            extreme: false,
            focus,
            dirty: false,
        };
        for p in 0..n_pools {
            let h = w.pools[p].clone();
            let ix = wire::init_pool(&h.key, &h.mint, &h.vault, &w.payer, &h.dep, &h.fill, &h.dist);
            if matches!(focus, Some("P27" | "P28")) {
                w.meter(&ix, "init_pool")?;
            }
            match w.bank.run(&ix) {
                Ok(d) => w.check_new_pool(p, &d)?,
                Err(e) => return viol(&["P16", "P20"], format!("creating a pool was refused: {}", e.short())),
            }
            w.m[p].rolled_to = day(now);
        }
        Ok(w)
    }

    fn check_new_pool(&self, p: usize, d: &Delta) -> R<()> {
        let h = &self.pools[p];
        let pool = self.bank.get(&h.key);
        let hd = match pool_hdr(&pool.data) {
            Some(x) => x,
            None => return viol(&["P16"], "pool too small after init".into()),
        };
        if hd.deposit_authority != h.dep || hd.distribute_authority != h.dist || hd.fill_authority != h.fill || hd.mint != h.mint {
            return viol(&["P16"], "pool does not record the given authorities and mint".into());
        }
        if hd.kind != 1 || hd.index != 0 || hd.total != 0 || hd.ends_at != 0 || hd.available != 0 || hd.bump != vault_pda(&h.key, &h.mint).1 {
            return viol(&["P16"], format!("new pool is not empty: {hd:?}"));
        }
        let v = self.bank.get(&h.vault);
        let ok = v.owner == spl_token::ID
            && spl_token::state::Account::unpack(&v.data)
                .map(|a| a.mint == h.mint && a.owner == h.dep && a.amount == 0 && a.delegate.is_none() && a.close_authority.is_none() && a.state == spl_token::state::AccountState::Initialized)
                .unwrap_or(false);
        if !ok {
            return viol(&["P16"], "vault is not an empty token account of the mint controlled by the deposit authority".into());
        }
        for (k, _) in &d.changes {
            if ![h.key, h.vault, self.payer].contains(k) {
                return viol(&["P16", "P09"], format!("pool creation changed account {k}"));
            }
        }
        Ok(())
    }

    pub fn now(&self) -> i64 {
        self.bank.now
    }

    pub fn build(&self, op: &Op) -> Ix {
        let h = |p: &usize| &self.pools[*p];
        match op {
            Op::Fill { p, amount, ends } => {
                let h = h(p);
                wire::fill(&h.key, &h.mint, &h.vault, &h.fill, &h.src, *amount, *ends)
            }
            Op::Distribute { p } => wire::distribute(&h(p).key, &h(p).dist),
            Op::InitMining { p, u } => wire::init_mining(&h(p).key, &h(p).mining[*u], &self.payer, &self.users[*u]),
            Op::Deposit { p, u, amount, period, del } => {
                let h = h(p);
                wire::deposit(&h.key, &h.mining[*u], &h.dep, &h.mining[*del], *amount, *period, &self.users[*u], &self.users[*del])
            }
            Op::Withdraw { p, u, amount, del } => {
                let h = h(p);
                wire::withdraw(&h.key, &h.mining[*u], &h.dep, &h.mining[*del], *amount, &self.users[*u], &self.users[*del])
            }
            Op::Claim { p, u } => {
                let h = h(p);
                wire::claim(&h.key, &h.mint, &h.vault, &h.mining[*u], &self.users[*u], &h.dep, &h.tok[*u])
            }
            Op::Extend { p, u, old, new, start, base, add, del } => {
                let h = h(p);
                wire::extend(&h.key, &h.mining[*u], &h.dep, &h.mining[*del], *old, *new, *start, *base, *add, &self.users[*u], &self.users[*del])
            }
            Op::Close { p, u } => {
                let h = h(p);
                wire::close(&h.mining[*u], &self.users[*u], &self.target, &h.dep, &h.key)
            }
            Op::ChangeDelegate { p, u, amount, old, new } => {
                let h = h(p);
                wire::change_delegate(&h.key, &h.mining[*u], &h.dep, &self.users[*u], &h.mining[*old], &h.mining[*new], *amount, &self.users[*new])
            }
            Op::Slash { p, u, native, mult, expiry } => {
                let h = h(p);
                wire::slash(&h.dep, &h.key, &h.mining[*u], &self.users[*u], *native, *mult, *expiry)
            }
            Op::Penalty { p, u, n } => {
                let h = h(p);
                wire::penalty(&h.dep, &h.key, &h.mining[*u], &self.users[*u], *n)
            }
            Op::AdvanceTo { .. } => unreachable!(),
        }
    }

    pub fn token(&self, k: &Pubkey) -> u64 {
        token_amount(&self.bank.get(k).data)
    }

    /// what the staker could claim right now, and its settled weights (a claim on a discarded fork)
    pub fn probe_view(&self, p: usize, u: usize) -> Result<View, String> {
        let op = Op::Claim { p, u };
        let h = &self.pools[p];
        let d = self.bank.exec(&self.build(&op)).map_err(|e| e.short())?;
        let before = self.token(&h.tok[u]);
        let after = d.get(&h.tok[u]).map(|a| token_amount(&a.data)).unwrap_or(before);
        let claim = after.wrapping_sub(before);
        let md = d.get(&h.mining[u]).cloned().unwrap_or_else(|| self.bank.get(&h.mining[u]));
        let m = mining_hdr(&md.data).ok_or("mining unreadable")?;
        Ok(View { claim, share: m.share, sfo: m.sfo })
    }

    /// the pool's total weight once expired lockups are processed (a withdrawal of nothing on a fork)
    pub fn probe_total(&self, p: usize) -> Result<u64, String> {
        let h = &self.pools[p];
        let u = self.m[p].m.iter().position(|m| m.exists);
        let acct = match u {
            None => self.bank.get(&h.key),
            Some(u) => {
                let d = self.bank.exec(&self.build(&Op::Withdraw { p, u, amount: 0, del: u })).map_err(|e| e.short())?;
                d.get(&h.key).cloned().unwrap_or_else(|| self.bank.get(&h.key))
            }
        };
        pool_hdr(&acct.data).map(|x| x.total).ok_or("pool unreadable".into())
    }

    /// stop if the property in focus is violated; otherwise note it and go on from what was observed
    fn judge(&mut self, mut out: Vec<Viol>) -> R<()> {
        if out.is_empty() {
            return Ok(());
        }
        if self.extreme {
            // whatever was accepted with amounts at the edges has the exact effect
            for v in out.iter_mut().filter(|v| !v.msg.contains(" refused")) {
                v.tags.push("P10");
            }
        }
        let hit = |v: &Viol| self.focus.map(|f| v.tags.contains(&f)).unwrap_or(true);
        if let Some(v) = out.iter().find(|v| hit(v)) {
            return Err(Stop::Viol(v.clone()));
        }
        self.st.count("violations of other properties (not judged here)", out.len() as u64);
        if self.notes.len() < 20 {
            let n = self.log.len();
            self.notes.extend(out.iter().map(|v| format!("after {n}: {:?} {}", v.tags, v.msg)));
        }
        self.dirty = true;
        Ok(())
    }

    /// make the model follow the program (only after a violation outside the focus)
    fn resync(&mut self, p: usize) {
        self.dirty = false;
        for u in 0..self.users.len() {
            self.view[p][u] = self.probe_view(p, u).ok();
        }
        self.ptotal[p] = self.probe_total(p).ok();
        let hd = match pool_hdr(&self.bank.get(&self.pools[p].key).data) {
            Some(h) => h,
            None => return,
        };
        let vault = self.token(&self.pools[p].vault) as u128;
        let mp = &mut self.m[p];
        for (u, m) in mp.m.iter_mut().enumerate() {
            m.exists = !self.bank.get(&self.pools[p].mining[u]).data.is_empty();
            if let Some(v) = self.view[p][u] {
                m.share = v.share as i128;
                m.sfo = v.sfo as i128;
                let x = (m.paid + v.claim as u128) << FX;
                m.lo = x;
                m.hi = x + (1 << FX) - 1;
                m.touches = 0;
                m.wsum = 0;
            }
        }
        if let Some(t) = self.ptotal[p] {
            mp.total = t as i128;
        }
        mp.avail = hd.available as u128;
        mp.ends_at = hd.ends_at as i128;
        mp.filled = vault + mp.claimed;
        mp.distributed = mp.filled.saturating_sub(mp.avail);
    }

    fn refresh_views(&mut self, p: usize, tags: &[&'static str], out: &mut Vec<Viol>) {
        for u in 0..self.users.len() {
            self.view[p][u] = if self.m[p].m[u].exists {
                self.st.views += 1;
                match self.probe_view(p, u) {
                    Ok(v) => Some(v),
                    Err(e) => {
                        let mut t = tags.to_vec();
                        t.extend(["P01", "P07", "P20"]);
                        out.push(Viol::new(&t, format!("claim of staker {u} in pool {p} is refused: {e}")));
                        None
                    }
                }
            } else {
                None
            };
        }
        self.ptotal[p] = match self.probe_total(p) {
            Ok(v) => Some(v),
            Err(e) => {
                let mut t = tags.to_vec();
                t.extend(["P20", "P24"]);
                out.push(Viol::new(&t, format!("a withdrawal of nothing in pool {p} is refused: {e}")));
                None
            }
        };
    }

    /// weights and credits against the model, solvency
    fn check_state(&mut self, p: usize, tags: &[&'static str], out: &mut Vec<Viol>) {
        let mp = &self.m[p];
        let h = &self.pools[p];
        let mut sum: u128 = 0;
        let pool_flags = mp.flags;
        let with = |extra: &[&'static str], f: u32| {
            let mut t = tags.to_vec();
            t.extend(extra);
            t.extend(flag_tags(f));
            t
        };
        for (u, m) in mp.m.iter().enumerate() {
            if !m.exists {
                continue;
            }
            let v = match self.view[p][u] {
                Some(v) => v,
                None => continue,
            };
            sum += v.claim as u128;
            if v.share as i128 != m.share || v.sfo as i128 != m.sfo {
                out.push(Viol::new(
                    &with(&["P03"], m.flags),
                    format!("staker {u} in pool {p}: settled weight own {} + delegated {} instead of {} + {}", v.share, v.sfo, m.share, m.sfo),
                ));
            }
            let (lo, hi) = m.bounds();
            let got = m.paid + v.claim as u128;
            if got < lo || got > hi {
                out.push(Viol::new(
                    &with(&["P02"], m.flags),
                    format!(
                        "staker {u} in pool {p}: paid {} + claimable {} = {} outside [{lo}, {hi}] (exact pro-rata {:.3})",
                        m.paid,
                        v.claim,
                        got,
                        m.hi as f64 / (1u64 << FX) as f64
                    ),
                ));
            }
        }
        if let Some(total) = self.ptotal[p] {
            if total as i128 != mp.total {
                out.push(Viol::new(
                    &with(&["P03"], pool_flags),
                    format!("pool {p}: settled total weight {} instead of {} (stakers' weights sum to {})", total, mp.total, mp.sum_weights()),
                ));
            }
            // independent of the model: the stakers' weights never exceed the total
            let sw: u128 = (0..self.users.len()).filter_map(|u| self.view[p][u]).map(|v| v.share as u128 + v.sfo as u128).sum();
            if sw > total as u128 {
                out.push(Viol::new(&with(&["P03"], pool_flags), format!("pool {p}: stakers' weights sum to {sw}, more than the total {total}")));
            }
        }
        let hd = match pool_hdr(&self.bank.get(&h.key).data) {
            Some(h) => h,
            None => {
                out.push(Viol::new(&["P25"], "pool account erased".into()));
                return;
            }
        };
        let vault = self.token(&h.vault) as u128;
        if vault + mp.claimed != mp.filled {
            out.push(Viol::new(&with(&["P01"], 0), format!("pool {p}: vault holds {vault}, filled {} - claimed {}", mp.filled, mp.claimed)));
        }
        if vault < hd.available as u128 + sum {
            out.push(Viol::new(
                &with(&["P01"], pool_flags),
                format!("pool {p}: vault holds {vault} but {} are available for distribution and {sum} claimable", hd.available),
            ));
        }
        if mp.claimed + sum > mp.distributed || mp.distributed > mp.filled {
            out.push(Viol::new(&["P01"], format!("pool {p}: claimed {} + claimable {sum}, distributed {}, filled {}", mp.claimed, mp.distributed, mp.filled)));
        }
        if hd.available as u128 != mp.avail {
            out.push(Viol::new(&with(&["P05", "P06"], 0), format!("pool {p}: available for distribution {} instead of {}", hd.available, mp.avail)));
        }
        if hd.ends_at as i128 != mp.ends_at {
            out.push(Viol::new(&with(&["P06", "P25"], 0), format!("pool {p}: end date {} instead of {}", hd.ends_at, mp.ends_at)));
        }
    }

    pub fn advance(&mut self, t: i64) -> R<()> {
        if t <= self.bank.now {
            return Ok(());
        }
        self.log.push(Op::AdvanceTo { t });
        let exp0: u64 = self.m.iter().map(|m| m.n_expiries).sum();
        for m in self.m.iter_mut() {
            if m.roll(t).is_err() {
                return Err(Stop::Broken);
            }
        }
        self.st.expiries += self.m.iter().map(|m| m.n_expiries).sum::<u64>() - exp0;
        self.bank.now = t;
        if !self.watch {
            return Ok(());
        }
        let old = self.view.clone();
        for p in 0..self.pools.len() {
            let mut out = vec![];
            self.refresh_views(p, &["P04"], &mut out);
            for u in 0..self.users.len() {
                if let (Some(a), Some(b)) = (old[p][u], self.view[p][u]) {
                    if a.claim != b.claim {
                        let mut t = vec!["P19", "P04", "P05", "P02"];
                        t.extend(flag_tags(self.m[p].m[u].flags));
                        out.push(Viol::new(&t, format!("staker {u} in pool {p}: claimable went from {} to {} by the passing of time", a.claim, b.claim)));
                    }
                }
            }
            self.check_state(p, &["P04"], &mut out);
            self.judge(out)?;
            if self.dirty {
                self.resync(p);
            }
        }
        Ok(())
    }

    /// look at everything once (for histories that do not watch each step)
    pub fn look(&mut self) -> R<()> {
        for p in 0..self.pools.len() {
            let mut out = vec![];
            self.refresh_views(p, &["P18"], &mut out);
            self.check_state(p, &["P18"], &mut out);
            self.judge(out)?;
            if self.dirty {
                self.resync(p);
            }
        }
        Ok(())
    }

    /// what the model says about an operation now
    pub fn predict(&self, op: &Op) -> (V, MPool) {
        let p = op.pool().unwrap();
        let mut m = self.m[p].clone();
        let claimable = match op {
            Op::Claim { u, .. } | Op::Close { u, .. } => match self.view[p][*u] {
                Some(v) if self.watch => v.claim as u128,
                _ => self.probe_view(p, *u).map(|v| v.claim as u128).unwrap_or(0),
            },
            _ => 0,
        };
        let src = self.token(&self.pools[p].src);
        let v = m.apply(op, self.bank.now, claimable, src);
        (v, m)
    }

    pub fn exists(&self, p: usize, u: usize) -> bool {
        self.m[p].m[u].exists
    }

    /// settled and unpaid rewards as the account records them after any settlement (a withdrawal of
    /// nothing on a fork): a second way of seeing what is owed
    pub fn probe_owed(&self, p: usize, u: usize) -> Option<u64> {
        let d = self.bank.exec(&self.build(&Op::Withdraw { p, u, amount: 0, del: u })).ok()?;
        let k = self.pools[p].mining[u];
        let a = d.get(&k).cloned().unwrap_or_else(|| self.bank.get(&k));
        mining_hdr(&a.data).map(|h| h.unclaimed)
    }

    /// run one operation through the program with all monitors; Ok(accepted)
    pub fn step(&mut self, op: &Op) -> R<bool> {
        if let Op::AdvanceTo { t } = op {
            self.advance(*t)?;
            return Ok(true);
        }
        let p = op.pool().unwrap();
        let r = self.step_inner(op, p);
        if self.dirty {
            self.resync(p);
        }
        r
    }

    /// heap and stack of one call
    pub fn meter(&mut self, ix: &Ix, name: &'static str) -> R<()> {
        let (r, u) = self.bank.exec_metered(ix, self.st.steps % 4 == 0);
        let Some(u) = u else { return Ok(()) };
        let e = self.st.used.entry(name).or_default();
        *e = (e.0.max(u.heap), e.1.max(u.biggest), e.2.max(u.stack), e.3.max(u.work));
        self.st.count("calls whose heap was counted", 1);
        if u.stack > 0 {
            self.st.count("calls whose stack was measured", 1);
        }
        let what = if r.is_ok() { "accepted" } else { "refused" };
        if u.work > 0 {
            self.st.count("calls whose basic blocks were counted", 1);
        }
        if u.work > WORK_MAX {
            return viol(&["P28"], format!("{name} ({what}) executes {} basic blocks with {} distributions, {} dates in the pool", u.work, self.m[0].dist_days.len(), self.m[0].diffs.len()));
        }
        if u.heap > HEAP_MAX {
            return viol(&["P27"], format!("{name} ({what}) allocates {} bytes of heap, {} at once; a program has {HEAP_MAX}", u.heap, u.biggest));
        }
        if u.stack > STACK_MAX {
            return viol(&["P27"], format!("{name} ({what}) uses {} bytes of stack", u.stack));
        }
        Ok(())
    }

    /// the instruction, its result and an abstraction of the state it met: who is who, which weights,
    /// rewards, pending and overdue expiries, earlier slashes and so on are there
    fn situation(&self, op: &Op, p: usize, ok: bool) -> u64 {
        let m = &self.m[p];
        let now = self.now();
        let who: Vec<usize> = match op {
            Op::Deposit { u, del, .. } | Op::Withdraw { u, del, .. } | Op::Extend { u, del, .. } => vec![*u, *del],
            Op::ChangeDelegate { u, old, new, .. } => vec![*u, *old, *new],
            Op::Claim { u, .. } | Op::Close { u, .. } | Op::Slash { u, .. } | Op::Penalty { u, .. } | Op::InitMining { u, .. } => vec![*u],
            _ => vec![],
        };
        let mut k: Vec<u64> = vec![crate::hostile::fnv(op.name()), ok as u64];
        k.extend(who.iter().map(|x| who.iter().position(|y| y == x).unwrap() as u64));
        let period = match op {
            Op::Deposit { period, .. } => *period as u64,
            Op::Extend { old, new, .. } => *old as u64 * 8 + *new as u64,
            Op::Slash { expiry, .. } => expiry.map(|e| 1 + (e as i64 > now) as u64).unwrap_or(0),
            _ => 0,
        };
        k.push(period);
        k.extend([
            (m.total > 0) as u64,
            (m.avail > 0) as u64,
            m.dist_days.contains(&day(now)) as u64,
            (m.ends_at > now as i128) as u64,
            (day(now) != day(m.rolled_to)) as u64,
            m.diffs.len().min(3) as u64,
            m.flags as u64,
        ]);
        for u in who {
            let x = &m.m[u];
            k.extend([
                x.exists as u64,
                (x.share > 0) as u64,
                (x.sfo > 0) as u64,
                x.diffs.len().min(3) as u64,
                x.diffs.keys().next().map(|d| (*d - day(now)).signum() + 1).unwrap_or(3) as u64,
                x.flags as u64,
                self.view[p][u].map(|v| (v.claim > 0) as u64).unwrap_or(2),
            ]);
        }
        k.iter().fold(0xcbf2_9ce4_8422_2325, |h, x| (h ^ x).wrapping_mul(0x100_0000_01b3).rotate_left(17))
    }

    fn step_inner(&mut self, op: &Op, p: usize) -> R<bool> {
        let tag = op.tag();
        self.log.push(op.clone());
        self.st.steps += 1;
        let (verdict, m2) = self.predict(op);
        let before = self.view[p].clone();
        let mut ix = self.build(op);
        // what other instructions of the transaction ask for gives the program no further rights
        if self.st.steps % 5 == 2 {
            ix = ix.all_writable();
        }
        if self.st.steps % 7 == 3 {
            ix.metas.iter_mut().for_each(|m| m.signer = true);
        }
        if matches!(self.focus, Some("P27" | "P28")) {
            self.meter(&ix, op.name())?;
        }
        let res = self.bank.exec_real(&ix);
        let sit = self.situation(op, p, res.is_ok());
        self.st.situations.insert(sit);
        let e = self.st.by_op.entry(op.name()).or_default();
        let mut out = vec![];
        match &res {
            Ok(_) => {
                e.0 += 1;
                self.st.accepted += 1
            }
            Err(f) => {
                e.1 += 1;
                self.st.refused += 1;
                if let Fail::Corrupt(s) = f {
                    out.push(Viol::new(&["P23", tag], format!("{}: {s}", op.name())));
                }
            }
        }
        match (verdict, &res) {
            (V::Ok, Err(f)) => {
                let mut t = vec![tag];
                if self.conforming && !self.m[p].phantom {
                    t.push("P20");
                }
                if self.m[p].flags & F_MANYDATES != 0 {
                    t.push("P18");
                }
                t.extend(named_flags(op, &self.m[p]));
                out.push(Viol::new(&t, format!("valid {op:?} refused: {}", f.short())));
            }
            (V::Refuse(why), Ok(_)) => {
                let mut t = vec![tag];
                if why == "overflow" || why.starts_with("more than") || why.contains("larger than") || why.contains("smaller than") {
                    t.push("P10");
                }
                if why.starts_with("more than delegated") {
                    t.extend(["P11", "P24"]);
                }
                if why == "exists" {
                    t.push("P16");
                }
                if why == "source too poor" {
                    t.push("P01");
                }
                out.push(Viol::new(&t, format!("{op:?} accepted although: {why}")));
            }
            _ => {}
        }
        let d = match res {
            Err(f) => {
                self.st.refusals_checked += 1;
                if self.focus == Some("P29") && verdict != V::Any {
                    self.check_reason(op, p, &before, &ix, f, &mut out);
                }
                self.judge(out)?;
                return Ok(false);
            }
            Ok(d) => d,
        };
        // ---- accepted: what changed
        let mut ptags = vec![tag];
        match op {
            Op::Deposit { u, del, .. } | Op::Withdraw { u, del, .. } | Op::Extend { u, del, .. } if u != del => ptags.push("P11"),
            _ => {}
        }
        match op {
            Op::Deposit { .. } => ptags.push("P04"),
            Op::Extend { .. } => ptags.extend(["P04", "P24"]),
            _ => {}
        }
        self.check_delta(op, &d, &mut out);
        if let Op::Claim { u, .. } = op {
            if self.watch {
                let owed = self.probe_owed(p, *u);
                let paid = d.get(&self.pools[p].tok[*u]).map(|a| token_amount(&a.data)).unwrap_or(self.token(&self.pools[p].tok[*u])).wrapping_sub(self.token(&self.pools[p].tok[*u]));
                if let Some(o) = owed {
                    if o != paid {
                        out.push(Viol::new(&["P07"], format!("claim by {u} paid {paid} while {o} were owed")));
                    }
                }
            }
        }
        let avail0 = self.m[p].avail;
        self.bank.commit(&d);
        if let V::Refuse(_) = verdict {
            self.dirty = true;
            self.judge(out)?;
            return Ok(true);
        }
        self.m[p] = m2;
        if let Op::Distribute { .. } = op {
            self.st.dists += 1;
        }
        if let Op::Claim { u, .. } = op {
            let paid = d.get(&self.pools[p].tok[*u]).is_some();
            if paid {
                self.st.claims_paid += 1;
            }
        }
        if let Op::Deposit { .. } | Op::Extend { .. } = op {
            if self.m[p].diffs.len() > 60 {
                self.m[p].flags |= F_MANYDATES;
            }
        }
        if !self.watch {
            self.judge(out)?;
            return Ok(true);
        }
        self.refresh_views(p, &ptags, &mut out);
        // ---- earned rewards
        let dist_effect = matches!(op, Op::Distribute { .. }) && self.m[p].avail != avail0;
        for u in 0..self.users.len() {
            let (a, b) = match (before[u], self.view[p][u]) {
                (Some(a), Some(b)) => (a, b),
                (None, Some(b)) => {
                    if b.claim != 0 || b.share != 0 || b.sfo != 0 {
                        out.push(Viol::new(&["P16", "P15"], format!("new mining of staker {u} is not empty: {b:?}")));
                    }
                    continue;
                }
                _ => continue,
            };
            let mut t = ptags.clone();
            t.extend(["P19", "P17", "P02"]);
            t.extend(flag_tags(self.m[p].m[u].flags));
            match op {
                Op::Claim { u: c, .. } if *c == u => {
                    if b.claim != 0 {
                        out.push(Viol::new(&["P07", "P01"], format!("staker {u} can claim {} again right after claiming", b.claim)));
                    }
                }
                Op::Distribute { .. } => {
                    if b.claim < a.claim || (b.claim != a.claim && !dist_effect) {
                        out.push(Viol::new(
                            &["P05", "P19"],
                            format!("staker {u}: claimable went from {} to {} by {op:?} (takes effect: {dist_effect})", a.claim, b.claim),
                        ));
                    }
                }
                _ => {
                    if a.claim != b.claim {
                        out.push(Viol::new(&t, format!("staker {u}: claimable went from {} to {} by {op:?}", a.claim, b.claim)));
                    }
                }
            }
        }
        self.check_state(p, &ptags, &mut out);
        self.judge(out)?;
        Ok(true)
    }

    /// a refused operation fails with the error of one of its faults
    fn check_reason(&mut self, op: &Op, p: usize, before: &[Option<View>], ix: &Ix, f: Fail, out: &mut Vec<Viol>) {
        let claimable = match op {
            Op::Close { u, .. } => before[*u].map(|v| v.claim as u128).unwrap_or(0),
            _ => 0,
        };
        let mut m = self.m[p].clone();
        if m.roll(self.now()).is_err() {
            return;
        }
        let want = crate::reasons::of_op(&m, op, self.now(), claimable, self.token(&self.pools[p].src));
        if want.is_empty() {
            return;
        }
        let f = self.bank.exec_named(ix).err().unwrap_or(f);
        let got = crate::reasons::name(&f);
        self.st.count("refusals whose error was judged", 1);
        if !want.contains(&got.as_str()) {
            out.push(Viol::new(&["P29"], format!("{op:?} fails with {} instead of {want:?}", f.short())));
        }
    }

    /// the accounts an accepted instruction changed, and how
    fn check_delta(&self, op: &Op, d: &Delta, out: &mut Vec<Viol>) {
        let p = op.pool().unwrap();
        let h = &self.pools[p];
        let tag = op.tag();
        let mut bad = |tags: &[&'static str], msg: String| out.push(Viol::new(tags, msg));
        let mut allowed: Vec<Pubkey> = vec![];
        let mut tok: Vec<(Pubkey, i128)> = vec![];
        let mut lam: Vec<Pubkey> = vec![];
        match op {
            Op::Fill { amount, .. } => {
                allowed.push(h.key);
                tok.push((h.vault, *amount as i128));
                tok.push((h.src, -(*amount as i128)));
            }
            Op::Distribute { .. } => allowed.push(h.key),
            Op::InitMining { u, .. } => {
                allowed.extend([h.mining[*u], self.payer]);
                lam.extend([h.mining[*u], self.payer]);
            }
            Op::Deposit { u, del, .. } | Op::Withdraw { u, del, .. } | Op::Extend { u, del, .. } => {
                allowed.extend([h.key, h.mining[*u], h.mining[*del]])
            }
            Op::Claim { u, .. } => {
                allowed.push(h.mining[*u]);
                let want = self.view[p][*u].filter(|_| self.watch).map(|v| v.claim).or_else(|| self.probe_view(p, *u).ok().map(|v| v.claim)).unwrap_or(0);
                tok.push((h.vault, -(want as i128)));
                tok.push((h.tok[*u], want as i128));
                if d.ret.as_deref() != Some(&want.to_le_bytes()[..]) {
                    bad(&["P07"], format!("claim of {want} returned data {:?}", d.ret));
                }
            }
            Op::Close { u, .. } => {
                allowed.extend([h.mining[*u], self.target]);
                lam.extend([h.mining[*u], self.target]);
                match d.get(&h.mining[*u]) {
                    Some(a) if a.lamports == 0 => {}
                    Some(_) => bad(&["P15"], "closed mining keeps lamports".into()),
                    None => bad(&["P15"], "close did not change the mining".into()),
                }
                // whoever sends lamports back within the transaction revives what is left
                match d.relics.iter().find(|(k, _)| *k == h.mining[*u]) {
                    Some((_, a)) if a.data.iter().any(|b| *b != 0) => {
                        bad(&["P15"], format!("closed mining not erased: {} bytes left", a.data.iter().filter(|b| **b != 0).count()))
                    }
                    _ => {}
                }
                let gain = d.get(&self.target).map(|a| a.lamports).unwrap_or(0) as i128 - self.bank.get(&self.target).lamports as i128;
                if gain != self.bank.get(&h.mining[*u]).lamports as i128 {
                    bad(&["P15"], format!("close sent {gain} lamports to the target"));
                }
            }
            Op::ChangeDelegate { u, old, new, .. } => allowed.extend([h.key, h.mining[*u], h.mining[*old], h.mining[*new]]),
            Op::Slash { u, .. } => allowed.extend([h.key, h.mining[*u]]),
            Op::Penalty { u, .. } => allowed.extend([h.key, h.mining[*u]]),
            Op::AdvanceTo { .. } => {}
        }
        for (k, a) in &d.changes {
            let pre = self.bank.get(k);
            if let Some((_, delta)) = tok.iter().find(|(x, _)| x == k) {
                let got = token_amount(&a.data) as i128 - token_amount(&pre.data) as i128;
                if got != *delta {
                    bad(&[tag, "P01"], format!("{op:?}: token account {k} changed by {got}, not {delta}"));
                }
                let mut x = (*a.data).clone();
                if x.len() == pre.data.len() {
                    x[64..72].copy_from_slice(&pre.data[64..72]);
                }
                if x != *pre.data || a.owner != pre.owner || a.lamports != pre.lamports {
                    bad(&[tag, "P09"], format!("{op:?}: token account {k} changed beyond its amount"));
                }
                continue;
            }
            if !allowed.contains(k) {
                bad(&[tag, "P09", "P01"], format!("{op:?} changed account {k}, which it must not touch"));
                continue;
            }
            if !lam.contains(k) {
                if a.lamports != pre.lamports {
                    bad(&[tag, "P09"], format!("{op:?} changed the lamports of {k}"));
                }
                if a.owner != pre.owner || a.data.len() != pre.data.len() {
                    bad(&[tag, "P25", "P09"], format!("{op:?} changed owner or size of {k}"));
                    continue;
                }
            }
            // identities
            if *k == h.key {
                let (x, y) = (pool_hdr(&pre.data).unwrap(), pool_hdr(&a.data).unwrap());
                if x.deposit_authority != y.deposit_authority
                    || x.distribute_authority != y.distribute_authority
                    || x.fill_authority != y.fill_authority
                    || x.mint != y.mint
                    || x.bump != y.bump
                    || x.kind != y.kind
                {
                    bad(&["P25", tag], format!("{op:?} changed the pool's identity: {x:?} -> {y:?}"));
                }
                if y.index < x.index || y.ends_at < x.ends_at {
                    bad(&["P25", tag], format!("{op:?} moved the pool's index or end date back: {x:?} -> {y:?}"));
                }
                if y.index != x.index && !matches!(op, Op::Distribute { .. }) {
                    bad(&["P19", "P02", tag], format!("{op:?} changed the pool's index"));
                }
            }
            if let Some(u) = h.mining.iter().position(|m| m == k) {
                match op {
                    Op::Close { .. } => {}
                    Op::InitMining { .. } => match mining_hdr(&a.data) {
                        Some(y) => {
                            if y.pool != h.key
                                || y.owner != self.users[u]
                                || y.kind != 2
                                || y.bump != mining_pda(&self.users[u], &h.key).1
                                || y.share != 0
                                || y.unclaimed != 0
                                || y.sfo != 0
                            {
                                bad(&["P16"], format!("new mining wrong: {y:?}"));
                            }
                            if a.owner != mplx_rewards::ID || !Rent::default().is_exempt(a.lamports, a.data.len()) {
                                bad(&["P16"], "new mining not owned by the program or not rent exempt".into());
                            }
                        }
                        None => bad(&["P16"], "new mining unreadable".into()),
                    },
                    _ => {
                        let (x, y) = (mining_hdr(&pre.data).unwrap(), mining_hdr(&a.data).unwrap());
                        if x.pool != y.pool || x.owner != y.owner || x.bump != y.bump || x.kind != y.kind {
                            bad(&["P25", tag], format!("{op:?} changed the mining's identity: {x:?} -> {y:?}"));
                        }
                        if y.index < x.index {
                            bad(&["P25", tag], format!("{op:?} moved a mining's index back: {x:?} -> {y:?}"));
                        }
                        let pi = d.get(&h.key).cloned().unwrap_or_else(|| self.bank.get(&h.key));
                        let pi = pool_hdr(&pi.data).unwrap().index;
                        if y.index > pi {
                            bad(&["P25", tag], format!("{op:?}: mining index {} above the pool's {pi}", y.index));
                        }
                    }
                }
            }
        }
        for (k, delta) in &tok {
            if *delta != 0 && d.get(k).is_none() && !tok.iter().any(|(x, y)| x == k && *y == -*delta) {
                bad(&[tag, "P01"], format!("{op:?}: token account {k} unchanged instead of {delta}"));
            }
        }
    }

    /// run a continuation on a copy with all monitors
    pub fn fork<T>(&mut self, f: impl FnOnce(&mut World) -> R<T>) -> R<T> {
        let mut w = self.clone();
        w.st = Stats::default();
        let r = f(&mut w);
        self.st.forks += 1;
        self.st.add(&w.st);
        if r.is_err() {
            self.log = w.log;
        }
        r
    }

    /// visit the days around scheduled expiries of staker u (and the pool) on a fork,
    /// distributing on the way, so that every scheduled drop is observed
    pub fn probe_future(&mut self, rng: &mut Rng, p: usize, u: usize, max: usize) -> R<()> {
        let mut dates: Vec<i64> = self.m[p].m[u].diffs.keys().copied().collect();
        if rng.p(0.5) {
            dates.extend(self.m[p].diffs.keys().copied());
        }
        dates.sort();
        dates.dedup();
        while dates.len() > max {
            let i = rng.idx(dates.len());
            dates.remove(i);
        }
        let dist = rng.p(0.5);
        let seed = rng.u64();
        self.fork(|w| {
            let mut rng = Rng::new(seed);
            for d in dates {
                for t in [d - 1, d] {
                    w.advance(t + if t == d && rng.p(0.5) { rng.range(0, DAY - 1) } else { 0 })?;
                    if dist && w.m[p].total > 0 {
                        let ends = (w.m[p].ends_at as i64).max(day(w.now())) as u64;
                        let amount = 1 + rng.below(1_000_000_000);
                        w.step(&Op::Fill { p, amount, ends })?;
                        w.step(&Op::Distribute { p })?;
                    }
                }
            }
            Ok(())
        })
    }

    pub fn describe(&self) -> String {
        let mut s = format!("t0={} pools={} users={}\n", self.t0, self.pools.len(), self.users.len());
        let n = self.log.len();
        for (i, o) in self.log.iter().enumerate() {
            if i > 400 && i + 100 < n {
                continue;
            }
            s.push_str(&format!("{i}: {o:?}\n"));
        }
        for x in &self.notes {
            s.push_str(&format!("note: {x}\n"));
        }
        s
    }
}
