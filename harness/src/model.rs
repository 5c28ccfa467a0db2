//! Eager, exact reference model of one pool: what the properties say, written without the program.
use crate::wire::{day, Period, DAY};
use num_bigint::BigUint;
use std::collections::BTreeMap;

pub const FX: u32 = 40; // fixed-point bits of the exact pro-rata ledger
pub const MINING_CAP: usize = 50;
pub const POOL_CAP: usize = 365;
pub const INDEX_CAP: usize = 1095;
pub const U64M: i128 = u64::MAX as i128;

pub const F_DELEG: u32 = 1;
pub const F_SLASH: u32 = 2;
pub const F_PENALTY: u32 = 4;
pub const F_EXTEND: u32 = 8;
pub const F_EXPIRED: u32 = 16;
pub const F_MANYDATES: u32 = 32;

/// floor and ceil of a*b*2^FX/c
fn muldiv_fx(a: u128, b: u128, c: u128) -> (u128, u128) {
    if let Some(x) = a.checked_mul(b).and_then(|x| if x < (1u128 << (127 - FX)) { Some(x << FX) } else { None }) {
        let q = x / c;
        return (q, if x % c == 0 { q } else { q + 1 });
    }
    let x = (BigUint::from(a) * BigUint::from(b)) << FX;
    let q = &x / BigUint::from(c);
    let r = &x - &q * BigUint::from(c);
    let mut v = q.to_u64_digits();
    v.resize(2, 0);
    let q = (v[0] as u128) | ((v[1] as u128) << 64);
    (q, if r == BigUint::from(0u8) { q } else { q + 1 })
}

#[derive(Clone, Default, Debug)]
pub struct MMin {
    pub exists: bool,
    pub share: i128,
    pub diffs: BTreeMap<i64, i128>,
    pub sfo: i128,
    /// exact earnings, fixed point, since the account was created
    pub lo: u128,
    pub hi: u128,
    pub paid: u128,
    pub touches: u128,
    pub wsum: u128,
    pub flags: u32,
}
impl MMin {
    pub fn weight(&self) -> i128 {
        self.share + self.sfo
    }
    /// bounds on paid + claimable
    pub fn bounds(&self) -> (u128, u128) {
        let hi = self.hi >> FX;
        let lo = (self.lo >> FX).saturating_sub(self.touches + self.wsum / 10_000_000_000_000_000 + 1);
        (lo, hi)
    }
}

#[derive(Clone, Default, Debug)]
pub struct MPool {
    pub total: i128,
    pub diffs: BTreeMap<i64, i128>,
    pub avail: u128,
    pub ends_at: i128,
    pub dist_days: std::collections::BTreeSet<i64>,
    pub filled: u128,
    pub claimed: u128,
    pub distributed: u128,
    pub n_dists: u64,
    pub n_expiries: u64,
    pub m: Vec<MMin>,
    pub rolled_to: i64,
    pub flags: u32,
    /// weight taken by penalties only from stakers (pool still has it)
    pub phantom: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum V {
    Ok,
    Refuse(&'static str),
    /// either is allowed; if accepted, the model's effect must hold
    Any,
}

#[derive(Clone, Debug)]
pub enum Op {
    Fill { p: usize, amount: u64, ends: u64 },
    Distribute { p: usize },
    InitMining { p: usize, u: usize },
    Deposit { p: usize, u: usize, amount: u64, period: u8, del: usize },
    Withdraw { p: usize, u: usize, amount: u64, del: usize },
    Claim { p: usize, u: usize },
    Extend { p: usize, u: usize, old: u8, new: u8, start: u64, base: u64, add: u64, del: usize },
    Close { p: usize, u: usize },
    ChangeDelegate { p: usize, u: usize, amount: u64, old: usize, new: usize },
    Slash { p: usize, u: usize, native: u64, mult: u64, expiry: Option<u64> },
    Penalty { p: usize, u: usize, n: u64 },
    AdvanceTo { t: i64 },
}

impl Op {
    pub fn pool(&self) -> Option<usize> {
        use Op::*;
        match self {
            Fill { p, .. } | Distribute { p } | InitMining { p, .. } | Deposit { p, .. } | Withdraw { p, .. } | Claim { p, .. }
            | Extend { p, .. } | Close { p, .. } | ChangeDelegate { p, .. } | Slash { p, .. } | Penalty { p, .. } => Some(*p),
            AdvanceTo { .. } => None,
        }
    }
    pub fn name(&self) -> &'static str {
        use Op::*;
        match self {
            Fill { .. } => "fill",
            Distribute { .. } => "distribute",
            InitMining { .. } => "init_mining",
            Deposit { .. } => "deposit",
            Withdraw { .. } => "withdraw",
            Claim { .. } => "claim",
            Extend { .. } => "extend",
            Close { .. } => "close",
            ChangeDelegate { .. } => "change_delegate",
            Slash { .. } => "slash",
            Penalty { .. } => "penalty",
            AdvanceTo { .. } => "advance",
        }
    }
    /// the property that speaks about this operation
    pub fn tag(&self) -> &'static str {
        use Op::*;
        match self {
            Fill { .. } => "P06",
            Distribute { .. } => "P05",
            InitMining { .. } => "P16",
            Deposit { .. } | Withdraw { .. } => "P24",
            Claim { .. } => "P07",
            Extend { .. } => "P14",
            Close { .. } => "P15",
            ChangeDelegate { .. } => "P11",
            Slash { .. } => "P12",
            Penalty { .. } => "P13",
            AdvanceTo { .. } => "P04",
        }
    }
}

pub fn flag_tags(f: u32) -> Vec<&'static str> {
    let mut v = vec![];
    for (b, t) in [(F_DELEG, "P11"), (F_SLASH, "P12"), (F_PENALTY, "P13"), (F_EXTEND, "P14"), (F_EXPIRED, "P04"), (F_MANYDATES, "P18")] {
        if f & b != 0 {
            v.push(t)
        }
    }
    v
}

/// the model cannot say what happens (arguments no staking program sends made weights negative)
#[derive(Debug)]
pub struct Broken;

impl MPool {
    pub fn new(users: usize) -> Self {
        MPool { m: vec![MMin::default(); users], ..Default::default() }
    }

    /// process expiries up to the start of the day of `now`
    pub fn roll(&mut self, now: i64) -> Result<(), Broken> {
        let d0 = day(now);
        self.rolled_to = d0;
        while let Some((&d, &v)) = self.diffs.iter().next() {
            if d > d0 {
                break;
            }
            self.diffs.remove(&d);
            self.total -= v;
            self.n_expiries += 1;
            self.flags |= F_EXPIRED;
            if self.total < 0 {
                return Err(Broken);
            }
        }
        for m in self.m.iter_mut() {
            while let Some((&d, &v)) = m.diffs.iter().next() {
                if d > d0 {
                    break;
                }
                m.diffs.remove(&d);
                m.share -= v;
                m.touches += 1;
                m.flags |= F_EXPIRED;
                if m.share < 0 {
                    return Err(Broken);
                }
            }
        }
        Ok(())
    }

    pub fn reward_due(&self, now: i64) -> u128 {
        let left = (self.ends_at - now as i128).max(0) / DAY as i128;
        if left == 0 {
            self.avail
        } else {
            self.avail / left as u128
        }
    }

    /// share out r tokens now
    pub fn credit(&mut self, r: u128) {
        let t = self.total as u128;
        for m in self.m.iter_mut() {
            let w = m.weight();
            if !m.exists || w <= 0 {
                continue;
            }
            let (lo, hi) = muldiv_fx(r, w as u128, t);
            m.lo += lo;
            m.hi += hi;
            m.wsum += w as u128;
        }
        self.distributed += r;
        self.n_dists += 1;
    }

    fn touch(&mut self, u: usize) {
        self.m[u].touches += 1;
    }

    fn do_deposit(&mut self, now: i64, u: usize, amount: i128, period: Period, del: usize, any: &mut bool) -> Result<(), &'static str> {
        if period == Period::None {
            return Err("no lockup period");
        }
        let w = amount * period.mult();
        let diff = w - amount;
        let exp = day(now) + period.days() * DAY;
        self.total += w;
        self.m[u].share += w;
        if w > U64M || self.total > U64M || self.m[u].share > U64M {
            return Err("overflow");
        }
        let e = self.diffs.entry(exp).or_insert(0);
        *e += diff;
        if *e > U64M {
            return Err("overflow");
        }
        let fresh = !self.m[u].diffs.contains_key(&exp);
        *self.m[u].diffs.entry(exp).or_insert(0) += diff;
        if fresh && self.m[u].diffs.len() > MINING_CAP {
            self.m[u].flags |= F_MANYDATES;
            *any = true;
        }
        if self.diffs.len() > POOL_CAP {
            *any = true;
        }
        if del != u {
            self.m[del].sfo += amount;
            self.total += amount;
            self.m[del].flags |= F_DELEG;
            if self.m[del].sfo > U64M || self.total > U64M {
                return Err("overflow");
            }
            self.touch(del);
        }
        if self.total > U64M {
            return Err("overflow");
        }
        Ok(())
    }

    /// Effect of an operation at `now` (the model must be rolled to now). `claimable` is what the
    /// staker could claim before; `src` the source token balance of a fill.
    pub fn apply(&mut self, op: &Op, now: i64, claimable: u128, src: u64) -> V {
        debug_assert_eq!(self.rolled_to, day(now));
        let mut any = false;
        let r: Result<(), &'static str> = (|| {
            match *op {
                Op::Fill { amount, ends, .. } => {
                    if amount == 0 {
                        return Err("zero amount");
                    }
                    let e = ends as i128 - (ends as i128) % DAY as i128;
                    if e < day(now) as i128 {
                        return Err("end date in the past");
                    }
                    if e < self.ends_at {
                        return Err("end date moved back");
                    }
                    if src < amount {
                        return Err("source too poor");
                    }
                    self.avail += amount as u128;
                    if self.avail > u64::MAX as u128 {
                        return Err("overflow");
                    }
                    self.ends_at = e;
                    self.filled += amount as u128;
                }
                Op::Distribute { .. } => {
                    if self.dist_days.contains(&day(now)) {
                        if self.total == 0 {
                            any = true;
                        }
                        return Ok(());
                    }
                    if self.total == 0 {
                        return Err("no stake");
                    }
                    if self.dist_days.len() >= INDEX_CAP {
                        any = true;
                    }
                    let r = self.reward_due(now);
                    self.credit(r);
                    self.avail -= r;
                    self.dist_days.insert(day(now));
                }
                Op::InitMining { u, .. } => {
                    if self.m[u].exists {
                        return Err("exists");
                    }
                    self.m[u] = MMin { exists: true, ..Default::default() };
                }
                Op::Deposit { u, amount, period, del, .. } => {
                    self.touch(u);
                    let p = [Period::None, Period::Flex, Period::M3, Period::M6, Period::Y1][period as usize];
                    self.do_deposit(now, u, amount as i128, p, del, &mut any)?;
                }
                Op::Withdraw { u, amount, del, .. } => {
                    self.touch(u);
                    let a = amount as i128;
                    self.m[u].share -= a;
                    self.total -= a;
                    if self.m[u].share < 0 || self.total < 0 {
                        return Err("more than staked");
                    }
                    if del != u {
                        self.touch(del);
                        self.m[del].sfo -= a;
                        self.m[del].flags |= F_DELEG;
                        self.total -= a;
                        if self.m[del].sfo < 0 || self.total < 0 {
                            return Err("more than delegated");
                        }
                    }
                }
                Op::Claim { u, .. } => {
                    self.touch(u);
                    self.m[u].paid += claimable;
                    self.claimed += claimable;
                }
                Op::Extend { u, old, new, start, base, add, del, .. } => {
                    self.touch(u);
                    self.m[u].flags |= F_EXTEND;
                    self.flags |= F_EXTEND;
                    let ps = [Period::None, Period::Flex, Period::M3, Period::M6, Period::Y1];
                    let (old, new) = (ps[old as usize], ps[new as usize]);
                    let base_i = base as i128;
                    if old == Period::None {
                        return Err("no old period");
                    }
                    if start as i128 > i64::MAX as i128 / 2 {
                        // absurd start dates: no such lockup
                        if old != Period::Flex {
                            return Err("no such lockup");
                        }
                    }
                    let old_exp = if old == Period::Flex { 0 } else { day(start as i64) + old.days() * DAY };
                    if base_i > U64M || base_i * old.mult() > U64M && now < old_exp {
                        return Err("overflow");
                    }
                    let part = if now < old_exp {
                        let diff = base_i * old.mult() - base_i;
                        match self.m[u].diffs.get_mut(&old_exp) {
                            None => return Err("no such lockup"),
                            Some(x) => {
                                *x -= diff;
                                if *x < 0 {
                                    return Err("lockup smaller than stated");
                                }
                            }
                        }
                        match self.diffs.get_mut(&old_exp) {
                            None => return Err("no such lockup"),
                            Some(x) => {
                                *x -= diff;
                                if *x < 0 {
                                    return Err("lockup smaller than stated");
                                }
                            }
                        }
                        base_i * old.mult()
                    } else {
                        base_i
                    };
                    self.m[u].share -= part;
                    self.total -= part;
                    if self.m[u].share < 0 || self.total < 0 {
                        return Err("more than staked");
                    }
                    if base_i + add as i128 > U64M {
                        return Err("overflow");
                    }
                    if del != u {
                        self.touch(del);
                        self.m[del].sfo -= base_i;
                        self.total -= base_i;
                        if self.m[del].sfo < 0 || self.total < 0 {
                            return Err("more than delegated");
                        }
                    }
                    self.do_deposit(now, u, base_i + add as i128, new, del, &mut any)?;
                }
                Op::Close { u, .. } => {
                    if self.m[u].sfo > 0 {
                        return Err("stake of others");
                    }
                    if claimable > 0 {
                        return Err("rewards owed");
                    }
                    if self.m[u].share > 0 {
                        any = true;
                        self.phantom = true;
                    }
                    self.m[u] = MMin::default();
                }
                Op::ChangeDelegate { u, amount, old, new, .. } => {
                    self.touch(u);
                    if old == new {
                        return Err("same delegate");
                    }
                    let a = amount as i128;
                    if old != u {
                        self.touch(old);
                        self.m[old].flags |= F_DELEG;
                        self.m[old].sfo -= a;
                        self.total -= a;
                        if self.m[old].sfo < 0 || self.total < 0 {
                            return Err("more than delegated");
                        }
                    }
                    if new != u {
                        self.touch(new);
                        self.m[new].flags |= F_DELEG;
                        self.m[new].sfo += a;
                        self.total += a;
                        if self.m[new].sfo > U64M || self.total > U64M {
                            return Err("overflow");
                        }
                        // the pool may still carry expired weight (up to six times as much) here
                        if self.total * 6 + a > U64M {
                            any = true;
                        }
                    }
                    self.flags |= F_DELEG;
                }
                Op::Slash { u, native, mult, expiry, .. } => {
                    self.touch(u);
                    self.m[u].flags |= F_SLASH;
                    self.flags |= F_SLASH;
                    let mi = mult as i128;
                    self.m[u].share -= mi;
                    self.total -= mi;
                    if self.m[u].share < 0 || self.total < 0 {
                        return Err("slash larger than stake");
                    }
                    if let Some(e) = expiry {
                        let diff = mi - native as i128;
                        if diff < 0 {
                            return Err("native larger than weighted");
                        }
                        if e as i128 > i64::MAX as i128 / 2 {
                            return Err("no lockup at that date");
                        }
                        let d = day(e as i64);
                        for map in [&mut self.m[u].diffs, &mut self.diffs] {
                            match map.get_mut(&d) {
                                None => return Err("no lockup at that date"),
                                Some(x) => {
                                    if *x == 0 && diff == 0 {
                                        any = true;
                                    }
                                    *x -= diff;
                                    if *x < 0 {
                                        return Err("lockup smaller than slashed");
                                    }
                                }
                            }
                        }
                    }
                }
                Op::Penalty { u, n, .. } => {
                    // a penalty of nothing settles too
                    self.touch(u);
                    if n == 0 {
                        return Ok(());
                    }
                    self.m[u].flags |= F_PENALTY;
                    self.flags |= F_PENALTY;
                    self.phantom = true;
                    let mut n = n as i128;
                    let m = &mut self.m[u];
                    if n > m.share {
                        return Err("penalty larger than weight");
                    }
                    m.share -= n;
                    for (_, v) in m.diffs.iter_mut().rev() {
                        let x = n.min(*v);
                        *v -= x;
                        n -= x;
                    }
                }
                Op::AdvanceTo { .. } => {}
            }
            Ok(())
        })();
        match r {
            Err(e) => V::Refuse(e),
            Ok(()) if any => V::Any,
            Ok(()) => V::Ok,
        }
    }

    pub fn sum_weights(&self) -> i128 {
        self.m.iter().filter(|m| m.exists).map(|m| m.weight()).sum()
    }
}
