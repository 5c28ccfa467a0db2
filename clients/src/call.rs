//! A call as a user states it (named accounts and arguments), taken apart from the wire form.
use mon::rng::Rng;
use mon::svm::{Bank, Delta, Fail, Ix, Meta};
use mon::wire;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;

pub const KINDS: [&str; 12] = [
    "initializePool", "fillVault", "initializeMining", "depositMining", "withdrawMining", "claim", "extendStake", "distributeRewards", "closeMining",
    "changeDelegate", "slash", "decreaseRewards",
];

pub const ACCOUNTS: [&[&str]; 12] = [
    &["rewardPool", "rewardMint", "vault", "payer", "depositAuthority", "rent", "tokenProgram", "systemProgram"],
    &["rewardPool", "rewardMint", "vault", "fillAuthority", "sourceTokenAccount", "tokenProgram"],
    &["rewardPool", "mining", "payer", "systemProgram"],
    &["rewardPool", "mining", "depositAuthority", "delegateMining"],
    &["rewardPool", "mining", "depositAuthority", "delegateMining"],
    &["rewardPool", "rewardMint", "vault", "mining", "miningOwner", "depositAuthority", "miningOwnerRewardTokenAccount", "tokenProgram"],
    &["rewardPool", "mining", "depositAuthority", "delegateMining"],
    &["rewardPool", "distributeAuthority"],
    &["mining", "miningOwner", "targetAccount", "depositAuthority", "rewardPool"],
    &["rewardPool", "mining", "depositAuthority", "miningOwner", "oldDelegateMining", "newDelegateMining"],
    &["depositAuthority", "rewardPool", "mining"],
    &["depositAuthority", "rewardPool", "mining"],
];

#[derive(Clone, Debug, PartialEq)]
pub enum Arg {
    U64(u64),
    Key(Pubkey),
    Period(u8),
    Opt(Option<u64>),
}

pub const ARGS: [&[(&str, char)]; 12] = [
    &[("fillAuthority", 'k'), ("distributeAuthority", 'k')],
    &[("rewards", 'u'), ("distributionEndsAt", 'u')],
    &[("miningOwner", 'k')],
    &[("amount", 'u'), ("lockupPeriod", 'p'), ("miningOwner", 'k'), ("delegate", 'k')],
    &[("amount", 'u'), ("miningOwner", 'k'), ("delegate", 'k')],
    &[],
    &[
        ("oldLockupPeriod", 'p'),
        ("newLockupPeriod", 'p'),
        ("depositStartTs", 'u'),
        ("baseAmount", 'u'),
        ("additionalAmount", 'u'),
        ("miningOwner", 'k'),
        ("delegate", 'k'),
    ],
    &[],
    &[],
    &[("stakedAmount", 'u'), ("newDelegate", 'k')],
    &[("miningOwner", 'k'), ("slashAmountInNative", 'u'), ("slashAmountMultipliedByPeriod", 'u'), ("stakeExpirationDate", 'o')],
    &[("miningOwner", 'k'), ("decreasedWeightedStakeNumber", 'u')],
];

#[derive(Clone, Debug)]
pub struct Call {
    pub kind: usize,
    pub accts: Vec<Pubkey>,
    pub args: Vec<Arg>,
}

impl Call {
    pub fn from_wire(ix: &Ix) -> Call {
        let kind = ix.data[0] as usize;
        let d = &ix.data;
        let mut o = 1;
        let mut args = vec![];
        let u = |o: usize| u64::from_le_bytes(d[o..o + 8].try_into().unwrap());
        for (_, t) in ARGS[kind] {
            match t {
                'u' => {
                    args.push(Arg::U64(u(o)));
                    o += 8
                }
                'k' => {
                    args.push(Arg::Key(Pubkey::try_from(&d[o..o + 32]).unwrap()));
                    o += 32
                }
                'p' => {
                    args.push(Arg::Period(d[o]));
                    o += 1
                }
                _ => {
                    if d[o] == 1 {
                        args.push(Arg::Opt(Some(u(o + 1))));
                        o += 9
                    } else {
                        args.push(Arg::Opt(None));
                        o += 1
                    }
                }
            }
        }
        assert_eq!(o, d.len());
        Call { kind, accts: ix.metas.iter().map(|m| m.key).collect(), args }
    }

    /// the wire form, from the harness's own encoder
    pub fn wire(&self) -> Ix {
        let a = |n: &str| self.acct(n);
        match self.kind {
            0 => wire::init_pool(&a("rewardPool"), &a("rewardMint"), &a("vault"), &a("payer"), &a("depositAuthority"), &self.key("fillAuthority"), &self.key("distributeAuthority")),
            1 => wire::fill(&a("rewardPool"), &a("rewardMint"), &a("vault"), &a("fillAuthority"), &a("sourceTokenAccount"), self.u("rewards"), self.u("distributionEndsAt")),
            2 => wire::init_mining(&a("rewardPool"), &a("mining"), &a("payer"), &self.key("miningOwner")),
            3 => wire::deposit(&a("rewardPool"), &a("mining"), &a("depositAuthority"), &a("delegateMining"), self.u("amount"), self.per("lockupPeriod"), &self.key("miningOwner"), &self.key("delegate")),
            4 => wire::withdraw(&a("rewardPool"), &a("mining"), &a("depositAuthority"), &a("delegateMining"), self.u("amount"), &self.key("miningOwner"), &self.key("delegate")),
            5 => wire::claim(&a("rewardPool"), &a("rewardMint"), &a("vault"), &a("mining"), &a("miningOwner"), &a("depositAuthority"), &a("miningOwnerRewardTokenAccount")),
            6 => wire::extend(
                &a("rewardPool"), &a("mining"), &a("depositAuthority"), &a("delegateMining"), self.per("oldLockupPeriod"), self.per("newLockupPeriod"),
                self.u("depositStartTs"), self.u("baseAmount"), self.u("additionalAmount"), &self.key("miningOwner"), &self.key("delegate"),
            ),
            7 => wire::distribute(&a("rewardPool"), &a("distributeAuthority")),
            8 => wire::close(&a("mining"), &a("miningOwner"), &a("targetAccount"), &a("depositAuthority"), &a("rewardPool")),
            9 => wire::change_delegate(
                &a("rewardPool"), &a("mining"), &a("depositAuthority"), &a("miningOwner"), &a("oldDelegateMining"), &a("newDelegateMining"),
                self.u("stakedAmount"), &self.key("newDelegate"),
            ),
            10 => wire::slash(
                &a("depositAuthority"), &a("rewardPool"), &a("mining"), &self.key("miningOwner"), self.u("slashAmountInNative"),
                self.u("slashAmountMultipliedByPeriod"), self.opt("stakeExpirationDate"),
            ),
            _ => wire::penalty(&a("depositAuthority"), &a("rewardPool"), &a("mining"), &self.key("miningOwner"), self.u("decreasedWeightedStakeNumber")),
        }
    }

    pub fn acct(&self, n: &str) -> Pubkey {
        self.accts[ACCOUNTS[self.kind].iter().position(|x| *x == n).expect("account")]
    }
    fn arg(&self, n: &str) -> &Arg {
        &self.args[ARGS[self.kind].iter().position(|x| x.0 == n).expect("argument")]
    }
    pub fn u(&self, n: &str) -> u64 {
        match self.arg(n) {
            Arg::U64(x) => *x,
            _ => unreachable!(),
        }
    }
    pub fn key(&self, n: &str) -> Pubkey {
        match self.arg(n) {
            Arg::Key(x) => *x,
            _ => unreachable!(),
        }
    }
    pub fn per(&self, n: &str) -> u8 {
        match self.arg(n) {
            Arg::Period(x) => *x,
            _ => unreachable!(),
        }
    }
    pub fn opt(&self, n: &str) -> Option<u64> {
        match self.arg(n) {
            Arg::Opt(x) => *x,
            _ => unreachable!(),
        }
    }

    /// the same call with arbitrary arguments and unrelated accounts
    pub fn scramble(&self, rng: &mut Rng) -> Call {
        let mut c = self.clone();
        for (i, k) in c.accts.iter_mut().enumerate() {
            // fixed programs stay what they are
            if !matches!(ACCOUNTS[self.kind][i], "rent" | "tokenProgram" | "systemProgram") {
                *k = Pubkey::new_from_array(rng.bytes32());
            }
        }
        for a in c.args.iter_mut() {
            let big = |rng: &mut Rng| match rng.idx(4) {
                0 => rng.u64(),
                1 => u64::MAX - rng.u64() % 3,
                2 => rng.u64() % 300,
                _ => 1u64 << (rng.u64() % 64),
            };
            *a = match a {
                Arg::U64(_) => Arg::U64(big(rng)),
                Arg::Key(_) => Arg::Key(Pubkey::new_from_array(rng.bytes32())),
                Arg::Period(_) => Arg::Period(rng.idx(5) as u8),
                Arg::Opt(_) => Arg::Opt(if rng.p(0.3) { None } else { Some(big(rng)) }),
            };
        }
        c
    }

    pub fn describe(&self) -> String {
        let a: Vec<String> = ACCOUNTS[self.kind].iter().zip(&self.accts).map(|(n, k)| format!("{n}={k}")).collect();
        let b: Vec<String> = ARGS[self.kind].iter().zip(&self.args).map(|(n, k)| format!("{}={k:?}", n.0)).collect();
        format!("{}({}; {})", KINDS[self.kind], b.join(", "), a.join(", "))
    }
}

pub fn to_ix(i: &Instruction) -> Ix {
    Ix { metas: i.accounts.iter().map(|m| Meta { key: m.pubkey, signer: m.is_signer, writable: m.is_writable }).collect(), data: i.data.clone() }
}

fn same(a: &Result<Delta, Fail>, b: &Result<Delta, Fail>) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => x.changes.len() == y.changes.len() && x.changes.iter().all(|(k, v)| y.get(k) == Some(v)) && x.ret == y.ret,
        (Err(x), Err(y)) => std::mem::discriminant(x) == std::mem::discriminant(y) && x.short() == y.short(),
        _ => false,
    }
}

fn outcome(r: &Result<Delta, Fail>) -> String {
    match r {
        Ok(d) => format!("accepted, {} accounts changed", d.changes.len()),
        Err(f) => f.short(),
    }
}

/// structure: program, accounts in order, the needed signatures and no others, writable where needed, bytes
pub fn compare_form(who: &str, want: &Ix, program: &Pubkey, got: &Ix) -> Option<String> {
    if *program != mplx_rewards::ID {
        return Some(format!("{who}: program id {program}"));
    }
    let (a, b): (Vec<_>, Vec<_>) = (want.metas.iter().map(|m| m.key).collect(), got.metas.iter().map(|m| m.key).collect());
    if a != b {
        return Some(format!("{who}: accounts {b:?} instead of {a:?}"));
    }
    for (i, (x, y)) in want.metas.iter().zip(&got.metas).enumerate() {
        if x.signer != y.signer {
            return Some(format!("{who}: account {i} signer={} instead of {}", y.signer, x.signer));
        }
    }
    if want.data != got.data {
        return Some(format!("{who}: data {:?} instead of {:?}", got.data, want.data));
    }
    None
}

/// the same effect on the same state
pub fn compare_effect(who: &str, bank: &Bank, want: &Ix, got: &Ix) -> Option<String> {
    let (x, y) = (bank.exec(want), bank.exec(got));
    if same(&x, &y) {
        return None;
    }
    Some(format!("{who}: {} instead of {}", outcome(&y), outcome(&x)))
}
