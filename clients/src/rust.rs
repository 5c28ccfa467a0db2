//! P21: the Rust client and the program's own builders against the wire format, on the real program
use crate::call::*;
use borsh::BorshDeserialize;
use borsh010::BorshDeserialize as _;
use mon::checks::{drive, job_rng, pack, start_time, Out, Plan};
use mon::gen::{history, Cfg};
use mon::hostile::{fnv, Stage};
use mon::rng::Rng;
use mon::svm::{capture, Acct, Bank, Ix, Meta, Sent};
use mon::wire;
use mon::world::{viol, World, R};
use mplx_rewards::instruction as pi;
use mplx_rewards::utils::LockupPeriod as PLock;
use num_traits::FromPrimitive;
use rewards::instructions as ci;
use rewards::types::LockupPeriod as CLock;
use solana_program::account_info::AccountInfo;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;

// by name, so that an exchanged variant shows
fn plock(b: u8) -> PLock {
    [PLock::None, PLock::Flex, PLock::ThreeMonths, PLock::SixMonths, PLock::OneYear][b as usize]
}
fn clock(b: u8) -> CLock {
    match b {
        0 => CLock::None,
        1 => CLock::Flex,
        2 => CLock::ThreeMonths,
        3 => CLock::SixMonths,
        _ => CLock::OneYear,
    }
}

/// the program's own builders
pub fn program(c: &Call) -> Instruction {
    let a = |n: &str| c.acct(n);
    let id = &mplx_rewards::ID;
    match c.kind {
        0 => pi::initialize_pool(id, &a("rewardPool"), &a("rewardMint"), &a("vault"), &a("payer"), &a("depositAuthority"), &c.key("fillAuthority"), &c.key("distributeAuthority")),
        1 => pi::fill_vault(id, &a("rewardPool"), &a("rewardMint"), &a("vault"), &a("fillAuthority"), &a("sourceTokenAccount"), c.u("rewards"), c.u("distributionEndsAt")),
        2 => pi::initialize_mining(id, &a("rewardPool"), &a("mining"), &a("payer"), &c.key("miningOwner")),
        3 => pi::deposit_mining(id, &a("rewardPool"), &a("mining"), &a("depositAuthority"), &a("delegateMining"), c.u("amount"), plock(c.per("lockupPeriod")), &c.key("miningOwner"), &c.key("delegate")),
        4 => pi::withdraw_mining(id, &a("rewardPool"), &a("mining"), &a("depositAuthority"), &a("delegateMining"), c.u("amount"), &c.key("miningOwner"), &c.key("delegate")),
        5 => pi::claim(id, &a("rewardPool"), &a("rewardMint"), &a("vault"), &a("mining"), &a("miningOwner"), &a("depositAuthority"), &a("miningOwnerRewardTokenAccount")),
        6 => pi::extend_stake(
            id, &a("rewardPool"), &a("mining"), &a("depositAuthority"), &a("delegateMining"), plock(c.per("oldLockupPeriod")), plock(c.per("newLockupPeriod")),
            c.u("depositStartTs"), c.u("baseAmount"), c.u("additionalAmount"), &c.key("miningOwner"), &c.key("delegate"),
        ),
        7 => pi::distribute_rewards(id, &a("rewardPool"), &a("distributeAuthority")),
        8 => pi::close_mining(id, &a("mining"), &a("miningOwner"), &a("targetAccount"), &a("depositAuthority"), &a("rewardPool")),
        9 => pi::change_delegate(
            id, &a("rewardPool"), &a("mining"), &a("depositAuthority"), &a("miningOwner"), &a("oldDelegateMining"), &a("newDelegateMining"), &c.key("newDelegate"), c.u("stakedAmount"),
        ),
        10 => pi::slash(
            id, &a("depositAuthority"), &a("rewardPool"), &a("mining"), &c.key("miningOwner"), c.u("slashAmountInNative"), c.u("slashAmountMultipliedByPeriod"), c.opt("stakeExpirationDate"),
        ),
        _ => pi::decrease_rewards(id, &a("depositAuthority"), &a("rewardPool"), &a("mining"), &c.key("miningOwner"), c.u("decreasedWeightedStakeNumber")),
    }
}

macro_rules! fields {
    ($b:ident, $($m:ident $e:expr),*) => {{ $( $b.$m($e); )* }};
}

/// the calls common to the plain and the CPI builders; `$a` looks an account up
macro_rules! set {
    ($c:ident, $a:ident, $full:ident, $fin:ident, $ip:expr, $fv:expr, $im:expr, $dm:expr, $wm:expr, $cl:expr, $es:expr, $dr:expr, $cm:expr, $cd:expr, $sl:expr, $de:expr) => {
        match $c.kind {
            0 => {
                let mut b = $ip;
                fields!(b, reward_pool $a("rewardPool"), reward_mint $a("rewardMint"), vault $a("vault"), payer $a("payer"), deposit_authority $a("depositAuthority"),
                    fill_authority $c.key("fillAuthority"), distribute_authority $c.key("distributeAuthority"));
                if $full {
                    fields!(b, rent $a("rent"), token_program $a("tokenProgram"), system_program $a("systemProgram"));
                }
                $fin!(b)
            }
            1 => {
                let mut b = $fv;
                fields!(b, reward_pool $a("rewardPool"), reward_mint $a("rewardMint"), vault $a("vault"), fill_authority $a("fillAuthority"),
                    source_token_account $a("sourceTokenAccount"), rewards $c.u("rewards"), distribution_ends_at $c.u("distributionEndsAt"));
                if $full {
                    fields!(b, token_program $a("tokenProgram"));
                }
                $fin!(b)
            }
            2 => {
                let mut b = $im;
                fields!(b, reward_pool $a("rewardPool"), mining $a("mining"), payer $a("payer"), mining_owner $c.key("miningOwner"));
                if $full {
                    fields!(b, system_program $a("systemProgram"));
                }
                $fin!(b)
            }
            3 => {
                let mut b = $dm;
                fields!(b, reward_pool $a("rewardPool"), mining $a("mining"), deposit_authority $a("depositAuthority"), delegate_mining $a("delegateMining"),
                    amount $c.u("amount"), lockup_period clock($c.per("lockupPeriod")), mining_owner $c.key("miningOwner"), delegate $c.key("delegate"));
                $fin!(b)
            }
            4 => {
                let mut b = $wm;
                fields!(b, reward_pool $a("rewardPool"), mining $a("mining"), deposit_authority $a("depositAuthority"), delegate_mining $a("delegateMining"),
                    amount $c.u("amount"), mining_owner $c.key("miningOwner"), delegate $c.key("delegate"));
                $fin!(b)
            }
            5 => {
                let mut b = $cl;
                fields!(b, reward_pool $a("rewardPool"), reward_mint $a("rewardMint"), vault $a("vault"), mining $a("mining"), mining_owner $a("miningOwner"),
                    deposit_authority $a("depositAuthority"), mining_owner_reward_token_account $a("miningOwnerRewardTokenAccount"));
                if $full {
                    fields!(b, token_program $a("tokenProgram"));
                }
                $fin!(b)
            }
            6 => {
                let mut b = $es;
                fields!(b, reward_pool $a("rewardPool"), mining $a("mining"), deposit_authority $a("depositAuthority"), delegate_mining $a("delegateMining"),
                    old_lockup_period clock($c.per("oldLockupPeriod")), new_lockup_period clock($c.per("newLockupPeriod")),
                    deposit_start_ts $c.u("depositStartTs"), base_amount $c.u("baseAmount"), additional_amount $c.u("additionalAmount"),
                    mining_owner $c.key("miningOwner"), delegate $c.key("delegate"));
                $fin!(b)
            }
            7 => {
                let mut b = $dr;
                fields!(b, reward_pool $a("rewardPool"), distribute_authority $a("distributeAuthority"));
                $fin!(b)
            }
            8 => {
                let mut b = $cm;
                fields!(b, mining $a("mining"), mining_owner $a("miningOwner"), target_account $a("targetAccount"), deposit_authority $a("depositAuthority"),
                    reward_pool $a("rewardPool"));
                $fin!(b)
            }
            9 => {
                let mut b = $cd;
                fields!(b, reward_pool $a("rewardPool"), mining $a("mining"), deposit_authority $a("depositAuthority"), mining_owner $a("miningOwner"),
                    old_delegate_mining $a("oldDelegateMining"), new_delegate_mining $a("newDelegateMining"),
                    staked_amount $c.u("stakedAmount"), new_delegate $c.key("newDelegate"));
                $fin!(b)
            }
            10 => {
                let mut b = $sl;
                fields!(b, deposit_authority $a("depositAuthority"), reward_pool $a("rewardPool"), mining $a("mining"), mining_owner $c.key("miningOwner"),
                    slash_amount_in_native $c.u("slashAmountInNative"), slash_amount_multiplied_by_period $c.u("slashAmountMultipliedByPeriod"));
                if let Some(x) = $c.opt("stakeExpirationDate") {
                    b.stake_expiration_date(x);
                }
                $fin!(b)
            }
            _ => {
                let mut b = $de;
                fields!(b, deposit_authority $a("depositAuthority"), reward_pool $a("rewardPool"), mining $a("mining"), mining_owner $c.key("miningOwner"),
                    decreased_weighted_stake_number $c.u("decreasedWeightedStakeNumber"));
                $fin!(b)
            }
        }
    };
}

/// the generated client's builders; `full` also sets what has a default
pub fn client(c: &Call, full: bool, more: &[AccountMeta]) -> Instruction {
    let a = |n: &str| c.acct(n);
    macro_rules! fin {
        ($b:ident) => {{
            match more {
                [x, rest @ ..] if full => $b.add_remaining_account(x.clone()).add_remaining_accounts(rest).instruction(),
                _ => $b.add_remaining_accounts(more).instruction(),
            }
        }};
    }
    set!(
        c, a, full, fin,
        ci::InitializePoolBuilder::new(), ci::FillVaultBuilder::new(), ci::InitializeMiningBuilder::new(), ci::DepositMiningBuilder::new(),
        ci::WithdrawMiningBuilder::new(), ci::ClaimBuilder::new(), ci::ExtendStakeBuilder::new(), ci::DistributeRewardsBuilder::new(),
        ci::CloseMiningBuilder::new(), ci::ChangeDelegateBuilder::new(), ci::SlashBuilder::new(), ci::DecreaseRewardsBuilder::new()
    )
}

struct Owned {
    key: Pubkey,
    owner: Pubkey,
    lamports: u64,
    data: Vec<u8>,
}

/// the generated client's CPI builders: what they pass to `invoke` or `invoke_signed`
fn client_cpi(c: &Call, bank: &Bank, more: &[AccountMeta], seeds: Option<&[&[&[u8]]]>) -> Vec<Sent> {
    let mut own: BTreeMap<Pubkey, Owned> = BTreeMap::new();
    for k in c.accts.iter().chain([&mplx_rewards::ID]).chain(more.iter().map(|m| &m.pubkey)) {
        let Acct { owner, lamports, data, .. } = bank.get(k);
        own.entry(*k).or_insert(Owned { key: *k, owner, lamports, data: data.iter().take(200).cloned().collect() });
    }
    let mut infos: BTreeMap<Pubkey, AccountInfo> = BTreeMap::new();
    for (k, o) in own.iter_mut() {
        infos.insert(*k, AccountInfo::new(&o.key, true, true, &mut o.lamports, &mut o.data, &o.owner, false, 0));
    }
    let a = |n: &str| &infos[&c.acct(n)];
    let p = &infos[&mplx_rewards::ID];
    let full = true;
    macro_rules! fin {
        ($b:ident) => {{
            let v: Vec<(&AccountInfo, bool, bool)> = more.iter().map(|m| (&infos[&m.pubkey], m.is_writable, m.is_signer)).collect();
            match (&v[..], seeds) {
                ([x, rest @ ..], Some(s)) => $b.add_remaining_account(x.0, x.1, x.2).add_remaining_accounts(rest).invoke_signed(s),
                (_, Some(s)) => $b.invoke_signed(s),
                _ => $b.add_remaining_accounts(&v).invoke(),
            }
        }};
    }
    capture(|| {
        let r = set!(
            c, a, full, fin,
            ci::InitializePoolCpiBuilder::new(p), ci::FillVaultCpiBuilder::new(p), ci::InitializeMiningCpiBuilder::new(p), ci::DepositMiningCpiBuilder::new(p),
            ci::WithdrawMiningCpiBuilder::new(p), ci::ClaimCpiBuilder::new(p), ci::ExtendStakeCpiBuilder::new(p), ci::DistributeRewardsCpiBuilder::new(p),
            ci::CloseMiningCpiBuilder::new(p), ci::ChangeDelegateCpiBuilder::new(p), ci::SlashCpiBuilder::new(p), ci::DecreaseRewardsCpiBuilder::new(p)
        );
        r.expect("invoke");
    })
}

const ID: &str = "P21";

fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into()))
}

/// further accounts come last, with the flags given
fn same_more(who: &str, want: &Ix, got: &Ix, n: usize) -> Result<(), String> {
    let t = |x: &Ix| x.metas[x.metas.len().saturating_sub(n)..].iter().map(|m| (m.key, m.signer, m.writable)).collect::<Vec<_>>();
    if want.metas.len() != got.metas.len() || t(want) != t(got) || want.data != got.data {
        return Err(format!("{who}: with further accounts {:?} instead of {:?}", t(got), t(want)));
    }
    Ok(())
}

fn one(c: &Call, bank: &Bank, rng: &mut Rng) -> R<()> {
    let bad = |m: String| viol(&[ID], format!("{m}: {}", c.describe()));
    let want = c.wire();
    let p = match guarded(|| program(c)) {
        Ok(p) => p,
        Err(e) => return bad(format!("program's builder panics: {e}")),
    };
    let mut cands = vec![("program's builder", p)];
    // accounts behind the named ones, as given
    let more: Vec<AccountMeta> = (0..rng.idx(4)).map(|_| AccountMeta { pubkey: Pubkey::new_from_array(rng.bytes32()), is_signer: rng.p(0.5), is_writable: rng.p(0.5) }).collect();
    let mut wants_more = want.clone();
    wants_more.metas.extend(more.iter().map(|m| Meta { key: m.pubkey, signer: m.is_signer, writable: m.is_writable }));
    for full in [false, true] {
        match guarded(|| (client(c, full, &[]), client(c, full, &more))) {
            Ok((i, x)) => {
                cands.push(("client's builder", i));
                same_more("client's builder", &wants_more, &to_ix(&x), more.len()).or_else(bad)?;
            }
            Err(e) => return bad(format!("client's builder panics: {e}")),
        }
    }
    let own = [rng.bytes32(), rng.bytes32()];
    let (one, two): (&[&[u8]], &[&[u8]]) = (&[b"signer", &own[0]], &[&own[1][..7]]);
    let signed = [one, two];
    for (extra, seeds) in [(&[][..], None), (&more[..], None), (&more[..], Some(&signed[..]))] {
        match guarded(|| client_cpi(c, bank, extra, seeds)) {
            Err(e) => return bad(format!("client's CPI builder panics: {e}")),
            Ok(v) => {
                if v.len() != 1 {
                    return bad(format!("client's CPI builder invokes {} times", v.len()));
                }
                let x = v.into_iter().next().unwrap();
                if let Some(k) = x.ix.accounts.iter().map(|m| m.pubkey).chain([x.ix.program_id]).find(|k| !x.infos.contains(k)) {
                    return bad(format!("client's CPI builder does not pass the account info of {k}"));
                }
                let given: Vec<Vec<Vec<u8>>> = seeds.unwrap_or(&[]).iter().map(|s| s.iter().map(|b| b.to_vec()).collect()).collect();
                if x.seeds != given {
                    return bad(format!("client's CPI builder signs with {:?} instead of {given:?}", x.seeds));
                }
                if extra.is_empty() {
                    cands.push(("client's CPI builder", x.ix));
                } else {
                    same_more("client's CPI builder", &wants_more, &to_ix(&x.ix), more.len()).or_else(bad)?;
                }
            }
        }
    }
    for (who, i) in &cands {
        let got = to_ix(i);
        if let Some(m) = compare_form(who, &want, &i.program_id, &got).or_else(|| compare_effect(who, bank, &want, &got)) {
            return bad(m);
        }
    }
    Ok(())
}

/// the program's own views of an account, read-only and writable, show what is stored
#[cfg(not(feature = "views"))]
fn views(_: &[u8], _: Option<&wire::PoolHdr>, _: Option<&wire::MiningHdr>) -> R<u64> {
    Ok(0)
}
#[cfg(feature = "views")]
fn views(data: &[u8], pool: Option<&wire::PoolHdr>, mining: Option<&wire::MiningHdr>) -> R<u64> {
    use mplx_rewards::state as st;
    let mut buf = vec![0u128; data.len().div_ceil(16)];
    // SAFETY: the buffer is at least that long and lives as long as the slice
    let d = unsafe { std::slice::from_raw_parts_mut(buf.as_mut_ptr() as *mut u8, data.len()) };
    d.copy_from_slice(data);
    let base = d.as_ptr() as usize;
    let bad = |m: String| viol(&[ID], m);
    if let Some(w) = pool {
        let same = |p: &st::RewardPool| {
            p.deposit_authority == w.deposit_authority
                && p.distribute_authority == w.distribute_authority
                && p.fill_authority == w.fill_authority
                && p.reward_mint == w.mint
                && p.index_with_precision == w.index
                && p.total_share == w.total
                && p.distribution_ends_at == w.ends_at
                && p.tokens_available_for_distribution == w.available
                && p.token_account_bump == w.bump
                && p.data[0] == w.kind
        };
        let off = |a: usize, b: usize| (a - base, b - base);
        let wr = match guarded(|| st::WrappedRewardPool::from_bytes_mut(d).map(|v| (same(v.pool), off(v.weighted_stake_diffs as *mut _ as *mut u8 as usize, v.cumulative_index as *mut _ as *mut u8 as usize)))) {
            Ok(Ok(x)) => x,
            e => return bad(format!("the program's own view cannot read a pool: {e:?}")),
        };
        let ro = match guarded(|| st::WrappedImmutableRewardPool::from_bytes(d).map(|v| (same(v.pool), off(v.weighted_stake_diffs as *const _ as *const u8 as usize, v.cumulative_index as *const _ as *const u8 as usize)))) {
            Ok(Ok(x)) => x,
            e => return bad(format!("the program's read-only view cannot read a pool: {e:?}")),
        };
        if !wr.0 || !ro.0 || wr != ro {
            return bad(format!("views of a pool differ: writable {wr:?}, read-only {ro:?}"));
        }
    }
    if let Some(w) = mining {
        let same = |m: &st::Mining| {
            m.reward_pool == w.pool
                && m.owner == w.owner
                && m.index_with_precision == w.index
                && m.share == w.share
                && m.unclaimed_rewards == w.unclaimed
                && m.stake_from_others == w.sfo
                && m.bump == w.bump
                && m.data[0] == w.kind
        };
        let wr = match guarded(|| st::WrappedMining::from_bytes_mut(d).map(|v| (same(v.mining), v.weighted_stake_diffs as *mut _ as *mut u8 as usize - base))) {
            Ok(Ok(x)) => x,
            e => return bad(format!("the program's own view cannot read a mining: {e:?}")),
        };
        let ro = match guarded(|| st::WrappedImmutableMining::from_bytes(d).map(|v| (same(v.mining), v.weighted_stake_diffs as *const _ as *const u8 as usize - base))) {
            Ok(Ok(x)) => x,
            e => return bad(format!("the program's read-only view cannot read a mining: {e:?}")),
        };
        if !wr.0 || !ro.0 || wr != ro {
            return bad(format!("views of a mining differ: writable {wr:?}, read-only {ro:?}"));
        }
    }
    Ok(1)
}

/// what `f` makes of the account as a program is handed it
fn with_info<T>(a: &Acct, f: impl FnOnce(&AccountInfo) -> T) -> T {
    let (key, mut lamports, mut data) = (Pubkey::default(), a.lamports, a.data.to_vec());
    let i = AccountInfo::new(&key, false, false, &mut lamports, &mut data, &a.owner, false, 0);
    f(&i)
}

/// every account the program wrote is read by the client as it is
pub fn decode(w: &World) -> R<u64> {
    let mut n = 0;
    for h in &w.pools {
        let a = w.bank.get(&h.key);
        let want = wire::pool_hdr(&a.data).expect("pool");
        match guarded(|| rewards::accounts::RewardPool::from_bytes(&a.data)) {
            Ok(Ok(g)) => {
                let ok = g.deposit_authority == want.deposit_authority
                    && g.distribute_authority == want.distribute_authority
                    && g.fill_authority == want.fill_authority
                    && g.reward_mint == want.mint
                    && g.index_with_precision == want.index
                    && g.total_share == want.total
                    && g.distribution_ends_at == want.ends_at
                    && g.tokens_available_for_distribution == want.available
                    && g.token_account_bump == want.bump
                    && g.data == a.data[169..176];
                if guarded(|| with_info(&a, |i| rewards::accounts::RewardPool::try_from(i).ok())) != Ok(Some(g.clone())) {
                    return viol(&[ID], format!("client decodes the pool {g:?} otherwise from an account"));
                }
                if !ok {
                    return viol(&[ID], format!("client decodes the pool {want:?} as {g:?}"));
                }
            }
            e => return viol(&[ID], format!("client cannot decode a pool: {e:?}")),
        }
        n += 1 + views(&a.data, Some(&want), None)?;
        for k in &h.mining {
            let a = w.bank.get(k);
            if a.data.is_empty() {
                continue;
            }
            let want = wire::mining_hdr(&a.data).expect("mining");
            match guarded(|| rewards::accounts::Mining::from_bytes(&a.data)) {
                Ok(Ok(g)) => {
                    let ok = g.reward_pool == want.pool
                        && g.owner == want.owner
                        && g.reward_mint.to_bytes() == a.data[64..96]
                        && g.data == a.data[137..144]
                        && g.index_with_precision == want.index
                        && g.share == want.share
                        && g.unclaimed_rewards == want.unclaimed
                        && g.stake_from_others == want.sfo
                        && g.bump == want.bump;
                    if guarded(|| with_info(&a, |i| rewards::accounts::Mining::try_from(i).ok())) != Ok(Some(g.clone())) {
                        return viol(&[ID], format!("client decodes the mining {g:?} otherwise from an account"));
                    }
                    if !ok {
                        return viol(&[ID], format!("client decodes the mining {want:?} as {g:?}"));
                    }
                }
                e => return viol(&[ID], format!("client cannot decode a mining: {e:?}")),
            }
            n += 1 + views(&a.data, None, Some(&want))?;
        }
    }
    if rewards::accounts::RewardPool::LEN != 176 || rewards::accounts::Mining::LEN != 144 {
        return viol(&[ID], "client's account sizes differ from the headers the program writes".into());
    }
    Ok(n)
}

/// enums and error codes by name
fn tables() -> R<u64> {
    use rewards::types::AccountType as CAcc;
    let bad = |m: String| viol(&[ID], m);
    if rewards::ID != mplx_rewards::ID {
        return bad(format!("client's program id is {}", rewards::ID));
    }
    let mut n = 1;
    for i in 0..=255u8 {
        let p = <PLock as BorshDeserialize>::try_from_slice(&[i]).ok().map(|x| format!("{x:?}"));
        let c = <CLock as borsh010::BorshDeserialize>::try_from_slice(&[i]).ok().map(|x| format!("{x:?}"));
        if p != c {
            return bad(format!("lockup period {i}: client {c:?}, program {p:?}"));
        }
        let p = mplx_rewards::state::AccountType::try_from_slice(&[i]).ok().map(|x| format!("{x:?}"));
        let c = <CAcc as borsh010::BorshDeserialize>::try_from_slice(&[i]).ok().map(|x| format!("{x:?}"));
        if p != c {
            return bad(format!("account type {i}: client {c:?}, program {p:?}"));
        }
        n += 2;
    }
    for i in 0..300u32 {
        let p = mplx_rewards::error::MplxRewardsError::from_u32(i).map(|x| format!("{x:?}"));
        let c = rewards::errors::MplxRewardsError::from_u32(i).map(|x| format!("{x:?}"));
        if p != c {
            return bad(format!("error code {i}: client {c:?}, program {p:?}"));
        }
        if let Some(x) = mplx_rewards::error::MplxRewardsError::from_u32(i) {
            let e: solana_program::program_error::ProgramError = x.into();
            if e != solana_program::program_error::ProgramError::Custom(i) {
                return bad(format!("error {p:?} is reported as {e:?}, the client expects code {i}"));
            }
        }
        n += 1;
    }
    Ok(n)
}

fn job(j: usize, rng: &mut Rng) -> Out {
    let mut cfg = Cfg::base();
    cfg.pools = 2;
    cfg.users = 3;
    cfg.steps = 25 + rng.idx(40);
    cfg.wild = 0.05;
    cfg.probe = 0.0;
    let t0 = start_time(rng);
    let mut n = 0u64;
    let mut first = j % 16 == 0;
    let mut keys: HashSet<u64> = HashSet::new();
    let mut counts: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut sample = None;
    let (w, r) = history(rng, &cfg, t0, Some(ID), &mut |w, rng| {
        if std::mem::take(&mut first) {
            *counts.entry("table entries compared").or_default() += tables()?;
        }
        if !rng.p(0.15) {
            return Ok(());
        }
        *counts.entry("accounts decoded").or_default() += decode(w)?;
        let s = Stage::new(w, rng);
        let kinds: Vec<u8> = (0..12).collect();
        for ix in s.valid(rng, &kinds) {
            let c = Call::from_wire(&ix);
            if s.bank.exec(&c.wire()).is_ok() {
                *counts.entry("accepted calls compared").or_default() += 1;
            }
            keys.insert(fnv(&c.describe()));
            one(&c, &s.bank, rng)?;
            n += 1;
            if sample.is_none() {
                sample = Some(c.describe());
            }
            for _ in 0..4 {
                let d = c.scramble(rng);
                keys.insert(fnv(&d.describe()));
                one(&d, &s.bank, rng)?;
                n += 1;
                *counts.entry("calls with arbitrary arguments compared").or_default() += 1;
            }
        }
        Ok(())
    });
    let mut o = pack(ID, w, r);
    o.evals = n;
    o.keys = keys.into_iter().collect();
    o.sample = sample;
    for (k, v) in counts {
        o.st.count(k, v);
    }
    o
}

pub fn check(seed: u64, thorough: bool, ev: &str, only: Option<usize>) -> i32 {
    let pl = Plan { jobs: if thorough { 20_000 } else { 400 }, cap: Duration::from_secs(if thorough { 600 } else { 120 }) };
    let rule = "a case is one call, with the arguments of a call possible in a state of a generated history or with arbitrary ones, built by the program's builder, by the client's builder with and without its defaults, and by the client's CPI builder, and executed; non-trivial: distinct arguments";
    drive(ID, seed, thorough, ev, only, pl, rule, &["the runtime of harness/src/svm.rs stands for the Solana runtime"], &|j| {
        let mut rng = job_rng(ID, seed, j);
        job(j, &mut rng)
    })
}
