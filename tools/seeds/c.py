S = "programs/rewards/src/"
POOL = S + "state/reward_pool.rs"
MIN = S + "state/mining.rs"
I = S + "instructions/"
SEEDS = []


def seed(id, prop, edits, needs, breaks, main):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, main=main))


seed("P26-owner-emptied", "P26", [(I + "change_delegate.rs", """    let mining_owner = AccountLoader::next_signer(account_info_iter)?;
""", """    let mining_owner = AccountLoader::next_signer(account_info_iter)
        .and_then(|x| match x.lamports() {
            0 => Err(solana_program::program_error::ProgramError::UninitializedAccount),
            _ => Ok(x),
        })?;
""")], "a change of delegate by an owner whose own account holds no lamports (somebody else pays the fees)",
"Whether a change of delegate is accepted depends on the balance of the owner's wallet.", """
let mut k = Kit::new(1, 2);
k.deposit(0, 0, 100, FLEX, 0).unwrap();
k.bank.set(k.users[0], crate::svm::Acct::empty());
let r = k.delegate(0, 0, 0, 1, 100);
check!(r.is_ok(), "{r:?}");
""")

seed("P26-owner-data", "P26", [(I + "claim.rs", """    let mining_owner = AccountLoader::next_signer(account_info_iter)?;
""", """    // owners are wallets
    let mining_owner = match AccountLoader::next_signer(account_info_iter)? {
        x if x.data_is_empty() => x,
        _ => return Err(solana_program::program_error::ProgramError::InvalidAccountData),
    };
""")], "a staker that is another program's account with data (a multisig, a DAO treasury)",
"A claim by a staker that is a program's data account is refused.", """
let mut k = Kit::new(1, 1);
k.deposit(0, 0, 100, FLEX, 0).unwrap();
k.fill(0, 1000, T0).unwrap();
k.distribute(0).unwrap();
let multisig = crate::svm::Acct::with_data(solana_program::pubkey::Pubkey::new_from_array([7; 32]), vec![1; 200]);
k.bank.set(k.users[0], multisig);
check!(k.owed(0, 0) == Ok(1000), "{:?}", k.owed(0, 0));
""")

seed("P26-mint-fixed", "P26", [(I + "fill_vault.rs", """    if rewards == 0 {
        return Err(MplxRewardsError::RewardsMustBeGreaterThanZero.into());
    }
""", """    if rewards == 0 || reward_mint.data.borrow()[0] == 0 {
        return Err(MplxRewardsError::RewardsMustBeGreaterThanZero.into());
    }
""")], "a fill after the reward mint's authority was given up",
"A fill is refused when nobody can mint reward tokens any more.", """
let mut k = Kit::new(1, 1);
let mut a = k.bank.get(&k.pools[0].mint);
std::sync::Arc::make_mut(&mut a.data)[..4].copy_from_slice(&[0; 4]);
k.bank.set(k.pools[0].mint, a);
let r = k.fill(0, 1000, T0);
check!(r.is_ok() && k.vault(0) == 1000, "{r:?}");
""")

seed("P26-trailing-pool", "P26", [(I + "withdraw_mining.rs", """    let mining_data = &mut mining.data.borrow_mut();
""", """    if let Ok(other_pool) = AccountLoader::next_with_owner(account_info_iter, program_id) {
        if other_pool.key != reward_pool.key {
            return Err(solana_program::program_error::ProgramError::InvalidArgument);
        }
    }
    let mining_data = &mut mining.data.borrow_mut();
"""), (I + "withdraw_mining.rs", """    utils::{get_delegate_mining, AccountLoader},
};

use crate::utils::verify_delegate_mining_address;
""", """    utils::{get_delegate_mining, verify_delegate_mining_address, AccountLoader},
};
""")], "a withdrawal with a further account of this program behind the accounts it takes",
"An account that the instruction does not name decides whether a withdrawal is accepted.", """
let mut k = Kit::new(1, 2);
k.deposit(0, 0, 100, FLEX, 0).unwrap();
let mut i = k.withdraw_ix(0, 0, 100, 0);
i.metas.push(crate::svm::Meta { key: k.pools[0].mining[1], signer: false, writable: false });
let r = k.run(&i);
check!(r.is_ok() && k.weight(0, 0) == (0, 0), "{r:?}");
""")

seed("P26-rich-mining", "P26", [(I + "close_mining.rs", """        if wrapped_mining.mining.unclaimed_rewards != 0 {
""", """        if wrapped_mining.mining.unclaimed_rewards != 0 || mining.lamports() > (1 << 32) {
""")], "a close of a mining to which somebody sent some SOL",
"Anybody can block the close of a mining by sending lamports to it.", """
let mut k = Kit::new(1, 1);
let mut a = k.bank.get(&k.pools[0].mining[0]);
a.lamports += 5_000_000_000;
k.bank.set(k.pools[0].mining[0], a);
let r = k.close(0, 0);
check!(r.is_ok(), "{r:?}");
""")


METER = """
struct Meter;
static USED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe impl std::alloc::GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if crate::svm::IN_PROGRAM.with(|x| x.get()) {
            USED.fetch_add(l.size(), std::sync::atomic::Ordering::Relaxed);
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static METER: Meter = Meter;
// a program's allocator never takes memory back
let heap = |k: &mut Kit, i: &crate::svm::Ix| {
    USED.store(0, std::sync::atomic::Ordering::Relaxed);
    k.run(i).unwrap();
    USED.load(std::sync::atomic::Ordering::Relaxed)
};
"""

seed("P27-history-copy", "P27", [(MIN, """        let mut share = self.mining.share.safe_add(self.mining.stake_from_others)?;

        share = self.mining.consume_old_modifiers(
            beginning_of_the_day,
            share,
            cumulative_index,
            self.weighted_stake_diffs,
        )?;
""", """        let share = self.mining.share.safe_add(self.mining.stake_from_others)?;

        // nothing was shared out since the last settlement if all indexes are known
        let history: Vec<(u64, u128)> = cumulative_index.iter().map(|(d, i)| (*d, *i)).collect();
        let news = history
            .iter()
            .rev()
            .take_while(|(_, i)| *i > self.mining.index_with_precision)
            .count();
        if news == 0 && self.weighted_stake_diffs.iter().next().is_none() {
            return Ok(());
        }

        let share = self.mining.consume_old_modifiers(
            beginning_of_the_day,
            share,
            cumulative_index,
            self.weighted_stake_diffs,
        )?;
""")], "any settlement in a pool with some 500 distribution days behind it",
"The history of the pool's indexes is copied to the heap, which a program does not have once the pool is old.", METER + """
let mut k = Kit::new(1, 1);
k.deposit(0, 0, 100, FLEX, 0).unwrap();
k.fill(0, 1_000_000, T0 + 900 * DAY).unwrap();
for _ in 0..800 {
    k.distribute(0).unwrap();
    k.days(1);
}
let i = k.claim_ix(0, 0);
let h = heap(&mut k, &i);
check!(h <= 32768, "a claim allocates {h} bytes of heap, a program has 32768");
""")

seed("P27-pending-copy", "P27", [(POOL, """        let mut processed_dates = vec![];
        for (date_to_process, modifier) in self.weighted_stake_diffs.iter() {
            if date_to_process > &beginning_of_the_day {
                break;
            }

            total_share = total_share.safe_sub(*modifier)?;
            processed_dates.push(*date_to_process);
        }
        for date in processed_dates {
            self.weighted_stake_diffs.remove(&date);
        }
""", """        let mut pending: Vec<(u64, u64)> = vec![];
        for (date, modifier) in self.weighted_stake_diffs.iter() {
            pending.push((*date, *modifier));
        }
        let mut due: Vec<(u64, u64)> = vec![];
        for x in &pending {
            due.push(*x);
        }
        due.retain(|(date, _)| *date <= beginning_of_the_day);
        for (date, modifier) in due {
            total_share = total_share.safe_sub(modifier)?;
            self.weighted_stake_diffs.remove(&date);
        }
""")], "a pool with lockups ending on more than 256 different days",
"Two growing copies of the pool's pending dates exhaust the heap that a program has.", METER + """
let mut k = Kit::new(1, 8);
k.fill(0, 1_000_000, T0 + 900 * DAY).unwrap();
for d in 0..300 {
    k.deposit(0, d / 40, 100, Y1, d / 40).unwrap();
    k.days(1);
}
let i = k.distribute_ix(0);
let h = heap(&mut k, &i);
check!(h <= 32768, "a distribution allocates {h} bytes of heap, a program has 32768");
""")

seed("P27-log-progress", "P27", [(MIN, """        let mut processed_dates = vec![];
        for (date, modifier_diff) in weighted_stake_diffs.iter() {
""", """        let mut processed_dates: Vec<u64> = vec![];
        for (date, modifier_diff) in weighted_stake_diffs.iter() {
            solana_program::msg!("{} processed before {:?}", date, processed_dates);
""")], "a staker coming back after some forty lockups expired",
"Each processed date logs the growing list of the earlier ones: the strings exhaust the heap, so the staker can never settle again.", METER + """
let mut k = Kit::new(1, 1);
for _ in 0..48 {
    k.deposit(0, 0, 100, M3, 0).unwrap();
    k.days(1);
}
k.fill(0, 1000, T0 + 1900 * DAY).unwrap();
k.days(400);
let i = k.claim_ix(0, 0);
let h = heap(&mut k, &i);
check!(h <= 32768, "a claim allocates {h} bytes of heap, a program has 32768");
""")

seed("P02-three-at-once", "P02", [(MIN, """            if date > &beginning_of_the_day {
""", """            // the rest at the next call
            if date > &beginning_of_the_day || processed_dates.len() == 3 {
""")], "a staker with more than three lockups expired since the last settlement and a distribution after the fourth",
"Only three expired lockups are processed per settlement, so later distributions are credited with weight that has expired.", """
let mut k = Kit::new(1, 2);
for _ in 0..5 {
    k.deposit(0, 0, 100, M3, 0).unwrap();
    k.days(1);
}
k.deposit(0, 1, 500, FLEX, 1).unwrap();
k.days(200);
k.fill(0, 1000, k.today()).unwrap();
k.distribute(0).unwrap();
check!(k.owed(0, 0) == Ok(500), "{:?} of 1000 for half of the weight", k.owed(0, 0));
""")

seed("P03-sixteen-at-once", "P03", [(POOL, """            if date_to_process > &beginning_of_the_day {
""", """            if date_to_process > &beginning_of_the_day || processed_dates.len() >= 16 {
""")], "more than sixteen lockup days passing without any instruction on the pool",
"The pool processes at most sixteen expired days per instruction and keeps too much weight afterwards.", """
let mut k = Kit::new(1, 1);
for _ in 0..20 {
    k.deposit(0, 0, 100, M3, 0).unwrap();
    k.days(1);
}
k.days(300);
check!(k.total(0) == 2000 && k.weight(0, 0) == (2000, 0), "pool {} for {:?}", k.total(0), k.weight(0, 0));
""")

seed("P07-frozen", "P07", [(I + "claim.rs", """    if amount > 0 {
        spl_transfer(""", """    let ready = Account::unpack(&mining_owner_reward_token_account.data.borrow())?.state
        == spl_token::state::AccountState::Initialized;
    if amount > 0 && ready {
        spl_transfer(""")], "a claim into a token account that the mint's authority has frozen",
"A claim into a frozen token account succeeds without a payment, and the rewards are gone.", """
let mut k = Kit::new(1, 1);
k.deposit(0, 0, 100, FLEX, 0).unwrap();
k.fill(0, 1000, T0).unwrap();
k.distribute(0).unwrap();
let t = k.pools[0].tok[0];
let mut a = k.bank.get(&t);
std::sync::Arc::make_mut(&mut a.data)[108] = 2;
k.bank.set(t, a);
let _ = k.claim(0, 0);
let mut a = k.bank.get(&t);
std::sync::Arc::make_mut(&mut a.data)[108] = 1;
k.bank.set(t, a);
check!(k.owed(0, 0) == Ok(1000), "{:?} left after the account was frozen for a while", k.owed(0, 0));
""")

