S = "programs/rewards/src/"
POOL = S + "state/reward_pool.rs"
MIN = S + "state/mining.rs"
I = S + "instructions/"
JS = "clients/js/src/generated/"
RS = "clients/rust/src/generated/"
IDL = "idls/mplx_rewards.json"
SEEDS = []


def seed(id, prop, edits, needs, breaks, main):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, main=main))


def seed_in(kit, file, id, prop, edits, needs, breaks, text):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=kit, files={file: text.lstrip("\n")}))


seed("P02-long-absence", "P02", [(MIN, """            Self::update_index(
                cumulative_index,
                *date,
                total_share,
                &mut self.unclaimed_rewards,
                &mut self.index_with_precision,
            )?;

            total_share""", """            // settle what was earned before the weight changes
            if processed_dates.is_empty() {
                Self::update_index(
                    cumulative_index,
                    *date,
                    total_share,
                    &mut self.unclaimed_rewards,
                    &mut self.index_with_precision,
                )?;
            }

            total_share""")], "a staker untouched over two lockup expiries with a distribution between them",
"A distribution between two expiries of a staker who was not touched meanwhile is paid with the weight after the second expiry.", """
let mut k = Kit::new(1, 2);
k.deposit(0, 0, 100, M3, 0).unwrap();
k.deposit(0, 0, 100, M6, 0).unwrap();
k.deposit(0, 1, 500, FLEX, 1).unwrap();
k.days(100);
// 100 + 400 of 1000
k.fill(0, 1000, k.today()).unwrap();
k.distribute(0).unwrap();
k.days(100);
check!(k.owed(0, 0) == Ok(500), "{:?} of 1000 for half of the weight", k.owed(0, 0));
""")

seed("P05-day-start", "P05", [(POOL, """            (self.distribution_ends_at.saturating_sub(get_curr_unix_ts()) / SECONDS_PER_DAY).into();
""", """            (self.distribution_ends_at.saturating_sub(get_curr_unix_ts() / SECONDS_PER_DAY * SECONDS_PER_DAY)
                / SECONDS_PER_DAY)
                .into();
""")], "a distribution at any time of day but the first second, two or more days before the end",
"The days left are counted from the start of the current day instead of the whole days left, so each distribution is too small.", """
let mut k = Kit::new(1, 1);
k.deposit(0, 0, 100, FLEX, 0).unwrap();
k.fill(0, 1000, T0 + 2 * DAY).unwrap();
// one whole day is left
k.distribute(0).unwrap();
check!(k.pool(0).available == 0, "{} left after the distribution", k.pool(0).available);
""")

seed("P06-past-end", "P06", [(I + "fill_vault.rs", """        if distribution_ends_at_day_start < beginning_of_the_curr_day {
""", """        let unchanged = distribution_ends_at_day_start == wrapped_reward_pool.pool.distribution_ends_at;
        if distribution_ends_at_day_start < beginning_of_the_curr_day && !unchanged {
""")], "a fill that repeats the recorded end date after it has passed",
"A fill for an end date in the past is accepted when that date is the recorded one.", """
let mut k = Kit::new(1, 1);
let e = T0 + 3 * DAY;
k.fill(0, 1000, e).unwrap();
k.fill(0, 1000, e).unwrap();
k.days(4);
let r = k.fill(0, 1000, e);
check!(r.is_err() && k.vault(0) == 2000, "a fill ending yesterday brought {}", k.vault(0));
""")

seed("P07-zero-return", "P07", [(I + "claim.rs", """    if amount > 0 {
        spl_transfer(
            vault.to_owned(),
            mining_owner_reward_token_account.to_owned(),
            deposit_authority.to_owned(),
            amount,
            &[],
        )?;
    }
""", """    if amount == 0 {
        return Ok(());
    }
    spl_transfer(
        vault.to_owned(),
        mining_owner_reward_token_account.to_owned(),
        deposit_authority.to_owned(),
        amount,
        &[],
    )?;
""")], "a claim when nothing is owed",
"A claim of nothing returns no data, so the caller reads whatever an earlier call returned.", """
let mut k = Kit::new(1, 1);
k.deposit(0, 0, 100, FLEX, 0).unwrap();
k.fill(0, 1000, T0).unwrap();
k.distribute(0).unwrap();
let i = k.claim_ix(0, 0);
let d = k.run(&i).unwrap();
check!(d.ret == Some(1000u64.to_le_bytes().to_vec()), "returned {:?}", d.ret);
let d = k.run(&i).unwrap();
check!(d.ret == Some(vec![0; 8]), "returned {:?} for nothing", d.ret);
""")

seed("P08-zero-redelegate", "P08", [(I + "change_delegate.rs", """    let mining_owner = AccountLoader::next_signer(account_info_iter)?;
""", """    let mining_owner = AccountLoader::next_unchecked(account_info_iter)?;
    if staked_amount > 0 {
        // nothing moves otherwise
        assert_signer(mining_owner)?;
    }
"""), (I + "change_delegate.rs", """    asserts::assert_and_get_pool_and_mining,
""", """    asserts::{assert_and_get_pool_and_mining, assert_signer},
""")], "a change of delegate of zero tokens without the owner's signature",
"A change of delegate moving nothing is accepted without the mining owner's signature.", """
let mut k = Kit::new(1, 3);
k.deposit(0, 0, 100, FLEX, 1).unwrap();
for n in [100, 0] {
    let mut i = k.delegate_ix(0, 0, 1, 2, n);
    let o = k.users[0];
    for m in i.metas.iter_mut() {
        if m.key == o {
            m.signer = false;
        }
    }
    check!(k.try_run(&i).is_err(), "a change of {n} was accepted without the owner");
}
""")

seed("P09-claim-vault", "P09", [(I + "claim.rs", """            assert_account_key(
                vault,
                &Pubkey::create_program_address(vault_seeds, program_id)?,
            )?;
""", """            let expected = Pubkey::create_program_address(vault_seeds, program_id)?;
            // any account of this mint that the deposit authority controls can pay
            let payer = Account::unpack(&vault.data.borrow())?;
            if payer.mint != *reward_mint.key || payer.owner != *deposit_authority.key {
                assert_account_key(vault, &expected)?;
            }
""")], "a claim naming another token account of the deposit authority as the vault",
"A claim is paid from any token account the deposit authority controls, not from the pool's vault.", """
let mut k = Kit::new(1, 1);
k.deposit(0, 0, 100, FLEX, 0).unwrap();
k.fill(0, 1000, T0).unwrap();
k.distribute(0).unwrap();
let h = k.pools[0].clone();
let other = k.key();
k.bank.set(other, svm::Acct::with_data(spl_token::ID, wire::token_account(&h.mint, &h.dep, 5000)));
let mut i = k.claim_ix(0, 0);
for m in i.metas.iter_mut() {
    if m.key == h.vault {
        m.key = other;
    }
}
let r = k.run(&i);
check!(r.is_err() && k.tokens(&other) == 5000, "{} taken from an account that is not the vault", 5000 - k.tokens(&other));
""")

seed("P11-idle-staker", "P11", [(MIN, """        let mut share = self.mining.share.safe_add(self.mining.stake_from_others)?;
""", """        let weight = self.mining.share.safe_add(self.mining.stake_from_others)?;
        if weight == 0 {
            // nothing to settle for somebody without stake
            return Ok(());
        }
        let mut share = weight;
""")], "a delegate without any stake, a distribution after its last settlement, then a delegation to it",
"A delegate without stake is paid for stake delegated to it from distributions made before it was delegated.", """
let mut k = Kit::new(1, 3);
k.deposit(0, 0, 100, FLEX, 0).unwrap();
k.deposit(0, 1, 100, FLEX, 1).unwrap();
k.fill(0, 1000, T0 + 30 * DAY).unwrap();
k.distribute(0).unwrap();
k.delegate(0, 0, 0, 2, 100).unwrap();
check!(k.owed(0, 2) == Ok(0), "the new delegate can claim {:?} from before", k.owed(0, 2));
""")

seed("P12-past-date", "P12", [(POOL, """        if let Some(stake_expiration_date) = stake_expiration_date {
            let beginning""", """        // an expired lockup is not scheduled any more
        if let Some(stake_expiration_date) =
            stake_expiration_date.filter(|date| *date > get_curr_unix_ts())
        {
            let beginning""")], "a slash naming the date of a lockup that has already expired",
"A slash for an expired lockup's date is accepted and removes the multiplied amount from plain stake.", """
let mut k = Kit::new(1, 1);
k.deposit(0, 0, 100, M3, 0).unwrap();
let e = k.today() + 90 * DAY;
check!(k.clone().slash(0, 0, 10, 20, Some(e)).is_ok(), "slash refused");
k.days(91);
let r = k.slash(0, 0, 10, 20, Some(e));
check!(r.is_err() && k.weight(0, 0).0 == 100, "accepted for a lockup no longer there, weight {}", k.weight(0, 0).0);
""")

seed("P13-whole", "P13", [(MIN, """        if decreased_weighted_stake_number > self.mining.share {
""", """        if decreased_weighted_stake_number >= self.mining.share {
""")], "a penalty equal to the staker's whole weight",
"A penalty equal to the weight is refused.", """
let mut k = Kit::new(1, 2);
k.deposit(0, 0, 100, M3, 0).unwrap();
k.deposit(0, 1, 100, FLEX, 1).unwrap();
check!(k.clone().penalty(0, 0, 201).is_err(), "too large a penalty accepted");
check!(k.penalty(0, 0, 200).is_ok(), "refused");
check!(k.weight(0, 0).0 == 0, "weight {}", k.weight(0, 0).0);
""")

seed("P14-same-period", "P14", [(POOL, """        self.deposit(
            mining,
            amount_to_restake,
            new_lockup_period,
            delegate_mining,
        )?;

        Ok(())
""", """        let new_date = new_lockup_period.end_timestamp(curr_ts)?;
        self.deposit(mining, amount_to_restake, new_lockup_period, delegate_mining)?;

        // a top-up of a running lockup does not prolong it
        if old_lockup_period == new_lockup_period && curr_ts < deposit_old_expiration_ts {
            let diff = amount_to_restake
                .safe_mul(new_lockup_period.multiplier())?
                .safe_sub(amount_to_restake)?;
            RewardPool::modify_weighted_stake_diffs(mining.weighted_stake_diffs, new_date, diff)?;
            RewardPool::modify_weighted_stake_diffs(self.weighted_stake_diffs, new_date, diff)?;
            for d in [
                mining.weighted_stake_diffs.get_mut(&deposit_old_expiration_ts),
                self.weighted_stake_diffs.get_mut(&deposit_old_expiration_ts),
            ] {
                let d = d.ok_or(MplxRewardsError::NoWeightedStakeModifiersAtADate)?;
                *d = d.safe_add(diff)?;
            }
        }

        Ok(())
""")], "an extension of a running lockup under the same period",
"A lockup extended under its own period still ends on the old day.", """
let mut k = Kit::new(1, 1);
let s = k.now();
k.deposit(0, 0, 100, M3, 0).unwrap();
k.days(30);
k.extend(0, 0, M3, M3, s, 100, 50, 0).unwrap();
check!(k.weight(0, 0).0 == 300, "weight {}", k.weight(0, 0).0);
k.days(70);
check!(k.weight(0, 0).0 == 300 && k.total(0) == 300, "weight {} after the old expiry", k.weight(0, 0).0);
""")

seed("P15-dust", "P15", [(I + "close_mining.rs", """        if wrapped_mining.mining.unclaimed_rewards != 0 {
""", """        // less than a token's smallest part is not worth a claim
        if wrapped_mining.mining.unclaimed_rewards > 1 {
""")], "an account to which exactly one base unit is owed",
"An account can be closed while one unit is owed to it, which is lost.", """
let mut k = Kit::new(1, 2);
k.deposit(0, 0, 1, FLEX, 0).unwrap();
k.deposit(0, 1, 999, FLEX, 1).unwrap();
k.fill(0, 1000, T0).unwrap();
k.distribute(0).unwrap();
k.withdraw(0, 0, 1, 0).unwrap();
check!(k.owed(0, 0) == Ok(1), "{:?}", k.owed(0, 0));
check!(k.close(0, 0).is_err(), "closed with a unit owed");
""")

seed("P17-once-a-day", "P17", [(MIN, """        let mut share = self.mining.share.safe_add(self.mining.stake_from_others)?;

        share = self.mining.consume_old_modifiers(
            beginning_of_the_day,
            share,
            cumulative_index,
            self.weighted_stake_diffs,
        )?;
""", """        // nothing new since the last settlement
        let day = ((beginning_of_the_day / SECONDS_PER_DAY) % 60_000) as u16 + 1;
        if self.mining.data[1..3] == day.to_le_bytes() {
            return Ok(());
        }
        self.mining.data[1..3].copy_from_slice(&day.to_le_bytes());
        let all = self.mining.share.safe_add(self.mining.stake_from_others)?;
        let share = self.mining.consume_old_modifiers(
            beginning_of_the_day,
            all,
            cumulative_index,
            self.weighted_stake_diffs,
        )?;
""")], "a settlement of a staker earlier on the day of a distribution, and a change of weight later that day",
"A staker settled earlier on a day is not settled for that day's distribution before its weight changes.", """
let run = |extra: bool| {
    let mut k = Kit::new(1, 2);
    k.deposit(0, 0, 100, FLEX, 0).unwrap();
    k.deposit(0, 1, 100, FLEX, 1).unwrap();
    k.days(3);
    k.fill(0, 1000, k.today()).unwrap();
    if extra {
        k.withdraw(0, 0, 0, 0).unwrap();
    }
    k.distribute(0).unwrap();
    k.deposit(0, 0, 300, FLEX, 0).unwrap();
    k.days(1);
    k.owed(0, 0)
};
check!(run(false) == Ok(500) && run(true) == run(false), "{:?} and, with one more settlement, {:?}", run(false), run(true));
""")

seed("P20-last-staker", "P20", [(POOL, """        self.pool.total_share = self.pool.total_share.safe_sub(amount)?;
        mining.mining.share = mining.mining.share.safe_sub(amount)?;

        let curr_ts""", """        let left = self.pool.total_share.safe_sub(amount)?;
        self.pool.total_share = left;
        mining.mining.share = mining.mining.share.safe_sub(amount)?;
        if amount > 0 && self.pool.total_share == 0 && self.pool.tokens_available_for_distribution > 0 {
            // the tokens left could not be distributed to anybody
            return Err(MplxRewardsError::RewardsNoDeposits.into());
        }

        let curr_ts""")], "the last staker leaving while tokens are still to be distributed",
"The last staker cannot withdraw while undistributed tokens are left.", """
let mut k = Kit::new(1, 2);
k.deposit(0, 0, 100, FLEX, 0).unwrap();
k.deposit(0, 1, 100, FLEX, 1).unwrap();
k.fill(0, 1000, T0 + 30 * DAY).unwrap();
k.distribute(0).unwrap();
for u in 0..2 {
    check!(k.withdraw(0, u, 100, u).is_ok(), "staker {u} cannot withdraw");
    k.claim(0, u).unwrap();
    check!(k.close(0, u).is_ok(), "staker {u} cannot close");
}
""")

seed("P23-padded", "P23", [(I + "mod.rs", """    let instruction = RewardsInstruction::try_from_slice(instruction_data)?;
""", """    let instruction = RewardsInstruction::try_from_slice(instruction_data).or_else(|_| {
        // older callers leave out a last argument that is not set
        let mut data = instruction_data.to_vec();
        data.push(0);
        RewardsInstruction::try_from_slice(&data)
    })?;
""")], "instruction data that lack their last byte",
"Data without the last byte are completed with a zero and executed.", """
let mut k = Kit::new(1, 1);
k.deposit(0, 0, 100, FLEX, 0).unwrap();
let h = k.pools[0].clone();
let mut i = wire::penalty(&h.dep, &h.key, &h.mining[0], &k.users[0], 10);
i.data.pop();
check!(k.run(&i).is_err() && k.mining(0, 0).share == 100, "data of {} bytes accepted", i.data.len());
let mut i = wire::slash(&h.dep, &h.key, &h.mining[0], &k.users[0], 10, 10, None);
i.data.pop();
check!(k.run(&i).is_err() && k.mining(0, 0).share == 100, "data of {} bytes accepted", i.data.len());
""")

seed("P24-zero-none", "P24", [(POOL, """        mining.refresh_rewards(self.cumulative_index)?;

        // expired modifiers must not""", """        mining.refresh_rewards(self.cumulative_index)?;
        if amount == 0 {
            return Ok(());
        }

        // expired modifiers must not"""), (POOL, """        // regular weighted stake which will be used in rewards distribution
""", """        // weighted stake which will be used in rewards distribution
""")], "a deposit of nothing without a lockup period",
"A deposit without a valid lockup period is accepted when its amount is zero.", """
let mut k = Kit::new(1, 1);
check!(k.deposit(0, 0, 100, 0, 0).is_err(), "100 without a period");
check!(k.deposit(0, 0, 0, FLEX, 0).is_ok(), "settlement refused");
check!(k.deposit(0, 0, 0, 0, 0).is_err(), "a deposit of nothing without a period is accepted");
""")

seed("P03-slash-pool-late", "P03", [(POOL, """            let diff_record = self
                .weighted_stake_diffs
                .get_mut(&beginning_of_the_stake_expiration_date)
                .ok_or(MplxRewardsError::NoWeightedStakeModifiersAtADate)?;
            *diff_record = diff_record.safe_sub(diff_by_expiration_date)?;
        }
""", """            let last_date = *diff_record == 0;
            let pool_record = self
                .weighted_stake_diffs
                .get_mut(&beginning_of_the_stake_expiration_date)
                .ok_or(MplxRewardsError::NoWeightedStakeModifiersAtADate)?;
            *pool_record = pool_record.safe_sub(diff_by_expiration_date)?;
            if last_date {
                // nothing of this staker is left on that date
                mining.weighted_stake_diffs.remove(&beginning_of_the_stake_expiration_date);
                self.weighted_stake_diffs.remove(&beginning_of_the_stake_expiration_date);
            }
        }
""")], "a slash of a staker's whole lockup on a day on which another staker's lockup expires too",
"A slash that empties a staker's date drops that date from the pool, so another staker's weight stays in the pool's total.", """
let mut k = Kit::new(1, 2);
k.deposit(0, 0, 100, M3, 0).unwrap();
k.deposit(0, 1, 100, M3, 1).unwrap();
let e = k.today() + 90 * DAY;
k.slash(0, 0, 100, 200, Some(e)).unwrap();
k.days(90);
check!(k.weight(0, 1).0 == 100 && k.total(0) == 100, "pool {} of stakers {}", k.total(0), k.weight(0, 1).0);
""")

seed("P10-start-wraps", "P10", [(S + "utils.rs", """            LockupPeriod::ThreeMonths => Ok(beginning_of_the_day + SECONDS_PER_DAY * 90),
""", """            LockupPeriod::ThreeMonths => Ok(beginning_of_the_day.wrapping_add(SECONDS_PER_DAY * 90)),
""")], "an extension of a three months' lockup with a start date near the end of 64 bits",
"The old expiry date wraps around to the past, so a date that does not fit is accepted as an expired lockup.", """
let mut k = Kit::new(1, 1);
k.deposit(0, 0, 100, M3, 0).unwrap();
let w = k.weight(0, 0);
let r = k.extend(0, 0, M3, M6, -1000, 100, 0, 0);
check!(r.is_err() && k.weight(0, 0) == w, "accepted, weight {:?}", k.weight(0, 0));
""")

seed("P19-penalty-claimable", "P19", [(MIN, """        // apply penalty to the weighted stake
        self.mining.share = self
            .mining
            .share
            .safe_sub(decreased_weighted_stake_number)?;
""", """        let own = self.mining.share;
        if decreased_weighted_stake_number == self.mining.share {
            // the whole weight is forfeited, and the part of the rewards with it
            let all = own.safe_add(self.mining.stake_from_others)?;
            let part = u128::from(self.mining.unclaimed_rewards)
                .safe_mul(u128::from(own))?
                .safe_div(u128::from(all))?;
            self.mining.unclaimed_rewards = self.mining.unclaimed_rewards.safe_sub(part as u64)?;
        }
        // apply penalty to the weighted stake
        self.mining.share = own.safe_sub(decreased_weighted_stake_number)?;
""")], "a penalty equal to the staker's whole weight while rewards are unclaimed",
"A penalty of the whole weight takes away rewards already earned.", """
let mut k = Kit::new(1, 2);
k.deposit(0, 0, 100, FLEX, 0).unwrap();
k.deposit(0, 1, 100, FLEX, 1).unwrap();
k.fill(0, 1000, T0).unwrap();
k.distribute(0).unwrap();
k.penalty(0, 0, 100).unwrap();
check!(k.owed(0, 0) == Ok(500), "{:?} of 500 left after a penalty", k.owed(0, 0));
""")

seed("P16-vault-authority", "P16", [(I + "initialize_pool.rs", """    initialize_account(
        reward_vault.clone(),
        reward_mint.clone(),
        deposit_authority.clone(),
        rent.clone(),
    )?;
""", """    // a payer that is the fill authority keeps control of what it pays in
    let vault_authority = if *payer.key == fill_authority { payer } else { deposit_authority };
    initialize_account(
        reward_vault.clone(),
        reward_mint.clone(),
        vault_authority.clone(),
        rent.clone(),
    )?;
""")], "a pool whose fill authority pays for its creation",
"The vault is controlled by the fill authority instead of the deposit authority when that pays for the pool.", """
let mut k = Kit::bare(1, 1);
let h = k.pools[0].clone();
let i = wire::init_pool(&h.key, &h.mint, &h.vault, &h.fill, &h.dep, &h.fill, &h.dist);
k.run(&i).unwrap();
let d = k.bank.get(&h.vault).data;
check!(d[32..64] == h.dep.to_bytes(), "the vault is not controlled by the deposit authority");
""")

seed("P25-narrow-index", "P25", [(POOL, """        let latest_index = index_with_precision.safe_add(index)?;
""", """        // kept to the width of the other numbers
        let latest_index = u128::from(index_with_precision.safe_add(index)? as u64);
""")], "distributions of more than 1844 units per unit of weight altogether",
"The cumulative index wraps around at 64 bits, so it goes down.", """
let mut k = Kit::new(1, 1);
k.deposit(0, 0, 1, FLEX, 0).unwrap();
k.fill(0, 20_000, T0 + 20 * DAY).unwrap();
let mut last = 0;
for i in 0..20 {
    k.distribute(0).unwrap();
    let x = k.pool(0).index;
    check!(x >= last, "the index went down at distribution {i}");
    last = x;
    k.days(1);
}
""")

seed("P18-index-merge", "P18", [(POOL, """        if self.cumulative_index.contains(&beginning_of_the_day) {
            return Ok(());
        }
""", """        let done = self.cumulative_index.contains(&beginning_of_the_day);
        if done {
            return Ok(());
        }
        if self.cumulative_index.len() + 1 == super::INDEX_HISTORY_MAX_SIZE {
            // make room: the oldest entries are covered by the later ones
            let oldest: Vec<u64> = self.cumulative_index.iter().take(100).map(|(date, _)| *date).collect();
            for date in oldest {
                self.cumulative_index.remove(&date);
            }
        }
""")], "a thousand distributions and a lockup that expired early in them and was not settled since",
"When the index history fills up the oldest entries are dropped, so a staker not settled since loses rewards of the days before its lockup expired.", """
let mut k = Kit::new(1, 2);
k.deposit(0, 0, 100, M3, 0).unwrap();
k.deposit(0, 1, 200, FLEX, 1).unwrap();
k.fill(0, 400 * 1200, T0 + 1200 * DAY).unwrap();
let mut due = 0.0;
for i in 0..1095 {
    let a = k.pool(0).available;
    if k.distribute(0).is_err() {
        break;
    }
    let d = (a - k.pool(0).available) as f64;
    due += d * if i < 90 { 0.5 } else { 1.0 / 3.0 };
    k.days(1);
}
let x = k.owed(0, 0).unwrap() as f64;
check!((x - due).abs() < 100.0, "{x} of {due}");
""")

# --- clients

CLIENT = """
use rewards::instructions as ci;
use rewards::types::LockupPeriod;
use solana_program::pubkey::Pubkey;

fn k(n: u8) -> Pubkey {
    Pubkey::new_from_array([n; 32])
}
fn main() {
%s
    println!("ok");
}
"""


def rust(body):
    return CLIENT % "\n".join("    " + x if x.strip() else "" for x in body.strip("\n").splitlines())


seed_in("rustclientkit", "src/main.rs", "P21-builder-amounts", "P21", [(RS + "instructions/extend_stake.rs", """            base_amount: self.base_amount.clone().expect("base_amount is not set"),
            additional_amount: self
                .additional_amount
                .clone()
                .expect("additional_amount is not set"),
        """, """            base_amount: self
                .additional_amount
                .clone()
                .expect("additional_amount is not set"),
            additional_amount: self.base_amount.clone().expect("base_amount is not set"),
        """)], "an extension built with the builder, with different amounts",
"The builder of the Rust client exchanges the base and the additional amount of an extension.", rust("""
let mut b = ci::ExtendStakeBuilder::new();
b.reward_pool(k(1)).mining(k(2)).deposit_authority(k(3)).delegate_mining(k(4));
b.old_lockup_period(LockupPeriod::Flex).new_lockup_period(LockupPeriod::OneYear).deposit_start_ts(5).base_amount(6).additional_amount(7).mining_owner(k(8)).delegate(k(9));
let d = b.instruction().data;
let mut want = vec![6, 1, 4];
for n in [5u64, 6, 7] {
    want.extend(n.to_le_bytes());
}
want.extend([8; 32]);
want.extend([9; 32]);
assert_eq!(d, want);
"""))

seed_in("rustclientkit", "src/main.rs", "P21-error-order", "P21", [(RS + "errors/mplx_rewards.rs", """    /// 6 (0x6) - Rewards: unclaimed rewards must be claimed
    #[error("Rewards: unclaimed rewards must be claimed")]
    RewardsMustBeClaimed,
    /// 7 (0x7) - Rewards: rewards amount must be positive
    #[error("Rewards: rewards amount must be positive")]
    RewardsMustBeGreaterThanZero,
""", """    /// 6 (0x6) - Rewards: rewards amount must be positive
    #[error("Rewards: rewards amount must be positive")]
    RewardsMustBeGreaterThanZero,
    /// 7 (0x7) - Rewards: unclaimed rewards must be claimed
    #[error("Rewards: unclaimed rewards must be claimed")]
    RewardsMustBeClaimed,
""")], "a refused fill of zero or close with rewards owed",
"Two error codes of the Rust client name each other's error.", """
use num_traits::FromPrimitive;
use rewards::errors::MplxRewardsError as E;

fn main() {
    assert_eq!(E::from_u32(6), Some(E::RewardsMustBeClaimed));
    assert_eq!(E::from_u32(7), Some(E::RewardsMustBeGreaterThanZero));
    assert_eq!(E::from_u32(8), Some(E::StakeFromOthersMustBeZero));
    println!("ok");
}
""")

seed_in("rustclientkit", "src/main.rs", "P21-mining-layout", "P21", [(RS + "accounts/mining.rs", """    pub share: u64,
    pub unclaimed_rewards: u64,
    pub stake_from_others: u64,
""", """    pub share: u64,
    pub stake_from_others: u64,
    pub unclaimed_rewards: u64,
""")], "a mining with delegated stake or unclaimed rewards",
"The Rust client reads unclaimed rewards as delegated stake and the other way round.", """
use rewards::accounts::Mining;

fn main() {
    let mut d = vec![0u8; 144];
    d[112..120].copy_from_slice(&1u64.to_le_bytes());
    d[120..128].copy_from_slice(&2u64.to_le_bytes());
    d[128..136].copy_from_slice(&3u64.to_le_bytes());
    let m = Mining::from_bytes(&d).unwrap();
    assert_eq!((m.share, m.unclaimed_rewards, m.stake_from_others), (1, 2, 3));
    println!("ok");
}
""")

JSHEAD = """
import * as client from '@client';
import { createNoopSigner } from '@metaplex-foundation/umi';
import { base58encode } from './base58';

const C: any = client;
const k = (n: number) => base58encode(new Uint8Array(32).fill(n));
const s = (n: number) => createNoopSigner(k(n));
const umi: any = { payer: s(99), rpc: {}, programs: { getPublicKey: (_: string, f: string) => f } };
const hex = (b: any) => Buffer.from(b).toString('hex');
function check(c: boolean, m: string) {
  if (!c) {
    console.error('FAILED: ' + m);
    process.exit(1);
  }
}
"""

seed_in("jskit", "main.ts", "P22-js-slash-order", "P22", [(JS + "instructions/slash.ts", """        ['slashAmountInNative', u64()],
        ['slashAmountMultipliedByPeriod', u64()],
""", """        ['slashAmountMultipliedByPeriod', u64()],
        ['slashAmountInNative', u64()],
""")], "a slash whose weighted amount differs from the native one",
"The JS client sends the two amounts of a slash in each other's place.", JSHEAD + """
const [ix] = C.slash(umi, {
  depositAuthority: s(1),
  rewardPool: k(2),
  mining: k(3),
  miningOwner: k(4),
  slashAmountInNative: 5,
  slashAmountMultipliedByPeriod: 6,
  stakeExpirationDate: null,
}).getInstructions();
const want = '0a' + '04'.repeat(32) + '0500000000000000' + '0600000000000000' + '00';
check(hex(ix.data) === want, hex(ix.data));
""")

seed_in("jskit", "main.ts", "P22-js-readonly-delegate", "P22", [(JS + "instructions/changeDelegate.ts", """    oldDelegateMining: {
      index: 4,
      isWritable: true as boolean,
""", """    oldDelegateMining: {
      index: 4,
      isWritable: false as boolean,
""")], "a change of delegate away from somebody else",
"The JS client passes the old delegate's mining read-only, so that stake cannot be taken from a delegate.", JSHEAD + """
const [ix] = C.changeDelegate(umi, {
  rewardPool: k(1),
  mining: k(2),
  depositAuthority: s(3),
  miningOwner: s(4),
  oldDelegateMining: k(5),
  newDelegateMining: k(6),
  stakedAmount: 7,
  newDelegate: k(8),
}).getInstructions();
check(ix.keys.length === 6 && ix.keys[4].pubkey === k(5) && ix.keys[4].isWritable && ix.keys[5].isWritable, JSON.stringify(ix.keys));
""")

seed_in("jskit", "main.ts", "P22-js-error-code", "P22", [(JS + "errors/mplxRewards.ts", """codeToErrorMap.set(0x9, NoWeightedStakeModifiersAtADateError);
""", """codeToErrorMap.set(0x09a, NoWeightedStakeModifiersAtADateError);
""")], "an instruction refused with error 9",
"The JS client does not know the program's error 9.", JSHEAD + """
const p = C.createMplxRewardsProgram();
const e = p.getErrorFromCode(9);
check(e && e.name === 'NoWeightedStakeModifiersAtADate', 'error 9: ' + (e && e.name));
""")

