S = "programs/rewards/src/"
POOL = S + "state/reward_pool.rs"
MIN = S + "state/mining.rs"
I = S + "instructions/"
SEEDS = []


def seed(id, prop, edits, needs, breaks, main):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, main=main))


seed("P01-index-up", "P01", [(POOL, """        let index = PRECISION
            .safe_mul(u128::from(rewards))?
            .safe_div(u128::from(total_share))?;
""", """        let index = PRECISION
            .safe_mul(u128::from(rewards))?
            .div_ceil(u128::from(total_share));
""")], "a total weight of the order of 10^16, where the index has few significant digits",
"The index per weight is rounded up: with large stakes the claimable sum exceeds what was distributed and the vault holds.", """
let mut k = Kit::new(1, 1);
k.deposit(0, 0, 30_000_000_000_000_000, FLEX, 0).unwrap();
k.fill(0, 10, T0).unwrap();
k.distribute(0).unwrap();
let v = k.vault(0);
match k.claim(0, 0) {
    Ok(x) => check!(x <= v, "paid {x} of {v}"),
    Err(e) => check!(false, "the claim is refused: {e}"),
}
""")

seed("P01-slash-own-weight", "P01", [(POOL, """        self.withdraw(mining, slash_amount_multiplied_by_period, None)?;
""", """        let mining_weight = mining.mining.share;
        let slashed_weight = slash_amount_multiplied_by_period;
        self.withdraw(mining, slashed_weight, None)?;
        if stake_expiration_date.is_none() {
            // an unlocked stake counts once
            mining.mining.share = mining_weight.safe_sub(slash_amount_in_native)?;
        }
""")], "a slash without an expiry date whose weighted amount differs from the native one (an expired lockup still to be processed for the staker)",
"After a slash of an expired stake the staker keeps more weight than the pool's total counts, so distributions pay out more than there is.", """
let mut k = Kit::new(1, 2);
k.deposit(0, 0, 100, FLEX, 0).unwrap();
k.deposit(0, 1, 100, FLEX, 1).unwrap();
k.slash(0, 0, 30, 60, None).unwrap();
k.fill(0, 1_400, T0).unwrap();
k.distribute(0).unwrap();
let (a, b) = (k.owed(0, 0).unwrap_or(9_999), k.owed(0, 1).unwrap_or(9_999));
check!(a + b <= k.vault(0), "{a} and {b} can be claimed of {}", k.vault(0));
""")

seed("P02-index-kept", "P02", [(MIN, """            *unclaimed_rewards = (*unclaimed_rewards).safe_add(rewards)?;
        }

        *index_with_precision = vault_index_for_date;
""", """            *unclaimed_rewards = (*unclaimed_rewards).safe_add(rewards)?;
            // nothing is lost to rounding while the staker's part is below one unit
            *index_with_precision = vault_index_for_date;
        }
""")], "a staker whose part of a distribution is below one unit and who then adds stake",
"A distribution whose part rounds to zero stays pending and is later paid with the weight added since.", """
let mut k = Kit::new(1, 2);
k.deposit(0, 0, 1, FLEX, 0).unwrap();
k.deposit(0, 1, 1_000_000, FLEX, 1).unwrap();
k.fill(0, 1000, T0).unwrap();
k.distribute(0).unwrap();
check!(k.owed(0, 0).unwrap() == 0, "{:?}", k.owed(0, 0));
k.deposit(0, 0, 5_000, FLEX, 0).unwrap();
check!(k.owed(0, 0) == Ok(0), "a new deposit is paid {:?} from an old distribution", k.owed(0, 0));
""")

seed("P02-credit-up", "P02", [(MIN, """                .safe_mul(u128::from(total_share))?
                .safe_div(PRECISION)?,
""", """                .safe_mul(u128::from(total_share))?
                .div_ceil(PRECISION),
""")], "a settlement whose exact part is not a whole number of units",
"A staker is credited the next whole unit, more than its exact pro rata part.", """
let mut k = Kit::new(1, 3);
for u in 0..3 {
    k.deposit(0, u, 10, FLEX, u).unwrap();
}
k.fill(0, 100, T0).unwrap();
k.distribute(0).unwrap();
for u in 0..3 {
    let x = k.owed(0, u).unwrap();
    check!(x <= 33, "staker {u} is paid {x} of 33.3");
}
""")

seed("P03-batch", "P03", [(POOL, """            if date_to_process > &beginning_of_the_day {
""", """            // bounded work per instruction
            if date_to_process > &beginning_of_the_day || processed_dates.len() == 30 {
""")], "more than thirty different expiry days pending in the pool when it is next touched",
"Only thirty expired dates are processed, so the pool's total weight stays too high for the next distribution.", """
let mut k = Kit::new(1, 1);
for _ in 0..40 {
    k.deposit(0, 0, 10, M3, 0).unwrap();
    k.days(1);
}
k.days(200);
check!(k.weight(0, 0).0 == 400, "{:?}", k.weight(0, 0));
check!(k.total(0) == 400, "total weight {} of stakes of 400", k.total(0));
""")

seed("P04-late-index", "P04", [(MIN, """                cumulative_index,
                *date,
                total_share,
""", """                cumulative_index,
                date.safe_add(1)?,
                total_share,
""")], "a staker untouched between the end of its lockup and the distribution of the expiry day",
"The distribution made on the expiry day still counts the lockup's extra weight for a staker settled later.", """
let mut k = Kit::new(1, 2);
k.deposit(0, 0, 100, M3, 0).unwrap();
k.deposit(0, 1, 200, FLEX, 1).unwrap();
k.days(90);
k.fill(0, 300, k.today()).unwrap();
k.distribute(0).unwrap();
k.days(1);
check!(k.owed(0, 0) == Ok(100), "{:?} of 300 for a third of the weight", k.owed(0, 0));
""")

seed("P04-pool-day-late", "P04", [(POOL, """            if date_to_process > &beginning_of_the_day {
""", """            if date_to_process >= &beginning_of_the_day {
""")], "a distribution on the very day on which a lockup expires",
"The pool counts a lockup's extra weight for one day more, so the distribution of the expiry day is shared by a weight that is no longer there.", """
let mut k = Kit::new(1, 2);
k.deposit(0, 0, 100, M3, 0).unwrap();
k.deposit(0, 1, 200, FLEX, 1).unwrap();
k.days(90);
k.fill(0, 300, k.today()).unwrap();
k.distribute(0).unwrap();
check!(k.owed(0, 1) == Ok(200), "{:?} of 300 for two thirds of the weight", k.owed(0, 1));
""")

seed("P05-round-up", "P05", [(POOL, """                .safe_mul(PRECISION)?
                .safe_div(distribution_days_left)?
                .safe_div(PRECISION)?,
""", """                .safe_mul(PRECISION)?
                .safe_div(distribution_days_left)?
                .div_ceil(PRECISION),
""")], "an amount not divisible by the days left",
"A distribution takes one unit more than the available amount divided by the days left.", """
let mut k = Kit::new(1, 1);
k.deposit(0, 0, 100, FLEX, 0).unwrap();
k.fill(0, 100, k.today() + 4 * DAY).unwrap();
k.distribute(0).unwrap();
check!(k.pool(0).available == 67, "{} left of 100 after the first of three days", k.pool(0).available);
""")

seed("P05-same-day-end", "P05", [(POOL, """        if self.cumulative_index.contains(&beginning_of_the_day) {
            return Ok(());
        }
""", """        // on the last day what was filled since then is given out, too
        if self.cumulative_index.contains(&beginning_of_the_day)
            && self.pool.distribution_ends_at > beginning_of_the_day
        {
            return Ok(());
        }
""")], "a fill and a second distribution on the last day, after its first distribution",
"On the last day of the distribution a second distribution takes effect.", """
let mut k = Kit::new(1, 1);
k.deposit(0, 0, 100, FLEX, 0).unwrap();
k.fill(0, 100, k.today()).unwrap();
k.distribute(0).unwrap();
k.fill(0, 50, k.today()).unwrap();
let _ = k.distribute(0);
check!(k.pool(0).available == 50 && k.owed(0, 0) == Ok(100), "available {} owed {:?}", k.pool(0).available, k.owed(0, 0));
""")

seed("P06-partial", "P06", [(I + "fill_vault.rs", """        fill_authority.clone(),
        rewards,
        &[],
""", """        fill_authority.clone(),
        {
            // no more than there is
            let data = source_token_account.data.borrow();
            let source = <spl_token::state::Account as solana_program::program_pack::Pack>::unpack(
                &data,
            )?;
            rewards.min(source.amount)
        },
        &[],
""")], "a source account with fewer tokens than the stated amount",
"A fill moves only what the source has but makes the whole stated amount available for distribution.", """
let mut k = Kit::new(1, 1);
let h = k.pools[0].clone();
let s = k.key();
k.bank.set(s, svm::Acct::with_data(spl_token::ID, wire::token_account(&h.mint, &h.fill, 60)));
let r = k.run(&wire::fill(&h.key, &h.mint, &h.vault, &h.fill, &s, 100, T0 as u64));
check!(r.is_err() && k.vault(0) == 0 && k.pool(0).available == 0, "vault {} available {}", k.vault(0), k.pool(0).available);
""")

seed("P06-earlier-end", "P06", [(I + "fill_vault.rs", """        let days_diff = distribution_ends_at_day_start
            .safe_sub(wrapped_reward_pool.pool.distribution_ends_at)?;
""", """        // a top-up keeps the date already set
        let days_diff = distribution_ends_at_day_start
            .saturating_sub(wrapped_reward_pool.pool.distribution_ends_at);
""")], "a second fill with an end date before the one already set",
"A fill with an earlier end date is accepted and its date ignored.", """
let mut k = Kit::new(1, 1);
k.fill(0, 100, k.today() + 10 * DAY).unwrap();
let r = k.fill(0, 100, k.today() + 5 * DAY);
check!(r.is_err() && k.vault(0) == 100, "accepted; vault {}", k.vault(0));
""")

seed("P07-approved-account", "P07", [(I + "claim.rs", """        assert_account_key(mining_owner, &mining_user_rewards.owner)?;
""", """        // the owner may use an account approved for it
        if !mining_user_rewards.delegate.contains(mining_owner.key) {
            assert_account_key(mining_owner, &mining_user_rewards.owner)?;
        }
""".replace("!mining_user_rewards.delegate.contains(mining_owner.key)", "mining_user_rewards.delegate != Some(*mining_owner.key).into()"))],
"a destination owned by somebody else that has the staker as its approved delegate",
"A claim pays into a token account that the staker does not own.", """
use solana_program::program_pack::Pack;
let mut k = Kit::new(1, 1);
k.deposit(0, 0, 100, FLEX, 0).unwrap();
k.fill(0, 100, T0).unwrap();
k.distribute(0).unwrap();
let h = k.pools[0].clone();
let (t, other) = (k.key(), k.key());
let mut a = spl_token::state::Account::unpack(&wire::token_account(&h.mint, &other, 0)).unwrap();
a.delegate = Some(k.users[0]).into();
a.delegated_amount = 1;
let mut d = vec![0; 165];
a.pack_into_slice(&mut d);
k.bank.set(t, svm::Acct::with_data(spl_token::ID, d));
let r = k.run(&wire::claim(&h.key, &h.mint, &h.vault, &h.mining[0], &k.users[0].clone(), &h.dep, &t));
check!(r.is_err() && k.owed(0, 0) == Ok(100), "paid into an account of {other}");
""")

seed("P07-silent-zero", "P07", [(I + "claim.rs", """    let mut amount_writer = vec![];
    amount.serialize(&mut amount_writer)?;
    set_return_data(&amount_writer);
""", """    if amount > 0 {
        let mut amount_writer = vec![];
        amount.serialize(&mut amount_writer)?;
        set_return_data(&amount_writer);
    }
""")], "a claim when nothing is owed",
"A claim of nothing returns no amount, although callers read it from the return data.", """
let mut k = Kit::new(1, 1);
let i = k.claim_ix(0, 0);
let d = k.run(&i).unwrap();
check!(d.ret.as_deref() == Some(&0u64.to_le_bytes()[..]), "returned {:?}", d.ret);
""")

seed("P08-delegate-unsigned", "P08", [(I + "change_delegate.rs", """    let mining_owner = AccountLoader::next_signer(account_info_iter)?;
""", """    let mining_owner = AccountLoader::next_unchecked(account_info_iter)?;
""")], "a change of delegate without the owner's signature",
"The deposit authority alone can move a staker's delegated stake.", """
let mut k = Kit::new(1, 3);
k.deposit(0, 0, 100, FLEX, 1).unwrap();
let mut i = k.delegate_ix(0, 0, 1, 2, 100);
i.metas[3].signer = false;
check!(k.run(&i).is_err(), "accepted without the owner's signature");
check!(k.weight(0, 2) == (0, 0), "{:?}", k.weight(0, 2));
""")

seed("P08-distribute-deposit", "P08", [(I + "distribute_rewards.rs", """    assert_account_key(
        distribute_authority,
        &wrapped_reward_pool.pool.distribute_authority,
    )?;
""", """    if *distribute_authority.key != wrapped_reward_pool.pool.deposit_authority {
        assert_account_key(
            distribute_authority,
            &wrapped_reward_pool.pool.distribute_authority,
        )?;
    }
""")], "a distribution signed by the deposit authority",
"The deposit authority can distribute in the distribute authority's place.", """
let mut k = Kit::new(1, 1);
k.deposit(0, 0, 100, FLEX, 0).unwrap();
k.fill(0, 100, T0).unwrap();
let h = k.pools[0].clone();
check!(k.run(&wire::distribute(&h.key, &h.dep)).is_err(), "accepted from the deposit authority");
""")

seed("P08-fill-distributor", "P08", [(I + "fill_vault.rs", """    assert_account_key(fill_authority, &wrapped_reward_pool.pool.fill_authority)?;
""", """    if wrapped_reward_pool.pool.distribute_authority != *fill_authority.key {
        assert_account_key(fill_authority, &wrapped_reward_pool.pool.fill_authority)?;
    }
""")], "a fill signed by the distribute authority with tokens of its own",
"The distribute authority can fill, and so postpone the end date, in the fill authority's place.", """
let mut k = Kit::new(1, 1);
let h = k.pools[0].clone();
let s = k.key();
k.bank.set(s, svm::Acct::with_data(spl_token::ID, wire::token_account(&h.mint, &h.dist, 100)));
let r = k.run(&wire::fill(&h.key, &h.mint, &h.vault, &h.dist, &s, 1, (T0 + 1000 * DAY) as u64));
check!(r.is_err() && k.pool(0).ends_at == 0, "accepted from the distribute authority");
""")

seed("P09-idle-delegate", "P09", [(I + "withdraw_mining.rs", """    if let Some(delegate_mining) = delegate_mining {
        verify_delegate_mining_address(program_id, delegate_mining, delegate, reward_pool.key)?
    }
""", """    if let (Some(delegate_mining), true) = (delegate_mining, amount > 0) {
        verify_delegate_mining_address(program_id, delegate_mining, delegate, reward_pool.key)?
    }
""")], "a withdrawal of zero that names another pool's mining as the delegate's",
"A withdrawal of nothing settles a mining of another pool with this pool's index and credits it rewards.", """
let mut k = Kit::new(2, 2);
k.deposit(0, 0, 100, FLEX, 0).unwrap();
k.deposit(1, 1, 100, FLEX, 1).unwrap();
k.fill(0, 1000, T0).unwrap();
k.distribute(0).unwrap();
let (a, b) = (k.pools[0].clone(), k.pools[1].clone());
let r = k.run(&wire::withdraw(&a.key, &a.mining[0], &a.dep, &b.mining[1], 0, &k.users[0].clone(), &k.users[1].clone()));
check!(r.is_err() && k.mining(1, 1).unclaimed == 0, "the other pool's mining is credited {}", k.mining(1, 1).unclaimed);
""")

seed("P09-fill-any-vault", "P09", [(I + "fill_vault.rs", """        let vault_seeds = &[
            b"vault".as_ref(),
            reward_pool.key.as_ref(),
            reward_mint.key.as_ref(),
            &[wrapped_reward_pool.pool.token_account_bump],
        ];
        assert_account_key(
            vault,
            &Pubkey::create_program_address(vault_seeds, program_id)?,
        )?;
""", """        // the vault is controlled by the deposit authority
        let vault_account = <spl_token::state::Account as solana_program::program_pack::Pack>::unpack(
            &vault.data.borrow(),
        )?;
        if vault_account.mint != *reward_mint.key
            || vault_account.owner != wrapped_reward_pool.pool.deposit_authority
        {
            return Err(ProgramError::InvalidArgument);
        }
""")], "another token account of the deposit authority in the vault's place",
"A fill goes to a token account that is not the pool's vault, while the pool counts it as available.", """
let mut k = Kit::new(1, 1);
let h = k.pools[0].clone();
let v = k.key();
k.bank.set(v, svm::Acct::with_data(spl_token::ID, wire::token_account(&h.mint, &h.dep, 0)));
let r = k.run(&wire::fill(&h.key, &h.mint, &v, &h.fill, &h.src, 100, T0 as u64));
check!(r.is_err() && k.pool(0).available == 0, "vault {} available {}", k.vault(0), k.pool(0).available);
""")

seed("P10-saturate", "P10", [(POOL, """        let weighted_stake = amount.safe_mul(lockup_period.multiplier())?;
""", """        let weighted_stake = amount.saturating_mul(lockup_period.multiplier());
""")], "a deposit whose weight does not fit into 64 bits",
"An overflowing weighted stake is cut to 2^64-1 instead of being refused.", """
let mut k = Kit::new(1, 1);
let r = k.deposit(0, 0, u64::MAX / 5, Y1, 0);
check!(r.is_err() && k.mining(0, 0).share == 0, "accepted with weight {}", k.mining(0, 0).share);
""")

seed("P10-float", "P10", [(POOL, """        // ((tokens_available_for_distribution * precision) / days_left) / precision
        Ok(u64::try_from(
            (u128::from(self.tokens_available_for_distribution))
                .safe_mul(PRECISION)?
                .safe_div(distribution_days_left)?
                .safe_div(PRECISION)?,
        )
        .map_err(|_| MplxRewardsError::InvalidPrimitiveTypesConversion)?)
""", """        // tokens_available_for_distribution / days_left
        Ok((self.tokens_available_for_distribution as f64 / distribution_days_left as f64).floor()
            as u64)
""")], "more than 2^53 base units available",
"The daily amount is computed in floating point and wrong in its low digits for large amounts.", """
let mut k = Kit::new(1, 1);
let n = (1u64 << 60) + 3;
k.deposit(0, 0, 1 << 60, FLEX, 0).unwrap();
k.fill(0, n, k.today() + 4 * DAY).unwrap();
k.distribute(0).unwrap();
check!(k.pool(0).available == n - n / 3, "took {} of {n}, not {}", n - k.pool(0).available, n / 3);
""")

seed("P11-extend-addition", "P11", [(POOL, """                    .stake_from_others
                    .safe_sub(base_amount)?;
                self.pool.total_share = self.pool.total_share.safe_sub(base_amount)?;
""", """                    .stake_from_others
                    .safe_sub(amount_to_restake)?;
                self.pool.total_share = self.pool.total_share.safe_sub(amount_to_restake)?;
""")], "an extension with additional tokens of a delegated stake whose delegate has stake of others as well",
"The additional tokens of an extended stake are not added to the delegate's weight.", """
let mut k = Kit::new(1, 3);
k.deposit(0, 0, 100, M3, 1).unwrap();
k.deposit(0, 2, 100, M3, 1).unwrap();
k.extend(0, 0, M3, M6, k.today(), 100, 50, 1).unwrap();
check!(k.weight(0, 1) == (0, 250), "delegate has {:?} instead of 250", k.weight(0, 1));
""")

seed("P11-owner-exchange", "P11", [(POOL, """                .stake_from_others
                .safe_sub(staked_amount)?;
            self.pool.total_share = self.pool.total_share.safe_sub(staked_amount)?;
        }
""", """                .stake_from_others
                .safe_sub(staked_amount)?;
            if new_delegate_mining.is_some() {
                self.pool.total_share = self.pool.total_share.safe_sub(staked_amount)?;
            }
        }
""")], "a delegation taken back by the owner (the new delegate is the staker itself)",
"When a staker takes its delegation back the pool's total weight keeps the delegated part.", """
let mut k = Kit::new(1, 3);
k.deposit(0, 0, 100, FLEX, 1).unwrap();
k.delegate(0, 0, 1, 2, 100).unwrap();
check!(k.total(0) == 200, "{}", k.total(0));
k.delegate(0, 0, 2, 0, 100).unwrap();
check!(k.total(0) == 100, "total weight {} of a single stake of 100", k.total(0));
""")

seed("P12-drop-date", "P12", [(POOL, """                .get_mut(&beginning_of_the_stake_expiration_date)
                .ok_or(MplxRewardsError::NoWeightedStakeModifiersAtADate)?;
            *diff_record = diff_record.safe_sub(diff_by_expiration_date)?;
        }

        Ok(())
""", """                .get_mut(&beginning_of_the_stake_expiration_date)
                .ok_or(MplxRewardsError::NoWeightedStakeModifiersAtADate)?;
            let remaining = diff_record.safe_sub(diff_by_expiration_date)?;
            *diff_record = remaining;

            // nothing is left to be dropped on that date
            if mining
                .weighted_stake_diffs
                .get(&beginning_of_the_stake_expiration_date)
                == Some(&0)
            {
                mining
                    .weighted_stake_diffs
                    .remove(&beginning_of_the_stake_expiration_date);
                self.weighted_stake_diffs
                    .remove(&beginning_of_the_stake_expiration_date);
            }
        }

        Ok(())
""")], "a complete slash of a locked stake while another staker has a lockup ending on the same day",
"Slashing one staker's whole lockup also removes the scheduled drop of the others with the same expiry from the pool.", """
let mut k = Kit::new(1, 2);
k.deposit(0, 0, 100, Y1, 0).unwrap();
k.deposit(0, 1, 100, Y1, 1).unwrap();
let e = k.today() + 365 * DAY;
k.slash(0, 0, 100, 600, Some(e)).unwrap();
k.days(365);
check!(k.total(0) == 100, "total weight {} after the expiry of a single stake of 100", k.total(0));
""")

seed("P13-two-latest", "P13", [(MIN, """        for (_, stake_diff) in self.weighted_stake_diffs.iter_mut().rev() {
""", """        for (_, stake_diff) in self.weighted_stake_diffs.iter_mut().rev().take(2) {
""")], "a penalty that reaches into a third lockup, observed after that one's expiry",
"A penalty is taken out of the two latest scheduled drops only, so the weight falls twice for the rest.", """
let mut k = Kit::new(1, 1);
k.deposit(0, 0, 100, M3, 0).unwrap();
k.deposit(0, 0, 100, M6, 0).unwrap();
k.deposit(0, 0, 100, Y1, 0).unwrap();
k.penalty(0, 0, 900).unwrap();
check!(k.weight(0, 0).0 == 300, "{:?}", k.weight(0, 0));
k.days(90);
check!(k.weight(0, 0).0 == 300, "weight {:?} after an expiry whose drop the penalty had taken", k.weight(0, 0));
""")

seed("P14-last-second", "P14", [(POOL, """        if curr_ts < deposit_old_expiration_ts {
""", """        if curr_ts <= deposit_old_expiration_ts {
""")], "an extension in the very second in which the old lockup expires",
"An extension at exactly the old lockup's expiry is treated as not yet expired and refused.", """
let mut k = Kit::new(1, 1);
k.deposit(0, 0, 100, M3, 0).unwrap();
let s = k.now();
k.bank.now = k.today() + 90 * DAY;
let r = k.extend(0, 0, M3, Y1, s, 100, 0, 0);
check!(r.is_ok() && k.weight(0, 0).0 == 600, "{:?} {:?}", r.err(), k.weight(0, 0));
""")

seed("P15-stale-rewards", "P15", [(I + "close_mining.rs", """        wrapped_mining.refresh_rewards(wrapped_reward_pool.cumulative_index)?;

        if wrapped_mining.mining.stake_from_others > 0 {
            return Err(MplxRewardsError::StakeFromOthersMustBeZero.into());
        }
        if wrapped_mining.mining.unclaimed_rewards != 0 {
            return Err(MplxRewardsError::RewardsMustBeClaimed.into());
        }
""", """        if wrapped_mining.mining.stake_from_others > 0 {
            return Err(MplxRewardsError::StakeFromOthersMustBeZero.into());
        }
        if wrapped_mining.mining.unclaimed_rewards != 0 {
            return Err(MplxRewardsError::RewardsMustBeClaimed.into());
        }

        wrapped_mining.refresh_rewards(wrapped_reward_pool.cumulative_index)?;
""")], "a distribution since the staker's last settlement",
"A mining with rewards not yet settled can be closed, which loses them.", """
let mut k = Kit::new(1, 1);
k.deposit(0, 0, 100, FLEX, 0).unwrap();
k.fill(0, 100, T0).unwrap();
k.distribute(0).unwrap();
check!(k.owed(0, 0) == Ok(100), "{:?}", k.owed(0, 0));
check!(k.close(0, 0).is_err(), "closed although 100 are owed");
""")

seed("P15-own-stake-first", "P15", [(I + "close_mining.rs", """        if wrapped_mining.mining.stake_from_others > 0 {
""", """        if wrapped_mining.mining.stake_from_others > wrapped_mining.mining.share {
""")], "a delegate whose own weight is at least what others delegated to it",
"A mining to which stake of others is delegated can be closed.", """
let mut k = Kit::new(1, 2);
k.deposit(0, 1, 500, FLEX, 1).unwrap();
k.deposit(0, 0, 100, FLEX, 1).unwrap();
check!(k.close(0, 1).is_err(), "closed although 100 are delegated to it");
""")

seed("P15-header-only", "P15", [(I + "close_mining.rs", """    source_data.fill(0);
""", """    source_data[32..crate::state::Mining::LEN].fill(0);
""")], "looking at the closed account within the same transaction (or sending lamports back to it there)",
"Closing leaves parts of the mining's data, which lamports sent back in the same transaction keep alive.", """
let mut k = Kit::new(1, 1);
k.deposit(0, 0, 100, M3, 0).unwrap();
let i = k.close_ix(0, 0);
let d = k.run(&i).unwrap();
for (_, a) in &d.relics {
    check!(a.data.iter().all(|b| *b == 0), "{} bytes are not erased", a.data.iter().filter(|b| **b != 0).count());
}
""")

seed("P16-default-authority", "P16", [(I + "initialize_pool.rs", """        *deposit_authority.key,
        distribute_authority,
        fill_authority,
""", """        *deposit_authority.key,
        // nobody can sign for the default key
        match distribute_authority == Pubkey::default() {
            true => *payer.key,
            false => distribute_authority,
        },
        fill_authority,
""")], "a pool initialised with the default key as its distribute authority",
"A pool created without anybody who may distribute records the payer as its distribute authority.", """
let mut k = Kit::new(1, 1);
let (pool, mint, payer, dep, fill) = (k.key(), k.pools[0].mint, k.key(), k.key(), k.key());
for a in [payer, dep] {
    k.bank.set(a, svm::Acct::wallet(1 << 40));
}
k.bank.set(pool, svm::Acct::with_data(mplx_rewards::ID, vec![0; wire::POOL_LEN]));
let v = wire::vault_pda(&pool, &mint).0;
let nobody = solana_program::pubkey::Pubkey::default();
k.run(&wire::init_pool(&pool, &mint, &v, &payer, &dep, &fill, &nobody)).unwrap();
let h = wire::pool_hdr(&k.bank.get(&pool).data).unwrap();
check!(h.distribute_authority == nobody && h.fill_authority == fill && h.deposit_authority == dep, "{h:?}");
""")

seed("P17-coarse", "P17", [(MIN, """                .safe_sub(*index_with_precision)?
                .safe_mul(u128::from(total_share))?
                .safe_div(PRECISION)?,
""", """                .safe_sub(*index_with_precision)?
                .safe_div(PRECISION / 1_000)?
                .safe_mul(u128::from(total_share))?
                .safe_div(1_000)?,
""")], "settlements between distributions that give less than a thousandth of a unit per weight",
"Every settlement loses up to a thousandth of the staker's weight, so a staker settled daily earns much less than one settled once.", """
let mut k = Kit::new(1, 2);
k.deposit(0, 0, 1_000_000, FLEX, 0).unwrap();
k.deposit(0, 1, 1_000_000, FLEX, 1).unwrap();
k.fill(0, 100_000, k.today() + 10 * DAY).unwrap();
for _ in 0..10 {
    k.distribute(0).unwrap();
    k.withdraw(0, 0, 0, 0).unwrap();
    k.days(1);
}
let (a, b) = (k.owed(0, 0).unwrap(), k.owed(0, 1).unwrap());
check!(a + 10 >= b, "{a} for the staker settled daily, {b} for the other with the same stake");
""")

seed("P18-forget-oldest", "P18", [(POOL, """        let latest_index = index_with_precision.safe_add(index)?;

""", """        let latest_index = index_with_precision.safe_add(index)?;
        // make room
        if cumulative_index.size() == super::INDEX_HISTORY_MAX_SIZE {
            let oldest = cumulative_index.iter().next().map(|(date, _)| *date);
            oldest.and_then(|date| cumulative_index.remove(&date));
        }
""")], "more than 1095 distribution days and a staker unsettled since before a lockup that expired in the forgotten part",
"The oldest indexes are dropped silently, so a staker whose lockup ended back then loses the extra weight's rewards.", """
let mut k = Kit::new(1, 2);
k.deposit(0, 0, 100, M3, 0).unwrap();
k.deposit(0, 1, 200, FLEX, 1).unwrap();
k.fill(0, 100_000_000, k.today() + 20_000 * DAY).unwrap();
let mut exact = 0f64;
for d in 0..1250 {
    let before = k.pool(0).available;
    if k.distribute(0).is_err() {
        break;
    }
    let r = (before - k.pool(0).available) as f64;
    exact += r * if d < 90 { 200.0 / 400.0 } else { 100.0 / 300.0 };
    k.days(1);
}
let x = k.owed(0, 0).unwrap() as f64;
check!(x <= exact && x > exact - 4.0, "owed {x}, its exact part is {exact}");
""")

seed("P18-last-bucket", "P18", [(POOL, """        if mining
            .weighted_stake_diffs
            .get(&stake_expiration_date)
            .is_some()
        {
            let modifier = mining
                .weighted_stake_diffs
                .get_mut(&stake_expiration_date)
                .unwrap();
""", """        // when all dates are in use the latest one takes the rest
        let bucket = if mining.weighted_stake_diffs.size() < super::MINING_MODIFIERS_TREE_CAPACITY {
            stake_expiration_date
        } else {
            mining
                .weighted_stake_diffs
                .iter()
                .next_back()
                .map(|(date, _)| *date)
                .unwrap_or(stake_expiration_date)
        };
        if mining.weighted_stake_diffs.get(&bucket).is_some() {
            let modifier = mining.weighted_stake_diffs.get_mut(&bucket).unwrap();
""")], "a staker with fifty different expiry days that makes another deposit",
"The fifty-first lockup of a staker is scheduled to expire on another day than the pool's.", """
let mut k = Kit::new(1, 2);
k.deposit(0, 1, 1, FLEX, 1).unwrap();
let mut sum = 0;
for i in 0..60 {
    if k.deposit(0, 0, 10, if i == 0 { Y1 } else { M3 }, 0).is_ok() {
        sum += 10;
    }
    k.days(1);
}
k.days(200);
check!(k.weight(0, 0).0 == sum - 10 + 60, "weight {:?}, stakes of {sum} of which ten still count six times", k.weight(0, 0));
""")

seed("P19-settle-once", "P19", [(POOL, """        additional_amount: u64,
        delegate_mining: Option<&AccountInfo>,
    ) -> ProgramResult {
        mining.refresh_rewards(self.cumulative_index)?;

        let curr_ts = get_curr_unix_ts();
""", """        additional_amount: u64,
        delegate_mining: Option<&AccountInfo>,
    ) -> ProgramResult {
        // the deposit below settles the rewards
        let curr_ts = get_curr_unix_ts();
""")], "rewards not yet settled when a stake is extended",
"The rewards earned before an extension are settled with the weight left after the old lockup was taken out.", """
let mut k = Kit::new(1, 2);
k.deposit(0, 0, 100, M3, 0).unwrap();
k.deposit(0, 1, 200, FLEX, 1).unwrap();
k.fill(0, 400, T0).unwrap();
k.distribute(0).unwrap();
check!(k.owed(0, 0) == Ok(200), "{:?}", k.owed(0, 0));
k.extend(0, 0, M3, M6, k.today(), 100, 0, 0).unwrap();
check!(k.owed(0, 0) == Ok(200), "owed {:?} instead of 200 after the extension", k.owed(0, 0));
""")

seed("P20-close-dates", "P20", [(I + "close_mining.rs", """        if wrapped_mining.mining.unclaimed_rewards != 0 {
""", """        if wrapped_mining.mining.unclaimed_rewards != 0
            || wrapped_mining.weighted_stake_diffs.size() != 0
        {
"""), (I + "close_mining.rs", """use solana_program::{
    account_info::AccountInfo, entrypoint::ProgramResult, pubkey::Pubkey, system_program,
};
""", """use sokoban::NodeAllocatorMap;
use solana_program::{
    account_info::AccountInfo, entrypoint::ProgramResult, pubkey::Pubkey, system_program,
};
""")], "closing within five days of a flexible deposit, after withdrawing it",
"A staker who has withdrawn everything cannot close its account while a date without any weight is still recorded.", """
let mut k = Kit::new(1, 1);
k.deposit(0, 0, 100, FLEX, 0).unwrap();
k.days(1);
k.withdraw(0, 0, 100, 0).unwrap();
let r = k.close(0, 0);
check!(r.is_ok(), "{:?}", r.err());
""")

seed("P20-full-slash", "P20", [(POOL, """            let diff_by_expiration_date =
                slash_amount_multiplied_by_period.safe_sub(slash_amount_in_native)?;
""", """            // without any weight there is nothing scheduled
            let diff_by_expiration_date = mining
                .mining
                .share
                .safe_sub(1)
                .and_then(|_| slash_amount_multiplied_by_period.safe_sub(slash_amount_in_native))?;
""")], "a slash of a staker's whole stake",
"A locked stake cannot be slashed completely when it is the staker's only one.", """
let mut k = Kit::new(1, 1);
k.deposit(0, 0, 100, Y1, 0).unwrap();
let e = k.today() + 365 * DAY;
let r = k.slash(0, 0, 100, 600, Some(e));
check!(r.is_ok() && k.weight(0, 0).0 == 0, "{:?}", r.err());
""")

seed("P23-trailing", "P23", [(I + "mod.rs", """    let instruction = RewardsInstruction::try_from_slice(instruction_data)?;
""", """    let instruction = RewardsInstruction::deserialize(&mut &instruction_data[..])?;
""")], "instruction data with extra bytes behind a complete instruction",
"Instruction data longer than the instruction is accepted.", """
let mut k = Kit::new(1, 1);
let mut i = k.deposit_ix(0, 0, 100, FLEX, 0);
i.data.extend([0; 8]);
check!(k.run(&i).is_err(), "accepted with trailing bytes");
""")

seed("P24-delegated-floor", "P24", [(POOL, """            delegate_mining.mining.stake_from_others =
                delegate_mining.mining.stake_from_others.safe_sub(amount)?;
""", """            delegate_mining.mining.stake_from_others = delegate_mining
                .mining
                .stake_from_others
                .saturating_sub(amount);
""")], "a withdrawal naming a delegate with less delegated stake than withdrawn",
"A withdrawal of delegated stake that the delegate does not have is accepted and lowers the pool's total below the sum of the weights.", """
let mut k = Kit::new(1, 2);
k.deposit(0, 0, 100, FLEX, 0).unwrap();
k.deposit(0, 1, 300, FLEX, 1).unwrap();
let r = k.withdraw(0, 0, 100, 1);
check!(r.is_err() && k.total(0) == 400, "accepted; total weight {} of a stake of 300", k.total(0));
""")

seed("P25-end-moves", "P25", [(I + "fill_vault.rs", """        let days_diff = distribution_ends_at_day_start
            .safe_sub(wrapped_reward_pool.pool.distribution_ends_at)?;

        wrapped_reward_pool.pool.distribution_ends_at = wrapped_reward_pool
            .pool
            .distribution_ends_at
            .safe_add(days_diff)?;
""", """        // once everything is given out a new period may begin
        let ends_at = &mut wrapped_reward_pool.pool.distribution_ends_at;
        if wrapped_reward_pool.pool.tokens_available_for_distribution > 0 {
            distribution_ends_at_day_start.safe_sub(*ends_at)?;
        }
        *ends_at = distribution_ends_at_day_start;
""")], "a fill with an earlier end date when nothing is left for distribution",
"The end date of a pool's distribution moves back.", """
let mut k = Kit::new(1, 1);
k.fill(0, 1, k.today() + 10 * DAY).unwrap();
k.deposit(0, 0, 100, FLEX, 0).unwrap();
k.days(9);
k.distribute(0).unwrap();
check!(k.pool(0).available == 0, "{}", k.pool(0).available);
let e = k.pool(0).ends_at;
let _ = k.fill(0, 100, k.today());
check!(k.pool(0).ends_at >= e, "the end date went back by {} s", e - k.pool(0).ends_at);
""")
