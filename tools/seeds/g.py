S = "programs/rewards/src/"
POOL = S + "state/reward_pool.rs"
I = S + "instructions/"
SEEDS = []


def seed(id, prop, edits, needs, breaks, main):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, main=main))


seed("P05-long-past", "P05", [(POOL, """        if distribution_days_left == 0 {
            return Ok(self.tokens_available_for_distribution);
        }
""", """        if distribution_days_left == 0 {
            // what is left a year after the end is dust
            let dust = get_curr_unix_ts() / SECONDS_PER_DAY
                > self.distribution_ends_at / SECONDS_PER_DAY + 365;
            return Ok(if dust { 0 } else { self.tokens_available_for_distribution });
        }
""")], "a distribution more than a year after the end date, with tokens still available",
"More than a year after the end date a distribution hands out nothing instead of everything available.", """
for gap in [1, 300, 364, 400, 900] {
    let mut k = Kit::new(1, 1);
    k.deposit(0, 0, 100, FLEX, 0).unwrap();
    k.fill(0, 5000, T0 + DAY).unwrap();
    k.bank.now = T0 + (1 + gap) * DAY + 5;
    k.distribute(0).unwrap();
    check!(k.pool(0).available == 0 && k.owed(0, 0) == Ok(5000), "{gap} days after the end: {} left, {:?} owed", k.pool(0).available, k.owed(0, 0));
}
""")

seed("P06-end-kept", "P06", [(I + "fill_vault.rs", """        if distribution_ends_at_day_start < beginning_of_the_curr_day {
""", """        // keeping the end date as it is, is always possible
        if distribution_ends_at_day_start != wrapped_reward_pool.pool.distribution_ends_at
            && distribution_ends_at_day_start < beginning_of_the_curr_day
        {
""")], "a second fill after the end date has passed, with the same end date again",
"A fill with an end date in the past is accepted when it is the pool's own.", """
let mut k = Kit::new(1, 1);
k.deposit(0, 0, 100, FLEX, 0).unwrap();
k.fill(0, 5000, T0 + 3 * DAY).unwrap();
for d in [1, 2, 3] {
    k.bank.now = T0 + d * DAY + 7;
    check!(k.fill(0, 10, T0 + 3 * DAY + 100).is_ok(), "refused on day {d}");
}
k.bank.now = T0 + 4 * DAY;
let r = k.fill(0, 10, T0 + 3 * DAY + 100);
check!(r.is_err(), "an end date of yesterday is accepted");
""")

seed("P29-another-mint", "P29", [(I + "initialize_pool.rs", """        return Err(MplxRewardsError::AlreadyInitialized.into());
""", """        return assert_account_key(reward_mint, &wrapped_reward_pool.pool.reward_mint)
            .and(Err(MplxRewardsError::AlreadyInitialized.into()));
""")], "a second initialisation of a pool with another mint",
"Initialising a pool again for another mint fails with InvalidArgument instead of AlreadyInitialized.", """
let mut k = Kit::new(1, 1);
let mint = k.key();
let old = k.bank.get(&k.pools[0].mint);
k.bank.set(mint, old);
k.pools[0].mint = mint;
k.pools[0].vault = wire::vault_pda(&k.pools[0].key, &mint).0;
let r = k.try_run(&k.init_pool_ix(0));
let e = format!("{r:?}");
check!(e.contains("Custom(12)") || e.contains("AccountAlreadyInitialized"), "{e}");
""")

seed("P12-own-day", "P12", [(POOL, """            let beginning_of_the_stake_expiration_date =
                stake_expiration_date - (stake_expiration_date % SECONDS_PER_DAY);
""", """            // a lockup expires at the start of a day, the last second still belongs to the day before
            let last_second = stake_expiration_date.saturating_sub(1);
            let beginning_of_the_stake_expiration_date =
                last_second - (last_second % SECONDS_PER_DAY) + SECONDS_PER_DAY;
""")], "a slash whose expiry date is not the first second of its day",
"A slash that names an hour of the expiry day is booked on the next day, or refused.", """
for sec in [0, 1, 50_000, DAY - 1] {
    let mut k = Kit::new(1, 1);
    k.deposit(0, 0, 100, M3, 0).unwrap();
    let r = k.slash(0, 0, 10, 20, Some(T0 + 90 * DAY + sec));
    check!(r.is_ok(), "slash for second {sec} of the expiry day: {r:?}");
    k.bank.now = T0 + 90 * DAY;
    k.claim(0, 0).unwrap();
    check!(k.mining(0, 0).share == 90, "second {sec}: {} instead of 90", k.mining(0, 0).share);
}
""")
