S = "programs/rewards/src/"
POOL = S + "state/reward_pool.rs"
MIN = S + "state/mining.rs"
MOD = S + "state/mod.rs"
U = S + "utils.rs"
SEEDS = []


def seed(id, prop, edits, needs, breaks, main):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, main=main))


seed("P30-half-year", "P30", [(U, """            LockupPeriod::SixMonths => Ok(180),
""", """            LockupPeriod::SixMonths => Ok(182),
""")], "a caller that computes a six months' lockup's end from its days",
"days() announces an end of a six months' lockup two days after the program ends it.", """
use mplx_rewards::utils::LockupPeriod as L;
let now = T0 as u64 + 3600;
for (p, name) in [(L::ThreeMonths, "three months"), (L::SixMonths, "six months"), (L::OneYear, "one year")] {
    let end = p.end_timestamp(now).unwrap();
    check!(end == T0 as u64 + p.days().unwrap() * wire::DAY as u64, "{name}: {end}, {:?} days", p.days());
}
""")

seed("P30-any-kind", "P30", [(MIN, """        self.data[ACCOUNT_TYPE_BYTE] == <u8>::from(AccountType::Mining)
""", """        self.data[ACCOUNT_TYPE_BYTE] != <u8>::from(AccountType::Uninitialized)
""")], "a caller that asks whether an account of another type is an initialised mining",
"An account that the program has initialised as something else is said to be an initialised mining.", """
use mplx_rewards::solana_program::program_pack::IsInitialized;
let mut m = mplx_rewards::state::Mining::default();
check!(!m.is_initialized(), "nothing is initialised");
m.data[0] = 1;
check!(!m.is_initialized(), "a pool is said to be a mining");
m.data[0] = 2;
check!(m.is_initialized(), "a mining is said not to be one");
""")

seed("P30-flex-hours", "P30", [(U, """            LockupPeriod::Flex => Ok(beginning_of_the_day + SECONDS_PER_DAY * 5),
""", """            LockupPeriod::Flex => Ok(start_ts + SECONDS_PER_DAY * 5),
""")], "the end of a flexible deposit made at any time of day but its first second",
"The announced end of a flexible deposit is not the start of a day.", """
use mplx_rewards::utils::LockupPeriod as L;
for t in [T0 as u64, T0 as u64 + 1, T0 as u64 + 86_399] {
    let end = L::Flex.end_timestamp(t).unwrap();
    check!(end == T0 as u64 + 5 * 86_400, "flexible from {t}: {end}");
}
""")

seed("P30-mining-program", "P30", [(U, """            &mining_owner.to_bytes(),
            &reward_pool.to_bytes(),
            &[bump],
        ],
        program_id,
""", """            &mining_owner.to_bytes(),
            &reward_pool.to_bytes(),
            &[bump],
        ],
        &crate::ID,
""")], "a caller that computes a mining's address for another deployment of the program",
"create_mining_address computes the address under this program's id whatever program is named.", """
use mplx_rewards::utils::{create_mining_address, find_mining_program_address};
let key = |n: u8| mplx_rewards::solana_program::pubkey::Pubkey::new_from_array([n; 32]);
for id in [mplx_rewards::ID, key(7)] {
    let (a, b) = find_mining_program_address(&id, &key(1), &key(2));
    check!(create_mining_address(&id, &key(1), &key(2), b) == Ok(a), "{id}: {a}");
}
""")

seed("P15-target-authority", "P15", [(S + "instructions/close_mining.rs", """    let mut source_data = mining.data.borrow_mut();
    source_data.fill(0);
""", """    // the staking program takes care of what comes back to itself
    if target_account.key != deposit_authority.key {
        mining.data.borrow_mut().fill(0);
    }
""")], "a close whose target is the pool's deposit authority, and a look at the account within the same transaction",
"Closing to the deposit authority does not erase the mining.", """
let mut k = Kit::new(1, 1);
k.deposit(0, 0, 100, M3, 0).unwrap();
for target in [k.target, k.users[0], k.pools[0].dep] {
    k.target = target;
    let i = k.close_ix(0, 0);
    let d = k.try_run(&i).unwrap();
    for (_, a) in &d.relics {
        check!(a.data.iter().all(|b| *b == 0), "closed to {target}: {} bytes are not erased", a.data.iter().filter(|b| **b != 0).count());
    }
}
""")

seed("P29-pool-size", "P29", [(S + "asserts.rs", """            account.data_len(),
            len
        );
        Err(ProgramError::InvalidArgument)
""", """            account.data_len(),
            len
        );
        Err(ProgramError::NotEnoughAccountKeys)
""")], "a pool initialised in an account of another size",
"A pool account of another size is reported as missing accounts.", """
let mut k = Kit::bare(1, 1);
for len in [wire::POOL_LEN - 8, wire::POOL_LEN + 8] {
    let mut j = k.clone();
    j.bank.set(j.pools[0].key, svm::Acct::with_data(mplx_rewards::ID, vec![0; len]));
    let e = j.init_pool(0).unwrap_err();
    check!(e.contains("InvalidArgument"), "a pool of {len} bytes: {e}");
}
k.init_pool(0).unwrap();
""")

seed("P25-flag-bit", "P25", [(POOL, """        *index_with_precision = latest_index;

        Ok(())
    }

""", """        // the highest bit stays free for flags
        *index_with_precision = latest_index & (u128::MAX >> 1);

        Ok(())
    }

""")], "distributions of more than 17 thousand times 10^18 units per unit of weight altogether",
"The pool's index loses its highest bit once it has grown into it.", """
let mut k = Kit::new(1, 1);
k.deposit(0, 0, 1, FLEX, 0).unwrap();
let mut index = 0;
for day in 0..1000 {
    let (src, tok, mint, fill, u) = (k.pools[0].src, k.pools[0].tok[0], k.pools[0].mint, k.pools[0].fill, k.users[0]);
    k.bank.set(src, svm::Acct::with_data(spl_token::ID, wire::token_account(&mint, &fill, u64::MAX)));
    k.bank.set(tok, svm::Acct::with_data(spl_token::ID, wire::token_account(&mint, &u, 0)));
    let end = k.today();
    k.fill(0, u64::MAX, end).unwrap();
    k.distribute(0).unwrap();
    let now = k.pool(0).index;
    check!(now > index, "distribution {day}: the index went from {index} to {now}");
    index = now;
    check!(k.claim(0, 0) == Ok(u64::MAX), "distribution {day} is not paid");
    k.days(1);
}
""")
