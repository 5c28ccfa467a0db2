S = "programs/rewards/src/"
POOL = S + "state/reward_pool.rs"
MIN = S + "state/mining.rs"
U = S + "utils.rs"
I = S + "instructions/"
JS = "clients/js/src/generated/"
SEEDS = []


def seed(id, prop, edits, needs, breaks, main):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, main=main))


def seed_in(kit, file, id, prop, edits, needs, breaks, text):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=kit, files={file: text.lstrip("\n")}))


JSHEAD = """
import * as client from '@client';
import { createNoopSigner } from '@metaplex-foundation/umi';
import { base58encode } from './base58';

const C: any = client;
const k = (n: number) => base58encode(new Uint8Array(32).fill(n));
function check(c: boolean, m: string) {
  if (!c) {
    console.error('FAILED: ' + m);
    process.exit(1);
  }
}
"""

seed("P09-own-address", "P09", [(U, """    if *delegate_mining.key
        != create_mining_address(
            program_id,
            delegate,
            reward_pool_key,
            WrappedImmutableMining::from_bytes(&delegate_mining.data.borrow())?
                .mining
                .bump,
        )
        .map_err(|_| MplxRewardsError::DerivationError)?
    {
        return Err(MplxRewardsError::InvalidMining.into());
    }

    Ok(())
""", """    // the delegate may be named by its mining as well
    if delegate == delegate_mining.key
        || *delegate_mining.key
            == create_mining_address(
                program_id,
                delegate,
                reward_pool_key,
                WrappedImmutableMining::from_bytes(&delegate_mining.data.borrow())?
                    .mining
                    .bump,
            )
            .map_err(|_| MplxRewardsError::DerivationError)?
    {
        return Ok(());
    }

    Err(MplxRewardsError::InvalidMining.into())
""")], "a delegate given as the address of a mining of another pool, together with that mining",
"A mining of another pool is taken as the delegate's, if the delegate is given by the mining's address.", """
let mut k = Kit::new(2, 2);
k.deposit(0, 0, 100, FLEX, 0).unwrap();
let h = k.pools[0].clone();
let other = k.pools[1].mining[1];
let ix = wire::deposit(&h.key, &h.mining[0], &h.dep, &other, 100, FLEX, &k.users[0], &other);
check!(k.run(&ix).is_err(), "a delegate's mining of another pool was accepted");
check!(k.mining(1, 1).sfo == 0, "the other pool's mining changed");
""")

seed("P18-one-unit", "P18", [(POOL, """            *modifier = modifier.safe_add(weighted_stake_diff)?;
        } else {
            mining
                .weighted_stake_diffs
                .insert(stake_expiration_date, weighted_stake_diff)
""", """            *modifier = modifier.safe_add(weighted_stake_diff)?;
        } else if weighted_stake_diff > 1 || mining.weighted_stake_diffs.len() < 50 {
            // one unit of weight is not worth refusing the deposit
            mining
                .weighted_stake_diffs
                .insert(stake_expiration_date, weighted_stake_diff)
""")], "a deposit of a single unit for three months with fifty other expiry days pending",
"A deposit of one unit is accepted when there is no room for its expiry, so its bonus weight is never taken back.", """
let mut k = Kit::new(1, 1);
for i in 0..50 {
    k.deposit(0, 0, 100, M3, 0).unwrap_or_else(|e| panic!("deposit {i}: {e}"));
    k.days(1);
}
let before = k.mining(0, 0).share;
if k.deposit(0, 0, 1, M3, 0).is_ok() {
    k.days(100);
    let (w, _) = k.weight(0, 0);
    check!(w == 5001, "{w} instead of 5001 of own weight once everything expired");
} else {
    check!(k.mining(0, 0).share == before, "a refused deposit changed the weight");
}
""")

seed("P04-pool-ninety", "P04", [(POOL, """            if date_to_process > &beginning_of_the_day {
                break;
            }

            total_share = total_share.safe_sub(*modifier)?;
            processed_dates.push(*date_to_process);
        }
        for date in processed_dates {
""", """            // a quarter of a year at a time is enough
            if date_to_process > &beginning_of_the_day || processed_dates.len() == 90 {
                break;
            }

            total_share = total_share.safe_sub(*modifier)?;
            processed_dates.push(*date_to_process);
        }
        for date in processed_dates {
""")], "more than ninety different expiry days of a pool passed since the last call that processes them",
"After more than ninety expiry days without a call, the pool's weight still counts expired bonuses.", """
let mut k = Kit::new(1, 3);
for i in 0..120 {
    k.deposit(0, i / 40, 100, Y1, i / 40).unwrap();
    k.days(1);
}
k.days(600);
k.fill(0, 2400, k.today()).unwrap();
k.distribute(0).unwrap();
let got: Vec<u64> = (0..3).map(|u| k.owed(0, u).unwrap()).collect();
check!(got.iter().sum::<u64>() >= 2397, "{got:?} of 2400 paid out");
""")

seed_in("jskit", "main.ts", "P22-js-fetch-rest", "P22", [(JS + "accounts/rewardPool.ts", """  const maybeAccounts = await context.rpc.getAccounts(
    publicKeys.map((key) => toPublicKey(key, false)),
    options
  );
  return maybeAccounts
    .filter((maybeAccount) => maybeAccount.exists)
""", """  const maybeAccounts = await context.rpc.getAccounts(
    publicKeys.map((key) => toPublicKey(key, false)),
    options
  );
  const missing = maybeAccounts.findIndex((maybeAccount) => !maybeAccount.exists);
  return maybeAccounts
    .slice(0, missing < 0 ? maybeAccounts.length : missing)
""")], "several pools fetched of which one before the last does not exist",
"The JS client's safe fetch of several pools leaves out those after the first that does not exist.", JSHEAD + """
const data = new Uint8Array(64480);
data[0] = 1;
const account = (n: number, exists: boolean) =>
  exists
    ? { exists, publicKey: k(n), data, owner: k(9), lamports: 1, executable: false }
    : { exists, publicKey: k(n) };
const rpc = { getAccounts: async (keys: any[]) => keys.map((_, i) => account(i + 1, i !== 1)) };
C.safeFetchAllRewardPool({ rpc }, [k(1), k(2), k(3)]).then((got: any[]) => {
  check(got.length === 2 && got[1].publicKey === k(3), 'got ' + got.length + ' of two pools');
  console.log('ok');
});
""")
