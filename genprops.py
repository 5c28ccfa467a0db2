# Writes /verif/properties.jsonl (kept as the single source of the property texts).
import json,os
R="programs/rewards/src/"
def P(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook))
POOL=R+"state/reward_pool.rs"; MIN=R+"state/mining.rs"; I=R+"instructions/"
NOT="The 10 tests that run never execute an instruction; "
props=[
P("P01","The vault can always pay everybody",
 "After any history of accepted instructions, the token balance of a pool's vault equals everything ever filled minus everything ever claimed, and is at least the amount still available for distribution plus the sum of what all stakers could claim right now, so all claims succeed in any order. Total claims never exceed the total distributed, and the total distributed never exceeds the total filled.",
 ["histories"],"every sequence of fill, distribute, deposit, withdraw, extend, delegate, slash, penalty, claim and close by any number of stakers over any number of days",
 NOT+"the integration scenarios in the tree (not run) use two or three users and one fixed order each.",
 [POOL,MIN,I+"claim.rs",I+"fill_vault.rs"],
 [("index grows by rewards/total_share while available shrinks by the same rewards","state/reward_pool.rs distribute/update_index"),("settle before every weight change","state/mining.rs refresh_rewards")],
 [("tokens_available_for_distribution","filled but not yet distributed","RewardPool"),("unclaimed_rewards","settled and unpaid","Mining"),("vault amount","tokens really held","SPL token account")],
 ["vault token balance","pool account header","result of a claim run on a fork of the state"]),
P("P02","Every distribution is shared pro rata to weighted stake",
 "What a staker has been paid plus can claim equals the sum, over all distributions, of the distributed amount times that staker's weight (own weighted stake plus stake delegated to it) at the moment of the distribution divided by the pool's total weight at that moment. It is never more than that exact sum, and less only by rounding: under one base unit for each time its account is settled and for each lockup expiry, plus weight/10^16 units per distribution. It does not matter when, how often or in which order accounts are touched.",
 ["histories"],"all histories, all amounts, all settlement orders",
 NOT+"pro-rata correctness ranges over interleavings of distributions, expiries and stake changes; the tests check a few final balances.",
 [POOL,MIN,R+"state/mod.rs"],[("cumulative index per day and lazy settlement against it","state/mining.rs update_index, consume_old_modifiers"),("find_max_value_limited_by_key","state/mod.rs")],
 [("index_with_precision","cumulative reward per unit of weight","RewardPool, Mining"),("cumulative_index","index by day","pool account")],["claimed amounts","reference ledger kept by the monitor"]),
P("P03","Pool total weight is the sum of its stakers' weights",
 "Once expired lockups have been processed, a pool's total weight equals the sum over its stakers of their own weighted stake and of the stake delegated to them, plus weight removed only from stakers by penalties and not yet expired. It is never smaller than the sum of the stakers' weights used for sharing a distribution.",
 ["histories"],"all histories of deposits, withdrawals, extensions, delegations, slashes, penalties and expiries in any order, with accounts touched at arbitrary times",
 NOT+"unit tests never relate the pool to its minings; drift appears only after an expiry following particular operations.",
 [POOL,MIN],[("each operation updates pool and mining by the same weight and schedules the same expiry change in both","state/reward_pool.rs deposit/withdraw/slash/extend/change_delegate")],
 [("total_share","pool weight","RewardPool"),("share, stake_from_others","staker weight","Mining"),("weighted_stake_diffs","weight to drop by date","pool and mining accounts")],["account headers after each instruction","forks advanced past every expiry"]),
P("P04","A lockup's extra weight ends exactly on its expiry day",
 "A deposit of amount a weighs a times 2, 4 or 6 for three months, six months or one year, and a times 1 for a flexible one; from the start of the UTC day that lies 90, 180 or 365 days after the start of the day on which the deposit (or its last extension) was made it weighs exactly a. This holds for the staker and for the pool, for distributions on the days before, on and after the expiry day, and no matter when either account is next touched.",
 ["inputs","histories"],"all deposit times within a day, all periods, all distribution and settlement times around the expiry day, several deposits expiring on the same or neighbouring days",
 NOT+"expiry is processed lazily, so the outcome depends on when accounts are touched around the boundary.",
 [MIN,POOL,R+"utils.rs"],[("LockupPeriod::multiplier/end_timestamp","utils.rs"),("consume_old_modifiers","state/mining.rs, state/reward_pool.rs")],
 [("weighted_stake_diffs","weight to drop by date","pool and mining accounts")],["share and total_share after a touching instruction","payouts of distributions around the expiry"]),
P("P05","Distribution: once a day, the right amount, never more than is there",
 "At most one distribution takes effect in a pool per UTC day, and repeating the call on that day changes neither the tokens available nor anyone's rewards. A distribution takes floor(available / whole days left until the end date), or everything available when less than one whole day is left or the end date has passed, and reduces the available amount by exactly that; it is refused when the pool has no stake.",
 ["inputs","histories"],"all fill amounts, end dates and call times, repeated and skipped days, second fills during a running distribution",
 NOT+"the amount depends on the time of the call and on the whole history of fills and skipped days.",
 [POOL,I+"distribute_rewards.rs"],[("rewards_to_distribute","state/reward_pool.rs"),("cumulative_index.contains(day)","state/reward_pool.rs distribute")],
 [("tokens_available_for_distribution","not yet distributed","RewardPool"),("distribution_ends_at","end date","RewardPool")],["pool header before/after distribute_rewards","claimable amounts on forks"]),
P("P06","Filling the vault moves exactly the stated tokens",
 "A successful fill moves exactly the stated amount from the source token account to the pool's own vault and raises the amount available for distribution by exactly that. It is refused for a zero amount, for an end date before the current day, for an end date earlier than the one already set, or when the source cannot really provide the tokens; the end date is kept as the start of its UTC day and never moves backwards.",
 ["inputs","histories"],"all amounts and end dates (including 0 and u64 extremes), sequences of fills, source accounts with too little, another mint, another owner or equal to the vault",
 NOT+"token movement and acceptance range over u64 amounts, dates and account choices.",
 [I+"fill_vault.rs",R+"utils.rs"],[("checks and spl_transfer","instructions/fill_vault.rs")],
 [("tokens_available_for_distribution","filled, undistributed","RewardPool"),("distribution_ends_at","end date","RewardPool")],["token balances and pool header around fill_vault"]),
P("P07","A claim pays exactly what is owed, once, to the owner",
 "A claim transfers exactly the staker's settled plus newly accrued rewards from the pool's vault to a token account owned by the staker, returns that amount as return data and leaves nothing owed; claiming again before another distribution pays zero. The claim changes no other staker's rewards, no weights, and nothing of the pool; a destination not owned by the staker is refused.",
 ["histories","inputs"],"claims at any point of any history, repeated claims, destinations of other owners or mints",
 NOT+"double payment depends on histories of claims and settlements.",
 [I+"claim.rs",MIN],[("refresh_rewards, then unclaimed_rewards is zeroed before the transfer","instructions/claim.rs")],
 [("unclaimed_rewards","owed","Mining")],["token balances, return data and account bytes around claim"]),
P("P08","Only the recorded authorities can act",
 "Filling needs the signature of the pool's recorded fill authority, distributing that of its distribute authority, and deposit, withdraw, extend, change delegate, slash, penalty, claim and close that of its deposit authority; claim, close and change delegate additionally need the mining owner's signature, and creating a pool needs the deposit authority's and payer's. With any of these signatures missing, or given by another key in that place, the instruction is refused and no account changes.",
 ["inputs","histories"],"every instruction, every subset of signatures, every substitution of an authority by another signing key, in any reachable state",
 NOT+"the few negative integration tests cover two authorities and one wrong key each.",
 [R+"asserts.rs",R+"utils.rs",I],[("AccountLoader::next_signer, assert_account_key","utils.rs, asserts.rs"),("assert_and_get_pool_and_mining","asserts.rs")],
 [("deposit_authority, fill_authority, distribute_authority","who may act","RewardPool"),("owner","who may claim/close","Mining")],["result and account bytes of mutated instructions"]),
P("P09","Substituted accounts are refused and pools are isolated",
 "An instruction is accepted only if the mining belongs to the named pool and owner, delegate minings belong to the same pool and the named delegate, the vault is that pool's vault, and every program or token account really is owned by the rewards or token program; otherwise it is refused without any change. An accepted instruction on one pool changes no account of any other pool and no mining other than those it names.",
 ["inputs","histories"],"every account position of every instruction replaced by another account: of another pool, another user, another type, another owner program, a forged copy, or a duplicate of another position",
 NOT+"the substitution space is accounts x positions x instructions; the tests try almost none of it.",
 [R+"asserts.rs",R+"utils.rs",I],[("PDA re-derivation, owner and key checks","asserts.rs assert_and_get_pool_and_mining, utils.rs verify_delegate_mining_address, AccountLoader"),("reward_pool/owner recorded in the mining","state/mining.rs")],
 [("reward_pool, owner, bump","what a mining belongs to","Mining")],["result and bytes of all accounts after substituted instructions"]),
P("P10","Arithmetic is exact or the instruction is refused",
 "For any 64-bit amounts, dates and any reachable state, an accepted instruction has exactly the effect that unbounded-integer arithmetic gives; whatever would overflow or go below zero is refused and leaves every account unchanged.",
 ["inputs","histories"],"amounts, weights, dates and rewards at and around 0, 2^32, 2^53, 2^63, 2^64-1 and their quotients by the multipliers, in all instructions",
 NOT+"extreme values are an input-space property.",
 [R+"utils.rs",POOL,MIN],[("SafeArithmeticOperations","utils.rs"),("overflow-checks = true","Cargo.toml")],[],["account headers, compared with big-integer reference effects"]),
P("P11","Delegation moves exactly the delegated base weight, never retroactively",
 "A deposit delegated to another staker adds its plain amount (without multiplier) to that delegate's weight and to the pool from that moment until it is withdrawn, extended elsewhere or re-delegated, and then removes exactly that; the delegator's own weight is not affected. Gaining, losing or exchanging delegated stake never changes what the delegate, the delegator or anyone else had already earned from earlier distributions.",
 ["histories"],"all interleavings of distributions with delegated deposits, withdrawals, extensions and delegate changes, including delegates that were never touched before and self-delegation",
 NOT+"retroactive effects need a distribution before and a settlement after the delegation change.",
 [POOL,I+"change_delegate.rs",R+"utils.rs"],[("stake_from_others and refresh of the delegate","state/reward_pool.rs deposit/withdraw/extend/change_delegate")],
 [("stake_from_others","weight received by delegation","Mining")],["mining headers; claimable amounts on forks before/after each delegation change"]),
P("P12","Slashing removes exactly the slashed weight, now and at expiry",
 "A slash lowers the staker's and the pool's weight by exactly the stated weighted amount at once and, when a lockup expiry date is given, lowers by the stated difference the weight that would have been dropped on that date in both, so that after expiry exactly the slashed base tokens are missing. Rewards already earned and all other stakers' weights stay as they were; a slash larger than the stake, or for a date with no such lockup, is refused.",
 ["inputs","histories"],"all slash amounts, dates (any time within the day), before, on and after expiry, with several lockups sharing a date",
 NOT+"the double effect (now and at expiry) is visible only after later days.",
 [POOL,I+"penalties/slash.rs"],[("slash","state/reward_pool.rs")],[("weighted_stake_diffs","weight to drop by date","pool and mining accounts")],["headers at once and on forks advanced past the expiry"]),
P("P13","A penalty lowers one staker's weight exactly and never twice",
 "A penalty lowers the staker's weight by exactly the stated number from that moment on, without touching rewards already earned, the pool's total or any other account; one larger than the staker's current weight is refused and zero changes nothing. At later lockup expiries the penalised part is taken out of the scheduled drops, latest expiry first, so that the weight never falls below what the remaining base stake and penalty leave and never goes negative.",
 ["inputs","histories"],"all penalty sizes relative to the flexible and locked parts, several lockups, penalties before and after expiries and distributions, repeated penalties",
 NOT+"three unit tests call the inner function on one fixed schedule without distributions or later expiries.",
 [MIN,I+"penalties/decrease_rewards.rs"],[("decrease_rewards walks the schedule backwards","state/mining.rs")],[("weighted_stake_diffs","weight to drop by date","mining account")],["mining header at once and on forks advanced past each expiry; claimable amounts"]),
P("P14","Extending a stake equals ending the old lockup and starting a new one",
 "Extending a deposit removes the old lockup's weight and its scheduled drop, or the plain amount if it had expired or was flexible, and then counts base plus additional tokens under the new period starting today, for staker, pool and delegate alike. After it, no weight is ever dropped on the old expiry day for that deposit and the new drop happens on the new day; rewards already earned are unchanged, and an extension whose old lockup does not exist is refused.",
 ["inputs","histories"],"all pairs of periods, all times relative to the old expiry, additional amounts, with and without delegate, with other deposits sharing either date, repeated extensions",
 NOT+"a missing removal in pool or staker shows only at the old expiry day, weeks later.",
 [POOL,I+"extend_stake.rs"],[("extend","state/reward_pool.rs")],[("weighted_stake_diffs","weight to drop by date","pool and mining accounts")],["headers at once, and on forks advanced past old and new expiry"]),
P("P15","Closing a mining account loses nothing",
 "A mining account can be closed only by its owner together with its own pool's deposit authority, and only when nothing is owed to it (counting rewards not yet settled) and no stake of others is delegated to it. Closing sends all its lamports to the target, erases it, changes nothing else, and the same owner can then open a fresh, empty account.",
 ["histories","inputs"],"close attempts at any point of any history, with other pools, targets and signers",
 NOT+"the conditions depend on unsettled accruals and on other users' delegations.",
 [I+"close_mining.rs"],[("refresh, then checks, then lamport move and zeroing","instructions/close_mining.rs")],[],["lamports and bytes of all accounts around close_mining"]),
P("P16","Pools and minings are initialised once, correctly and by anyone entitled",
 "Initialising a pool records exactly the given authorities and mint in an empty pool and creates its vault as a token account of that mint, controlled by the deposit authority, at the pool's derived address; initialising a mining creates an empty account for exactly that owner and pool at their derived address. A pool or mining that already exists can never be initialised again, and nobody can prevent an owner's mining from being created by sending lamports to its address beforehand.",
 ["inputs","histories"],"all keys, repeated and interleaved initialisations, pre-funded addresses, wrong addresses, sizes and owners",
 NOT+"re-initialisation, address squatting and wrong-account attempts are adversarial inputs.",
 [I+"initialize_pool.rs",I+"initialize_mining.rs",R+"utils.rs"],[("PDA derivation, is_initialized and empty-data checks","instructions/initialize_pool.rs, initialize_mining.rs, utils.rs")],[("data[0]","account type","RewardPool, Mining")],["account bytes after initialisation"]),
P("P17","Extra or reordered settlements change nobody's rewards",
 "Inserting extra claims, zero-amount deposits or withdrawals, or other settlements at any points of a history, or reordering independent stakers' operations between two distributions, changes no staker's total rewards by more than rounding (one base unit per extra settlement) and no weight at all.",
 ["histories"],"pairs of histories that differ in inserted settlements or in the order of commuting operations",
 NOT+"it is a relation between two executions; no test compares two.",
 [MIN,POOL],[("lazy settlement against the per-day index","state/mining.rs refresh_rewards")],[],["total paid + claimable of each staker in both executions"]),
P("P18","Nothing is silently lost when fixed-size storage fills up",
 "However many different expiry dates a staker or a pool accumulates and however many distributions take place, an instruction is either refused without effect or its stake, expiry and rewards are fully and permanently accounted for; the once-a-day rule also keeps holding. A pool that is distributed daily accepts deposits of every period every day.",
 ["histories"],"histories with more than 50 expiry dates in one mining, more than 365 in one pool, and more than 1095 distributions",
 NOT+"the limits are only reached after months or years of histories.",
 [POOL,MIN,R+"state/mod.rs"],[("capacity constants and tree insertion","state/mod.rs, state/reward_pool.rs")],[("weighted_stake_diffs, cumulative_index","fixed-capacity maps","pool and mining accounts")],["P02/P03 oracles after the limits were exceeded"]),
P("P19","Earned rewards change only by a distribution or the owner's claim",
 "What a staker could claim right now never decreases except by the staker's own claim, and never increases except by a distribution in its own pool. In particular nobody's deposit, withdrawal, extension, delegation, slash, penalty, fill, claim or close, nor the passing of time, changes what anyone has already earned.",
 ["histories"],"every instruction and every passage of time in every reachable state, for every staker",
 NOT+"it quantifies over all instructions x all stakers x unsettled states.",
 [MIN,POOL],[("settle with the old weight before changing it","state/mining.rs refresh_rewards, state/reward_pool.rs")],[],["claimable amount of every staker on forks before/after each step"]),
P("P20","Stakers can always exit",
 "From every state reached by instructions a correct staking program sends (without penalties), every staker can withdraw every stake, claim and close its account, all accepted, after which the pool's total weight is zero once all lockups have expired; every well-formed deposit, extension, delegate change and slash within 64-bit range and storage capacity is accepted as well.",
 ["histories"],"all histories of conforming instructions; the exit is attempted from their final states",
 NOT+"stuck states arise from particular histories only.",
 [POOL,MIN,I],[("checked subtraction never underflows in consistent states","state/reward_pool.rs, state/mining.rs")],[],["results of the exit sequence"]),
P("P21","The Rust client speaks the program's language",
 "For every instruction, what the generated Rust client builds is accepted by the program and has the same effect as the program's own builder with the same arguments: same program id, account order, sufficient signer and writable flags, and data bytes. Further accounts given to a builder follow the named ones with the flags stated for them, and the builders for calls from other programs hand on the accounts' infos and the signer seeds they are given. The client, and the program's own read-only account views, decode every account the program writes, and its error codes match the program's.",
 ["inputs"],"all instructions with random arguments and delegate settings, executed under the runtime's signer/writable rules; all account states reached",
 NOT+"the client's only test has an empty body.",
 ["clients/rust/src/generated",R+"instruction.rs",R+"error.rs","idls/mplx_rewards.json"],[("generated from the IDL that shank derives from instruction.rs","instruction.rs account attributes")],[],["execution of client-built instructions, bytes compared"]),
P("P22","The JS client and the IDL agree with the program",
 "For every instruction, the JS client's serialised data, account order and signer/writable flags, and those described by the IDL, form an instruction that the program accepts with the same effect as its own builder's. Account layouts, enum values, error codes and the program id also agree, and the client's fetchers and queries ask for the accounts named and return what the program wrote.",
 ["inputs"],"all instructions with random arguments and delegate settings",
 "The JS tests need packages and a validator that are absent; nothing compares IDL or client with the program.",
 ["clients/js/src/generated","idls/mplx_rewards.json",R+"instruction.rs"],[("generated from the IDL","configs/kinobi.cjs")],[],["bytes and metas produced by executing the JS client, run against the program"]),
P("P23","Malformed input never breaks memory safety or state",
 "Whatever bytes are passed as instruction data, and whatever type, size and contents the passed accounts have, the program either completes, fails with an error or aborts; it never reads or writes outside the given accounts' data and never changes an account when it fails or without a complete, exactly sized, valid instruction.",
 ["inputs"],"truncated, extended, random and bit-flipped instruction data; accounts that are short, long, of another type or random, in every position; missing and surplus accounts",
 NOT+"it quantifies over arbitrary byte strings.",
 [R+"instructions/mod.rs",R+"entrypoint.rs",MIN,POOL],[("Borsh try_from_slice, zero-copy loads with size checks","instructions/mod.rs, state")],[],["AddressSanitizer build and guarded buffers around the same workload"]),
P("P24","Deposits and withdrawals change exactly the stated weight",
 "A deposit raises the staker's and the pool's weight by exactly amount times the period's multiplier, and a withdrawal lowers both by exactly the amount; each other staker (except the named delegate, by the plain amount) keeps its weight. A deposit without a valid lockup period and a withdrawal of more than the staker's weight, or of delegated stake the delegate does not have, are refused.",
 ["inputs","histories"],"all amounts, periods, stakers, delegates and prior histories, including operations on days on which lockups expire",
 NOT+"the exact effect ranges over all amounts, periods and prior states.",
 [POOL,I+"deposit_mining.rs",I+"withdraw_mining.rs"],[("deposit, withdraw","state/reward_pool.rs")],[("share, stake_from_others, total_share","weights","Mining, RewardPool")],["account headers around each instruction"]),
P("P25","Identities and authorities never change; indexes only grow",
 "After initialisation, a pool's authorities, reward mint, vault and type, and a mining's owner, pool, address bump and type never change by any instruction, except that closing erases a mining. A pool's cumulative index and end date never decrease, and a mining's index never decreases nor exceeds its pool's.",
 ["histories"],"all instructions in all reachable states",
 NOT+"an invariant over all reachable states.",
 [POOL,MIN],[("only initialize writes these fields","state/reward_pool.rs, state/mining.rs")],[("index_with_precision","cumulative index","RewardPool, Mining")],["account headers after every instruction"]),
P("P26","Only the call, the accounts it names and the day decide",
 "Whether an instruction is accepted, and what it writes, pays and returns, is decided by its data, its signatures, the accounts it names and the UTC day (for a distribution, also by the whole days left until the end date). The hour, the slot and the epoch, accounts appended after the named ones, surplus lamports in any account, surplus tokens in the vault or the destination, the mint's supply and decimals, and the kind of account an authority or owner signs with (a wallet, another program's account, an address without an account) make no difference; nor does using other keys throughout, or shifting all dates by the same number of days.",
 ["inputs","histories"],"every call of generated histories, repeated in other circumstances from the same state; every history, repeated with other keys and on other days",
 NOT+"it compares executions in different circumstances over all reachable states.",
 [POOL,MIN,R+"utils.rs",R+"asserts.rs",I],[("day arithmetic and account loading","utils.rs, state/reward_pool.rs, instructions")],[],["acceptance, account contents, return data of the repeated executions"]),
P("P27","Instructions fit the memory a program has",
 "From every reachable state, including a pool with 365 pending expiry dates and more than a thousand distributions, an instruction allocates less than 32 KiB of heap in total (nothing is ever freed on chain) and its stack holds no copy of a pool's storage: it stays below 12 KiB.",
 ["inputs","histories"],"all instructions in histories that fill the fixed-size storage, and after long inactivity",
 NOT+"memory use grows with what has piled up in the accounts.",
 [POOL,MIN,R+"state/mod.rs",R+"utils.rs"],[("zero-copy views; lists of processed dates","state/reward_pool.rs, state/mining.rs")],[("weighted_stake_diffs, cumulative_index","fixed-capacity maps","pool and mining accounts")],["bytes allocated and stack depth during the entrypoint"]),
P("P28","Instructions stay within the compute budget",
 "From every reachable state, including a pool with 365 pending expiry dates and more than a thousand distributions, stakers with 50 pending dates, and nobody having called for years, an instruction executes fewer than 100,000 basic blocks of the program's code (about what the 1.4 million compute units of a transaction allow), so that no pool and no staker can be locked up by what has piled up: the index of a day is found in logarithmically many steps, and each expired date is processed once.",
 ["inputs","histories"],"all instructions in histories that fill the fixed-size storage, with the longest backlogs it can hold",
 NOT+"the work of an instruction grows with what has piled up in the accounts.",
 [POOL,MIN,R+"state/mod.rs"],[("consume of expired dates; refresh_rewards; find_max_value_limited_by_key","state/reward_pool.rs, state/mining.rs, state/mod.rs")],[("weighted_stake_diffs, cumulative_index","fixed-capacity maps","pool and mining accounts")],["basic blocks executed during the entrypoint"]),
P("P29","A refusal names its reason",
 "A call that must be refused for one reason fails with the error that names it, and one with several faults with the error of one of them; the program never aborts instead. Missing signature: MissingRequiredSignature. Account owned by another program than the prescribed one: InvalidAccountOwner. Too few accounts: NotEnoughAccountKeys. Undecodable or over-long data: BorshIoError. Another key than the recorded authority, or than the prescribed program or sysvar: InvalidArgument. Mining that is not the named delegate's: InvalidMining or DerivationError. Mining that is not the named owner's, or an owner's signature by somebody else: InvalidArgument or InvalidSeeds. Vault, mining or token account at another address than prescribed or not the owner's, and a pool account of another size: InvalidArgument. Pool or mining initialised again: AccountAlreadyInitialized or AlreadyInitialized. Filling nothing: RewardsMustBeGreaterThanZero; end date in the past: DistributionInThePast. Distribution without stake: RewardsNoDeposits. Period None: InvalidLockupPeriod. Closing with rewards owed: RewardsMustBeClaimed, or with stake delegated: StakeFromOthersMustBeZero. Same delegate: DelegatesAreTheSame. Slash or extension of a lockup on a date that has none: NoWeightedStakeModifiersAtADate. Penalty above the weight: DecreaseRewardsTooBig. No room left for another date: AccountDataTooSmall. More than there is, or more than 64 bits: MathOverflow.",
 ["inputs","histories"],"all instructions, from all reachable states, with one or several faults (dates up to 2^62)",
 NOT+"which error is returned depends on the state and on the arguments.",
 [R+"error.rs",R+"utils.rs",R+"asserts.rs",POOL,MIN,I],[("AccountLoader, asserts, safe arithmetic","utils.rs, asserts.rs"),("error enum","error.rs")],[],["error of every refused call, as returned by the entrypoint"]),
P("P30","What the library announces is what the program does",
 "The functions that the crate offers to other programs and clients agree with its instructions, for all arguments and from all reachable states. A deposit weighs its amount times the period's multiplier() until end_timestamp() of its time, and the plain amount from then on; that is the start of that day plus days() days; None has the multiplier 0 and is refused by the others as InvalidLockupPeriod; periods compare in the order of their length and are encoded as 0 to 4. The addresses computed for a mining and a vault, with their bumps, are those at which the program creates and expects them, under whatever program id is given. rewards_to_distribute() of a pool is what a distribution made at that moment takes, and refresh_rewards() on a copy of a mining leaves as unclaimed what a claim made at that moment pays. An account is said to be initialised, and of which type, exactly if the program has initialised it as such, and the lengths announced are those of the accounts it creates.",
 ["inputs","histories"],"all arguments of the public functions, on all reachable accounts",
 NOT+"the functions are judged by what instructions do from the same state.",
 [R+"utils.rs",POOL,MIN,R+"state/mod.rs"],[("LockupPeriod; address helpers","utils.rs"),("rewards_to_distribute","state/reward_pool.rs"),("refresh_rewards, account_type, is_initialized","state/mining.rs")],[],["return values of the crate's public functions"]),
]
with open(os.path.dirname(os.path.abspath(__file__))+'/properties.jsonl','w') as f:
    for p in props: f.write(json.dumps(p,ensure_ascii=False)+"\n")
if __name__=="__main__":
    import jsonschema
    s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in props: jsonschema.validate(p,s)
    print(len(props))
