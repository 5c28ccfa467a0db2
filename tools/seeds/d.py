S = "programs/rewards/src/"
POOL = S + "state/reward_pool.rs"
MIN = S + "state/mining.rs"
MOD = S + "state/mod.rs"
I = S + "instructions/"
SEEDS = []

BLOCKS = """
static BLOCKS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// called for every basic block of the program
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
    BLOCKS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}
let blocks = || BLOCKS.swap(0, std::sync::atomic::Ordering::Relaxed);
"""


def seed(id, prop, edits, needs, breaks, main, cov=False):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, main=(BLOCKS if cov else "") + main, cov=cov))


seed("P28-newest-first", "P28", [(MOD, """    let mut current_id = tree.root; // Start at the root node
    let mut result = None;

    while current_id != SENTINEL {
        let node = tree.get_node(current_id); // Get the current node
        if node.key < key {
            // Update result to the current key if it's a valid candidate
            result = Some(node.value);
            // Move to the right subtree to potentially find a larger valid key
            current_id = tree.get_right(current_id);
        } else {
            // Move to the left subtree to find a smaller key
            current_id = tree.get_left(current_id);
        }
    }

    result
""", """    if tree.root == SENTINEL {
        return None;
    }
    // the newest keys are asked for most
    tree.iter().rev().find(|(k, _)| **k < key).map(|(_, v)| *v)
"""), (MOD, """use sokoban::{RedBlackTree, SENTINEL};
""", """use sokoban::{NodeAllocatorMap, RedBlackTree, SENTINEL};
""")], "a staker with dozens of expired lockups coming back after some thousand distributions",
"Finding the index of a day takes as many steps as there were distributions since, for each expired date.", """
let mut k = Kit::new(1, 2);
k.deposit(0, 1, 100, FLEX, 1).unwrap();
for _ in 0..46 {
    k.deposit(0, 0, 100, M3, 0).unwrap();
    k.days(1);
}
for _ in 0..1000 {
    k.distribute(0).unwrap();
    k.days(1);
}
blocks();
k.claim(0, 0).unwrap();
let n = blocks();
check!(n > 500 && n < 100_000, "{n} basic blocks for a claim");
""", cov=True)

seed("P28-rescan", "P28", [(POOL, """        let mut processed_dates = vec![];
        for (date_to_process, modifier) in self.weighted_stake_diffs.iter() {
            if date_to_process > &beginning_of_the_day {
                break;
            }

            total_share = total_share.safe_sub(*modifier)?;
            processed_dates.push(*date_to_process);
        }
        for date in processed_dates {
            self.weighted_stake_diffs.remove(&date);
        }
        Ok(total_share)
""", """        // one by one, so that nothing has to be remembered
        loop {
            let expired = self
                .weighted_stake_diffs
                .iter()
                .filter(|(date, _)| **date <= beginning_of_the_day)
                .min_by_key(|(date, _)| **date)
                .map(|(date, modifier)| (*date, *modifier));
            let Some((date, modifier)) = expired else {
                return Ok(total_share);
            };
            total_share = total_share.safe_sub(modifier)?;
            self.weighted_stake_diffs.remove(&date);
        }
""")], "hundreds of different expiry days pending in the pool when nobody has called for a year",
"Every expired day of the pool costs a walk through all pending days.", """
let mut k = Kit::new(1, 8);
for i in 0..360 {
    k.deposit(0, i / 46, 100, Y1, i / 46).unwrap();
    k.days(1);
}
k.days(400);
k.fill(0, 1000, k.today()).unwrap();
blocks();
k.distribute(0).unwrap();
let n = blocks();
check!(n > 500 && n < 100_000, "{n} basic blocks for a distribution");
""", cov=True)

seed("P28-day-by-day", "P28", [(MIN, """        let vault_index_for_date =
            find_max_value_limited_by_key(cumulative_index, date).unwrap_or(0);
""", """        // usually, there was a distribution the day before
        let first = cumulative_index.iter().next().map(|(first, _)| *first);
        let mut day = date.saturating_sub(1) / SECONDS_PER_DAY * SECONDS_PER_DAY;
        let vault_index_for_date = match first {
            Some(first) if first < date => loop {
                if let Some(index) = cumulative_index.get(&day) {
                    break *index;
                }
                day -= SECONDS_PER_DAY;
            },
            _ => 0,
        };
"""), (MIN, """use super::{
    find_max_value_limited_by_key, AccountType, CumulativeIndex, MiningWeightedStakeDiffs,
};
""", """use super::{AccountType, CumulativeIndex, MiningWeightedStakeDiffs};
"""), (MOD, """fn find_max_value_limited_by_key<
""", """#[cfg(test)]
fn find_max_value_limited_by_key<
"""), (MOD, """use bytemuck::Pod;
""", """#[cfg(test)]
use bytemuck::Pod;
"""), (MOD, """use sokoban::{RedBlackTree, SENTINEL};
use std::fmt::Debug;
""", """use sokoban::RedBlackTree;
#[cfg(test)]
use sokoban::SENTINEL;
#[cfg(test)]
use std::fmt::Debug;
""")], "a pool without distributions for a year, and a staker with dozens of lockups that expired meanwhile",
"Finding the index of a day takes as many steps as days passed since the last distribution.", """
let mut k = Kit::new(1, 1);
k.deposit(0, 0, 100, FLEX, 0).unwrap();
k.distribute(0).unwrap();
k.days(700);
for _ in 0..46 {
    k.deposit(0, 0, 100, Y1, 0).unwrap();
    k.days(1);
}
k.days(800);
blocks();
k.claim(0, 0).unwrap();
let n = blocks();
check!(n > 500 && n < 100_000, "{n} basic blocks for a claim");
""", cov=True)

seed("P29-penalty-unsaid", "P29", [(MIN, """        if decreased_weighted_stake_number > self.mining.share {
            return Err(MplxRewardsError::DecreaseRewardsTooBig.into());
        }
""", """        // the penalty concerns what is locked up
        let locked = self
            .weighted_stake_diffs
            .iter()
            .try_fold(0u64, |sum, (_, diff)| sum.safe_add(*diff))?;
        if locked > 0 && decreased_weighted_stake_number > self.mining.share {
            return Err(MplxRewardsError::DecreaseRewardsTooBig.into());
        }
""")], "a penalty larger than the weight of a staker none of whose lockups is running any more",
"A penalty that is too big is refused as a math overflow.", """
let mut k = Kit::new(1, 1);
k.deposit(0, 0, 100, M3, 0).unwrap();
let e = k.penalty(0, 0, 1000).err().unwrap();
check!(e.contains("Custom(15)"), "{e}");
k.days(91);
let e = k.penalty(0, 0, 1000).err().unwrap();
check!(e.contains("Custom(15)"), "{e}");
""")

seed("P29-extension-unsaid", "P29", [(POOL, """        match diffs.get_mut(&timestamp) {
            None => Err(MplxRewardsError::NoWeightedStakeModifiersAtADate),
            Some(modifier) => {
                *modifier = modifier.safe_sub(weighted_stake_diff)?;
                Ok(())
            }
        }
""", """        let left = diffs
            .get(&timestamp)
            .copied()
            .unwrap_or_default()
            .safe_sub(weighted_stake_diff)?;
        match diffs.get_mut(&timestamp) {
            None => Err(MplxRewardsError::NoWeightedStakeModifiersAtADate),
            Some(modifier) => {
                *modifier = left;
                Ok(())
            }
        }
""")], "an extension of a lockup that does not exist (a wrong start date or period)",
"An extension of an unknown lockup is refused as a math overflow.", """
let mut k = Kit::new(1, 1);
let start = k.now();
k.deposit(0, 0, 100, M6, 0).unwrap();
k.days(3);
let e = k.extend(0, 0, M3, Y1, start, 100, 0, 0).err().unwrap();
check!(e.contains("Custom(9)"), "{e}");
""")

seed("P29-end-aborts", "P29", [(I + "fill_vault.rs", """        if distribution_ends_at_day_start < beginning_of_the_curr_day {
            return Err(MplxRewardsError::DistributionInThePast.into());
        }
""", """        // the fill has to last for a day at least, the current one included
        let days = (distribution_ends_at_day_start + SECONDS_PER_DAY - beginning_of_the_curr_day)
            / SECONDS_PER_DAY;
        if days == 0 {
            return Err(MplxRewardsError::DistributionInThePast.into());
        }
""")], "an end date more than a day in the past",
"A fill with a past end date aborts the program instead of being refused as such.", """
let mut k = Kit::new(1, 1);
for ago in [1, 2, 40] {
    let at = k.today() - ago * DAY;
    let e = k.fill(0, 100, at).err().unwrap();
    check!(e.contains("Custom(4)"), "{e}");
}
""")

seed("P29-own-delegate", "P29", [(I + "change_delegate.rs", """    if new_delegate_mining.key == old_delegate_mining.key {
        return Err(MplxRewardsError::DelegatesAreTheSame.into());
    }
""", """    if new_delegate_mining.key == old_delegate_mining.key {
        return Err(match new_delegate_mining.key == mining.key {
            // there is no delegation to change
            true => MplxRewardsError::InvalidMining,
            false => MplxRewardsError::DelegatesAreTheSame,
        }
        .into());
    }
""")], "a change from no delegate to no delegate",
"A change of delegate that changes nothing is refused with another error if no delegate is involved.", """
let mut k = Kit::new(1, 2);
k.deposit(0, 0, 100, M6, 0).unwrap();
for del in [1, 0] {
    let e = k.delegate(0, 0, del, del, 100).err().unwrap();
    check!(e.contains("Custom(10)"), "{e}");
}
""")

