//! Independent encoding of instructions and decoding of accounts (does not use the program's builders).
use crate::svm::{Ix, Meta};
use solana_program::{pubkey::Pubkey, system_program, sysvar};

pub const DAY: i64 = 86_400;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[repr(u8)]
pub enum Period {
    None = 0,
    Flex = 1,
    M3 = 2,
    M6 = 3,
    Y1 = 4,
}
impl Period {
    pub const REAL: [Period; 4] = [Period::Flex, Period::M3, Period::M6, Period::Y1];
    pub fn mult(self) -> i128 {
        match self {
            Period::None => 0,
            Period::Flex => 1,
            Period::M3 => 2,
            Period::M6 => 4,
            Period::Y1 => 6,
        }
    }
    pub fn days(self) -> i64 {
        match self {
            Period::None => 0,
            Period::Flex => 5,
            Period::M3 => 90,
            Period::M6 => 180,
            Period::Y1 => 365,
        }
    }
}

pub fn day(ts: i64) -> i64 {
    ts - ts.rem_euclid(DAY)
}

pub fn mining_pda(owner: &Pubkey, pool: &Pubkey) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"mining", owner.as_ref(), pool.as_ref()], &mplx_rewards::ID)
}
pub fn vault_pda(pool: &Pubkey, mint: &Pubkey) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"vault", pool.as_ref(), mint.as_ref()], &mplx_rewards::ID)
}

fn m(key: &Pubkey, signer: bool, writable: bool) -> Meta {
    Meta { key: *key, signer, writable }
}
fn ro(k: &Pubkey) -> Meta {
    m(k, false, false)
}
fn w(k: &Pubkey) -> Meta {
    m(k, false, true)
}
fn s(k: &Pubkey) -> Meta {
    m(k, true, false)
}
fn sw(k: &Pubkey) -> Meta {
    m(k, true, true)
}

pub fn init_pool(pool: &Pubkey, mint: &Pubkey, vault: &Pubkey, payer: &Pubkey, dep: &Pubkey, fill: &Pubkey, dist: &Pubkey) -> Ix {
    let mut data = vec![0];
    data.extend(fill.as_ref());
    data.extend(dist.as_ref());
    Ix {
        metas: vec![w(pool), ro(mint), w(vault), sw(payer), s(dep), ro(&sysvar::rent::ID), ro(&spl_token::ID), ro(&system_program::ID)],
        data,
    }
}
pub fn fill(pool: &Pubkey, mint: &Pubkey, vault: &Pubkey, auth: &Pubkey, src: &Pubkey, amount: u64, ends: u64) -> Ix {
    let mut data = vec![1];
    data.extend(amount.to_le_bytes());
    data.extend(ends.to_le_bytes());
    Ix { metas: vec![w(pool), ro(mint), w(vault), s(auth), w(src), ro(&spl_token::ID)], data }
}
pub fn init_mining(pool: &Pubkey, mining: &Pubkey, payer: &Pubkey, owner: &Pubkey) -> Ix {
    let mut data = vec![2];
    data.extend(owner.as_ref());
    Ix { metas: vec![w(pool), w(mining), sw(payer), ro(&system_program::ID)], data }
}
#[allow(clippy::too_many_arguments)]
pub fn deposit(pool: &Pubkey, mining: &Pubkey, dep: &Pubkey, del_mining: &Pubkey, amount: u64, period: u8, owner: &Pubkey, delegate: &Pubkey) -> Ix {
    let mut data = vec![3];
    data.extend(amount.to_le_bytes());
    data.push(period);
    data.extend(owner.as_ref());
    data.extend(delegate.as_ref());
    Ix { metas: vec![w(pool), w(mining), s(dep), w(del_mining)], data }
}
pub fn withdraw(pool: &Pubkey, mining: &Pubkey, dep: &Pubkey, del_mining: &Pubkey, amount: u64, owner: &Pubkey, delegate: &Pubkey) -> Ix {
    let mut data = vec![4];
    data.extend(amount.to_le_bytes());
    data.extend(owner.as_ref());
    data.extend(delegate.as_ref());
    Ix { metas: vec![w(pool), w(mining), s(dep), w(del_mining)], data }
}
pub fn claim(pool: &Pubkey, mint: &Pubkey, vault: &Pubkey, mining: &Pubkey, owner: &Pubkey, dep: &Pubkey, dst: &Pubkey) -> Ix {
    Ix { metas: vec![ro(pool), ro(mint), w(vault), w(mining), s(owner), s(dep), w(dst), ro(&spl_token::ID)], data: vec![5] }
}
#[allow(clippy::too_many_arguments)]
pub fn extend(pool: &Pubkey, mining: &Pubkey, dep: &Pubkey, del_mining: &Pubkey, old: u8, new: u8, start: u64, base: u64, add: u64, owner: &Pubkey, delegate: &Pubkey) -> Ix {
    let mut data = vec![6, old, new];
    data.extend(start.to_le_bytes());
    data.extend(base.to_le_bytes());
    data.extend(add.to_le_bytes());
    data.extend(owner.as_ref());
    data.extend(delegate.as_ref());
    Ix { metas: vec![w(pool), w(mining), s(dep), w(del_mining)], data }
}
pub fn distribute(pool: &Pubkey, dist: &Pubkey) -> Ix {
    Ix { metas: vec![w(pool), s(dist)], data: vec![7] }
}
pub fn close(mining: &Pubkey, owner: &Pubkey, target: &Pubkey, dep: &Pubkey, pool: &Pubkey) -> Ix {
    Ix { metas: vec![w(mining), s(owner), w(target), s(dep), ro(pool)], data: vec![8] }
}
#[allow(clippy::too_many_arguments)]
pub fn change_delegate(pool: &Pubkey, mining: &Pubkey, dep: &Pubkey, owner: &Pubkey, old: &Pubkey, new: &Pubkey, amount: u64, new_delegate: &Pubkey) -> Ix {
    let mut data = vec![9];
    data.extend(amount.to_le_bytes());
    data.extend(new_delegate.as_ref());
    Ix { metas: vec![w(pool), w(mining), s(dep), s(owner), w(old), w(new)], data }
}
pub fn slash(dep: &Pubkey, pool: &Pubkey, mining: &Pubkey, owner: &Pubkey, native: u64, mult: u64, expiry: Option<u64>) -> Ix {
    let mut data = vec![10];
    data.extend(owner.as_ref());
    data.extend(native.to_le_bytes());
    data.extend(mult.to_le_bytes());
    match expiry {
        None => data.push(0),
        Some(e) => {
            data.push(1);
            data.extend(e.to_le_bytes())
        }
    }
    Ix { metas: vec![s(dep), w(pool), w(mining)], data }
}
pub fn penalty(dep: &Pubkey, pool: &Pubkey, mining: &Pubkey, owner: &Pubkey, n: u64) -> Ix {
    let mut data = vec![11];
    data.extend(owner.as_ref());
    data.extend(n.to_le_bytes());
    Ix { metas: vec![s(dep), w(pool), w(mining)], data }
}

// ------------------------------------------------------------ account decoding (headers only)

fn k(d: &[u8], o: usize) -> Pubkey {
    Pubkey::try_from(&d[o..o + 32]).unwrap()
}
fn u64_(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
fn u128_(d: &[u8], o: usize) -> u128 {
    u128::from_le_bytes(d[o..o + 16].try_into().unwrap())
}

pub const POOL_LEN: usize = 64_480;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PoolHdr {
    pub deposit_authority: Pubkey,
    pub distribute_authority: Pubkey,
    pub fill_authority: Pubkey,
    pub mint: Pubkey,
    pub index: u128,
    pub total: u64,
    pub ends_at: u64,
    pub available: u64,
    pub bump: u8,
    pub kind: u8,
}
pub fn pool_hdr(d: &[u8]) -> Option<PoolHdr> {
    if d.len() < 176 {
        return None;
    }
    Some(PoolHdr {
        deposit_authority: k(d, 0),
        distribute_authority: k(d, 32),
        fill_authority: k(d, 64),
        mint: k(d, 96),
        index: u128_(d, 128),
        total: u64_(d, 144),
        ends_at: u64_(d, 152),
        available: u64_(d, 160),
        bump: d[168],
        kind: d[169],
    })
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MiningHdr {
    pub pool: Pubkey,
    pub owner: Pubkey,
    pub index: u128,
    pub share: u64,
    pub unclaimed: u64,
    pub sfo: u64,
    pub bump: u8,
    pub kind: u8,
}
pub fn mining_hdr(d: &[u8]) -> Option<MiningHdr> {
    if d.len() < 144 {
        return None;
    }
    Some(MiningHdr {
        pool: k(d, 0),
        owner: k(d, 32),
        index: u128_(d, 96),
        share: u64_(d, 112),
        unclaimed: u64_(d, 120),
        sfo: u64_(d, 128),
        bump: d[136],
        kind: d[137],
    })
}

pub fn token_amount(d: &[u8]) -> u64 {
    if d.len() < 165 {
        0
    } else {
        u64_(d, 64)
    }
}

pub fn token_account(mint: &Pubkey, owner: &Pubkey, amount: u64) -> Vec<u8> {
    use solana_program::program_pack::Pack;
    let mut d = vec![0u8; 165];
    spl_token::state::Account {
        mint: *mint,
        owner: *owner,
        amount,
        delegate: None.into(),
        state: spl_token::state::AccountState::Initialized,
        is_native: None.into(),
        delegated_amount: 0,
        close_authority: None.into(),
    }
    .pack_into_slice(&mut d);
    d
}
pub fn mint_account(authority: &Pubkey, supply: u64) -> Vec<u8> {
    use solana_program::program_pack::Pack;
    let mut d = vec![0u8; 82];
    spl_token::state::Mint {
        mint_authority: Some(*authority).into(),
        supply,
        decimals: 6,
        is_initialized: true,
        freeze_authority: None.into(),
    }
    .pack_into_slice(&mut d);
    d
}
