//! A pool, some stakers and a clock, for demonstrations.
use crate::svm::{Acct, Bank, Delta, Fail, Ix};
use crate::wire::{self, *};
use solana_program::pubkey::Pubkey;

pub const FLEX: u8 = 1;
pub const M3: u8 = 2;
pub const M6: u8 = 3;
pub const Y1: u8 = 4;
/// the start of a UTC day
pub const T0: i64 = 86_400 * 20_000;

#[derive(Clone)]
pub struct Pool {
    pub key: Pubkey,
    pub mint: Pubkey,
    pub vault: Pubkey,
    pub dep: Pubkey,
    pub dist: Pubkey,
    pub fill: Pubkey,
    pub src: Pubkey,
    pub mining: Vec<Pubkey>,
    pub tok: Vec<Pubkey>,
}

#[derive(Clone)]
pub struct Kit {
    pub bank: Bank,
    pub payer: Pubkey,
    pub target: Pubkey,
    pub users: Vec<Pubkey>,
    pub pools: Vec<Pool>,
    n: u64,
}

pub type Res = Result<Delta, String>;

fn short(r: Result<Delta, Fail>) -> Res {
    r.map_err(|f| f.short())
}

impl Kit {
    /// a key never used before
    pub fn key(&mut self) -> Pubkey {
        self.n += 1;
        let mut b = [0x5a; 32];
        let mut x = self.n.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        for c in b.chunks_mut(8) {
            x ^= x >> 29;
            x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
            c.copy_from_slice(&x.to_le_bytes());
        }
        Pubkey::new_from_array(b)
    }

    /// pools with their accounts, and stakers whose minings exist in all of them
    pub fn new(pools: usize, users: usize) -> Kit {
        let mut k = Kit::bare(pools, users);
        for p in 0..pools {
            k.init_pool(p).expect("pool");
            for u in 0..users {
                k.init_mining(p, u).expect("mining");
            }
        }
        k
    }

    pub fn bare(pools: usize, users: usize) -> Kit {
        let mut k = Kit { bank: Bank::new(T0 + 3600), payer: Pubkey::default(), target: Pubkey::default(), users: vec![], pools: vec![], n: 0 };
        k.payer = k.key();
        k.target = k.key();
        k.bank.set(k.payer, Acct::wallet(1 << 50));
        k.bank.set(k.target, Acct::wallet(10_000_000));
        for _ in 0..users {
            let u = k.key();
            k.bank.set(u, Acct::wallet(1 << 40));
            k.users.push(u);
        }
        for _ in 0..pools {
            let (key, mint, dep, dist, fill, src) = (k.key(), k.key(), k.key(), k.key(), k.key(), k.key());
            for a in [dep, dist, fill] {
                k.bank.set(a, Acct::wallet(1 << 40));
            }
            k.bank.set(key, Acct::with_data(mplx_rewards::ID, vec![0; POOL_LEN]));
            k.bank.set(mint, Acct::with_data(spl_token::ID, wire::mint_account(&fill, u64::MAX)));
            k.bank.set(src, Acct::with_data(spl_token::ID, wire::token_account(&mint, &fill, u64::MAX / 2)));
            let mut mining = vec![];
            let mut tok = vec![];
            for i in 0..users {
                let u = k.users[i];
                mining.push(mining_pda(&u, &key).0);
                let t = k.key();
                k.bank.set(t, Acct::with_data(spl_token::ID, wire::token_account(&mint, &u, 0)));
                tok.push(t);
            }
            k.pools.push(Pool { key, mint, vault: vault_pda(&key, &mint).0, dep, dist, fill, src, mining, tok });
        }
        k
    }

    pub fn run(&mut self, ix: &Ix) -> Res {
        short(self.bank.run(ix))
    }
    /// without keeping the effect
    pub fn try_run(&self, ix: &Ix) -> Res {
        short(self.bank.exec(ix))
    }

    pub fn init_pool_ix(&self, p: usize) -> Ix {
        let h = &self.pools[p];
        wire::init_pool(&h.key, &h.mint, &h.vault, &self.payer, &h.dep, &h.fill, &h.dist)
    }
    pub fn init_pool(&mut self, p: usize) -> Res {
        let i = self.init_pool_ix(p);
        self.run(&i)
    }
    pub fn init_mining(&mut self, p: usize, u: usize) -> Res {
        let i = wire::init_mining(&self.pools[p].key, &self.pools[p].mining[u], &self.payer, &self.users[u]);
        self.run(&i)
    }
    pub fn fill_ix(&self, p: usize, amount: u64, ends: i64) -> Ix {
        let h = &self.pools[p];
        wire::fill(&h.key, &h.mint, &h.vault, &h.fill, &h.src, amount, ends as u64)
    }
    pub fn fill(&mut self, p: usize, amount: u64, ends: i64) -> Res {
        let i = self.fill_ix(p, amount, ends);
        self.run(&i)
    }
    pub fn deposit_ix(&self, p: usize, u: usize, amount: u64, period: u8, del: usize) -> Ix {
        let h = &self.pools[p];
        wire::deposit(&h.key, &h.mining[u], &h.dep, &h.mining[del], amount, period, &self.users[u], &self.users[del])
    }
    /// `del` = `u` for no delegate
    pub fn deposit(&mut self, p: usize, u: usize, amount: u64, period: u8, del: usize) -> Res {
        let i = self.deposit_ix(p, u, amount, period, del);
        self.run(&i)
    }
    pub fn withdraw_ix(&self, p: usize, u: usize, amount: u64, del: usize) -> Ix {
        let h = &self.pools[p];
        wire::withdraw(&h.key, &h.mining[u], &h.dep, &h.mining[del], amount, &self.users[u], &self.users[del])
    }
    pub fn withdraw(&mut self, p: usize, u: usize, amount: u64, del: usize) -> Res {
        let i = self.withdraw_ix(p, u, amount, del);
        self.run(&i)
    }
    pub fn claim_ix(&self, p: usize, u: usize) -> Ix {
        let h = &self.pools[p];
        wire::claim(&h.key, &h.mint, &h.vault, &h.mining[u], &self.users[u], &h.dep, &h.tok[u])
    }
    /// what arrived in the owner's token account
    pub fn claim(&mut self, p: usize, u: usize) -> Result<u64, String> {
        let i = self.claim_ix(p, u);
        let before = self.tokens(&self.pools[p].tok[u]);
        self.run(&i)?;
        Ok(self.tokens(&self.pools[p].tok[u]) - before)
    }
    /// what a claim would pay now
    pub fn owed(&self, p: usize, u: usize) -> Result<u64, String> {
        self.clone().claim(p, u)
    }
    #[allow(clippy::too_many_arguments)]
    pub fn extend_ix(&self, p: usize, u: usize, old: u8, new: u8, start: i64, base: u64, add: u64, del: usize) -> Ix {
        let h = &self.pools[p];
        wire::extend(&h.key, &h.mining[u], &h.dep, &h.mining[del], old, new, start as u64, base, add, &self.users[u], &self.users[del])
    }
    #[allow(clippy::too_many_arguments)]
    pub fn extend(&mut self, p: usize, u: usize, old: u8, new: u8, start: i64, base: u64, add: u64, del: usize) -> Res {
        let i = self.extend_ix(p, u, old, new, start, base, add, del);
        self.run(&i)
    }
    pub fn distribute_ix(&self, p: usize) -> Ix {
        wire::distribute(&self.pools[p].key, &self.pools[p].dist)
    }
    pub fn distribute(&mut self, p: usize) -> Res {
        let i = self.distribute_ix(p);
        self.run(&i)
    }
    pub fn close_ix(&self, p: usize, u: usize) -> Ix {
        let h = &self.pools[p];
        wire::close(&h.mining[u], &self.users[u], &self.target, &h.dep, &h.key)
    }
    pub fn close(&mut self, p: usize, u: usize) -> Res {
        let i = self.close_ix(p, u);
        self.run(&i)
    }
    pub fn delegate_ix(&self, p: usize, u: usize, old: usize, new: usize, amount: u64) -> Ix {
        let h = &self.pools[p];
        wire::change_delegate(&h.key, &h.mining[u], &h.dep, &self.users[u], &h.mining[old], &h.mining[new], amount, &self.users[new])
    }
    pub fn delegate(&mut self, p: usize, u: usize, old: usize, new: usize, amount: u64) -> Res {
        let i = self.delegate_ix(p, u, old, new, amount);
        self.run(&i)
    }
    pub fn slash(&mut self, p: usize, u: usize, native: u64, weighted: u64, expiry: Option<i64>) -> Res {
        let h = &self.pools[p];
        let i = wire::slash(&h.dep, &h.key, &h.mining[u], &self.users[u], native, weighted, expiry.map(|x| x as u64));
        self.run(&i)
    }
    pub fn penalty(&mut self, p: usize, u: usize, n: u64) -> Res {
        let h = &self.pools[p];
        let i = wire::penalty(&h.dep, &h.key, &h.mining[u], &self.users[u], n);
        self.run(&i)
    }

    pub fn tokens(&self, k: &Pubkey) -> u64 {
        wire::token_amount(&self.bank.get(k).data)
    }
    pub fn vault(&self, p: usize) -> u64 {
        self.tokens(&self.pools[p].vault)
    }
    pub fn pool(&self, p: usize) -> PoolHdr {
        wire::pool_hdr(&self.bank.get(&self.pools[p].key).data).expect("pool")
    }
    pub fn mining(&self, p: usize, u: usize) -> MiningHdr {
        wire::mining_hdr(&self.bank.get(&self.pools[p].mining[u]).data).expect("mining")
    }
    /// the pool's weight once everything expired is processed
    pub fn total(&self, p: usize) -> u64 {
        let mut k = self.clone();
        k.withdraw(p, 0, 0, 0).expect("withdrawal of nothing");
        k.pool(p).total
    }
    /// a staker's own weight and what is delegated to it, once everything expired is processed
    pub fn weight(&self, p: usize, u: usize) -> (u64, u64) {
        let mut k = self.clone();
        k.claim(p, u).expect("claim");
        let m = k.mining(p, u);
        (m.share, m.sfo)
    }
    pub fn now(&self) -> i64 {
        self.bank.now
    }
    /// `n` days later, at the same time of day
    pub fn days(&mut self, n: i64) {
        self.bank.now += n * DAY;
    }
    /// the start of the current day
    pub fn today(&self) -> i64 {
        wire::day(self.bank.now)
    }
}

/// fail the demonstration
#[macro_export]
macro_rules! check {
    ($c:expr, $($a:tt)*) => { if !$c { eprintln!("FAILED: {}", format!($($a)*)); std::process::exit(1); } };
}
