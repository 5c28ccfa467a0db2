//! Hostile calls: every instruction with signatures removed, accounts substituted, arguments crossed.
//! `spec` decides from the wire alone, without the program, whether a call may be accepted at all.
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::svm::*;
use crate::wire::{self, *};
use crate::world::*;
use solana_program::{program_pack::Pack, pubkey::Pubkey, system_program, sysvar};
use std::collections::HashSet;

pub const NAMES: [&str; 12] = [
    "init_pool", "fill", "init_mining", "deposit", "withdraw", "claim", "extend", "distribute", "close", "change_delegate", "slash", "penalty",
];

#[derive(Default, Debug)]
pub struct Verdict {
    /// reasons why the call must be refused
    pub no: Vec<(&'static str, &'static str)>,
    /// nothing is claimed about acceptance
    pub unknown: bool,
    pub pool: Option<usize>,
}

pub struct Stage<'a> {
    pub w: &'a World,
    pub bank: Bank,
    pub universe: Vec<Pubkey>,
    pub roles: Vec<&'static str>,
    /// fresh pool that can be initialised
    pub fresh: PoolH,
    /// rich token accounts of everybody who can sign, of each pool's mint
    pub purses: Vec<(Pubkey, usize, Pubkey)>,
}

fn arg_key(d: &[u8], o: usize) -> Option<Pubkey> {
    d.get(o..o + 32).and_then(|b| Pubkey::try_from(b).ok())
}

/// exact byte length of each instruction's data
pub fn data_len(d: &[u8]) -> Option<usize> {
    Some(match d.first()? {
        0 => 65,
        1 => 17,
        2 => 33,
        3 => 1 + 8 + 1 + 64,
        4 => 1 + 8 + 64,
        5 | 7 | 8 => 1,
        6 => 1 + 2 + 24 + 64,
        9 => 1 + 8 + 32,
        10 => match d.get(49)? {
            0 => 50,
            1 => 58,
            _ => return None,
        },
        11 => 1 + 32 + 8,
        _ => return None,
    })
}

pub fn data_valid(d: &[u8]) -> bool {
    data_len(d) == Some(d.len())
        && match d[0] {
            3 => d[9] <= 4,
            6 => d[1] <= 4 && d[2] <= 4,
            _ => true,
        }
}

impl<'a> Stage<'a> {
    pub fn new(w: &'a World, rng: &mut Rng) -> Stage<'a> {
        let mut bank = w.bank.clone();
        let mut universe = vec![];
        let mut roles = vec![];
        let mut add = |k: Pubkey, r: &'static str| {
            if !universe.contains(&k) {
                universe.push(k);
                roles.push(r);
            }
        };
        for h in &w.pools {
            add(h.key, "pool");
            add(h.mint, "mint");
            add(h.vault, "vault");
            add(h.dep, "deposit authority");
            add(h.dist, "distribute authority");
            add(h.fill, "fill authority");
            add(h.src, "source tokens");
            for k in &h.mining {
                add(*k, "mining");
            }
            for k in &h.tok {
                add(*k, "staker tokens");
            }
        }
        for u in &w.users {
            add(*u, "staker");
        }
        add(w.payer, "payer");
        add(w.target, "target");
        add(system_program::ID, "system program");
        add(spl_token::ID, "token program");
        add(mplx_rewards::ID, "rewards program");
        add(sysvar::rent::ID, "rent");
        let evil = Pubkey::new_from_array(rng.bytes32());
        let mallory = Pubkey::new_from_array(rng.bytes32());
        bank.set(mallory, Acct::wallet(1 << 40));
        add(mallory, "stranger");
        let mut plant = |bank: &mut Bank, a: Acct, r: &'static str| {
            let k = Pubkey::new_from_array(rng.bytes32());
            bank.set(k, a);
            add(k, r);
        };
        for h in &w.pools {
            for k in [h.key, h.vault, h.src, h.mint].iter().chain(h.mining.iter().take(2)).chain(h.tok.iter().take(1)) {
                let mut a = bank.get(k);
                if a.data.is_empty() {
                    continue;
                }
                a.owner = evil;
                plant(&mut bank, a, "forged copy owned by a foreign program");
            }
            // a forged pool naming the stranger as every authority
            let mut a = bank.get(&h.key);
            let mut d = (*a.data).clone();
            for o in [0, 32, 64] {
                d[o..o + 32].copy_from_slice(mallory.as_ref());
            }
            a.data = std::sync::Arc::new(d);
            a.owner = evil;
            plant(&mut bank, a, "forged pool of the stranger");
            plant(&mut bank, Acct::with_data(spl_token::ID, wire::token_account(&h.mint, &mallory, 1000)), "stranger's tokens");
            plant(&mut bank, Acct::with_data(spl_token::ID, wire::token_account(&h.mint, &h.dep, 1 << 40)), "deposit authority's other tokens");
        }
        let mining_len = w.pools.iter().flat_map(|h| h.mining.iter()).map(|k| bank.get(k).data.len()).max().unwrap_or(0);
        plant(&mut bank, Acct::with_data(mplx_rewards::ID, vec![0; POOL_LEN]), "blank pool-sized account");
        if mining_len > 0 {
            plant(&mut bank, Acct::with_data(mplx_rewards::ID, vec![0; mining_len]), "blank mining-sized account");
        }
        plant(&mut bank, Acct::with_data(mplx_rewards::ID, vec![]), "blank empty account");
        let fmint = Pubkey::new_from_array([9; 32]);
        plant(&mut bank, Acct::with_data(spl_token::ID, wire::mint_account(&mallory, 1 << 60)), "stranger's mint");
        plant(&mut bank, Acct::with_data(spl_token::ID, wire::token_account(&fmint, &mallory, 1 << 50)), "stranger's worthless tokens");
        for u in w.users.iter().take(2) {
            plant(&mut bank, Acct::with_data(spl_token::ID, wire::token_account(&fmint, u, 0)), "staker's account of another mint");
        }
        // pools whose bytes, read as a mining, name one of our pools, a staker, and rewards owed
        for h in &w.pools {
            let Some(hd) = wire::pool_hdr(&bank.get(&h.key).data) else { continue };
            for u in &w.users {
                if rng.p(0.4) {
                    continue;
                }
                let mut m = rng.bytes32();
                m[..16].copy_from_slice(&hd.index.to_le_bytes());
                let owed = if rng.p(0.4) { 0 } else { 1 + rng.below(1000) };
                m[24..].copy_from_slice(&owed.to_le_bytes());
                let mint = Pubkey::new_from_array(m);
                let x = Pubkey::new_from_array(rng.bytes32());
                let f = if rng.p(0.5) { mallory } else { *u };
                bank.set(mint, Acct::with_data(spl_token::ID, wire::mint_account(&mallory, 1 << 60)));
                bank.set(x, Acct::with_data(mplx_rewards::ID, vec![0; POOL_LEN]));
                if bank.run(&wire::init_pool(&x, &mint, &vault_pda(&x, &mint).0, &w.payer, &h.key, &f, u)).is_ok() {
                    add(x, "pool that looks like a mining");
                }
            }
        }
        let k = |rng: &mut Rng| Pubkey::new_from_array(rng.bytes32());
        let (pk, mint, dep, dist, fill) = (k(rng), k(rng), k(rng), k(rng), k(rng));
        for a in [dep, dist, fill] {
            bank.set(a, Acct::wallet(1 << 40));
        }
        bank.set(pk, Acct::with_data(mplx_rewards::ID, vec![0; POOL_LEN]));
        bank.set(mint, Acct::with_data(spl_token::ID, wire::mint_account(&fill, 0)));
        let fresh = PoolH { key: pk, mint, vault: vault_pda(&pk, &mint).0, dep, dist, fill, src: pk, mining: vec![], tok: vec![] };
        let mut people: Vec<Pubkey> = vec![mallory, w.payer, w.target];
        people.extend(w.users.iter().copied());
        people.extend(w.pools.iter().flat_map(|h| [h.dep, h.dist, h.fill]));
        people.sort();
        people.dedup();
        let mut purses = vec![];
        for (i, h) in w.pools.iter().enumerate() {
            for who in &people {
                let t = k(rng);
                bank.set(t, Acct::with_data(spl_token::ID, wire::token_account(&h.mint, who, 1 << 50)));
                purses.push((*who, i, t));
            }
        }
        Stage { w, bank, universe, roles, fresh, purses }
    }
    /// whoever takes a signer's place brings an own token account along
    fn bring_purse(&self, ix: &Ix, who: &Pubkey) -> Option<Ix> {
        let (im, it) = match ix.data.first()? {
            1 => (0, 4),
            5 => (0, 6),
            _ => return None,
        };
        let p = self.pool_of(&ix.metas[im].key)?;
        let t = self.purses.iter().find(|x| x.0 == *who && x.1 == p)?.2;
        let mut x = ix.clone();
        x.metas[it].key = t;
        Some(x)
    }

    fn pool_of(&self, k: &Pubkey) -> Option<usize> {
        self.w.pools.iter().position(|h| h.key == *k)
    }
    fn mining_of(&self, k: &Pubkey) -> Option<(usize, usize)> {
        for (p, h) in self.w.pools.iter().enumerate() {
            if let Some(u) = h.mining.iter().position(|m| m == k) {
                let a = self.bank.get(k);
                if a.owner == mplx_rewards::ID && !a.data.is_empty() {
                    return Some((p, u));
                }
            }
        }
        None
    }

    /// may this call be accepted, judging by keys, owners and signatures only?
    pub fn spec(&self, ix: &Ix) -> Verdict {
        let mut v = Verdict::default();
        let d = &ix.data;
        if !data_valid(d) {
            v.no.push(("P23", "malformed data"));
            return v;
        }
        let need = [8, 6, 4, 4, 4, 8, 4, 2, 5, 6, 3, 3][d[0] as usize];
        if ix.metas.len() < need {
            v.no.push(("P23", "missing accounts"));
            return v;
        }
        // privileges unite over duplicates, as in a transaction
        let key = |i: usize| ix.metas[i].key;
        let signed = |i: usize| ix.metas.iter().any(|m| m.key == ix.metas[i].key && m.signer);
        let mut no = |t: &'static str, why: &'static str| v.no.push((t, why));
        let owner_is = |i: usize, o: Pubkey| self.bank.get(&key(i)).owner == o;
        let auth = |no: &mut dyn FnMut(&'static str, &'static str), i: usize, want: Option<Pubkey>, what: &'static str| {
            if !signed(i) {
                no("P08", what);
            }
            if let Some(x) = want {
                if key(i) != x {
                    no("P08", what);
                }
            }
        };
        match d[0] {
            0 => {
                let a = self.bank.get(&key(0));
                if a.owner != mplx_rewards::ID {
                    no("P09", "pool not owned by the program");
                    no("P16", "pool not owned by the program");
                } else if a.data.len() != POOL_LEN {
                    no("P16", "pool of wrong size");
                } else if a.data[169] != 0 {
                    no("P16", "pool already initialised");
                }
                let m = self.bank.get(&key(1));
                if m.owner != spl_token::ID || spl_token::state::Mint::unpack(&m.data).is_err() {
                    no("P09", "not a mint");
                }
                if key(2) != vault_pda(&key(0), &key(1)).0 {
                    no("P09", "not the pool's vault address");
                    no("P16", "not the pool's vault address");
                }
                auth(&mut no, 3, None, "payer's signature");
                auth(&mut no, 4, None, "deposit authority's signature");
                if key(5) != sysvar::rent::ID || key(6) != spl_token::ID || key(7) != system_program::ID {
                    no("P09", "wrong program or sysvar");
                }
                // whether the payer can pay is the runtime's business
                let pay = self.bank.get(&key(3));
                if pay.owner != system_program::ID || !pay.data.is_empty() || pay.lamports < 1 << 30 {
                    v.unknown = true;
                }
                return v;
            }
            2 => {
                let a = self.bank.get(&key(0));
                if a.owner != mplx_rewards::ID {
                    no("P09", "pool not owned by the program");
                }
                let owner = arg_key(d, 1).unwrap();
                if key(1) != mining_pda(&owner, &key(0)).0 {
                    no("P09", "not the staker's mining address");
                    no("P16", "not the staker's mining address");
                } else if self.bank.get(&key(1)).owner != system_program::ID {
                    no("P16", "mining already exists");
                }
                auth(&mut no, 2, None, "payer's signature");
                if key(3) != system_program::ID {
                    no("P09", "not the system program");
                }
                let pay = self.bank.get(&key(2));
                if pay.owner != system_program::ID || !pay.data.is_empty() || pay.lamports < 1 << 30 || self.pool_of(&key(0)).is_none() {
                    v.unknown = true;
                }
                return v;
            }
            _ => {}
        }
        // position of the pool, of the mining, and of the authority
        let (ip, im) = match d[0] {
            1 | 7 => (0, None),
            3 | 4 | 6 | 9 => (0, Some(1)),
            5 => (0, Some(3)),
            8 => (4, Some(0)),
            _ => (1, Some(2)),
        };
        let p = self.pool_of(&key(ip));
        if p.is_none() {
            no("P09", "not a pool");
        }
        v.pool = p;
        let h = p.map(|p| &self.w.pools[p]);
        let mut no = |t: &'static str, why: &'static str| v.no.push((t, why));
        let mut mo: Option<(usize, usize)> = None;
        if let Some(im) = im {
            mo = self.mining_of(&key(im));
            match mo {
                None => {
                    no("P09", "not a mining");
                    if d[0] == 8 {
                        no("P15", "not a mining");
                    }
                }
                Some((q, _)) if p.is_some() && Some(q) != p => {
                    no("P09", "mining of another pool");
                    if d[0] == 8 {
                        no("P15", "mining of another pool");
                    }
                }
                _ => {}
            }
        }
        let owner_key = mo.map(|(_, u)| self.w.users[u]);
        let dep = h.map(|h| h.dep);
        let arg_owner = |no: &mut dyn FnMut(&'static str, &'static str), k: Pubkey| {
            if let Some(o) = owner_key {
                if o != k {
                    no("P09", "mining of another owner");
                }
            }
        };
        let delegate = |no: &mut dyn FnMut(&'static str, &'static str), i: usize, im: usize, arg: Option<Pubkey>| {
            if key(i) == key(im) {
                return;
            }
            match self.mining_of(&key(i)) {
                None => no("P09", "delegate's account is not a mining"),
                Some((q, u)) => {
                    if p.is_some() && Some(q) != p {
                        no("P09", "delegate's mining of another pool");
                    }
                    if let Some(a) = arg {
                        if self.w.users[u] != a {
                            no("P09", "mining of another delegate");
                        }
                    }
                }
            }
        };
        let vault_ok = |no: &mut dyn FnMut(&'static str, &'static str), im: usize, iv: usize, it: usize| {
            if let Some(h) = h {
                if key(iv) != h.vault {
                    no("P09", "not the pool's vault");
                }
                if key(im) != h.mint {
                    no("P09", "not the pool's mint");
                }
            }
            if key(it) != spl_token::ID {
                no("P09", "not the token program");
            }
        };
        match d[0] {
            1 => {
                auth(&mut no, 3, h.map(|h| h.fill), "fill authority");
                vault_ok(&mut no, 1, 2, 5);
                let s = self.bank.get(&key(4));
                let t = spl_token::state::Account::unpack(&s.data);
                if !owner_is(4, spl_token::ID) || t.is_err() {
                    no("P09", "source is not a token account");
                    no("P06", "source is not a token account");
                } else if let (Ok(t), Some(h)) = (t, h) {
                    let amount = u64::from_le_bytes(d[1..9].try_into().unwrap());
                    let ctl = t.owner == key(3) || (t.delegate.contains(&key(3)) && t.delegated_amount >= amount);
                    if t.mint != h.mint || !ctl || t.amount < amount || t.is_frozen() {
                        no("P06", "source cannot provide the tokens");
                    }
                    if key(4) == h.vault {
                        no("P06", "the vault is no source");
                        no("P01", "the vault is no source");
                    }
                }
            }
            7 => auth(&mut no, 1, h.map(|h| h.dist), "distribute authority"),
            3 | 4 | 6 => {
                let o = match d[0] {
                    3 => 10,
                    4 => 9,
                    _ => 27,
                };
                auth(&mut no, 2, dep, "deposit authority");
                arg_owner(&mut no, arg_key(d, o).unwrap());
                delegate(&mut no, 3, 1, arg_key(d, o + 32));
            }
            5 => {
                auth(&mut no, 4, owner_key, "staker");
                auth(&mut no, 5, dep, "deposit authority");
                vault_ok(&mut no, 1, 2, 7);
                let s = self.bank.get(&key(6));
                match spl_token::state::Account::unpack(&s.data) {
                    Ok(t) if s.owner == spl_token::ID => {
                        if t.owner != key(4) || owner_key.map(|o| o != t.owner).unwrap_or(false) {
                            no("P07", "destination not owned by the staker");
                        }
                        if h.map(|h| h.mint != t.mint).unwrap_or(false) || t.is_frozen() {
                            // refused by the token program whenever something is owed
                            if let Some((p, u)) = mo {
                                match self.w.view[p][u] {
                                    Some(x) if x.claim > 0 => no("P07", "destination cannot receive the tokens"),
                                    _ => v.unknown = true,
                                }
                            }
                        }
                    }
                    _ => {
                        no("P07", "destination is not a token account");
                        no("P09", "destination is not a token account");
                    }
                }
            }
            8 => {
                auth(&mut no, 1, owner_key, "staker");
                auth(&mut no, 3, dep, "deposit authority");
                let t = self.bank.get(&key(2));
                if t.owner != system_program::ID {
                    no("P15", "target is no ordinary account");
                }
                v.unknown = true; // what is owed or delegated, and the target, are judged elsewhere
            }
            9 => {
                auth(&mut no, 2, dep, "deposit authority");
                auth(&mut no, 3, owner_key, "staker");
                delegate(&mut no, 4, 1, None);
                delegate(&mut no, 5, 1, arg_key(d, 9));
                if key(4) == key(5) {
                    no("P11", "same delegate");
                }
            }
            _ => {
                auth(&mut no, 0, dep, "deposit authority");
                arg_owner(&mut no, arg_key(d, 1).unwrap());
            }
        }
        if d[0] == 8 && v.no.iter().any(|x| x.0 == "P08") {
            v.no.push(("P15", "closed without its owner and deposit authority"));
        }
        v
    }

    /// one accepted call of each kind from this state
    pub fn valid(&self, rng: &mut Rng, kinds: &[u8]) -> Vec<Ix> {
        let mut out = vec![];
        for &k in kinds {
            if k == 0 {
                let h = &self.fresh;
                out.push(wire::init_pool(&h.key, &h.mint, &h.vault, &self.w.payer, &h.dep, &h.fill, &h.dist));
                continue;
            }
            let slot = [0, W_FILL, W_INIT, W_DEP, W_WD, W_CLAIM, W_EXT, W_DIST, W_CLOSE, W_CHD, W_SLASH, W_PEN][k as usize];
            let mut cfg = Cfg::base();
            cfg.w = [0; 11];
            cfg.w[slot] = 1;
            cfg.amounts = Amounts::Small;
            cfg.deleg = 0.7;
            for _ in 0..6 {
                if let Some((op, _)) = propose(self.w, rng, &cfg) {
                    if op.pool().is_some() && self.w.predict(&op).0 == V::Ok {
                        let ix = self.w.build(&op);
                        if ix.data[0] == k {
                            out.push(ix);
                            break;
                        }
                    }
                }
            }
        }
        out
    }

    /// the same call with other numbers (nothing moved, one unit, other dates) that is accepted as well
    pub fn variants(&self, rng: &mut Rng, ix: &Ix) -> Vec<Ix> {
        let mut out = vec![];
        let offs = num_offsets(&ix.data);
        let mut tries: Vec<Ix> = vec![];
        for &o in &offs {
            for v in [0u64, 1] {
                let mut x = ix.clone();
                x.data[o..o + 8].copy_from_slice(&v.to_le_bytes());
                tries.push(x);
            }
        }
        if offs.len() > 1 {
            let mut x = ix.clone();
            for &o in &offs {
                if rng.p(0.7) {
                    x.data[o..o + 8].copy_from_slice(&0u64.to_le_bytes());
                }
            }
            tries.push(x);
        }
        if ix.data[0] == 10 {
            let mut x = ix.clone();
            x.data.truncate(49);
            x.data.push(0);
            tries.push(x);
        }
        // everybody named is the same staker
        if matches!(ix.data[0], 3 | 4 | 6 | 9) {
            let owner = arg_key(&ix.data, match ix.data[0] { 3 => 10, 4 => 9, 6 => 27, _ => 9 });
            for h in &self.w.pools {
                let who = match ix.data[0] {
                    9 => ix.metas.iter().find(|m| self.w.users.contains(&m.key)).map(|m| m.key),
                    _ => owner,
                };
                if h.key != ix.metas[0].key {
                    continue;
                }
                if let Some(u) = who.and_then(|k| self.w.users.iter().position(|x| *x == k)) {
                    let mut x = ix.clone();
                    for m in x.metas.iter_mut() {
                        if h.mining.contains(&m.key) {
                            m.key = h.mining[u];
                        }
                    }
                    if ix.data[0] == 9 {
                        x.data[1..9].copy_from_slice(&0u64.to_le_bytes());
                    }
                    for o in arg_offsets(&ix.data) {
                        x.data[o..o + 32].copy_from_slice(self.w.users[u].as_ref());
                    }
                    tries.push(x);
                }
            }
        }
        for x in tries {
            if x.data != ix.data && self.spec(&x).no.is_empty() && self.bank.exec(&x).is_ok() {
                out.push(x);
            }
        }
        out
    }

    fn role(&self, k: &Pubkey) -> &'static str {
        self.universe.iter().position(|x| x == k).map(|i| self.roles[i]).unwrap_or("other")
    }

    pub fn describe(&self, ix: &Ix) -> String {
        let accts: Vec<String> = ix
            .metas
            .iter()
            .map(|m| {
                let mut s = self.role(&m.key).to_string();
                for (p, h) in self.w.pools.iter().enumerate() {
                    if h.key == m.key || h.vault == m.key || h.mint == m.key || h.dep == m.key || h.dist == m.key || h.fill == m.key || h.src == m.key {
                        s = format!("{s} of pool {p}");
                    }
                    if let Some(u) = h.mining.iter().position(|k| *k == m.key) {
                        s = format!("{s} of staker {u} in pool {p}");
                    }
                    if let Some(u) = h.tok.iter().position(|k| *k == m.key) {
                        s = format!("{s} of staker {u} for pool {p}");
                    }
                }
                if let Some(u) = self.w.users.iter().position(|k| *k == m.key) {
                    s = format!("{s} {u}");
                }
                if m.signer {
                    s.push_str(" (signs)");
                }
                s
            })
            .collect();
        format!("{} data {:?} accounts [{}]", ix.data.first().and_then(|x| NAMES.get(*x as usize)).unwrap_or(&"?"), ix.data, accts.join("; "))
    }

    /// run a mutated call and judge it
    pub fn attempt(&self, ix: &Ix, t: &mut Tally) -> R<()> {
        self.attempt_mode(ix, t, Mode::Direct)
    }
    pub fn attempt_mode(&self, ix: &Ix, t: &mut Tally, mode: Mode) -> R<()> {
        let v = self.spec(ix);
        t.tries += 1;
        let wide;
        let ix = if t.tries % 3 == 1 {
            wide = ix.all_writable();
            &wide
        } else {
            ix
        };
        // one attempt in four also passes through the entrypoint
        let res = if mode == Mode::Direct && t.tries % 4 == 0 { self.bank.exec_real(ix) } else { self.bank.exec_mode(ix, mode) };
        let k = ix.data.first().copied().unwrap_or(255) as u64;
        let mut h = k;
        for m in &ix.metas {
            h = h.wrapping_mul(0x100_0000_01b3) ^ fnv(self.role(&m.key)) ^ (m.signer as u64) << 3 ^ (m.writable as u64) << 9;
        }
        for r in &v.no {
            h = h.wrapping_mul(0x100_0000_01b3) ^ fnv(r.1);
        }
        if let Err(Fail::Corrupt(s)) = &res {
            return t.judge(&["P23"], format!("{s}: {}", self.describe(ix)));
        }
        if !v.no.is_empty() {
            t.must_refuse += 1;
            t.seen.insert(h);
            if let Ok(d) = &res {
                let mut tags: Vec<&'static str> = v.no.iter().map(|x| x.0).collect();
                tags.sort();
                tags.dedup();
                let why: Vec<&str> = v.no.iter().map(|x| x.1).collect();
                let chg: Vec<&str> = d.changes.iter().map(|c| self.role(&c.0)).collect();
                return t.judge(&tags, format!("accepted although it must be refused ({}): {}; changed: {chg:?}", why.join(", "), self.describe(ix)));
            }
            return Ok(());
        }
        if let Ok(d) = &res {
            t.accepted += 1;
            // only what it names, and nothing of another pool
            for (key, a) in &d.changes {
                let pre = self.bank.get(key);
                let other = self.w.pools.iter().enumerate().any(|(q, h)| {
                    v.pool.is_some() && Some(q) != v.pool && (h.key == *key || h.mining.contains(key) || h.vault == *key)
                });
                // (the lamports of a closed mining may be sent anywhere)
                if other && !(k == 8 && a.data == pre.data && a.owner == pre.owner && a.lamports > pre.lamports) {
                    return t.judge(&["P09"], format!("changed {} of another pool: {}", self.role(key), self.describe(ix)));
                }
                if k == 5 && v.pool.map(|p| self.w.pools[p].key == *key).unwrap_or(false) && a.data != pre.data {
                    return t.judge(&["P07"], format!("claim changed the pool: {}", self.describe(ix)));
                }
            }
        }
        Ok(())
    }
}

pub fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

#[derive(Default)]
pub struct Tally {
    pub tries: u64,
    pub must_refuse: u64,
    pub accepted: u64,
    pub other: u64,
    pub variants: u64,
    pub seen: HashSet<u64>,
    pub focus: Option<&'static str>,
    pub sample: Option<String>,
}
impl Tally {
    pub fn judge(&mut self, tags: &[&'static str], msg: String) -> R<()> {
        if self.focus.map(|f| tags.contains(&f)).unwrap_or(true) {
            return viol(tags, msg);
        }
        self.other += 1;
        Ok(())
    }
}

/// the positions of numbers passed as arguments
fn num_offsets(d: &[u8]) -> Vec<usize> {
    match d[0] {
        1 => vec![1, 9],
        3 | 4 | 9 => vec![1],
        6 => vec![3, 11, 19],
        10 => vec![33, 41],
        11 => vec![33],
        _ => vec![],
    }
}

/// the positions of keys passed as arguments
fn arg_offsets(d: &[u8]) -> Vec<usize> {
    match d[0] {
        2 => vec![1],
        3 => vec![10, 42],
        4 => vec![9, 41],
        6 => vec![27, 59],
        9 => vec![9],
        10 | 11 => vec![1],
        _ => vec![],
    }
}

/// all single signer changes and many combined ones
pub fn signer_attacks(s: &Stage, rng: &mut Rng, ix: &Ix, t: &mut Tally) -> R<()> {
    let n = ix.metas.len();
    let signers: Vec<usize> = (0..n).filter(|i| ix.metas[*i].signer).collect();
    // every subset of signatures removed
    for mask in 1..(1u32 << signers.len()) {
        let mut x = ix.clone();
        for (b, i) in signers.iter().enumerate() {
            if mask >> b & 1 == 1 {
                x.metas[*i].signer = false;
            }
        }
        s.attempt(&x, t)?;
    }
    // every signer replaced by everybody who can sign (with and without signing)
    for &i in &signers {
        for (k, r) in s.universe.iter().zip(&s.roles) {
            let person = matches!(*r, "deposit authority" | "distribute authority" | "fill authority" | "staker" | "payer" | "target" | "stranger");
            if !person || *k == ix.metas[i].key {
                continue;
            }
            for sg in [true, false] {
                let mut x = ix.clone();
                x.metas[i].key = *k;
                x.metas[i].signer = sg;
                s.attempt(&x, t)?;
                if let Some(x) = s.bring_purse(&x, k) {
                    s.attempt(&x, t)?;
                }
            }
        }
    }
    // two signers exchanged, or one person in both places
    for &i in &signers {
        for &j in &signers {
            if i != j {
                let mut x = ix.clone();
                x.metas[i].key = ix.metas[j].key;
                if rng.p(0.5) {
                    x.metas[j].key = ix.metas[i].key;
                }
                s.attempt(&x, t)?;
            }
        }
    }
    // the true authority is present elsewhere as a signer, but not in its place
    for &i in &signers {
        let mut x = ix.clone();
        x.metas.push(x.metas[i].clone());
        x.metas[i].key = s.universe[s.roles.iter().position(|r| *r == "stranger").unwrap()];
        s.attempt(&x, t)?;
    }
    Ok(())
}

fn swap_pool(s: &Stage, k: &Pubkey, rng: &mut Rng) -> Option<Pubkey> {
    if s.w.pools.len() < 2 {
        return None;
    }
    for (p, h) in s.w.pools.iter().enumerate() {
        let mut q = rng.idx(s.w.pools.len() - 1);
        if q >= p {
            q += 1;
        }
        let o = &s.w.pools[q];
        let pairs = [(h.key, o.key), (h.mint, o.mint), (h.vault, o.vault), (h.dep, o.dep), (h.dist, o.dist), (h.fill, o.fill), (h.src, o.src)];
        if let Some((_, b)) = pairs.iter().find(|(a, _)| a == k) {
            return Some(*b);
        }
        if let Some(u) = h.mining.iter().position(|m| m == k) {
            return Some(o.mining[u]);
        }
        if let Some(u) = h.tok.iter().position(|m| m == k) {
            return Some(o.tok[u]);
        }
    }
    None
}
fn swap_user(s: &Stage, k: &Pubkey, v: usize) -> Option<Pubkey> {
    for h in &s.w.pools {
        if h.mining.contains(k) {
            return Some(h.mining[v]);
        }
        if h.tok.contains(k) {
            return Some(h.tok[v]);
        }
    }
    if s.w.users.contains(k) {
        return Some(s.w.users[v]);
    }
    None
}

/// every account replaced by every other account; subsets replaced by the other pool's or another
/// staker's accounts; random combinations; duplicates
pub fn account_attacks(s: &Stage, rng: &mut Rng, ix: &Ix, t: &mut Tally, combos: usize) -> R<()> {
    account_attacks_some(s, rng, ix, t, combos, 1.0)
}

/// `part`: the share of single substitutions that is tried
pub fn account_attacks_some(s: &Stage, rng: &mut Rng, ix: &Ix, t: &mut Tally, combos: usize, part: f64) -> R<()> {
    let n = ix.metas.len();
    for i in 0..n {
        for k in &s.universe {
            if *k == ix.metas[i].key || part < 1.0 && !rng.p(part) {
                continue;
            }
            let mut x = ix.clone();
            x.metas[i].key = *k;
            s.attempt(&x, t)?;
            if rng.p(0.1) {
                for m in x.metas.iter_mut() {
                    m.writable = true;
                }
                s.attempt(&x, t)?;
            }
        }
    }
    // another account together with the addresses derived from it
    for k in &s.universe {
        let mut x = ix.clone();
        match ix.data[0] {
            0 => {
                let mut y = ix.clone();
                y.metas[1].key = *k;
                y.metas[2].key = vault_pda(&y.metas[0].key, k).0;
                s.attempt(&y, t)?;
                x.metas[0].key = *k;
                x.metas[2].key = vault_pda(k, &x.metas[1].key).0;
            }
            2 => {
                x.metas[0].key = *k;
                x.metas[1].key = mining_pda(&arg_key(&x.data, 1).unwrap(), k).0;
            }
            _ => break,
        }
        s.attempt(&x, t)?;
    }
    // arguments crossed
    let offs = arg_offsets(&ix.data);
    for o in &offs {
        for u in s.universe.iter().chain(&[Pubkey::default(), mplx_rewards::ID]) {
            if part < 1.0 && !rng.p(part) {
                continue;
            }
            let mut x = ix.clone();
            x.data[*o..*o + 32].copy_from_slice(u.as_ref());
            s.attempt(&x, t)?;
        }
    }
    // another account of the program together with arguments that fit it: its own address or the keys it holds
    if !offs.is_empty() {
        let ours: Vec<&Pubkey> = s.universe.iter().filter(|k| s.bank.get(k).owner == mplx_rewards::ID).collect();
        for i in (0..n).filter(|i| ours.contains(&&ix.metas[*i].key)) {
            for k in ours.iter().filter(|k| ***k != ix.metas[i].key) {
                let d = &s.bank.get(k).data;
                if d.len() < 96 {
                    continue;
                }
                for o in &offs {
                    for v in [k.as_ref(), &d[..32], &d[32..64], &d[64..96]] {
                        if part < 1.0 && !rng.p(part) {
                            continue;
                        }
                        let mut x = ix.clone();
                        x.metas[i].key = **k;
                        x.data[*o..*o + 32].copy_from_slice(v);
                        s.attempt(&x, t)?;
                    }
                }
            }
        }
    }
    // subsets of positions moved to the other pool
    if s.w.pools.len() > 1 {
        for mask in 1..(1u32 << n.min(10)) {
            if part < 1.0 && !rng.p(part) {
                continue;
            }
            let mut x = ix.clone();
            let mut any = false;
            for i in 0..n {
                if mask >> i & 1 == 1 {
                    if let Some(k) = swap_pool(s, &ix.metas[i].key, rng) {
                        x.metas[i].key = k;
                        any = true;
                    }
                }
            }
            if any {
                s.attempt(&x, t)?;
            }
        }
    }
    for _ in 0..combos {
        let mut x = ix.clone();
        let v = rng.idx(s.w.users.len());
        for i in 0..n {
            match rng.idx(8) {
                0 | 1 => {
                    if let Some(k) = swap_pool(s, &x.metas[i].key, rng) {
                        x.metas[i].key = k
                    }
                }
                2 => {
                    if let Some(k) = swap_user(s, &x.metas[i].key, v) {
                        x.metas[i].key = k
                    }
                }
                3 if rng.p(0.4) => x.metas[i].key = *rng.pick(&s.universe),
                4 if rng.p(0.4) => x.metas[i].key = ix.metas[rng.idx(n)].key,
                _ => {}
            }
            if rng.p(0.1) {
                x.metas[i].writable = true;
            }
        }
        for o in &offs {
            if rng.p(0.3) {
                x.data[*o..*o + 32].copy_from_slice(s.w.users[v].as_ref());
            }
        }
        s.attempt(&x, t)?;
    }
    Ok(())
}
