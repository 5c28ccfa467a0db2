//! A small transaction runtime: executes one instruction of the real program against a set of
//! accounts, in the loader's account layout, with privileges, CPI, ownership rules, lamport
//! conservation, rent and rollback.
#![allow(clippy::type_complexity)]
use solana_program::{
    account_info::AccountInfo, clock::Clock, entrypoint::ProgramResult, instruction::Instruction,
    program_error::ProgramError, program_stubs, pubkey::Pubkey, rent::Rent, system_program,
};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;

pub const SLACK: usize = 10 * 1024;
const HDR: usize = 88;
const CANARY: u8 = 0xC5;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Acct {
    pub lamports: u64,
    pub owner: Pubkey,
    pub executable: bool,
    pub data: Arc<Vec<u8>>,
}

impl Acct {
    pub fn empty() -> Self {
        Acct { lamports: 0, owner: system_program::ID, executable: false, data: Arc::new(vec![]) }
    }
    pub fn wallet(lamports: u64) -> Self {
        Acct { lamports, ..Acct::empty() }
    }
    pub fn with_data(owner: Pubkey, data: Vec<u8>) -> Self {
        let lamports = Rent::default().minimum_balance(data.len()).max(1);
        Acct { lamports, owner, executable: false, data: Arc::new(data) }
    }
}

#[derive(Clone, Debug)]
pub struct Meta {
    pub key: Pubkey,
    pub signer: bool,
    pub writable: bool,
}

#[derive(Clone, Debug)]
pub struct Ix {
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
}

impl Ix {
    /// the same call in a transaction that also asks for write access to all its accounts
    pub fn all_writable(&self) -> Ix {
        let mut x = self.clone();
        for m in &mut x.metas {
            m.writable = true;
        }
        x
    }
}

#[derive(Clone, Debug)]
pub struct Delta {
    /// post-state of every account that changed
    pub changes: Vec<(Pubkey, Acct)>,
    pub ret: Option<Vec<u8>>,
    pub cpis: usize,
    /// accounts left without lamports, as they are until the end of the transaction
    pub relics: Vec<(Pubkey, Acct)>,
}

impl Delta {
    pub fn get<'a>(&'a self, k: &Pubkey) -> Option<&'a Acct> {
        self.changes.iter().find(|(x, _)| x == k).map(|(_, a)| a)
    }
}

#[derive(Clone, Debug)]
pub enum Fail {
    /// the program returned an error
    Err(String),
    /// the program panicked (aborts on chain)
    Panic(String),
    /// the runtime refused what the program did (CPI failure, privilege, ownership ...)
    Runtime(String),
    /// memory outside the account's data was written: never acceptable
    Corrupt(String),
}

impl Fail {
    pub fn short(&self) -> String {
        match self {
            Fail::Err(s) => format!("err {s}"),
            Fail::Panic(s) => format!("panic {s}"),
            Fail::Runtime(s) => format!("runtime {s}"),
            Fail::Corrupt(s) => format!("CORRUPT {s}"),
        }
    }
}

#[derive(Clone)]
pub struct Bank {
    pub accts: HashMap<Pubkey, Acct>,
    pub now: i64,
    /// other values for the clock's other fields
    pub skew: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// process_instruction on separately allocated accounts (with canary slack)
    Direct,
    /// process_instruction, accounts allocated exactly (for address sanitizer)
    Tight,
    /// the C ABI entrypoint on one serialised buffer
    Entry,
}

// ---------------------------------------------------------------- thread context

#[derive(Clone)]
struct Raw {
    key: Pubkey,
    signer: bool,
    writable: bool,
    executable: bool,
    owner: *mut [u8; 32],
    lamports: *mut u64,
    len: *mut u64,
    data: *mut u8,
    cap: usize,
}

#[derive(Clone)]
struct Snap {
    owner: Pubkey,
    lamports: u64,
    data: Arc<Vec<u8>>,
}

struct Ctx {
    now: i64,
    skew: u64,
    raws: Vec<Raw>,
    snaps: Vec<Snap>,
    caller: Pubkey,
    cpi_err: Option<String>,
    ret: Option<Vec<u8>>,
    cpis: usize,
    depth: usize,
}

thread_local! {
    static CTX: RefCell<Option<Ctx>> = const { RefCell::new(None) };
    static BUFS: RefCell<Vec<Vec<u128>>> = const { RefCell::new(Vec::new()) };
    static CAPTURE: RefCell<Option<Vec<Sent>>> = const { RefCell::new(None) };
    static METER: Cell<Option<bool>> = const { Cell::new(None) };
    static USED: Cell<crate::meter::Use> = const { Cell::new(crate::meter::Use { heap: 0, biggest: 0, stack: 0, work: 0 }) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

struct Stubs;

impl program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _message: &str) {}
    fn sol_log_data(&self, _fields: &[&[u8]]) {}
    fn sol_log_compute_units(&self) {}
    fn sol_remaining_compute_units(&self) -> u64 {
        1_000_000
    }
    fn sol_get_stack_height(&self) -> u64 {
        CTX.with(|c| c.borrow().as_ref().map(|c| c.depth as u64 + 1).unwrap_or(1))
    }
    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        CTX.with(|c| {
            let c = c.borrow();
            let c = c.as_ref().expect("no ctx");
            let mut clock = Clock {
                slot: 1000 + (c.now as u64).wrapping_mul(2) % 1_000_000_007,
                epoch_start_timestamp: c.now - c.now.rem_euclid(172_800),
                epoch: 500,
                leader_schedule_epoch: 501,
                unix_timestamp: c.now,
            };
            if c.skew != 0 {
                clock.slot = c.skew;
                clock.epoch_start_timestamp = c.now - (c.skew % 1_000_003) as i64;
                clock.epoch = c.skew % 100_003;
                clock.leader_schedule_epoch = clock.epoch + c.skew % 3;
            }
            unsafe { std::ptr::write_unaligned(var_addr as *mut Clock, clock) };
        });
        0
    }
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe { std::ptr::write_unaligned(var_addr as *mut Rent, Rent::default()) };
        0
    }
    fn sol_set_return_data(&self, data: &[u8]) {
        CTX.with(|c| c.borrow_mut().as_mut().unwrap().ret = Some(data.to_vec()));
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        CTX.with(|c| {
            let c = c.borrow();
            let c = c.as_ref().unwrap();
            c.ret.clone().map(|r| (c.caller, r))
        })
    }
    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        // a client's own CPI helper, called outside any program: only record what it sends
        let rec = CAPTURE.with(|c| match c.borrow_mut().as_mut() {
            Some(v) => {
                let seeds = seeds.iter().map(|s| s.iter().map(|b| b.to_vec()).collect()).collect();
                v.push(Sent { ix: ix.clone(), infos: infos.iter().map(|i| *i.key).collect(), seeds });
                true
            }
            None => false,
        });
        if rec {
            return Ok(());
        }
        match crate::meter::pause(|| cpi(ix, infos, seeds)) {
            Ok(()) => Ok(()),
            Err(e) => {
                // a failing CPI ends the whole transaction on chain
                CTX.with(|c| {
                    let mut c = c.borrow_mut();
                    let c = c.as_mut().unwrap();
                    c.cpi_err.get_or_insert(e);
                });
                Err(ProgramError::Custom(0xdead_0001))
            }
        }
    }
}

unsafe fn cur_data<'a>(r: &Raw) -> &'a [u8] {
    std::slice::from_raw_parts(r.data, *r.len as usize)
}

/// what changed since the snapshots must have been allowed to `program`
fn verify(raws: &[Raw], snaps: &[Snap], program: &Pubkey, writable: &dyn Fn(usize) -> bool) -> Result<(), String> {
    let mut before: u128 = 0;
    let mut after: u128 = 0;
    for (i, r) in raws.iter().enumerate() {
        let s = &snaps[i];
        unsafe {
            if (*r.len as usize) > r.cap {
                return Err(format!("account #{i} data length beyond its buffer"));
            }
            let lam = *r.lamports;
            let owner = Pubkey::from(*r.owner);
            let data = cur_data(r);
            before += s.lamports as u128;
            after += lam as u128;
            let dchg = data != &s.data[..];
            if !writable(i) {
                if lam != s.lamports || owner != s.owner || dchg {
                    return Err(format!("read-only account #{i} modified"));
                }
                continue;
            }
            if owner != s.owner {
                if s.owner != *program {
                    return Err(format!("account #{i}: owner changed by a foreign program"));
                }
                if data.iter().any(|b| *b != 0) {
                    return Err(format!("account #{i}: owner changed with data left"));
                }
            }
            if dchg && s.owner != *program {
                return Err(format!("account #{i}: data changed by a foreign program"));
            }
            if lam < s.lamports && s.owner != *program {
                return Err(format!("account #{i}: lamports taken by a foreign program"));
            }
            if r.executable && (dchg || lam != s.lamports) {
                return Err(format!("account #{i}: executable modified"));
            }
        }
    }
    if before != after {
        return Err("sum of lamports changed".into());
    }
    Ok(())
}

fn resnap(raws: &[Raw], snaps: &mut [Snap]) {
    for (r, s) in raws.iter().zip(snaps.iter_mut()) {
        unsafe {
            s.owner = Pubkey::from(*r.owner);
            s.lamports = *r.lamports;
            let d = cur_data(r);
            if d != &s.data[..] {
                s.data = Arc::new(d.to_vec());
            }
        }
    }
}

fn cpi(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> Result<(), String> {
    let (raws, mut snaps, caller) = CTX.with(|c| {
        let mut c = c.borrow_mut();
        let c = c.as_mut().unwrap();
        c.cpis += 1;
        // every invocation starts without return data
        c.ret = None;
        (c.raws.clone(), c.snaps.clone(), c.caller)
    });
    if seeds.len() > 16 {
        return Err("too many signers".into());
    }
    let mut pdas = vec![];
    for s in seeds {
        pdas.push(Pubkey::create_program_address(s, &caller).map_err(|e| format!("bad seeds {e:?}"))?);
    }
    // the caller's changes so far
    verify(&raws, &snaps, &caller, &|i| raws[i].writable)?;
    resnap(&raws, &mut snaps);
    if !raws.iter().any(|r| r.key == ix.program_id) {
        return Err("CPI: program account missing".into());
    }
    let mut callee_infos: Vec<AccountInfo> = vec![];
    let mut callee_w: Vec<Pubkey> = vec![];
    for m in &ix.accounts {
        let info = infos.iter().find(|i| *i.key == m.pubkey).ok_or("CPI: account missing")?;
        let raw = raws.iter().find(|r| r.key == m.pubkey).ok_or("CPI: unknown account")?;
        if m.is_writable && !raw.writable {
            return Err("CPI: writable privilege escalated".into());
        }
        if m.is_signer && !raw.signer && !pdas.contains(&m.pubkey) {
            return Err("CPI: signer privilege escalated".into());
        }
        if m.is_writable {
            callee_w.push(m.pubkey);
        }
        let mut i = info.clone();
        i.is_signer = m.is_signer;
        i.is_writable = m.is_writable;
        callee_infos.push(i);
    }
    CTX.with(|c| c.borrow_mut().as_mut().unwrap().depth += 1);
    let res: Result<(), String> = if ix.program_id == system_program::ID {
        system(ix, &callee_infos)
    } else if ix.program_id == spl_token::ID {
        // SAFETY: the infos outlive the call
        let cinfos: &[AccountInfo] = &callee_infos;
        match catch_unwind(AssertUnwindSafe(|| {
            spl_token::processor::Processor::process(&spl_token::ID, cinfos, &ix.data)
        })) {
            Ok(r) => r.map_err(|e| format!("token: {e:?}")),
            Err(_) => Err("token: panic".into()),
        }
    } else {
        Err(format!("CPI to unknown program {}", ix.program_id))
    };
    CTX.with(|c| c.borrow_mut().as_mut().unwrap().depth -= 1);
    res?;
    verify(&raws, &snaps, &ix.program_id, &|i| callee_w.contains(&raws[i].key))?;
    resnap(&raws, &mut snaps);
    CTX.with(|c| c.borrow_mut().as_mut().unwrap().snaps = snaps);
    Ok(())
}

fn rd_u64(d: &[u8], o: usize) -> Result<u64, String> {
    d.get(o..o + 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).ok_or("system: short data".into())
}
fn rd_key(d: &[u8], o: usize) -> Result<Pubkey, String> {
    d.get(o..o + 32).map(|b| Pubkey::try_from(b).unwrap()).ok_or("system: short data".into())
}

/// system program: create_account, assign, transfer, allocate
fn system(ix: &Instruction, a: &[AccountInfo]) -> Result<(), String> {
    let d = &ix.data;
    let tag = d.get(..4).map(|b| u32::from_le_bytes(b.try_into().unwrap())).ok_or("system: short")?;
    let acc = |i: usize| a.get(i).ok_or_else(|| "system: missing account".to_string());
    let transfer = |from: &AccountInfo, to: &AccountInfo, lam: u64| -> Result<(), String> {
        if !from.is_signer {
            return Err("system: from must sign".into());
        }
        if !from.data_is_empty() {
            return Err("system: from carries data".into());
        }
        if *from.owner != system_program::ID {
            return Err("system: from not owned by system".into());
        }
        let f = from.lamports();
        if f < lam {
            return Err("system: insufficient lamports".into());
        }
        **from.try_borrow_mut_lamports().map_err(|e| format!("{e:?}"))? = f - lam;
        let t = to.lamports();
        **to.try_borrow_mut_lamports().map_err(|e| format!("{e:?}"))? = t.checked_add(lam).ok_or("overflow")?;
        Ok(())
    };
    let allocate = |to: &AccountInfo, space: u64| -> Result<(), String> {
        if !to.is_signer {
            return Err("system: allocate needs signature".into());
        }
        if !to.data_is_empty() || *to.owner != system_program::ID {
            return Err("system: account already in use".into());
        }
        if space > SLACK as u64 {
            return Err("system: too large for a CPI".into());
        }
        to.realloc(space as usize, true).map_err(|e| format!("{e:?}"))
    };
    let assign = |to: &AccountInfo, owner: Pubkey| -> Result<(), String> {
        if *to.owner == owner {
            return Ok(());
        }
        if !to.is_signer {
            return Err("system: assign needs signature".into());
        }
        if *to.owner != system_program::ID {
            return Err("system: assign of a foreign account".into());
        }
        to.assign(&owner);
        Ok(())
    };
    match tag {
        0 => {
            let (lam, space, owner) = (rd_u64(d, 4)?, rd_u64(d, 12)?, rd_key(d, 20)?);
            let (from, to) = (acc(0)?, acc(1)?);
            if to.lamports() > 0 {
                return Err("system: account already in use".into());
            }
            allocate(to, space)?;
            assign(to, owner)?;
            transfer(from, to, lam)
        }
        1 => assign(acc(0)?, rd_key(d, 4)?),
        2 => transfer(acc(0)?, acc(1)?, rd_u64(d, 4)?),
        8 => allocate(acc(0)?, rd_u64(d, 4)?),
        _ => Err("system: unsupported instruction".into()),
    }
}

/// what was passed to `invoke` or `invoke_signed`
#[derive(Clone, Debug)]
pub struct Sent {
    pub ix: Instruction,
    pub infos: Vec<Pubkey>,
    pub seeds: Vec<Vec<Vec<u8>>>,
}

/// what `f` passes to `invoke`, with the account infos passed along
pub fn capture(f: impl FnOnce()) -> Vec<Sent> {
    CAPTURE.with(|c| *c.borrow_mut() = Some(vec![]));
    let r = catch_unwind(AssertUnwindSafe(f));
    let v = CAPTURE.with(|c| c.borrow_mut().take()).unwrap_or_default();
    match r {
        Ok(()) => v,
        Err(e) => std::panic::resume_unwind(e),
    }
}

pub fn init() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        program_stubs::set_syscall_stubs(Box::new(Stubs));
        let default = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            if CTX.with(|c| c.try_borrow().map(|c| c.is_some()).unwrap_or(true)) {
                let s = info.to_string();
                LAST_PANIC.with(|p| *p.borrow_mut() = s);
            } else {
                default(info)
            }
        }));
    });
}

/// what a caller of the program's library functions gets when the clock shows `now`
pub fn at_time<T>(now: i64, f: impl FnOnce() -> T) -> Result<T, String> {
    init();
    let ctx = Ctx { now, skew: 0, raws: vec![], snaps: vec![], caller: Pubkey::default(), cpi_err: None, ret: None, cpis: 0, depth: 0 };
    CTX.with(|c| *c.borrow_mut() = Some(ctx));
    let r = catch_unwind(AssertUnwindSafe(f));
    CTX.with(|c| *c.borrow_mut() = None);
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

static CANARIES: [u8; SLACK] = [CANARY; SLACK];

fn take_buf(words: usize) -> Vec<u128> {
    BUFS.with(|b| {
        let mut b = b.borrow_mut();
        if let Some(p) = b.iter().position(|v| v.capacity() >= words && v.capacity() <= words * 4 + 64) {
            let mut v = b.swap_remove(p);
            v.clear();
            v
        } else {
            Vec::with_capacity(words)
        }
    })
}
fn give_buf(v: Vec<u128>) {
    BUFS.with(|b| {
        let mut b = b.borrow_mut();
        if b.len() < 24 {
            b.push(v)
        }
    })
}

impl Bank {
    pub fn new(now: i64) -> Self {
        let mut b = Bank { accts: HashMap::new(), now, skew: 0 };
        let loader = Pubkey::new_from_array([7; 32]);
        for k in [system_program::ID, spl_token::ID, mplx_rewards::ID] {
            b.accts.insert(k, Acct { lamports: 1, owner: loader, executable: true, data: Arc::new(vec![]) });
        }
        let r = Rent::default();
        let mut d = r.lamports_per_byte_year.to_le_bytes().to_vec();
        d.extend(r.exemption_threshold.to_le_bytes());
        d.push(r.burn_percent);
        b.accts.insert(
            solana_program::sysvar::rent::ID,
            Acct { lamports: 1_009_200, owner: solana_program::sysvar::ID, executable: false, data: Arc::new(d) },
        );
        b
    }
    pub fn get(&self, k: &Pubkey) -> Acct {
        self.accts.get(k).cloned().unwrap_or_else(Acct::empty)
    }
    pub fn set(&mut self, k: Pubkey, a: Acct) {
        if a.lamports == 0 {
            self.accts.remove(&k);
        } else {
            self.accts.insert(k, a);
        }
    }
    pub fn commit(&mut self, d: &Delta) {
        for (k, a) in &d.changes {
            self.set(*k, a.clone());
        }
    }
    pub fn run(&mut self, ix: &Ix) -> Result<Delta, Fail> {
        let d = self.exec(ix)?;
        self.commit(&d);
        Ok(d)
    }
    pub fn exec(&self, ix: &Ix) -> Result<Delta, Fail> {
        self.exec_mode(ix, Mode::Direct)
    }

    /// as on chain: through the C ABI entrypoint, which is what decides whether the changes
    /// stay. A call that panics is not repeated there (it would abort the process).
    pub fn exec_real(&self, ix: &Ix) -> Result<Delta, Fail> {
        let direct = self.exec(ix);
        if let Err(Fail::Panic(_) | Fail::Corrupt(_)) = &direct {
            return direct;
        }
        match (direct, self.exec_mode(ix, Mode::Entry)) {
            (d, Err(Fail::Runtime(s))) if s.starts_with("harness") => d,
            // same verdict, with the better message
            (d @ Err(_), Err(Fail::Err(_) | Fail::Runtime(_))) => d,
            (_, e) => e,
        }
    }

    /// the verdict and the error that the caller sees
    pub fn exec_named(&self, ix: &Ix) -> Result<Delta, Fail> {
        let direct = self.exec(ix);
        if let Err(Fail::Panic(_) | Fail::Corrupt(_)) = &direct {
            return direct;
        }
        match self.exec_mode(ix, Mode::Entry) {
            Err(Fail::Runtime(s)) if s.starts_with("harness") => direct,
            r => r,
        }
    }

    /// through the entrypoint, with the heap and stack it used; not after a panic
    pub fn exec_metered(&self, ix: &Ix, stack: bool) -> (Result<Delta, Fail>, Option<crate::meter::Use>) {
        let direct = self.exec(ix);
        if let Err(Fail::Panic(_) | Fail::Corrupt(_)) = &direct {
            return (direct, None);
        }
        METER.with(|m| m.set(Some(stack)));
        USED.with(|u| u.set(Default::default()));
        let r = self.exec_mode(ix, Mode::Entry);
        METER.with(|m| m.set(None));
        (r, Some(USED.with(|u| u.get())))
    }

    pub fn exec_mode(&self, ix: &Ix, mode: Mode) -> Result<Delta, Fail> {
        init();
        // unique accounts, privileges united as in a transaction
        let mut uniq: Vec<Meta> = vec![];
        let mut map: Vec<usize> = vec![];
        for m in &ix.metas {
            if let Some(p) = uniq.iter().position(|u| u.key == m.key) {
                uniq[p].signer |= m.signer;
                uniq[p].writable |= m.writable;
                map.push(p);
            } else {
                uniq.push(m.clone());
                map.push(uniq.len() - 1);
            }
        }
        let pre: Vec<Acct> = uniq.iter().map(|u| self.get(&u.key)).collect();
        // sysvars and programs are never writable
        for (u, a) in uniq.iter_mut().zip(&pre) {
            if a.executable || a.owner == solana_program::sysvar::ID {
                u.writable = false;
            }
        }
        let mut raws: Vec<Raw> = vec![];
        let mut bufs: Vec<Vec<u128>> = vec![];
        let mut entry_buf: Option<Vec<u128>> = None;
        match mode {
            Mode::Direct | Mode::Tight => {
                for (u, a) in uniq.iter().zip(&pre) {
                    let slack = if mode == Mode::Tight && !a.data.is_empty() { 0 } else { SLACK };
                    let bytes = 8 + HDR + a.data.len() + slack;
                    let words = bytes.div_ceil(16);
                    let mut v = if mode == Mode::Tight { Vec::with_capacity(words) } else { take_buf(words) };
                    unsafe {
                        let base = (v.as_mut_ptr() as *mut u8).add(8);
                        raws.push(fill_acct(base, u, a, slack));
                    }
                    bufs.push(v);
                }
            }
            Mode::Entry => {
                let mut total = 8;
                let mut seen = vec![false; uniq.len()];
                for &p in &map {
                    if seen[p] {
                        total += 8;
                    } else {
                        seen[p] = true;
                        let len = pre[p].data.len();
                        total += HDR + len + SLACK;
                        total += (8 - total % 8) % 8;
                        total += 8;
                    }
                }
                total += 8 + ix.data.len() + 32;
                let words = total.div_ceil(16);
                let mut v: Vec<u128> = vec![0; words];
                let base = v.as_mut_ptr() as *mut u8;
                let mut off = 0usize;
                let mut first: Vec<Option<usize>> = vec![None; uniq.len()];
                let mut raw_of: Vec<Option<Raw>> = vec![None; uniq.len()];
                unsafe {
                    std::ptr::write_unaligned(base as *mut u64, map.len() as u64);
                    off += 8;
                    for (i, &p) in map.iter().enumerate() {
                        if let Some(f) = first[p] {
                            *base.add(off) = f as u8;
                            off += 8;
                            continue;
                        }
                        first[p] = Some(i);
                        let r = fill_acct(base.add(off), &uniq[p], &pre[p], SLACK);
                        if pre[p].owner == mplx_rewards::ID && !pre[p].data.is_empty() && (r.data as usize) % 16 != 0 {
                            return Err(Fail::Runtime("harness: unaligned in entry mode".into()));
                        }
                        raw_of[p] = Some(r);
                        off += HDR + pre[p].data.len() + SLACK;
                        off += (8 - off % 8) % 8;
                        std::ptr::write_unaligned(base.add(off) as *mut u64, 0);
                        off += 8;
                    }
                    std::ptr::write_unaligned(base.add(off) as *mut u64, ix.data.len() as u64);
                    off += 8;
                    std::ptr::copy_nonoverlapping(ix.data.as_ptr(), base.add(off), ix.data.len());
                    off += ix.data.len();
                    std::ptr::copy_nonoverlapping(mplx_rewards::ID.as_ref().as_ptr(), base.add(off), 32);
                }
                raws = raw_of.into_iter().map(|r| r.unwrap()).collect();
                entry_buf = Some(v);
            }
        }
        let snaps: Vec<Snap> = pre
            .iter()
            .map(|a| Snap { owner: a.owner, lamports: a.lamports, data: a.data.clone() })
            .collect();
        CTX.with(|c| {
            *c.borrow_mut() = Some(Ctx {
                now: self.now,
                skew: self.skew,
                raws: raws.clone(),
                snaps,
                caller: mplx_rewards::ID,
                cpi_err: None,
                ret: None,
                cpis: 0,
                depth: 0,
            })
        });
        let res: Result<Result<(), String>, ()> = match mode {
            Mode::Entry => {
                let buf = entry_buf.as_mut().unwrap();
                let at = buf.as_mut_ptr() as *mut u8;
                let r = match METER.with(|m| m.get()) {
                    Some(stack) => {
                        let (r, u) = crate::meter::measure(stack, || unsafe { mplx_rewards::entrypoint::entrypoint(at) });
                        USED.with(|x| x.set(u));
                        r
                    }
                    None => unsafe { mplx_rewards::entrypoint::entrypoint(at) },
                };
                Ok(if r == 0 { Ok(()) } else { Err(format!("{:?}", solana_program::program_error::ProgramError::from(r))) })
            }
            _ => {
                let mut infos: Vec<AccountInfo<'static>> = vec![];
                let mut of: Vec<Option<usize>> = vec![None; uniq.len()];
                for &p in &map {
                    if let Some(f) = of[p] {
                        let c = infos[f].clone();
                        infos.push(c);
                        continue;
                    }
                    of[p] = Some(infos.len());
                    let r = &raws[p];
                    // SAFETY: the buffers outlive the call; every reference ends before they do
                    unsafe {
                        let key: &'static Pubkey = &*((r.owner as *const u8).sub(32) as *const Pubkey);
                        infos.push(AccountInfo {
                            key,
                            lamports: Rc::new(RefCell::new(&mut *r.lamports)),
                            data: Rc::new(RefCell::new(std::slice::from_raw_parts_mut(r.data, *r.len as usize))),
                            owner: &*(r.owner as *const Pubkey),
                            rent_epoch: 0,
                            is_signer: r.signer,
                            is_writable: r.writable,
                            executable: r.executable,
                        });
                    }
                }
                let infos: Box<[AccountInfo<'static>]> = infos.into_boxed_slice();
                let ptr: *mut [AccountInfo<'static>] = Box::into_raw(infos);
                let data = ix.data.clone();
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let sl: &'static [AccountInfo<'static>] = unsafe { &*ptr };
                    mplx_rewards::instructions::process_instruction(&mplx_rewards::ID, sl, &data)
                }));
                drop(unsafe { Box::from_raw(ptr) });
                match r {
                    Ok(Ok(())) => Ok(Ok(())),
                    Ok(Err(e)) => Ok(Err(format!("{e:?}"))),
                    Err(_) => Err(()),
                }
            }
        };
        let ctx = CTX.with(|c| c.borrow_mut().take().unwrap());
        let out = self.finish(&uniq, &pre, &raws, &ctx, res);
        if mode == Mode::Direct {
            for b in bufs {
                give_buf(b)
            }
        }
        out
    }

    fn finish(
        &self,
        uniq: &[Meta],
        pre: &[Acct],
        raws: &[Raw],
        ctx: &Ctx,
        res: Result<Result<(), String>, ()>,
    ) -> Result<Delta, Fail> {
        // canaries: bytes after each account's data
        for (i, r) in raws.iter().enumerate() {
            unsafe {
                let len = *r.len as usize;
                if len > r.cap {
                    return Err(Fail::Corrupt(format!("account #{i}: length field {len} beyond buffer")));
                }
                let start = len.max(pre[i].data.len());
                let tail = std::slice::from_raw_parts(r.data.add(start), r.cap - start);
                // a shrunk or regrown account may legitimately have left other bytes
                if len == pre[i].data.len() && tail != &CANARIES[..tail.len()] {
                    return Err(Fail::Corrupt(format!("account #{i}: bytes beyond its data were written")));
                }
                let key = Pubkey::try_from(std::slice::from_raw_parts((r.owner as *const u8).sub(32), 32)).unwrap();
                if key != uniq[i].key {
                    return Err(Fail::Corrupt(format!("account #{i}: key overwritten")));
                }
            }
        }
        match res {
            Err(()) => return Err(Fail::Panic(LAST_PANIC.with(|p| p.borrow().clone()))),
            Ok(Err(e)) => {
                return Err(match &ctx.cpi_err {
                    Some(c) => Fail::Runtime(c.clone()),
                    None => Fail::Err(e),
                })
            }
            Ok(Ok(())) => {}
        }
        if let Some(e) = &ctx.cpi_err {
            return Err(Fail::Runtime(e.clone()));
        }
        verify(raws, &ctx.snaps, &mplx_rewards::ID, &|i| raws[i].writable).map_err(Fail::Runtime)?;
        let rent = Rent::default();
        let mut changes = vec![];
        let mut relics = vec![];
        for (i, r) in raws.iter().enumerate() {
            unsafe {
                let d = cur_data(r);
                let lam = *r.lamports;
                let owner = Pubkey::from(*r.owner);
                let p = &pre[i];
                if lam == p.lamports && owner == p.owner && d == &p.data[..] {
                    continue;
                }
                if lam > 0 && !rent.is_exempt(lam, d.len()) {
                    let ok = p.lamports > 0 && !rent.is_exempt(p.lamports, p.data.len()) && p.data.len() == d.len() && lam <= p.lamports;
                    if !ok {
                        return Err(Fail::Runtime(format!("account #{i}: not rent exempt")));
                    }
                }
                let data = if d == &p.data[..] { p.data.clone() } else { Arc::new(d.to_vec()) };
                let a = Acct { lamports: lam, owner, executable: p.executable, data };
                let a = if lam == 0 {
                    relics.push((uniq[i].key, a));
                    Acct::empty()
                } else {
                    a
                };
                changes.push((uniq[i].key, a));
            }
        }
        Ok(Delta { changes, ret: ctx.ret.clone(), cpis: ctx.cpis, relics })
    }
}

unsafe fn fill_acct(base: *mut u8, u: &Meta, a: &Acct, slack: usize) -> Raw {
    *base = 0xff;
    *base.add(1) = u.signer as u8;
    *base.add(2) = u.writable as u8;
    *base.add(3) = a.executable as u8;
    std::ptr::write_unaligned(base.add(4) as *mut u32, a.data.len() as u32);
    std::ptr::copy_nonoverlapping(u.key.as_ref().as_ptr(), base.add(8), 32);
    std::ptr::copy_nonoverlapping(a.owner.as_ref().as_ptr(), base.add(40), 32);
    std::ptr::write_unaligned(base.add(72) as *mut u64, a.lamports);
    std::ptr::write_unaligned(base.add(80) as *mut u64, a.data.len() as u64);
    std::ptr::copy_nonoverlapping(a.data.as_ptr(), base.add(88), a.data.len());
    // canary bytes behind the data; whoever grows an account zeroes it
    std::ptr::write_bytes(base.add(88 + a.data.len()), CANARY, slack);
    Raw {
        key: u.key,
        signer: u.signer,
        writable: u.writable,
        executable: a.executable,
        owner: base.add(40) as *mut [u8; 32],
        lamports: base.add(72) as *mut u64,
        len: base.add(80) as *mut u64,
        data: base.add(88),
        cap: a.data.len() + slack,
    }
}
