//! A small, deterministic Solana runtime that executes the *real* presale program (its generated
//! `entry` function, compiled for the host) together with the real SPL Token and Token-2022
//! processors. It owns every source of nondeterminism: clock, rent, account contents, CPI.
//!
//! Fidelity rules enforced (as in the on-chain runtime):
//!  * an instruction either commits completely or has no effect (errors and panics roll back);
//!  * data may be changed only by the owning program and only through a writable account;
//!  * lamports may be debited only by the owning program, credited only to writable accounts;
//!  * the sum of lamports is preserved; accounts left with 0 lamports disappear;
//!  * CPIs may not escalate signer / writable privileges except for PDA signer seeds;
//!  * a fresh account must be rent exempt.

use solana_program::{
    account_info::AccountInfo,
    clock::Clock,
    entrypoint::ProgramResult,
    instruction::{AccountMeta, Instruction},
    program_error::ProgramError,
    program_stubs::{set_syscall_stubs, SyscallStubs},
    pubkey::Pubkey,
    rent::Rent,
};
use std::{
    cell::{Cell, RefCell},
    collections::BTreeMap,
    panic::{catch_unwind, AssertUnwindSafe},
    rc::Rc,
    sync::{Arc, Once},
};

pub const SYSTEM_ID: Pubkey = Pubkey::new_from_array([0u8; 32]);
pub const LOADER_ID: Pubkey =
    Pubkey::from_str_const("BPFLoaderUpgradeab1e11111111111111111111111");
pub const MEMO_ID: Pubkey = Pubkey::from_str_const("MemoSq4gqABAXKb96qnH8TysNcWxMyWCqXgDLGmfcHr");
pub const ATA_ID: Pubkey = Pubkey::from_str_const("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL");
/// Native transfer-hook program provided by the harness (counts its executions).
pub const HOOK_ID: Pubkey = Pubkey::from_str_const("abcSyangMHdGzUGKhBhKoQzSFdJKUdkPGf5cbXVHpEw");

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Acct {
    pub lamports: u64,
    pub owner: Pubkey,
    pub executable: bool,
    pub data: Vec<u8>,
}

/// The account database: persistent (copy on write per account), cheap to clone.
#[derive(Clone, Default)]
pub struct Db {
    pub m: BTreeMap<Pubkey, Arc<Acct>>,
}

impl Db {
    pub fn get(&self, k: &Pubkey) -> Option<&Acct> {
        self.m.get(k).map(|a| a.as_ref())
    }
    pub fn data(&self, k: &Pubkey) -> &[u8] {
        self.m.get(k).map(|a| a.data.as_slice()).unwrap_or(&[])
    }
    pub fn put(&mut self, k: Pubkey, a: Acct) {
        self.m.insert(k, Arc::new(a));
    }
    pub fn fund(&mut self, k: Pubkey, lamports: u64) {
        self.put(k, Acct { lamports, owner: SYSTEM_ID, executable: false, data: vec![] });
    }
    pub fn program(&mut self, k: Pubkey) {
        self.put(k, Acct { lamports: 1, owner: LOADER_ID, executable: true, data: vec![] });
    }
    /// SPL token account balance (0 if the account does not exist).
    pub fn tok(&self, k: &Pubkey) -> u64 {
        let d = self.data(k);
        if d.len() < 72 { 0 } else { u64::from_le_bytes(d[64..72].try_into().unwrap()) }
    }
    pub fn mint_supply(&self, k: &Pubkey) -> u64 {
        let d = self.data(k);
        if d.len() < 44 { 0 } else { u64::from_le_bytes(d[36..44].try_into().unwrap()) }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Now {
    pub ts: i64,
    pub epoch: u64,
}

#[derive(Clone, Debug)]
pub struct InnerIx {
    pub depth: usize,
    pub ix: Instruction,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ExecErr {
    Program(String),
    Panic,
    Runtime(String),
}

pub struct ExecOk {
    pub db: Db,
    pub inner: Vec<InnerIx>,
}

// ------------------------------------------------------------------------------------------

#[repr(C, align(16))]
struct Buf([u8; BUF]);
const HDR: usize = 88;
const BUF: usize = 88 + 1024 * 14 + 8;

struct Slot {
    key: Pubkey,
    buf: Box<Buf>,
    // checkpoint used for the ownership rules
    cp_data: Vec<u8>,
    cp_lamports: u64,
    cp_owner: Pubkey,
    writable: bool,
    executable: bool,
    existed: bool,
}

impl Slot {
    fn len(&self) -> usize {
        u64::from_le_bytes(self.buf.0[80..88].try_into().unwrap()) as usize
    }
    fn lamports(&self) -> u64 {
        u64::from_le_bytes(self.buf.0[72..80].try_into().unwrap())
    }
    fn owner(&self) -> Pubkey {
        Pubkey::new_from_array(self.buf.0[40..72].try_into().unwrap())
    }
    fn data(&self) -> &[u8] {
        &self.buf.0[HDR..HDR + self.len()]
    }
}

struct Frame {
    program: Pubkey,
    children: Vec<Instruction>,
}

#[derive(Default)]
struct Ctx {
    slots: Vec<Slot>,
    frames: Vec<Frame>,
    now: Option<Now>,
    ret: Option<(Pubkey, Vec<u8>)>,
    inner: Vec<InnerIx>,
    violation: Option<String>,
    logs: Vec<String>,
}

thread_local! {
    static POOL: RefCell<Vec<Box<Buf>>> = const { RefCell::new(Vec::new()) };
    static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
    pub static KEEP_LOGS: Cell<bool> = const { Cell::new(false) };
    pub static LAST_LOGS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

struct Stubs;

fn rent() -> Rent {
    Rent::default()
}

fn checkpoint(ctx: &mut Ctx, program: &Pubkey) -> Result<(), String> {
    let mut before: u128 = 0;
    let mut after: u128 = 0;
    for s in ctx.slots.iter_mut() {
        let len = u64::from_le_bytes(s.buf.0[80..88].try_into().unwrap()) as usize;
        let lam = u64::from_le_bytes(s.buf.0[72..80].try_into().unwrap());
        let owner = Pubkey::new_from_array(s.buf.0[40..72].try_into().unwrap());
        before += u128::from(s.cp_lamports);
        after += u128::from(lam);
        let data = &s.buf.0[HDR..HDR + len];
        let changed = data != s.cp_data.as_slice();
        if changed {
            if !s.writable {
                return Err(format!("readonly data modified {}", s.key));
            }
            if s.cp_owner != *program {
                return Err(format!("external account data modified {}", s.key));
            }
        }
        if owner != s.cp_owner {
            if !s.writable || s.cp_owner != *program {
                return Err(format!("illegal owner change {}", s.key));
            }
            if owner != SYSTEM_ID && *program != SYSTEM_ID && data.iter().any(|b| *b != 0) {
                return Err(format!("owner change on non-zeroed data {}", s.key));
            }
        }
        if lam != s.cp_lamports {
            if !s.writable {
                return Err(format!("readonly lamports modified {}", s.key));
            }
            if lam < s.cp_lamports && s.cp_owner != *program {
                return Err(format!("external lamport spend {}", s.key));
            }
        }
        if changed {
            s.cp_data.clear();
            s.cp_data.extend_from_slice(data);
        }
        s.cp_lamports = lam;
        s.cp_owner = owner;
    }
    if before != after {
        return Err("unbalanced instruction".into());
    }
    Ok(())
}

impl SyscallStubs for Stubs {
    fn sol_log(&self, message: &str) {
        if KEEP_LOGS.with(|k| k.get()) {
            CTX.with(|c| c.borrow_mut().logs.push(message.to_string()));
        }
    }
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_log_compute_units(&self) {}
    fn sol_remaining_compute_units(&self) -> u64 {
        1_000_000
    }
    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        let now = CTX.with(|c| c.borrow().now.unwrap());
        let clock = Clock {
            slot: 1000 + now.ts as u64,
            epoch_start_timestamp: 0,
            epoch: now.epoch,
            leader_schedule_epoch: now.epoch + 1,
            unix_timestamp: now.ts,
        };
        unsafe { std::ptr::write_unaligned(var_addr as *mut Clock, clock) };
        0
    }
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe { std::ptr::write_unaligned(var_addr as *mut Rent, rent()) };
        0
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        CTX.with(|c| c.borrow().ret.clone())
    }
    fn sol_set_return_data(&self, data: &[u8]) {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            let p = c.frames.last().unwrap().program;
            c.ret = Some((p, data.to_vec()));
        })
    }
    fn sol_get_stack_height(&self) -> u64 {
        CTX.with(|c| c.borrow().frames.len() as u64)
    }
    fn sol_get_processed_sibling_instruction(&self, index: usize) -> Option<Instruction> {
        CTX.with(|c| {
            let c = c.borrow();
            let n = c.frames.len();
            if n < 2 {
                return None;
            }
            // siblings of the currently executing instruction are the parent's finished children
            let ch = &c.frames[n - 2].children;
            if index < ch.len() { Some(ch[ch.len() - 1 - index].clone()) } else { None }
        })
    }
    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        let caller = CTX.with(|c| c.borrow().frames.last().unwrap().program);
        let depth = CTX.with(|c| c.borrow().frames.len());
        if depth >= 5 {
            return Err(ProgramError::Custom(0xdead));
        }
        // the caller must have respected the ownership rules so far
        if let Err(e) = CTX.with(|c| checkpoint(&mut c.borrow_mut(), &caller)) {
            CTX.with(|c| c.borrow_mut().violation = Some(e));
            return Err(ProgramError::Custom(0xdead));
        }
        let mut pda = vec![];
        for s in seeds {
            pda.push(
                Pubkey::create_program_address(s, &caller)
                    .map_err(|_| ProgramError::InvalidSeeds)?,
            );
        }
        let mut callee: Vec<AccountInfo> = Vec::with_capacity(ix.accounts.len());
        for m in &ix.accounts {
            let Some(ai) = infos.iter().find(|a| *a.key == m.pubkey) else {
                return Err(ProgramError::NotEnoughAccountKeys);
            };
            // duplicated metas get the union of their privileges (as the runtime does)
            let signer = ix.accounts.iter().any(|x| x.pubkey == m.pubkey && x.is_signer);
            let writable = ix.accounts.iter().any(|x| x.pubkey == m.pubkey && x.is_writable);
            if signer && !(ai.is_signer || pda.contains(&m.pubkey)) {
                CTX.with(|c| c.borrow_mut().violation = Some("signer privilege escalation".into()));
                return Err(ProgramError::MissingRequiredSignature);
            }
            if writable && !ai.is_writable {
                CTX.with(|c| c.borrow_mut().violation = Some("writable privilege escalation".into()));
                return Err(ProgramError::Custom(0xdead));
            }
            let mut a = ai.clone();
            a.is_signer = signer;
            a.is_writable = writable;
            callee.push(a);
        }
        let exists = CTX.with(|c| {
            let mut c = c.borrow_mut();
            c.inner.push(InnerIx { depth, ix: ix.clone() });
            let ok = c.slots.iter().any(|s| s.key == ix.program_id && s.executable);
            c.frames.push(Frame { program: ix.program_id, children: vec![] });
            ok
        });
        let r = if exists {
            dispatch(&ix.program_id, &callee, &ix.data)
        } else {
            Err(ProgramError::IncorrectProgramId)
        };
        let r = match r {
            Ok(()) => CTX
                .with(|c| checkpoint(&mut c.borrow_mut(), &ix.program_id))
                .map_err(|e| {
                    CTX.with(|c| c.borrow_mut().violation = Some(e));
                    ProgramError::Custom(0xdead)
                }),
            Err(e) => {
                // on chain, an error in a CPI aborts the whole transaction
                CTX.with(|c| {
                    let mut c = c.borrow_mut();
                    if c.violation.is_none() {
                        c.violation = Some(format!("cpi failed: {e:?}"));
                    }
                });
                Err(e)
            }
        };
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            c.frames.pop();
            if let Some(f) = c.frames.last_mut() {
                f.children.push(ix.clone());
            }
        });
        r
    }
}

fn dispatch(program: &Pubkey, accounts: &[AccountInfo], data: &[u8]) -> ProgramResult {
    if *program == SYSTEM_ID {
        system_program(accounts, data)
    } else if *program == spl_token::ID {
        spl_token::processor::Processor::process(program, accounts, data)
    } else if *program == spl_token_2022::ID {
        spl_token_2022::processor::Processor::process(program, accounts, data)
    } else if *program == MEMO_ID {
        if std::str::from_utf8(data).is_err() {
            return Err(ProgramError::InvalidInstructionData);
        }
        for a in accounts {
            if !a.is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
        }
        Ok(())
    } else if *program == HOOK_ID {
        hook_program(program, accounts, data)
    } else if *program == presale::ID {
        // SAFETY: the slice outlives the call; `entry` ties both lifetimes to 'info.
        let a: &'static [AccountInfo<'static>] = unsafe { std::mem::transmute(accounts) };
        presale::entry(program, a, data)
    } else {
        Err(ProgramError::IncorrectProgramId)
    }
}

fn system_program(accounts: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let rd64 = |o: usize| -> Result<u64, ProgramError> {
        data.get(o..o + 8)
            .map(|b| u64::from_le_bytes(b.try_into().unwrap()))
            .ok_or(ProgramError::InvalidInstructionData)
    };
    let rdk = |o: usize| -> Result<Pubkey, ProgramError> {
        data.get(o..o + 32)
            .map(|b| Pubkey::new_from_array(b.try_into().unwrap()))
            .ok_or(ProgramError::InvalidInstructionData)
    };
    let tag = u32::from_le_bytes(
        data.get(0..4).ok_or(ProgramError::InvalidInstructionData)?.try_into().unwrap(),
    );
    let allocate = |a: &AccountInfo, space: u64| -> ProgramResult {
        if !a.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if !a.data_is_empty() || *a.owner != SYSTEM_ID {
            return Err(ProgramError::AccountAlreadyInitialized);
        }
        a.realloc(space as usize, true)?;
        a.try_borrow_mut_data()?.fill(0);
        Ok(())
    };
    let assign = |a: &AccountInfo, o: Pubkey| -> ProgramResult {
        if *a.owner == o {
            return Ok(());
        }
        if !a.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        a.assign(&o);
        Ok(())
    };
    let transfer = |f: &AccountInfo, t: &AccountInfo, lam: u64| -> ProgramResult {
        if !f.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if !f.data_is_empty() {
            return Err(ProgramError::InvalidArgument);
        }
        if f.lamports() < lam {
            return Err(ProgramError::InsufficientFunds);
        }
        **f.try_borrow_mut_lamports()? -= lam;
        **t.try_borrow_mut_lamports()? += lam;
        Ok(())
    };
    let acc = |i: usize| accounts.get(i).ok_or(ProgramError::NotEnoughAccountKeys);
    match tag {
        0 => {
            let (lam, space, owner) = (rd64(4)?, rd64(12)?, rdk(20)?);
            let to = acc(1)?;
            if to.lamports() > 0 {
                return Err(ProgramError::AccountAlreadyInitialized);
            }
            allocate(to, space)?;
            assign(to, owner)?;
            transfer(acc(0)?, to, lam)
        }
        1 => assign(acc(0)?, rdk(4)?),
        2 => transfer(acc(0)?, acc(1)?, rd64(4)?),
        8 => allocate(acc(0)?, rd64(4)?),
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

/// Harness transfer hook: account 5 (after source, mint, destination, authority, validation) is a
/// counter owned by the hook program; each Execute adds 1. It asserts the "transferring" flag is
/// irrelevant: any execute instruction is accepted.
fn hook_program(program: &Pubkey, accounts: &[AccountInfo], _data: &[u8]) -> ProgramResult {
    let c = accounts.get(5).ok_or(ProgramError::NotEnoughAccountKeys)?;
    if c.owner != program {
        return Err(ProgramError::IllegalOwner);
    }
    let mut d = c.try_borrow_mut_data()?;
    let v = u64::from_le_bytes(d[0..8].try_into().unwrap());
    d[0..8].copy_from_slice(&(v + 1).to_le_bytes());
    Ok(())
}

static INIT: Once = Once::new();
/// Set while a panic is an expected outcome (the whitelist tool signals a bad tree by panicking).
pub static QUIET: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub fn init_runtime() {
    INIT.call_once(|| {
        set_syscall_stubs(Box::new(Stubs));
        let _ = solana_cpi::HOST_INVOKE.set(|ix, infos, seeds| Stubs.sol_invoke_signed(ix, infos, seeds));
        let default = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            // panics inside a program are an instruction outcome; others are reported
            let in_program = CTX.with(|c| c.try_borrow().map(|c| !c.frames.is_empty()).unwrap_or(true));
            if !in_program && !QUIET.load(std::sync::atomic::Ordering::Relaxed) {
                default(info);
            }
        }));
    });
}

fn take_buf() -> Box<Buf> {
    POOL.with(|p| p.borrow_mut().pop()).unwrap_or_else(|| {
        let v = vec![Buf([0u8; BUF])].into_boxed_slice();
        // SAFETY: a boxed slice of length one has the layout of the box of its element.
        unsafe { Box::from_raw(Box::into_raw(v) as *mut Buf) }
    })
}

/// Execute one instruction as a transaction of its own. Signers are the metas' `is_signer` flags.
pub fn execute(db: &Db, now: Now, ix: &Instruction) -> Result<ExecOk, ExecErr> {
    let mut keys: Vec<(Pubkey, bool, bool)> = vec![];
    for m in &ix.accounts {
        if let Some(k) = keys.iter_mut().find(|k| k.0 == m.pubkey) {
            k.1 |= m.is_signer;
            k.2 |= m.is_writable;
        } else {
            keys.push((m.pubkey, m.is_signer, m.is_writable));
        }
    }
    if !keys.iter().any(|k| k.0 == ix.program_id) {
        keys.push((ix.program_id, false, false));
    }
    let mut slots = Vec::with_capacity(keys.len());
    for (k, _, w) in &keys {
        let mut buf = take_buf();
        let a = db.get(k);
        let (lam, owner, exec, data): (u64, Pubkey, bool, &[u8]) = match a {
            Some(a) => (a.lamports, a.owner, a.executable, &a.data),
            None => (0, SYSTEM_ID, false, &[]),
        };
        let b = &mut buf.0;
        b[4..8].copy_from_slice(&(data.len() as u32).to_le_bytes());
        b[8..40].copy_from_slice(k.as_ref());
        b[40..72].copy_from_slice(owner.as_ref());
        b[72..80].copy_from_slice(&lam.to_le_bytes());
        b[80..88].copy_from_slice(&(data.len() as u64).to_le_bytes());
        b[HDR..HDR + data.len()].copy_from_slice(data);
        slots.push(Slot {
            key: *k,
            buf,
            cp_data: data.to_vec(),
            cp_lamports: lam,
            cp_owner: owner,
            writable: *w,
            executable: exec,
            existed: a.is_some(),
        });
    }
    let mut infos: Vec<AccountInfo<'static>> = Vec::with_capacity(keys.len());
    for (i, (_, s, w)) in keys.iter().enumerate() {
        let p = slots[i].buf.0.as_mut_ptr();
        // SAFETY: the buffers are boxed (stable address) and outlive `infos`, which is dropped below.
        let ai = unsafe {
            let len = slots[i].len();
            AccountInfo {
                key: &*(p.add(8) as *const Pubkey),
                owner: &*(p.add(40) as *const Pubkey),
                lamports: Rc::new(RefCell::new(&mut *(p.add(72) as *mut u64))),
                data: Rc::new(RefCell::new(std::slice::from_raw_parts_mut(p.add(HDR), len))),
                is_signer: *s,
                is_writable: *w,
                executable: slots[i].executable,
                rent_epoch: u64::MAX,
            }
        };
        infos.push(ai);
    }
    let accounts: Vec<AccountInfo<'static>> = ix
        .accounts
        .iter()
        .map(|m| {
            let i = keys.iter().position(|k| k.0 == m.pubkey).unwrap();
            infos[i].clone()
        })
        .collect();
    CTX.with(|c| {
        *c.borrow_mut() = Ctx {
            slots,
            frames: vec![Frame { program: ix.program_id, children: vec![] }],
            now: Some(now),
            ..Ctx::default()
        };
    });
    let r = catch_unwind(AssertUnwindSafe(|| dispatch(&ix.program_id, &accounts, &ix.data)));
    let mut ctx = CTX.with(|c| std::mem::take(&mut *c.borrow_mut()));
    if KEEP_LOGS.with(|k| k.get()) {
        LAST_LOGS.with(|l| *l.borrow_mut() = std::mem::take(&mut ctx.logs));
    }
    drop(accounts);
    drop(infos);
    let res = match r {
        Err(_) => Err(ExecErr::Panic),
        Ok(Err(e)) => Err(ExecErr::Program(format!("{e:?}"))),
        Ok(Ok(())) => {
            if let Some(v) = ctx.violation.take() {
                Err(ExecErr::Runtime(v))
            } else if let Err(e) = checkpoint(&mut ctx, &ix.program_id) {
                Err(ExecErr::Runtime(e))
            } else {
                commit(db, &ctx).map(|db| ExecOk { db, inner: std::mem::take(&mut ctx.inner) })
            }
        }
    };
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        for s in ctx.slots {
            let mut b = s.buf;
            let orig = u32::from_le_bytes(b.0[4..8].try_into().unwrap()) as usize;
            let cur = u64::from_le_bytes(b.0[80..88].try_into().unwrap()) as usize;
            let n = orig.max(cur);
            b.0[..HDR + n].fill(0);
            p.push(b);
        }
    });
    res
}

fn commit(db: &Db, ctx: &Ctx) -> Result<Db, ExecErr> {
    let rent = rent();
    let mut out = db.clone();
    for s in &ctx.slots {
        if !s.writable {
            continue;
        }
        let (lam, owner, data) = (s.lamports(), s.owner(), s.data());
        if lam == 0 {
            out.m.remove(&s.key);
            continue;
        }
        if s.existed {
            let a = db.get(&s.key).unwrap();
            if a.lamports == lam && a.owner == owner && a.data == data {
                continue;
            }
        }
        if !rent.is_exempt(lam, data.len()) {
            let grew = db.get(&s.key).map(|a| a.data.len()).unwrap_or(0) != data.len();
            let was = db.get(&s.key).map(|a| rent.is_exempt(a.lamports, a.data.len())).unwrap_or(true);
            if was || grew {
                return Err(ExecErr::Runtime(format!("insufficient funds for rent {}", s.key)));
            }
        }
        out.m.insert(
            s.key,
            Arc::new(Acct { lamports: lam, owner, executable: s.executable, data: data.to_vec() }),
        );
    }
    Ok(out)
}

pub fn meta(k: Pubkey, signer: bool, writable: bool) -> AccountMeta {
    AccountMeta { pubkey: k, is_signer: signer, is_writable: writable }
}
