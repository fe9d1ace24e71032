//! Small helpers for the demonstrations: a sale, a clock, and the operations on it.
#![allow(dead_code)]
pub(crate) use crate::abi::*;
pub(crate) use crate::svm::{execute, meta, Db, ExecErr, ExecOk, Now};
pub(crate) use crate::world::*;
pub use solana_program::{instruction::{AccountMeta, Instruction}, pubkey::Pubkey};

pub const START: u64 = T0 + 10;
pub const END: u64 = T0 + 110;
pub const FIXED: u8 = 0;
pub const PRORATA: u8 = 1;
pub const FCFS: u8 = 2;

pub fn reg(min: u64, max: u64, supply: u64, bps: u16) -> RegArgs {
    RegArgs { min, max, supply, bps }
}
pub fn vest(bps: u16, lock: u64, vest: u64, imm: u64) -> VestArgs {
    VestArgs { bps, lock, vest, imm_ts: imm, pad: 0 }
}
pub fn slot(owner: u16, reg: u8, cap: u64) -> SlotCfg {
    SlotCfg { owner, reg, cap }
}
pub fn price(n: u64, d: u64) -> u128 {
    (u128::from(n) << 64) / u128::from(d)
}
pub fn plain(mode: u8) -> Cfg {
    Cfg {
        name: String::new(),
        args: InitArgs {
            max_cap: 100,
            min_cap: 10,
            start: START,
            end: END,
            wl: 0,
            mode,
            unsold: 0,
            disable_early: 0,
            vest: VestArgs::default(),
            regs: vec![reg(1, 100, 1000, 0)],
        },
        q_price: if mode == FIXED { price(1, 5) } else { 0 },
        dis_wd: 0,
        base: Tok::Spl,
        quote: Tok::Spl,
        slots: vec![slot(0, 0, 0), slot(1, 0, 0)],
        wallets: vec![10_000, 10_000],
        times: vec![(T0, 0)],
        ops: vec![],
        bystander: false,
        max_states: 0,
        max_pre: 0,
        pre_until: 0,
        prefix: vec![],
        dec: (9, 6),
        insider: 0,
        same_mint: false,
    }
}

pub struct S {
    pub w: World,
    pub db: Db,
    pub t: u64,
    pub epoch: u64,
    pub ok: bool,
    pub last: Option<ExecOk>,
}
impl S {
    pub fn new(c: &Cfg) -> S {
        let w = World::build(c);
        if let InitResult::Err(e) = &w.init {
            panic!("the sale could not be created: {e}");
        }
        S { db: w.db.clone(), w, t: START, epoch: 0, ok: true, last: None }
    }
    pub fn now(&self) -> Now {
        Now { ts: self.t as i64, epoch: self.epoch }
    }
    pub fn try_ix(&mut self, ix: &Instruction) -> bool {
        match execute(&self.db, self.now(), ix) {
            Ok(o) => {
                self.db = o.db.clone();
                self.last = Some(o);
                true
            }
            Err(e) => {
                eprintln!("refused: {e:?}");
                false
            }
        }
    }
    pub fn try_op(&mut self, op: Op) -> bool {
        let ix = self.w.ix(op, self.ok);
        self.try_ix(&ix)
    }
    pub fn run(&mut self, op: Op) {
        assert!(self.try_op(op), "{op:?} was refused");
    }
    pub fn refused(&mut self, op: Op) {
        assert!(!self.try_op(op), "{op:?} was accepted");
    }
    pub fn quote(&self, i: usize) -> u64 {
        self.db.tok(&self.w.wq[i])
    }
    pub fn base(&self, i: usize) -> u64 {
        self.db.tok(&self.w.wb[i])
    }
    pub fn sale(&self) -> PresaleView {
        self.w.presale_view(&self.db).expect("presale")
    }
    pub fn esc(&self, u: usize) -> EscrowView {
        self.w.escrow_view(&self.db, u).expect("escrow")
    }
    /// data of the event emitted by the last operation, without the two discriminators
    pub fn event(&self, name: &'static str) -> Vec<u8> {
        let l = self.last.as_ref().unwrap();
        for i in &l.inner {
            if i.ix.program_id == pid() && i.ix.data.len() >= 16 && i.ix.data[8..16] == evt_disc(name) {
                return i.ix.data[16..].to_vec();
            }
        }
        panic!("no {name} event");
    }
}
