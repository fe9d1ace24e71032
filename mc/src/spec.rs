//! The reference model: a deliberately plain statement of what a presale promises, kept in exact
//! integer arithmetic and independent of the program's internal structure. It is advanced in lock
//! step with the real program on every explored transition.

use crate::world::{Cfg, Op, SCALE};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Phase {
    NotStarted,
    Ongoing,
    Completed,
    Failed,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Reason {
    Phase,
    NoEscrow,
    Exists,
    ZeroAmount,
    PersonalCap,
    GlobalCap,
    SupplyCap,
    RoundsToZero,
    BelowMin,
    AboveMax,
    Funds,
    Overflow,
    Mode,
    Already,
    NothingUnsold,
    NotEmpty,
    CapRange,
    Registry,
    Balance,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
pub struct Esc {
    pub dep: u64,
    pub fee: u64,
    pub claimed: u64,
    pub pending: u64,
    pub refunded: bool,
    pub created: u64,
    pub refreshed: u64,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
pub struct Reg {
    pub dep: u64,
    pub fee: u64,
    pub n: u64,
    pub claimed: u64,
    pub refunded: u64,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Ghost {
    pub start: u64,
    pub end: u64,
    pub vs: u64,
    pub imm: u64,
    pub total: u64,
    pub fee: u64,
    pub n: u64,
    pub claimed: u64,
    pub refunded: u64,
    pub regs: Vec<Reg>,
    pub esc: Vec<Option<Esc>>,
    pub cw: bool,
    pub cf: bool,
    pub un: bool,
    /// gross amounts that left the vaults to the creator (for the drain accounting)
    pub early: bool,
    /// tokens sent straight into the vaults: (quote, base)
    pub gift: (u64, u64),
}

/// What an accepted operation is expected to move.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Eff {
    /// the quote vault must gain exactly this (paid by the depositing wallet)
    pub q_in: u64,
    pub q_out: u64,
    pub b_out: u64,
    pub burn: u64,
    /// fee-excluded deposit / withdrawal amount, for events
    pub amount: u64,
    pub fee: u64,
}

pub fn ceil_div(a: u128, b: u128) -> u128 {
    a / b + u128::from(a % b != 0)
}

/// Deposit fee on top of `a` at `bps`: the smallest gross whose bps-share leaves at least `a`.
pub fn deposit_fee(a: u64, bps: u16) -> u128 {
    ceil_div(u128::from(a) * 10_000, u128::from(10_000 - bps)) - u128::from(a)
}

/// Whole base units `amt` quote buys at price `q` (quote per base, 64.64 fixed point).
pub fn bought(q: u128, amt: u64) -> u128 {
    (u128::from(amt) << 64) / q
}
/// Quote cost of the whole units that `amt` buys.
pub fn round_to_units(q: u128, amt: u64) -> u64 {
    let n = bought(q, amt);
    let c = n * q;
    ceil_div(c, SCALE) as u64
}
/// ceil(n * q / 2^64) without overflow, saturating at u64::MAX.
pub fn cost(n: u64, q: u128) -> u64 {
    let (hi, lo) = (q >> 64, q & (SCALE - 1));
    // n*q/2^64 = n*hi + n*lo/2^64
    let a = match u128::from(n).checked_mul(hi) {
        Some(a) => a,
        None => return u64::MAX,
    };
    let b = ceil_div(u128::from(n) * lo, SCALE);
    match a.checked_add(b) {
        Some(v) if v <= u128::from(u64::MAX) => v as u64,
        _ => u64::MAX,
    }
}

pub const FIXED: u8 = 0;
pub const PRORATA: u8 = 1;
pub const FCFS: u8 = 2;

impl Ghost {
    pub fn new(c: &Cfg) -> Ghost {
        let a = &c.args;
        let now = c.times[0].0;
        let none = a.vest.bps == 0 && a.vest.lock == 0 && a.vest.vest == 0 && a.vest.imm_ts == 0 && a.vest.pad == 0;
        Ghost {
            start: a.start.max(now),
            end: a.end,
            vs: if none { a.end } else { a.end.saturating_add(a.vest.lock) },
            imm: a.vest.imm_ts.max(a.end),
            total: 0,
            fee: 0,
            n: 0,
            claimed: 0,
            refunded: 0,
            regs: vec![Reg::default(); a.regs.len()],
            esc: vec![None; c.slots.len()],
            cw: false,
            cf: false,
            un: false,
            early: false,
            gift: (0, 0),
        }
    }

    pub fn phase(&self, c: &Cfg, t: u64) -> Phase {
        if t < self.start {
            Phase::NotStarted
        } else if t < self.end {
            Phase::Ongoing
        } else if self.total >= c.args.min_cap {
            Phase::Completed
        } else {
            Phase::Failed
        }
    }

    pub fn vest_end(&self, c: &Cfg) -> u64 {
        self.vs.saturating_add(c.args.vest.vest)
    }

    pub fn sold(&self, c: &Cfg, r: usize) -> u64 {
        let reg = &self.regs[r];
        let sup = c.args.regs[r].supply;
        if reg.dep == 0 {
            return 0;
        }
        match c.args.mode {
            FIXED => bought(c.q_price, reg.dep).min(u128::from(sup)) as u64,
            _ => sup,
        }
    }

    pub fn unsold(&self, c: &Cfg) -> u64 {
        let sup: u128 = c.args.regs.iter().map(|r| u128::from(r.supply)).sum();
        let sold: u128 = (0..self.regs.len()).map(|r| u128::from(self.sold(c, r))).sum();
        (sup - sold) as u64
    }

    /// Base units released to slot `u` by time `t` (presale completed).
    pub fn entitled(&self, c: &Cfg, u: usize, t: u64) -> u64 {
        let r = c.slots[u].reg as usize;
        let Some(e) = &self.esc[u] else { return 0 };
        if e.dep == 0 || self.regs[r].dep == 0 {
            return 0;
        }
        let (d, dd) = (u128::from(e.dep), u128::from(self.regs[r].dep));
        let sold = u128::from(self.sold(c, r));
        let imm = sold * u128::from(c.args.vest.bps) / 10_000;
        let vested = sold - imm;
        let a = if t >= self.imm { imm * d / dd } else { 0 };
        let v = c.args.vest.vest;
        let b = if t < self.vs {
            0
        } else if v == 0 {
            vested * d / dd
        } else {
            (vested * u128::from((t - self.vs).min(v)) / u128::from(v)) * d / dd
        };
        (a + b) as u64
    }

    pub fn final_entitled(&self, c: &Cfg, u: usize) -> u64 {
        self.entitled(c, u, u64::MAX)
    }

    /// (deposit refund, fee refund) of a registry when an oversubscribed prorata sale completes.
    pub fn reg_refund(&self, c: &Cfg, r: usize) -> (u64, u64) {
        if c.args.mode != PRORATA || self.total <= c.args.max_cap || self.regs[r].dep == 0 {
            return (0, 0);
        }
        let rem = u128::from(self.total - c.args.max_cap);
        let rr = rem * u128::from(self.regs[r].dep) / u128::from(self.total);
        let rf = u128::from(self.regs[r].fee) * rr / u128::from(self.regs[r].dep);
        (rr as u64, rf as u64)
    }

    pub fn refund_due(&self, c: &Cfg, u: usize, p: Phase) -> (u64, u64) {
        let Some(e) = &self.esc[u] else { return (0, 0) };
        match p {
            Phase::Failed => (e.dep, e.fee),
            Phase::Completed => {
                let r = c.slots[u].reg as usize;
                let (rr, rf) = self.reg_refund(c, r);
                let d = if self.regs[r].dep == 0 { 0 } else { u128::from(e.dep) * u128::from(rr) / u128::from(self.regs[r].dep) };
                let f = if self.regs[r].fee == 0 { 0 } else { u128::from(e.fee) * u128::from(rf) / u128::from(self.regs[r].fee) };
                (d as u64, f as u64)
            }
            _ => (0, 0),
        }
    }

    pub fn creator_fee(&self, c: &Cfg) -> u64 {
        if c.args.mode == PRORATA {
            (0..self.regs.len()).map(|r| self.regs[r].fee - self.reg_refund(c, r).1).sum()
        } else {
            self.fee
        }
    }

    /// What the vaults must still be able to pay: (quote, base).
    pub fn obligations(&self, c: &Cfg, t: u64) -> (u128, u128) {
        let p = self.phase(c, t);
        let mut q = 0u128;
        let mut b = 0u128;
        match p {
            Phase::NotStarted | Phase::Ongoing => {
                for e in self.esc.iter().flatten() {
                    q += u128::from(e.dep) + u128::from(e.fee);
                }
                b = c.args.regs.iter().map(|r| u128::from(r.supply)).sum();
            }
            Phase::Failed => {
                for e in self.esc.iter().flatten() {
                    if !e.refunded {
                        q += u128::from(e.dep) + u128::from(e.fee);
                    }
                }
                if !self.cw {
                    b = c.args.regs.iter().map(|r| u128::from(r.supply)).sum();
                }
            }
            Phase::Completed => {
                for (u, e) in self.esc.iter().enumerate() {
                    if let Some(e) = e {
                        if !e.refunded {
                            let (d, f) = self.refund_due(c, u, p);
                            q += u128::from(d) + u128::from(f);
                        }
                        b += u128::from(self.final_entitled(c, u).saturating_sub(e.claimed));
                    }
                }
                if !self.cw {
                    q += u128::from(self.total.min(c.args.max_cap));
                }
                if !self.cf {
                    q += u128::from(self.creator_fee(c));
                }
                if !self.un {
                    b += u128::from(self.unsold(c));
                }
            }
        }
        (q, b)
    }

    /// Advance the model by one operation at time `t`; `wallet` is the payer's quote balance and
    /// `gross(net)` the amount a payer must send so that the vault nets `net`.
    pub fn step(
        &self, c: &Cfg, t: u64, op: Op, wallet: u64, gross: &dyn Fn(u64) -> Option<u64>,
    ) -> Result<(Ghost, Eff), Vec<Reason>> {
        let p = self.phase(c, t);
        let mut why: Vec<Reason> = vec![];
        let mut g = self.clone();
        let mut eff = Eff::default();
        macro_rules! esc {
            ($u:expr) => {
                match &self.esc[$u as usize] {
                    Some(e) => e.clone(),
                    None => return Err(vec![Reason::NoEscrow]),
                }
            };
        }
        match op {
            Op::Tick | Op::Donate(..) => unreachable!(),
            Op::Create(u) => {
                let s = &c.slots[u as usize];
                if p != Phase::Ongoing {
                    why.push(Reason::Phase);
                }
                if self.esc[u as usize].is_some() {
                    why.push(Reason::Exists);
                }
                if s.reg as usize >= c.args.regs.len() {
                    why.push(Reason::Registry);
                } else if c.args.wl != 0 {
                    let r = &c.args.regs[s.reg as usize];
                    if s.cap == 0 || s.cap < r.min || s.cap > r.max {
                        why.push(Reason::CapRange);
                    }
                }
                if !why.is_empty() {
                    return Err(why);
                }
                g.esc[u as usize] = Some(Esc { created: t, refreshed: t, ..Esc::default() });
                g.regs[s.reg as usize].n += 1;
                g.n += 1;
            }
            Op::Deposit(u, max, _) => {
                let mut e = esc!(u);
                let s = &c.slots[u as usize];
                let r = s.reg as usize;
                let rc = &c.args.regs[r];
                if p != Phase::Ongoing {
                    why.push(Reason::Phase);
                }
                if max == 0 {
                    why.push(Reason::ZeroAmount);
                    return Err(why);
                }
                let cap = if c.args.wl == 0 { rc.max } else { s.cap.min(rc.max) };
                let mut quota = cap.saturating_sub(e.dep);
                if quota == 0 {
                    why.push(Reason::PersonalCap);
                }
                if c.args.mode != PRORATA {
                    let left = c.args.max_cap.saturating_sub(self.total);
                    if left == 0 {
                        why.push(Reason::GlobalCap);
                    }
                    quota = quota.min(left);
                }
                if c.args.mode == FIXED {
                    let left = rc.supply - self.sold(c, r);
                    if left == 0 {
                        why.push(Reason::SupplyCap);
                        quota = 0;
                    } else {
                        quota = quota.min(cost(left, c.q_price));
                    }
                }
                let a0 = quota.min(max);
                let a = if c.args.mode == FIXED { round_to_units(c.q_price, a0) } else { a0 };
                if a == 0 {
                    if a0 > 0 {
                        why.push(Reason::RoundsToZero);
                    }
                    if why.is_empty() {
                        why.push(Reason::RoundsToZero);
                    }
                    return Err(why);
                }
                let fee = deposit_fee(a, rc.bps);
                let nd = u128::from(e.dep) + u128::from(a);
                if nd < u128::from(rc.min) {
                    why.push(Reason::BelowMin);
                }
                if nd > u128::from(rc.max) {
                    why.push(Reason::AboveMax);
                }
                let m = u128::from(u64::MAX);
                if u128::from(self.total) + u128::from(a) > m
                    || u128::from(self.fee) + fee > m
                    || u128::from(a) + fee > m
                {
                    why.push(Reason::Overflow);
                    return Err(why);
                }
                let fee = fee as u64;
                match gross(a + fee) {
                    None => why.push(Reason::Overflow),
                    Some(x) if x > wallet => why.push(Reason::Funds),
                    _ => {}
                }
                if !why.is_empty() {
                    return Err(why);
                }
                e.dep += a;
                e.fee += fee;
                g.regs[r].dep += a;
                g.regs[r].fee += fee;
                g.total += a;
                g.fee += fee;
                g.esc[u as usize] = Some(e);
                eff.q_in = a + fee;
                eff.amount = a;
                eff.fee = fee;
                if c.args.mode != PRORATA && c.args.disable_early == 0 && g.total >= c.args.max_cap {
                    let shift = self.imm.saturating_sub(self.end);
                    g.end = t;
                    g.vs = t + c.args.vest.lock;
                    g.imm = t + shift;
                    g.early = true;
                }
            }
            Op::Withdraw(u, amt) => {
                let mut e = esc!(u);
                let r = c.slots[u as usize].reg as usize;
                let rc = &c.args.regs[r];
                if p != Phase::Ongoing {
                    why.push(Reason::Phase);
                }
                if amt == 0 {
                    why.push(Reason::ZeroAmount);
                }
                if amt > e.dep {
                    why.push(Reason::Balance);
                }
                if c.args.mode == FCFS || (c.args.mode == FIXED && c.dis_wd != 0) {
                    why.push(Reason::Mode);
                }
                if amt == 0 || amt > e.dep {
                    return Err(why);
                }
                let s = if c.args.mode == FIXED && amt != e.dep { round_to_units(c.q_price, amt) } else { amt };
                if s == 0 {
                    why.push(Reason::RoundsToZero);
                }
                let nd = e.dep - s;
                if nd > 0 && nd < rc.min {
                    why.push(Reason::BelowMin);
                }
                if nd > rc.max {
                    why.push(Reason::AboveMax);
                }
                if !why.is_empty() {
                    return Err(why);
                }
                e.dep -= s;
                g.regs[r].dep -= s;
                g.total -= s;
                g.esc[u as usize] = Some(e);
                eff.q_out = s;
                eff.amount = s;
            }
            Op::Claim(u) | Op::Refresh(u) => {
                let mut e = esc!(u);
                let is_claim = matches!(op, Op::Claim(_));
                if p != Phase::Completed {
                    if is_claim {
                        return Err(vec![Reason::Phase]);
                    }
                    return Ok((g, eff));
                }
                let cum = self.entitled(c, u as usize, t);
                e.pending = cum.saturating_sub(e.claimed);
                e.refreshed = t;
                if is_claim {
                    let x = e.pending;
                    e.claimed += x;
                    e.pending = 0;
                    g.claimed += x;
                    g.regs[c.slots[u as usize].reg as usize].claimed += x;
                    eff.b_out = x;
                    eff.amount = x;
                }
                g.esc[u as usize] = Some(e);
            }
            Op::Remaining(u) => {
                let mut e = esc!(u);
                if e.refunded {
                    why.push(Reason::Already);
                }
                let open = p == Phase::Failed || (p == Phase::Completed && c.args.mode == PRORATA);
                if !open {
                    why.push(Reason::Phase);
                }
                if !why.is_empty() {
                    return Err(why);
                }
                let (d, f) = self.refund_due(c, u as usize, p);
                e.refunded = true;
                g.esc[u as usize] = Some(e);
                g.refunded += d + f;
                g.regs[c.slots[u as usize].reg as usize].refunded += d + f;
                eff.q_out = d + f;
                eff.amount = d + f;
            }
            Op::Close(u) => {
                let e = esc!(u);
                let ok = match p {
                    Phase::NotStarted => false,
                    Phase::Ongoing => e.dep == 0 && e.fee == 0,
                    Phase::Failed => e.refunded || (e.dep == 0 && e.fee == 0),
                    Phase::Completed => {
                        let (d, f) = self.refund_due(c, u as usize, p);
                        (e.refunded || (d == 0 && f == 0)) && e.claimed == self.final_entitled(c, u as usize)
                    }
                };
                if !ok {
                    return Err(vec![Reason::NotEmpty]);
                }
                g.esc[u as usize] = None;
                g.n -= 1;
                g.regs[c.slots[u as usize].reg as usize].n -= 1;
            }
            Op::CreatorWithdraw => {
                if p != Phase::Completed && p != Phase::Failed {
                    why.push(Reason::Phase);
                }
                if self.cw {
                    why.push(Reason::Already);
                }
                if !why.is_empty() {
                    return Err(why);
                }
                g.cw = true;
                if p == Phase::Completed {
                    eff.q_out = self.total.min(c.args.max_cap);
                    eff.amount = eff.q_out;
                } else {
                    eff.b_out = c.args.regs.iter().map(|r| r.supply).sum();
                    eff.amount = eff.b_out;
                }
            }
            Op::CollectFee => {
                if p != Phase::Completed {
                    why.push(Reason::Phase);
                }
                if self.cf {
                    why.push(Reason::Already);
                }
                if !why.is_empty() {
                    return Err(why);
                }
                g.cf = true;
                eff.q_out = self.creator_fee(c);
                eff.amount = eff.q_out;
            }
            Op::Unsold => {
                if p != Phase::Completed {
                    why.push(Reason::Phase);
                }
                if self.un {
                    why.push(Reason::Already);
                }
                if why.is_empty() && self.unsold(c) == 0 {
                    why.push(Reason::NothingUnsold);
                }
                if !why.is_empty() {
                    return Err(why);
                }
                g.un = true;
                eff.amount = self.unsold(c);
                if c.args.unsold == 1 {
                    eff.burn = eff.amount;
                } else {
                    eff.b_out = eff.amount;
                }
            }
        }
        Ok((g, eff))
    }
}
