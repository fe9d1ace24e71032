//! Explicit-state exploration of a world: every transition runs the real program, is compared with
//! the reference model, and every reached state is checked against the state invariants.

use crate::abi::*;
use crate::spec::*;
use crate::svm::{Db, ExecErr, ExecOk, InnerIx};
use crate::world::*;
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub struct Viol {
    pub tag: String,
    pub msg: String,
}

/// 128-bit state fingerprint (two independent 64-bit mixes).
pub struct Fp(u64, u64);
impl Fp {
    pub fn new() -> Fp {
        Fp(0x9E3779B97F4A7C15, 0xC2B2AE3D27D4EB4F)
    }
    #[inline]
    pub fn w(&mut self, v: u64) {
        self.0 = (self.0 ^ v).wrapping_mul(0x9FB21C651E98DF25).rotate_left(29);
        self.0 ^= self.0 >> 32;
        self.1 = (self.1.rotate_left(23) ^ v).wrapping_mul(0xD6E8FEB86659FD93);
        self.1 ^= self.1 >> 29;
    }
    pub fn bytes(&mut self, b: &[u8]) {
        let mut c = b.chunks_exact(8);
        for x in &mut c {
            self.w(u64::from_le_bytes(x.try_into().unwrap()));
        }
        let r = c.remainder();
        if !r.is_empty() {
            let mut t = [0u8; 8];
            t[..r.len()].copy_from_slice(r);
            self.w(u64::from_le_bytes(t));
        }
        self.w(b.len() as u64 ^ 0xABCD);
    }
    pub fn get(&self) -> u128 {
        (u128::from(self.0) << 64) | u128::from(self.1)
    }
}
struct FpH<'a>(&'a mut Fp);
impl Hasher for FpH<'_> {
    fn finish(&self) -> u64 {
        self.0 .0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.bytes(b)
    }
}

#[derive(Clone)]
pub struct State {
    pub db: Db,
    pub g: Ghost,
    pub ti: u8,
    pub pre: u16,
}

pub fn fingerprint(s: &State, static_db: &Db) -> u128 {
    let mut f = Fp::new();
    for (k, a) in &s.db.m {
        if let Some(b) = static_db.m.get(k) {
            if Arc::ptr_eq(a, b) {
                continue;
            }
        }
        f.bytes(k.as_ref());
        f.bytes(&a.data);
        f.bytes(a.owner.as_ref());
        // lamports of plain wallets (fee/rent payers) cannot influence any program decision here
        if a.owner != crate::svm::SYSTEM_ID {
            f.w(a.lamports);
        }
    }
    for k in static_db.m.keys() {
        if !s.db.m.contains_key(k) {
            f.bytes(k.as_ref());
        }
    }
    s.g.hash(&mut FpH(&mut f));
    f.w(u64::from(s.ti) << 16 | u64::from(s.pre));
    f.get()
}

fn bal(db: &Db, k: &Pubkey) -> i128 {
    i128::from(db.tok(k))
}

/// Smallest transfer amount whose recipient nets exactly `net`.
pub fn gross_for(tok: Tok, epoch: u64, net: u64) -> Option<u64> {
    let Some((bps, max)) = tok.fee_at(epoch) else { return Some(net) };
    if net == 0 || bps == 0 {
        return Some(net);
    }
    let mut best: Option<u64> = None;
    let mut consider = |x: u128| {
        if let Ok(x) = u64::try_from(x) {
            if x >= net && x - tok.fee(epoch, x) == net && best.map(|b| x < b).unwrap_or(true) {
                best = Some(x);
            }
        }
    };
    consider(u128::from(net) + u128::from(max));
    if bps < 10_000 {
        let c = ceil_div(u128::from(net) * 10_000, u128::from(10_000 - bps));
        for d in 0..4u128 {
            consider(c + d);
            consider(c.saturating_sub(d));
        }
    }
    best
}

pub struct StepOut {
    pub next: Option<State>,
    pub accepted: bool,
    pub viols: Vec<Viol>,
    pub phase: Phase,
    /// the bounds of the configuration exclude this operation here; nothing was executed
    pub skipped: bool,
}

fn v(viols: &mut Vec<Viol>, tag: String, msg: String) {
    viols.push(Viol { tag, msg });
}

pub fn ended_ok(w: &World, g: &Ghost, t: u64) -> bool {
    g.phase(&w.cfg, t) != Phase::Failed
}

/// Apply `op` to `s`, on the implementation and on the model.
pub fn step(w: &World, s: &State, op: Op) -> StepOut {
    let c = &w.cfg;
    let t = c.times[s.ti as usize].0;
    let epoch = c.times[s.ti as usize].1;
    let ph = s.g.phase(c, t);
    let mut viols = vec![];
    if op == Op::Tick {
        let ti = s.ti + 1;
        if ti as usize >= c.times.len() {
            return StepOut { next: None, accepted: false, viols, phase: ph, skipped: true };
        }
        let n = State { ti, ..s.clone() };
        return StepOut { next: Some(n), accepted: true, viols, phase: ph, skipped: false };
    }
    if let Op::Donate(quote, x) = op {
        // not an instruction of the program: a plain token transfer by a stranger
        let (vault, mint, tok) = if quote { (w.quote_vault, w.quote_mint, c.quote) } else { (w.base_vault, w.base_mint, c.base) };
        let had = if quote { s.g.gift.0 } else { s.g.gift.1 };
        if had != 0 || x == 0 || u64::MAX - s.db.mint_supply(&mint) < x {
            return StepOut { next: None, accepted: false, viols, phase: ph, skipped: true };
        }
        let mut n = s.clone();
        mint_to(&mut n.db, mint, vault, x, tok);
        if quote {
            n.g.gift.0 = x;
        } else {
            n.g.gift.1 = x;
        }
        return StepOut { next: Some(n), accepted: true, viols, phase: ph, skipped: false };
    }
    if op.is_pre() && (c.max_pre > 0 && s.pre >= c.max_pre || s.ti > c.pre_until) {
        return StepOut { next: None, accepted: false, viols, phase: ph, skipped: true };
    }
    let ix = w.ix(op, ended_ok(w, &s.g, t));
    let real = crate::svm::execute(&s.db, w.now(s.ti as usize), &ix);
    let wallet = if let Op::Deposit(_, _, p) = op { s.db.tok(&w.wq[p as usize]) } else { 0 };
    let gross = |n: u64| gross_for(c.quote, epoch, n);
    let spec = s.g.step(c, t, op, wallet, &gross);
    let k = op.kind();
    match (real, spec) {
        (Err(ExecErr::Runtime(e)), Err(_)) if !e.starts_with("cpi failed") => {
            // the runtime itself stopped an attempted rule violation
            let _ = e;
            StepOut { next: None, accepted: false, viols, phase: ph, skipped: false }
        }
        (Err(_), Err(_)) => StepOut { next: None, accepted: false, viols, phase: ph, skipped: false },
        (Err(e), Ok(_)) => {
            v(
                &mut viols,
                format!("reject/{k}/{ph:?}"),
                format!("{op:?} must succeed at t={t} ({ph:?}) but failed: {e:?}"),
            );
            StepOut { next: None, accepted: false, viols, phase: ph, skipped: false }
        }
        (Ok(o), Err(why)) => {
            for r in &why {
                v(
                    &mut viols,
                    format!("accept/{k}/{ph:?}/{r:?}"),
                    format!("{op:?} must be refused at t={t} ({ph:?}, {why:?}) but succeeded"),
                );
            }
            let g = force(w, s, op, &o.db, t);
            let pre = s.pre + u16::from(op.is_pre());
            let n = State { db: o.db, g, ti: s.ti, pre: if c.max_pre > 0 { pre } else { 0 } };
            check_invariants(w, &n, &mut viols);
            StepOut { next: Some(n), accepted: true, viols, phase: ph, skipped: false }
        }
        (Ok(o), Ok((g, eff))) => {
            check_flows(w, s, op, &o, &eff, ph, epoch, &mut viols);
            check_frame(w, s, op, &o.db, &eff, ph, &mut viols);
            check_events(w, s, op, &o, &g, &eff, ph, t, epoch, &mut viols);
            let pre = s.pre + u16::from(op.is_pre());
            let n = State { db: o.db, g, ti: s.ti, pre: if c.max_pre > 0 { pre } else { 0 } };
            check_state(w, &n, k, ph, &mut viols);
            check_invariants(w, &n, &mut viols);
            StepOut { next: Some(n), accepted: true, viols, phase: ph, skipped: false }
        }
    }
}

/// The implementation did something the model forbids; follow the tokens it really moved.
fn force(w: &World, s: &State, op: Op, db: &Db, t: u64) -> Ghost {
    let c = &w.cfg;
    let mut g = s.g.clone();
    let got = |k: &Pubkey| bal(db, k) - bal(&s.db, k);
    match op {
        Op::Create(u) => {
            if g.esc[u as usize].is_none() {
                g.esc[u as usize] = Some(Esc { created: t, refreshed: t, ..Esc::default() });
                if let Some(r) = g.regs.get_mut(c.slots[u as usize].reg as usize) {
                    r.n += 1;
                }
                g.n += 1;
            }
        }
        Op::Deposit(u, ..) => {
            let net = got(&w.quote_vault).max(0) as u64;
            let r = c.slots[u as usize].reg as usize;
            let (dd, df) = match (w.escrow_view(&s.db, u as usize), w.escrow_view(db, u as usize)) {
                (Some(a), Some(b)) => (b.dep.wrapping_sub(a.dep), b.fee.wrapping_sub(a.fee)),
                _ => (net, 0),
            };
            let (a, f) = if dd.checked_add(df) == Some(net) { (dd, df) } else { (net, 0) };
            if let Some(e) = g.esc[u as usize].as_mut() {
                e.dep += a;
                e.fee += f;
                g.regs[r].dep += a;
                g.regs[r].fee += f;
                g.total += a;
                g.fee += f;
                if c.args.mode != PRORATA && c.args.disable_early == 0 && g.total >= c.args.max_cap {
                    let shift = g.imm.saturating_sub(g.end);
                    g.end = t;
                    g.vs = t + c.args.vest.lock;
                    g.imm = t + shift;
                }
            }
        }
        Op::Withdraw(u, _) => {
            let x = (-got(&w.quote_vault)).max(0) as u64;
            let r = c.slots[u as usize].reg as usize;
            if let Some(e) = g.esc[u as usize].as_mut() {
                let x = x.min(e.dep);
                e.dep -= x;
                g.regs[r].dep -= x;
                g.total -= x;
            }
        }
        Op::Claim(u) => {
            let x = (-got(&w.base_vault)).max(0) as u64;
            if let Some(e) = g.esc[u as usize].as_mut() {
                e.claimed += x;
                e.pending = 0;
                e.refreshed = t;
                g.claimed += x;
                g.regs[c.slots[u as usize].reg as usize].claimed += x;
            }
        }
        Op::Remaining(u) => {
            let x = (-got(&w.quote_vault)).max(0) as u64;
            if let Some(e) = g.esc[u as usize].as_mut() {
                e.refunded = true;
                g.refunded += x;
                g.regs[c.slots[u as usize].reg as usize].refunded += x;
            }
        }
        Op::Close(u) => {
            // the participant's claim on the presale does not vanish with the account: keep the
            // obligation in the model so that the loss stays visible
            if let Some(e) = &g.esc[u as usize] {
                let _ = e;
            }
        }
        Op::CreatorWithdraw => g.cw = true,
        Op::CollectFee => g.cf = true,
        Op::Unsold => g.un = true,
        Op::Refresh(_) | Op::Donate(..) | Op::Tick => {}
    }
    g
}

#[allow(clippy::too_many_arguments)]
fn check_flows(w: &World, s: &State, op: Op, o: &ExecOk, eff: &Eff, ph: Phase, epoch: u64, viols: &mut Vec<Viol>) {
    let c = &w.cfg;
    let k = op.kind();
    let db = &o.db;
    let d = |key: &Pubkey| bal(db, key) - bal(&s.db, key);
    // expected balance changes; everything not mentioned must stay put
    let mut exp: Vec<(Pubkey, i128, &str)> = vec![];
    exp.push((w.quote_vault, i128::from(eff.q_in) - i128::from(eff.q_out), "quote vault"));
    exp.push((w.base_vault, -i128::from(eff.b_out) - i128::from(eff.burn), "base vault"));
    let q_recv = i128::from(eff.q_out) - i128::from(c.quote.fee(epoch, eff.q_out));
    let b_recv = i128::from(eff.b_out) - i128::from(c.base.fee(epoch, eff.b_out));
    let mut payer: Option<usize> = None;
    let mut qd: Option<Pubkey> = None;
    let mut bd: Option<Pubkey> = None;
    match op {
        Op::Deposit(_, _, p) => payer = Some(p as usize),
        Op::Withdraw(u, _) | Op::Remaining(u) => qd = Some(w.wq[c.slots[u as usize].owner as usize]),
        Op::Claim(u) => bd = Some(w.wb[c.slots[u as usize].owner as usize]),
        Op::CreatorWithdraw => {
            if ph == Phase::Completed {
                qd = Some(w.creator_q)
            } else {
                bd = Some(w.creator_b)
            }
        }
        Op::CollectFee => qd = Some(w.creator_fee_q),
        Op::Unsold => bd = Some(w.creator_b),
        _ => {}
    }
    for (i, kq) in w.wq.iter().enumerate() {
        if Some(i) == payer {
            let paid = -d(kq);
            let ok = paid >= 0 && {
                let p = paid as u64;
                p.saturating_sub(c.quote.fee(epoch, p)) == eff.q_in
            };
            if !ok {
                v(
                    viols,
                    format!("flow/{k}/{ph:?}"),
                    format!("{op:?}: payer paid {paid}, expected an amount netting {} to the vault", eff.q_in),
                );
            }
        } else {
            exp.push((*kq, if qd == Some(*kq) { q_recv } else { 0 }, "participant quote wallet"));
        }
    }
    for kb in &w.wb {
        exp.push((*kb, if bd == Some(*kb) { b_recv } else { 0 }, "participant base wallet"));
    }
    exp.push((w.creator_q, if qd == Some(w.creator_q) { q_recv } else { 0 }, "creator quote wallet"));
    exp.push((w.creator_fee_q, if qd == Some(w.creator_fee_q) { q_recv } else { 0 }, "creator fee wallet"));
    exp.push((w.creator_b, if bd == Some(w.creator_b) { b_recv } else { 0 }, "creator base wallet"));
    for (key, want, what) in exp {
        let got = d(&key);
        if got != want {
            v(viols, format!("flow/{k}/{ph:?}"), format!("{op:?} ({ph:?}): {what} changed by {got}, expected {want}"));
        }
    }
    let ms = |m: &Pubkey| i128::from(db.mint_supply(m)) - i128::from(s.db.mint_supply(m));
    let (b, q) = (ms(&w.base_mint), ms(&w.quote_mint));
    let q_want = if w.cfg.same_mint { b } else { 0 };
    if b != -i128::from(eff.burn) || q != q_want {
        v(viols, format!("flow/{k}/{ph:?}"), format!("{op:?}: base mint supply changed by {b} (expected -{}), quote by {q}", eff.burn));
    }
    if let Op::Close(u) = op {
        let lam = s.db.get(&w.slots[u as usize].escrow).map(|a| a.lamports).unwrap_or(0);
        let before = s.db.get(&w.rent_to(u as usize)).map(|a| a.lamports).unwrap_or(0);
        let after = db.get(&w.rent_to(u as usize)).map(|a| a.lamports).unwrap_or(0);
        if after - before != lam || db.get(&w.slots[u as usize].escrow).is_some() {
            v(viols, format!("flow/{k}/{ph:?}"), format!("{op:?}: rent {lam} not handed over exactly"));
        }
    }
    // transfer hooks run exactly once per transfer of a hooked mint
    let hooks = |db: &Db| {
        let d = db.data(&w.hook_counter);
        if d.len() == 8 { u64::from_le_bytes(d.try_into().unwrap()) } else { 0 }
    };
    let ran = hooks(db) - hooks(&s.db);
    let mut want = 0;
    if c.quote.has_hook() && (eff.q_in > 0 || eff.q_out > 0) {
        want += 1;
    }
    if c.base.has_hook() && eff.b_out > 0 {
        want += 1;
    }
    if ran != want {
        v(viols, format!("hook/{k}/{ph:?}"), format!("{op:?}: transfer hook ran {ran} times, expected {want}"));
    }
}

fn check_frame(w: &World, s: &State, op: Op, db: &Db, _eff: &Eff, ph: Phase, viols: &mut Vec<Viol>) {
    let c = &w.cfg;
    let mut allowed: Vec<Pubkey> = vec![];
    let esc = |u: u16| w.slots[u as usize].escrow;
    let own = |u: u16| c.slots[u as usize].owner as usize;
    match op {
        Op::Create(u) => allowed.extend([w.presale, esc(u), w.payer]),
        Op::Deposit(u, _, p) => allowed.extend([w.presale, esc(u), w.quote_vault, w.wq[p as usize], w.hook_counter]),
        Op::Withdraw(u, _) | Op::Remaining(u) => allowed.extend([w.presale, esc(u), w.quote_vault, w.wq[own(u)], w.hook_counter]),
        Op::Claim(u) => allowed.extend([w.presale, esc(u), w.base_vault, w.wb[own(u)], w.hook_counter]),
        Op::Refresh(u) => allowed.push(esc(u)),
        Op::Close(u) => allowed.extend([w.presale, esc(u), w.rent_to(u as usize)]),
        Op::CreatorWithdraw => {
            if ph == Phase::Completed {
                allowed.extend([w.presale, w.quote_vault, w.creator_q, w.hook_counter])
            } else {
                allowed.extend([w.presale, w.base_vault, w.creator_b, w.hook_counter])
            }
        }
        Op::CollectFee => allowed.extend([w.presale, w.quote_vault, w.creator_fee_q, w.hook_counter]),
        Op::Unsold => allowed.extend([w.presale, w.base_vault, w.creator_b, w.base_mint, w.hook_counter]),
        Op::Tick | Op::Donate(..) => {}
    }
    for (k, a) in &db.m {
        let same = s.db.m.get(k).map(|b| Arc::ptr_eq(a, b)).unwrap_or(false);
        if !same && !allowed.contains(k) {
            v(viols, format!("frame/{}/{ph:?}", op.kind()), format!("{op:?} changed account {k} it has no business with"));
        }
    }
    for k in s.db.m.keys() {
        if !db.m.contains_key(k) && !allowed.contains(k) {
            v(viols, format!("frame/{}/{ph:?}", op.kind()), format!("{op:?} removed account {k}"));
        }
    }
}

pub fn events(inner: &[InnerIx]) -> Vec<&[u8]> {
    inner
        .iter()
        .filter(|i| i.ix.program_id == presale::ID && i.ix.data.len() >= 16 && i.ix.data[..8] == EVENT_IX_TAG_LE)
        .map(|i| &i.ix.data[8..])
        .collect()
}

struct Ev(Vec<u8>);
impl Ev {
    fn new(n: &'static str) -> Ev {
        Ev(evt_disc(n).to_vec())
    }
    fn k(mut self, k: &Pubkey) -> Ev {
        self.0.extend(k.to_bytes());
        self
    }
    fn u(mut self, x: u64) -> Ev {
        self.0.extend(x.to_le_bytes());
        self
    }
    fn b(mut self, x: u8) -> Ev {
        self.0.push(x);
        self
    }
}

#[allow(clippy::too_many_arguments)]
fn check_events(w: &World, s: &State, op: Op, o: &ExecOk, g: &Ghost, eff: &Eff, ph: Phase, t: u64, epoch: u64, viols: &mut Vec<Viol>) {
    let c = &w.cfg;
    let p = &w.presale;
    let _ = s;
    let e = |u: u16| &w.slots[u as usize].escrow;
    let ow = |u: u16| &w.slots[u as usize].owner;
    let netq = |x: u64| x - c.quote.fee(epoch, x);
    let netb = |x: u64| x - c.base.fee(epoch, x);
    let ge = |u: u16| g.esc[u as usize].clone().unwrap_or_default();
    let want = match op {
        Op::Create(u) => Ev::new("EvtEscrowCreate").k(p).k(ow(u)).b(c.args.wl).u(g.n),
        Op::Deposit(u, _, pay) => Ev::new("EvtDeposit").k(p).k(e(u)).u(eff.amount).u(ge(u).dep).u(g.total).k(&w.owners[pay as usize]).u(eff.fee),
        Op::Withdraw(u, _) => Ev::new("EvtWithdraw").k(p).k(e(u)).u(netq(eff.amount)).u(ge(u).dep).u(g.total).k(ow(u)),
        Op::Claim(u) => Ev::new("EvtClaim").k(p).k(e(u)).u(netb(eff.amount)).u(ge(u).claimed).u(g.claimed).k(ow(u)),
        Op::Remaining(u) => Ev::new("EvtWithdrawRemainingQuote").k(p).k(e(u)).k(ow(u)).u(netq(eff.amount)).u(g.refunded),
        Op::Close(u) => Ev::new("EvtEscrowClose").k(p).k(e(u)).k(ow(u)).k(&w.rent_to(u as usize)),
        Op::Refresh(u) => Ev::new("EvtEscrowRefresh").k(p).k(e(u)).k(ow(u)).u(t).u(ge(u).pending),
        Op::CreatorWithdraw => {
            let a = if ph == Phase::Completed { netq(eff.amount) } else { netb(eff.amount) };
            Ev::new("EvtCreatorWithdraw").k(p).u(a).k(&w.creator).b(if ph == Phase::Completed { 2 } else { 3 })
        }
        Op::CollectFee => Ev::new("EvtCreatorCollectFee").k(p).k(&w.creator).u(netq(eff.amount)),
        Op::Unsold => Ev::new("EvtPerformUnsoldBaseTokenAction").k(p).u(eff.amount).b(c.args.unsold),
        Op::Tick | Op::Donate(..) => return,
    };
    let evs = events(&o.inner);
    if evs.len() != 1 || evs[0] != want.0.as_slice() {
        v(
            viols,
            format!("event/{}", op.kind()),
            format!("{op:?}: emitted {} event(s), content differs from what happened (expected {:?}, got {:?})", evs.len(), want.0, evs.first()),
        );
    }
}

/// Compare the persisted accounts with the model.
pub fn check_state(w: &World, s: &State, k: &str, ph: Phase, viols: &mut Vec<Viol>) {
    let c = &w.cfg;
    let g = &s.g;
    let Some(pv) = w.presale_view(&s.db) else {
        v(viols, format!("state/exist/{k}"), "presale account vanished or is not decodable".into());
        return;
    };
    let a = &c.args;
    let mut bad = |what: &str, field: &str, got: String, want: String| {
        v(viols, format!("state/{what}/{k}/{ph:?}"), format!("after {k} ({ph:?}): {field} is {got}, expected {want}"));
    };
    macro_rules! eq {
        ($what:expr, $f:expr, $got:expr, $want:expr) => {
            if ($got) != ($want) {
                bad($what, $f, format!("{:?}", $got), format!("{:?}", $want));
            }
        };
    }
    eq!("config", "owner", pv.owner, w.creator);
    eq!("config", "base mint", pv.base_mint, w.base_mint);
    eq!("config", "quote mint", pv.quote_mint, w.quote_mint);
    eq!("config", "base vault", pv.base_vault, w.base_vault);
    eq!("config", "quote vault", pv.quote_vault, w.quote_vault);
    eq!("config", "base key", pv.base, w.base_key);
    eq!("config", "mode", pv.mode, a.mode);
    eq!("config", "whitelist", pv.wl, a.wl);
    eq!("config", "max cap", pv.max_cap, a.max_cap);
    eq!("config", "min cap", pv.min_cap, a.min_cap);
    eq!("config", "start", pv.start, g.start);
    eq!("config", "supply", u128::from(pv.supply), a.regs.iter().map(|r| u128::from(r.supply)).sum::<u128>());
    eq!("config", "created_at", pv.created_at, c.times[0].0);
    eq!("config", "lock", pv.lock, a.vest.lock);
    eq!("config", "vest", pv.vest, a.vest.vest);
    eq!("config", "immediate bps", pv.imm_bps, a.vest.bps);
    eq!("config", "registry count", pv.reg_count as usize, a.regs.len());
    eq!("config", "unsold action", pv.unsold, a.unsold);
    eq!("config", "base program flag", pv.base_flag, u8::from(c.base != Tok::Spl));
    eq!("config", "quote program flag", pv.quote_flag, u8::from(c.quote != Tok::Spl));
    if a.mode == FIXED {
        eq!("config", "price", u128::from_le_bytes(pv.raw[..16].try_into().unwrap()), c.q_price);
        eq!("config", "disable withdraw", pv.raw[16], c.dis_wd);
        eq!("config", "disable early end", pv.raw[17], a.disable_early);
    } else if a.mode == FCFS {
        eq!("config", "disable early end", pv.raw[0], a.disable_early);
    }
    for (i, r) in pv.regs.iter().enumerate() {
        if let Some(x) = a.regs.get(i) {
            eq!("config", "registry terms", (r.supply, r.min, r.max, r.bps), (x.supply, x.min, x.max, x.bps));
            let y = &g.regs[i];
            eq!("deposits", "registry deposits", (r.total_deposit, r.fee), (y.dep, y.fee));
            eq!("stats", "registry escrow count", r.total_escrow, y.n);
            eq!("claims", "registry claimed", r.claimed, y.claimed);
            eq!("refunds", "registry refunded", r.refunded, y.refunded);
        } else {
            eq!("config", "unused registry", *r, RegView::default());
        }
    }
    eq!("timing", "end", pv.end, g.end);
    eq!("timing", "effective vesting start", pv.vest_start.max(pv.end), g.vs);
    eq!("timing", "effective vesting end", pv.vest_end.max(pv.end), g.vest_end(c));
    eq!("timing", "effective immediate release", pv.imm_ts.max(pv.end), g.imm);
    eq!("deposits", "total deposit", (pv.total_deposit, pv.fee), (g.total, g.fee));
    eq!("stats", "escrow count", pv.total_escrow, g.n);
    eq!("claims", "total claimed", pv.claimed, g.claimed);
    eq!("refunds", "total refunded", pv.refunded, g.refunded);
    eq!("flags", "creator withdrawn", pv.creator_withdrawn != 0, g.cw);
    eq!("flags", "fee collected", pv.fee_collected != 0, g.cf);
    eq!("flags", "unsold done", pv.unsold_done != 0, g.un);
    for u in 0..w.slots.len() {
        let ev = w.escrow_view(&s.db, u);
        match (&g.esc[u], ev) {
            (None, None) => {}
            (Some(e), Some(x)) => {
                eq!("escrowcfg", "escrow presale/owner/registry", (x.presale, x.owner, x.reg), (w.presale, w.slots[u].owner, c.slots[u].reg));
                let cap = if a.wl == 0 { a.regs[0].max } else { c.slots[u].cap };
                eq!("escrowcfg", "escrow cap", x.cap, cap);
                eq!("deposits", "escrow deposit", (x.dep, x.fee), (e.dep, e.fee));
                eq!("claims", "escrow claimed/pending", (x.claimed, x.pending), (e.claimed, e.pending));
                eq!("refunds", "escrow refunded", x.refunded != 0, e.refunded);
                eq!("stats", "escrow created/refreshed", (x.created_at, x.refreshed_at), (e.created, e.refreshed));
            }
            (a, b) => {
                bad("exist", "escrow existence", format!("{}", b.is_some()), format!("{}", a.is_some()));
            }
        }
    }
}

/// Invariants of every reachable state, stated on balances and recorded positions.
pub fn check_invariants(w: &World, s: &State, viols: &mut Vec<Viol>) {
    let c = &w.cfg;
    let g = &s.g;
    let t = c.times[s.ti as usize].0;
    let (q, b) = g.obligations(c, t);
    let (qv, bv) = (u128::from(s.db.tok(&w.quote_vault)), u128::from(s.db.tok(&w.base_vault)));
    let (qv, bv) = (qv.saturating_sub(u128::from(g.gift.0)), bv.saturating_sub(u128::from(g.gift.1)));
    if qv < q {
        v(viols, "inv/quote".into(), format!("quote vault holds {qv} but owes {q}"));
    }
    if bv < b {
        v(viols, "inv/base".into(), format!("base vault holds {bv} but owes {b}"));
    }
    // recorded positions respect the caps
    if let Some(pv) = w.presale_view(&s.db) {
        if c.args.mode != PRORATA && pv.total_deposit > c.args.max_cap {
            v(viols, "inv/cap".into(), format!("total deposit {} exceeds the hard cap {}", pv.total_deposit, c.args.max_cap));
        }
        let mut sums = vec![(0u128, 0u128); 5];
        let mut n = 0u64;
        for u in 0..w.slots.len() {
            if let Some(e) = w.escrow_view(&s.db, u) {
                n += 1;
                let r = &c.args.regs[(e.reg as usize).min(c.args.regs.len() - 1)];
                let cap = if c.args.wl == 0 { r.max } else { r.max.min(c.slots[u].cap) };
                if e.dep > 0 && (e.dep < r.min || e.dep > cap) {
                    v(viols, "inv/cap".into(), format!("escrow {u} holds {} outside [{}, {cap}]", e.dep, r.min));
                }
                if let Some(x) = sums.get_mut(e.reg as usize) {
                    x.0 += u128::from(e.dep);
                    x.1 += u128::from(e.fee);
                }
            }
        }
        let tot: u128 = pv.regs.iter().map(|r| u128::from(r.total_deposit)).sum();
        let fee: u128 = pv.regs.iter().map(|r| u128::from(r.fee)).sum();
        if tot != u128::from(pv.total_deposit) || fee != u128::from(pv.fee) {
            v(viols, "inv/sums".into(), format!("registry totals {tot}/{fee} differ from the presale's {}/{}", pv.total_deposit, pv.fee));
        }
        if g.phase(c, t) == Phase::Ongoing {
            for (i, r) in pv.regs.iter().enumerate() {
                if sums[i] != (u128::from(r.total_deposit), u128::from(r.fee)) {
                    v(viols, "inv/sums".into(), format!("escrows of registry {i} sum to {:?}, registry records {:?}", sums[i], (r.total_deposit, r.fee)));
                }
            }
            if n != pv.total_escrow {
                v(viols, "inv/sums".into(), format!("{n} escrows exist, presale counts {}", pv.total_escrow));
            }
        }
        let cl: u128 = pv.regs.iter().map(|r| u128::from(r.claimed)).sum();
        if cl != u128::from(pv.claimed) {
            v(viols, "inv/claimsum".into(), format!("registry claims {cl} differ from presale claims {}", pv.claimed));
        }
    }
    // everything done: nothing but rounding dust may stay behind
    let ph = g.phase(c, t);
    if (ph == Phase::Completed || ph == Phase::Failed) && g.cw && g.esc.iter().all(|e| e.is_none()) {
        let n = c.slots.len() as u128;
        let regs = c.args.regs.len() as u128;
        if (ph == Phase::Failed || g.cf) && qv > 2 * (n + regs) {
            v(viols, "inv/dust".into(), format!("{qv} quote left behind after everyone was paid"));
        }
        if ph == Phase::Failed && bv > 0 || ph == Phase::Completed && (g.un || g.unsold(c) == 0) && bv > 2 * n {
            v(viols, "inv/dust".into(), format!("{bv} base left behind after everyone was paid"));
        }
    }
}

// ---------------------------------------------------------------- search

#[derive(Clone, Debug)]
pub struct Found {
    pub cfg: usize,
    pub cfg_name: String,
    pub trace: Vec<String>,
    pub viol: Viol,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub configs: u64,
    pub truncated: u64,
    pub init_rejected: u64,
    /// transitions executed on the implementation and compared with the model
    pub validated: u64,
    pub max_depth: u64,
    /// (op, phase) -> accepted, refused
    pub outcomes: BTreeMap<String, (u64, u64)>,
    pub foreign: BTreeMap<String, u64>,
    pub sample: Vec<String>,
}

impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.configs += o.configs;
        self.truncated += o.truncated;
        self.init_rejected += o.init_rejected;
        self.validated += o.validated;
        self.max_depth = self.max_depth.max(o.max_depth);
        for (k, x) in &o.outcomes {
            let e = self.outcomes.entry(k.clone()).or_default();
            e.0 += x.0;
            e.1 += x.1;
        }
        for (k, x) in &o.foreign {
            *self.foreign.entry(k.clone()).or_default() += x;
        }
        if self.sample.len() < 6 {
            self.sample.extend(o.sample.iter().take(2).cloned());
        }
    }
}

pub type Filter<'a> = dyn Fn(&str) -> bool + Sync + 'a;

/// Breadth-first search of one world. Returns the first violation `mine` claims.
pub fn bfs(ci: usize, cfg: &Cfg, mine: &Filter<'_>) -> (Stats, Option<Found>) {
    let mut st = Stats { configs: 1, ..Stats::default() };
    let w = World::build(cfg);
    if let InitResult::Err(e) = &w.init {
        st.init_rejected = 1;
        let viol = Viol { tag: "reject/init".into(), msg: format!("valid configuration refused: {e}") };
        let f = mine("reject/init").then(|| Found { cfg: ci, cfg_name: cfg.name.clone(), trace: vec![], viol: viol.clone() });
        *st.foreign.entry(viol.tag).or_default() += 1;
        return (st, f);
    }
    let mut root = State { db: w.db.clone(), g: Ghost::new(cfg), ti: 0, pre: 0 };
    let mut parents: Vec<(u32, u8)> = vec![(0, 0)];
    let mut seen: HashSet<u128> = HashSet::new();
    let trace_of = |parents: &Vec<(u32, u8)>, mut i: u32, last: Option<Op>| {
        let mut t = vec![];
        if let Some(o) = last {
            t.push(format!("{o:?}"));
        }
        while i != 0 {
            let (p, o) = parents[i as usize];
            t.push(format!("{:?}", cfg.ops[o as usize]));
            i = p;
        }
        t.extend(cfg.prefix.iter().rev().map(|o| format!("{o:?}")));
        t.reverse();
        t
    };
    let mut vs = vec![];
    check_state(&w, &root, "init", Phase::NotStarted, &mut vs);
    check_invariants(&w, &root, &mut vs);
    for x in vs {
        if mine(&x.tag) {
            return (st, Some(Found { cfg: ci, cfg_name: cfg.name.clone(), trace: vec![], viol: x }));
        }
        *st.foreign.entry(x.tag).or_default() += 1;
    }
    let mut out: HashMap<(&'static str, Phase), (u64, u64)> = HashMap::new();
    for (i, op) in cfg.prefix.iter().enumerate() {
        let mut r = step(&w, &root, *op);
        st.transitions += 1;
        st.validated += u64::from(!matches!(op, Op::Tick | Op::Donate(..)));
        if let Some(n) = r.next.take() {
            check_invariants(&w, &n, &mut r.viols);
            root = n;
        }
        for x in r.viols {
            if mine(&x.tag) {
                let tr = cfg.prefix[..=i].iter().map(|o| format!("{o:?}")).collect();
                return (st, Some(Found { cfg: ci, cfg_name: cfg.name.clone(), trace: tr, viol: x }));
            }
            *st.foreign.entry(x.tag).or_default() += 1;
        }
    }
    seen.insert(fingerprint(&root, &w.db));
    let mut frontier: Vec<(u32, State)> = vec![(0, root)];
    let mut depth = 0;
    let mut deepest: u32 = 0;
    'search: while !frontier.is_empty() {
        let mut next = vec![];
        for (idx, s) in &frontier {
            for (oi, op) in cfg.ops.iter().enumerate() {
                let r = step(&w, s, *op);
                if r.skipped {
                    continue;
                }
                st.transitions += 1;
                st.validated += u64::from(!matches!(op, Op::Tick | Op::Donate(..)));
                let e = out.entry((op.kind(), r.phase)).or_default();
                if r.accepted {
                    e.0 += 1
                } else {
                    e.1 += 1
                }
                for x in r.viols {
                    if mine(&x.tag) {
                        let tr = trace_of(&parents, *idx, Some(*op));
                        st.states = seen.len() as u64;
                        return (st, Some(Found { cfg: ci, cfg_name: cfg.name.clone(), trace: tr, viol: x }));
                    }
                    *st.foreign.entry(x.tag).or_default() += 1;
                }
                if let Some(n) = r.next {
                    if seen.insert(fingerprint(&n, &w.db)) {
                        if *op == Op::Tick {
                            let mut vs = vec![];
                            check_invariants(&w, &n, &mut vs);
                            for x in vs {
                                if mine(&x.tag) {
                                    let tr = trace_of(&parents, *idx, Some(*op));
                                    st.states = seen.len() as u64;
                                    return (st, Some(Found { cfg: ci, cfg_name: cfg.name.clone(), trace: tr, viol: x }));
                                }
                                *st.foreign.entry(x.tag).or_default() += 1;
                            }
                        }
                        parents.push((*idx, oi as u8));
                        deepest = parents.len() as u32 - 1;
                        next.push((deepest, n));
                        if seen.len() >= cfg.max_states {
                            st.truncated = 1;
                            break 'search;
                        }
                    }
                }
            }
        }
        frontier = next;
        depth += 1;
    }
    st.states = seen.len() as u64;
    st.max_depth = depth;
    for ((k, p), x) in out {
        st.outcomes.insert(format!("{k}@{p:?}"), x);
    }
    if deepest > 0 {
        st.sample.push(format!("{}: {}", cfg.name, trace_of(&parents, deepest, None).join(" ")));
    }
    (st, None)
}

/// Explore many worlds on all cores. Deterministic: the violation of the lowest config wins.
pub fn explore_all(cfgs: &[Cfg], mine: &Filter<'_>, threads: usize) -> (Stats, Option<Found>) {
    let next = AtomicUsize::new(0);
    let best = AtomicUsize::new(usize::MAX);
    let acc: Mutex<(BTreeMap<usize, Stats>, Option<Found>)> = Mutex::new((BTreeMap::new(), None));
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= cfgs.len() || i > best.load(Ordering::SeqCst) {
                    break;
                }
                let (st, f) = bfs(i, &cfgs[i], mine);
                let mut a = acc.lock().unwrap();
                a.0.insert(i, st);
                if let Some(f) = f {
                    best.fetch_min(i, Ordering::SeqCst);
                    if a.1.as_ref().map(|g| f.cfg < g.cfg).unwrap_or(true) {
                        a.1 = Some(f);
                    }
                }
            });
        }
    });
    let a = acc.into_inner().unwrap();
    let mut st = Stats::default();
    for s in a.0.values() {
        st.merge(s);
    }
    (st, a.1)
}
