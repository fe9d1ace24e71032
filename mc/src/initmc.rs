//! The parameter lattice of presale creation: from a valid sale of every mode and whitelist kind,
//! every one, every two (and in the thorough tier every three) parameters are moved to values on
//! both sides of each boundary. The program must accept exactly the points the rules below accept,
//! record them faithfully and fund the vault exactly.

use crate::abi::*;
use crate::configs::{plain, price, reg, Tier, END, START};
use crate::explore::{check_state, events, Found, State, Stats, Viol};
use crate::spec::*;
use crate::svm::*;
use crate::world::*;
use solana_program::pubkey::Pubkey;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

const MONTH: u64 = 2_592_000;
const TEN_YEARS: u64 = 315_360_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ArgsAcct {
    Own,
    Missing,
    OtherSale,
    Forged,
}

#[derive(Clone)]
pub struct Point {
    pub c: Cfg,
    pub acct: ArgsAcct,
}

/// What the price term sheet alone must satisfy.
fn price_reasons(c: &Cfg) -> Vec<&'static str> {
    let mut r = vec![];
    if c.args.mode == FIXED {
        if c.q_price == 0 {
            r.push("Price");
        }
        if c.dis_wd > 1 {
            r.push("Mode");
        }
    }
    r
}

/// The published rules for the terms of a sale created at `now`. Empty: acceptable.
pub fn reasons(p: &Point, now: u64) -> Vec<&'static str> {
    let a = &p.c.args;
    let mut r = vec![];
    if a.min_cap == 0 || a.max_cap < a.min_cap {
        r.push("Caps");
    }
    let start = a.start.max(now);
    if a.end <= start || a.end - start < 60 || a.end - start > MONTH || start - now > MONTH {
        r.push("Time");
    }
    if a.wl > 2 || a.mode > 2 || a.disable_early > 1 {
        r.push("Mode");
    }
    if a.regs.is_empty() || a.regs.len() > 5 || (a.regs.len() > 1 && a.wl == 0) {
        r.push("Registries");
    }
    let mut sum = 0u128;
    for x in &a.regs {
        sum += u128::from(x.supply);
        if x.max < x.min || x.max == 0 || x.max > a.max_cap {
            r.push("BuyerCaps");
        }
        if x.supply == 0 {
            r.push("Supply");
        }
        if x.bps > 5000 {
            r.push("Fee");
        }
    }
    if sum > u128::from(u64::MAX) {
        r.push("Supply");
    }
    let v = &a.vest;
    if *v != VestArgs::default() {
        let dur = u128::from(v.lock) + u128::from(v.vest);
        if dur >= u128::from(TEN_YEARS) || v.bps > 10_000 {
            r.push("Vesting");
        } else if v.bps == 10_000 {
            if dur > 0 || (v.imm_ts != 0 && v.imm_ts != a.end) {
                r.push("Vesting");
            }
        } else {
            let last = u128::from(a.end) + dur;
            let imm = u128::from(v.imm_ts);
            let ok = v.imm_ts == 0
                || if v.bps == 0 { v.imm_ts == a.end } else { imm >= u128::from(a.end) && imm <= last };
            if dur == 0 || !ok {
                r.push("Vesting");
            }
        }
    }
    if a.wl != 0 && a.mode != FIXED && a.regs.iter().any(|x| x.min != 1 || x.max != a.max_cap) {
        r.push("Permissioned");
    }
    if a.mode == FIXED {
        if p.acct != ArgsAcct::Own {
            r.push("PriceSheet");
        }
        let q = p.c.q_price;
        if q > 0 {
            for x in &a.regs {
                for amt in [x.min, x.max] {
                    let n = bought(q, amt);
                    if n == 0 || n > u128::from(u64::MAX) {
                        r.push("Price");
                    }
                }
                if a.wl != 0 && (u128::from(x.min) != ceil_div(q, SCALE) || x.max != a.max_cap) {
                    r.push("Permissioned");
                }
            }
            if bought(q, a.max_cap) > sum || bought(q, a.max_cap) <= bought(q, a.min_cap) {
                r.push("Price");
            }
        }
    }
    r.extend(price_reasons(&p.c));
    r
}

type Edit = (&'static str, String, Arc<dyn Fn(&mut Point) + Send + Sync>);

fn edits(base: &Point) -> Vec<Edit> {
    let mut out: Vec<Edit> = vec![];
    let a = base.c.args.clone();
    macro_rules! vals {
        ($f:literal, $vs:expr, |$p:ident, $v:ident| $b:expr) => {{
            let mut seen = vec![];
            for v in $vs {
                if seen.contains(&v) {
                    continue;
                }
                seen.push(v);
                out.push(($f, format!("{}={}", $f, v), Arc::new(move |$p: &mut Point| { let $v = v; $b; })));
            }
        }};
    }
    let m = u64::MAX;
    let (cap, lo) = (a.max_cap, a.min_cap);
    vals!("max_cap", [0, 1, lo.saturating_sub(1), lo, lo + 1, cap - 1, cap + 1, cap * 2, m], |p, v| p.c.args.max_cap = v);
    vals!("min_cap", [0, 1, lo + 1, cap - 1, cap, cap + 1, m], |p, v| p.c.args.min_cap = v);
    vals!("start", [0, T0 - 1, T0, T0 + 1, T0 + MONTH - 1, T0 + MONTH, T0 + MONTH + 1, m], |p, v| p.c.args.start = v);
    // end relative to the start actually used
    vals!("duration", [0i64, -1, 1, 59, 60, 61, MONTH as i64 - 1, MONTH as i64, MONTH as i64 + 1], |p, v| {
        p.c.args.end = p.c.args.start.max(T0).saturating_add_signed(v)
    });
    vals!("end", [0, T0, T0 + 60, T0 + MONTH, T0 + MONTH + 1, T0 + 2 * MONTH, m], |p, v| p.c.args.end = v);
    vals!("wl", [0u8, 1, 2, 3, 255], |p, v| p.c.args.wl = v);
    vals!("mode", [0u8, 1, 2, 3, 255], |p, v| p.c.args.mode = v);
    vals!("unsold", [0u8, 1], |p, v| p.c.args.unsold = v);
    vals!("disable_early", [0u8, 1, 2, 255], |p, v| p.c.args.disable_early = v);
    vals!("registries", [0usize, 1, 2, 3, 4, 5, 6], |p, v| {
        let r = p.c.args.regs[0].clone();
        p.c.args.regs.resize(v, r)
    });
    vals!("all_supply", [1, m / 5, m / 5 + 1, m / 4, m / 4 + 1, m / 3 + 1], |p, v| p.c.args.regs.iter_mut().for_each(|r| r.supply = v));
    let b = a.regs[0].clone();
    for which in 0..3 {
        let n = move |p: &mut Point| -> Option<usize> {
            let l = p.c.args.regs.len();
            if l == 0 {
                None
            } else {
                Some([0, l - 1, l / 2][which])
            }
        };
        macro_rules! rvals {
            ($f:literal, $g:literal, $h:literal, $vs:expr, $fld:ident) => {{
                for v in $vs {
                    let name = [$f, $g, $h][which];
                    out.push((name, format!("{name}={v}"), Arc::new(move |p: &mut Point| {
                        if let Some(i) = n(p) {
                            p.c.args.regs[i].$fld = v
                        }
                    })));
                }
            }};
        }
        rvals!("reg_min", "last_min", "mid_min", [0, 1, 2, b.min + 1, b.max - 1, b.max, b.max + 1, m], min);
        rvals!("reg_max", "last_max", "mid_max", [0, 1, b.min, b.min.saturating_sub(1), cap - 1, cap, cap + 1, m], max);
        rvals!("reg_supply", "last_supply", "mid_supply", [0, 1, b.supply - 1, b.supply + 1, b.supply / 2 - 1, b.supply / 2, b.supply / 2 + 1, m / 2, m / 2 + 1, m], supply);
        rvals!("reg_fee", "last_fee", "mid_fee", [0, 1, 4999, 5000, 5001, 10_000, u16::MAX], bps);
    }
    vals!("imm_bps", [0u16, 1, 5000, 9999, 10_000, 10_001, u16::MAX], |p, v| p.c.args.vest.bps = v);
    vals!("lock", [0, 1, 100, TEN_YEARS - 1, TEN_YEARS, m], |p, v| p.c.args.vest.lock = v);
    vals!("vest", [0, 1, 100, TEN_YEARS - 1, TEN_YEARS - 2, TEN_YEARS, m], |p, v| p.c.args.vest.vest = v);
    vals!("imm_ts", [1, T0, a.end - 1, a.end, a.end + 1, a.end + 100, a.end + 101, a.end + 200, a.end + 201, m], |p, v| p.c.args.vest.imm_ts = v);
    // release time relative to the end actually used
    vals!("imm_rel", [0u64, 1, 199, 200], |p, v| p.c.args.vest.imm_ts = p.c.args.end.saturating_add(v));
    vals!("vesting", [0u8, 1, 2, 3], |p, v| {
        let e = p.c.args.end;
        p.c.args.vest = match v {
            0 => VestArgs::default(),
            1 => VestArgs { bps: 2500, lock: 100, vest: 100, imm_ts: e, pad: 0 },
            2 => VestArgs { bps: 0, lock: 0, vest: 10, imm_ts: 0, pad: 0 },
            _ => VestArgs { bps: 10_000, lock: 0, vest: 0, imm_ts: 0, pad: 0 },
        }
    });
    if a.mode == FIXED {
        let one = price(1, 1);
        vals!("price", [0, 1, 2, price(1, 10), price(1, 10) - 1, price(1, 10) + 1, price(1, 5), price(1, 5) - 1, price(1, 5) + 1, price(1, 3), one - 1, one, one + 1, 2 * one, 2 * one + 1, 10 * one, 51 * one, 1000 * one, u128::MAX], |p, v| p.c.q_price = v);
        vals!("disable_withdraw", [0u8, 1, 2, 255], |p, v| p.c.dis_wd = v);
        for (n, v) in [("missing", ArgsAcct::Missing), ("other", ArgsAcct::OtherSale), ("forged", ArgsAcct::Forged)] {
            out.push(("sheet", format!("sheet={n}"), Arc::new(move |p: &mut Point| p.acct = v)));
        }
    }
    out
}

fn bases() -> Vec<(String, Point)> {
    let mut out = vec![];
    for (mode, wl, k) in [FIXED, PRORATA, FCFS].into_iter().flat_map(|m| (0..3u8).flat_map(move |w| [(m, w, 1u64), (m, w, 1_000_000_000_000_007)])) {
        {
            let mut c = plain(mode);
            c.args.wl = wl;
            c.args.max_cap = 10 * k;
            c.args.min_cap = 4 * k;
            c.args.start = START;
            c.args.end = END;
            c.bystander = false;
            c.times = vec![(T0, 0)];
            c.slots.clear();
            let min = if wl > 0 { 1 } else if mode == FIXED { 2 * k } else { k };
            let max = if wl == 0 { 8 * k } else { 10 * k };
            c.args.regs = vec![reg(min, max, 100 * k, 100)];
            if wl == 2 {
                c.args.regs.push(reg(min, max, 60 * k, 0));
            }
            let n = format!("init/{}/wl{wl}{}", crate::configs::mode_name(mode), if k > 1 { "/large" } else { "" });
            out.push((n, Point { c, acct: ArgsAcct::Own }));
        }
    }
    out
}

fn world(c: &Cfg) -> World {
    // build once with the base configuration, then strip the created sale again
    let mut c2 = c.clone();
    c2.args.regs = vec![reg(1, 1, 1, 0)];
    let mut w = World::bare(&c2);
    let pb = label("payer-b");
    let have = w.db.tok(&pb);
    mint_to(&mut w.db, w.base_mint, pb, u64::MAX - have, c.base);
    // a term sheet of another sale, offered in the wrong place
    let other = label("another sale");
    w.db.fund(other, 1);
    if let Ok(o) = execute(
        &w.db,
        w.now(0),
        &initialize_fixed_price_presale_args(fixed_args_pda(&other), w.creator, w.payer, other, 0, price(1, 5)),
    ) {
        w.db = o.db;
    }
    w
}

/// Run one point. Returns the objection, if any.
fn run(w: &mut World, pt: &Point, st: &mut Stats) -> Vec<Viol> {
    let now = w.now(0);
    let why = reasons(pt, T0);
    let c = &pt.c;
    let mut viols = vec![];
    let mut db = w.db.clone();
    let sheet = fixed_args_pda(&w.presale);
    let mut sheet_ok = true;
    if c.args.mode == FIXED {
        st.transitions += 1;
        let want = price_reasons(c).is_empty();
        match execute(&db, now, &initialize_fixed_price_presale_args(sheet, w.creator, w.payer, w.presale, c.dis_wd, c.q_price)) {
            Ok(o) => {
                if !want {
                    viols.push(Viol { tag: "accept/init/Sheet/Price".into(), msg: format!("price sheet accepted with price {} and withdraw flag {}", c.q_price, c.dis_wd) });
                }
                db = o.db;
            }
            Err(e) => {
                if want {
                    viols.push(Viol { tag: "reject/init".into(), msg: format!("valid price sheet refused: {e:?}") });
                }
                sheet_ok = false;
            }
        }
    }
    w.cfg = c.clone();
    let mut ix = w.init_ix();
    if c.args.mode == FIXED {
        // the sheet is the last plain account appended by init_ix
        let i = ix.accounts.iter().position(|m| m.pubkey == sheet).unwrap();
        match pt.acct {
            ArgsAcct::Own => {}
            ArgsAcct::Missing => {
                ix.accounts.remove(i);
            }
            ArgsAcct::OtherSale => ix.accounts[i].pubkey = fixed_args_pda(&label("another sale")),
            ArgsAcct::Forged => {
                let k = label("forged sheet");
                if let Some(x) = db.get(&sheet) {
                    let f = Acct { owner: label("fake-program"), ..x.clone() };
                    db.put(k, f);
                }
                ix.accounts[i].pubkey = k;
            }
        }
    }
    st.transitions += 1;
    st.states += 1;
    let r = execute(&db, now, &ix);
    let e = st.outcomes.entry("init".into()).or_default();
    if r.is_ok() {
        e.0 += 1
    } else {
        e.1 += 1
    }
    match r {
        Err(e) => {
            if why.is_empty() && sheet_ok {
                viols.push(Viol { tag: "reject/init".into(), msg: format!("valid terms refused: {e:?}") });
            }
        }
        Ok(o) => {
            for x in &why {
                viols.push(Viol { tag: format!("accept/init/NotStarted/{x}"), msg: format!("invalid terms ({why:?}) accepted") });
            }
            if why.is_empty() {
                faithful(w, &db, o, &mut viols);
            }
        }
    }
    viols
}

pub fn init_event(w: &World) -> Vec<u8> {
    let a = &w.cfg.args;
    let mut want = evt_disc("EvtPresaleVaultCreate").to_vec();
    want.extend(w.base_mint.to_bytes());
    want.extend(w.quote_mint.to_bytes());
    want.extend((a.regs.len() as u32).to_le_bytes());
    for r in &a.regs {
        want.extend(r.min.to_le_bytes());
        want.extend(r.max.to_le_bytes());
        want.extend(r.supply.to_le_bytes());
        want.extend(r.bps.to_le_bytes());
        want.extend([0u8; 32]);
    }
    want.extend(a.vest.lock.to_le_bytes());
    want.extend(a.vest.vest.to_le_bytes());
    want.extend([a.wl, a.mode]);
    for x in [a.start, a.end, a.max_cap, a.min_cap] {
        want.extend(x.to_le_bytes());
    }
    want
}

/// An accepted creation: records, vaults, funding, event and frame.
pub fn faithful(w: &World, pre: &Db, o: ExecOk, viols: &mut Vec<Viol>) {
    let s = State { db: o.db, g: Ghost::new(&w.cfg), ti: 0, pre: 0 };
    check_state(w, &s, "init", Phase::NotStarted, viols);
    let c = &w.cfg;
    let sum: u128 = c.args.regs.iter().map(|r| u128::from(r.supply)).sum();
    let mut bad = |tag: &str, msg: String| viols.push(Viol { tag: tag.into(), msg });
    if u128::from(s.db.tok(&w.base_vault)) != sum {
        bad("flow/init/NotStarted", format!("base vault received {}, promised {sum}", s.db.tok(&w.base_vault)));
    }
    if s.db.tok(&w.quote_vault) != 0 {
        bad("flow/init/NotStarted", "quote vault not empty".into());
    }
    let pb = label("payer-b");
    let paid = pre.tok(&pb) - s.db.tok(&pb);
    if u128::from(paid) - u128::from(c.base.fee(c.times[0].1, paid)) != sum {
        bad("flow/init/NotStarted", format!("payer paid {paid} for {sum}"));
    }
    for (v, m, prog) in [(w.base_vault, w.base_mint, c.base.program()), (w.quote_vault, w.quote_mint, c.quote.program())] {
        let Some(a) = s.db.get(&v) else {
            bad("state/exist/init", "vault missing".into());
            continue;
        };
        let d = &a.data;
        let k = |o: usize| Pubkey::new_from_array(d[o..o + 32].try_into().unwrap());
        if a.owner != prog || d.len() < 165 || k(0) != m || k(32) != authority() || d[72..76] != [0; 4] || d[108] != 1 || d[129..133] != [0; 4] {
            bad("state/config/init/NotStarted", "a vault is not under the sole control of the program".into());
        }
    }
    let ev = events(&o.inner);
    if ev.len() != 1 || ev[0] != init_event(w).as_slice() {
        bad("event/init", format!("creation emitted {} events or with other content", ev.len()));
    }
    let allowed = [w.presale, w.base_vault, w.quote_vault, pb, w.payer, w.hook_counter];
    for (k, a) in &s.db.m {
        let same = pre.m.get(k).map(|b| Arc::ptr_eq(a, b)).unwrap_or(false);
        if !same && !allowed.contains(k) && *k != w.base_mint {
            bad("frame/init", format!("creation changed account {k}"));
        }
    }
}

pub fn explore(mine: &(dyn Fn(&str) -> bool + Sync), tier: Tier, threads: usize) -> (Stats, Option<Found>) {
    let bs = bases();
    let eds: Vec<Vec<Edit>> = bs.iter().map(|(_, p)| edits(p)).collect();
    // work items: (base, first edit); edits after the first are enumerated inside
    let mut items = vec![];
    for (i, e) in eds.iter().enumerate() {
        for j in 0..=e.len() {
            items.push((i, j));
        }
    }
    let next = AtomicUsize::new(0);
    let acc: Mutex<(Stats, Option<Found>)> = Mutex::new((Stats::default(), None));
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| {
                let mut ws: Vec<Option<World>> = bs.iter().map(|_| None).collect();
                loop {
                    let n = next.fetch_add(1, Ordering::SeqCst);
                    if n >= items.len() || acc.lock().unwrap().1.as_ref().map(|f| f.cfg < n).unwrap_or(false) {
                        break;
                    }
                    let (bi, j) = items[n];
                    let w = ws[bi].get_or_insert_with(|| world(&bs[bi].1.c));
                    let mut st = Stats::default();
                    let ed = &eds[bi];
                    let mut found = None;
                    let mut go = |sel: &[usize], st: &mut Stats| {
                        let mut p = bs[bi].1.clone();
                        for i in sel {
                            (ed[*i].2)(&mut p);
                        }
                        for v in run(w, &p, st) {
                            if found.is_none() && mine(&v.tag) {
                                found = Some((sel.iter().map(|i| ed[*i].1.clone()).collect::<Vec<_>>(), v));
                            } else {
                                *st.foreign.entry(v.tag).or_default() += 1;
                            }
                        }
                        found.is_some()
                    };
                    if j == ed.len() {
                        go(&[], &mut st);
                    } else if !go(&[j], &mut st) {
                        'o: for k in 0..ed.len() {
                            // both orders: relative edits depend on what was applied before
                            if k == j || ed[k].0 == ed[j].0 {
                                continue;
                            }
                            if go(&[j, k], &mut st) {
                                break;
                            }
                            if tier == Tier::Thorough && k > j {
                                for l in k + 1..ed.len() {
                                    if ed[l].0 != ed[k].0 && ed[l].0 != ed[j].0 && go(&[j, k, l], &mut st) {
                                        break 'o;
                                    }
                                }
                            }
                        }
                    }
                    st.max_depth = 3;
                    let mut g = acc.lock().unwrap();
                    g.0.merge(&st);
                    if let Some((what, viol)) = found {
                        if g.1.as_ref().map(|x| n < x.cfg).unwrap_or(true) {
                            g.1 = Some(Found { cfg: n, cfg_name: bs[bi].0.clone(), trace: what, viol });
                        }
                    }
                }
            });
        }
    });
    let (mut st, f) = acc.into_inner().unwrap();
    st.configs = st.states;
    st.validated = st.transitions;
    if let Some((n, p)) = bs.first() {
        st.sample.push(format!("{n}: {:?}", p.c.args));
    }
    (st, f)
}

// ---------------------------------------------------------------- token kinds at creation

/// Extension types of Token-2022 mints: (name, type number, zeroed length, allowed)
const EXTS: &[(&str, u16, usize, bool)] = &[
    ("transfer-fee", 1, 108, true),
    ("close-authority", 3, 32, false),
    ("confidential-transfer", 4, 65, false),
    ("default-account-state", 6, 1, false),
    ("non-transferable", 9, 0, false),
    ("interest-bearing", 10, 52, false),
    ("permanent-delegate", 12, 32, false),
    ("transfer-hook", 14, 64, true),
    ("metadata-pointer", 18, 64, true),
    ("token-metadata", 19, 80, true),
    ("group-pointer", 20, 64, false),
    ("token-group", 21, 80, false),
    ("member-pointer", 22, 64, false),
    ("group-member", 23, 72, false),
    ("scaled-ui", 25, 56, false),
    ("pausable", 26, 33, false),
];

fn ext_mint(exts: &[usize], supply: u64) -> Acct {
    let mut d = vec![0u8; 82];
    d[36..44].copy_from_slice(&supply.to_le_bytes());
    d[44] = 6;
    d[45] = 1;
    if !exts.is_empty() {
        d.resize(165, 0);
        d.push(1);
        for e in exts {
            let (_, ty, len, _) = EXTS[*e];
            d.extend(ty.to_le_bytes());
            d.extend((len as u16).to_le_bytes());
            let mut body = vec![0u8; len];
            if ty == 6 {
                body[0] = 1;
            }
            d.extend(body);
        }
    }
    Acct { lamports: 1_000_000_000, data: d.into(), owner: spl_token_2022::ID, executable: false }
}

/// Every mint with at most two extensions, as base and as quote, and the native mints.
pub fn explore_mints(mine: &(dyn Fn(&str) -> bool + Sync)) -> (Stats, Option<Found>) {
    let mut st = Stats::default();
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    for i in 0..EXTS.len() {
        sets.push(vec![i]);
        for j in 0..EXTS.len() {
            if i != j {
                sets.push(vec![i, j]);
            }
        }
    }
    let native22 = Pubkey::from_str_const("9pan9bMn5HatX4EJdBwg9VgCa7Uz5HL8N1m5D3NdXejP");
    let native = Pubkey::from_str_const("So11111111111111111111111111111111111111112");
    let mut cases: Vec<(String, bool, Option<Pubkey>, Vec<usize>, bool, bool)> = vec![];
    for set in &sets {
        for base in [false, true] {
            let n: Vec<&str> = set.iter().map(|i| EXTS[*i].0).collect();
            let ok = set.iter().all(|i| EXTS[*i].3);
            cases.push((format!("{}:{}", if base { "base" } else { "quote" }, n.join("+")), base, None, set.clone(), ok, true));
        }
    }
    cases.push(("quote:native-token-2022".into(), false, Some(native22), vec![], false, true));
    cases.push(("quote:native-spl".into(), false, Some(native), vec![], true, false));
    for (name, is_base, key, set, ok, t22) in cases {
        let mut c = plain(PRORATA);
        c.bystander = false;
        c.slots.clear();
        c.times = vec![(T0, 0)];
        if is_base {
            c.base = Tok::T22;
        } else if t22 {
            c.quote = Tok::T22;
        }
        let mut w = World::bare(&c);
        if is_base {
            // same address, other mint contents; the payer's holding stays valid
            let sup = w.db.mint_supply(&w.base_mint);
            w.db.put(w.base_mint, ext_mint(&set, sup));
            // transfers of extension mints need the matching account extensions
            let pb = label("payer-b");
            let mut d = w.db.get(&pb).unwrap().data.to_vec();
            d.truncate(165);
            let mut tl: Vec<(u16, usize)> = vec![];
            for e in &set {
                match EXTS[*e].1 {
                    1 => tl.push((2, 8)),
                    14 => tl.push((15, 1)),
                    9 => tl.push((13, 0)),
                    26 => tl.push((27, 0)),
                    _ => {}
                }
            }
            if !tl.is_empty() {
                d.push(2);
                for (t, l) in tl {
                    d.extend(t.to_le_bytes());
                    d.extend((l as u16).to_le_bytes());
                    d.extend(vec![0u8; l]);
                }
            }
            let a = Acct { data: d.into(), ..w.db.get(&pb).unwrap().clone() };
            w.db.put(pb, a);
        } else if let Some(k) = key {
            let a = w.db.get(&w.quote_mint).unwrap().clone();
            w.db.put(k, a);
            w.quote_mint = k;
            w.presale = presale_pda(&w.base_key, &w.base_mint, &w.quote_mint);
            w.base_vault = base_vault_pda(&w.presale);
            w.quote_vault = quote_vault_pda(&w.presale);
        } else {
            w.db.put(w.quote_mint, ext_mint(&set, 0));
        }
        st.states += 1;
        st.transitions += 1;
        st.configs += 1;
        let r = execute(&w.db, w.now(0), &w.init_ix());
        let e = st.outcomes.entry("init".into()).or_default();
        let mut viols = vec![];
        match r {
            Ok(o) => {
                e.0 += 1;
                if !ok {
                    viols.push(Viol { tag: "accept/mint/NotStarted/Extension".into(), msg: format!("unsupported mint accepted as {name}") });
                } else {
                    faithful(&w, &w.db.clone(), o, &mut viols);
                }
            }
            Err(x) => {
                e.1 += 1;
                if ok {
                    viols.push(Viol { tag: "reject/mint".into(), msg: format!("supported mint refused as {name}: {x:?}") });
                }
            }
        }
        for v in viols {
            if mine(&v.tag) {
                return (st, Some(Found { cfg: 0, cfg_name: format!("mints/{name}"), trace: vec![], viol: v }));
            }
            *st.foreign.entry(v.tag).or_default() += 1;
        }
    }
    st.max_depth = 1;
    st.validated = st.transitions;
    (st, None)
}

/// Funding at creation: every kind of base and quote mint, one to five registries, supplies that
/// round differently together than apart, at both fee epochs.
pub fn explore_funding(mine: &(dyn Fn(&str) -> bool + Sync), tier: Tier, threads: usize) -> (Stats, Option<Found>) {
    let mut kinds = crate::configs::token_kinds();
    for (n, bps, max) in [("fee1", 1u16, u64::MAX), ("fee100cap5", 100, 5), ("fee777", 777, u64::MAX), ("fee5000cap1", 5000, 1), ("fee250cap40", 250, 40)] {
        kinds.push((n, Tok::Fee { bps, max, bps2: bps, max2: max, epoch2: 5000 }));
    }
    let sheets: &[&[u64]] = &[
        &[1], &[100], &[12_345], &[1_000_000_007], &[1, 1], &[49, 51], &[101, 99], &[333, 1], &[1, 1, 1], &[33, 34, 35],
        &[999, 1001, 7], &[5, 40, 7, 11], &[1, 1, 1, 1, 1], &[19, 23, 29, 31, 37], &[100, 100, 100, 100, 100], &[1 << 40, 3, 1 << 39, 17, 1],
    ];
    let mut cases = vec![];
    for (i, (bn, b)) in kinds.iter().enumerate() {
        for (j, (qn, q)) in kinds.iter().enumerate() {
            if tier == Tier::Quick && !(j < 2 || i == j || j == 6 || j == 8) {
                continue;
            }
            for mode in [FIXED, PRORATA, FCFS] {
                for sup in sheets {
                    for epoch in [0u64, 2] {
                        cases.push((format!("funding/{bn}/{qn}/{}/{sup:?}/epoch{epoch}", crate::configs::mode_name(mode)), *b, *q, mode, *sup, epoch));
                    }
                }
            }
        }
    }
    let next = AtomicUsize::new(0);
    let acc: Mutex<(Stats, Option<Found>)> = Mutex::new((Stats::default(), None));
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| loop {
                let n = next.fetch_add(1, Ordering::SeqCst);
                if n >= cases.len() || acc.lock().unwrap().1.as_ref().map(|f| f.cfg < n).unwrap_or(false) {
                    break;
                }
                let (name, b, q, mode, sup, epoch) = &cases[n];
                let mut c = plain(*mode);
                c.bystander = false;
                c.slots.clear();
                c.base = *b;
                c.quote = *q;
                c.times = vec![(T0, *epoch)];
                c.args.wl = if sup.len() > 1 { 1 + (n % 2) as u8 } else { (n % 3) as u8 };
                if *mode == FIXED {
                    // the whole stock suffices for the cap: one base unit costs ten quote
                    c.q_price = price(10, 1);
                    c.args.max_cap = 10;
                    c.args.min_cap = 4;
                    c.args.regs = sup.iter().map(|x| reg(10, 10, *x, 0)).collect();
                } else {
                    c.args.regs = sup.iter().map(|x| reg(1, c.args.max_cap, *x, 0)).collect();
                }
                c.max_states = 1;
                let mut st = Stats { configs: 1, states: 1, transitions: 1, max_depth: 1, validated: 1, ..Stats::default() };
                let mut viols = vec![];
                let mut w = World::bare(&c);
                let pb = label("payer-b");
                let have = w.db.tok(&pb);
                mint_to(&mut w.db, w.base_mint, pb, u64::MAX - have, c.base);
                if *mode == FIXED {
                    match execute(&w.db, w.now(0), &initialize_fixed_price_presale_args(fixed_args_pda(&w.presale), w.creator, w.payer, w.presale, c.dis_wd, c.q_price)) {
                        Ok(o) => w.db = o.db,
                        Err(e) => viols.push(Viol { tag: "reject/init".into(), msg: format!("valid price sheet refused: {e:?}") }),
                    }
                }
                let total: u64 = sup.iter().sum();
                let payable = crate::explore::gross_for(*b, *epoch, total).is_some();
                let r = execute(&w.db, w.now(0), &w.init_ix());
                let e = st.outcomes.entry("init".into()).or_default();
                match r {
                    Ok(o) => {
                        e.0 += 1;
                        let pre = w.db.clone();
                        faithful(&w, &pre, o, &mut viols);
                    }
                    Err(x) => {
                        e.1 += 1;
                        if payable {
                            viols.push(Viol { tag: "reject/init".into(), msg: format!("valid terms refused: {x:?}") });
                        }
                    }
                }
                let mut g = acc.lock().unwrap();
                for viol in viols {
                    if mine(&viol.tag) {
                        if g.1.as_ref().map(|x| n < x.cfg).unwrap_or(true) {
                            g.1 = Some(Found { cfg: n, cfg_name: name.clone(), trace: vec![], viol });
                        }
                    } else {
                        *st.foreign.entry(viol.tag).or_default() += 1;
                    }
                }
                g.0.merge(&st);
            });
        }
    });
    acc.into_inner().unwrap()
}
