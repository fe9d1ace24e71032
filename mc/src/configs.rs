//! The explored worlds, by family. Every family is a finite list of closed configurations; each is
//! explored to its fixpoint (all operation sequences over its menu, all its time points).

use crate::abi::*;
use crate::spec::*;
use crate::world::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub const START: u64 = T0 + 10;
pub const END: u64 = T0 + 110;
/// two centuries later: whatever is due stays due
pub const FAR: u64 = END + 200 * 31_557_600;

pub fn reg(min: u64, max: u64, supply: u64, bps: u16) -> RegArgs {
    RegArgs { min, max, supply, bps }
}
pub fn vest(bps: u16, lock: u64, vest: u64, imm: u64) -> VestArgs {
    VestArgs { bps, lock, vest, imm_ts: imm, pad: 0 }
}
pub fn slot(owner: u16, reg: u8, cap: u64) -> SlotCfg {
    SlotCfg { owner, reg, cap }
}
/// price in quote per base, as a fraction
pub fn price(n: u64, d: u64) -> u128 {
    (u128::from(n) << 64) / u128::from(d)
}

/// A permissionless two-participant world; the starting point of most configurations.
pub fn plain(mode: u8) -> Cfg {
    Cfg {
        name: String::new(),
        args: InitArgs {
            max_cap: 10,
            min_cap: 4,
            start: START,
            end: END,
            wl: 0,
            mode,
            unsold: 0,
            disable_early: 0,
            vest: VestArgs::default(),
            regs: vec![reg(if mode == FIXED { 2 } else { 1 }, 8, 100, 0)],
        },
        q_price: if mode == FIXED { price(1, 5) } else { 0 },
        dis_wd: 0,
        base: Tok::Spl,
        quote: Tok::Spl,
        slots: vec![slot(0, 0, 0), slot(1, 0, 0)],
        wallets: vec![40, 40],
        times: vec![(T0, 0), (START, 0), (END, 0)],
        ops: vec![],
        bystander: true,
        max_states: 4_000_000,
        max_pre: 0,
        pre_until: u8::MAX,
        prefix: vec![],
        dec: (9, 6),
        insider: 0,
        same_mint: false,
    }
}

pub fn mode_name(m: u8) -> &'static str {
    match m {
        FIXED => "fixed",
        PRORATA => "prorata",
        _ => "fcfs",
    }
}

impl Cfg {
    pub fn named(mut self, n: String) -> Cfg {
        self.name = n;
        self
    }
    pub fn with(mut self, f: impl FnOnce(&mut Cfg)) -> Cfg {
        f(&mut self);
        self
    }
    /// the post-sale operations of everyone
    pub fn post_ops(&mut self, refresh: bool) {
        for u in 0..self.slots.len() as u16 {
            self.ops.extend([Op::Claim(u), Op::Remaining(u), Op::Close(u)]);
            if refresh {
                self.ops.push(Op::Refresh(u));
            }
        }
        self.ops.extend([Op::CreatorWithdraw, Op::CollectFee, Op::Unsold, Op::Tick]);
    }
    /// creation plus the given deposits / withdrawals, for every slot, paid by its own wallet
    pub fn pre_ops(&mut self, dep: &[u64], wd: &[u64]) {
        for u in 0..self.slots.len() as u16 {
            let o = self.slots[u as usize].owner;
            self.ops.push(Op::Create(u));
            for d in dep {
                self.ops.push(Op::Deposit(u, *d, o));
            }
            for x in wd {
                self.ops.push(Op::Withdraw(u, *x));
            }
        }
    }
    pub fn at(&mut self, ts: &[u64]) {
        let mut v: Vec<u64> = vec![T0];
        v.extend(ts);
        v.sort();
        v.dedup();
        self.times = v.into_iter().map(|t| (t, 0)).collect();
    }
}

/// The release schedules: name, arguments, interesting instants after the sale ended at `END`.
pub fn schedules() -> Vec<(&'static str, VestArgs, Vec<u64>)> {
    vec![
        ("none", VestArgs::default(), vec![END, FAR]),
        ("all-now", vest(10_000, 0, 0, END), vec![END, FAR]),
        ("vest", vest(0, 0, 30, 0), vec![END, END + 13, FAR]),
        ("lock", vest(0, 20, 0, 0), vec![END, END + 19, END + 20]),
        ("lock+vest", vest(0, 10, 21, END), vec![END, END + 10, END + 17, END + 31]),
        ("imm+lock+vest", vest(2500, 10, 20, 0), vec![END, END + 10, END + 23, END + 30]),
        ("late-imm", vest(3333, 5, 20, END + 12), vec![END, END + 11, END + 12, FAR]),
        ("imm-last", vest(5000, 0, 20, END + 20), vec![END, END + 7, END + 19, END + 20]),
        ("imm+lock", vest(1000, 15, 0, END + 15), vec![END, END + 14, END + 15]),
    ]
}

/// Whole lifecycles: every mode, release schedule and fee level; everyone does everything in any
/// order.
pub fn life(tier: Tier) -> Vec<Cfg> {
    let mut out = vec![];
    let fees: &[u16] = if tier == Tier::Quick { &[0, 700] } else { &[0, 1, 700, 5000] };
    for mode in [FIXED, PRORATA, FCFS] {
        for (vi, (vn, va, ts)) in schedules().into_iter().enumerate() {
            for (fi, f) in fees.iter().enumerate() {
                let c = plain(mode)
                    .named(format!("life/{}/{vn}/fee{f}", mode_name(mode)))
                    .with(|c| {
                        c.args.vest = va.clone();
                        c.args.regs[0].bps = *f;
                        c.args.unsold = ((vi + fi) % 2) as u8;
                        let mut t = vec![START];
                        t.extend(&ts);
                        c.at(&t);
                        c.max_pre = 4;
                        if mode == FIXED {
                            // 5 base per quote: 50 of 60 sold at most
                            c.args.regs[0].supply = 60;
                            c.args.regs[0].min = 1;
                        }
                        c.pre_ops(if mode == PRORATA { &[3, 8] } else { &[3, 7] }, &[]);
                        c.post_ops(false);
                        c.ops.push(Op::Refresh(0));
                    });
                out.push(c);
            }
        }
    }
    out
}

/// The open sale in depth: many amounts, partial withdrawals, third-party payers, reopened escrows.
pub fn deposits(tier: Tier) -> Vec<Cfg> {
    let mut out = vec![];
    let quick = tier == Tier::Quick;
    for mode in [FIXED, PRORATA, FCFS] {
        for (min, max) in [(1u64, 10u64), (3, 7), (2, 9), (5, 5)] {
            for bps in if quick { vec![0u16, 1300] } else { vec![0, 1, 1300, 5000] } {
                for de in [0u8, 1] {
                    if mode == PRORATA && de == 1 {
                        continue;
                    }
                    for q in if mode == FIXED { vec![(1u64, 3u64), (3, 2), (1, 1)] } else { vec![(0, 1)] } {
                        if quick && de == 1 && (min == 2 || bps != 0) {
                            continue;
                        }
                        if mode == FIXED && min * q.1 / q.0 == 0 {
                            continue;
                        }
                        let c = plain(mode)
                            .named(format!("deposits/{}/{min}-{max}/fee{bps}/de{de}/q{}_{}", mode_name(mode), q.0, q.1))
                            .with(|c| {
                                c.args.regs[0] = reg(min, max, if mode == FIXED { 10 * q.1 / q.0 + 2 } else { 50 }, bps);
                                c.q_price = if mode == FIXED { price(q.0, q.1) } else { 0 };
                                c.args.disable_early = de;
                                c.wallets = vec![14, 9];
                                c.max_pre = if quick { 8 } else { 11 };
                                c.at(&[START, END - 1, END]);
                                c.pre_ops(if quick { &[1, 3, u64::MAX] } else { &[1, 2, 3, 5, u64::MAX] }, if quick { &[1, 2, 5] } else { &[1, 2, 3, 5, 7] });
                                c.ops.push(Op::Deposit(0, 4, 1));
                                c.ops.push(Op::Deposit(0, 0, 0));
                                c.ops.extend([Op::Withdraw(0, 0), Op::Withdraw(0, u64::MAX)]);
                                c.ops.extend([Op::Close(0), Op::Close(1), Op::Tick]);
                                if !quick {
                                    c.ops.extend([Op::Refresh(0), Op::Claim(0), Op::Remaining(1), Op::CreatorWithdraw, Op::CollectFee, Op::Unsold]);
                                }
                            });
                        out.push(c);
                    }
                }
            }
        }
    }
    out
}

/// Every operation in every phase at every boundary instant.
pub fn phases(tier: Tier) -> Vec<Cfg> {
    let mut out = vec![];
    for mode in [FIXED, PRORATA, FCFS] {
        for de in [0u8, 1] {
            for wd in [0u8, 1] {
                if mode != FIXED && wd == 1 || mode == PRORATA && de == 1 {
                    continue;
                }
                for (vn, va) in [("none", VestArgs::default()), ("mix", vest(2500, 10, 20, END + 5))] {
                    let c = plain(mode)
                        .named(format!("phases/{}/{vn}/de{de}/wd{wd}", mode_name(mode)))
                        .with(|c| {
                            c.args.vest = va.clone();
                            c.args.disable_early = de;
                            c.dis_wd = wd;
                            c.args.regs[0].bps = 500;
                            c.slots.truncate(1);
                            c.args.regs[0].max = 10;
                            c.at(&[START - 1, START, START + 40, END - 1, END, END + 1, END + 10, END + 30, END + 31]);
                            c.max_pre = if tier == Tier::Quick { 4 } else { 7 };
                            c.pre_ops(&[3, 4, 10], &[2, 3]);
                            c.post_ops(true);
                        });
                    out.push(c);
                }
            }
        }
    }
    // start in the past / immediately, and the longest admissible wait
    for mode in [PRORATA, FCFS] {
        for (n, s, e) in [("past", T0 - 50, T0 + 60), ("now", T0, T0 + 60), ("far", T0 + 2_592_000, T0 + 2 * 2_592_000)] {
            out.push(plain(mode).named(format!("phases/{}/start-{n}", mode_name(mode))).with(|c| {
                c.args.start = s;
                c.args.end = e;
                c.slots.truncate(1);
                c.args.regs[0].max = 10;
                let b = s.max(T0);
                c.at(&[b.saturating_sub(1).max(T0), b, e - 1, e, e + 1]);
                c.pre_ops(&[3, 10], &[3]);
                c.post_ops(true);
            }));
        }
    }
    out
}

/// Several registries behind a whitelist (both kinds).
pub fn registries(tier: Tier) -> Vec<Cfg> {
    let mut out = vec![];
    let quick = tier == Tier::Quick;
    for mode in [FIXED, PRORATA, FCFS] {
        for wl in [1u8, 2] {
            for n in if quick { vec![2usize, 5] } else { vec![1, 2, 3, 4, 5] } {
                for (fi, vs) in [VestArgs::default(), vest(4000, 7, 13, END + 3)].into_iter().enumerate() {
                    if quick && (wl as usize + n + fi) % 2 == 0 {
                        continue;
                    }
                    let c = plain(mode)
                        .named(format!("registries/{}/wl{wl}/n{n}/v{fi}", mode_name(mode)))
                        .with(|c| {
                            let q = price(3, 2);
                            c.q_price = if mode == FIXED { q } else { 0 };
                            let min = if mode == FIXED { 2 } else { 1 };
                            c.args.wl = wl;
                            c.args.max_cap = 12;
                            c.args.min_cap = 4;
                            c.args.unsold = (wl + fi as u8) % 2;
                            c.args.regs = (0..n).map(|i| reg(min, 12, [if n == 1 { 40 } else { 5 }, 40, 7, 11, 9][i], [0, 900, 100, 5000, 33][i])).collect();
                            c.args.vest = vs.clone();
                            let last = (n - 1) as u8;
                            // the second participant shares the last registry with the third
                            c.slots = vec![slot(0, 0, 6), slot(1, last, 12), slot(2, last, 5)];
                            if n > 1 && !quick {
                                // the first owner may also sit in another registry
                                c.slots[2] = slot(0, last, 5);
                            }
                            c.wallets = vec![60, 60, 60];
                            c.at(&if fi == 0 { vec![START, END] } else if quick { vec![START, END + 4, END + 20] } else { vec![START, END, END + 4, END + 20] });
                            c.max_pre = if quick { 5 } else { 6 };
                            c.pre_ops(if quick { &[5] } else { &[4, 9] }, &[]);
                            if quick {
                                c.ops.push(Op::Deposit(1, 12, 1));
                            }
                            c.ops.push(Op::Withdraw(0, 2));
                            c.post_ops(false);
                            c.ops.retain(|o| !matches!(o, Op::Close(2) | Op::Close(1)));
                        });
                    out.push(c);
                }
            }
        }
    }
    out
}

/// Release schedules second by second: one participant claims / refreshes at any subset of the
/// instants while another holds a share of the same pool.
pub fn vesting(tier: Tier) -> Vec<Cfg> {
    let mut out = vec![];
    let quick = tier == Tier::Quick;
    let mut n = 0usize;
    for mode in [PRORATA, FCFS, FIXED] {
        for bps in [0u16, 1, 2500, 3333, 9999, 10_000] {
            for lock in [0u64, 1, 7] {
                for vd in [0u64, 1, 6, 11] {
                    if (bps == 10_000) != (lock == 0 && vd == 0) {
                        continue;
                    }
                    let mut imms = vec![0u64, END];
                    if bps > 0 && bps < 10_000 {
                        imms.extend([END + 1, END + lock, END + lock + vd / 2, END + lock + vd]);
                        imms.sort();
                        imms.dedup();
                    }
                    for imm in imms {
                        for (si, (sup, d0, d1)) in [(100u64, 3u64, 4u64), (7, 4, 6), (1_000_003, 10, 0), (1, 2, 5)].into_iter().enumerate() {
                            n += 1;
                            if quick && (n * 7 + si) % 5 != 0 {
                                continue;
                            }
                            // early: the cap is hit and the whole schedule moves forward
                            let early = mode != PRORATA && d0 + d1 >= 10;
                            let e0 = if early { START + 3 } else { END };
                            let c = plain(mode)
                                .named(format!("vesting/{}/{bps}/{lock}/{vd}/{}/s{sup}d{d0}d{d1}", mode_name(mode), imm.saturating_sub(END)))
                                .with(|c| {
                                    c.args.vest = vest(bps, lock, vd, imm);
                                    c.args.regs[0] = reg(1, 10, sup, 0);
                                    c.args.min_cap = 2;
                                    if mode == FIXED {
                                        c.q_price = price(7, 10).min(price(10, sup.min(14)));
                                        c.q_price = if sup < 14 { price(10, 7) } else { price(7, 10) };
                                        c.args.regs[0].supply = sup.max(14);
                                        c.args.regs[0].min = 2;
                                    }
                                    let mut t = if early { vec![START + 3] } else { vec![START, e0 - 1] };
                                    t.extend((0..=(lock + vd + 1)).map(|x| e0 + x));
                                    c.at(&t);
                                    c.max_pre = 4;
                                    c.pre_until = 1;
                                    c.ops = vec![Op::Create(0), Op::Deposit(0, d0, 0)];
                                    if d1 > 0 {
                                        c.ops.extend([Op::Create(1), Op::Deposit(1, d1, 1)]);
                                        if lock + vd < 8 {
                                            c.ops.push(Op::Claim(1));
                                        }
                                    } else {
                                        c.slots.truncate(1);
                                        c.max_pre = 2;
                                    }
                                    c.ops.extend([Op::Claim(0), Op::Refresh(0), Op::Close(0), Op::Tick]);
                                });
                            out.push(c);
                        }
                    }
                }
            }
        }
    }
    out
}

/// Real-life magnitudes: minutes to ten years of lock and vesting, days to a month of sale, amounts with
/// realistic decimals, and instants that fall on no round number.
pub fn years(tier: Tier) -> Vec<Cfg> {
    let mut out = vec![];
    let quick = tier == Tier::Quick;
    let ladder = [0u64, 1, 60, 3_599, 3_601, 86_400, 604_801, 2_592_000, 15_552_007, 31_535_999, 31_536_000, 31_536_001, 63_072_000, 94_608_013, 157_680_000, 315_359_999];
    let sales = [(10u64, 100u64), (3_601, 604_801), (2_592_000, 2_592_000), (86_399, 86_400), (7, 60)];
    let mut n = 0usize;
    for mode in [PRORATA, FCFS, FIXED] {
        for (li, lock) in ladder.into_iter().enumerate() {
            for (vi, vd) in ladder.into_iter().enumerate() {
                if lock + vd == 0 || lock + vd >= 315_360_000 {
                    continue;
                }
                for k in 0..4usize {
                    n += 1;
                    if quick && (n + li + 2 * vi) % 3 != 0 && !(k == 0 && (lock == 0 || vd == 0)) {
                        continue;
                    }
                    let (delay, len) = sales[(n + li) % sales.len()];
                    let (s, e) = (T0 + delay, T0 + delay + len);
                    let early = mode != PRORATA && n % 2 == 0;
                    let e0 = if early { s + len / 3 } else { e };
                    let bps = [0u16, 2_500, 1, 9_999][(n + vi) % 4];
                    let imm = if bps == 0 { 0 } else { [e, e + lock, e + lock + vd / 3, e + (lock + vd) / 2 + 1][k].min(e + lock + vd) };
                    let imm_at = e0 + imm.saturating_sub(e);
                    out.push(plain(mode).named(format!("years/{}/sale{delay}+{len}/{bps}@{}/lock{lock}/vest{vd}{}", mode_name(mode), imm.saturating_sub(e), if early { "/early" } else { "" })).with(|c| {
                        c.args.start = s;
                        c.args.end = e;
                        c.args.vest = vest(bps, lock, vd, imm);
                        let (cap, sup) = [(500_000_000_000u64, 1_000_000_000_000_000_000u64), (123_456_789_013, 9_999_999_999_999_937), (1_000_003, 77_777_777)][n % 3];
                        c.args.max_cap = cap;
                        c.args.min_cap = cap / 4;
                        c.args.regs = vec![reg(1, cap, sup, 0)];
                        if mode == FIXED {
                            c.q_price = price(cap, sup) + 1;
                            c.args.regs[0].min = 1_000;
                        }
                        let (a, b) = if mode == PRORATA { (cap / 7 * 5, cap / 3) } else if early { (cap / 7 * 5, cap) } else { (cap / 7 * 4 + 3, cap / 5 - 1) };
                        c.wallets = vec![2 * cap, 2 * cap];
                        c.bystander = n % 8 == 0;
                        let (v0, v1) = (e0 + lock, e0 + lock + vd);
                        let mut t = vec![s, e0];
                        t.extend([v0.saturating_sub(1), v0, v0 + 1, v0 + vd / 7 + 1, v0 + vd / 3, v0 + vd / 2 + 1, v0 + vd / 9 * 8 + 5, v1 - 1, v1, v1 + 1, imm_at.saturating_sub(1), imm_at]);
                        t.retain(|x| *x >= e0 || *x == s);
                        t.retain(|x| *x <= v1 + 1);
                        c.at(&t);
                        c.prefix = vec![Op::Tick, Op::Create(0), Op::Create(1)];
                        if early {
                            c.prefix.extend([Op::Deposit(0, a, 0), Op::Tick, Op::Deposit(1, b, 1)]);
                        } else {
                            c.prefix.extend([Op::Deposit(0, a, 0), Op::Deposit(1, b, 1), Op::Tick]);
                        }
                        c.max_pre = c.prefix.len() as u16;
                        c.ops = vec![Op::Claim(0), Op::Refresh(0), Op::Close(0), Op::Tick];
                        c.ops.extend(if quick { vec![] } else { vec![Op::Claim(1), Op::Unsold] });
                    }));
                }
            }
        }
    }
    out
}

/// A covering array: rows over `levels` such that every combination of levels of every `t` factors occurs
/// in some row. Greedy and deterministic; ends when nothing is left uncovered.
pub fn covering(levels: &[usize], t: usize) -> Vec<Vec<usize>> {
    let n = levels.len();
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..t {
        sets = sets.into_iter().flat_map(|v: Vec<usize>| (v.last().map_or(0, |x| x + 1)..n).map(move |i| [v.clone(), vec![i]].concat())).collect();
    }
    let code = |set: &[usize], row: &[usize]| set.iter().fold(0usize, |a, f| a * levels[*f] + row[*f]);
    let mut open: Vec<Vec<bool>> = sets.iter().map(|s| vec![true; s.iter().map(|f| levels[*f]).product()]).collect();
    let mut by_factor: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, s) in sets.iter().enumerate() {
        for f in s {
            by_factor[*f].push(i);
        }
    }
    let mut rows: Vec<Vec<usize>> = vec![];
    let mut from = 0usize;
    loop {
        while from < sets.len() && !open[from].iter().any(|x| *x) {
            from += 1;
        }
        if from == sets.len() {
            return rows;
        }
        // start from the first combination still missing, then give every other factor its most useful level
        let mut row = vec![usize::MAX; n];
        let mut c = open[from].iter().position(|x| *x).unwrap();
        for f in sets[from].iter().rev() {
            row[*f] = c % levels[*f];
            c /= levels[*f];
        }
        let shift = rows.len();
        for k in 0..n {
            let f = (k + shift) % n;
            if row[f] != usize::MAX {
                continue;
            }
            let mut best = (usize::MAX, 0usize);
            for j in 0..levels[f] {
                let l = (j + shift) % levels[f];
                row[f] = l;
                let gain = by_factor[f].iter().filter(|i| sets[**i].iter().all(|g| row[*g] != usize::MAX) && open[**i][code(&sets[**i], &row)]).count();
                if best.0 == usize::MAX || gain > best.1 {
                    best = (l, gain);
                }
            }
            row[f] = best.0;
        }
        for (i, s) in sets.iter().enumerate() {
            open[i][code(s, &row)] = false;
        }
        rows.push(row);
    }
}

/// Feature interactions: every combination of every three features of a sale (mode, access, fee, release
/// schedule, outcome, early end, unsold action, kinds of both mints, magnitude, price, number of
/// participants, gifts) occurs in some world, and every history of each world is explored.
/// Thorough: also every four features.
pub fn combos(tier: Tier) -> Vec<Cfg> {
    match tier {
        Tier::Quick => combos_of(true, 3),
        Tier::Thorough => [combos_of(false, 3), combos_of(true, 4)].concat(),
    }
}

fn combos_of(quick: bool, strength: usize) -> Vec<Cfg> {
    let fee = |bps, max, bps2, max2| Tok::Fee { bps, max, bps2, max2, epoch2: 2 };
    let toks = [Tok::Spl, Tok::T22, fee(250, u64::MAX, 250, u64::MAX), Tok::Hook, Tok::FeeHook { bps: 90, max: 11 }, fee(100, 5, 700, 1_000_000)];
    let sch = schedules();
    let levels = [4, 7, 4, sch.len(), 5, 2, 2, toks.len(), toks.len(), 4, 3, 3, 2];
    let rows = covering(&levels, strength);
    let mut out = vec![];
    for (n, r) in rows.iter().enumerate() {
        let (mode, dis_wd) = [(PRORATA, 0u8), (FCFS, 0), (FIXED, 0), (FIXED, 1)][r[0]];
        let (wl, nreg) = [(0u8, 1usize), (1, 1), (1, 2), (1, 5), (2, 1), (2, 2), (2, 5)][r[1]];
        let bps = [0u16, 1, 700, 5000][r[2]];
        let (vn, va, ts) = &sch[r[3]];
        let k = [1u64, 1_001, 1_000_003_007, 1_000_000_000_000_037][r[9]];
        let joiners = r[11] + 1;
        out.push(plain(mode).named(format!("combos/{strength}-{n}/{}{dis_wd}/wl{wl}x{nreg}/fee{bps}/{vn}/{}/de{}/unsold{}/{:?}-{:?}/x{k}/q{}/j{joiners}/gift{}", mode_name(mode), ["fail", "min", "part", "full", "over"][r[4]], r[5], r[6], toks[r[7]], toks[r[8]], r[10], r[12])).with(|c| {
            c.dis_wd = dis_wd;
            c.args.wl = wl;
            c.args.disable_early = r[5] as u8;
            c.args.unsold = r[6] as u8;
            c.args.vest = va.clone();
            c.base = toks[r[7]];
            c.quote = toks[r[8]];
            let cap = 100 * k + 3;
            let min_cap = 37 * k;
            c.args.max_cap = cap;
            c.args.min_cap = min_cap;
            let w = [91u64, 57, 33, 21, 13];
            let sum: u64 = w[..nreg].iter().sum();
            let (pn, pd) = [(1u64, 5u64), (7, 3), (3, 7)][r[10]];
            let whole = if mode == FIXED { cap * pd / pn + 2 } else { 3 * cap + 1 };
            let unit = pn.div_ceil(pd);
            c.q_price = if mode == FIXED { price(pn, pd) } else { 0 };
            let lo = match (mode, wl) {
                (FIXED, 0) => unit + k / 2,
                (FIXED, _) => unit,
                (_, 0) => 1 + k,
                _ => 1,
            };
            c.args.regs = (0..nreg).map(|i| reg(lo, cap, (u128::from(whole) * u128::from(w[i]) / u128::from(sum)) as u64 + 2, if bps == 0 { 0 } else { (bps + 13 * i as u16).min(5000) })).collect();
            let goal = match r[4] {
                0 => min_cap - 1,
                1 => min_cap + if mode == FIXED { unit } else { 0 },
                2 => 71 * k,
                3 => cap,
                _ => cap + 55 * k,
            };
            let mut amounts: Vec<u64> = match joiners {
                1 => vec![],
                2 => vec![goal / 5 * 3],
                _ => vec![goal / 7 * 3, goal / 7 + 1],
            };
            amounts.push(goal - amounts.iter().sum::<u64>());
            let last = (joiners - 1) as u16;
            c.slots = (0..joiners).map(|i| slot(i as u16, ((i + n) % nreg) as u8, if i == 0 { amounts[0].min(cap) } else { cap })).collect();
            c.wallets = vec![8 * cap; joiners];
            c.bystander = n % 4 == 0;
            let early = mode != PRORATA && r[5] == 0 && r[4] >= 3;
            let mut t = vec![START];
            if early {
                t.extend(ts.iter().map(|x| START + (x - END)));
            } else {
                t.extend(ts.iter());
            }
            c.at(&t);
            for (i, x) in c.times.iter_mut().enumerate() {
                x.1 = if i >= 2 { 2 } else { 0 };
            }
            c.prefix = vec![Op::Tick];
            for u in 0..last {
                c.prefix.extend([Op::Create(u), Op::Deposit(u, amounts[u as usize], u)]);
            }
            c.prefix.push(Op::Create(last));
            let pay = Op::Deposit(last, amounts[last as usize], last);
            if quick {
                c.prefix.push(pay);
            } else {
                c.ops.push(pay);
            }
            c.max_pre = c.prefix.len() as u16 + if quick { 1 } else { 2 };
            c.ops.push(Op::Withdraw(0, lo.max(amounts[0] / 3)));
            c.ops.extend([Op::Claim(0), Op::Remaining(0), Op::Close(0), Op::CreatorWithdraw, Op::CollectFee, Op::Unsold, Op::Tick]);
            if joiners > 1 {
                c.ops.extend([Op::Claim(last), Op::Remaining(last)]);
            }
            if !quick {
                c.ops.extend([Op::Refresh(0), Op::Close(last)]);
            }
            if r[12] == 1 {
                c.ops.push(if n % 2 == 0 { Op::Donate(true, 5 * k) } else { Op::Donate(false, 7 * k) });
            }
        }));
    }
    out
}

/// Long histories: hundreds of participants, and hundreds of operations by one of them, then every history
/// of a few.
pub fn marathon(tier: Tier) -> Vec<Cfg> {
    let mut out = vec![];
    let quick = tier == Tier::Quick;
    let n = if quick { 270u16 } else { 600 };
    for mode in [PRORATA, FCFS, FIXED] {
        for wl in 0..3u8 {
            for settled in [false, true] {
                if quick && settled == (wl == 1) {
                    continue;
                }
                let nreg = [1u8, 5, 2][usize::from(wl)];
                out.push(plain(mode).named(format!("marathon/{}/wl{wl}/{n}{}", mode_name(mode), if settled { "/settled" } else { "" })).with(|c| {
                    c.args.wl = wl;
                    let cap = u64::from(n) * if mode == PRORATA { 7 } else { 12 };
                    c.args.max_cap = cap;
                    c.args.min_cap = 50;
                    c.args.unsold = u8::from(wl == 1);
                    c.q_price = if mode == FIXED { price(3, 5) } else { 0 };
                    c.args.regs = (0..nreg).map(|i| reg(if wl == 0 { 2 } else { 1 }, cap, cap * 2 + u64::from(i), 450 + u16::from(i))).collect();
                    c.slots = (0..n).map(|i| slot(i, (i % u16::from(nreg)) as u8, cap)).collect();
                    c.wallets = vec![40; usize::from(n)];
                    c.bystander = false;
                    c.max_states = 100_000;
                    c.at(&[START, END]);
                    c.prefix = vec![Op::Tick];
                    for u in 0..n {
                        c.prefix.extend([Op::Create(u), Op::Deposit(u, 6 + u64::from(u * 7 % 11), u)]);
                    }
                    let mut who = vec![0u16, 255, 256];
                    if settled {
                        c.prefix.push(Op::Tick);
                        for u in (0..n).rev().filter(|u| !who.contains(u)) {
                            c.prefix.extend([Op::Claim(u), Op::Remaining(u), Op::Close(u)]);
                        }
                    } else {
                        who.truncate(2);
                        c.ops.extend([Op::Deposit(255, 3, 255), Op::Withdraw(0, 2)]);
                    }
                    c.max_pre = c.prefix.iter().filter(|o| o.is_pre()).count() as u16 + 1;
                    for u in who {
                        c.ops.extend([Op::Claim(u), Op::Remaining(u), Op::Close(u)]);
                    }
                    c.ops.extend([Op::CreatorWithdraw, Op::CollectFee, Op::Unsold, Op::Tick]);
                }));
            }
        }
        // one participant who never rests
        for bps in [0u16, 700] {
            out.push(plain(mode).named(format!("marathon/{}/restless/fee{bps}", mode_name(mode))).with(|c| {
                c.args.max_cap = 50_000;
                c.args.min_cap = 50;
                c.args.regs = vec![reg(2, 50_000, 90_000, bps)];
                c.q_price = if mode == FIXED { price(3, 5) } else { 0 };
                c.wallets = vec![500_000, 500_000];
                c.at(&[START, END]);
                c.prefix = vec![Op::Tick, Op::Create(1), Op::Deposit(1, 70, 1)];
                // opened and closed again and again (a position that paid a fee cannot be closed before the end)
                for _ in 0..if bps == 0 { n } else { 0 } {
                    if mode == FCFS {
                        c.prefix.extend([Op::Create(0), Op::Close(0)]);
                    } else {
                        c.prefix.extend([Op::Create(0), Op::Deposit(0, 6, 1), Op::Withdraw(0, 6), Op::Close(0)]);
                    }
                }
                c.prefix.push(Op::Create(0));
                for _ in 0..n {
                    c.prefix.push(Op::Deposit(0, 6, 0));
                    if mode != FCFS {
                        c.prefix.push(Op::Withdraw(0, 3));
                    }
                }
                c.max_pre = c.prefix.iter().filter(|o| o.is_pre()).count() as u16 + 2;
                c.max_states = 100_000;
                c.pre_ops(&[5], &[3]);
                c.post_ops(false);
            }));
        }
    }
    out
}

/// Deposit fees: every admissible rate, amounts around every rounding boundary.
pub fn fees(tier: Tier) -> Vec<Cfg> {
    let mut out = vec![];
    let quick = tier == Tier::Quick;
    for mode in [PRORATA, FCFS, FIXED] {
        for bps in 0..=5000u16 {
            if quick && mode != PRORATA && bps % 50 != 7 && bps != 5000 && bps != 0 {
                continue;
            }
            out.push(plain(mode).named(format!("fees/{}/{bps}", mode_name(mode))).with(|c| {
                let cap = 1u64 << 62;
                c.args.max_cap = cap;
                c.args.min_cap = 1;
                c.args.regs[0] = reg(1, cap, 1 << 62, bps);
                c.q_price = if mode == FIXED { SCALE } else { 0 };
                c.wallets = vec![1 << 63];
                c.slots.truncate(1);
                c.bystander = false;
                c.max_pre = 2;
                c.at(&[START]);
                let d = 10_000 - u64::from(bps);
                let mut am: Vec<u64> = vec![1, 2, 3, 7, 99, 100, 101, 9_999, 10_000, 10_001, d - 1, d, d + 1, 3 * d + 1, 1_000_000_007, (1 << 62) - 1, 1 << 62];
                if !quick {
                    am.extend(4..=40);
                    am.extend((1..62).map(|k| (1u64 << k) + 1));
                    am.extend((2..30).map(|k| k * d + 1));
                }
                am.retain(|x| *x > 0);
                am.sort();
                am.dedup();
                c.ops = vec![Op::Create(0), Op::Tick];
                c.ops.extend(am.iter().map(|a| Op::Deposit(0, *a, 0)));
            }));
        }
    }
    out
}

/// Fee totals through a lifecycle: accumulation over several deposits and registries, refunds,
/// creator collection.
pub fn fee_life(tier: Tier) -> Vec<Cfg> {
    let mut out = vec![];
    let quick = tier == Tier::Quick;
    for mode in [PRORATA, FCFS, FIXED] {
        for bps in if quick { vec![1u16, 333, 5000] } else { vec![1, 33, 100, 333, 1000, 2500, 4999, 5000] } {
            for (cap, a, b) in [(10u64, 7u64, 6u64), (1000, 613, 777), (1_000_000_007, 600_000_011, 499_999_999)] {
                out.push(plain(mode).named(format!("fee_life/{}/{bps}/{cap}", mode_name(mode))).with(|c| {
                    c.args.max_cap = cap;
                    c.args.min_cap = cap / 3;
                    c.args.regs[0] = reg(1, cap, 2 * cap + 3, bps);
                    c.q_price = if mode == FIXED { SCALE } else { 0 };
                    c.wallets = vec![4 * cap, 4 * cap];
                    c.max_pre = 6;
                    c.at(&[START, END]);
                    c.pre_ops(&[a, b], &[b]);
                    c.post_ops(false);
                }));
            }
        }
    }
    out
}

/// Contested sales: three participants, minimum equal to maximum, everyone may leave entirely, and
/// refunds, settlements and closings interleave in any order.
pub fn contest(tier: Tier) -> Vec<Cfg> {
    let mut out = vec![];
    let quick = tier == Tier::Quick;
    for mode in [PRORATA, FCFS, FIXED] {
        for bps in if quick { vec![0u16, 5000] } else { vec![0, 1, 700, 5000] } {
            // the last one has fewer tokens than participants: nobody gets any
            for (cap, lo, scarce) in [(100u64, 100u64, false), (97, 60, false), (90, 60, true)] {
                if quick && bps == 0 && (lo != cap || scarce) || scarce && mode == FIXED {
                    continue;
                }
                out.push(plain(mode).named(format!("contest/{}/{bps}/{lo}-{cap}", mode_name(mode))).with(|c| {
                    let third = mode == PRORATA;
                    c.args.max_cap = cap;
                    // a fixed price needs room between the two caps
                    c.args.min_cap = if mode == FIXED && lo == cap { cap - 1 } else { lo };
                    c.args.regs[0] = reg(1, cap, if scarce { 1 } else { 3 * cap + 1 }, bps);
                    c.q_price = if mode == FIXED { price(1, 3) } else { 0 };
                    if third {
                        c.slots.push(slot(2, 0, 0));
                        c.wallets.push(0);
                    }
                    c.wallets = vec![4 * cap; c.slots.len()];
                    c.max_pre = if third { 7 } else { 6 };
                    c.at(&if quick { vec![START, END] } else { vec![START, END - 1, END] });
                    for u in 0..c.slots.len() as u16 {
                        let d = if u == 1 { 2 * cap / 3 } else { cap };
                        c.ops.extend([Op::Create(u), Op::Deposit(u, d, u), Op::Remaining(u), Op::Close(u)]);
                        if mode != FCFS && (u == 0 || !quick) {
                            c.ops.push(Op::Withdraw(u, d));
                        }
                        if !third || u == 0 || !quick {
                            c.ops.push(Op::Claim(u));
                        }
                    }
                    c.ops.extend([Op::CreatorWithdraw, Op::CollectFee, Op::Unsold, Op::Tick]);
                }));
            }
        }
    }
    out
}

/// A crowd: five participants in one registry, or one in each of five, and strangers sending tokens
/// straight into the vaults at any moment.
pub fn crowd(tier: Tier) -> Vec<Cfg> {
    let mut out = vec![];
    let quick = tier == Tier::Quick;
    for mode in [PRORATA, FCFS, FIXED] {
        for five in [false, true] {
            for bps in if quick { vec![400u16] } else { vec![0, 400, 5000] } {
                for gift in [true, false] {
                    if quick && !gift {
                        continue;
                    }
                    let all: &[&[u16]] = &[&[0, 1, 2, 3, 4], &[0, 2, 4], &[4, 1, 0, 3], &[1, 4], &[3, 2, 1, 0]];
                    for joins in all {
                    out.push(plain(mode).named(format!("crowd/{}/{}/fee{bps}/gift{}/{joins:?}", mode_name(mode), if five { "five" } else { "one" }, u8::from(gift))).with(|c| {
                        c.args.max_cap = 50;
                        c.args.min_cap = 20;
                        c.args.unsold = u8::from(five);
                        c.args.wl = if five { 1 } else { 0 };
                        c.q_price = if mode == FIXED { price(2, 3) } else { 0 };
                        let sup = [40u64, 31, 22, 13, 9];
                        c.args.regs = if five { (0..5).map(|i| reg(1, 50, sup[i], (bps + i as u16 * 7).min(5000))).collect() } else { vec![reg(1, 30, 115, bps)] };
                        c.slots = (0..5u16).map(|i| slot(i, if five { i as u8 } else { 0 }, 20 + u64::from(i))).collect();
                        c.wallets = vec![60; 5];
                        c.at(&[START, END]);
                        c.prefix = vec![Op::Tick];
                        for u in joins.iter() {
                            c.prefix.extend([Op::Create(*u), Op::Deposit(*u, [17, 3, 11, 22, 7][*u as usize], *u)]);
                        }
                        c.ops.extend([Op::Claim(0), Op::Remaining(0), Op::Close(0), Op::Claim(1), Op::Claim(2), Op::Remaining(3), Op::Remaining(4), Op::Claim(4)]);
                        if !quick {
                            c.ops.extend([Op::Claim(3), Op::Remaining(1), Op::Close(4)]);
                        }
                        c.ops.extend([Op::CreatorWithdraw, Op::CollectFee, Op::Unsold, Op::Tick]);
                        if gift {
                            c.ops.extend([Op::Donate(true, 1000), Op::Donate(false, 777)]);
                        }
                    }));
                    }
                }
            }
        }
    }
    // every operation on the position of each of the five registries in turn, the others already in place or absent
    for mode in [PRORATA, FCFS, FIXED] {
        for j in 0..5u16 {
            for others in [&[][..], &[0u16, 1, 2, 3, 4][..]] {
                for fail in [false, true] {
                    if quick && fail && mode != PRORATA {
                        continue;
                    }
                    out.push(plain(mode).named(format!("crowd/index{j}/{}/{others:?}/fail{}", mode_name(mode), u8::from(fail))).with(|c| {
                        c.args.max_cap = 50;
                        c.args.min_cap = if fail { 49 } else { 5 };
                        c.args.wl = 1 + (j % 2) as u8;
                        c.q_price = if mode == FIXED { price(2, 3) } else { 0 };
                        let sup = [40u64, 31, 22, 13, 9];
                        c.args.regs = (0..5).map(|i| reg(1, 50, sup[i], 300 + i as u16 * 700)).collect();
                        c.slots = (0..5u16).map(|i| slot(i, i as u8, 20 + u64::from(i))).collect();
                        c.wallets = vec![90; 5];
                        c.at(&[START, END]);
                        c.prefix = vec![Op::Tick];
                        for u in others.iter().filter(|u| **u != j) {
                            c.prefix.extend([Op::Create(*u), Op::Deposit(*u, if fail { 2 } else { [9, 3, 11, 20, 7][*u as usize] }, *u)]);
                        }
                        c.max_pre = c.prefix.len() as u16 + 4;
                        c.ops.extend([Op::Create(j), Op::Deposit(j, 6, j), Op::Deposit(j, 60, j), Op::Withdraw(j, 6), Op::Claim(j), Op::Refresh(j), Op::Remaining(j), Op::Close(j)]);
                        c.ops.extend([Op::CreatorWithdraw, Op::CollectFee, Op::Unsold, Op::Tick]);
                    }));
                }
            }
        }
    }
    // strangers' tokens in small worlds, with every operation
    for mode in [PRORATA, FCFS, FIXED] {
        for (vn, va) in [("none", VestArgs::default()), ("vest", vest(2000, 5, 10, 0))] {
            for tok in [Tok::Spl, Tok::Fee { bps: 300, max: 40, bps2: 300, max2: 40, epoch2: 5000 }] {
                out.push(plain(mode).named(format!("crowd/gifts/{}/{vn}/{}", mode_name(mode), if tok == Tok::Spl { "spl" } else { "fee" })).with(|c| {
                    c.args.vest = va.clone();
                    c.base = tok;
                    c.quote = tok;
                    c.args.max_cap = 100;
                    c.args.min_cap = 40;
                    c.args.regs[0] = reg(1, 90, 300, 250);
                    c.q_price = if mode == FIXED { price(1, 2) } else { 0 };
                    c.wallets = vec![400, 400];
                    c.max_pre = 4;
                    c.at(&[START, END, END + 15]);
                    c.pre_ops(&[30, 90], &[]);
                    c.post_ops(false);
                    c.ops.extend([Op::Donate(true, 500), Op::Donate(false, 500)]);
                }));
            }
        }
    }
    out
}

/// Oversubscription arithmetic: many (demand, cap, registry split) combinations.
pub fn prorata(tier: Tier) -> Vec<Cfg> {
    let mut out = vec![];
    let quick = tier == Tier::Quick;
    let caps: &[u64] = if quick { &[1, 7, 10] } else { &[1, 2, 3, 7, 10, 13, 97] };
    for &cap in caps {
        for bps in if quick { vec![0u16, 1500] } else { vec![0, 1, 1500, 5000] } {
            for big in [1u64, 1_000_000_007] {
                out.push(plain(PRORATA).named(format!("prorata/cap{cap}x{big}/fee{bps}")).with(|c| {
                    c.args.max_cap = cap * big;
                    c.args.min_cap = 1.max(cap * big / 2);
                    c.args.regs[0] = reg(1, cap * big, 37 * big, bps);
                    c.slots = vec![slot(0, 0, 0), slot(1, 0, 0), slot(2, 0, 0)];
                    c.wallets = vec![10 * cap * big; 3];
                    c.max_pre = if quick { 6 } else { 7 };
                    c.at(&[START, END]);
                    c.pre_ops(&[(cap * big).div_ceil(3), cap * big], &[]);
                    if cap > 1 && big == 1 {
                        c.ops.push(Op::Withdraw(0, 1));
                    }
                    for u in 0..3 {
                        c.ops.push(Op::Remaining(u));
                    }
                    c.ops.extend([Op::Claim(0), Op::CreatorWithdraw, Op::CollectFee, Op::Tick]);
                }));
            }
        }
    }
    // registries with different fee rates share the overflow in proportion
    for bps in [[0u16, 5000, 100], [700, 700, 700]] {
        for (d0, d1, d2) in [(5u64, 9u64, 10u64), (1, 10, 3), (10, 10, 10)] {
            out.push(plain(PRORATA).named(format!("prorata/regs/{}-{}-{}/{d0}-{d1}-{d2}", bps[0], bps[1], bps[2])).with(|c| {
                c.args.wl = 2;
                c.args.max_cap = 10;
                c.args.regs = vec![reg(1, 10, 50, bps[0]), reg(1, 10, 31, bps[1]), reg(1, 10, 7, bps[2])];
                c.slots = vec![slot(0, 0, 10), slot(1, 1, 10), slot(2, 2, 10)];
                c.wallets = vec![60, 60, 60];
                c.max_pre = 6;
                c.at(&[START, END]);
                c.ops = vec![Op::Create(0), Op::Create(1), Op::Create(2), Op::Deposit(0, d0, 0), Op::Deposit(1, d1, 1), Op::Deposit(2, d2, 2)];
                for u in 0..3 {
                    c.ops.push(Op::Remaining(u));
                }
                c.ops.extend([Op::Claim(0), Op::Claim(2), Op::CreatorWithdraw, Op::CollectFee, Op::Unsold, Op::Tick]);
            }));
        }
    }
    out
}

/// Unusual casts: the creator, the operator or the rent payer takes part in the sale; one mint serves
/// as base and quote; odd decimals.
pub fn people(tier: Tier) -> Vec<Cfg> {
    let mut out = vec![];
    let quick = tier == Tier::Quick;
    for mode in [PRORATA, FCFS, FIXED] {
        for wl in 0..3u8 {
            for insider in 0..4u8 {
                for same in [false, true] {
                    for tok in [Tok::Spl, Tok::Fee { bps: 300, max: 40, bps2: 300, max2: 40, epoch2: 5000 }] {
                        let fee = tok != Tok::Spl;
                        // every pair of features, in the quick tier not every triple
                        if quick && (usize::from(wl) + usize::from(insider) + usize::from(same) + usize::from(fee)) % 3 != usize::from(mode) % 3 && !(insider == 1 && !same && !fee) {
                            continue;
                        }
                        out.push(plain(mode).named(format!("people/{}/wl{wl}/in{insider}/same{}/{}", mode_name(mode), u8::from(same), if fee { "fee" } else { "spl" })).with(|c| {
                            c.insider = insider;
                            c.same_mint = same;
                            c.dec = [(0, 0), (9, 0), (2, 11), (18, 6)][usize::from(insider)];
                            c.base = tok;
                            c.quote = tok;
                            c.args.wl = wl;
                            c.args.max_cap = 40;
                            c.args.min_cap = 15;
                            c.args.unsold = u8::from(wl != 1);
                            let nr = if wl == 0 { 1 } else { 2 };
                            let (lo, hi) = if wl > 0 { (1, 40) } else { (2, 36) };
                            c.args.regs = (0..nr).map(|i| reg(lo, hi, 60 + 7 * i as u64, 900 + i as u16)).collect();
                            c.q_price = if mode == FIXED { price(4, 5) } else { 0 };
                            c.slots = vec![slot(0, (nr - 1) as u8, 30), slot(1, 0, 30)];
                            c.wallets = vec![150, 150];
                            c.max_pre = if quick { 5 } else { 6 };
                            // half of them release in parts
                            if (wl + insider + u8::from(fee)) % 2 == 0 {
                                c.args.vest = vest(2500, 4, 9, 0);
                                c.max_pre = if quick { 4 } else { 6 };
                                c.at(&[START, END, END + 8]);
                            } else {
                                c.at(&[START, END]);
                            }
                            c.pre_ops(&[9, 36], &[5]);
                            c.post_ops(true);
                        }));
                    }
                }
            }
        }
    }
    out
}

/// Final shares: every combination of three deposits over shared and separate registries, then every
/// order of claims, refunds and creator operations.
pub fn shares(tier: Tier) -> Vec<Cfg> {
    let mut out = vec![];
    let quick = tier == Tier::Quick;
    let grid: &[u64] = if quick { &[1, 2, 5, 9] } else { &[1, 2, 3, 5, 7, 9, 10] };
    for mode in [PRORATA, FCFS, FIXED] {
        for map in [[0u8, 0, 1], [1, 0, 1], [0, 0, 0], [2, 1, 2]] {
            if quick && mode != PRORATA && map[0] == 2 {
                continue;
            }
            for (fi, bps) in [[0u16; 3], [700, 5000, 33]].into_iter().enumerate() {
                if quick && fi == 0 && (mode != PRORATA || map != [0, 0, 1]) {
                    continue;
                }
                for a in grid {
                    for b in grid {
                        for c3 in grid {
                            let v = if (a + b + c3 + u64::from(map[0])) % 2 == 0 { VestArgs::default() } else { vest(3333, 3, 7, 0) };
                            out.push(plain(mode).named(format!("shares/{}/{map:?}/f{fi}/{a}-{b}-{c3}", mode_name(mode))).with(|c| {
                                c.args.wl = 2;
                                c.args.max_cap = if mode == PRORATA { 11 } else { 30 };
                                c.args.min_cap = 2;
                                c.args.unsold = 1;
                                c.args.vest = v.clone();
                                c.q_price = if mode == FIXED { price(3, 5) } else { 0 };
                                let n = usize::from(*map.iter().max().unwrap()) + 1;
                                let m = c.args.max_cap;
                                c.args.regs = (0..n).map(|i| reg(1, m, [50, 31, 17][i], bps[i])).collect();
                                c.slots = (0..3u16).map(|i| slot(i, map[i as usize], 11)).collect();
                                c.wallets = vec![60; 3];
                                let vested = v.vest > 0;
                                if vested {
                                    c.at(&[START, END + 5, END + 10]);
                                } else {
                                    c.at(&[START, END]);
                                }
                                c.prefix = vec![Op::Tick];
                                for (u, d) in [*a, *b, *c3].into_iter().enumerate() {
                                    c.prefix.extend([Op::Create(u as u16), Op::Deposit(u as u16, d, u as u16)]);
                                }
                                c.prefix.push(Op::Tick);
                                for u in 0..3 {
                                    c.ops.push(Op::Claim(u));
                                    if mode == PRORATA {
                                        c.ops.push(Op::Remaining(u));
                                    }
                                }
                                c.ops.extend([Op::CreatorWithdraw, Op::CollectFee, Op::Unsold, Op::Tick]);
                                if fi == 1 && mode == PRORATA {
                                    c.ops.push(Op::Close(1));
                                }
                            }));
                        }
                    }
                }
            }
        }
    }
    // leavers: a position that withdrew all or most of its deposit keeps its fee, of which a part is due
    for mode in [PRORATA, FIXED] {
        for bps in if quick { vec![500u16, 5000] } else { vec![1, 500, 3333, 5000] } {
            for a in if quick { vec![1u64, 2, 3, 5, 20, 40] } else { (1..=45).collect() } {
                for keep in [0u64, 1] {
                    for other in [14u64, 27, 40] {
                        for split in [false, true] {
                            if a <= keep || mode == FIXED && (a < 2 || keep == 1 || other != 14) {
                                continue;
                            }
                            out.push(plain(mode).named(format!("shares/leaver/{}/fee{bps}/{a}-{keep}/{other}/split{}", mode_name(mode), u8::from(split))).with(|c| {
                                c.args.wl = 2;
                                c.args.max_cap = if mode == PRORATA { 40 } else { 60 };
                                c.args.min_cap = if mode == PRORATA { 4 } else { [4, 30][usize::from(split)] };
                                c.q_price = if mode == FIXED { price(1, 5) } else { 0 };
                                let m = c.args.max_cap;
                                c.args.regs = vec![reg(1, m, 300, bps), reg(1, m, 310, 5000 - bps)];
                                c.slots = vec![slot(0, 0, 40), slot(1, u8::from(split), 40), slot(2, 0, 40), slot(3, u8::from(split), 40)];
                                c.wallets = vec![200; 4];
                                c.at(&[START, END]);
                                c.prefix = vec![Op::Tick, Op::Create(0), Op::Deposit(0, a, 0), Op::Withdraw(0, a - keep)];
                                for u in 1..4 {
                                    c.prefix.extend([Op::Create(u), Op::Deposit(u, other, u)]);
                                }
                                c.prefix.push(Op::Tick);
                                c.ops.extend([Op::Claim(0), Op::Remaining(0), Op::Close(0), Op::Remaining(1), Op::Claim(1), Op::Close(1), Op::CreatorWithdraw, Op::CollectFee, Op::Unsold]);
                            }));
                        }
                    }
                }
            }
        }
    }
    out
}

/// Fixed price: many prices, caps that do not divide evenly, supplies barely large enough.
pub fn fixed(tier: Tier) -> Vec<Cfg> {
    let mut out = vec![];
    let quick = tier == Tier::Quick;
    let prices: Vec<(String, u128)> = {
        let mut v: Vec<(String, u128)> = [(1u64, 7u64), (1, 3), (2, 3), (1, 1), (3, 2), (7, 3), (4, 1)]
            .iter()
            .map(|(a, b)| (format!("{a}_{b}"), price(*a, *b)))
            .collect();
        v.push(("one+eps".into(), SCALE + 1));
        v.push(("one-eps".into(), SCALE - 1));
        v.push(("third+eps".into(), SCALE / 3 + 1));
        v
    };
    for (pn, q) in &prices {
        for cap in if quick { vec![9u64, 10] } else { vec![5, 9, 10, 11, 16] } {
            for extra in [0u64, 3] {
                for de in [0u8, 1] {
                    if quick && de == 1 && extra == 3 {
                        continue;
                    }
                    let sup = bought(*q, cap) as u64 + extra;
                    let min = (ceil_div(*q, SCALE) as u64).max(1);
                    if bought(*q, min) == 0 || bought(*q, 2) == bought(*q, cap) {
                        continue;
                    }
                    out.push(plain(FIXED).named(format!("fixed/q{pn}/cap{cap}/+{extra}/de{de}")).with(|c| {
                        c.q_price = *q;
                        c.args.max_cap = cap;
                        c.args.min_cap = 2;
                        c.args.disable_early = de;
                        c.args.unsold = (extra % 2) as u8;
                        c.args.regs[0] = reg(min, cap, sup, if de == 1 { 250 } else { 0 });
                        c.wallets = vec![3 * cap, 3 * cap];
                        c.max_pre = if quick { 5 } else { 6 };
                        c.at(&[START, END]);
                        c.pre_ops(&[min, 3, 5, 100], &[1, 3, min + 1]);
                        c.ops.sort_by_key(|o| format!("{o:?}"));
                        c.ops.dedup();
                        c.ops.extend([Op::Claim(0), Op::Claim(1), Op::CreatorWithdraw, Op::Unsold, Op::Tick]);
                    }));
                }
            }
        }
    }
    // multi-registry fixed price: one registry sells out long before the cap
    for wl in [1u8, 2] {
        for q in [price(1, 3), price(3, 2), price(2, 1)] {
            out.push(plain(FIXED).named(format!("fixed/regs/wl{wl}/q{q}")).with(|c| {
                let min = ceil_div(q, SCALE) as u64;
                c.q_price = q;
                c.args.wl = wl;
                c.args.max_cap = 10;
                c.args.min_cap = 3;
                c.args.regs = vec![reg(min, 10, 2, 300), reg(min, 10, bought(q, 10) as u64, 0)];
                c.slots = vec![slot(0, 0, 10), slot(1, 1, 7), slot(2, 0, min)];
                c.wallets = vec![40, 40, 40];
                c.max_pre = 6;
                c.at(&[START, END]);
                c.pre_ops(&[min, 9], &[min]);
                c.ops.extend([Op::Claim(0), Op::Claim(1), Op::Claim(2), Op::CreatorWithdraw, Op::CollectFee, Op::Unsold, Op::Tick]);
            }));
        }
    }
    out
}

/// Quantities near the limits of the number types.
pub fn big(tier: Tier) -> Vec<Cfg> {
    let mut out = vec![];
    let quick = tier == Tier::Quick;
    const M: u64 = u64::MAX;
    let day = 86_400u64;
    for mode in [PRORATA, FCFS] {
        for (vn, va) in [
            ("none", VestArgs::default()),
            ("ten-years", vest(1, 1, 315_360_000 - 2, END + 100 * day)),
            ("half", vest(5000, 30 * day, 100 * day, 0)),
        ] {
            for bps in [0u16, 1, 5000] {
                for cap in [M, M / 2, 1 << 32] {
                    out.push(plain(mode).named(format!("big/{}/{vn}/fee{bps}/cap{cap}", mode_name(mode))).with(|c| {
                        c.args.vest = va.clone();
                        c.args.max_cap = cap;
                        c.args.min_cap = 1;
                        c.args.regs[0] = reg(1, cap, M, bps);
                        c.bystander = false;
                        c.wallets = vec![M / 2, M / 2];
                        let ve = END + va.lock + va.vest;
                        c.at(&if quick { vec![START, END + 50 * day + 7, ve.max(END)] } else { vec![START, END, END + 40 * day, END + 50 * day + 7, ve.max(END), ve.max(END) + 1000 * day] });
                        c.max_pre = 4;
                        c.pre_ops(&[M / 4 + 7, M / 2, M], &[3]);
                        c.post_ops(false);
                    }));
                }
            }
        }
    }
    // oversubscription by orders of magnitude
    for (cap, d) in [(1u64, M / 2), (3, M / 2 - 5), (1 << 40, M / 2)] {
        out.push(plain(PRORATA).named(format!("big/over/{cap}")).with(|c| {
            c.args.max_cap = cap;
            c.args.min_cap = 1;
            c.args.regs[0] = reg(1, cap, M, 2500);
            c.bystander = false;
            c.wallets = vec![d, d];
            c.at(&[START, END]);
            c.max_pre = 5;
            c.pre_ops(&[1, cap / 2 + 1, M], &[]);
            c.post_ops(false);
        }));
    }
    // one participant owning every quote token there is, the fee included
    for mode in [PRORATA, FCFS, FIXED] {
        for bps in [0u16, 1, 2500, 5000] {
            for (n, cap, lo) in [("sold", M, 1u64), ("failed", M, M - 1), ("over", M / 8, 1)] {
                let whole = (u128::from(M) * u128::from(10_000 - bps) / 10_000) as u64;
                if mode != PRORATA && n == "over" {
                    continue;
                }
                out.push(plain(mode).named(format!("big/whale/{}/{n}/fee{bps}", mode_name(mode))).with(|c| {
                    c.args.max_cap = cap;
                    c.args.min_cap = if bps == 0 && mode != FIXED { lo.min(cap) } else { lo.min(cap - 1) };
                    c.args.regs[0] = reg(1, cap, M, bps);
                    c.q_price = if mode == FIXED { SCALE } else { 0 };
                    c.bystander = false;
                    c.wallets = vec![M - 1, 1];
                    c.at(&[START, END]);
                    c.max_pre = 5;
                    c.pre_ops(&[whole, whole - 1, whole / 2], &[whole / 3]);
                    c.post_ops(false);
                }));
            }
        }
    }
    // fixed price: enormous supplies and prices
    for (n, q, sup, cap, min) in [
        ("cheap", 1u128, M, 0u64, 0u64),
        ("unit", SCALE, M, M, 1),
        ("unit-half", SCALE, M / 2, M / 2, 1),
        ("half", SCALE / 2, M, M / 2 - 1, 1),
        ("dear", SCALE << 20, 1 << 30, 1 << 40, 1 << 20),
        ("dear-full", SCALE << 20, 1 << 44, 1 << 63, 1 << 20),
        ("dear-more", SCALE << 20, 1 << 45, 1 << 63, 1 << 20),
        ("dear-much-more", SCALE << 30, 1 << 60, 1 << 62, 1 << 30),
        ("unit+", SCALE + SCALE / 4, M, M, 2),
    ] {
        if cap == 0 {
            continue;
        }
        for bps in [0u16, 5000] {
            out.push(plain(FIXED).named(format!("big/fixed/{n}/fee{bps}")).with(|c| {
                c.q_price = q;
                c.args.max_cap = cap;
                c.args.min_cap = min;
                c.args.regs[0] = reg(min, cap, sup, bps);
                c.bystander = false;
                c.wallets = vec![M / 2, M / 2];
                c.at(&[START, END]);
                c.max_pre = 4;
                c.pre_ops(&[min, cap / 4 + 1, M], &[min]);
                c.post_ops(false);
            }));
        }
    }
    out
}

pub fn token_kinds() -> Vec<(&'static str, Tok)> {
    let f = |bps, max| Tok::Fee { bps, max, bps2: bps, max2: max, epoch2: 5000 };
    vec![
        ("spl", Tok::Spl),
        ("t22", Tok::T22),
        ("fee500", f(500, 1_000_000)),
        ("fee33cap2", f(3333, 2)),
        ("fee0", f(0, 0)),
        ("fee9999", f(9_999, u64::MAX)),
        ("fee100pc", f(10_000, 25)),
        ("fee-epoch", Tok::Fee { bps: 100, max: 50, bps2: 2500, max2: 7, epoch2: 2 }),
        ("hook", Tok::Hook),
        ("feehook", Tok::FeeHook { bps: 700, max: 5 }),
        ("memo", Tok::Memo),
    ]
}

/// Lifecycles over every supported kind of mint on either side.
pub fn tokens(tier: Tier) -> Vec<Cfg> {
    let mut out = vec![];
    let quick = tier == Tier::Quick;
    let kinds = token_kinds();
    for (i, (bn, b)) in kinds.iter().enumerate() {
        for (j, (qn, q)) in kinds.iter().enumerate() {
            if i == 0 && j == 0 {
                continue;
            }
            let modes: Vec<u8> = if quick {
                if i == j || i == 0 || j == 0 { vec![[PRORATA, FCFS, FIXED][(i + j) % 3]] } else if (i + 2 * j) % 7 == 0 { vec![PRORATA] } else { vec![] }
            } else {
                vec![FIXED, PRORATA, FCFS]
            };
            for mode in modes {
                for unsold in if quick { vec![(i % 2) as u8] } else { vec![0, 1] } {
                    out.push(plain(mode).named(format!("tokens/{bn}/{qn}/{}/un{unsold}", mode_name(mode))).with(|c| {
                        c.base = *b;
                        c.quote = *q;
                        c.args.max_cap = 1000;
                        c.args.min_cap = 300;
                        c.args.unsold = unsold;
                        c.args.vest = vest(3000, 5, 10, 0);
                        if mode == FIXED {
                            c.q_price = price(3, 2);
                            c.args.regs[0] = reg(2, 900, 800, 1000);
                        } else {
                            c.args.regs[0] = reg(1, 900, 12_345, 1000);
                        }
                        c.wallets = vec![20_000_000, 20_000_000];
                        c.times = vec![(T0, 0), (START, 0), (START + 1, 2), (END, 2), (END + 11, 3), (END + 15, 3)];
                        c.max_pre = if quick { 4 } else { 5 };
                        c.pre_ops(&[250, 801], if mode == FCFS { &[] } else { &[249] });
                        if quick {
                            c.times.remove(if unsold == 0 { 1 } else { 2 });
                        }
                        c.post_ops(false);
                    }));
                }
            }
        }
    }
    // hooks that name accounts by the parties and the amount of the transfer
    for (bn, b, qn, q) in [("rich", Tok::RichHook, "spl", Tok::Spl), ("spl", Tok::Spl, "rich", Tok::RichHook), ("rich", Tok::RichHook, "rich", Tok::RichHook), ("fee", Tok::Fee { bps: 700, max: 9, bps2: 700, max2: 9, epoch2: 5000 }, "rich", Tok::RichHook)] {
        for mode in [FIXED, PRORATA, FCFS] {
            for unsold in if quick { vec![mode % 2] } else { vec![0, 1] } {
                out.push(plain(mode).named(format!("tokens/{bn}/{qn}/{}/un{unsold}", mode_name(mode))).with(|c| {
                    c.base = b;
                    c.quote = q;
                    c.args.max_cap = 120;
                    c.args.min_cap = 40;
                    c.args.unsold = unsold;
                    c.args.vest = vest(3000, 5, 10, 0);
                    if mode == FIXED {
                        c.q_price = price(3, 2);
                        c.args.regs[0] = reg(2, 90, 100, 1000);
                    } else {
                        c.args.regs[0] = reg(1, 90, 200, 1000);
                    }
                    c.wallets = vec![190, 190];
                    c.times = vec![(T0, 0), (START, 0), (END, 2), (END + 11, 3), (END + 15, 3)];
                    c.max_pre = if quick { 3 } else { 4 };
                    c.pre_ops(&[31, 91], if mode == FCFS { &[] } else { &[30] });
                    c.post_ops(false);
                }));
            }
        }
    }
    // transfer-fee inversion at many rates and amounts
    for bps in [1u16, 2, 3, 7, 10, 33, 100, 250, 999, 1000, 3333, 5000, 7500, 9_999, 10_000] {
        for max in [0u64, 1, 9, 1000, u64::MAX] {
            out.push(plain(PRORATA).named(format!("tokens/fee-grid/{bps}/{max}")).with(|c| {
                c.quote = Tok::Fee { bps, max, bps2: bps, max2: max, epoch2: 5000 };
                c.args.max_cap = 1 << 40;
                c.args.min_cap = 1;
                c.args.regs[0] = reg(1, 1 << 40, 1000, if max == 9 { 77 } else { 0 });
                c.wallets = vec![u64::MAX / 4, 0];
                c.slots.truncate(1);
                c.max_pre = 2;
                c.at(&[START, END]);
                c.ops = vec![Op::Create(0), Op::Tick, Op::Remaining(0), Op::CreatorWithdraw, Op::CollectFee];
                let mut am: Vec<u64> = (1..=if quick { 60 } else { 400 }).collect();
                am.extend([9_999, 10_000, 10_001, 123_456_789, 1 << 39, 1 << 40]);
                c.ops.extend(am.iter().map(|a| Op::Deposit(0, *a, 0)));
            }));
        }
    }
    out
}

pub fn family(name: &str, tier: Tier) -> Vec<Cfg> {
    family_opt(name, tier).unwrap_or_else(|| panic!("unknown family {name}"))
}

pub fn family_opt(name: &str, tier: Tier) -> Option<Vec<Cfg>> {
    Some(match name {
        "life" => life(tier),
        "deposits" => deposits(tier),
        "phases" => phases(tier),
        "registries" => registries(tier),
        "vesting" => vesting(tier),
        "marathon" => marathon(tier),
        "combos" => combos(tier),
        "years" => years(tier),
        "fees" => fees(tier),
        "fee_life" => fee_life(tier),
        "prorata" => prorata(tier),
        "crowd" => crowd(tier),
        "shares" => shares(tier),
        "people" => people(tier),
        "contest" => contest(tier),
        "fixed" => fixed(tier),
        "big" => big(tier),
        "tokens" => tokens(tier),
        "creations" => FAMILIES.iter().flat_map(|f| family(f, tier)).map(|mut c| {
            c.ops.clear();
            c.prefix.clear();
            c
        }).collect(),
        _ => return None,
    })
}

/// Every family of worlds; "creations" creates each of their sales and stops there.
const FAMILIES: [&str; 18] = [
    "life", "deposits", "phases", "registries", "vesting", "marathon", "combos", "years", "fees", "fee_life", "prorata", "crowd", "shares", "people", "contest", "fixed", "big", "tokens",
];
