//! Admission to whitelisted sales, and the life of the auxiliary records (whitelist roots,
//! operators, server metadata, price sheets).

use crate::abi::*;
use crate::configs::{price, reg, Tier};
use crate::explore::{events, Filter, Found, Stats, Viol};
use crate::spec::*;
use crate::svm::*;
use crate::world::*;
use solana_program::{instruction::Instruction, pubkey::Pubkey};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::Arc;

const START: u64 = T0 + 10;
const END: u64 = T0 + 110;

fn k(s: &str) -> Pubkey {
    label(s)
}
fn at(t: u64) -> Now {
    Now { ts: t as i64, epoch: 0 }
}

pub struct Sale {
    pub name: &'static str,
    pub presale: Pubkey,
    pub creator: Pubkey,
    pub wl: u8,
    pub regs: Vec<RegArgs>,
}

struct Lab {
    db: Db,
    sales: Vec<Sale>,
    fail: Option<String>,
}

impl Lab {
    fn new() -> Lab {
        let mut db = base_db();
        for m in ["base-mint", "quote-mint"] {
            make_mint(&mut db, k(m), Tok::Spl);
        }
        for p in ["creatorA", "creatorB", "payer", "opX", "opY", "stranger"] {
            db.fund(k(p), 1_000_000_000_000);
        }
        db.fund(k("rent-receiver"), 1_000_000);
        make_token_account(&mut db, k("payer-b"), k("base-mint"), k("payer"), Tok::Spl);
        mint_to(&mut db, k("base-mint"), k("payer-b"), 1_000_000, Tok::Spl);
        make_token_account(&mut db, k("payer-q"), k("quote-mint"), k("payer"), Tok::Spl);
        mint_to(&mut db, k("quote-mint"), k("payer-q"), 1_000_000, Tok::Spl);
        Lab { db, sales: vec![], fail: None }
    }
    fn run(&mut self, t: u64, ix: Instruction, what: &str) -> bool {
        match execute(&self.db, at(t), &ix) {
            Ok(o) => {
                self.db = o.db;
                true
            }
            Err(e) => {
                self.fail.get_or_insert(format!("{what}: {e:?}"));
                false
            }
        }
    }
    /// Opens a position in sale `si` and deposits `amt` (nothing when 0), at the start.
    fn live(&mut self, si: usize, amt: u64) {
        let (p, c, wl) = (self.sales[si].presale, self.sales[si].creator, self.sales[si].wl);
        let ow = k("participant");
        let e = escrow_pda(&p, &ow, 0);
        match wl {
            0 => {
                self.run(START, create_permissionless_escrow(p, e, ow, k("payer")), "open");
            }
            1 => {
                let l = leaf(&ow, 0, 20);
                self.run(T0, create_merkle_root_config(p, merkle_pda(&p, 77), c, l, 77), "root");
                self.run(START, create_permissioned_escrow_with_merkle_proof(p, e, ow, merkle_pda(&p, 77), k("payer"), &[], 0, 20), "open");
            }
            _ => {
                let op = operator_pda(&c, &k("opX"));
                if self.db.get(&op).is_none() {
                    self.run(T0, create_operator(op, k("opX"), c), "operator");
                }
                self.run(START, create_permissioned_escrow_with_creator(p, e, ow, op, k("opX"), k("payer"), 0, 20), "open");
            }
        }
        if amt > 0 {
            let a = DepositAccs { presale: p, quote_vault: quote_vault_pda(&p), quote_mint: k("quote-mint"), escrow: e, payer_quote: k("payer-q"), payer: k("payer"), token_program: spl_token::ID };
            self.run(START, deposit(&a, amt, &vec![], vec![]), "deposit");
        }
    }
    /// A sale with `nregs` registries; fixed-price ones cost 5/2, so the least deposit is 3.
    fn sale(&mut self, name: &'static str, creator: &str, mode: u8, wl: u8, nregs: usize) -> usize {
        self.sale_upto(name, creator, mode, wl, nregs, 20)
    }
    fn sale_upto(&mut self, name: &'static str, creator: &str, mode: u8, wl: u8, nregs: usize, cap: u64) -> usize {
        let base = k(name);
        self.db.fund(base, 1_000_000_000);
        let presale = presale_pda(&base, &k("base-mint"), &k("quote-mint"));
        let q = price(5, 2);
        let (min, max) = if mode == FIXED { (3, cap) } else { (1, cap) };
        let regs = vec![reg(min, max, 100, 0); nregs];
        if mode == FIXED {
            self.run(T0, initialize_fixed_price_presale_args(fixed_args_pda(&presale), k(creator), k("payer"), presale, 0, q), "sheet");
        }
        let accs = InitAccs {
            base_mint: k("base-mint"),
            presale,
            quote_mint: k("quote-mint"),
            base_vault: base_vault_pda(&presale),
            quote_vault: quote_vault_pda(&presale),
            payer_base: k("payer-b"),
            creator: k(creator),
            base,
            payer: k("payer"),
            base_prog: spl_token::ID,
            quote_prog: spl_token::ID,
        };
        let args = InitArgs {
            max_cap: cap,
            min_cap: 5,
            start: START,
            end: END,
            wl,
            mode,
            unsold: 0,
            disable_early: 0,
            vest: VestArgs::default(),
            regs: regs.clone(),
        };
        let extra = if mode == FIXED { vec![meta(fixed_args_pda(&presale), false, false)] } else { vec![] };
        self.run(T0, initialize_presale(&accs, &args, &vec![], extra), "init");
        self.sales.push(Sale { name, presale, creator: k(creator), wl, regs });
        self.sales.len() - 1
    }
}

struct Out<'a> {
    st: Stats,
    found: Option<Found>,
    mine: &'a Filter<'a>,
    unit: &'static str,
}

impl Out<'_> {
    fn viol(&mut self, tag: String, trace: Vec<String>, msg: String) {
        if self.found.is_none() && (self.mine)(&tag) {
            self.found = Some(Found { cfg: 0, cfg_name: self.unit.into(), trace, viol: Viol { tag, msg } });
        } else {
            *self.st.foreign.entry(tag).or_default() += 1;
        }
    }
    fn seen(&mut self, what: &str, ok: bool) {
        self.st.transitions += 1;
        let e = self.st.outcomes.entry(what.to_string()).or_default();
        if ok {
            e.0 += 1
        } else {
            e.1 += 1
        }
    }
    fn done(mut self) -> (Stats, Option<Found>) {
        self.st.validated = self.st.transitions;
        (self.st, self.found)
    }
}

fn fold(leaf: [u8; 32], proof: &[[u8; 32]]) -> [u8; 32] {
    proof.iter().fold(leaf, |h, p| parent(&h, p))
}

/// Check the effects of an accepted position opening.
#[allow(clippy::too_many_arguments)]
fn judge_open(o: &mut Out, pre: &Db, ok: &ExecOk, s: &Sale, owner: &Pubkey, r: u8, cap: u64, t: u64, trace: &[String]) {
    let post = &ok.db;
    let e = escrow_pda(&s.presale, owner, r);
    let tr = trace.to_vec();
    match post.get(&e).filter(|a| a.owner == presale::ID).and_then(|a| escrow_view(&a.data)) {
        None => o.viol("state/escrowcfg/whitelist".into(), tr.clone(), "accepted but no position exists".into()),
        Some(v) => {
            if (v.presale, v.owner, v.reg, v.cap) != (s.presale, *owner, r, cap) {
                o.viol(
                    "state/escrowcfg/whitelist".into(),
                    tr.clone(),
                    format!("position opened as {:?}, expected {:?}", (v.presale, v.owner, v.reg, v.cap), (s.presale, owner, r, cap)),
                );
            }
            if (v.dep, v.fee, v.claimed, v.pending, v.refunded, v.created_at) != (0, 0, 0, 0, 0, t) {
                o.viol("state/escrowcfg/whitelist".into(), tr.clone(), "a new position is not empty".into());
            }
        }
    }
    let n = |d: &Db| d.get(&s.presale).and_then(|a| presale_view(&a.data)).map(|p| (p.total_escrow, p.regs.get(r as usize).map(|x| x.total_escrow)));
    if let (Some((a, Some(b))), Some((c, Some(d)))) = (n(pre), n(post)) {
        if c != a + 1 || d != b + 1 {
            o.viol("state/stats/whitelist".into(), tr.clone(), "position count not increased by one".into());
        }
        let mut want = evt_disc("EvtEscrowCreate").to_vec();
        want.extend(s.presale.to_bytes());
        want.extend(owner.to_bytes());
        want.push(s.wl);
        want.extend(c.to_le_bytes());
        let ev = events(&ok.inner);
        if ev.len() != 1 || ev[0] != want.as_slice() {
            o.viol("event/whitelist".into(), tr.clone(), "announcement differs from the position opened".into());
        }
    }
    for (key, a) in &post.m {
        let same = pre.m.get(key).map(|b| Arc::ptr_eq(a, b)).unwrap_or(false);
        if !same && ![e, s.presale, k("payer")].contains(key) {
            o.viol("frame/whitelist".into(), tr.clone(), format!("opening a position changed account {key}"));
        }
    }
}

/// Proofs of every length an instruction can carry, with siblings on either side.
fn explore_depth(o: &mut Out, tier: Tier) {
    let max_d = if tier == Tier::Quick { 24u64 } else { 30 };
    let mut lab = Lab::new();
    let si = lab.sale("deep", "creatorA", PRORATA, 1, 5);
    let (p, c) = (lab.sales[si].presale, lab.sales[si].creator);
    for d in 0..=max_d {
        for r in [0u8, 3, 4] {
            let (ow, cp) = (k(&format!("deep{d}-{r}")), 1 + (d + u64::from(r)) % 20);
            let proof: Vec<[u8; 32]> = (0..d)
                .map(|i| match (i + u64::from(r)) % 4 {
                    // far left, far right, and two ordinary siblings
                    0 => [0u8; 32],
                    1 => [255u8; 32],
                    _ => k(&format!("sib{d}-{i}-{r}")).to_bytes(),
                })
                .collect();
            let ver = d * 8 + u64::from(r) + if d % 2 == 1 { 1 << 40 } else { 0 };
            let root = fold(leaf(&ow, r, cp), &proof);
            lab.run(T0, create_merkle_root_config(p, merkle_pda(&p, ver), c, root, ver), "root");
            if let Some(f) = lab.fail.take() {
                o.viol("reject/whitelist-setup".into(), vec![format!("root version {ver}")], f);
                return;
            }
            let go = |pf: &[[u8; 32]], cp: u64| execute(&lab.db, at(START), &create_permissioned_escrow_with_merkle_proof(p, escrow_pda(&p, &ow, r), ow, merkle_pda(&p, ver), k("payer"), pf, r, cp));
            let tr = |w: &str| vec![format!("proof of {d} steps for registry {r} cap {cp}, {w}")];
            let x = go(&proof, cp);
            o.seen("open", x.is_ok());
            match x {
                Ok(x) => judge_open(o, &lab.db, &x, &lab.sales[si], &ow, r, cp, START, &tr("as listed")),
                Err(e) => o.viol("reject/whitelist".into(), tr("as listed"), format!("listed participant refused: {e:?}")),
            }
            for i in 0..proof.len() {
                let mut cut = proof.clone();
                cut.remove(i);
                let mut flip = proof.clone();
                flip[i][(i * 7) % 32] ^= 0x80;
                for (w, pf) in [("step missing", &cut), ("step altered", &flip)] {
                    let got = go(pf, cp).is_ok();
                    o.seen("open", got);
                    if got {
                        o.viol("accept/whitelist/Ongoing/NotListed".into(), tr(w), "position opened with a wrong proof".into());
                    }
                }
            }
            let got = go(&proof, cp % 20 + 1).is_ok();
            o.seen("open", got);
            if got {
                o.viol("accept/whitelist/Ongoing/NotListed".into(), tr("other cap"), "position opened with a cap that is not listed".into());
            }
        }
    }
    o.st.configs += 1;
}

/// Caps of every magnitude in a sale without a practical hard cap: exactly the listed terms open.
fn explore_terms(o: &mut Out) {
    let mut lab = Lab::new();
    let si = lab.sale_upto("wide", "creatorA", FCFS, 1, 5, u64::MAX);
    let (p, c) = (lab.sales[si].presale, lab.sales[si].creator);
    let mut caps: BTreeSet<u64> = (0..64).flat_map(|b| [1u64 << b, (1u64 << b) + ((1u64 << b) - 1), 5 | 1 << b]).collect();
    caps.extend([u64::MAX - 1, 0x0102_0304_0506_0708, 0xff00_0000_0000_0005, 10_000_000_000]);
    for (n, cp) in caps.iter().enumerate() {
        let r = (n % 5) as u8;
        let ow = k(&format!("wide{n}"));
        let sib = k(&format!("widesib{n}")).to_bytes();
        let proof: Vec<[u8; 32]> = if n % 3 == 0 { vec![] } else { vec![sib] };
        let ver = n as u64;
        lab.run(T0, create_merkle_root_config(p, merkle_pda(&p, ver), c, fold(leaf(&ow, r, *cp), &proof), ver), "root");
        if let Some(f) = lab.fail.take() {
            o.viol("reject/whitelist-setup".into(), vec![format!("root version {ver}")], f);
            return;
        }
        let go = |ow: Pubkey, r: u8, cp: u64| execute(&lab.db, at(START), &create_permissioned_escrow_with_merkle_proof(p, escrow_pda(&p, &ow, r), ow, merkle_pda(&p, ver), k("payer"), &proof, r, cp));
        let x = go(ow, r, *cp);
        let tr = vec![format!("listed with registry {r} cap {cp}")];
        o.seen("open", x.is_ok());
        match x {
            Ok(x) => judge_open(o, &lab.db, &x, &lab.sales[si], &ow, r, *cp, START, &tr),
            Err(e) => o.viol("reject/whitelist".into(), tr.clone(), format!("listed participant refused: {e:?}")),
        }
        let mut others: BTreeSet<(Pubkey, u8, u64)> = BTreeSet::new();
        for b in 0..64u32 {
            others.insert((ow, r, cp ^ 1 << b));
        }
        for by in 0..8u32 {
            let m = 0xffu64 << (8 * by);
            others.extend([(ow, r, cp & !m), (ow, r, cp | m), (ow, r, cp.rotate_left(8 * by))]);
        }
        others.extend([(ow, r, !cp), (ow, r, cp.wrapping_add(1)), (ow, r, cp.wrapping_sub(1)), (ow, r, cp.saturating_mul(2))]);
        for r2 in (0..=5u8).chain([128, 255, r | 16]) {
            others.insert((ow, r2, *cp));
        }
        if n % 16 == 0 {
            for by in 0..32usize {
                let mut b = ow.to_bytes();
                b[by] ^= 1 << (by % 8);
                others.insert((Pubkey::new_from_array(b), r, *cp));
            }
        }
        others.remove(&(ow, r, *cp));
        for (ow2, r2, cp2) in others {
            let got = go(ow2, r2, cp2).is_ok();
            o.seen("open", got);
            if got {
                o.viol("accept/whitelist/Ongoing/NotListed".into(), vec![format!("listed: registry {r} cap {cp}"), format!("opened: registry {r2} cap {cp2}, same owner: {}", ow == ow2)], "position opened on terms that are not listed".into());
            }
        }
    }
    o.st.configs += 1;
}

/// Every (owner, registry, cap) x proof x root account, for every list size.
pub fn explore_merkle(mine: &Filter<'_>, tier: Tier) -> (Stats, Option<Found>) {
    let mut o = Out { st: Stats::default(), found: None, mine, unit: "whitelist/merkle" };
    let max_n = if tier == Tier::Quick { 6 } else { 11 };
    explore_depth(&mut o, tier);
    explore_terms(&mut o);
    for mode in [PRORATA, FIXED, FCFS] {
        for n in 1..=max_n {
            if o.found.is_some() {
                break;
            }
            let mut lab = Lab::new();
            let main = lab.sale("sale", "creatorA", mode, 1, 2);
            let other = lab.sale("other", "creatorA", mode, 1, 2);
            let rogue = lab.sale("rogue", "creatorB", mode, 1, 2);
            lab.sale("open", "creatorA", mode, 0, 1);
            lab.sale("byop", "creatorA", mode, 2, 2);
            let owners: Vec<Pubkey> = (0..n + 1).map(|i| k(&format!("w{i}"))).collect();
            // registries alternate; caps sit on, inside and outside the permitted range
            let caps = [3u64, 20, u64::MAX, 7, 2, 21, 1, (1 << 32) + 9, 9, 0, 20, 261, 5, 8];
            let list: Vec<(Pubkey, u8, u64)> = (0..n).map(|i| (owners[i], (i % 2) as u8, caps[i % caps.len()])).collect();
            // a second version that re-lists the first owner with other terms, plus the stranger
            let list1 = vec![(owners[0], 1u8, 11u64), (owners[n], 0, 5), (owners[0], 2, 6)];
            // other sales list the stranger generously
            let list2 = vec![(owners[n], 0u8, 20u64), (owners[0], 0, 20)];
            let tree = |l: &[(Pubkey, u8, u64)]| ref_tree(&l.iter().map(|x| leaf(&x.0, x.1, x.2)).collect::<Vec<_>>());
            let mut roots: Vec<(String, Pubkey, Option<([u8; 32], usize)>)> = vec![];
            let trees = [(main, 0u64, list.clone()), (main, 1, list1.clone()), (other, 0, list2.clone()), (rogue, 0, list2.clone()), (main, 2, list2.clone())];
            for (s, ver, l) in &trees {
                let (p, c) = (lab.sales[*s].presale, lab.sales[*s].creator);
                let key = merkle_pda(&p, *ver);
                lab.run(T0, create_merkle_root_config(p, key, c, tree(l).0, *ver), "root");
                roots.push((format!("{}#{ver}", lab.sales[*s].name), key, Some((tree(l).0, *s))));
            }
            // roots that stand for no list at all admit nobody
            for (ver, root) in [(3u64, [0u8; 32]), (4, [255u8; 32])] {
                let (p, c) = (lab.sales[main].presale, lab.sales[main].creator);
                lab.run(T0, create_merkle_root_config(p, merkle_pda(&p, ver), c, root, ver), "root");
                roots.push((format!("sale#{ver}"), merkle_pda(&p, ver), Some((root, main))));
            }
            // version 2 was a mistake and is taken back before the start
            let (p, c) = (lab.sales[main].presale, lab.sales[main].creator);
            lab.run(T0, close_merkle_root_config(p, merkle_pda(&p, 2), k("rent-receiver"), c), "close root");
            roots[4].2 = None;
            // a byte-identical forgery of a favourable root, owned by nobody we trust
            if let Some(a) = lab.db.get(&merkle_pda(&p, 0)).cloned() {
                let mut d = a.data.to_vec();
                d[8..40].copy_from_slice(&tree(&list2).0);
                lab.db.put(k("forged-root"), Acct { owner: k("fake-program"), data: d.into(), ..a });
                roots.push(("forged".into(), k("forged-root"), None));
            }
            if let Some(f) = lab.fail.take() {
                o.viol("reject/whitelist-setup".into(), vec![], f);
                continue;
            }
            // proofs
            let mut proofs: Vec<(String, Vec<[u8; 32]>)> = vec![("empty".into(), vec![])];
            for (ti, (_, _, l)) in trees.iter().enumerate().take(3) {
                let (root, ps) = tree(l);
                for (i, p) in ps.iter().enumerate() {
                    proofs.push((format!("tree{ti}[{i}]"), p.clone()));
                    if ti == 0 {
                        if !p.is_empty() {
                            proofs.push((format!("cut[{i}]"), p[..p.len() - 1].to_vec()));
                            proofs.push((format!("tail[{i}]"), p[1..].to_vec()));
                            let mut f = p.clone();
                            f[0][31] ^= 1;
                            proofs.push((format!("flip[{i}]"), f));
                            let mut f = p.clone();
                            f.reverse();
                            proofs.push((format!("rev[{i}]"), f));
                        }
                        let mut f = p.clone();
                        f.push(root);
                        proofs.push((format!("ext[{i}]"), f));
                        let (ow, r, cp) = list[i];
                        let mut f = vec![leaf(&ow, r, cp)];
                        f.extend(p.iter());
                        proofs.push((format!("pre[{i}]"), f));
                    }
                }
                proofs.push((format!("root{ti}"), vec![root]));
            }
            let mut tuples: BTreeSet<(Pubkey, u8, u64)> = BTreeSet::new();
            for ow in &owners {
                let near: Vec<(u8, u64)> = list.iter().chain(&list1).chain(&list2).filter(|x| x.0 == *ow).map(|x| (x.1, x.2)).collect();
                for r in [0u8, 1, 2, 255] {
                    for c in [1u64, 3, 20, u64::MAX] {
                        tuples.insert((*ow, r, c));
                    }
                    for (_, c) in &near {
                        for c in [*c, c.saturating_sub(1), c.wrapping_add(1), c << 8] {
                            tuples.insert((*ow, r, c));
                        }
                    }
                }
            }
            let s = &lab.sales[main];
            for (rn, rk, rinfo) in &roots {
                for (ow, r, cp) in &tuples {
                    for (pn, pf) in &proofs {
                        if tier == Tier::Quick && n > 3 && pn.starts_with("rev") {
                            continue;
                        }
                        let e = escrow_pda(&s.presale, ow, *r);
                        let ix = create_permissioned_escrow_with_merkle_proof(s.presale, e, *ow, *rk, k("payer"), pf, *r, *cp);
                        let trace = || vec![format!("{}/{n} entries: open for owner {ow} registry {r} cap {cp} with proof {pn} against root {rn}", crate::configs::mode_name(mode))];
                        let proven = match rinfo {
                            Some((root, si)) => *si == main && fold(leaf(ow, *r, *cp), pf) == *root,
                            None => false,
                        };
                        let fits = s.regs.get(*r as usize).map(|x| *cp > 0 && *cp >= x.min && *cp <= x.max).unwrap_or(false);
                        let res = execute(&lab.db, at(START), &ix);
                        o.seen("open", res.is_ok());
                        match res {
                            Ok(x) => {
                                if !proven {
                                    o.viol("accept/whitelist/Ongoing/NotListed".into(), trace(), "position opened for somebody the whitelist does not list on these terms".into());
                                } else if !fits {
                                    o.viol("accept/whitelist/Ongoing/CapRange".into(), trace(), "position opened with a cap or registry that does not suit the sale".into());
                                } else {
                                    o.st.states += 1;
                                    judge_open(&mut o, &lab.db, &x, s, ow, *r, *cp, START, &trace());
                                    // a second one for the same owner and registry
                                    if execute(&x.db, at(START), &ix).is_ok() {
                                        o.viol("accept/whitelist/Ongoing/Exists".into(), trace(), "position opened twice".into());
                                    }
                                    o.st.transitions += 1;
                                }
                            }
                            Err(e) => {
                                if proven && fits {
                                    o.viol("reject/whitelist".into(), trace(), format!("listed participant refused: {e:?}"));
                                }
                            }
                        }
                    }
                }
            }
            // only while the sale runs
            for t in [T0, START - 1, START, END - 1, END, END + 1] {
                let (ow, r, cp) = list[0];
                let e = escrow_pda(&s.presale, &ow, r);
                let ix = create_permissioned_escrow_with_merkle_proof(s.presale, e, ow, roots[0].1, k("payer"), &tree(&list).1[0], r, cp);
                let open = (START..END).contains(&t);
                let got = execute(&lab.db, at(t), &ix).is_ok();
                o.seen("open", got);
                if got != open {
                    let tag = if got { "accept/whitelist/Phase/Phase" } else { "reject/whitelist" };
                    o.viol(tag.into(), vec![format!("at t={t}")], format!("opening accepted: {got}, sale running: {open}"));
                }
            }
            // the other ways in stay shut
            for (ow, _, _) in &list {
                for (si, s) in lab.sales.iter().enumerate().take(3) {
                    let ix = create_permissionless_escrow(s.presale, escrow_pda(&s.presale, ow, 0), *ow, k("payer"));
                    let got = execute(&lab.db, at(START), &ix).is_ok();
                    o.seen("open", got);
                    if got {
                        o.viol("accept/whitelist/Ongoing/Mode".into(), vec![format!("sale {si}")], "whitelisted sale opened a position without a proof".into());
                    }
                }
            }
            for key in roots.iter().map(|r| r.1) {
                for s in &lab.sales[3..] {
                    let (ow, r, cp) = list[0];
                    let ix = create_permissioned_escrow_with_merkle_proof(s.presale, escrow_pda(&s.presale, &ow, r), ow, key, k("payer"), &tree(&list).1[0], r, cp);
                    let got = execute(&lab.db, at(START), &ix).is_ok();
                    o.seen("open", got);
                    if got {
                        o.viol("accept/whitelist/Ongoing/Mode".into(), vec![s.name.into()], "a sale without Merkle whitelist accepted a Merkle proof".into());
                    }
                }
            }
            o.st.configs += 1;
            o.st.states += 1;
            if n == 3 {
                o.st.sample.push(format!("{}: list {:?} proofs {} tuples {} roots {}", crate::configs::mode_name(mode), list.iter().map(|x| (x.1, x.2)).collect::<Vec<_>>(), proofs.len(), tuples.len(), roots.len()));
            }
        }
    }
    o.st.max_depth = 2;
    o.done()
}

/// Operators opening positions with caps of every magnitude, and appointments by every other key
/// that has something to do with the sale.
fn explore_operator_terms(o: &mut Out) {
    let mut lab = Lab::new();
    let si = lab.sale_upto("wideop", "creatorA", PRORATA, 2, 5, u64::MAX);
    let (p, c) = (lab.sales[si].presale, lab.sales[si].creator);
    let x = k("opX");
    lab.run(T0, create_operator(operator_pda(&c, &x), x, c), "operator");
    if let Some(f) = lab.fail.take() {
        o.viol("reject/operators-setup".into(), vec![], f);
        return;
    }
    for b in 0..64u32 {
        for (n, cp) in [1u64 << b, u64::MAX >> b, 5 | 1 << b].into_iter().enumerate() {
            let (r, ow) = (((b as usize + n) % 5) as u8, k("buyer"));
            let tr = vec![format!("opX opens for buyer registry {r} cap {cp}")];
            let res = execute(&lab.db, at(START), &create_permissioned_escrow_with_creator(p, escrow_pda(&p, &ow, r), ow, operator_pda(&c, &x), x, k("payer"), r, cp));
            o.seen("open", res.is_ok());
            match res {
                Ok(y) => judge_open(o, &lab.db, &y, &lab.sales[si], &ow, r, cp, START, &tr),
                Err(e) => o.viol("reject/operators".into(), tr, format!("the operator's opening was refused: {e:?}")),
            }
        }
    }
    for n in ["wideop", "base-mint", "quote-mint", "payer", "creatorB", "buyer", "opX", "opY"] {
        let by = k(n);
        let mut db = lab.db.clone();
        db.fund(by, 1_000_000_000);
        for op in [k("opY"), by, k("buyer")] {
            let Ok(y) = execute(&db, at(START), &create_operator(operator_pda(&by, &op), op, by)) else {
                continue;
            };
            for signer in [op, by, c] {
                let ow = k("buyer");
                let got = execute(&y.db, at(START), &create_permissioned_escrow_with_creator(p, escrow_pda(&p, &ow, 0), ow, operator_pda(&by, &op), signer, k("payer"), 0, 7)).is_ok();
                o.seen("open", got);
                if got {
                    o.viol("accept/operators/Ongoing/NotOperator".into(), vec![format!("{n} appoints an operator who opens a position")], "position opened without a live operator of the sale's creator".into());
                }
            }
        }
    }
    o.st.configs += 1;
}

/// Every history of appointing and revoking operators, probing every opening in every state.
pub fn explore_operators(mine: &Filter<'_>, tier: Tier) -> (Stats, Option<Found>) {
    let mut o = Out { st: Stats::default(), found: None, mine, unit: "operators" };
    explore_operator_terms(&mut o);
    for mode in [PRORATA, FIXED, FCFS] {
        let mut lab = Lab::new();
        lab.sale("A2", "creatorA", mode, 2, 2);
        lab.sale("B2", "creatorB", mode, 2, 1);
        lab.sale("A0", "creatorA", mode, 0, 1);
        lab.sale("A1", "creatorA", mode, 1, 2);
        if let Some(f) = lab.fail.take() {
            o.viol("reject/operators-setup".into(), vec![], f);
            continue;
        }
        o.st.configs += 1;
        let creators = [k("creatorA"), k("creatorB")];
        let ops = [k("opX"), k("opY"), k("creatorA")];
        let who = |p: &Pubkey| ["creatorA", "creatorB", "opX", "opY", "stranger", "payer"].iter().find(|n| k(n) == *p).copied().unwrap_or("?");
        let mut seen: HashSet<Vec<(Pubkey, Pubkey)>> = HashSet::new();
        // model state: the live appointments
        let mut frontier: Vec<(Db, BTreeSet<(Pubkey, Pubkey)>, Vec<String>)> = vec![(lab.db.clone(), BTreeSet::new(), vec![])];
        seen.insert(vec![]);
        while let Some((db, live, trace)) = frontier.pop() {
            if o.found.is_some() {
                break;
            }
            o.st.states += 1;
            let mut next: Vec<(Db, BTreeSet<(Pubkey, Pubkey)>, Vec<String>)> = vec![];
            for c in &creators {
                for x in &ops {
                    let key = operator_pda(c, x);
                    let mut tr = trace.clone();
                    tr.push(format!("{} appoints {}", who(c), who(x)));
                    let r = execute(&db, at(START), &create_operator(key, *x, *c));
                    o.seen("appoint", r.is_ok());
                    match r {
                        Ok(y) => {
                            let mut l = live.clone();
                            if !l.insert((*c, *x)) {
                                o.viol("accept/operators/Ongoing/Exists".into(), tr.clone(), "appointed twice".into());
                            }
                            let mut want = acc_disc("Operator").to_vec();
                            want.extend(x.to_bytes());
                            want.extend(c.to_bytes());
                            want.extend([0u8; 64]);
                            if y.db.data(&key) != want.as_slice() {
                                o.viol("state/operator/operators".into(), tr.clone(), "the appointment records something else".into());
                            }
                            let mut ev = evt_disc("EvtOperatorCreate").to_vec();
                            ev.extend(c.to_bytes());
                            ev.extend(key.to_bytes());
                            ev.extend(x.to_bytes());
                            let got = events(&y.inner);
                            if got.len() != 1 || got[0] != ev.as_slice() {
                                o.viol("event/operators".into(), tr.clone(), "appointment announced wrongly".into());
                            }
                            frame(&mut o, &db, &y.db, &[key, *c], "operators", &tr);
                            next.push((y.db, l, tr));
                        }
                        Err(e) => {
                            if !live.contains(&(*c, *x)) {
                                o.viol("reject/operators".into(), tr.clone(), format!("appointment refused: {e:?}"));
                            }
                        }
                    }
                    // revocation by everyone
                    for s in creators.iter().chain(&ops).chain(&[k("stranger")]) {
                        let mut tr = trace.clone();
                        tr.push(format!("{} revokes {} of {}", who(s), who(x), who(c)));
                        let r = execute(&db, at(START), &revoke_operator(key, *s));
                        o.seen("revoke", r.is_ok());
                        let want = live.contains(&(*c, *x)) && s == c;
                        match r {
                            Ok(y) => {
                                if !want {
                                    o.viol("accept/operators/Ongoing/Signer".into(), tr.clone(), "revocation by somebody else".into());
                                }
                                let rent = db.get(&key).map(|a| a.lamports).unwrap_or(0);
                                let lam = |d: &Db| d.get(s).map(|a| a.lamports).unwrap_or(0);
                                if y.db.get(&key).is_some() || lam(&y.db) - lam(&db) != rent {
                                    o.viol("state/operator/operators".into(), tr.clone(), "revocation left the record behind or lost its rent".into());
                                }
                                frame(&mut o, &db, &y.db, &[key, *s], "operators", &tr);
                                let mut l = live.clone();
                                l.remove(&(*c, *x));
                                next.push((y.db, l, tr));
                            }
                            Err(e) => {
                                if want {
                                    o.viol("reject/operators".into(), tr.clone(), format!("revocation refused: {e:?}"));
                                }
                            }
                        }
                    }
                }
            }
            // probes: open a position in every sale with every appointment and every signer
            let caps: &[u64] = if tier == Tier::Quick { &[0, 2, 3, 20, 21, u64::MAX, (1 << 32) + 7] } else { &[0, 1, 2, 3, 4, 19, 20, 21, 259, (1 << 32) + 7, 1 << 63, u64::MAX] };
            let times: &[u64] = &[START - 1, START, END - 1, END];
            for s in &lab.sales {
                for t in times {
                    for c in &creators {
                        for x in &ops {
                            for signer in ops.iter().chain(&[k("creatorB"), k("stranger")]) {
                                for r in [0u8, 1, 2] {
                                    for cap in caps {
                                        if *t != START && (*cap != 3 || r != 0) {
                                            continue;
                                        }
                                        let ow = k("buyer");
                                        let ix = create_permissioned_escrow_with_creator(s.presale, escrow_pda(&s.presale, &ow, r), ow, operator_pda(c, x), *signer, k("payer"), r, *cap);
                                        let fits = s.regs.get(r as usize).map(|g| *cap > 0 && *cap >= g.min && *cap <= g.max).unwrap_or(false);
                                        let allowed = s.wl == 2 && s.creator == *c && signer == x && live.contains(&(*c, *x)) && (START..END).contains(t);
                                        let res = execute(&db, at(*t), &ix);
                                        o.seen("open", res.is_ok());
                                        let tr = || {
                                            let mut v = trace.clone();
                                            v.push(format!("t={t}: {} opens in {} via {}'s operator {} registry {r} cap {cap}", who(signer), s.name, who(c), who(x)));
                                            v
                                        };
                                        match res {
                                            Ok(y) => {
                                                if !allowed {
                                                    o.viol("accept/operators/Ongoing/NotOperator".into(), tr(), "position opened without a live operator of the sale's creator".into());
                                                } else if !fits {
                                                    o.viol("accept/operators/Ongoing/CapRange".into(), tr(), "position opened with a cap or registry that does not suit the sale".into());
                                                } else {
                                                    judge_open(&mut o, &db, &y, s, &ow, r, *cap, *t, &tr());
                                                    if execute(&y.db, at(*t), &ix).is_ok() {
                                                        o.viol("accept/operators/Ongoing/Exists".into(), tr(), "position opened twice".into());
                                                    }
                                                    // revocation never touches positions already open
                                                    o.st.transitions += 1;
                                                    if let Ok(z) = execute(&y.db, at(*t), &revoke_operator(operator_pda(c, x), *c)) {
                                                        frame(&mut o, &y.db, &z.db, &[operator_pda(c, x), *c], "operators", &tr());
                                                    }
                                                }
                                            }
                                            Err(e) => {
                                                if allowed && fits {
                                                    o.viol("reject/operators".into(), tr(), format!("the operator's opening was refused: {e:?}"));
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                    // permissionless opening
                    let ow = k("buyer");
                    for r in [0u8, 1] {
                        let ix = create_permissionless_escrow(s.presale, escrow_pda(&s.presale, &ow, r), ow, k("payer"));
                        let want = s.wl == 0 && r == 0 && (START..END).contains(t);
                        let res = execute(&db, at(*t), &ix);
                        o.seen("open", res.is_ok());
                        let tr = vec![format!("permissionless opening in {} at t={t}", s.name)];
                        match res {
                            Ok(y) => {
                                if !want {
                                    o.viol("accept/operators/Ongoing/Mode".into(), tr, "a position was opened without permission".into());
                                } else {
                                    judge_open(&mut o, &db, &y, s, &ow, 0, s.regs[0].max, *t, &tr);
                                }
                            }
                            Err(e) => {
                                if want {
                                    o.viol("reject/operators".into(), tr, format!("permissionless opening refused: {e:?}"));
                                }
                            }
                        }
                    }
                }
            }
            for (d, l, tr) in next {
                o.st.max_depth = o.st.max_depth.max(tr.len() as u64);
                if seen.insert(l.iter().copied().collect()) {
                    frontier.insert(0, (d, l, tr));
                }
            }
        }
    }
    o.done()
}

fn frame(o: &mut Out, pre: &Db, post: &Db, allowed: &[Pubkey], what: &str, tr: &[String]) {
    for (key, a) in &post.m {
        let same = pre.m.get(key).map(|b| Arc::ptr_eq(a, b)).unwrap_or(false);
        if !same && !allowed.contains(key) {
            o.viol(format!("frame/{what}"), tr.to_vec(), format!("account {key} changed"));
        }
    }
    for key in pre.m.keys() {
        if !post.m.contains_key(key) && !allowed.contains(key) {
            o.viol(format!("frame/{what}"), tr.to_vec(), format!("account {key} removed"));
        }
    }
}

// ---------------------------------------------------------------- auxiliary records

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
enum Rec {
    Root(Pubkey, u64, [u8; 32]),
    Meta(Pubkey, String),
    Sheet(Pubkey, Pubkey, u8, u128),
}

impl Rec {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Rec::Root(p, v, r) => {
                let mut d = acc_disc("MerkleRootConfig").to_vec();
                d.extend(r);
                d.extend([0u8; 8]);
                d.extend(p.to_bytes());
                d.extend(v.to_le_bytes());
                d.extend([0u8; 64]);
                d
            }
            Rec::Meta(p, u) => {
                let mut d = acc_disc("PermissionedServerMetadata").to_vec();
                d.extend(p.to_bytes());
                d.extend([0u8; 128]);
                d.extend((u.len() as u32).to_le_bytes());
                d.extend(u.as_bytes());
                d
            }
            Rec::Sheet(p, ow, w, q) => {
                let mut d = acc_disc("FixedPricePresaleExtraArgs").to_vec();
                d.extend([0u8; 15]);
                d.push(*w);
                d.extend(q.to_le_bytes());
                d.extend(ow.to_bytes());
                d.extend(p.to_bytes());
                d.extend([0u8; 64]);
                d
            }
        }
    }
}

/// Every history of creating and closing whitelist roots, server records and price sheets by the
/// creator and by others, for every kind of sale, at every phase.
pub fn explore_aux(mine: &Filter<'_>, tier: Tier) -> (Stats, Option<Found>) {
    let mut o = Out { st: Stats::default(), found: None, mine, unit: "records" };
    record_values(&mut o);
    // sales nobody joined; with an empty position; ending failed; completed; filled before the end
    for variant in 0..5 {
        aux_histories(&mut o, tier, variant);
    }
    o.done()
}

/// Records of many shapes, side by side.
fn record_values(o: &mut Out) {
    let mut lab = Lab::new();
    let s1 = lab.sale("S1", "creatorA", PRORATA, 1, 1);
    let (p, c) = (lab.sales[s1].presale, lab.sales[s1].creator);
    let vs = [0u64, 1, 2, 255, 256, 257, 65535, 65536, u32::MAX as u64, 1 << 32, (1 << 32) + 1, 1 << 63, u64::MAX - 1, u64::MAX];
    let root = |v: u64| fold([v as u8; 32], &[v.to_le_bytes().repeat(4).try_into().unwrap()]);
    for v in vs {
        let tr = vec![format!("root version {v}")];
        let key = merkle_pda(&p, v);
        let res = execute(&lab.db, at(T0), &create_merkle_root_config(p, key, c, root(v), v));
        o.seen("create-root", res.is_ok());
        match res {
            Err(e) => o.viol("reject/records".into(), tr, format!("legitimate record operation refused: {e:?}")),
            Ok(y) => {
                if y.db.data(&key) != Rec::Root(p, v, root(v)).bytes().as_slice() {
                    o.viol("state/record/records".into(), tr.clone(), "the record holds something else than supplied".into());
                }
                frame(o, &lab.db, &y.db, &[key, c], "records", &tr);
                lab.db = y.db;
            }
        }
    }
    for v in vs {
        let key = merkle_pda(&p, v);
        for (t, by, right) in [(T0, c, true), (START - 1, c, true), (START, c, false), (START + 1, c, false), (END - 1, c, false), (END + 1, c, true), (T0, k("creatorB"), false), (END, k("stranger"), false)] {
            let res = execute(&lab.db, at(t), &close_merkle_root_config(p, key, k("rent-receiver"), by));
            o.seen("close-root-probe", res.is_ok());
            let tr = vec![format!("close root version {v} at t={t}")];
            match res {
                Err(e) if right => o.viol("reject/records".into(), tr, format!("legitimate record operation refused: {e:?}")),
                Ok(_) if !right => o.viol(format!("accept/records/Probe/{}", if by == c { "Phase" } else { "Signer" }), tr, "a root was closed out of turn".into()),
                _ => {}
            }
        }
        let res = execute(&lab.db, at(END), &close_merkle_root_config(p, key, k("rent-receiver"), c));
        o.seen("close-root", res.is_ok());
        let tr = vec![format!("close root version {v}")];
        match res {
            Err(e) => o.viol("reject/records".into(), tr, format!("legitimate record operation refused: {e:?}")),
            Ok(y) => {
                frame(o, &lab.db, &y.db, &[key, k("rent-receiver")], "records", &tr);
                lab.db = y.db;
            }
        }
    }
    let key = metadata_pda(&p);
    let mut urls: Vec<String> = [0usize, 1, 2, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 511, 512, 513, 900].iter().map(|n| "https://x.example/q?abcdefghij".chars().cycle().take(*n).collect()).collect();
    urls.extend(["https://a/".into(), " https://a ".into(), "HTTPS://Example.COM/%7E".into(), "\u{fc}\u{1F600}\u{0}".into(), "http://a\n".into()]);
    for u in urls {
        let tr = vec![format!("server record {u:?}")];
        let res = execute(&lab.db, at(START), &create_permissioned_server_metadata(p, key, c, &u));
        o.seen("create-meta", res.is_ok());
        match res {
            Err(e) => o.viol("reject/records".into(), tr, format!("legitimate record operation refused: {e:?}")),
            Ok(y) => {
                if y.db.data(&key) != Rec::Meta(p, u.clone()).bytes().as_slice() {
                    o.viol("state/record/records".into(), tr.clone(), "the record holds something else than supplied".into());
                }
                let mut ev = evt_disc("EvtPermissionedServerMetadataCreate").to_vec();
                ev.extend(p.to_bytes());
                ev.extend(key.to_bytes());
                ev.extend((u.len() as u32).to_le_bytes());
                ev.extend(u.as_bytes());
                let got = events(&y.inner);
                if got.len() != 1 || got[0] != ev.as_slice() {
                    o.viol("event/records".into(), tr.clone(), "record operation announced wrongly".into());
                }
            }
        }
    }
    // price sheets: every shape of price, either withdrawal flag, any presale address
    for (i, q) in [1u128, 2, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, price(1, 3), price(7, 3), 1 << 100, u128::MAX].into_iter().enumerate() {
        for w in [0u8, 1] {
            let ghost = k(&format!("ghost{i}"));
            let key = fixed_args_pda(&ghost);
            let tr = vec![format!("sheet {q} {w}")];
            let res = execute(&lab.db, at(START), &initialize_fixed_price_presale_args(key, k("creatorB"), k("payer"), ghost, w, q));
            o.seen("create-sheet", res.is_ok());
            match res {
                Err(e) => o.viol("reject/records".into(), tr, format!("legitimate record operation refused: {e:?}")),
                Ok(y) => {
                    if y.db.data(&key) != Rec::Sheet(ghost, k("creatorB"), w, q).bytes().as_slice() {
                        o.viol("state/record/records".into(), tr.clone(), "the record holds something else than supplied".into());
                    }
                }
            }
        }
    }
}

fn aux_histories(o: &mut Out, tier: Tier, variant: usize) {
    let times: &[u64] = if variant == 0 { &[T0, START - 1, START, END - 1, END] } else { &[START, START + 1, END - 1, END, END + 1000] };
    let mut lab = Lab::new();
    let mode = if variant == 4 { FCFS } else { PRORATA };
    for (n, wl) in [("S0", 0u8), ("S1", 1), ("S2", 2)] {
        let si = lab.sale(n, "creatorA", mode, wl, 1);
        match variant {
            0 => {}
            v => lab.live(si, [0, 2, 9, 20][v - 1]),
        }
    }
    lab.sale("SF", "creatorA", FIXED, 1, 1);
    let end = if variant == 4 { START } else { END };
    if let Some(f) = lab.fail.take() {
        o.viol("reject/records-setup".into(), vec![], f);
        return;
    }
    let roots = [[1u8; 32], [2u8; 32]];
    let urls = ["", "https://proof.example/a"];
    let signers = [k("creatorA"), k("creatorB"), k("stranger")];
    let rr = k("rent-receiver");
    let ghost = k("future-sale");
    struct A {
        what: String,
        ix: Instruction,
        key: Pubkey,
        /// created record, or None for a close
        rec: Option<Rec>,
        by: Pubkey,
        to: Pubkey,
        kind: &'static str,
        wl: u8,
        owner: Pubkey,
        bad: bool,
        ev: Option<Vec<u8>>,
    }
    let mut acts: Vec<A> = vec![];
    let picks: &[usize] = if tier == Tier::Quick { &[0, 1, 2] } else { &[0, 1, 2, 3] };
    for si in picks {
        let s = &lab.sales[*si];
        for by in &signers {
            let versions: &[u64] = if s.wl == 1 { &[0, 1] } else { &[0] };
            for v in versions {
                let key = merkle_pda(&s.presale, *v);
                for r in &roots {
                    let mut ev = evt_disc("EvtMerkleRootConfigCreate").to_vec();
                    ev.extend(by.to_bytes());
                    ev.extend(key.to_bytes());
                    ev.extend(s.presale.to_bytes());
                    ev.extend(v.to_le_bytes());
                    ev.extend(r);
                    acts.push(A {
                        what: format!("root {v} of {}", s.name),
                        ix: create_merkle_root_config(s.presale, key, *by, *r, *v),
                        key,
                        rec: Some(Rec::Root(s.presale, *v, *r)),
                        by: *by,
                        to: rr,
                        kind: "root",
                        wl: s.wl,
                        owner: s.creator,
                        bad: s.wl != 1,
                        ev: Some(ev),
                    });
                }
                let mut ev = evt_disc("EvtCloseMerkleRootConfig").to_vec();
                ev.extend(close_root_event(&s.presale, by, &key));
                acts.push(A { what: format!("close root {v} of {}", s.name), ix: close_merkle_root_config(s.presale, key, rr, *by), key, rec: None, by: *by, to: rr, kind: "root", wl: s.wl, owner: s.creator, bad: false, ev: Some(ev) });
            }
            let key = metadata_pda(&s.presale);
            for u in &urls {
                let mut ev = evt_disc("EvtPermissionedServerMetadataCreate").to_vec();
                ev.extend(s.presale.to_bytes());
                ev.extend(key.to_bytes());
                ev.extend((u.len() as u32).to_le_bytes());
                ev.extend(u.as_bytes());
                acts.push(A { what: format!("metadata {u:?} of {}", s.name), ix: create_permissioned_server_metadata(s.presale, key, *by, u), key, rec: Some(Rec::Meta(s.presale, u.to_string())), by: *by, to: rr, kind: "meta", wl: s.wl, owner: s.creator, bad: s.wl == 0, ev: Some(ev) });
            }
            let mut ev = evt_disc("EvtPermissionedServerMetadataClose").to_vec();
            ev.extend(s.presale.to_bytes());
            ev.extend(key.to_bytes());
            acts.push(A { what: format!("close metadata of {}", s.name), ix: close_permissioned_server_metadata(s.presale, key, rr, *by), key, rec: None, by: *by, to: rr, kind: "meta", wl: s.wl, owner: s.creator, bad: false, ev: Some(ev) });
        }
    }
    for by in &signers[..2] {
        let key = fixed_args_pda(&ghost);
        for (q, w) in [(0u128, 0u8), (1, 0), (price(3, 2), 1), (price(1, 1), 2)] {
            let mut ev = evt_disc("EvtFixedPricePresaleArgsCreate").to_vec();
            ev.extend(ghost.to_bytes());
            ev.extend(q.to_le_bytes());
            acts.push(A { what: format!("sheet {q} {w}"), ix: initialize_fixed_price_presale_args(key, *by, k("payer"), ghost, w, q), key, rec: Some(Rec::Sheet(ghost, *by, w, q)), by: k("payer"), to: *by, kind: "sheet", wl: 0, owner: *by, bad: q == 0 || w > 1, ev: Some(ev) });
        }
        let mut ev = evt_disc("EvtFixedPricePresaleArgsClose").to_vec();
        ev.extend(ghost.to_bytes());
        ev.extend(by.to_bytes());
        ev.extend(key.to_bytes());
        acts.push(A { what: "close sheet".into(), ix: close_fixed_price_presale_args(key, *by), key, rec: None, by: *by, to: *by, kind: "sheet", wl: 0, owner: *by, bad: false, ev: Some(ev) });
    }
    o.st.configs += 1;
    type M = BTreeMap<Pubkey, Rec>;
    let mut seen: HashSet<(usize, Vec<(Pubkey, Rec)>)> = HashSet::new();
    let mut q: std::collections::VecDeque<(usize, Db, M, Vec<String>)> = Default::default();
    seen.insert((0, vec![]));
    q.push_back((0, lab.db.clone(), M::new(), vec![]));
    let cap = if tier == Tier::Quick { 12_000 } else { 120_000 };
    // the families of records are independent: explore each family's histories completely
    let sel = |a: &A, grp: usize| match grp {
        0 => a.kind == "root",
        1 => a.kind == "meta",
        _ => a.kind == "sheet",
    };
    for grp in 0..3usize {
        if grp == 2 && variant > 0 {
            continue;
        }
        q.clear();
        seen.clear();
        seen.insert((0, vec![]));
        q.push_back((0, lab.db.clone(), M::new(), vec![]));
        while let Some((ti, db, m, trace)) = q.pop_front() {
            if o.found.is_some() {
                break;
            }
            if seen.len() > cap {
                o.st.truncated = 1;
                break;
            }
            o.st.states += 1;
            o.st.max_depth = o.st.max_depth.max(trace.len() as u64);
            let t = times[ti];
            let mut next: Vec<(usize, Db, M, Vec<String>)> = vec![];
            for a in acts.iter().filter(|a| sel(a, grp)) {
                let exists = m.get(&a.key);
                let open = t < end || a.rec.is_some() && a.kind == "sheet"; // not started or running
                let want = match (&a.rec, a.kind) {
                    (Some(_), "sheet") => exists.is_none() && !a.bad,
                    (Some(_), _) => exists.is_none() && !a.bad && a.by == a.owner && open,
                    (None, "root") => exists.is_some() && a.by == a.owner && !(START..end).contains(&t),
                    (None, "meta") => exists.is_some() && a.by == a.owner,
                    (None, _) => matches!(exists, Some(Rec::Sheet(_, ow, _, _)) if *ow == a.by),
                };
                let res = execute(&db, at(t), &a.ix);
                o.seen(&format!("{}{}", if a.rec.is_some() { "create-" } else { "close-" }, a.kind), res.is_ok());
                let mut tr = trace.clone();
                tr.push(format!("t={t} {} by {}", a.what, a.by));
                match res {
                    Err(e) => {
                        if want {
                            o.viol("reject/records".into(), tr, format!("legitimate record operation refused: {e:?}"));
                        }
                    }
                    Ok(y) => {
                        if !want {
                            o.viol(format!("accept/records/{}/Rule", a.kind), tr.clone(), "record operation accepted against the rules".into());
                        }
                        let mut m2 = m.clone();
                        match &a.rec {
                            Some(r) => {
                                if y.db.data(&a.key) != r.bytes().as_slice() {
                                    o.viol("state/record/records".into(), tr.clone(), "the record holds something else than supplied".into());
                                }
                                frame(o, &db, &y.db, &[a.key, a.by], "records", &tr);
                                m2.insert(a.key, r.clone());
                            }
                            None => {
                                let rent = db.get(&a.key).map(|x| x.lamports).unwrap_or(0);
                                let lam = |d: &Db| d.get(&a.to).map(|x| x.lamports).unwrap_or(0);
                                if y.db.get(&a.key).is_some() || lam(&y.db).wrapping_sub(lam(&db)) != rent {
                                    o.viol("state/record/records".into(), tr.clone(), "closing left the record behind or lost its rent".into());
                                }
                                frame(o, &db, &y.db, &[a.key, a.to], "records", &tr);
                                m2.remove(&a.key);
                            }
                        }
                        if let Some(ev) = &a.ev {
                            let got = events(&y.inner);
                            if got.len() != 1 || got[0] != ev.as_slice() {
                                o.viol("event/records".into(), tr.clone(), "record operation announced wrongly".into());
                            }
                        }
                        next.push((ti, y.db, m2, tr));
                    }
                }
            }
            if ti + 1 < times.len() {
                let mut tr = trace.clone();
                tr.push(format!("wait until {}", times[ti + 1]));
                next.push((ti + 1, db.clone(), m.clone(), tr));
            }
            for (ti, d, m, tr) in next {
                if seen.insert((ti, m.iter().map(|(a, b)| (*a, b.clone())).collect())) {
                    if o.st.sample.len() < 3 && tr.len() > 6 {
                        o.st.sample.push(tr.join("; "));
                    }
                    q.push_back((ti, d, m, tr));
                }
            }
        }
    }
}

fn close_root_event(p: &Pubkey, by: &Pubkey, key: &Pubkey) -> Vec<u8> {
    let mut v = p.to_bytes().to_vec();
    v.extend(key.to_bytes());
    v.extend(by.to_bytes());
    v
}

// ---------------------------------------------------------------- the off-chain whitelist tool

/// All list sizes up to the bound: roots, proofs, cross-verification, duplicates.
pub fn explore_tool(mine: &Filter<'_>, tier: Tier) -> (Stats, Option<Found>) {
    use merkle_tree::{config_merkle_tree::ConfigMerkleTree, tree_node::TreeNode};
    let mut o = Out { st: Stats::default(), found: None, mine, unit: "tool" };
    let max_n = if tier == Tier::Quick { 140 } else { 300 };
    let node = |ow: Pubkey, r: u8, c: u64| TreeNode { escrow_owner: ow, registry_index: r, deposit_cap: c, proof: None };
    let build = |l: &[(Pubkey, u8, u64)], v: u64| {
        let nodes: Vec<TreeNode> = l.iter().map(|x| node(x.0, x.1, x.2)).collect();
        std::panic::catch_unwind(move || ConfigMerkleTree::new(nodes, v)).ok().and_then(|r| r.ok())
    };
    let entry = |i: usize, seed: usize| -> (Pubkey, u8, u64) {
        if seed == 2 {
            // owners that differ in a single byte, any registry number, no cap at all
            let mut key = [0x11u8; 32];
            key[i % 32] = 0x12 + (i / 32) as u8;
            return (Pubkey::new_from_array(key), (i * 7) as u8, [0u64, 1, u64::MAX, 0x0101_0101_0101_0101][i % 4]);
        }
        let caps = [1u64, 2, 255, 256, 65_536, u64::MAX, 1 << 32, 77];
        (k(&format!("t{seed}-{i}")), ((i * 3 + seed) % 5) as u8, caps[(i * 5 + seed) % caps.len()])
    };
    // one on-chain sale with the tool's root, per size (small sizes only: the program is the judge)
    let onchain = if tier == Tier::Quick { 18 } else { 40 };
    let large: &[usize] = if tier == Tier::Quick { &[255, 256, 257, 258, 300, 511, 512, 513, 1025, 2049] } else { &[300, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097, 8193] };
    for n in (1..=max_n).chain(large.iter().copied()) {
        for seed in 0..3usize {
            if o.found.is_some() {
                return o.done();
            }
            let l: Vec<(Pubkey, u8, u64)> = (0..n).map(|i| entry(i, seed)).collect();
            let tr = vec![format!("list of {n} (seed {seed})")];
            o.st.states += 1;
            o.st.configs += 1;
            let Some(t) = build(&l, n as u64) else {
                o.viol("reject/tool".into(), tr, "the tool cannot build the tree".into());
                continue;
            };
            let (root, proofs) = ref_tree(&l.iter().map(|x| leaf(&x.0, x.1, x.2)).collect::<Vec<_>>());
            o.seen("tree", true);
            if t.merkle_root != root {
                o.viol("state/tool/root".into(), tr.clone(), "root is not the Merkle root of the entries".into());
            }
            if t.version != n as u64 || t.max_num_nodes != n as u64 || t.tree_nodes.len() != n {
                o.viol("state/tool/root".into(), tr.clone(), "version or size recorded wrongly".into());
            }
            if t.get_merkle_root_config_pubkey(k("some sale"), &presale::ID) != merkle_pda(&k("some sale"), n as u64) {
                o.viol("state/tool/address".into(), tr.clone(), "the tool names another root account than the program derives".into());
            }
            if t.verify_proof().is_err() {
                o.viol("reject/tool".into(), tr.clone(), "the tool rejects its own tree".into());
            }
            // nothing but the entries matters: neither the version nor a stale proof in the input
            for v in [0u64, 1, 255, 256, 65_536, 1 << 32, u64::MAX] {
                if n > 70 && v != u64::MAX {
                    continue;
                }
                o.seen("again", true);
                let nodes: Vec<TreeNode> = l.iter().map(|x| TreeNode { proof: Some(vec![[v as u8; 32]]), ..node(x.0, x.1, x.2) }).collect();
                let again = std::panic::catch_unwind(move || ConfigMerkleTree::new(nodes, v)).ok().and_then(|r| r.ok());
                let same = again.as_ref().map(|a| a.merkle_root == t.merkle_root && a.tree_nodes == t.tree_nodes && a.version == v).unwrap_or(false);
                if !same {
                    o.viol("state/tool/root".into(), tr.clone(), format!("the same entries give another tree as version {v}"));
                } else if again.unwrap().get_merkle_root_config_pubkey(k("other sale"), &presale::ID) != merkle_pda(&k("other sale"), v) {
                    o.viol("state/tool/address".into(), tr.clone(), format!("the tool names another root account than the program derives for version {v}"));
                }
            }
            // what is published is what was built, and a doctored copy is not mistaken for it
            if n <= 300 {
                let f = std::env::temp_dir().join(format!("mc-tool-{}-{n}-{seed}.json", std::process::id()));
                let again = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    t.write_to_file(&f);
                    ConfigMerkleTree::new_from_file(&f).ok()
                }));
                let _ = std::fs::remove_file(&f);
                let same = match again {
                    Ok(Some(a)) => a.merkle_root == t.merkle_root && a.version == t.version && a.max_num_nodes == t.max_num_nodes && a.tree_nodes == t.tree_nodes,
                    _ => false,
                };
                if !same {
                    o.viol("state/tool/file".into(), tr.clone(), "a tree written to a file does not come back the same".into());
                }
                for what in 0..4 {
                    let mut bad = t.clone();
                    match what {
                        0 => bad.merkle_root[n % 32] ^= 1,
                        1 => bad.tree_nodes[n - 1].deposit_cap ^= 1,
                        2 => bad.tree_nodes[n / 2].registry_index ^= 1,
                        _ => bad.tree_nodes[0].escrow_owner = k("nobody"),
                    }
                    o.seen("doctored", false);
                    QUIET.store(true, std::sync::atomic::Ordering::Relaxed);
                    let verdict = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| bad.verify_proof()));
                    QUIET.store(false, std::sync::atomic::Ordering::Relaxed);
                    if matches!(verdict, Ok(Ok(()))) {
                        o.viol("accept/tool/Other/Other".into(), tr.clone(), format!("the tool validates a doctored tree ({what})"));
                    }
                }
            }
            let map = t.convert_to_hashmap();
            for (i, (ow, r, c)) in l.iter().enumerate() {
                o.seen("entry", true);
                let nd = t.tree_nodes.iter().find(|x| x.escrow_owner == *ow);
                let Some(nd) = nd else {
                    o.viol("state/tool/entry".into(), tr.clone(), format!("entry {i} is missing from the tree"));
                    continue;
                };
                let pf = nd.proof.clone().unwrap_or_default();
                if (nd.registry_index, nd.deposit_cap) != (*r, *c) || t.get_node(ow) != *nd || map.get(ow) != Some(nd) {
                    o.viol("state/tool/entry".into(), tr.clone(), format!("entry {i} recorded with other terms"));
                }
                if pf != proofs[i] {
                    o.viol("state/tool/proof".into(), tr.clone(), format!("proof of entry {i} is not its Merkle path"));
                }
                if !ref_verify(pf.clone(), t.merkle_root, leaf(ow, *r, *c)) {
                    o.viol("reject/tool".into(), tr.clone(), format!("proof of entry {i} does not verify"));
                }
                // nobody else, no other terms, no other proof
                for (ow2, r2, c2) in [(*ow, *r, c.wrapping_add(1)), (*ow, *r, c.wrapping_sub(1)), (*ow, r ^ 1, *c), (k("nobody"), *r, *c), (*ow, *c as u8, u64::from(*r))] {
                    if l.contains(&(ow2, r2, c2)) {
                        continue;
                    }
                    o.seen("other", false);
                    if ref_verify(pf.clone(), t.merkle_root, leaf(&ow2, r2, c2)) {
                        o.viol("accept/tool/Other/Other".into(), tr.clone(), format!("proof of entry {i} admits other terms"));
                    }
                }
                // the leaf is bound as a leaf: an inner node is not a leaf
                let inner = ref_verify(pf.get(1..).unwrap_or(&[]).to_vec(), t.merkle_root, leaf(ow, *r, *c));
                if inner && !pf.is_empty() {
                    o.viol("accept/tool/Other/Other".into(), tr.clone(), format!("a shortened proof of entry {i} verifies"));
                }
                if n <= 40 {
                    for (j, x) in l.iter().enumerate() {
                        if j != i {
                            o.seen("cross", false);
                            if ref_verify(pf.clone(), t.merkle_root, leaf(&x.0, x.1, x.2)) {
                                o.viol("accept/tool/Other/Other".into(), tr.clone(), format!("proof of entry {i} verifies for entry {j}"));
                            }
                        }
                    }
                }
            }
            // (what the program refuses for its cap or registry alone is not the tool's business)
            if seed < 2 && (n <= onchain || n <= 300 && (seed == 0 || tier != Tier::Quick)) {
                chain_side(&mut o, &t.merkle_root, &l, &t.tree_nodes.iter().map(|x| x.proof.clone().unwrap_or_default()).collect::<Vec<_>>(), &tr);
            }
        }
    }
    // duplicates: every pattern of up to 4 entries over 2 owners and 2 terms
    let terms = [(0u8, 5u64), (1, 5), (0, 6)];
    let mut lists: Vec<Vec<(Pubkey, u8, u64)>> = vec![vec![]];
    let maxd = if tier == Tier::Quick { 4 } else { 5 };
    let mut all = vec![];
    for _ in 0..maxd {
        let mut nx = vec![];
        for l in &lists {
            for ow in ["dA", "dB", "dC"] {
                for (r, c) in terms {
                    let mut m = l.clone();
                    m.push((k(ow), r, c));
                    nx.push(m);
                }
            }
        }
        all.extend(nx.iter().cloned());
        lists = nx;
    }
    // and two, three and many mentions of an owner at every distance in longer lists
    for n in [7usize, 12, 33] {
        for i in 0..n {
            for j in i + 1..n {
                for far in [n, (j + 2).min(n)] {
                    let mut l: Vec<(Pubkey, u8, u64)> = (0..n).map(|x| entry(x, 3)).collect();
                    l[j].0 = l[i].0;
                    if far < n {
                        l[far].0 = l[i].0;
                    }
                    all.push(l);
                }
            }
        }
    }
    for l in &all {
        if o.found.is_some() {
            break;
        }
        o.st.states += 1;
        o.seen("duplicates", true);
        let tr = vec![format!("{l:?}")];
        // the last entry of an owner counts, at the owner's first place
        let mut want: Vec<(Pubkey, u8, u64)> = vec![];
        for e in l {
            match want.iter_mut().find(|x| x.0 == e.0) {
                Some(x) => *x = *e,
                None => want.push(*e),
            }
        }
        let Some(t) = build(l, 0) else {
            o.viol("reject/tool".into(), tr, "the tool cannot build the tree".into());
            continue;
        };
        let got: BTreeSet<(Pubkey, u8, u64)> = t.tree_nodes.iter().map(|x| (x.escrow_owner, x.registry_index, x.deposit_cap)).collect();
        if got != want.iter().copied().collect() || t.tree_nodes.len() != want.len() {
            o.viol("state/tool/duplicates".into(), tr.clone(), "an owner listed twice is not reduced to the last entry".into());
        }
        for x in &t.tree_nodes {
            if !ref_verify(x.proof.clone().unwrap_or_default(), t.merkle_root, leaf(&x.escrow_owner, x.registry_index, x.deposit_cap)) {
                o.viol("reject/tool".into(), tr.clone(), "a proof does not verify".into());
            }
        }
        for e in l {
            if !want.contains(e) {
                for x in &t.tree_nodes {
                    if ref_verify(x.proof.clone().unwrap_or_default(), t.merkle_root, leaf(&e.0, e.1, e.2)) {
                        o.viol("accept/tool/Other/Other".into(), tr.clone(), "a superseded entry still verifies".into());
                    }
                }
            }
        }
    }
    o.st.max_depth = 1;
    o.done()
}

/// The deployed program accepts exactly the tool's proofs.
fn chain_side(o: &mut Out, root: &[u8; 32], l: &[(Pubkey, u8, u64)], proofs: &[Vec<[u8; 32]>], tr: &[String]) {
    let mut lab = Lab::new();
    let base = k("tool-sale");
    lab.db.fund(base, 1_000_000_000);
    let presale = presale_pda(&base, &k("base-mint"), &k("quote-mint"));
    let accs = InitAccs {
        base_mint: k("base-mint"),
        presale,
        quote_mint: k("quote-mint"),
        base_vault: base_vault_pda(&presale),
        quote_vault: quote_vault_pda(&presale),
        payer_base: k("payer-b"),
        creator: k("creatorA"),
        base,
        payer: k("payer"),
        base_prog: spl_token::ID,
        quote_prog: spl_token::ID,
    };
    let args = InitArgs {
        max_cap: u64::MAX,
        min_cap: 1,
        start: START,
        end: END,
        wl: 1,
        mode: PRORATA,
        unsold: 0,
        disable_early: 0,
        vest: VestArgs::default(),
        regs: vec![reg(1, u64::MAX, 100, 0); 5],
    };
    lab.run(T0, initialize_presale(&accs, &args, &vec![], vec![]), "init");
    let cfg = merkle_pda(&presale, 0);
    lab.run(T0, create_merkle_root_config(presale, cfg, k("creatorA"), *root, 0), "root");
    if let Some(f) = lab.fail {
        o.viol("reject/whitelist-setup".into(), tr.to_vec(), f);
        return;
    }
    for (i, (ow, r, c)) in l.iter().enumerate() {
        // other terms, other people and mangled proofs
        let pf = &proofs[i];
        let mut long = pf.clone();
        long.push(*root);
        let mut bent = pf.clone();
        if let Some(x) = bent.last_mut() {
            x[31] ^= 1;
        }
        let mut first = pf.clone();
        if let Some(x) = first.first_mut() {
            x[0] ^= 0x80;
        }
        let short = pf.get(1..).unwrap_or(&[]).to_vec();
        let head = pf.get(..pf.len().max(1) - 1).unwrap_or(&[]).to_vec();
        let mut tries: Vec<(Pubkey, u8, u64, Vec<[u8; 32]>)> = vec![(*ow, *r, *c ^ 1, pf.clone()), (*ow, *r, *c ^ (1 << 63), pf.clone()), (*ow, *r, *c ^ 256, pf.clone()), (*ow, (*r + 1) % 5, *c, pf.clone()), (k("nobody"), *r, *c, pf.clone()), (*ow, *r, *c, long)];
        if !pf.is_empty() {
            tries.extend([bent, first, short, head].map(|p| (*ow, *r, *c, p)));
        }
        for (ow2, r2, c2, p2) in tries {
            if c2 == 0 || p2 == *pf && (ow2, r2, c2) == (*ow, *r, *c) {
                continue;
            }
            let ix = create_permissioned_escrow_with_merkle_proof(presale, escrow_pda(&presale, &ow2, r2), ow2, cfg, k("payer"), &p2, r2, c2);
            let ok = execute(&lab.db, at(START), &ix).is_ok();
            o.seen("on-chain", ok);
            if ok && !l.contains(&(ow2, r2, c2)) {
                o.viol("accept/tool/Chain/Other".into(), tr.to_vec(), format!("the program admits registry {r2} cap {c2} with the proof of entry {i}"));
            } else if ok {
                o.viol("accept/tool/Chain/Other".into(), tr.to_vec(), format!("the program accepts entry {i} with a mangled proof"));
            }
        }
        for (j, pf) in proofs.iter().enumerate() {
            if l.len() > 18 && ![0, 1, l.len() - 1].contains(&(i.abs_diff(j))) {
                continue;
            }
            let ix = create_permissioned_escrow_with_merkle_proof(presale, escrow_pda(&presale, ow, *r), *ow, cfg, k("payer"), pf, *r, *c);
            let ok = execute(&lab.db, at(START), &ix).is_ok();
            o.seen("on-chain", ok);
            if ok != (i == j) {
                let tag = if ok { "accept/tool/Chain/Other" } else { "reject/tool" };
                o.viol(tag.into(), tr.to_vec(), format!("the program {} entry {i} with the proof of entry {j}", if ok { "accepts" } else { "refuses" }));
            }
        }
    }
}
