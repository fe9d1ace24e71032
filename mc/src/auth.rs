//! Authority and account-substitution exploration. Every instruction is placed in a state where it
//! succeeds; then every signer flag is dropped and every one / two of its account slots are replaced
//! by every account of the database (other participants', another presale's, an attacker-run
//! presale's, byte-identical forgeries owned by foreign programs, foreign programs, ...). Whatever
//! the program still accepts is judged by its effects alone: value and records may only change
//! with the signature of the party they belong to.

use crate::abi::{self, *};
use crate::explore::{Found, Stats, Viol};
use crate::spec::*;
use crate::svm::*;
use crate::world::*;
use solana_program::{instruction::Instruction, pubkey::Pubkey, rent::Rent};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

pub struct Sale {
    pub presale: Pubkey,
    pub base_key: Pubkey,
    pub base_vault: Pubkey,
    pub quote_vault: Pubkey,
    pub creator: Pubkey,
    pub wl: u8,
    /// whitelisted (owner, registry, cap) for merkle sales
    pub listed: Vec<(Pubkey, u8, u64)>,
}

pub struct Scene {
    pub name: String,
    pub db: Db,
    pub now: Now,
    pub ix: Instruction,
    pub sales: Arc<Vec<Sale>>,
    pub mints: (Pubkey, Pubkey),
    /// (start, end) per sale is common
    pub times: (u64, u64),
}

fn k(s: &str) -> Pubkey {
    label(s)
}

struct B {
    db: Db,
    base_mint: Pubkey,
    quote_mint: Pubkey,
    sales: Vec<Sale>,
    users: Vec<Pubkey>,
}

const START: u64 = T0 + 10;
const END: u64 = T0 + 110;
fn at(t: u64) -> Now {
    Now { ts: t as i64, epoch: 0 }
}

impl B {
    fn run(&mut self, t: u64, ix: Instruction, what: &str) {
        match execute(&self.db, at(t), &ix) {
            Ok(o) => self.db = o.db,
            Err(e) => {
                // a broken program may refuse a step of the setup; the scene is then judged as is
                SETUP_FAIL.with(|s| s.borrow_mut().push(format!("{what}: {e:?}")));
            }
        }
    }
    /// `same`: one mint serves as base and quote.
    fn new(same: bool) -> B {
        let mut db = base_db();
        let (base_mint, quote_mint) = (k("base-mint"), if same { k("base-mint") } else { k("quote-mint") });
        make_mint(&mut db, base_mint, Tok::Spl);
        if !same {
            make_mint(&mut db, quote_mint, Tok::Spl);
        }
        // a second pair of mints nobody uses
        make_mint(&mut db, k("other-mint"), Tok::Spl);
        make_mint(&mut db, k("t22-mint"), Tok::T22);
        db.program(k("fake-program"));
        let users: Vec<Pubkey> = (0..3).map(|i| k(&format!("user{i}"))).collect();
        let mut b = B { db, base_mint, quote_mint, sales: vec![], users };
        let mut people = b.users.clone();
        people.extend([k("creator"), k("attacker"), k("payer"), k("operator-owner")]);
        for p in &people {
            b.db.fund(*p, 1_000_000_000_000);
        }
        for p in people.iter().filter(|p| **p != k("operator-owner")) {
            let (q, s) = (b.q(p), b.b(p));
            make_token_account(&mut b.db, q, quote_mint, *p, Tok::Spl);
            if !same {
                make_token_account(&mut b.db, s, base_mint, *p, Tok::Spl);
            }
            mint_to(&mut b.db, quote_mint, q, 1000, Tok::Spl);
            mint_to(&mut b.db, base_mint, s, 5000, Tok::Spl);
        }
        b.db.fund(k("rent-receiver"), 1_000_000_000);
        b
    }
    fn q(&self, p: &Pubkey) -> Pubkey {
        ata(p, &spl_token::ID, &self.quote_mint)
    }
    fn b(&self, p: &Pubkey) -> Pubkey {
        ata(p, &spl_token::ID, &self.base_mint)
    }
    fn sale(&mut self, name: &str, creator: Pubkey, mode: u8, wl: u8, min_cap: u64) -> usize {
        let base_key = k(name);
        self.db.fund(base_key, 1_000_000_000);
        let presale = presale_pda(&base_key, &self.base_mint, &self.quote_mint);
        let payer = creator;
        let regs = if wl == 0 {
            vec![RegArgs { min: 1, max: 100, supply: 300, bps: 1000 }]
        } else {
            vec![RegArgs { min: 1, max: 100, supply: 200, bps: 1000 }, RegArgs { min: 1, max: 100, supply: 100, bps: 0 }]
        };
        if mode == FIXED {
            self.run(T0, initialize_fixed_price_presale_args(fixed_args_pda(&presale), creator, payer, presale, 0, SCALE), "fixed args");
        }
        let accs = InitAccs {
            base_mint: self.base_mint,
            presale,
            quote_mint: self.quote_mint,
            base_vault: base_vault_pda(&presale),
            quote_vault: quote_vault_pda(&presale),
            payer_base: self.b(&payer),
            creator,
            base: base_key,
            payer,
            base_prog: spl_token::ID,
            quote_prog: spl_token::ID,
        };
        let args = InitArgs {
            max_cap: 100,
            min_cap,
            start: START,
            end: END,
            wl,
            mode,
            unsold: 0,
            disable_early: 0,
            vest: VestArgs::default(),
            regs,
        };
        let extra = if mode == FIXED { vec![meta(fixed_args_pda(&presale), false, false)] } else { vec![] };
        self.run(T0, initialize_presale(&accs, &args, &vec![], extra), "init");
        let mut listed = vec![];
        if wl == 1 {
            listed = if creator == k("attacker") {
                vec![(k("attacker"), 0u8, 50u64), (self.users[2], 1, 9)]
            } else {
                vec![(self.users[0], 0, 40), (self.users[1], 1, 30), (self.users[2], 0, 20)]
            };
            let leaves: Vec<[u8; 32]> = listed.iter().map(|(o, r, c)| leaf(o, *r, *c)).collect();
            self.run(T0, create_merkle_root_config(presale, merkle_pda(&presale, 0), creator, ref_tree(&leaves).0, 0), "merkle");
        }
        if wl != 0 {
            self.run(T0, create_permissioned_server_metadata(presale, metadata_pda(&presale), creator, "https://x"), "metadata");
        }
        self.sales.push(Sale {
            presale,
            base_key,
            base_vault: base_vault_pda(&presale),
            quote_vault: quote_vault_pda(&presale),
            creator,
            wl,
            listed,
        });
        self.sales.len() - 1
    }
    fn esc(&self, s: usize, owner: &Pubkey, reg: u8) -> Pubkey {
        escrow_pda(&self.sales[s].presale, owner, reg)
    }
    fn create(&self, s: usize, owner: Pubkey, reg: u8, cap: u64) -> Instruction {
        let sale = &self.sales[s];
        let e = self.esc(s, &owner, reg);
        let payer = k("payer");
        match sale.wl {
            0 => create_permissionless_escrow(sale.presale, e, owner, payer),
            1 => {
                let leaves: Vec<[u8; 32]> = sale.listed.iter().map(|(o, r, c)| leaf(o, *r, *c)).collect();
                let i = sale.listed.iter().position(|x| *x == (owner, reg, cap)).unwrap_or(0);
                let proof = ref_tree(&leaves).1[i].clone();
                create_permissioned_escrow_with_merkle_proof(sale.presale, e, owner, merkle_pda(&sale.presale, 0), payer, &proof, reg, cap)
            }
            _ => {
                let oo = if sale.creator == k("attacker") { k("attacker") } else { k("operator-owner") };
                create_permissioned_escrow_with_creator(sale.presale, e, owner, operator_pda(&sale.creator, &oo), oo, payer, reg, cap)
            }
        }
    }
    fn deposit(&self, s: usize, owner: Pubkey, payer: Pubkey, reg: u8, amt: u64) -> Instruction {
        deposit(
            &DepositAccs {
                presale: self.sales[s].presale,
                quote_vault: self.sales[s].quote_vault,
                quote_mint: self.quote_mint,
                escrow: self.esc(s, &owner, reg),
                payer_quote: self.q(&payer),
                payer,
                token_program: spl_token::ID,
            },
            amt,
            &vec![],
            vec![],
        )
    }
    fn payout(&self, s: usize, owner: Pubkey, reg: u8, quote: bool) -> PayoutAccs {
        PayoutAccs {
            presale: self.sales[s].presale,
            vault: if quote { self.sales[s].quote_vault } else { self.sales[s].base_vault },
            mint: if quote { self.quote_mint } else { self.base_mint },
            authority: authority(),
            escrow: self.esc(s, &owner, reg),
            owner_token: if quote { self.q(&owner) } else { self.b(&owner) },
            owner,
            token_program: spl_token::ID,
        }
    }
    fn creator_withdraw(&self, s: usize, ok: bool) -> Instruction {
        let c = self.sales[s].creator;
        creator_withdraw(
            &CreatorWithdrawAccs {
                presale: self.sales[s].presale,
                authority: authority(),
                owner_token: if ok { self.q(&c) } else { self.b(&c) },
                owner: c,
                token_program: spl_token::ID,
                vault: if ok { self.sales[s].quote_vault } else { self.sales[s].base_vault },
                mint: if ok { self.quote_mint } else { self.base_mint },
            },
            &vec![],
            vec![],
        )
    }
    fn collect(&self, s: usize) -> Instruction {
        let c = self.sales[s].creator;
        creator_collect_fee(
            &CollectFeeAccs {
                presale: self.sales[s].presale,
                authority: authority(),
                quote_vault: self.sales[s].quote_vault,
                quote_mint: self.quote_mint,
                fee_recv: self.q(&c),
                owner: c,
                token_program: spl_token::ID,
            },
            &vec![],
            vec![],
        )
    }
    fn unsold(&self, s: usize) -> Instruction {
        let c = self.sales[s].creator;
        perform_unsold_base_token_action(
            &UnsoldAccs {
                presale: self.sales[s].presale,
                base_vault: self.sales[s].base_vault,
                base_mint: self.base_mint,
                authority: authority(),
                creator_base: self.b(&c),
                token_program: spl_token::ID,
            },
            &vec![],
            vec![],
        )
    }
    /// Byte-identical copies of the program's accounts, owned by a foreign program.
    fn forge(&mut self) {
        let mut add = vec![];
        for (key, a) in &self.db.m {
            let interesting = a.owner == presale::ID || (a.owner == spl_token::ID && a.data.len() == 82)
                || self.sales.iter().any(|s| *key == s.base_vault || *key == s.quote_vault);
            if interesting {
                add.push((k(&format!("forged-{key}")), Acct { owner: k("fake-program"), ..(**a).clone() }));
            }
        }
        for (key, a) in add {
            self.db.put(key, a);
        }
    }
}

thread_local!(static SETUP_FAIL: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(vec![]) });

/// All scenes. `wl` worlds contain three sales: the honest creator's main one, another of the same
/// creator, and one run by the attacker.
pub fn scenes() -> (Vec<Scene>, Vec<String>) {
    SETUP_FAIL.with(|s| s.borrow_mut().clear());
    let mut out: Vec<Scene> = vec![];
    let (u0, u1, u2) = (k("user0"), k("user1"), k("user2"));
    let (cr, at_, pay) = (k("creator"), k("attacker"), k("payer"));
    let rr = k("rent-receiver");
    for (wl, mode, same) in [(0u8, PRORATA, false), (0, FIXED, false), (1, PRORATA, false), (2, FCFS, false), (0, PRORATA, true), (0, FIXED, true)] {
        for fail in [false, true] {
            if fail && mode == FIXED {
                continue;
            }
            let mut b = B::new(same);
            let min_cap = if fail { 90 } else { 10 };
            for (i, c) in [cr, cr, at_].into_iter().enumerate() {
                // the attacker's own sale ends the other way
                let mc = if i == 2 { 100 - min_cap } else { min_cap };
                b.sale(&format!("sale{i}"), c, mode, wl, mc);
            }
            if wl == 2 {
                b.run(T0, create_operator(operator_pda(&cr, &k("operator-owner")), k("operator-owner"), cr), "operator");
                b.run(T0, create_operator(operator_pda(&at_, &at_), at_, at_), "operator");
            }
            // an unused parameter account
            b.run(T0, initialize_fixed_price_presale_args(fixed_args_pda(&k("ghost")), cr, pay, k("ghost"), 0, SCALE), "spare args");
            let tag = format!("wl{wl}/{}{}{}", crate::configs::mode_name(mode), if same { "/one-mint" } else { "" }, if fail { "/failed" } else { "" });
            // (sale, owner, registry, cap)
            let members: Vec<(usize, Pubkey, u8, u64)> = match wl {
                0 => vec![(0, u0, 0, 0), (0, u1, 0, 0), (1, u0, 0, 0), (2, at_, 0, 0)],
                1 => vec![(0, u0, 0, 40), (0, u1, 1, 30), (1, u0, 0, 40), (2, at_, 0, 50)],
                _ => vec![(0, u0, 0, 40), (0, u1, 1, 30), (1, u0, 0, 40), (2, at_, 0, 50)],
            };
            let mut snap = |b: &B, name: &str, t: u64, ix: Instruction| {
                let mut x = B { db: b.db.clone(), base_mint: b.base_mint, quote_mint: b.quote_mint, sales: vec![], users: vec![] };
                std::mem::swap(&mut x.sales, &mut b.sales.iter().map(|s| Sale { listed: s.listed.clone(), ..*s }).collect());
                x.forge();
                out.push(Scene {
                    name: format!("{tag}/{name}"),
                    db: x.db,
                    now: at(t),
                    ix,
                    sales: Arc::new(x.sales),
                    mints: (b.base_mint, b.quote_mint),
                    times: (START, END),
                });
            };
            if !fail {
                snap(&b, "init", T0, {
                    let base_key = k("fresh-base");
                    let presale = presale_pda(&base_key, &b.base_mint, &b.quote_mint);
                    initialize_presale(
                        &InitAccs {
                            base_mint: b.base_mint,
                            presale,
                            quote_mint: b.quote_mint,
                            base_vault: base_vault_pda(&presale),
                            quote_vault: quote_vault_pda(&presale),
                            payer_base: b.b(&pay),
                            creator: cr,
                            base: base_key,
                            payer: pay,
                            base_prog: spl_token::ID,
                            quote_prog: spl_token::ID,
                        },
                        &InitArgs { max_cap: 100, min_cap: 10, start: START, end: END, wl: 0, mode: FCFS, unsold: 0, disable_early: 0, vest: VestArgs::default(), regs: vec![RegArgs { min: 1, max: 100, supply: 300, bps: 0 }] },
                        &vec![],
                        vec![],
                    )
                });
                snap(&b, "init_fixed_args", T0, initialize_fixed_price_presale_args(fixed_args_pda(&k("ghost2")), cr, pay, k("ghost2"), 0, SCALE));
                snap(&b, "close_fixed_args", T0, close_fixed_price_presale_args(fixed_args_pda(&k("ghost")), cr));
                if wl == 2 {
                    snap(&b, "create_operator", T0, create_operator(operator_pda(&cr, &u0), u0, cr));
                    snap(&b, "revoke_operator", T0, revoke_operator(operator_pda(&cr, &k("operator-owner")), cr));
                }
                if wl != 0 {
                    let p = b.sales[0].presale;
                    snap(&b, "close_metadata", T0, close_permissioned_server_metadata(p, metadata_pda(&p), rr, cr));
                    let mut b2 = B { db: b.db.clone(), base_mint: b.base_mint, quote_mint: b.quote_mint, sales: b.sales.iter().map(|s| Sale { listed: s.listed.clone(), ..*s }).collect(), users: vec![] };
                    b2.run(T0, close_permissioned_server_metadata(p, metadata_pda(&p), rr, cr), "close md");
                    snap(&b2, "create_metadata", T0, create_permissioned_server_metadata(p, metadata_pda(&p), cr, "https://y"));
                }
                if wl == 1 {
                    let p = b.sales[0].presale;
                    snap(&b, "create_merkle", T0, create_merkle_root_config(p, merkle_pda(&p, 1), cr, [7; 32], 1));
                    snap(&b, "close_merkle", T0, close_merkle_root_config(p, merkle_pda(&p, 0), rr, cr));
                }
                snap(&b, "create_escrow", START, b.create(0, u0, 0, 40));
            }
            for (s, o, r, c) in &members {
                let ix = b.create(*s, *o, *r, *c);
                b.run(START, ix, "create");
            }
            if !fail {
                snap(&b, "close_empty", START, close_escrow(b.sales[0].presale, b.esc(0, &u0, 0), u0, rr));
                snap(&b, "deposit", START, b.deposit(0, u0, u0, 0, 15));
                snap(&b, "deposit_for_other", START, b.deposit(0, u0, pay, 0, 15));
            }
            for (s, o, r, c) in &members {
                let _ = c;
                let ix = b.deposit(*s, *o, *o, *r, 15 + u64::from(*r));
                b.run(START, ix, "deposit");
            }
            if !fail && mode != FCFS {
                snap(&b, "withdraw", START, withdraw(&b.payout(0, u0, 0, true), 5, &vec![], vec![]));
            }
            if fail {
                snap(&b, "remaining", END, withdraw_remaining_quote(&b.payout(0, u0, 0, true), &vec![], vec![]));
                snap(&b, "creator_withdraw", END, b.creator_withdraw(0, false));
                continue;
            }
            snap(&b, "refresh", END, refresh_escrow(b.sales[0].presale, b.esc(0, &u0, 0)));
            snap(&b, "claim", END, claim(&b.payout(0, u0, 0, false), &vec![], vec![]));
            if mode == PRORATA {
                snap(&b, "remaining", END, withdraw_remaining_quote(&b.payout(0, u0, 0, true), &vec![], vec![]));
            }
            snap(&b, "creator_withdraw", END, b.creator_withdraw(0, true));
            snap(&b, "collect_fee", END, b.collect(0));
            if mode == FIXED {
                snap(&b, "unsold", END, b.unsold(0));
            }
            let ix = claim(&b.payout(0, u0, 0, false), &vec![], vec![]);
            b.run(END, ix, "claim");
            snap(&b, "close_done", END, close_escrow(b.sales[0].presale, b.esc(0, &u0, 0), u0, rr));
        }
    }
    let _ = u2;
    (out, SETUP_FAIL.with(|s| s.borrow().clone()))
}

fn tok_owner(db: &Db, key: &Pubkey) -> Option<(Pubkey, Pubkey, u64)> {
    let a = db.get(key)?;
    if (a.owner != spl_token::ID && a.owner != spl_token_2022::ID) || a.data.len() < 165 {
        return None;
    }
    let r = |o: usize| Pubkey::new_from_array(a.data[o..o + 32].try_into().unwrap());
    Some((r(0), r(32), u64::from_le_bytes(a.data[64..72].try_into().unwrap())))
}

fn kind(a: &Acct) -> &'static str {
    if a.owner != presale::ID || a.data.len() < 8 {
        return "";
    }
    for n in ["Presale", "Escrow", "MerkleRootConfig", "Operator", "PermissionedServerMetadata", "FixedPricePresaleExtraArgs"] {
        if a.data[..8] == acc_disc(n) {
            return n;
        }
    }
    "?"
}

/// Judge an accepted call by its effects. Returns every objection with its kind.
pub fn judge(sc: &Scene, post: &Db, ix: &Instruction) -> Vec<(&'static str, String)> {
    let pre = &sc.db;
    let mut out: Vec<(&'static str, String)> = vec![];
    let signers: BTreeSet<Pubkey> = ix.accounts.iter().filter(|m| m.is_signer).map(|m| m.pubkey).collect();
    let signed = |x: &Pubkey| signers.contains(x);
    let rd = |d: &[u8], o: usize| Pubkey::new_from_array(d[o..o + 32].try_into().unwrap());
    let mut keys: BTreeSet<Pubkey> = pre.m.keys().copied().collect();
    keys.extend(post.m.keys().copied());
    // per sale: what its records say changed
    #[derive(Default)]
    struct D {
        owner_signed_quote: bool,
        owner_signed_base: bool,
        creator_quote: bool,
        creator_base: bool,
        unsold: bool,
        dep_in: i128,
    }
    let mut by: BTreeMap<Pubkey, D> = BTreeMap::new();
    let sale = |p: &Pubkey| sc.sales.iter().find(|s| s.presale == *p);
    for key in &keys {
        let (a, b) = (pre.m.get(key), post.m.get(key));
        if let (Some(a), Some(b)) = (a, b) {
            if Arc::ptr_eq(a, b) {
                continue;
            }
        }
        let ka = a.map(|x| kind(x)).unwrap_or("");
        let kb = b.map(|x| kind(x)).unwrap_or("");
        if a.is_some() && b.is_some() && ka != kb {
            out.push(("shape", format!("account {key} changed type from {ka:?} to {kb:?}")));
 continue;
        }
        let same_data = matches!((a, b), (Some(a), Some(b)) if a.data == b.data && a.owner == b.owner);
        match if same_data {
            ""
        } else if ka.is_empty() {
            kb
        } else {
            ka
        } {
            "Escrow" => {
                let ea = a.and_then(|x| escrow_view(&x.data));
                let eb = b.and_then(|x| escrow_view(&x.data));
                match (ea, eb) {
                    (Some(x), Some(y)) => {
                        if (x.presale, x.owner, x.reg, x.cap, x.created_at) != (y.presale, y.owner, y.reg, y.cap, y.created_at) {
                            out.push(("shape", "identity of an escrow changed".into()));
 continue;
                        }
                        let d = by.entry(x.presale).or_default();
                        let inc = i128::from(y.dep) + i128::from(y.fee) - i128::from(x.dep) - i128::from(x.fee);
                        if y.dep < x.dep || y.fee < x.fee || y.claimed != x.claimed || y.refunded != x.refunded {
                            if !signed(&x.owner) {
                                out.push(("sign", format!("position of {} changed without its owner's signature", x.owner)));
 continue;
                            }
                            if y.claimed != x.claimed {
                                d.owner_signed_base = true;
                            } else {
                                d.owner_signed_quote = true;
                            }
                        } else {
                            d.dep_in += inc;
                        }
                    }
                    (None, Some(y)) => {
                        // creation: must be admitted by the sale's own whitelist rule
                        let Some(s) = sale(&y.presale) else { out.push(("shape", "escrow for an unknown presale".into())); continue; };
                        let ok = match s.wl {
                            0 => y.reg == 0,
                            1 => s.listed.contains(&(y.owner, y.reg, y.cap)),
                            _ => {
                                let mut ok = false;
                                for x in &signers {
                                    let o = operator_pda(&s.creator, x);
                                    if pre.get(&o).map(|a| kind(a) == "Operator").unwrap_or(false) {
                                        ok = true;
                                    }
                                }
                                ok
                            }
                        };
                        if !ok {
                            out.push(("whitelist", format!("escrow created for {} (registry {}, cap {}) whom the whitelist does not admit", y.owner, y.reg, y.cap)));
 continue;
                        }
                        if *key != escrow_pda(&y.presale, &y.owner, y.reg) {
                            out.push(("shape", "escrow created at a foreign address".into()));
 continue;
                        }
                        if y.dep != 0 || y.fee != 0 || y.claimed != 0 || y.pending != 0 {
                            out.push(("shape", "escrow created with a non-empty position".into()));
 continue;
                        }
                    }
                    (Some(x), None) => {
                        if !signed(&x.owner) {
                            out.push(("sign", "escrow closed without its owner's signature".into()));
 continue;
                        }
                    }
                    _ => { out.push(("shape", "escrow not decodable".into())); continue; }
                }
            }
            "Presale" => {
                let pa = a.and_then(|x| presale_view(&x.data));
                let pb = b.and_then(|x| presale_view(&x.data));
                match (pa, pb) {
                    (Some(x), Some(y)) => {
                        let d = by.entry(*key).or_default();
                        if x.creator_withdrawn != y.creator_withdrawn || x.fee_collected != y.fee_collected {
                            if !signed(&x.owner) {
                                out.push(("sign", "creator funds taken without the creator's signature".into()));
 continue;
                            }
                            // the proceeds of a success, the supply of a failure
                            let failed = x.total_deposit < x.min_cap && x.creator_withdrawn != y.creator_withdrawn;
                            d.creator_quote = !failed;
                            d.creator_base = failed;
                        }
                        if x.unsold_done != y.unsold_done {
                            d.unsold = true;
                        }
                        if (x.owner, x.base_mint, x.quote_mint, x.base_vault, x.quote_vault) != (y.owner, y.base_mint, y.quote_mint, y.base_vault, y.quote_vault) {
                            out.push(("shape", "identity of a presale changed".into()));
 continue;
                        }
                    }
                    (None, Some(y)) => {
                        // new presale: derived from its base key, which must have signed
                        if *key != presale_pda(&y.base, &y.base_mint, &y.quote_mint) {
                            out.push(("create", "presale created at a foreign address".into()));
 continue;
                        }
                        if !signed(&y.base) {
                            out.push(("create", "presale created without its base key's signature".into()));
 continue;
                        }
                        let named = ix.accounts.get(7).map(|m| m.pubkey);
                        if Some(y.owner) != named {
                            out.push(("create", "presale owner is not the named creator".into()));
 continue;
                        }
                        let want: u64 = y.regs.iter().map(|r| r.supply).sum();
                        if post.tok(&y.base_vault) != want || tok_owner(post, &y.base_vault).map(|t| (t.0, t.1)) != Some((y.base_mint, authority())) {
                            out.push(("create", "new presale's base vault is not funded or not controlled by the program".into()));
 continue;
                        }
                        if tok_owner(post, &y.quote_vault).map(|t| (t.0, t.1, t.2)) != Some((y.quote_mint, authority(), 0)) {
                            out.push(("create", "new presale's quote vault is not a program-controlled empty account".into()));
 continue;
                        }
                        if y.base_vault != base_vault_pda(key) || y.quote_vault != quote_vault_pda(key) {
                            out.push(("create", "new presale uses foreign vaults".into()));
 continue;
                        }
                    }
                    _ => { out.push(("shape", "a presale account disappeared".into())); continue; }
                }
            }
            "MerkleRootConfig" | "PermissionedServerMetadata" => {
                let d = a.map(|x| x.data.clone()).unwrap_or_else(|| b.unwrap().data.clone());
                let merkle = ka == "MerkleRootConfig" || kb == "MerkleRootConfig";
                let p = if merkle { rd(&d, 8 + 40) } else { rd(&d, 8) };
                if a.is_some() && b.is_some() {
                    out.push(("shape", "whitelist data rewritten in place".into()));
 continue;
                }
                let Some(s) = sale(&p) else { out.push(("shape", "whitelist data for an unknown presale".into())); continue; };
                if !signed(&s.creator) {
                    out.push(("rights", "whitelist data created or closed without the presale creator's signature".into()));
 continue;
                }
            }
            "Operator" => {
                let d = a.map(|x| x.data.clone()).unwrap_or_else(|| b.unwrap().data.clone());
                if a.is_some() && b.is_some() {
                    out.push(("operator", "operator rewritten in place".into()));
 continue;
                }
                let (o, c) = (rd(&d, 8), rd(&d, 40));
                if !signed(&c) {
                    out.push(("operator", "operator created or revoked without its creator's signature".into()));
 continue;
                }
                if *key != operator_pda(&c, &o) {
                    out.push(("operator", "operator at a foreign address".into()));
 continue;
                }
            }
            "FixedPricePresaleExtraArgs" => {
                let d = a.map(|x| x.data.clone()).unwrap_or_else(|| b.unwrap().data.clone());
                if a.is_some() && b.is_some() {
                    out.push(("sheet", "price parameters rewritten in place".into()));
 continue;
                }
                if a.is_some() && !signed(&rd(&d, 8 + 32)) {
                    out.push(("sheet", "price parameters closed without the owner's signature".into()));
 continue;
                }
            }
            "?" => { out.push(("shape", "unknown program account changed".into())); continue; }
            _ => {}
        }
        // lamports
        let (la, lb) = (a.map(|x| x.lamports).unwrap_or(0), b.map(|x| x.lamports).unwrap_or(0));
        if lb < la && ka.is_empty() && !signed(key) {
            out.push(("lamports", format!("lamports of {key} spent without its signature")));
 continue;
        }
        if lb < la && !ka.is_empty() && b.is_some() {
            out.push(("lamports", format!("rent taken out of live account {key}")));
 continue;
        }
    }
    // token movements
    let mut quote_in: BTreeMap<Pubkey, i128> = BTreeMap::new();
    for key in &keys {
        let (x, y) = (tok_owner(pre, key), tok_owner(post, key));
        let Some((mint, owner, bal)) = x else {
            continue;
        };
        let Some((m2, o2, b2)) = y else { out.push(("cross", format!("token account {key} vanished"))); continue; };
        if (m2, o2) != (mint, owner) {
            out.push(("cross", format!("token account {key} changed hands")));
 continue;
        }
        if let Some(s) = sc.sales.iter().find(|s| s.quote_vault == *key) {
            let d = by.get(&s.presale);
            if b2 < bal {
                let ok = d.map(|d| d.owner_signed_quote || d.creator_quote).unwrap_or(false);
                if !ok {
                    out.push(("cross", format!("quote left the vault of {} without a matching, authorised record change", s.presale)));
 continue;
                }
            } else {
                *quote_in.entry(s.presale).or_default() += i128::from(b2) - i128::from(bal);
            }
            continue;
        }
        if let Some(s) = sc.sales.iter().find(|s| s.base_vault == *key) {
            let d = by.get(&s.presale);
            if b2 < bal {
                let ok = d.map(|d| d.owner_signed_base || d.creator_base || d.unsold).unwrap_or(false);
                if !ok {
                    out.push(("cross", format!("base left the vault of {} without a matching, authorised record change", s.presale)));
 continue;
                }
                if d.map(|d| d.unsold && !d.owner_signed_base && !d.creator_base).unwrap_or(false) {
                    let dest = ata(&s.creator, &spl_token::ID, &mint);
                    let got = post.tok(&dest) as i128 - pre.tok(&dest) as i128;
                    let burned = pre.mint_supply(&mint) - post.mint_supply(&mint);
                    if got + i128::from(burned) != i128::from(bal) - i128::from(b2) {
                        out.push(("unsold", "unsold tokens went somewhere else than the creator's account".into()));
 continue;
                    }
                }
            }
            continue;
        }
        if b2 < bal && !signed(&owner) {
            out.push(("sign", format!("tokens of {owner} moved without its signature")));
 continue;
        }
    }
    // credit must be backed by payment into the same sale's vault
    for (p, d) in &by {
        let paid = quote_in.get(p).copied().unwrap_or(0);
        if d.dep_in > paid {
            out.push(("cross", format!("escrow of {p} credited {} but its vault received {paid}", d.dep_in)));
 continue;
        }
    }
    // (an owner or creator may of course direct a payout of theirs wherever they like)
    let payout = by.values().any(|d| d.owner_signed_quote || d.creator_quote || d.owner_signed_base || d.creator_base);
    for (p, x) in quote_in.iter().filter(|_| !payout) {
        if *x > 0 && by.get(p).map(|d| d.dep_in).unwrap_or(0) != *x {
            out.push(("cross", format!("the vault of {p} received {x} that nobody was credited for")));
 continue;
        }
    }
    out
}

/// The first objection that concerns the property under check; the others are only counted.
fn object(sc: &Scene, class: &str, objs: Vec<(&'static str, String)>, mine: &(dyn Fn(&str) -> bool + Sync), st: &mut Stats) -> Option<(String, String)> {
    let op = sc.name.rsplit('/').next().unwrap();
    let mut hit = None;
    for (kind, msg) in objs {
        let tag = if kind.is_empty() { format!("{class}/{op}") } else { format!("{class}/{op}/{kind}") };
        if hit.is_none() && mine(&tag) {
            hit = Some((tag, msg));
        } else {
            *st.foreign.entry(tag).or_default() += 1;
        }
    }
    hit
}

pub fn describe(ix: &Instruction, subs: &[(usize, Pubkey)], drop: Option<usize>) -> String {
    let mut s = String::new();
    if let Some(d) = drop {
        s.push_str(&format!("signature of account #{d} dropped"));
    }
    for (i, k) in subs {
        if !s.is_empty() {
            s.push_str(", ");
        }
        s.push_str(&format!("account #{i} ({}) replaced by {k}", ix.accounts[*i].pubkey));
    }
    s
}

/// Nobody outside the program can sign for its derived addresses.
fn no_pda_signs(y: &mut Instruction) {
    for m in &mut y.accounts {
        if m.pubkey == authority() || m.pubkey == event_authority() {
            m.is_signer = false;
        }
    }
}

fn apply(ix: &Instruction, subs: &[(usize, Pubkey)]) -> Instruction {
    let mut y = ix.clone();
    for (i, k) in subs {
        y.accounts[*i].pubkey = *k;
    }
    no_pda_signs(&mut y);
    y
}

/// Explore all single (and, if `pairs`, double) substitutions of all scenes.
pub fn explore(mine: &(dyn Fn(&str) -> bool + Sync), pairs: bool, threads: usize) -> (Stats, Option<Found>) {
    let (scs, setup) = scenes();
    let mut st = Stats::default();
    if let Some(f) = setup.first().filter(|_| mine("reject/auth-setup")) {
        return (
            st,
            Some(Found {
                cfg: 0,
                cfg_name: "auth/setup".into(),
                trace: vec![],
                viol: Viol { tag: "reject/auth-setup".into(), msg: format!("a legitimate step failed while preparing the scenes: {f}") },
            }),
        );
    }
    let next = AtomicUsize::new(0);
    let acc: Mutex<(Stats, Option<Found>)> = Mutex::new((Stats::default(), None));
    // work items: (scene, first slot)
    let mut items = vec![];
    for (i, s) in scs.iter().enumerate() {
        for slot in 0..s.ix.accounts.len() {
            items.push((i, slot));
        }
    }
    std::thread::scope(|scope| {
        for _ in 0..threads {
            scope.spawn(|| loop {
                let n = next.fetch_add(1, Ordering::SeqCst);
                if n >= items.len() || acc.lock().unwrap().1.is_some() {
                    break;
                }
                let (si, slot) = items[n];
                let sc = &scs[si];
                let mut st = Stats::default();
                let mut found: Option<(String, String, String)> = None;
                if slot == 0 {
                    st.transitions += 1;
                    st.states += 1;
                    match execute(&sc.db, sc.now, &sc.ix) {
                        Err(e) => {
                            if let Some(f) = object(sc, "reject/auth", vec![("", format!("legitimate call failed: {e:?}"))], mine, &mut st) {
                                found = Some((f.0, "unmodified".into(), f.1));
                            }
                        }
                        Ok(o) => {
                            if let Some(f) = object(sc, "auth", judge(sc, &o.db, &sc.ix), mine, &mut st) {
                                found = Some((f.0, "unmodified".into(), f.1));
                            }
                        }
                    }
                }
                if found.is_none() && sc.ix.accounts[slot].is_signer {
                    let mut y = sc.ix.clone();
                    y.accounts[slot].is_signer = false;
                    st.transitions += 1;
                    if execute(&sc.db, sc.now, &y).is_ok() {
                        if let Some(f) = object(sc, "auth", vec![("sign", "call accepted without the required signature".into())], mine, &mut st) {
                            found = Some((f.0, describe(&sc.ix, &[], Some(slot)), f.1));
                        }
                    }
                }
                let pool: Vec<Pubkey> = sc.db.m.keys().copied().collect();
                let mut accepted = 0u64;
                let mut refused = 0u64;
                let mut try_one = |subs: &[(usize, Pubkey)], st: &mut Stats| -> Option<(String, String, String)> {
                    let y = apply(&sc.ix, subs);
                    st.transitions += 1;
                    match execute(&sc.db, sc.now, &y) {
                        Err(_) => refused += 1,
                        Ok(o) => {
                            accepted += 1;
                            st.states += 1;
                            if let Some(f) = object(sc, "auth", judge(sc, &o.db, &y), mine, st) {
                                return Some((f.0, describe(&sc.ix, subs, None), f.1));
                            }
                        }
                    }
                    None
                };
                'outer: for a in &pool {
                    if found.is_some() {
                        break;
                    }
                    if *a == sc.ix.accounts[slot].pubkey {
                        continue;
                    }
                    if let Some(f) = try_one(&[(slot, *a)], &mut st) {
                        found = Some(f);
                        break;
                    }
                    if pairs {
                        for s2 in slot + 1..sc.ix.accounts.len() {
                            // program and event plumbing slots are covered by the single pass
                            if s2 >= sc.ix.accounts.len() {
                                break;
                            }
                            for b in &pool {
                                if *b == sc.ix.accounts[s2].pubkey {
                                    continue;
                                }
                                if let Some(f) = try_one(&[(slot, *a), (s2, *b)], &mut st) {
                                    found = Some(f);
                                    break 'outer;
                                }
                            }
                        }
                    }
                }
                st.outcomes.insert(format!("{}/#{slot}", sc.name), (accepted, refused));
                let mut g = acc.lock().unwrap();
                g.0.merge(&st);
                if let Some((tag, what, msg)) = found {
                    let f = Found {
                        cfg: si,
                        cfg_name: format!("auth/{}", sc.name),
                        trace: vec![what],
                        viol: Viol { tag, msg },
                    };
                    if g.1.as_ref().map(|x| f.cfg < x.cfg).unwrap_or(true) {
                        g.1 = Some(f);
                    }
                }
            });
        }
    });
    let (s, f) = acc.into_inner().unwrap();
    st.merge(&s);
    st.validated = st.transitions;
    st.configs = scs.len() as u64;
    let _ = (Rent::default(), abi::pid());
    (st, f)
}

/// What an account looks like to a type check: owner program, record type, mint.
fn class_of(db: &Db, key: &Pubkey) -> String {
    match db.m.get(key) {
        None => "absent".into(),
        Some(a) => match tok_owner(db, key) {
            Some((mint, ..)) => format!("token/{mint}"),
            None => format!("{}/{}/{}/{}", a.owner, kind(a), a.executable, if a.owner == presale::ID { 0 } else { a.data.len() }),
        },
    }
}

/// All substitutions of up to `k` slots at once by accounts of the same type (another sale's, another
/// participant's, another creator's, an address still free), each signature kept or dropped.
pub fn explore_typed(mine: &(dyn Fn(&str) -> bool + Sync), k_max: usize, threads: usize) -> (Stats, Option<Found>) {
    let (scs, _) = scenes();
    let next = AtomicUsize::new(0);
    let acc: Mutex<(Stats, Option<Found>)> = Mutex::new((Stats::default(), None));
    let people: Vec<Pubkey> = ["user0", "user1", "user2", "creator", "attacker", "payer", "operator-owner"].iter().map(|n| k(n)).collect();
    let mut items = vec![];
    for (i, s) in scs.iter().enumerate() {
        for slot in 0..s.ix.accounts.len() {
            items.push((i, slot));
        }
    }
    std::thread::scope(|scope| {
        for _ in 0..threads {
            scope.spawn(|| loop {
                let n = next.fetch_add(1, Ordering::SeqCst);
                if n >= items.len() || acc.lock().unwrap().1.is_some() {
                    break;
                }
                let (si, first) = items[n];
                let sc = &scs[si];
                let mut free: Vec<Pubkey> = vec![];
                for s in sc.sales.iter() {
                    for o in [k("attacker"), k("user1")] {
                        free.push(escrow_pda(&s.presale, &o, 0));
                    }
                    free.push(merkle_pda(&s.presale, 1));
                    free.push(metadata_pda(&s.presale));
                }
                for c in [k("attacker"), k("creator")] {
                    free.push(operator_pda(&c, &k("attacker")));
                }
                let escrowish: BTreeSet<Pubkey> = sc.sales.iter().flat_map(|s| people.iter().flat_map(move |o| (0..2).map(move |r| escrow_pda(&s.presale, o, r)))).collect();
                let cands: Vec<Vec<(Pubkey, bool)>> = sc
                    .ix
                    .accounts
                    .iter()
                    .map(|m| {
                        let mut v: Vec<(Pubkey, bool)> = vec![];
                        let cl = class_of(&sc.db, &m.pubkey);
                        if sc.db.m.contains_key(&m.pubkey) {
                            let cast = [k("attacker"), k("user1"), k("creator")];
                            for x in sc.db.m.keys().filter(|x| class_of(&sc.db, x) == cl) {
                                // wallets and token accounts: the original, the attacker, another participant, the creator
                                let who = tok_owner(&sc.db, x).map(|t| t.1).unwrap_or(*x);
                                if (cl.starts_with("token/") || sc.db.m[x].owner == SYSTEM_ID) && *x != m.pubkey && who != authority() && !cast.contains(&who) {
                                    continue;
                                }
                                v.push((*x, m.is_signer));
                                if m.is_signer && (*x == m.pubkey || *x == k("creator")) {
                                    v.push((*x, false));
                                }
                            }
                        } else {
                            for x in free.iter().filter(|x| !sc.db.m.contains_key(x) && escrowish.contains(x) == escrowish.contains(&m.pubkey)) {
                                v.push((*x, m.is_signer));
                            }
                        }
                        v.retain(|x| !(x.1 && (x.0 == authority() || x.0 == event_authority())));
                        v.retain(|x| *x != (m.pubkey, m.is_signer));
                        v.dedup();
                        v
                    })
                    .collect();
                let mut st = Stats::default();
                let mut found: Option<(String, String, String)> = None;
                let (mut accepted, mut refused) = (0u64, 0u64);
                // depth-first over the subsets whose lowest slot is `first`
                let mut stack: Vec<(Instruction, Vec<usize>)> = vec![];
                for (x, sg) in &cands[first] {
                    let mut y = sc.ix.clone();
                    y.accounts[first].pubkey = *x;
                    y.accounts[first].is_signer = *sg;
                    stack.push((y, vec![first]));
                }
                while let Some((y, chosen)) = stack.pop() {
                    st.transitions += 1;
                    match execute(&sc.db, sc.now, &y) {
                        Err(_) => refused += 1,
                        Ok(o) => {
                            accepted += 1;
                            st.states += 1;
                            if let Some((tag, m)) = object(sc, "auth", judge(sc, &o.db, &y), mine, &mut st) {
                                let what = chosen
                                    .iter()
                                    .map(|i| format!("account #{i} ({}) replaced by {}{}", sc.ix.accounts[*i].pubkey, y.accounts[*i].pubkey, if y.accounts[*i].is_signer == sc.ix.accounts[*i].is_signer { "" } else { " unsigned" }))
                                    .collect::<Vec<_>>()
                                    .join(", ");
                                found = Some((tag, what, m));
                                break;
                            }
                        }
                    }
                    if chosen.len() < k_max {
                        for s2 in chosen[chosen.len() - 1] + 1..sc.ix.accounts.len() {
                            for (x, sg) in &cands[s2] {
                                let mut z = y.clone();
                                z.accounts[s2].pubkey = *x;
                                z.accounts[s2].is_signer = *sg;
                                let mut c = chosen.clone();
                                c.push(s2);
                                stack.push((z, c));
                            }
                        }
                    }
                }
                st.outcomes.insert(format!("typed/{}/#{first}", sc.name), (accepted, refused));
                let mut g = acc.lock().unwrap();
                g.0.merge(&st);
                if let Some((tag, what, msg)) = found {
                    let f = Found { cfg: si, cfg_name: format!("auth/{}", sc.name), trace: vec![what], viol: Viol { tag, msg } };
                    if g.1.as_ref().map(|x| f.cfg < x.cfg).unwrap_or(true) {
                        g.1 = Some(f);
                    }
                }
            });
        }
    });
    let (mut s, f) = acc.into_inner().unwrap();
    s.validated = s.transitions;
    s.configs = scs.len() as u64;
    s.max_depth = k_max as u64;
    (s, f)
}
