//! Closed worlds: a presale with its mints, wallets and participants, built by running the real
//! instructions, plus the menu of operations that can be applied to it.

use crate::abi::{self, *};
use crate::svm::{self, execute, meta, Acct, Db, ExecErr, ExecOk, Now, ATA_ID, HOOK_ID, MEMO_ID, SYSTEM_ID};
use solana_program::{instruction::{AccountMeta, Instruction}, program_option::COption, pubkey::Pubkey, rent::Rent};
use spl_token_2022::extension::ExtensionType;

/// A present-day clock; the sales straddle 2^31 seconds, so a narrowed timestamp shows.
pub const T0: u64 = (1 << 31) - 60;
pub const SCALE: u128 = 1u128 << 64;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tok {
    Spl,
    T22,
    /// transfer fee (bps, max) now and (bps, max) from the given epoch on
    Fee { bps: u16, max: u64, bps2: u16, max2: u64, epoch2: u64 },
    Hook,
    /// fee and hook together
    FeeHook { bps: u16, max: u64 },
    /// a hook that names many accounts, some derived from the parties and the amount of the transfer
    RichHook,
    /// plain Token-2022 mint, receiving wallets require incoming memos
    Memo,
}

impl Tok {
    pub fn program(&self) -> Pubkey {
        match self { Tok::Spl => spl_token::ID, _ => spl_token_2022::ID }
    }
    pub fn has_hook(&self) -> bool {
        matches!(self, Tok::Hook | Tok::FeeHook { .. } | Tok::RichHook)
    }
    pub fn fee_at(&self, epoch: u64) -> Option<(u16, u64)> {
        match *self {
            Tok::Fee { bps, max, bps2, max2, epoch2 } => Some(if epoch >= epoch2 { (bps2, max2) } else { (bps, max) }),
            Tok::FeeHook { bps, max } => Some((bps, max)),
            _ => None,
        }
    }
    /// Token-2022 fee withheld from a transfer of `amt`.
    pub fn fee(&self, epoch: u64, amt: u64) -> u64 {
        match self.fee_at(epoch) {
            None => 0,
            Some((bps, max)) => {
                let f = (u128::from(amt) * u128::from(bps)).div_ceil(10_000) as u64;
                f.min(max)
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct SlotCfg {
    pub owner: u16,
    pub reg: u8,
    pub cap: u64,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub name: String,
    pub args: InitArgs,
    pub q_price: u128,
    pub dis_wd: u8,
    pub base: Tok,
    pub quote: Tok,
    pub slots: Vec<SlotCfg>,
    /// quote balance per wallet owner
    pub wallets: Vec<u64>,
    /// (unix time, epoch); the presale is initialised at times[0]
    pub times: Vec<(u64, u64)>,
    pub ops: Vec<Op>,
    pub bystander: bool,
    pub max_states: usize,
    /// deposit/withdraw/create operations allowed per history (0 = unlimited)
    pub max_pre: u16,
    /// last time index at which those operations are offered
    pub pre_until: u8,
    /// steps (checked like all others) taken before the exploration branches
    pub prefix: Vec<Op>,
    /// decimals of the base and quote mint
    pub dec: (u8, u8),
    /// wallet 0 belongs to: 0 a participant, 1 the creator, 2 the operator, 3 the rent payer
    pub insider: u8,
    /// base and quote are one and the same mint
    pub same_mint: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    Create(u16),
    /// slot, max amount, paying wallet
    Deposit(u16, u64, u16),
    Withdraw(u16, u64),
    Claim(u16),
    Refresh(u16),
    Remaining(u16),
    Close(u16),
    CreatorWithdraw,
    CollectFee,
    Unsold,
    /// somebody sends tokens straight into a vault (true: quote), once
    Donate(bool, u64),
    Tick,
}

impl Op {
    pub fn kind(&self) -> &'static str {
        match self {
            Op::Create(_) => "create_escrow",
            Op::Deposit(..) => "deposit",
            Op::Withdraw(..) => "withdraw",
            Op::Claim(_) => "claim",
            Op::Refresh(_) => "refresh",
            Op::Remaining(_) => "remaining",
            Op::Close(_) => "close",
            Op::CreatorWithdraw => "creator_withdraw",
            Op::CollectFee => "collect_fee",
            Op::Unsold => "unsold",
            Op::Donate(..) => "donate",
            Op::Tick => "tick",
        }
    }
    pub fn is_pre(&self) -> bool {
        matches!(self, Op::Create(_) | Op::Deposit(..) | Op::Withdraw(..))
    }
}

pub struct SlotKeys {
    pub owner: Pubkey,
    pub escrow: Pubkey,
    pub proof: Vec<[u8; 32]>,
}

pub struct World {
    pub cfg: Cfg,
    pub db: Db,
    pub creator: Pubkey,
    pub payer: Pubkey,
    pub rent_recv: Pubkey,
    pub base_key: Pubkey,
    pub base_mint: Pubkey,
    pub quote_mint: Pubkey,
    pub presale: Pubkey,
    pub base_vault: Pubkey,
    pub quote_vault: Pubkey,
    pub owners: Vec<Pubkey>,
    pub wq: Vec<Pubkey>,
    pub wb: Vec<Pubkey>,
    pub creator_q: Pubkey,
    pub creator_b: Pubkey,
    pub creator_fee_q: Pubkey,
    pub slots: Vec<SlotKeys>,
    pub operator: Pubkey,
    pub op_owner: Pubkey,
    pub merkle: Pubkey,
    pub hook_counter: Pubkey,
    pub init: InitResult,
}

#[derive(Clone, Debug)]
pub enum InitResult {
    Ok,
    Err(String),
}

// ---------------------------------------------------------------- token plumbing (real processors)

pub fn must(db: &mut Db, now: Now, ix: Instruction, what: &str) {
    match execute(db, now, &ix) {
        Ok(o) => *db = o.db,
        Err(e) => panic!("harness setup failed ({what}): {e:?}"),
    }
}

pub fn base_db() -> Db {
    let mut db = Db::default();
    for p in [SYSTEM_ID, spl_token::ID, spl_token_2022::ID, MEMO_ID, ATA_ID, HOOK_ID, presale::ID] {
        db.program(p);
    }
    db.fund(authority(), 10_000_000);
    db.fund(event_authority(), 10_000_000);
    db
}

fn blank(db: &mut Db, k: Pubkey, owner: Pubkey, len: usize) {
    db.put(k, Acct { lamports: Rent::default().minimum_balance(len).max(1), owner, executable: false, data: vec![0; len] });
}

pub fn mint_auth() -> Pubkey {
    label("mint-authority")
}

pub const NOW0: Now = Now { ts: T0 as i64 - 5000, epoch: 0 };

pub fn make_mint(db: &mut Db, key: Pubkey, tok: Tok) {
    make_mint_dec(db, key, tok, 6)
}

pub fn make_mint_dec(db: &mut Db, key: Pubkey, tok: Tok, dec: u8) {
    let now = NOW0;
    let auth = mint_auth();
    db.fund(auth, 1_000_000_000);
    match tok {
        Tok::Spl => {
            blank(db, key, spl_token::ID, 82);
            must(db, now, spl_token::instruction::initialize_mint2(&spl_token::ID, &key, &auth, None, dec).unwrap(), "mint");
        }
        _ => {
            let mut exts = vec![];
            if tok.fee_at(0).is_some() {
                exts.push(ExtensionType::TransferFeeConfig);
            }
            if tok.has_hook() {
                exts.push(ExtensionType::TransferHook);
            }
            let len = ExtensionType::try_calculate_account_len::<spl_token_2022::state::Mint>(&exts).unwrap();
            blank(db, key, spl_token_2022::ID, len);
            if let Some((bps, max)) = tok.fee_at(0) {
                must(
                    db,
                    now,
                    spl_token_2022::extension::transfer_fee::instruction::initialize_transfer_fee_config(
                        &spl_token_2022::ID, &key, Some(&auth), Some(&auth), bps, max,
                    )
                    .unwrap(),
                    "fee config",
                );
            }
            if tok.has_hook() {
                must(
                    db,
                    now,
                    spl_token_2022::extension::transfer_hook::instruction::initialize(
                        &spl_token_2022::ID, &key, Some(auth), Some(HOOK_ID),
                    )
                    .unwrap(),
                    "hook config",
                );
                make_hook_accounts(db, &key, tok == Tok::RichHook);
            }
            must(
                db,
                now,
                spl_token_2022::instruction::initialize_mint2(&spl_token_2022::ID, &key, &auth, None, dec).unwrap(),
                "mint22",
            );
            if let Tok::Fee { bps2, max2, epoch2, .. } = tok {
                if epoch2 >= 2 && epoch2 < 1000 {
                    // takes effect two epochs later
                    let at = Now { ts: now.ts, epoch: epoch2 - 2 };
                    must(
                        db,
                        at,
                        spl_token_2022::extension::transfer_fee::instruction::set_transfer_fee(
                            &spl_token_2022::ID, &key, &auth, &[], bps2, max2,
                        )
                        .unwrap(),
                        "set fee",
                    );
                }
            }
        }
    }
}

pub fn hook_counter_key() -> Pubkey {
    label("hook-counter")
}
pub fn hook_validation(mint: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[b"extra-account-metas", mint.as_ref()], &HOOK_ID).0
}

fn make_hook_accounts(db: &mut Db, mint: &Pubkey, rich: bool) {
    use spl_tlv_account_resolution::{account::ExtraAccountMeta, seeds::Seed, state::ExtraAccountMetaList};
    let counter = hook_counter_key();
    if db.get(&counter).is_none() {
        blank(db, counter, HOOK_ID, 8);
    }
    let mut metas = vec![ExtraAccountMeta::new_with_pubkey(&counter, false, true).unwrap()];
    if rich {
        for k in rich_fixed() {
            metas.push(ExtraAccountMeta::new_with_pubkey(&k, false, false).unwrap());
        }
        for (tag, index) in [(b"from", 0u8), (b"to__", 2), (b"auth", 3)] {
            let seeds = [Seed::Literal { bytes: tag.to_vec() }, Seed::AccountKey { index }];
            metas.push(ExtraAccountMeta::new_with_seeds(&seeds, false, false).unwrap());
        }
        let seeds = [Seed::Literal { bytes: b"amnt".to_vec() }, Seed::InstructionData { index: 8, length: 8 }];
        metas.push(ExtraAccountMeta::new_with_seeds(&seeds, false, false).unwrap());
    }
    let size = ExtraAccountMetaList::size_of(metas.len()).unwrap();
    let mut data = vec![0u8; size];
    ExtraAccountMetaList::init::<spl_transfer_hook_interface::instruction::ExecuteInstruction>(&mut data, &metas).unwrap();
    let v = hook_validation(mint);
    db.put(v, Acct { lamports: Rent::default().minimum_balance(size), owner: HOOK_ID, executable: false, data });
}

fn rich_fixed() -> Vec<Pubkey> {
    (0..4).map(|i| label(&format!("hook-party{i}"))).collect()
}
/// Largest amount that may move in a world with a `RichHook` mint.
pub const RICH_MAX: u64 = 200;

/// Accounts to append for a transfer of a hooked mint (source, destination, authority).
pub fn hook_extra(tok: Tok, mint: &Pubkey, parties: [Pubkey; 3]) -> Vec<AccountMeta> {
    let mut out = vec![
        meta(hook_counter_key(), false, true),
        meta(HOOK_ID, false, false),
        meta(hook_validation(mint), false, false),
    ];
    if tok == Tok::RichHook {
        static AMOUNTS: std::sync::OnceLock<Vec<Pubkey>> = std::sync::OnceLock::new();
        let am = AMOUNTS.get_or_init(|| (0..=RICH_MAX).map(|a| Pubkey::find_program_address(&[b"amnt", &a.to_le_bytes()], &HOOK_ID).0).collect());
        let find = |t: &[u8], k: &Pubkey| Pubkey::find_program_address(&[t, k.as_ref()], &HOOK_ID).0;
        out.extend(rich_fixed().into_iter().map(|k| meta(k, false, false)));
        out.extend([find(b"from", &parties[0]), find(b"to__", &parties[1]), find(b"auth", &parties[2])].map(|k| meta(k, false, false)));
        out.extend(am.iter().map(|k| meta(*k, false, false)));
    }
    out
}

pub fn make_token_account(db: &mut Db, key: Pubkey, mint: Pubkey, owner: Pubkey, tok: Tok) {
    let now = NOW0;
    if tok == Tok::Spl {
        blank(db, key, spl_token::ID, 165);
        must(db, now, spl_token::instruction::initialize_account3(&spl_token::ID, &key, &mint, &owner).unwrap(), "acct");
        return;
    }
    let mut exts = vec![];
    if tok.fee_at(0).is_some() {
        exts.push(ExtensionType::TransferFeeAmount);
    }
    if tok.has_hook() {
        exts.push(ExtensionType::TransferHookAccount);
    }
    if tok == Tok::Memo {
        exts.push(ExtensionType::MemoTransfer);
    }
    let len = ExtensionType::try_calculate_account_len::<spl_token_2022::state::Account>(&exts).unwrap();
    blank(db, key, spl_token_2022::ID, len);
    must(
        db,
        now,
        spl_token_2022::instruction::initialize_account3(&spl_token_2022::ID, &key, &mint, &owner).unwrap(),
        "acct22",
    );
    if tok == Tok::Memo {
        let mut ix = spl_token_2022::extension::memo_transfer::instruction::enable_required_transfer_memos(
            &spl_token_2022::ID, &key, &owner, &[],
        )
        .unwrap();
        for m in ix.accounts.iter_mut() {
            if m.pubkey == owner {
                m.is_signer = true;
            }
        }
        must(db, now, ix, "memo ext");
    }
}

pub fn mint_to(db: &mut Db, mint: Pubkey, to: Pubkey, amt: u64, tok: Tok) {
    if amt == 0 {
        return;
    }
    let ix = spl_token_2022::instruction::mint_to(&tok.program(), &mint, &to, &mint_auth(), &[], amt).unwrap();
    let tok_memo = tok == Tok::Memo;
    let _ = tok_memo;
    must(db, NOW0, ix, "mint_to");
}

// ---------------------------------------------------------------- merkle reference (independent)

pub fn leaf(owner: &Pubkey, reg: u8, cap: u64) -> [u8; 32] {
    use solana_program::hash::hashv;
    let n = hashv(&[owner.as_ref(), &[reg], &cap.to_le_bytes()]);
    hashv(&[&[0u8], n.as_ref()]).to_bytes()
}
pub fn parent(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    use solana_program::hash::hashv;
    let (l, r) = if a <= b { (a, b) } else { (b, a) };
    hashv(&[&[1u8], l, r]).to_bytes()
}
/// Does this path lead from the leaf to the root (reference rule)?
pub fn ref_verify(proof: Vec<[u8; 32]>, root: [u8; 32], leaf: [u8; 32]) -> bool {
    proof.iter().fold(leaf, |node, sibling| parent(&node, sibling)) == root
}

/// Root and per-leaf proofs of the reference tree (odd node paired with itself).
pub fn ref_tree(leaves: &[[u8; 32]]) -> ([u8; 32], Vec<Vec<[u8; 32]>>) {
    let mut proofs = vec![vec![]; leaves.len()];
    let mut pos: Vec<usize> = (0..leaves.len()).collect();
    let mut lvl = leaves.to_vec();
    while lvl.len() > 1 {
        for (i, p) in pos.iter_mut().enumerate() {
            let sib = if *p % 2 == 0 { (*p + 1).min(lvl.len() - 1) } else { *p - 1 };
            proofs[i].push(lvl[sib]);
            *p /= 2;
        }
        let mut nx = vec![];
        for c in lvl.chunks(2) {
            nx.push(parent(&c[0], c.last().unwrap()));
        }
        lvl = nx;
    }
    (lvl[0], proofs)
}

// ---------------------------------------------------------------- building a world

impl World {
    pub fn now(&self, ti: usize) -> Now {
        Now { ts: self.cfg.times[ti].0 as i64, epoch: self.cfg.times[ti].1 }
    }

    /// Who is named to receive the rent of a closed position: a stranger, its owner, or the creator.
    pub fn rent_to(&self, u: usize) -> Pubkey {
        match (u + self.cfg.name.len()) % 3 {
            0 => self.rent_recv,
            1 => self.slots[u].owner,
            _ => self.creator,
        }
    }

    /// The world before any sale exists: mints, wallets, token accounts.
    pub fn bare(cfg: &Cfg) -> World {
        let mut db = base_db();
        let creator = label("creator");
        let payer = label("payer");
        let rent_recv = label("rent-receiver");
        let base_key = label("base-key");
        let op_owner = label("operator-owner");
        let attacker = label("attacker");
        for k in [creator, payer, base_key, op_owner, attacker] {
            db.fund(k, 1_000_000_000_000);
        }
        db.fund(rent_recv, 1_000_000_000);
        let base_mint = label("base-mint");
        let quote_mint = if cfg.same_mint { base_mint } else { label("quote-mint") };
        make_mint_dec(&mut db, base_mint, cfg.base, cfg.dec.0);
        if !cfg.same_mint {
            make_mint_dec(&mut db, quote_mint, cfg.quote, cfg.dec.1);
        }
        let presale = presale_pda(&base_key, &base_mint, &quote_mint);
        let mut owners: Vec<Pubkey> = (0..cfg.wallets.len()).map(|i| label(&format!("owner{i}"))).collect();
        match cfg.insider {
            1 => owners[0] = creator,
            2 => owners[0] = op_owner,
            3 => owners[0] = payer,
            _ => {}
        }
        let mut wq = vec![];
        let mut wb = vec![];
        for (i, o) in owners.iter().enumerate() {
            if db.get(o).is_none() {
                db.fund(*o, 1_000_000_000);
            }
            let q = label(&format!("wq{i}"));
            let b = label(&format!("wb{i}"));
            make_token_account(&mut db, q, quote_mint, *o, cfg.quote);
            make_token_account(&mut db, b, base_mint, *o, cfg.base);
            mint_to(&mut db, quote_mint, q, cfg.wallets[i], cfg.quote);
            wq.push(q);
            wb.push(b);
        }
        let creator_q = label("creator-q");
        let creator_fee_q = label("creator-fee-q");
        let creator_b = ata(&creator, &cfg.base.program(), &base_mint);
        make_token_account(&mut db, creator_q, quote_mint, creator, cfg.quote);
        make_token_account(&mut db, creator_fee_q, quote_mint, creator, cfg.quote);
        make_token_account(&mut db, creator_b, base_mint, creator, cfg.base);
        let payer_b = label("payer-b");
        make_token_account(&mut db, payer_b, base_mint, payer, cfg.base);
        let total: u128 = cfg.args.regs.iter().map(|r| r.supply as u128).sum();
        // enough for the supply, the transfer fee and the bystander
        let room: u128 = match cfg.base.fee_at(0) {
            Some((bps, max)) if bps > 0 => {
                (total * 10_000 / (10_000 - u128::from(bps.min(9_999))) + 10).min(total + max as u128)
            }
            _ => total,
        } + if cfg.bystander { 1000 } else { 0 };
        mint_to(&mut db, base_mint, payer_b, room.min(u64::MAX as u128) as u64, cfg.base);

        World {
            cfg: cfg.clone(),
            creator,
            payer,
            rent_recv,
            base_key,
            base_mint,
            quote_mint,
            presale,
            base_vault: base_vault_pda(&presale),
            quote_vault: quote_vault_pda(&presale),
            owners,
            wq,
            wb,
            creator_q,
            creator_b,
            creator_fee_q,
            slots: vec![],
            operator: operator_pda(&creator, &op_owner),
            op_owner,
            merkle: merkle_pda(&presale, 0),
            hook_counter: hook_counter_key(),
            init: InitResult::Ok,
            db,
        }
    }

    pub fn build(cfg: &Cfg) -> World {
        let mut w = World::bare(cfg);
        let (creator, payer, presale, op_owner) = (w.creator, w.payer, w.presale, w.op_owner);
        let payer_b = label("payer-b");
        let mut db = w.db.clone();
        let now = w.now(0);
        if cfg.args.mode == 0 {
            let ix = initialize_fixed_price_presale_args(fixed_args_pda(&presale), creator, payer, presale, cfg.dis_wd, cfg.q_price);
            match execute(&db, now, &ix) {
                Ok(o) => db = o.db,
                Err(e) => w.init = InitResult::Err(format!("fixed args: {e:?}")),
            }
        }
        match execute(&db, now, &w.init_ix()) {
            Ok(o) => db = o.db,
            Err(e) => {
                if let InitResult::Ok = w.init {
                    w.init = InitResult::Err(format!("init: {e:?}"));
                }
            }
        }
        let leaves: Vec<[u8; 32]> =
            cfg.slots.iter().map(|s| leaf(&w.owners[s.owner as usize], s.reg, s.cap)).collect();
        let proofs = if leaves.is_empty() { vec![] } else { ref_tree(&leaves).1 };
        for (i, s) in cfg.slots.iter().enumerate() {
            let owner = w.owners[s.owner as usize];
            w.slots.push(SlotKeys { owner, escrow: escrow_pda(&presale, &owner, s.reg), proof: proofs[i].clone() });
        }
        if let InitResult::Ok = w.init {
            if cfg.args.wl == 1 {
                let root = ref_tree(&leaves).0;
                let ix = create_merkle_root_config(presale, w.merkle, creator, root, 0);
                match execute(&db, now, &ix) {
                    Ok(o) => db = o.db,
                    Err(e) => w.init = InitResult::Err(format!("merkle root: {e:?}")),
                }
            }
            if cfg.args.wl == 2 {
                let ix = create_operator(w.operator, op_owner, creator);
                match execute(&db, now, &ix) {
                    Ok(o) => db = o.db,
                    Err(e) => w.init = InitResult::Err(format!("operator: {e:?}")),
                }
            }
        }
        if cfg.bystander {
            w.add_bystander(&mut db, payer_b);
        }
        w.db = db;
        w
    }

    pub fn init_ix(&self) -> Instruction {
        let cfg = &self.cfg;
        let accs = InitAccs {
            base_mint: self.base_mint,
            presale: self.presale,
            quote_mint: self.quote_mint,
            base_vault: self.base_vault,
            quote_vault: self.quote_vault,
            payer_base: label("payer-b"),
            creator: self.creator,
            base: self.base_key,
            payer: self.payer,
            base_prog: cfg.base.program(),
            quote_prog: cfg.quote.program(),
        };
        let mut extra = vec![];
        if cfg.args.mode == 0 {
            extra.push(meta(fixed_args_pda(&self.presale), false, false));
        }
        let (sl, ex) = hook_args(cfg.base, 0, &self.base_mint, [accs.payer_base, self.base_vault, self.payer]);
        extra.extend(ex);
        initialize_presale(&accs, &cfg.args, &sl, extra)
    }

    pub fn bystander_keys(&self) -> Bystander {
        let base_key = label("bystander-base");
        let presale = presale_pda(&base_key, &self.base_mint, &self.quote_mint);
        Bystander {
            base_key,
            presale,
            base_vault: base_vault_pda(&presale),
            quote_vault: quote_vault_pda(&presale),
            escrows: (0..self.owners.len()).map(|i| escrow_pda(&presale, &self.owners[i], 0)).collect(),
        }
    }

    /// A second presale with the same creator, mints and participants, already holding deposits.
    fn add_bystander(&self, db: &mut Db, payer_b: Pubkey) {
        let by = self.bystander_keys();
        let now = self.now(0);
        let accs = InitAccs {
            base_mint: self.base_mint,
            presale: by.presale,
            quote_mint: self.quote_mint,
            base_vault: by.base_vault,
            quote_vault: by.quote_vault,
            payer_base: payer_b,
            creator: self.creator,
            base: by.base_key,
            payer: self.payer,
            base_prog: self.cfg.base.program(),
            quote_prog: self.cfg.quote.program(),
        };
        db.fund(by.base_key, 1_000_000_000);
        let args = InitArgs {
            max_cap: 1000,
            min_cap: 1,
            start: now.ts as u64,
            end: self.cfg.args.end.max(now.ts as u64 + 100),
            wl: 0,
            mode: 1,
            unsold: 0,
            disable_early: 0,
            vest: VestArgs::default(),
            regs: vec![RegArgs { min: 1, max: 1000, supply: if self.cfg.base == Tok::RichHook { RICH_MAX } else { 900 }, bps: 100 }],
        };
        let (sl, ex) = hook_args(self.cfg.base, 0, &self.base_mint, [accs.payer_base, by.base_vault, self.payer]);
        let Ok(o) = execute(db, now, &initialize_presale(&accs, &args, &sl, ex)) else { return };
        *db = o.db;
        for (i, o) in self.owners.iter().enumerate() {
            let tmp = label(&format!("bywq{i}"));
            make_token_account(db, tmp, self.quote_mint, *o, self.cfg.quote);
            mint_to(db, self.quote_mint, tmp, 500, self.cfg.quote);
            let Ok(r) = execute(db, now, &create_permissionless_escrow(by.presale, by.escrows[i], *o, self.payer)) else { return };
            *db = r.db;
            let (sl, ex) = hook_args(self.cfg.quote, 1, &self.quote_mint, [tmp, by.quote_vault, *o]);
            let ix = deposit(
                &DepositAccs {
                    presale: by.presale,
                    quote_vault: by.quote_vault,
                    quote_mint: self.quote_mint,
                    escrow: by.escrows[i],
                    payer_quote: tmp,
                    payer: *o,
                    token_program: self.cfg.quote.program(),
                },
                37 + i as u64,
                &sl,
                ex,
            );
            let Ok(r) = execute(db, now, &ix) else { return };
            *db = r.db;
        }
    }

    pub fn create_ix(&self, u: usize) -> Instruction {
        let s = &self.cfg.slots[u];
        let k = &self.slots[u];
        match self.cfg.args.wl {
            0 => create_permissionless_escrow(self.presale, k.escrow, k.owner, self.payer),
            1 => create_permissioned_escrow_with_merkle_proof(
                self.presale, k.escrow, k.owner, self.merkle, self.payer, &k.proof, s.reg, s.cap,
            ),
            _ => create_permissioned_escrow_with_creator(
                self.presale, k.escrow, k.owner, self.operator, self.op_owner, self.payer, s.reg, s.cap,
            ),
        }
    }

    pub fn payout_accs(&self, u: usize, quote: bool) -> PayoutAccs {
        let o = self.cfg.slots[u].owner as usize;
        PayoutAccs {
            presale: self.presale,
            vault: if quote { self.quote_vault } else { self.base_vault },
            mint: if quote { self.quote_mint } else { self.base_mint },
            authority: authority(),
            escrow: self.slots[u].escrow,
            owner_token: if quote { self.wq[o] } else { self.wb[o] },
            owner: self.owners[o],
            token_program: if quote { self.cfg.quote.program() } else { self.cfg.base.program() },
        }
    }

    /// The instruction for `op`; `ended_ok` selects the vault named by creator_withdraw
    /// (true: completed presale, quote vault; false: failed presale, base vault).
    pub fn ix(&self, op: Op, ended_ok: bool) -> Instruction {
        let c = &self.cfg;
        let qh = |from, to, by| hook_args(c.quote, 1, &self.quote_mint, [from, to, by]);
        let bh = |from, to, by| hook_args(c.base, 0, &self.base_mint, [from, to, by]);
        match op {
            Op::Create(u) => self.create_ix(u as usize),
            Op::Deposit(u, amt, p) => {
                let (sl, ex) = qh(self.wq[p as usize], self.quote_vault, self.owners[p as usize]);
                deposit(
                    &DepositAccs {
                        presale: self.presale,
                        quote_vault: self.quote_vault,
                        quote_mint: self.quote_mint,
                        escrow: self.slots[u as usize].escrow,
                        payer_quote: self.wq[p as usize],
                        payer: self.owners[p as usize],
                        token_program: c.quote.program(),
                    },
                    amt,
                    &sl,
                    ex,
                )
            }
            Op::Withdraw(u, amt) => {
                let (sl, ex) = qh(self.quote_vault, self.payout_accs(u as usize, true).owner_token, authority());
                withdraw(&self.payout_accs(u as usize, true), amt, &sl, ex)
            }
            Op::Claim(u) => {
                let (sl, ex) = bh(self.base_vault, self.payout_accs(u as usize, false).owner_token, authority());
                claim(&self.payout_accs(u as usize, false), &sl, ex)
            }
            Op::Donate(..) => unreachable!(),
            Op::Refresh(u) => refresh_escrow(self.presale, self.slots[u as usize].escrow),
            Op::Remaining(u) => {
                let (sl, ex) = qh(self.quote_vault, self.payout_accs(u as usize, true).owner_token, authority());
                withdraw_remaining_quote(&self.payout_accs(u as usize, true), &sl, ex)
            }
            Op::Close(u) => {
                let k = &self.slots[u as usize];
                close_escrow(self.presale, k.escrow, k.owner, self.rent_to(u as usize))
            }
            Op::CreatorWithdraw => {
                let (sl, ex) = if ended_ok { qh(self.quote_vault, self.creator_q, authority()) } else { bh(self.base_vault, self.creator_b, authority()) };
                creator_withdraw(
                    &CreatorWithdrawAccs {
                        presale: self.presale,
                        authority: authority(),
                        owner_token: if ended_ok { self.creator_q } else { self.creator_b },
                        owner: self.creator,
                        token_program: if ended_ok { c.quote.program() } else { c.base.program() },
                        vault: if ended_ok { self.quote_vault } else { self.base_vault },
                        mint: if ended_ok { self.quote_mint } else { self.base_mint },
                    },
                    &sl,
                    ex,
                )
            }
            Op::CollectFee => {
                let (sl, ex) = qh(self.quote_vault, self.creator_fee_q, authority());
                creator_collect_fee(
                    &CollectFeeAccs {
                        presale: self.presale,
                        authority: authority(),
                        quote_vault: self.quote_vault,
                        quote_mint: self.quote_mint,
                        fee_recv: self.creator_fee_q,
                        owner: self.creator,
                        token_program: c.quote.program(),
                    },
                    &sl,
                    ex,
                )
            }
            Op::Unsold => {
                let (sl, ex) = bh(self.base_vault, self.creator_b, authority());
                perform_unsold_base_token_action(
                    &UnsoldAccs {
                        presale: self.presale,
                        base_vault: self.base_vault,
                        base_mint: self.base_mint,
                        authority: authority(),
                        creator_base: self.creator_b,
                        token_program: c.base.program(),
                    },
                    &sl,
                    ex,
                )
            }
            Op::Tick => unreachable!(),
        }
    }

    pub fn presale_view(&self, db: &Db) -> Option<PresaleView> {
        let a = db.get(&self.presale)?;
        if a.owner != presale::ID {
            return None;
        }
        abi::presale_view(&a.data)
    }
    pub fn escrow_view(&self, db: &Db, u: usize) -> Option<EscrowView> {
        let a = db.get(&self.slots[u].escrow)?;
        if a.owner != presale::ID {
            return None;
        }
        abi::escrow_view(&a.data)
    }
}

pub struct Bystander {
    pub base_key: Pubkey,
    pub presale: Pubkey,
    pub base_vault: Pubkey,
    pub quote_vault: Pubkey,
    pub escrows: Vec<Pubkey>,
}

pub fn hook_args(tok: Tok, ty: u8, mint: &Pubkey, parties: [Pubkey; 3]) -> (Slices, Vec<AccountMeta>) {
    if tok.has_hook() {
        let ex = hook_extra(tok, mint, parties);
        (vec![(ty, ex.len() as u8)], ex)
    } else {
        (vec![], vec![])
    }
}

pub fn exec(db: &Db, now: Now, ix: &Instruction) -> Result<ExecOk, ExecErr> {
    svm::execute(db, now, ix)
}

#[allow(dead_code)]
fn _unused(_: COption<u8>) {}
