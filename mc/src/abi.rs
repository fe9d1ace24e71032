//! The on-chain interface of the presale program as clients see it: instruction encodings, PDA
//! seeds, account byte layouts and event encodings. Deliberately written against the published
//! byte-level interface and not against the program's Rust types, so that internal refactorings
//! do not touch it.

use crate::svm::{meta, ATA_ID, MEMO_ID, SYSTEM_ID};
use solana_program::{
    hash::hashv,
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
};

pub fn pid() -> Pubkey {
    presale::ID
}

pub fn label(s: &str) -> Pubkey {
    Pubkey::new_from_array(hashv(&[b"mc-key", s.as_bytes()]).to_bytes())
}

type Discs = std::cell::RefCell<std::collections::HashMap<&'static str, [u8; 8]>>;
thread_local! {
    static D_IX: Discs = Discs::default();
    static D_ACC: Discs = Discs::default();
    static D_EVT: Discs = Discs::default();
}
fn cached(t: &'static std::thread::LocalKey<Discs>, pre: &[u8], name: &'static str) -> [u8; 8] {
    t.with(|m| {
        *m.borrow_mut()
            .entry(name)
            .or_insert_with(|| hashv(&[pre, name.as_bytes()]).to_bytes()[..8].try_into().unwrap())
    })
}
pub fn disc(name: &'static str) -> [u8; 8] {
    cached(&D_IX, b"global:", name)
}
pub fn acc_disc(name: &'static str) -> [u8; 8] {
    cached(&D_ACC, b"account:", name)
}
pub fn evt_disc(name: &'static str) -> [u8; 8] {
    cached(&D_EVT, b"event:", name)
}
pub const EVENT_IX_TAG_LE: [u8; 8] = 0x1d9acb512ea545e4u64.to_le_bytes();

pub fn pda(seeds: &[&[u8]]) -> Pubkey {
    Pubkey::find_program_address(seeds, &pid()).0
}
pub fn authority() -> Pubkey {
    thread_local!(static A: Pubkey = pda(&[b"presale_authority"]));
    A.with(|a| *a)
}
pub fn event_authority() -> Pubkey {
    thread_local!(static A: Pubkey = pda(&[b"__event_authority"]));
    A.with(|a| *a)
}
pub fn presale_pda(base: &Pubkey, base_mint: &Pubkey, quote_mint: &Pubkey) -> Pubkey {
    pda(&[b"presale", base.as_ref(), base_mint.as_ref(), quote_mint.as_ref()])
}
pub fn base_vault_pda(p: &Pubkey) -> Pubkey {
    pda(&[b"base_vault", p.as_ref()])
}
pub fn quote_vault_pda(p: &Pubkey) -> Pubkey {
    pda(&[b"quote_vault", p.as_ref()])
}
pub fn fixed_args_pda(p: &Pubkey) -> Pubkey {
    pda(&[b"fixed_price_param", p.as_ref()])
}
pub fn escrow_pda(p: &Pubkey, owner: &Pubkey, reg: u8) -> Pubkey {
    pda(&[b"escrow", p.as_ref(), owner.as_ref(), &[reg]])
}
pub fn merkle_pda(p: &Pubkey, version: u64) -> Pubkey {
    pda(&[b"merkle_root", p.as_ref(), &version.to_le_bytes()])
}
pub fn operator_pda(creator: &Pubkey, op_owner: &Pubkey) -> Pubkey {
    pda(&[b"operator", creator.as_ref(), op_owner.as_ref()])
}
pub fn metadata_pda(p: &Pubkey) -> Pubkey {
    pda(&[b"server_metadata", p.as_ref()])
}
pub fn ata(owner: &Pubkey, token_program: &Pubkey, mint: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[owner.as_ref(), token_program.as_ref(), mint.as_ref()], &ATA_ID).0
}

fn ix(name: &'static str, mut accounts: Vec<AccountMeta>, args: Vec<u8>, extra: Vec<AccountMeta>) -> Instruction {
    accounts.push(meta(event_authority(), false, false));
    accounts.push(meta(pid(), false, false));
    accounts.extend(extra);
    let mut data = disc(name).to_vec();
    data.extend(args);
    Instruction { program_id: pid(), accounts, data }
}

/// Remaining-accounts descriptor: (type, length); type 0 = base transfer hook, 1 = quote.
pub type Slices = Vec<(u8, u8)>;
fn enc_slices(s: &Slices, out: &mut Vec<u8>) {
    out.extend((s.len() as u32).to_le_bytes());
    for (t, l) in s {
        out.push(*t);
        out.push(*l);
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RegArgs {
    pub min: u64,
    pub max: u64,
    pub supply: u64,
    pub bps: u16,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct VestArgs {
    pub bps: u16,
    pub lock: u64,
    pub vest: u64,
    pub imm_ts: u64,
    /// a non-zero reserved byte makes an otherwise all-zero block "present"
    pub pad: u8,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct InitArgs {
    pub max_cap: u64,
    pub min_cap: u64,
    pub start: u64,
    pub end: u64,
    pub wl: u8,
    pub mode: u8,
    pub unsold: u8,
    pub disable_early: u8,
    pub vest: VestArgs,
    pub regs: Vec<RegArgs>,
}

impl InitArgs {
    pub fn enc(&self, out: &mut Vec<u8>) {
        for v in [self.max_cap, self.min_cap, self.start, self.end] {
            out.extend(v.to_le_bytes());
        }
        out.extend([self.wl, self.mode, self.unsold, self.disable_early]);
        out.extend([0u8; 30]);
        out.extend(self.vest.bps.to_le_bytes());
        out.extend(self.vest.lock.to_le_bytes());
        out.extend(self.vest.vest.to_le_bytes());
        out.extend(self.vest.imm_ts.to_le_bytes());
        let mut pad = [0u8; 24];
        pad[0] = self.vest.pad;
        out.extend(pad);
        out.extend([0u8; 32]);
        out.extend((self.regs.len() as u32).to_le_bytes());
        for r in &self.regs {
            out.extend(r.min.to_le_bytes());
            out.extend(r.max.to_le_bytes());
            out.extend(r.supply.to_le_bytes());
            out.extend(r.bps.to_le_bytes());
            out.extend([0u8; 32]);
        }
    }
}

pub struct InitAccs {
    pub base_mint: Pubkey,
    pub presale: Pubkey,
    pub quote_mint: Pubkey,
    pub base_vault: Pubkey,
    pub quote_vault: Pubkey,
    pub payer_base: Pubkey,
    pub creator: Pubkey,
    pub base: Pubkey,
    pub payer: Pubkey,
    pub base_prog: Pubkey,
    pub quote_prog: Pubkey,
}

pub fn initialize_presale(a: &InitAccs, args: &InitArgs, sl: &Slices, extra: Vec<AccountMeta>) -> Instruction {
    let mut d = vec![];
    args.enc(&mut d);
    enc_slices(sl, &mut d);
    ix(
        "initialize_presale",
        vec![
            meta(a.base_mint, false, false),
            meta(a.presale, false, true),
            meta(authority(), false, false),
            meta(a.quote_mint, false, false),
            meta(a.base_vault, false, true),
            meta(a.quote_vault, false, true),
            meta(a.payer_base, false, true),
            meta(a.creator, false, false),
            meta(a.base, true, false),
            meta(a.payer, true, true),
            meta(a.base_prog, false, false),
            meta(a.quote_prog, false, false),
            meta(SYSTEM_ID, false, false),
        ],
        d,
        extra,
    )
}

pub fn initialize_fixed_price_presale_args(
    params: Pubkey, owner: Pubkey, payer: Pubkey, presale: Pubkey, disable_withdraw: u8, q_price: u128,
) -> Instruction {
    let mut d = presale.to_bytes().to_vec();
    d.push(disable_withdraw);
    d.extend(q_price.to_le_bytes());
    d.extend([0u8; 64]);
    ix(
        "initialize_fixed_price_presale_args",
        vec![
            meta(params, false, true),
            meta(owner, false, false),
            meta(payer, true, true),
            meta(SYSTEM_ID, false, false),
        ],
        d,
        vec![],
    )
}

pub fn close_fixed_price_presale_args(params: Pubkey, owner: Pubkey) -> Instruction {
    ix("close_fixed_price_presale_args", vec![meta(params, false, true), meta(owner, true, true)], vec![], vec![])
}

pub fn create_merkle_root_config(presale: Pubkey, cfg: Pubkey, creator: Pubkey, root: [u8; 32], version: u64) -> Instruction {
    let mut d = root.to_vec();
    d.extend(version.to_le_bytes());
    ix(
        "create_merkle_root_config",
        vec![
            meta(presale, false, false),
            meta(cfg, false, true),
            meta(creator, true, true),
            meta(SYSTEM_ID, false, false),
        ],
        d,
        vec![],
    )
}

pub fn close_merkle_root_config(presale: Pubkey, cfg: Pubkey, rent_receiver: Pubkey, creator: Pubkey) -> Instruction {
    ix(
        "close_merkle_root_config",
        vec![
            meta(presale, false, false),
            meta(cfg, false, true),
            meta(rent_receiver, false, true),
            meta(creator, true, false),
        ],
        vec![],
        vec![],
    )
}

pub fn create_permissionless_escrow(presale: Pubkey, escrow: Pubkey, owner: Pubkey, payer: Pubkey) -> Instruction {
    ix(
        "create_permissionless_escrow",
        vec![
            meta(presale, false, true),
            meta(escrow, false, true),
            meta(owner, false, false),
            meta(payer, true, true),
            meta(SYSTEM_ID, false, false),
        ],
        vec![],
        vec![],
    )
}

#[allow(clippy::too_many_arguments)]
pub fn create_permissioned_escrow_with_creator(
    presale: Pubkey, escrow: Pubkey, owner: Pubkey, operator: Pubkey, operator_owner: Pubkey, payer: Pubkey, reg: u8, cap: u64,
) -> Instruction {
    let mut d = vec![reg];
    d.extend(cap.to_le_bytes());
    d.extend([0u8; 32]);
    ix(
        "create_permissioned_escrow_with_creator",
        vec![
            meta(presale, false, true),
            meta(escrow, false, true),
            meta(owner, false, false),
            meta(operator, false, false),
            meta(operator_owner, true, false),
            meta(payer, true, true),
            meta(SYSTEM_ID, false, false),
        ],
        d,
        vec![],
    )
}

#[allow(clippy::too_many_arguments)]
pub fn create_permissioned_escrow_with_merkle_proof(
    presale: Pubkey, escrow: Pubkey, owner: Pubkey, merkle: Pubkey, payer: Pubkey, proof: &[[u8; 32]], reg: u8, cap: u64,
) -> Instruction {
    let mut d = (proof.len() as u32).to_le_bytes().to_vec();
    for p in proof {
        d.extend(p);
    }
    d.push(reg);
    d.extend(cap.to_le_bytes());
    d.extend([0u8; 32]);
    ix(
        "create_permissioned_escrow_with_merkle_proof",
        vec![
            meta(presale, false, true),
            meta(escrow, false, true),
            meta(owner, false, false),
            meta(merkle, false, false),
            meta(payer, true, true),
            meta(SYSTEM_ID, false, false),
        ],
        d,
        vec![],
    )
}

pub fn create_operator(operator: Pubkey, operator_owner: Pubkey, creator: Pubkey) -> Instruction {
    ix(
        "create_operator",
        vec![
            meta(operator, false, true),
            meta(operator_owner, false, false),
            meta(creator, true, true),
            meta(SYSTEM_ID, false, false),
        ],
        vec![],
        vec![],
    )
}
pub fn revoke_operator(operator: Pubkey, creator: Pubkey) -> Instruction {
    ix("revoke_operator", vec![meta(operator, false, true), meta(creator, true, true)], vec![], vec![])
}

pub struct DepositAccs {
    pub presale: Pubkey,
    pub quote_vault: Pubkey,
    pub quote_mint: Pubkey,
    pub escrow: Pubkey,
    pub payer_quote: Pubkey,
    pub payer: Pubkey,
    pub token_program: Pubkey,
}
pub fn deposit(a: &DepositAccs, max_amount: u64, sl: &Slices, extra: Vec<AccountMeta>) -> Instruction {
    let mut d = max_amount.to_le_bytes().to_vec();
    enc_slices(sl, &mut d);
    ix(
        "deposit",
        vec![
            meta(a.presale, false, true),
            meta(a.quote_vault, false, true),
            meta(a.quote_mint, false, false),
            meta(a.escrow, false, true),
            meta(a.payer_quote, false, true),
            meta(a.payer, true, false),
            meta(a.token_program, false, false),
        ],
        d,
        extra,
    )
}

/// Accounts of the escrow-owner payout instructions (withdraw, claim, withdraw_remaining_quote).
pub struct PayoutAccs {
    pub presale: Pubkey,
    pub vault: Pubkey,
    pub mint: Pubkey,
    pub authority: Pubkey,
    pub escrow: Pubkey,
    pub owner_token: Pubkey,
    pub owner: Pubkey,
    pub token_program: Pubkey,
}
fn payout(name: &'static str, a: &PayoutAccs, args: Vec<u8>, extra: Vec<AccountMeta>) -> Instruction {
    ix(
        name,
        vec![
            meta(a.presale, false, true),
            meta(a.vault, false, true),
            meta(a.mint, false, false),
            meta(a.authority, false, false),
            meta(a.escrow, false, true),
            meta(a.owner_token, false, true),
            meta(a.owner, true, false),
            meta(a.token_program, false, false),
            meta(MEMO_ID, false, false),
        ],
        args,
        extra,
    )
}
pub fn withdraw(a: &PayoutAccs, amount: u64, sl: &Slices, extra: Vec<AccountMeta>) -> Instruction {
    let mut d = amount.to_le_bytes().to_vec();
    enc_slices(sl, &mut d);
    payout("withdraw", a, d, extra)
}
pub fn claim(a: &PayoutAccs, sl: &Slices, extra: Vec<AccountMeta>) -> Instruction {
    let mut d = vec![];
    enc_slices(sl, &mut d);
    payout("claim", a, d, extra)
}
pub fn withdraw_remaining_quote(a: &PayoutAccs, sl: &Slices, extra: Vec<AccountMeta>) -> Instruction {
    let mut d = vec![];
    enc_slices(sl, &mut d);
    payout("withdraw_remaining_quote", a, d, extra)
}

pub struct UnsoldAccs {
    pub presale: Pubkey,
    pub base_vault: Pubkey,
    pub base_mint: Pubkey,
    pub authority: Pubkey,
    pub creator_base: Pubkey,
    pub token_program: Pubkey,
}
pub fn perform_unsold_base_token_action(a: &UnsoldAccs, sl: &Slices, extra: Vec<AccountMeta>) -> Instruction {
    let mut d = vec![];
    enc_slices(sl, &mut d);
    ix(
        "perform_unsold_base_token_action",
        vec![
            meta(a.presale, false, true),
            meta(a.base_vault, false, true),
            meta(a.base_mint, false, true),
            meta(a.authority, false, false),
            meta(a.creator_base, false, true),
            meta(a.token_program, false, false),
            meta(MEMO_ID, false, false),
        ],
        d,
        extra,
    )
}

pub fn close_escrow(presale: Pubkey, escrow: Pubkey, owner: Pubkey, rent_receiver: Pubkey) -> Instruction {
    ix(
        "close_escrow",
        vec![
            meta(presale, false, true),
            meta(escrow, false, true),
            meta(owner, true, false),
            meta(rent_receiver, false, true),
        ],
        vec![],
        vec![],
    )
}

pub fn refresh_escrow(presale: Pubkey, escrow: Pubkey) -> Instruction {
    ix("refresh_escrow", vec![meta(presale, false, false), meta(escrow, false, true)], vec![], vec![])
}

pub struct CreatorWithdrawAccs {
    pub presale: Pubkey,
    pub authority: Pubkey,
    pub owner_token: Pubkey,
    pub owner: Pubkey,
    pub token_program: Pubkey,
    pub vault: Pubkey,
    pub mint: Pubkey,
}
pub fn creator_withdraw(a: &CreatorWithdrawAccs, sl: &Slices, extra: Vec<AccountMeta>) -> Instruction {
    let mut d = vec![];
    enc_slices(sl, &mut d);
    let mut ex = vec![meta(a.vault, false, true), meta(a.mint, false, false)];
    ex.extend(extra);
    ix(
        "creator_withdraw",
        vec![
            meta(a.presale, false, true),
            meta(a.authority, false, false),
            meta(a.owner_token, false, true),
            meta(a.owner, true, false),
            meta(a.token_program, false, false),
            meta(MEMO_ID, false, false),
        ],
        d,
        ex,
    )
}

pub struct CollectFeeAccs {
    pub presale: Pubkey,
    pub authority: Pubkey,
    pub quote_vault: Pubkey,
    pub quote_mint: Pubkey,
    pub fee_recv: Pubkey,
    pub owner: Pubkey,
    pub token_program: Pubkey,
}
pub fn creator_collect_fee(a: &CollectFeeAccs, sl: &Slices, extra: Vec<AccountMeta>) -> Instruction {
    let mut d = vec![];
    enc_slices(sl, &mut d);
    ix(
        "creator_collect_fee",
        vec![
            meta(a.presale, false, true),
            meta(a.authority, false, false),
            meta(a.quote_vault, false, true),
            meta(a.quote_mint, false, false),
            meta(a.fee_recv, false, true),
            meta(a.owner, true, false),
            meta(a.token_program, false, false),
            meta(MEMO_ID, false, false),
        ],
        d,
        extra,
    )
}

pub fn create_permissioned_server_metadata(presale: Pubkey, md: Pubkey, owner: Pubkey, url: &str) -> Instruction {
    let mut d = (url.len() as u32).to_le_bytes().to_vec();
    d.extend(url.as_bytes());
    ix(
        "create_permissioned_server_metadata",
        vec![
            meta(presale, false, false),
            meta(md, false, true),
            meta(owner, true, true),
            meta(SYSTEM_ID, false, false),
        ],
        d,
        vec![],
    )
}
pub fn close_permissioned_server_metadata(presale: Pubkey, md: Pubkey, rent_receiver: Pubkey, owner: Pubkey) -> Instruction {
    ix(
        "close_permissioned_server_metadata",
        vec![
            meta(presale, false, false),
            meta(md, false, true),
            meta(rent_receiver, false, true),
            meta(owner, true, false),
        ],
        vec![],
        vec![],
    )
}

// ---------------------------------------------------------------- account views

fn r64(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
fn rk(d: &[u8], o: usize) -> Pubkey {
    Pubkey::new_from_array(d[o..o + 32].try_into().unwrap())
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct RegView {
    pub supply: u64,
    pub total_deposit: u64,
    pub total_escrow: u64,
    pub claimed: u64,
    pub refunded: u64,
    pub min: u64,
    pub max: u64,
    pub fee: u64,
    pub bps: u16,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PresaleView {
    pub owner: Pubkey,
    pub quote_mint: Pubkey,
    pub base_mint: Pubkey,
    pub base_vault: Pubkey,
    pub quote_vault: Pubkey,
    pub base: Pubkey,
    pub mode: u8,
    pub wl: u8,
    pub max_cap: u64,
    pub min_cap: u64,
    pub start: u64,
    pub end: u64,
    pub supply: u64,
    pub total_deposit: u64,
    pub total_escrow: u64,
    pub created_at: u64,
    pub lock: u64,
    pub vest: u64,
    pub imm_ts: u64,
    pub vest_start: u64,
    pub vest_end: u64,
    pub claimed: u64,
    pub refunded: u64,
    pub fee: u64,
    pub fee_collected: u8,
    pub creator_withdrawn: u8,
    pub base_flag: u8,
    pub quote_flag: u8,
    pub reg_count: u8,
    pub unsold: u8,
    pub unsold_done: u8,
    pub imm_bps: u16,
    pub raw: [u8; 48],
    pub regs: Vec<RegView>,
}

pub fn presale_view(d: &[u8]) -> Option<PresaleView> {
    if d.len() != 8 + 1264 || d[..8] != acc_disc("Presale") {
        return None;
    }
    let d = &d[8..];
    Some(PresaleView {
        owner: rk(d, 0),
        quote_mint: rk(d, 32),
        base_mint: rk(d, 64),
        base_vault: rk(d, 96),
        quote_vault: rk(d, 128),
        base: rk(d, 160),
        mode: d[193],
        wl: d[194],
        max_cap: r64(d, 200),
        min_cap: r64(d, 208),
        start: r64(d, 216),
        end: r64(d, 224),
        supply: r64(d, 232),
        total_deposit: r64(d, 240),
        total_escrow: r64(d, 248),
        created_at: r64(d, 256),
        lock: r64(d, 264),
        vest: r64(d, 272),
        imm_ts: r64(d, 280),
        vest_start: r64(d, 296),
        vest_end: r64(d, 304),
        claimed: r64(d, 312),
        refunded: r64(d, 320),
        fee: r64(d, 328),
        fee_collected: d[336],
        creator_withdrawn: d[344],
        base_flag: d[345],
        quote_flag: d[346],
        reg_count: d[347],
        unsold: d[348],
        unsold_done: d[349],
        imm_bps: u16::from_le_bytes(d[350..352].try_into().unwrap()),
        raw: d[352..400].try_into().unwrap(),
        regs: (0..5)
            .map(|i| {
                let o = 464 + i * 160;
                RegView {
                    supply: r64(d, o),
                    total_deposit: r64(d, o + 8),
                    total_escrow: r64(d, o + 16),
                    claimed: r64(d, o + 24),
                    refunded: r64(d, o + 32),
                    min: r64(d, o + 40),
                    max: r64(d, o + 48),
                    fee: r64(d, o + 56),
                    bps: u16::from_le_bytes(d[o + 64..o + 66].try_into().unwrap()),
                }
            })
            .collect(),
    })
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct EscrowView {
    pub presale: Pubkey,
    pub owner: Pubkey,
    pub dep: u64,
    pub claimed: u64,
    pub refunded: u8,
    pub reg: u8,
    pub pending: u64,
    pub cap: u64,
    pub created_at: u64,
    pub fee: u64,
    pub refreshed_at: u64,
}

pub fn escrow_view(d: &[u8]) -> Option<EscrowView> {
    if d.len() != 8 + 192 || d[..8] != acc_disc("Escrow") {
        return None;
    }
    let d = &d[8..];
    Some(EscrowView {
        presale: rk(d, 0),
        owner: rk(d, 32),
        dep: r64(d, 64),
        claimed: r64(d, 72),
        refunded: d[80],
        reg: d[81],
        pending: r64(d, 88),
        cap: r64(d, 96),
        created_at: r64(d, 104),
        fee: r64(d, 112),
        refreshed_at: r64(d, 120),
    })
}
