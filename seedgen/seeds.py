"""Planted bugs: what each changes, why it matters, and the history that shows it."""
P = 'programs/presale/src/'
I = P + 'instructions/'
H = P + 'presale_mode_handler/'
SEEDS = []


def seed(id, prop, edits, needs, breaks, body):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, body=body))


seed('fee-pooled', 'P15', [(P + 'state/presale.rs', '''                let mut total_fee: u64 = 0;

                for registry in self.presale_registries.iter() {
                    // We can early break because registries are ordered from initialized -> uninitialized
                    if registry.is_uninitialized() {
                        break;
                    }

                    let RemainingQuote { refund_fee, .. } = registry
                        .get_finalized_presale_remaining_quote(
                            presale_remaining_quote,
                            self.total_deposit,
                        )?;

                    let registry_collected_fee = registry.total_deposit_fee.safe_sub(refund_fee)?;
                    total_fee = total_fee.safe_add(registry_collected_fee)?;
                }

                Ok(total_fee)
''', '''                if self.total_deposit == 0 {
                    return Ok(self.total_deposit_fee);
                }

                let refund_fee: u64 = u128::from(self.total_deposit_fee)
                    .safe_mul(presale_remaining_quote.into())?
                    .safe_div(self.total_deposit.into())?
                    .safe_cast()?;

                Ok(self.total_deposit_fee.safe_sub(refund_fee)?)
''')],
     'an oversubscribed pro-rata sale with several registries, one of which holds fees but no deposits any more because its participant withdrew',
     'the collectable fee is computed on pooled totals, so the creator is left short of fees that nobody can be refunded',
     '''
    let mut c = plain(PRORATA);
    c.args.wl = 2;
    c.args.regs = vec![reg(1, 100, 1000, 0), reg(1, 100, 1000, 5000)];
    c.slots = vec![slot(0, 0, 100), slot(1, 0, 100), slot(0, 1, 100)];
    let mut s = S::new(&c);
    for u in 0..3 {
        s.run(Op::Create(u));
    }
    s.run(Op::Deposit(2, 100, 0));
    s.run(Op::Withdraw(2, 100));
    s.run(Op::Deposit(0, 100, 0));
    s.run(Op::Deposit(1, 100, 1));
    s.t = END;
    s.run(Op::CollectFee);
    assert_eq!(s.db.tok(&s.w.creator_fee_q), 100);
''')

seed('unsold-by-positions', 'P14', [(H + 'mod.rs', '''        if registry.total_deposit == 0 {
            continue;
        }

        total_token_sold''', '''        if registry.total_escrow == 0 {
            continue;
        }

        total_token_sold''')],
     'a registry in which a position was opened but nothing was deposited (or all of whose positions were closed) when unsold tokens are disposed of',
     'an empty registry counts as sold, so its supply can never be returned or burned',
     '''
    let mut c = plain(FCFS);
    c.args.wl = 2;
    c.args.regs = vec![reg(1, 100, 1000, 0), reg(1, 100, 700, 0)];
    c.slots = vec![slot(0, 0, 100), slot(1, 1, 100)];
    let mut s = S::new(&c);
    s.run(Op::Create(0));
    s.run(Op::Create(1));
    s.run(Op::Deposit(0, 100, 0));
    s.run(Op::Unsold);
    assert_eq!(s.db.tok(&s.w.base_vault), 1000);
''')

seed('early-end-immediate', 'P07', [(P + 'state/presale.rs', '''            .saturating_sub(self.presale_end_time);

        self.presale_end_time = new''', '''            .saturating_sub(self.vesting_start_time);

        self.presale_end_time = new''')],
     'a sale with a lock and a late immediate release whose hard cap is reached before its announced end',
     'after an early end the immediate portion is released too early, by the length of the lock',
     '''
    let mut c = plain(FCFS);
    c.args.vest = vest(5000, 20, 20, END + 30);
    let mut s = S::new(&c);
    s.run(Op::Create(0));
    s.run(Op::Deposit(0, 100, 0));
    s.t = START + 19;
    s.run(Op::Claim(0));
    assert_eq!(s.base(0), 0);
    s.t = START + 30;
    s.run(Op::Claim(0));
    assert_eq!(s.base(0), 750);
''')

seed('stale-refresh', 'P12', [(H + 'mod.rs', '''    let presale_registry = presale.get_presale_registry(escrow.registry_index.into())?;
    let cumulative_escrow_claimable_token''', '''    // Already refreshed after everything was vested, nothing more to accumulate
    if presale.vesting_end_time > 0 && escrow.last_refreshed_at >= presale.vesting_end_time {
        return Ok(());
    }

    let presale_registry = presale.get_presale_registry(escrow.registry_index.into())?;
    let cumulative_escrow_claimable_token''')],
     'a position opened in the very second in which the sale fills its cap and ends early',
     'that position counts as already refreshed after the end, so its owner can never claim anything',
     '''
    let c = plain(FCFS);
    let mut s = S::new(&c);
    s.run(Op::Create(0));
    s.run(Op::Deposit(0, 60, 0));
    s.t = START + 5;
    s.run(Op::Create(1));
    s.run(Op::Deposit(1, 40, 1));
    s.t = END;
    s.run(Op::Claim(0));
    s.run(Op::Claim(1));
    assert_eq!((s.base(0), s.base(1)), (600, 400));
''')

seed('close-with-fee-refund', 'P22', [(I + 'process_close_escrow.rs', 'if refund_deposit_amount > 0 || refund_fee_amount > 0 {', 'if refund_deposit_amount > 0 {')],
     'an oversubscribed pro-rata sale in which a participant withdrew the whole deposit, so that only a fee refund is due',
     'a position can be closed although a fee refund is still due on it',
     '''
    let mut c = plain(PRORATA);
    c.args.regs[0].bps = 5000;
    c.wallets = vec![1000; 3];
    c.slots = vec![slot(0, 0, 0), slot(1, 0, 0), slot(2, 0, 0)];
    let mut s = S::new(&c);
    for u in 0..3 {
        s.run(Op::Create(u));
        s.run(Op::Deposit(u, 100, u));
    }
    s.run(Op::Withdraw(0, 100));
    s.t = END;
    s.refused(Op::Close(0));
    s.run(Op::Remaining(0));
    assert_eq!(s.quote(0), 1000 - 100 + 50);
    s.run(Op::Close(0));
''')

seed('withdraw-limit-order', 'P08', [(I + 'process_withdraw.rs', '''    presale_mode_handler.process_withdraw(&mut presale, &mut escrow, suggested_withdraw_amount)?;

    let presale_registry = presale.get_presale_registry(escrow.registry_index.into())?;
    presale_registry.validate_escrow_deposit(&escrow)?;
''', '''    let presale_registry = presale.get_presale_registry(escrow.registry_index.into())?;
    presale_registry.validate_escrow_deposit(&escrow)?;

    presale_mode_handler.process_withdraw(&mut presale, &mut escrow, suggested_withdraw_amount)?;
''')],
     'a partial withdrawal that leaves less than the registry minimum in the position',
     'the limits are checked before instead of after the withdrawal, so a position can fall between zero and the minimum',
     '''
    let mut c = plain(PRORATA);
    c.args.regs[0].min = 10;
    let mut s = S::new(&c);
    s.run(Op::Create(0));
    s.run(Op::Deposit(0, 20, 0));
    s.refused(Op::Withdraw(0, 15));
    s.run(Op::Withdraw(0, 10));
    s.run(Op::Withdraw(0, 10));
    assert_eq!(s.quote(0), 10_000);
''')

seed('leaf-without-cap', 'P17', [
    (I + 'create_escrow/process_create_permissioned_escrow_with_merkle_proof.rs', '''        registry_index.to_le_bytes().as_ref(),
        deposit_cap.to_le_bytes().as_ref(),
    ]);''', '''        registry_index.to_le_bytes().as_ref(),
    ]);'''),
    ('merkle-tree/src/tree_node.rs', '''            &self.registry_index.to_le_bytes(),
            &self.deposit_cap.to_le_bytes(),
''', '''            &self.registry_index.to_le_bytes(),
''')],
     'a whitelisted owner who asks for a larger cap than the listed one; program and tool were changed together, so honest use works',
     'the personal cap is no longer bound by the whitelist',
     '''
    let mut c = plain(FCFS);
    c.args.wl = 1;
    c.slots = vec![slot(0, 0, 20), slot(1, 0, 30)];
    let mut s = S::new(&c);
    let node = |i: usize, cap: u64| merkle_tree::tree_node::TreeNode { escrow_owner: s.w.owners[i], registry_index: 0, deposit_cap: cap, proof: None };
    let tree = merkle_tree::config_merkle_tree::ConfigMerkleTree::new(vec![node(0, 20), node(1, 30)], 7).unwrap();
    let proof = tree.get_node(&s.w.owners[0]).proof.unwrap();
    let cfg = merkle_pda(&s.w.presale, 7);
    let ix = create_merkle_root_config(s.w.presale, cfg, s.w.creator, tree.merkle_root, 7);
    assert!(s.try_ix(&ix));
    let open = |cap: u64| create_permissioned_escrow_with_merkle_proof(s.w.presale, s.w.slots[0].escrow, s.w.owners[0], cfg, s.w.payer, &proof, 0, cap);
    let (more, right) = (open(90), open(20));
    assert!(!s.try_ix(&more), "opened with a larger cap than listed");
    assert!(s.try_ix(&right));
''')

seed('self-appointed', 'P18', [(I + 'create_escrow/process_create_permissioned_escrow_with_creator.rs', '''        operator.creator == presale.owner,
''', '''        operator.creator == presale.owner || operator.creator == operator.owner,
''')],
     'an outsider who appoints himself operator of himself',
     'anyone can admit himself to an operator-whitelisted sale',
     '''
    let mut c = plain(FCFS);
    c.args.wl = 2;
    c.slots = vec![slot(0, 0, 20)];
    let mut s = S::new(&c);
    let a = label("attacker");
    let op = operator_pda(&a, &a);
    assert!(s.try_ix(&create_operator(op, a, a)));
    let ix = create_permissioned_escrow_with_creator(s.w.presale, escrow_pda(&s.w.presale, &a, 0), a, op, a, a, 0, 100);
    assert!(!s.try_ix(&ix), "an outsider's operator opened a position");
    s.run(Op::Create(0));
''')

seed('refund-crank', 'P16', [(I + 'process_withdraw_remaining_quote.rs', '''    pub owner: Signer<'info>,
''', '''    /// CHECK: Owner of the escrow, checked by has_one
    pub owner: UncheckedAccount<'info>,
''')],
     'somebody else submits the refund of a position, naming his own token account as the receiver',
     'a refund is paid without the signature of the position owner',
     '''
    let mut s = S::new(&plain(FCFS));
    s.run(Op::Create(0));
    s.run(Op::Deposit(0, 5, 0));
    s.t = END;
    let mut a = s.w.payout_accs(0, true);
    a.owner_token = s.w.wq[1];
    let mut ix = withdraw_remaining_quote(&a, &vec![], vec![]);
    for m in ix.accounts.iter_mut().filter(|m| m.pubkey == s.w.owners[0]) {
        m.is_signer = false;
    }
    assert!(!s.try_ix(&ix), "refunded without the owner's signature");
    s.run(Op::Remaining(0));
    assert_eq!(s.quote(0), 10_000);
''')

seed('future-transfer-fee', 'P23', [(P + 'token2022.rs', '''        let epoch = Clock::get()?.epoch;
        return Ok(Some(transfer_fee_config.get_epoch_fee(epoch).clone()));
''', '''        return Ok(Some(transfer_fee_config.newer_transfer_fee));
''')],
     'a quote mint with a transfer fee change scheduled for a later epoch',
     'the fee of a future epoch is applied, so the payer is charged more than what is credited',
     '''
    let mut c = plain(FCFS);
    c.quote = Tok::Fee { bps: 100, max: 1000, bps2: 900, max2: 1000, epoch2: 5 };
    let mut s = S::new(&c);
    s.run(Op::Create(0));
    s.run(Op::Deposit(0, 90, 0));
    assert_eq!(s.db.tok(&s.w.quote_vault), 90);
    assert_eq!(s.quote(0), 10_000 - 91);
''')

seed('deposit-fee-down', 'P05', [(P + 'state/presale_registry.rs', 'calculate_deposit_fee_included_amount(deposit_amount, self.deposit_fee_bps, Rounding::Up)', 'calculate_deposit_fee_included_amount(deposit_amount, self.deposit_fee_bps, Rounding::Down)')],
     'a deposit whose fee is not a whole number of units',
     'the deposit fee is one unit too small; small deposits pay no fee at all',
     '''
    let mut c = plain(FCFS);
    c.args.regs[0].bps = 700;
    let mut s = S::new(&c);
    s.run(Op::Create(0));
    s.run(Op::Deposit(0, 10, 0));
    assert_eq!(s.quote(0), 10_000 - 11);
    assert_eq!(s.esc(0).fee, 1);
''')

seed('failed-fee-of-empty', 'P09', [(P + 'state/presale.rs', '''                (escrow.total_deposit, escrow.total_deposit_fee)
''', '''                let refund_fee = if escrow.total_deposit > 0 {
                    escrow.total_deposit_fee
                } else {
                    0
                };
                (escrow.total_deposit, refund_fee)
''')],
     'a participant deposits, withdraws everything, and the sale fails afterwards',
     'the deposit fee of a fully withdrawn position is not returned by a failed sale',
     '''
    let mut c = plain(PRORATA);
    c.args.regs[0].bps = 5000;
    let mut s = S::new(&c);
    s.run(Op::Create(0));
    s.run(Op::Deposit(0, 50, 0));
    s.run(Op::Withdraw(0, 50));
    assert_eq!(s.quote(0), 10_000 - 50);
    s.t = END;
    s.run(Op::Remaining(0));
    assert_eq!(s.quote(0), 10_000);
''')

seed('claim-event-gross', 'P25', [(I + 'process_claim.rs', '''        claim_amount: excluded_fee_claim_amount,
''', '''        claim_amount: pending_claim_token,
'''), (I + 'process_claim.rs', '''    let excluded_fee_claim_amount =
        calculate_transfer_fee_excluded_amount(&ctx.accounts.base_mint, pending_claim_token)?
            .amount;

''', '')],
     'a base mint with a transfer fee',
     'the claim event announces more than the claimant received',
     '''
    let mut c = plain(FCFS);
    c.base = Tok::Fee { bps: 500, max: 1_000_000, bps2: 500, max2: 1_000_000, epoch2: 0 };
    let mut s = S::new(&c);
    s.run(Op::Create(0));
    s.run(Op::Deposit(0, 100, 0));
    s.run(Op::Claim(0));
    let e = s.event("EvtClaim");
    assert_eq!(s.base(0), 950);
    assert_eq!(u64::from_le_bytes(e[64..72].try_into().unwrap()), 950);
''')

seed('close-unused-root', 'P27', [(I + 'process_close_merkle_root_config.rs', '''        progress != PresaleProgress::Ongoing,
''', '''        progress != PresaleProgress::Ongoing || presale.total_escrow == 0,
''')],
     'a running whitelisted sale in which nobody opened a position yet',
     'the whitelist root can be pulled while the sale is running',
     '''
    let mut c = plain(FCFS);
    c.args.wl = 1;
    c.slots = vec![slot(0, 0, 20), slot(1, 0, 30)];
    let mut s = S::new(&c);
    let ix = close_merkle_root_config(s.w.presale, s.w.merkle, s.w.rent_recv, s.w.creator);
    assert!(!s.try_ix(&ix), "the root was closed while the sale was running");
    s.run(Op::Create(0));
    s.t = END;
    assert!(s.try_ix(&ix));
''')

seed('narrow-release-math', 'P26', [(P + 'math/claim_math.rs', '''    let immediate_released_amount = u128::from(total_sold_token)
        .safe_mul(immediate_release_bps.into())?
        .safe_div(MAX_FEE_BASIS_POINTS.into())?
        .safe_cast()?;
''', '''    let immediate_released_amount = total_sold_token
        .safe_mul(immediate_release_bps.into())?
        .safe_div(MAX_FEE_BASIS_POINTS.into())?;
''')],
     'a supply above 2^64/10000 base units with an immediate release portion',
     'claims overflow and participants can never take their tokens',
     '''
    let mut c = plain(FCFS);
    c.args.regs[0].supply = 4_000_000_000_000_000;
    c.args.vest = vest(5000, 0, 20, END);
    let mut s = S::new(&c);
    s.run(Op::Create(0));
    s.run(Op::Deposit(0, 100, 0));
    s.t = END;
    s.run(Op::Claim(0));
    assert_eq!(s.base(0), 4_000_000_000_000_000);
''')

seed('oversold-claim', 'P13', [(H + 'fixed_price_presale.rs', '''            calculate_token_bought(self.q_price, presale_registry.total_deposit)?
                .safe_cast()?
                .min(presale_registry.presale_supply);

        // 2.''', '''            calculate_token_bought(self.q_price, presale_registry.total_deposit)?.safe_cast()?;

        // 2.''')],
     'a fixed price below one quote unit and a registry filled to its supply, where rounding lets the deposits buy slightly more than the supply',
     'claims exceed the registry supply and are paid out of other registries',
     '''
    let mut c = plain(FIXED);
    c.q_price = price(1, 3);
    c.args.wl = 2;
    c.args.max_cap = 60;
    c.args.regs = vec![reg(1, 60, 100, 0), reg(1, 60, 100, 0)];
    c.slots = vec![slot(0, 0, 60), slot(1, 1, 60)];
    let mut s = S::new(&c);
    s.run(Op::Create(0));
    s.run(Op::Deposit(0, 60, 0));
    s.t = END;
    s.run(Op::Claim(0));
    assert_eq!(s.base(0), 100);
''')

seed('funding-per-registry', 'P21', [(I + 'initialize_presale/process_initialize_presale.rs', '''    let presale_pool_supply = presale_registries
        .iter()
        .try_fold(0u64, |acc, reg| acc.safe_add(reg.presale_supply))?;

    let include_fee_presale_pool_supply =
        calculate_transfer_fee_included_amount(&ctx.accounts.presale_mint, presale_pool_supply)?
            .amount;
''', '''    let mut include_fee_presale_pool_supply = 0u64;
    for registry in presale_registries.iter() {
        let included = calculate_transfer_fee_included_amount(
            &ctx.accounts.presale_mint,
            registry.presale_supply,
        )?;
        include_fee_presale_pool_supply =
            include_fee_presale_pool_supply.safe_add(included.amount)?;
    }
''')],
     'a base mint with a transfer fee and several registries whose fees round',
     'the vault is funded with more than the promised supply',
     '''
    let mut c = plain(PRORATA);
    c.args.wl = 2;
    c.base = Tok::Fee { bps: 100, max: 5, bps2: 100, max2: 5, epoch2: 0 };
    c.args.regs = vec![reg(1, 100, 1000, 0), reg(1, 100, 1000, 0)];
    c.slots = vec![slot(0, 0, 100)];
    let w = World::bare(&c);
    let mut db = w.db.clone();
    mint_to(&mut db, w.base_mint, label("payer-b"), 100, c.base);
    let o = execute(&db, Now { ts: T0 as i64, epoch: 0 }, &w.init_ix());
    let Ok(o) = o else { panic!("creation refused") };
    assert_eq!(o.db.tok(&w.base_vault), 2000);
    assert_eq!(db.tok(&label("payer-b")) - o.db.tok(&label("payer-b")), 2005);
''')

seed('late-immediate', 'P20', [(I + 'initialize_presale/params.rs', '''                        self.immediate_release_timestamp >= presale_end_time
                            && self.immediate_release_timestamp <= vesting_end_time,
''', '''                        self.immediate_release_timestamp >= presale_end_time
                            && self
                                .immediate_release_timestamp
                                .saturating_sub(vesting_end_time)
                                <= self.lock_duration,
''')],
     'an immediate release announced after the end of a vesting that follows a lock',
     'an inconsistent release schedule is accepted at creation',
     '''
    let mut c = plain(FCFS);
    c.args.vest = vest(5000, 20, 20, END + 45);
    let w = World::build(&c);
    assert!(matches!(w.init, InitResult::Err(_)), "inconsistent schedule accepted");
    c.args.vest = vest(5000, 20, 20, END + 40);
    let w = World::build(&c);
    assert!(matches!(w.init, InitResult::Ok));
''')

seed('outcome-after-refunds', 'P06', [(P + 'state/presale.rs', '''        if self.total_deposit >= self.presale_minimum_cap {
            PresaleProgress::Completed''', '''        let net_deposit = self
            .total_deposit
            .saturating_sub(self.total_refunded_quote_token);

        if net_deposit >= self.presale_minimum_cap {
            PresaleProgress::Completed''')],
     'an oversubscribed pro-rata sale with fees whose minimum is close to the hard cap, after the refunds were taken',
     'taking refunds turns a completed sale into a failed one',
     '''
    let mut c = plain(PRORATA);
    c.args.min_cap = 100;
    c.args.regs[0].bps = 5000;
    let mut s = S::new(&c);
    for u in 0..2 {
        s.run(Op::Create(u));
        s.run(Op::Deposit(u, 100, u));
    }
    s.t = END;
    s.run(Op::Remaining(0));
    s.run(Op::Remaining(1));
    s.run(Op::Claim(0));
    assert_eq!(s.base(0), 500);
''')

seed('refund-round-up', 'P01', [(P + 'state/presale.rs', '''                    u128::from(escrow.total_deposit)
                        .safe_mul(refund_amount.into())?
                        .safe_div(presale_registry.total_deposit.into())?
                        .safe_cast()?
''', '''                    u128::from(escrow.total_deposit)
                        .safe_mul(refund_amount.into())?
                        .div_ceil(presale_registry.total_deposit.into())
                        .safe_cast()?
''')],
     'an oversubscribed pro-rata sale whose excess does not divide evenly among three participants',
     'refunds add up to more than the excess, so the last payout cannot be covered',
     '''
    let mut c = plain(PRORATA);
    c.wallets = vec![1000; 3];
    c.slots = vec![slot(0, 0, 0), slot(1, 0, 0), slot(2, 0, 0)];
    let mut s = S::new(&c);
    for u in 0..3 {
        s.run(Op::Create(u));
        s.run(Op::Deposit(u, 51, u));
    }
    s.t = END;
    for u in 0..3 {
        s.run(Op::Remaining(u));
        assert_eq!(s.quote(u as usize), 1000 - 51 + 17);
    }
    s.run(Op::CreatorWithdraw);
    assert_eq!(s.db.tok(&s.w.creator_q), 100);
''')

seed('refund-fee-from-rate', 'P10', [(P + 'state/presale_registry.rs', '''        let registry_refund_fee = u128::from(self.total_deposit_fee)
            .safe_mul(registry_remaining_quote)?
            .safe_div(self.total_deposit.into())?;
''', '''        let registry_refund_fee = registry_remaining_quote
            .safe_mul(self.deposit_fee_bps.into())?
            .safe_div(u128::from(10_000u16.safe_sub(self.deposit_fee_bps)?))?;
''')],
     'an oversubscribed pro-rata sale in which somebody withdrew a deposit earlier, leaving its fee behind',
     'participants are refunded fees as if the withdrawn deposit had never paid any; the creator keeps the difference',
     '''
    let mut c = plain(PRORATA);
    c.args.regs[0].bps = 5000;
    c.wallets = vec![1000; 3];
    c.slots = vec![slot(0, 0, 0), slot(1, 0, 0), slot(2, 0, 0)];
    let mut s = S::new(&c);
    for u in 0..3 {
        s.run(Op::Create(u));
        s.run(Op::Deposit(u, 100, u));
    }
    s.run(Op::Withdraw(0, 100));
    s.t = END;
    // excess 100 of 200: fees 300 * 100/200 = 150 come back, a third of it to each
    for u in 1..3 {
        s.run(Op::Remaining(u));
        assert_eq!(s.quote(u as usize), 1000 - 200 + 50 + 50);
    }
''')

seed('close-reduces-totals', 'P11', [(I + 'process_close_escrow.rs', '''                &escrow,
                current_timestamp,
            )?;
        }
''', '''                &escrow,
                current_timestamp,
            )?;
            let registry = presale.get_presale_registry_mut(escrow.registry_index.into())?;
            registry.total_deposit = registry.total_deposit.safe_sub(escrow.total_deposit)?;
        }
''')],
     'a participant claims everything and closes the position before another one claims',
     'the later claimant is credited with a larger share than was sold to him',
     '''
    let c = plain(FCFS);
    let mut s = S::new(&c);
    for (u, d) in [(0, 60), (1, 40)] {
        s.run(Op::Create(u));
        s.run(Op::Deposit(u, d, u));
    }
    s.t = END;
    s.run(Op::Claim(0));
    s.run(Op::Close(0));
    s.run(Op::Claim(1));
    assert_eq!((s.base(0), s.base(1)), (600, 400));
''')

seed('count-on-running-close', 'P03', [(I + 'process_close_escrow.rs', '''    presale.decrease_escrow_count(escrow.registry_index)?;
''', '''    if presale_progress != PresaleProgress::Ongoing {
        presale.decrease_escrow_count(escrow.registry_index)?;
    }
''')],
     'an empty position closed while the sale is running',
     'the recorded number of positions no longer matches the open ones',
     '''
    let mut s = S::new(&plain(FCFS));
    s.run(Op::Create(0));
    s.run(Op::Create(1));
    s.run(Op::Close(0));
    assert_eq!(s.sale().total_escrow, 1);
    assert_eq!(s.sale().regs[0].total_escrow, 1);
''')

seed('claim-any-vault', 'P24', [(I + 'process_claim.rs', '''        has_one = base_token_vault,
        has_one = base_mint,
''', '''        has_one = base_mint,
''')],
     'a claimant names the base vault of another sale of the same token',
     'tokens are taken from another presale, whose participants cannot be paid any more',
     '''
    let mut c = plain(FCFS);
    c.bystander = true;
    let mut s = S::new(&c);
    for u in 0..2 {
        s.run(Op::Create(u));
        s.run(Op::Deposit(u, 40, u));
    }
    s.t = END;
    let by = s.w.bystander_keys();
    let before = s.db.tok(&by.base_vault);
    let mut a = s.w.payout_accs(0, false);
    a.vault = by.base_vault;
    s.try_ix(&claim(&a, &vec![], vec![]));
    assert_eq!(s.db.tok(&by.base_vault), before);
    s.run(Op::Claim(0));
''')

seed('first-entry-counts', 'P19', [('merkle-tree/src/config_merkle_tree.rs', '''            tree_nodes_map.insert(escrow_owner, tree_node);
''', '''            tree_nodes_map.entry(escrow_owner).or_insert(tree_node);
''')],
     'a whitelist that lists an owner twice with different caps',
     'the first instead of the last entry of an owner counts',
     '''
    let o = label("listed");
    let node = |cap: u64| merkle_tree::tree_node::TreeNode { escrow_owner: o, registry_index: 0, deposit_cap: cap, proof: None };
    let tree = merkle_tree::config_merkle_tree::ConfigMerkleTree::new(vec![node(20), node(30)], 0).unwrap();
    assert_eq!(tree.get_node(&o).deposit_cap, 30);
''')

seed('sold-on-totals', 'P02', [(H + 'fixed_price_presale.rs', '''        let mut total_sold_token: u128 = 0;

        for presale_registry in presale.presale_registries.iter() {
            if presale_registry.is_uninitialized() {
                break;
            }

            if presale_registry.total_deposit == 0 {
                continue;
            }

            let sold_token = calculate_token_bought(self.q_price, presale_registry.total_deposit)?
                .min(presale_registry.presale_supply.into());

            total_sold_token = total_sold_token.safe_add(sold_token)?;
        }

        Ok(total_sold_token.safe_cast()?)
''', '''        let total_sold_token = calculate_token_bought(self.q_price, presale.total_deposit)?
            .min(presale.presale_supply.into());

        Ok(total_sold_token.safe_cast()?)
''')],
     'a fixed price that does not divide the deposits of several registries evenly',
     'tokens that nobody bought count as sold and stay in the vault for good',
     '''
    let mut c = plain(FIXED);
    c.q_price = price(3, 2);
    c.args.wl = 2;
    c.args.min_cap = 4;
    c.args.regs = vec![reg(2, 100, 100, 0), reg(2, 100, 100, 0), reg(2, 100, 100, 0)];
    c.slots = vec![slot(0, 0, 100), slot(0, 1, 100), slot(0, 2, 100)];
    let mut s = S::new(&c);
    for u in 0..3 {
        s.run(Op::Create(u));
        s.run(Op::Deposit(u, 2, 0));
    }
    s.t = END;
    s.run(Op::Unsold);
    assert_eq!(s.db.tok(&s.w.base_vault), 3);
''')

seed('cap-first-deposit-only', 'P04', [(P + 'state/escrow.rs', '''        let maximum_buy_cap = buyer_maximum_buy_cap.min(self.deposit_max_cap);
''', '''        let maximum_buy_cap = if self.total_deposit == 0 {
            buyer_maximum_buy_cap.min(self.deposit_max_cap)
        } else {
            buyer_maximum_buy_cap
        };
''')],
     'a whitelisted participant who deposits a second time',
     'the personal cap binds only the first deposit',
     '''
    let mut c = plain(FCFS);
    c.args.wl = 2;
    c.slots = vec![slot(0, 0, 20)];
    let mut s = S::new(&c);
    s.run(Op::Create(0));
    s.run(Op::Deposit(0, 15, 0));
    s.run(Op::Deposit(0, 15, 0));
    assert_eq!(s.esc(0).dep, 20);
    s.refused(Op::Deposit(0, 1, 0));
''')

seed('sold-stops-at-gap', 'P14', [(H + 'fixed_price_presale.rs', '''            if presale_registry.total_deposit == 0 {
                continue;
            }
''', '''            if presale_registry.total_deposit == 0 {
                break;
            }
''')],
     'a fixed-price sale with several registries of which an earlier one sold nothing',
     'tokens sold by the later registries count as unsold and are disposed of',
     '''
    let mut c = plain(FIXED);
    c.args.wl = 2;
    c.args.min_cap = 4;
    c.args.regs = vec![reg(1, 100, 500, 0), reg(1, 100, 500, 0)];
    c.slots = vec![slot(0, 1, 100)];
    let mut s = S::new(&c);
    s.run(Op::Create(0));
    s.run(Op::Deposit(0, 20, 0));
    s.t = END;
    s.run(Op::Unsold);
    assert_eq!(s.db.tok(&s.w.base_vault), 100);
''')

seed('fee-only-refund-repeats', 'P09', [(I + 'process_withdraw_remaining_quote.rs', '''    escrow.update_remaining_quote_withdrawn()?;
''', '''    if refund_deposit_amount > 0 {
        escrow.update_remaining_quote_withdrawn()?;
    }
''')],
     'a failed sale with a participant who had withdrawn the whole deposit and is owed only the fee',
     'the fee can be taken back again and again, out of the money of the others',
     '''
    let mut c = plain(PRORATA);
    c.args.regs = vec![reg(1, 100, 1000, 5000)];
    let mut s = S::new(&c);
    s.run(Op::Create(0));
    s.run(Op::Create(1));
    s.run(Op::Deposit(0, 3, 0));
    s.run(Op::Deposit(1, 9, 1));
    s.run(Op::Withdraw(0, 3));
    s.t = END;
    s.run(Op::Remaining(0));
    s.try_op(Op::Remaining(0));
    s.run(Op::Remaining(1));
    assert_eq!(s.quote(0), 10_000);
    assert_eq!(s.quote(1), 10_000);
''')

seed('open-end-uncapped', 'P04', [(H + 'fcfs_presale.rs', '''        Ok(global_remaining_quota.min(personal_remaining_quota))
''', '''        // The sale runs until its scheduled end, the cap only stops further deposits
        if self.is_earlier_presale_end_disabled() && global_remaining_quota > 0 {
            return Ok(personal_remaining_quota);
        }

        Ok(global_remaining_quota.min(personal_remaining_quota))
''')],
     'a first-come sale whose creator disabled the early end, and a deposit larger than what is left under the hard cap',
     'the last deposit overshoots the hard cap',
     '''
    let mut c = plain(FCFS);
    c.args.disable_early = 1;
    let mut s = S::new(&c);
    s.run(Op::Create(0));
    s.run(Op::Create(1));
    s.run(Op::Deposit(0, 70, 0));
    s.run(Op::Deposit(1, 70, 1));
    assert_eq!(s.esc(1).dep, 30);
''')

seed('early-end-unlocks', 'P07', [(P + 'state/presale.rs', '''        self.vesting_end_time = vesting_end_time;

        self.immediate''', '''        self.vesting_end_time = vesting_end_time;

        // Nothing to vest over: everything is due with the end of the sale
        if self.vest_duration == 0 {
            self.vesting_start_time = self.presale_end_time;
            self.vesting_end_time = self.presale_end_time;
        }

        self.immediate''')],
     'a sale with a lock but no vesting, filled before its scheduled end',
     'the lock disappears and everything can be claimed at once',
     '''
    let mut c = plain(FCFS);
    c.args.vest = vest(0, 50, 0, 0);
    let mut s = S::new(&c);
    s.run(Op::Create(0));
    s.run(Op::Deposit(0, 100, 0));
    s.t = START + 10;
    s.try_op(Op::Claim(0));
    assert_eq!(s.base(0), 0);
    s.t = START + 51;
    s.run(Op::Claim(0));
    assert_eq!(s.base(0), 1000);
''')

seed('fees-stop-at-free-registry', 'P15', [(P + 'state/presale.rs', '''                    if registry.is_uninitialized() {
                        break;
                    }

                    let RemainingQuote { refund_fee, .. } = registry''', '''                    if registry.is_uninitialized() || registry.total_deposit_fee == 0 {
                        break;
                    }

                    let RemainingQuote { refund_fee, .. } = registry''')],
     'an oversubscribed pro-rata sale with several registries of which an earlier one earned no fees',
     'the fees of the later registries are never paid to the creator',
     '''
    let mut c = plain(PRORATA);
    c.args.wl = 2;
    c.args.regs = vec![reg(1, 100, 1000, 0), reg(1, 100, 1000, 5000)];
    c.slots = vec![slot(0, 0, 100), slot(1, 1, 100)];
    let mut s = S::new(&c);
    for u in 0..2 {
        s.run(Op::Create(u));
        s.run(Op::Deposit(u, 100, u));
    }
    s.t = END;
    s.run(Op::CollectFee);
    assert_eq!(s.db.tok(&s.w.creator_fee_q), 50);
''')

seed('claimed-total-of-registry', 'P25', [(I + 'process_claim.rs', '''        presale_total_claim_amount: presale.total_claimed_token''', '''        presale_total_claim_amount: presale
            .get_presale_registry(escrow.registry_index.into())?
            .total_claimed_token''')],
     'a sale with two registries, one participant of each claiming in turn',
     'the claim event announces the total of the registry as that of the sale',
     '''
    let mut c = plain(FCFS);
    c.args.wl = 2;
    c.args.regs = vec![reg(1, 100, 400, 0), reg(1, 100, 600, 0)];
    c.slots = vec![slot(0, 0, 100), slot(1, 1, 100)];
    let mut s = S::new(&c);
    for u in 0..2 {
        s.run(Op::Create(u));
        s.run(Op::Deposit(u, 50, u));
    }
    s.t = END;
    s.run(Op::Claim(0));
    s.run(Op::Claim(1));
    let e = s.event("EvtClaim");
    assert!(e.windows(8).any(|x| x == 1000u64.to_le_bytes()), "{e:?}");
''')

seed('drip-rounds-up', 'P12', [(P + 'math/claim_math.rs', '''            .safe_mul(elapsed_seconds.into())?
            .safe_div(vest_duration.into())?
''', '''            .safe_mul(elapsed_seconds.into())?
            .div_ceil(vest_duration.into())
''')],
     'a vesting sale, claimed at an instant where the vested part is not a whole number of units',
     'a unit is released before its time',
     '''
    let mut c = plain(FCFS);
    c.args.vest = vest(0, 0, 7, 0);
    let mut s = S::new(&c);
    s.run(Op::Create(0));
    s.run(Op::Deposit(0, 50, 0));
    s.t = END + 1;
    s.run(Op::Claim(0));
    assert_eq!(s.base(0), 142);
''')

seed('fees-count-for-success', 'P06', [(P + 'state/presale.rs', '''        if self.total_deposit >= self.presale_minimum_cap {''', '''        if self.total_deposit.saturating_add(self.total_deposit_fee) >= self.presale_minimum_cap {''')],
     'a sale with deposit fees whose deposits stay just below the minimum cap',
     'a failed sale counts as completed',
     '''
    let mut c = plain(PRORATA);
    c.args.regs = vec![reg(1, 100, 1000, 1000)];
    let mut s = S::new(&c);
    s.run(Op::Create(0));
    s.run(Op::Deposit(0, 9, 0));
    s.t = END;
    s.run(Op::Remaining(0));
    assert_eq!(s.quote(0), 10_000);
    s.refused(Op::Claim(0));
''')

seed('close-counts-pending', 'P22', [(I + 'process_close_escrow.rs', '''        escrow.total_claimed_token == escrow_total_claimable_amount,''', '''        escrow.sum_claimed_and_pending_claim_amount()? == escrow_total_claimable_amount,''')],
     'a position refreshed after the vesting end but not claimed',
     'the position closes with its whole allocation still unpaid',
     '''
    let mut c = plain(FCFS);
    let mut s = S::new(&c);
    s.run(Op::Create(0));
    s.run(Op::Deposit(0, 50, 0));
    s.t = END + 1;
    s.run(Op::Refresh(0));
    s.refused(Op::Close(0));
    s.run(Op::Claim(0));
    s.run(Op::Close(0));
''')

seed('long-vesting-by-the-day', 'P12', [(P + 'math/claim_math.rs', '''            .min(vest_duration);
''', '''            .min(vest_duration);
        // Long schedules advance by the day
        const DAY: u64 = 86_400;
        let elapsed_seconds = if vest_duration >= 365 * DAY && elapsed_seconds < vest_duration {
            elapsed_seconds / DAY * DAY
        } else {
            elapsed_seconds
        };
''')],
     'a sale that vests over a year or more, claimed at an instant that is not a whole number of days into the vesting',
     'tokens that are due are released up to a day late',
     '''
    let year = 365 * 86_400;
    let mut c = plain(FCFS);
    c.args.regs = vec![reg(1, 100, year, 0)];
    c.args.vest = vest(0, 0, year, 0);
    let mut s = S::new(&c);
    s.run(Op::Create(0));
    s.run(Op::Deposit(0, 50, 0));
    s.t = END + 100_000;
    s.run(Op::Claim(0));
    assert_eq!(s.base(0), 100_000);
''')
