vec![
    Prop {
        id: "P01",
        quick: &["life", "prorata", "fee_life", "registries", "contest", "auth", "auth-typed", "crowd", "shares", "people", "big", "combos", "marathon"],
        thorough: &["life", "prorata", "fee_life", "registries", "deposits", "fixed", "tokens", "big", "vesting", "phases", "contest", "auth", "auth-typed", "crowd", "shares", "people", "combos", "marathon"],
        mine: |t| t.inv(&["quote", "dust", "sums"]) || t.on(PAY_Q) || t.class == "flow" && t.op == "deposit" || t.op == "close" && t.class == "accept" || t.op == "unsold" && t.class == "flow" || t.auth(&["cross"]) && !matches!(t.op, "claim" | "unsold" | "init"),
    },
    Prop {
        id: "P02",
        quick: &["life", "registries", "fixed", "vesting", "funding", "auth", "auth-typed", "crowd", "shares", "people", "years", "big", "combos", "marathon"],
        thorough: &["life", "registries", "fixed", "vesting", "fee_life", "tokens", "big", "prorata", "phases", "funding", "auth", "auth-typed", "crowd", "shares", "people", "years", "combos", "marathon"],
        mine: |t| t.inv(&["base", "dust", "claimsum"]) || t.on(PAY_B) || t.op == "refresh" && t.state(&["claims"]) || t.op == "close" && t.class == "accept" || t.class == "flow" && t.op == "init" || t.auth(&["cross"]) && matches!(t.op, "claim" | "unsold" | "creator_withdraw" | "init"),
    },
    Prop {
        id: "P03",
        quick: &["deposits", "registries", "fee_life", "fixed", "tokens", "contest", "auth", "auth-typed", "crowd", "people", "big", "combos", "marathon"],
        thorough: &["deposits", "registries", "fee_life", "fixed", "tokens", "fees", "life", "prorata", "big", "phases", "contest", "auth", "auth-typed", "crowd", "people", "combos", "marathon"],
        mine: |t| t.inv(&["sums"]) || t.on(&["deposit", "create"]) || t.state(&["deposits", "stats", "exist", "escrowcfg"]) || t.auth(&["cross", "shape"]) && (t.op.contains("deposit") || t.op == "create_escrow"),
    },
    Prop {
        id: "P04",
        quick: &["deposits", "registries", "fixed", "big", "fee_life", "crowd", "contest", "people", "combos"],
        thorough: &["deposits", "registries", "fixed", "big", "fee_life", "fees", "phases", "life", "tokens", "prorata", "crowd", "contest", "people", "combos"],
        mine: |t| t.inv(&["cap"]) || t.on(&["deposit", "withdraw"]) || t.state(&["deposits"]),
    },
    Prop {
        id: "P05",
        quick: &["fees", "fee_life", "big", "crowd", "people", "combos", "marathon"],
        thorough: &["fees", "fee_life", "big", "life", "deposits", "tokens", "fixed", "registries", "crowd", "people", "combos", "marathon"],
        mine: |t| t.on(&["deposit", "collect_fee", "withdraw", "remaining", "creator_withdraw"]) || t.inv(&["sums", "quote", "dust", "cap"]) || t.state(&["deposits", "refunds"]) || t.why(&["Fee"]),
    },
    Prop {
        id: "P06",
        quick: &["phases", "life", "registries", "contest", "crowd", "people", "years", "combos", "marathon"],
        thorough: &["phases", "life", "registries", "deposits", "fee_life", "prorata", "fixed", "tokens", "contest", "crowd", "people", "years", "combos", "marathon"],
        mine: |t| t.class == "accept" && (t.reason == "Phase" || t.reason == "Mode" && t.op == "remaining") || t.class == "reject" && t.op != "init" || t.state(&["timing"]) || t.state(&["flags"]),
    },
    Prop {
        id: "P07",
        quick: &["phases", "vesting", "deposits", "fixed", "contest", "crowd", "people", "years", "big", "combos"],
        thorough: &["phases", "vesting", "deposits", "fixed", "life", "registries", "tokens", "big", "fee_life", "contest", "crowd", "people", "years", "combos"],
        mine: |t| t.state(&["timing"]) || t.why(&["Phase"]) || t.class == "reject" && (t.op == "deposit" || t.op == "withdraw" || t.op == "claim") || t.on(&["claim"]) || t.state(&["claims"]),
    },
    Prop {
        id: "P08",
        quick: &["deposits", "fixed", "registries", "fee_life", "crowd", "contest", "people", "big", "combos"],
        thorough: &["deposits", "fixed", "registries", "fee_life", "life", "phases", "prorata", "big", "tokens", "crowd", "contest", "people", "combos"],
        mine: |t| t.on(&["withdraw"]) || t.inv(&["sums"]) || t.state(&["deposits"]) || t.op == "deposit" && matches!(t.class, "accept" | "reject"),
    },
    Prop {
        id: "P09",
        quick: &["life", "fee_life", "registries", "contest", "crowd", "people", "big", "combos", "marathon"],
        thorough: &["life", "fee_life", "registries", "prorata", "phases", "fixed", "tokens", "big", "contest", "crowd", "shares", "people", "combos", "marathon"],
        mine: |t| t.phase == "Failed" || t.inv(&["quote", "dust"]) || t.class == "accept" && t.op == "close" || t.state(&["refunds"]),
    },
    Prop {
        id: "P10",
        quick: &["prorata", "fee_life", "registries", "life", "contest", "crowd", "shares", "people", "big", "combos", "marathon"],
        thorough: &["prorata", "fee_life", "registries", "life", "tokens", "big", "phases", "contest", "crowd", "shares", "people", "combos", "marathon"],
        mine: |t| t.on(&["remaining"]) || t.on(&["creator_withdraw", "collect_fee"]) && t.phase != "Failed" || t.inv(&["quote", "dust"]) || t.state(&["refunds"]),
    },
    Prop {
        id: "P11",
        quick: &["registries", "prorata", "fixed", "life", "vesting", "contest", "crowd", "shares", "people", "years", "big", "combos", "marathon"],
        thorough: &["registries", "prorata", "fixed", "life", "vesting", "deposits", "fee_life", "tokens", "big", "contest", "crowd", "shares", "people", "years", "combos", "marathon"],
        mine: |t| t.on(&["claim", "refresh", "unsold"]) || t.inv(&["base", "dust", "claimsum"]) || t.state(&["claims"]),
    },
    Prop {
        id: "P12",
        quick: &["vesting", "life", "phases", "fixed", "crowd", "contest", "people", "years", "big", "combos"],
        thorough: &["vesting", "life", "phases", "fixed", "registries", "fee_life", "tokens", "big", "crowd", "contest", "shares", "people", "years", "combos"],
        mine: |t| t.on(&["claim", "refresh"]) || t.inv(&["base", "claimsum"]) || t.state(&["claims", "timing"]),
    },
    Prop {
        id: "P13",
        quick: &["fixed", "big", "registries", "deposits", "crowd", "init", "people", "years", "combos", "marathon"],
        thorough: &["fixed", "big", "registries", "deposits", "fees", "life", "tokens", "phases", "crowd", "contest", "init", "people", "years", "combos", "marathon"],
        mine: |t| t.on(&["deposit", "claim", "unsold", "withdraw"]) || t.state(&["config"]) || t.inv(&["cap", "base"]) || t.op == "init" && matches!(t.reason, "Price" | "PriceSheet"),
    },
    Prop {
        id: "P14",
        quick: &["life", "fixed", "registries", "phases", "auth", "auth-typed", "crowd", "people", "big", "combos"],
        thorough: &["life", "fixed", "registries", "phases", "vesting", "prorata", "tokens", "big", "fee_life", "auth", "auth-typed", "crowd", "shares", "people", "combos"],
        mine: |t| t.on(&["unsold"]) || t.inv(&["base", "dust"]) || t.state(&["flags"]) || t.op == "unsold" && t.class == "auth",
    },
    Prop {
        id: "P15",
        quick: &["life", "fee_life", "prorata", "registries", "contest", "auth", "auth-typed", "crowd", "shares", "people", "big", "combos", "marathon"],
        thorough: &["life", "fee_life", "prorata", "registries", "phases", "fixed", "tokens", "big", "contest", "auth", "auth-typed", "crowd", "shares", "people", "combos", "marathon"],
        mine: |t| t.on(&["creator_withdraw", "collect_fee"]) || t.inv(&["quote"]) || t.state(&["flags"]) || t.class == "auth" && matches!(t.op, "creator_withdraw" | "collect_fee"),
    },
    Prop {
        id: "P16",
        quick: &["auth-pairs", "auth-typed"],
        thorough: &["auth-pairs", "auth-typed"],
        mine: |t| t.class == "auth" || t.raw == "reject/auth" || t.raw.starts_with("reject/auth/"),
    },
    Prop {
        id: "P17",
        quick: &["whitelist", "registries", "auth", "auth-typed", "marathon"],
        thorough: &["whitelist", "registries", "auth-pairs", "auth-typed", "marathon"],
        mine: |t| t.op.starts_with("whitelist") || t.on(&["create"]) || t.state(&["escrowcfg"]) || t.class == "auth" && t.op.contains("create") || t.auth(&["whitelist", "rights"]),
    },
    Prop {
        id: "P18",
        quick: &["operators", "whitelist", "registries", "auth", "auth-typed"],
        thorough: &["operators", "whitelist", "registries", "auth-pairs", "auth-typed"],
        mine: |t| t.op.starts_with("operators") || t.on(&["create"]) || t.class == "accept" && t.reason == "Mode" && t.op == "whitelist" || t.class == "auth" && (t.op.contains("create") || t.op.contains("operator")) || t.auth(&["whitelist", "operator"]),
    },
    Prop {
        id: "P19",
        quick: &["tool"],
        thorough: &["tool"],
        mine: |t| t.op.starts_with("tool") || t.what.starts_with("tool"),
    },
    Prop {
        id: "P20",
        quick: &["creations", "init", "init-triples", "funding"],
        thorough: &["creations", "init", "mints", "funding", "people"],
        mine: |t| t.op == "init" && (t.class == "accept" || t.class == "reject"),
    },
    Prop {
        id: "P21",
        quick: &["creations", "init", "life", "registries", "fixed", "funding", "auth", "auth-typed", "crowd", "contest", "people", "years", "combos"],
        thorough: &["creations", "init", "life", "registries", "fixed", "phases", "deposits", "tokens", "prorata", "vesting", "funding", "auth", "auth-typed", "crowd", "contest", "people", "years", "combos"],
        mine: |t| t.op == "init" && t.class != "accept" && t.class != "event" || t.state(&["config", "escrowcfg", "timing"]) || t.auth(&["create"]),
    },
    Prop {
        id: "P22",
        quick: &["life", "fee_life", "registries", "prorata", "contest", "auth", "auth-typed", "crowd", "people", "big", "combos", "marathon", "shares"],
        thorough: &["life", "fee_life", "registries", "prorata", "phases", "vesting", "fixed", "tokens", "big", "deposits", "contest", "auth", "auth-typed", "crowd", "shares", "people", "combos", "marathon"],
        mine: |t| t.on(&["close"]) || t.op == "close" || t.inv(&["sums"]) || t.state(&["exist", "stats"]) || t.class == "auth" && matches!(t.op, "close_empty" | "close_done"),
    },
    Prop {
        id: "P23",
        quick: &["tokens", "mints", "funding", "crowd", "people", "combos"],
        thorough: &["tokens", "mints", "init", "funding", "crowd", "people", "combos"],
        mine: |t| t.on(&["deposit", "withdraw", "claim", "remaining", "creator_withdraw", "collect_fee", "unsold", "init", "mint"]) || t.class == "hook" || t.class == "inv",
    },
    Prop {
        id: "P24",
        quick: &["life", "registries", "tokens", "fee_life", "contest", "auth", "auth-typed", "crowd", "people", "combos"],
        thorough: &["life", "registries", "tokens", "fee_life", "phases", "deposits", "fixed", "prorata", "init", "whitelist", "operators", "records", "contest", "auth", "auth-typed", "crowd", "shares", "people", "combos"],
        mine: |t| t.class == "frame" || t.class == "flow" && t.op != "init" || t.auth(&["cross", "shape", "sign"]),
    },
    Prop {
        id: "P25",
        quick: &["life", "registries", "tokens", "fee_life", "fixed", "whitelist", "operators", "records", "init", "crowd", "people", "years", "big", "combos", "deposits"],
        thorough: &["life", "registries", "tokens", "fee_life", "fixed", "whitelist", "operators", "records", "init", "phases", "deposits", "prorata", "vesting", "big", "crowd", "shares", "people", "years", "combos"],
        mine: |t| t.class == "event",
    },
    Prop {
        id: "P26",
        quick: &["big", "life", "fixed", "registries", "fee_life", "prorata", "contest", "crowd", "shares", "people", "years", "combos", "marathon"],
        thorough: &["big", "life", "fixed", "registries", "fee_life", "prorata", "vesting", "phases", "deposits", "tokens", "fees", "contest", "crowd", "shares", "people", "years", "combos", "marathon"],
        mine: |t| t.class == "reject" && t.op != "init",
    },
    Prop {
        id: "P27",
        quick: &["records", "operators", "init", "auth", "auth-typed"],
        thorough: &["records", "operators", "init", "auth", "auth-typed"],
        mine: |t| t.op == "records" || t.op == "records-setup" || t.op == "operators" && matches!(t.reason, "Signer" | "Exists") || t.what == "operator" || t.raw == "frame/operators" || t.op == "init" && (t.phase == "Sheet" || t.reason == "PriceSheet") || t.auth(&["rights", "operator", "sheet", "shape", "lamports"]),
    },
]
