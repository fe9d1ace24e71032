//! Explicit-state model checker for the presale program: see ../../DESIGN.md.
mod abi;
mod auth;
mod configs;
mod explore;
mod initmc;
mod props;
mod spec;
mod svm;
mod wl;
mod world;

use configs::Tier;
use explore::{Found, Stats};
use serde_json::json;
use std::io::Write;

fn tier_of(s: Option<&str>) -> Tier {
    if s == Some("thorough") {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(1, 16)
}

fn verif() -> std::path::PathBuf {
    std::env::var_os("VERIF_DIR").map(Into::into).unwrap_or_else(|| "/verif".into())
}

fn main() {
    svm::init_runtime();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["check", id, rest @ ..] => check(id, tier_of(rest.first().copied())),
        ["unit", name, rest @ ..] => {
            let t0 = std::time::Instant::now();
            let (st, f) = props::run_unit(name, tier_of(rest.first().copied()), &|_| true, threads());
            println!(
                "{name}: configs {} states {} transitions {} depth {} truncated {} foreign {:?} {:?}\n{f:#?}",
                st.configs, st.states, st.transitions, st.max_depth, st.truncated, st.foreign, t0.elapsed()
            );
            i32::from(f.is_some())
        }
        // every unit once, cheapest first, until something objects; names the properties concerned
        ["sweep", rest @ ..] => sweep(tier_of(rest.first().copied())),
        ["list"] => {
            for p in props::props() {
                println!("{}", p.id);
            }
            0
        }
        // self-test: worlds with a feature taken out are as sound as those with it
        ["twins"] => {
            for p in props::props() {
                let Some(f) = props::feature_of(p.id) else { continue };
                for u in p.quick {
                    if let Some(x) = props::without(u, Tier::Quick, f, threads()) {
                        println!("{} {f:?} {u} {x:?}", p.id);
                    }
                }
            }
            0
        }
        ["matrix"] => matrix(Tier::Quick),
        ["replay", file] => replay(file),
        _ => {
            eprintln!("usage: mc check <property> [quick|thorough] | unit <name> [tier] | list | replay <file>");
            2
        }
    };
    std::process::exit(code);
}

const UNITS: &[&str] = &[
    "records", "mints", "creations", "funding", "years", "marathon", "combos", "auth", "tool", "contest", "init", "crowd", "people", "shares", "fees", "prorata", "operators", "whitelist", "big", "fixed",
    "auth-typed", "phases", "fee_life", "tokens", "deposits", "life", "vesting", "registries",
];

fn sweep(tier: Tier) -> i32 {
    for u in UNITS {
        let (_, f) = props::run_unit(u, tier, &|_| true, threads());
        if let Some(f) = f {
            let t = props::T::parse(&f.viol.tag);
            let who: Vec<&str> = props::props().into_iter().filter(|p| (p.mine)(&t) && p.quick.contains(u)).map(|p| p.id).collect();
            println!("KILLED {u} {} [{}] {} {}", f.viol.tag, who.join(","), f.cfg_name, f.viol.msg);
            return 1;
        }
    }
    println!("SURVIVED");
    0
}

/// Explore one unit. Observations that are not the property's own count when they appear with the
/// property's feature and do not appear in the same worlds without it.
fn decide(u: &str, tier: Tier, mine: &(dyn Fn(&str) -> bool + Sync), feature: Option<props::Feature>) -> (Stats, Option<Found>) {
    let Some(feature) = feature.filter(|_| configs::family_opt(u, tier).is_some()) else {
        return props::run_unit(u, tier, mine, threads());
    };
    let mut innocent = std::collections::HashSet::new();
    loop {
        let (st, f) = props::run_unit(u, tier, &|t| mine(t) || props::blamable(t) && !innocent.contains(t), threads());
        match &f {
            Some(x) if !mine(&x.viol.tag) => {
                if innocent.is_empty() {
                    innocent = props::without(u, tier, feature, threads()).unwrap_or_default();
                    if innocent.contains(&x.viol.tag) {
                        continue;
                    }
                }
                return (st, f);
            }
            _ => return (st, f),
        }
    }
}

/// Which checks would report the current tree (every unit, every observation).
fn matrix(tier: Tier) -> i32 {
    let mut hits: std::collections::BTreeMap<&str, String> = Default::default();
    let props = props::props();
    for u in UNITS {
        let (st, _) = props::run_unit(u, tier, &|_| false, threads());
        for (tag, n) in &st.foreign {
            let t = props::T::parse(tag);
            for p in props.iter().filter(|p| p.quick.contains(u) && (p.mine)(&t)) {
                hits.entry(p.id).or_insert_with(|| format!("{u}:{tag}x{n}"));
            }
            eprintln!("{u} {tag} {n}");
        }
        for p in props.iter().filter(|p| p.quick.contains(u)) {
            let mut odd = st.foreign.keys().filter(|t| props::blamable(t)).peekable();
            if let Some(f) = props::feature_of(p.id).filter(|_| !hits.contains_key(p.id) && odd.peek().is_some()) {
                if let Some(inn) = props::without(u, tier, f, threads()) {
                    if let Some(t) = odd.find(|t| !inn.contains(*t)) {
                        hits.insert(p.id, format!("{u}:{t} only with {f:?}"));
                    }
                }
            }
        }
    }
    println!("MATRIX {}", hits.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" | "));
    i32::from(!hits.is_empty())
}

fn check(id: &str, tier: Tier) -> i32 {
    let Some(p) = props::props().into_iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let t0 = std::time::Instant::now();
    let units = if tier == Tier::Quick { p.quick } else { p.thorough };
    let mine = |tag: &str| (p.mine)(&props::T::parse(tag));
    let mut total = Stats::default();
    let mut per = vec![];
    let mut found: Option<(String, Found)> = None;
    for u in units {
        let t1 = std::time::Instant::now();
        let (st, f) = decide(u, tier, &mine, props::feature_of(id));
        per.push(json!({
            "worlds": u, "configurations": st.configs, "states": st.states, "transitions": st.transitions,
            "max_depth": st.max_depth, "truncated": st.truncated, "refused_configurations": st.init_rejected,
            "wall_s": t1.elapsed().as_secs_f64(),
        }));
        total.merge(&st);
        if let Some(f) = f {
            found = Some((u.to_string(), f));
            break;
        }
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let outcomes: serde_json::Map<String, serde_json::Value> = total
        .outcomes
        .iter()
        .take(400)
        .map(|(k, v)| (k.clone(), json!({"accepted": v.0, "refused": v.1})))
        .collect();
    let ev = json!({
        "property": id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": total.states,
            "transitions": total.transitions,
            "traces_validated_against_impl": total.validated,
            "samples": total.sample,
            "exhaustive": total.truncated == 0 && found.is_none(),
            "configurations": total.configs,
            "max_depth": total.max_depth,
            "worlds": per,
            "outcomes": outcomes,
            "observations_of_other_properties": total.foreign,
        },
        "assumptions": [
            "accounts, CPIs, sysvars and runtime checks are provided by the in-process mini-SVM of /verif/mc/src/svm.rs; the presale program, SPL Token and Token-2022 code is the real code",
            "exhaustive within the listed finite configurations: operation menus, participants, time points and amounts",
            "single-instruction transactions; the cluster clock is non-decreasing"
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": i32::from(found.is_some()),
    });
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    if let Some((unit, f)) = found {
        let rdir = verif().join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{id}.json"));
        let body = json!({
            "property": id, "unit": unit, "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
            "configuration": f.cfg_name, "index": f.cfg, "trace": f.trace, "observation": f.viol.tag, "message": f.viol.msg,
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        println!("VIOLATION property={id} replay={}", path.display());
        println!("  {} [{}] {}", f.cfg_name, f.trace.join(" "), f.viol.msg);
        let _ = std::io::stdout().flush();
        return 1;
    }
    0
}

/// Re-run the configuration named in a replay file and print what happens step by step.
fn replay(file: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let v: serde_json::Value = serde_json::from_str(&s).unwrap();
    let unit = v["unit"].as_str().unwrap();
    let tier = tier_of(v["tier"].as_str());
    println!("{}", serde_json::to_string_pretty(&v).unwrap());
    let fam = configs::family_opt(unit, tier);
    let Some(cfgs) = fam else {
        // special units are small: run them again
        let tag = v["observation"].as_str().unwrap().to_string();
        let (_, f) = props::run_unit(unit, tier, &|t| t == tag, threads());
        println!("{f:#?}");
        return i32::from(f.is_some());
    };
    let name = v["configuration"].as_str().unwrap();
    let Some(cfg) = cfgs.iter().find(|c| c.name == name) else {
        eprintln!("no configuration {name}");
        return 2;
    };
    let w = world::World::build(cfg);
    println!("{cfg:#?}\ninit: {:?}", w.init);
    let mut st = explore::State { db: w.db.clone(), g: spec::Ghost::new(cfg), ti: 0, pre: 0 };
    let mut bad = 0;
    for name in v["trace"].as_array().unwrap() {
        let name = name.as_str().unwrap();
        let op = *cfg.ops.iter().chain(&cfg.prefix).find(|o| format!("{o:?}") == name).expect("operation of the menu");
        let r = explore::step(&w, &st, op);
        println!("t={:?} {:?}: {:?} accepted={} {:#?}", cfg.times[st.ti as usize], r.phase, op, r.accepted, r.viols);
        bad += r.viols.len();
        if let Some(n) = r.next {
            st = n;
        }
    }
    i32::from(bad > 0)
}
