//! Which explored worlds decide which property, and which observations count against it.

use crate::auth;
use crate::configs::{family, Tier};
use crate::explore::{explore_all, Found, Stats};

/// A violation tag taken apart: `class/...`.
pub struct T<'a> {
    pub raw: &'a str,
    /// accept | reject | flow | hook | frame | event | state | inv | auth | ...
    pub class: &'a str,
    /// for `state/...`: which record group
    pub what: &'a str,
    /// the operation
    pub op: &'a str,
    pub phase: &'a str,
    /// for `accept/...`: the rule that forbids the operation
    pub reason: &'a str,
}

impl<'a> T<'a> {
    pub fn parse(raw: &'a str) -> T<'a> {
        let mut p = raw.split('/');
        let class = p.next().unwrap_or("");
        let what = if class == "state" { p.next().unwrap_or("") } else { "" };
        let op = p.next().unwrap_or("");
        let phase = p.next().unwrap_or("");
        let reason = p.next().unwrap_or("");
        T { raw, class, what, op, phase, reason }
    }
    /// any behaviour of one of these operations (admission, token movement, records)
    fn on(&self, ops: &[&str]) -> bool {
        matches!(self.class, "accept" | "reject" | "flow" | "state" | "hook" | "frame") && ops.contains(&self.op)
    }
    fn inv(&self, names: &[&str]) -> bool {
        self.class == "inv" && names.contains(&self.op)
    }
    fn state(&self, what: &[&str]) -> bool {
        self.class == "state" && what.contains(&self.what)
    }
    /// an authority violation of one of these kinds
    fn auth(&self, kinds: &[&str]) -> bool {
        self.class == "auth" && kinds.contains(&self.phase)
    }
    fn why(&self, r: &[&str]) -> bool {
        self.class == "accept" && r.contains(&self.reason)
    }
}

pub struct Prop {
    pub id: &'static str,
    pub quick: &'static [&'static str],
    pub thorough: &'static [&'static str],
    pub mine: fn(&T) -> bool,
}

const PAY_Q: &[&str] = &["withdraw", "remaining", "creator_withdraw", "collect_fee"];
const PAY_B: &[&str] = &["claim", "creator_withdraw", "unsold"];

pub fn props() -> Vec<Prop> {
    include!("props_table.rs")
}

pub fn run_unit(name: &str, tier: Tier, mine: &(dyn Fn(&str) -> bool + Sync), threads: usize) -> (Stats, Option<Found>) {
    match name {
        "auth" => auth::explore(mine, false, threads),
        "auth-pairs" => auth::explore(mine, true, threads),
        "auth-typed" => auth::explore_typed(mine, if tier == Tier::Quick { 4 } else { 5 }, threads),
        "init" => crate::initmc::explore(mine, tier, threads),
        // every three parameters at once, whatever the tier
        "init-triples" => crate::initmc::explore(mine, Tier::Thorough, threads),
        "funding" => crate::initmc::explore_funding(mine, tier, threads),
        "mints" => crate::initmc::explore_mints(mine),
        "whitelist" => crate::wl::explore_merkle(mine, tier),
        "operators" => crate::wl::explore_operators(mine, tier),
        "records" => crate::wl::explore_aux(mine, tier),
        // a panic inside the tool is the tool's failure, not the checker's
        "tool" => std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| crate::wl::explore_tool(mine, tier))).unwrap_or_else(|e| {
            let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            let viol = crate::explore::Viol { tag: "reject/tool".into(), msg: format!("the tool panicked: {msg}") };
            (Stats::default(), Some(Found { cfg: 0, cfg_name: "tool".into(), trace: vec![], viol }))
        }),
        _ => explore_all(&family(name, tier), mine, threads),
    }
}

/// Something a sale may or may not have. Whatever goes wrong with it and does not go wrong without it is its doing.
#[derive(Clone, Copy, Debug)]
pub enum Feature {
    Fees,
    Withdrawals,
    Closes,
    Disposal,
    EarlyEnd,
    Tokens,
    OtherPayers,
    PersonalCaps,
}

/// The feature a property is about, if its effects on everything else belong to the property too.
pub fn feature_of(id: &str) -> Option<Feature> {
    Some(match id {
        "P03" => Feature::OtherPayers,
        "P05" => Feature::Fees,
        "P07" => Feature::EarlyEnd,
        "P08" => Feature::Withdrawals,
        "P14" => Feature::Disposal,
        "P17" | "P18" => Feature::PersonalCaps,
        "P22" => Feature::Closes,
        "P23" => Feature::Tokens,
        _ => return None,
    })
}

/// What a feature can be blamed for.
pub fn blamable(tag: &str) -> bool {
    matches!(T::parse(tag).class, "accept" | "reject" | "flow" | "state" | "inv" | "frame")
}

/// Everything observed in the worlds of `unit` once the feature is taken out of them.
pub fn without(unit: &str, tier: Tier, f: Feature, threads: usize) -> Option<std::collections::HashSet<String>> {
    use crate::world::{Op, Tok};
    let mut cfgs = crate::configs::family_opt(unit, tier)?;
    for c in &mut cfgs {
        let owners: Vec<u16> = c.slots.iter().map(|s| s.owner).collect();
        let keep = |o: &Op| match (f, o) {
            (Feature::Withdrawals, Op::Withdraw(..)) => false,
            (Feature::Closes, Op::Close(..)) => false,
            (Feature::Disposal, Op::Unsold) => false,
            (Feature::OtherPayers, Op::Deposit(u, _, p)) => owners[*u as usize] == *p,
            _ => true,
        };
        c.ops.retain(keep);
        c.prefix.retain(keep);
        match f {
            Feature::Fees => c.args.regs.iter_mut().for_each(|r| r.bps = 0),
            Feature::EarlyEnd => c.args.disable_early = 1,
            Feature::PersonalCaps => c.slots.iter_mut().for_each(|s| s.cap = c.args.max_cap),
            Feature::Tokens => (c.base, c.quote) = (Tok::Spl, Tok::Spl),
            _ => {}
        }
    }
    Some(explore_all(&cfgs, &|_| false, threads).0.foreign.into_keys().collect())
}
