//! Runs one transaction at a time against the real contracts, compares what happened with
//! the reference model and with independent invariants, and books what was observed.
use crate::exec;
use crate::model::*;
use crate::num::*;
use crate::state::*;
use crate::vm::*;
use crate::world::*;
use num_traits::Zero;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Finding {
    pub props: Vec<&'static str>,
    pub what: String,
}

#[derive(Default)]
pub struct Cov {
    pub n: BTreeMap<String, u64>,
    pub sigs: BTreeSet<String>,
    pub samples: Vec<String>,
    pub evals: u64,
}
impl Cov {
    pub fn hit(&mut self, k: &str) {
        *self.n.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &str, v: u64) {
        *self.n.entry(k.to_string()).or_insert(0) += v;
    }
}

pub enum Sole {
    Fine,
    Only(Why, String),
    Junk,
}
pub struct Eng {
    pub w: World,
    pub pre: State,
    pub prop: String,
    pub trace: Vec<String>,
    pub cov: Cov,
    pub findings: Vec<Finding>,
    pub log: Option<std::fs::File>,
    /// operations per market, for the accumulated rounding allowance
    pub ops: Vec<u64>,
    /// markets whose supply index a total write-off has brought down to (nearly) nothing
    pub collapsed: Vec<bool>,
    /// what one unit of the supply index was worth at every synchronisation so far, summed
    pub dust: Vec<U>,
    pub last_out: Option<TxOut>,
    pub steps: u64,
    /// the last transaction moved prices itself
    pub moved: bool,
}

fn act_props(a: &Act) -> Vec<&'static str> {
    match a {
        Act::Supply { .. } | Act::Withdraw { .. } | Act::Borrow { .. } | Act::Repay { .. } => vec!["P21"],
        Act::Liquidate { .. } => vec!["P07"],
        Act::Flash { .. } => vec!["P09"],
        Act::Threshold { .. } => vec!["P23"],
        Act::UpdateIdx { .. } => vec!["P03"],
        Act::Clean { .. } => vec!["P08"],
        Act::Multiply { .. } | Act::SwapDebt { .. } | Act::SwapColl { .. } | Act::RepayColl { .. } => vec!["P19"],
        Act::Claim { .. } | Act::Rewards { .. } => vec!["P18"],
        Act::PoolParams { .. } => vec!["P20", "P03"],
        Act::Pause { .. } | Act::Unpause { .. } | Act::Upgrade { .. } => vec!["P14"],
        Act::SendNft { .. } => vec!["P13"],
        _ => vec!["P20"],
    }
}
fn user_op(a: &Act) -> bool {
    matches!(
        a,
        Act::Supply { .. } | Act::Withdraw { .. } | Act::Borrow { .. } | Act::Repay { .. } | Act::Liquidate { .. }
            | Act::Flash { .. } | Act::Threshold { .. } | Act::UpdateIdx { .. } | Act::Clean { .. } | Act::Multiply { .. }
            | Act::SwapDebt { .. } | Act::SwapColl { .. } | Act::RepayColl { .. }
    )
}
pub fn why_props(w: &Why, a: &Act) -> Vec<&'static str> {
    let mut v = match w {
        Why::Ltv | Why::Health => vec!["P05"],
        Why::BorrowCap | Why::SupplyCap => vec!["P10"],
        Why::Iso | Why::Ceiling => vec!["P11"],
        Why::Silo | Why::EMode | Why::NotColl | Why::NotBorrow => vec!["P12"],
        Why::Holder => vec!["P13"],
        Why::Inactive => vec!["P13", "P24"],
        Why::Paused | Why::Access => vec!["P14"],
        Why::Price(_) => vec!["P15"],
        Why::Limits => vec!["P22"],
        Why::Healthy => vec!["P06"],
        Why::Flash => vec!["P09"],
        Why::NotBad => vec!["P08"],
        Why::Config => vec!["P20"],
        Why::Buffer => vec!["P23"],
        Why::Reserves => vec!["P01"],
        Why::Funds => vec!["P01", "P24"],
        Why::Args | Why::NoPosition | Why::Zero | Why::Unsupported => vec!["P24"],
        Why::Mode | Why::Router => vec!["P19", "P24"],
    };
    if matches!(w, Why::Reserves | Why::NoPosition | Why::Args | Why::Funds | Why::Unsupported | Why::Zero) {
        v.extend(act_props(a));
    }
    if matches!(w, Why::EMode) && matches!(a, Act::Threshold { .. }) {
        v.push("P23");
    }
    if matches!(w, Why::Health | Why::Ltv) && matches!(a, Act::Borrow { .. }) {
        v.push("P15");
    }
    // something that is not the account's token passed for it
    let odd = match a {
        Act::Supply { pays, .. } | Act::Withdraw { pays, .. } | Act::Borrow { pays, .. } | Act::Multiply { pays, .. }
        | Act::SwapDebt { pays, .. } | Act::SwapColl { pays, .. } | Act::RepayColl { pays, .. } => pays.first().map_or(true, |p| p.token != ACC),
        _ => false,
    };
    if odd && matches!(w, Why::Args | Why::Unsupported) {
        v.push("P13");
    }
    if matches!(w, Why::Access) {
        if matches!(a, Act::Rewards { .. }) {
            v.push("P18");
        }
    }
    v
}
/// a transaction the rules allow was refused
pub fn refused_props(a: &Act, msg: &str) -> Vec<&'static str> {
    let mut v = act_props(a);
    match a {
        Act::Liquidate { .. } => v.push("P06"),
        Act::Unpause { .. } => v.push("P14"),
        _ => {}
    }
    let m = msg.to_lowercase();
    for (k, p) in [
        ("cap", "P10"),
        ("ceiling", "P11"),
        ("isolat", "P11"),
        ("silo", "P12"),
        ("e-mode", "P12"),
        ("emode", "P12"),
        ("mode", "P12"),
        ("collateral", "P12"),
        ("borrow", "P12"),
        ("position limit", "P22"),
        ("limit", "P22"),
        ("paused", "P14"),
        ("flash", "P09"),
        ("price", "P15"),
        ("oracle", "P15"),
        ("tolerance", "P15"),
        ("stale", "P15"),
        ("pair", "P15"),
        ("collateral", "P05"),
        ("health", "P05"),
        ("health", "P23"),
        ("account", "P13"),
        ("nft", "P13"),
        ("owner", "P14"),
        ("bad debt", "P08"),
        ("attempt to", "P24"),
        ("overflow", "P24"),
        ("negative", "P24"),
        ("subtract", "P24"),
        ("panic", "P24"),
        ("divi", "P24"),
        ("liquidity", "P01"),
        ("insufficient", "P01"),
        ("reserve", "P01"),
    ] {
        if m.contains(k) {
            v.push(p);
        }
    }
    // exits must keep working under any limit or cap
    if matches!(a, Act::Withdraw { .. } | Act::Repay { .. }) {
        if m.contains("cap") {
            v.push("P10");
        }
    }
    if matches!(a, Act::Withdraw { .. } | Act::Repay { .. } | Act::Liquidate { .. } | Act::Unpause { .. }) {
        v.push("P27");
    }
    v
}
fn diff_props(a: &Act, d: &Diff) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = vec![];
    let ap = act_props(a);
    match d.kind {
        DK::Index => {
            v.push("P03");
            v.push("P01");
            match a {
                Act::Clean { .. } => v.push("P08"),
                Act::Rewards { .. } | Act::Claim { .. } => v.push("P18"),
                _ => {}
            }
        }
        DK::Totals => {
            v.push("P02");
            v.extend(ap);
        }
        DK::Revenue => {
            v.push("P18");
            if !matches!(a, Act::Liquidate { .. } | Act::Flash { .. } | Act::Multiply { .. } | Act::SwapDebt { .. } | Act::Clean { .. }) {
                v.push("P03");
            }
            v.extend(ap);
        }
        DK::RateParams => v.extend(["P20", "P03"]),
        DK::PosAmount(n) | DK::PosExist(n) => {
            v.push("P02");
            v.extend(ap);
            let target = match a {
                Act::Liquidate { acct, .. } | Act::Clean { acct, .. } | Act::Repay { acct, .. } => Some(*acct),
                _ => None,
            };
            if target.is_some() && target != Some(n) {
                v.extend(["P06", "P21"]);
            }
            if matches!(a, Act::Repay { .. }) {
                v.push("P06");
            }
        }
        DK::PosRisk(_) => {
            v.extend(["P12", "P23"]);
            // the risk settings of a deposit a stranger makes or reprices
            if matches!(a, Act::Supply { .. } | Act::Threshold { .. } | Act::Repay { .. }) {
                v.push("P06");
            }
        }
        DK::Attrs(_) => v.extend(["P13", "P11", "P12"]),
        DK::Listed => v.extend(["P13", "P02"]),
        DK::Nft => v.push("P13"),
        DK::Iso => v.push("P11"),
        DK::Config => {
            v.push("P20");
            if d.what.starts_with("limits") {
                v.push("P22");
            }
        }
        DK::EModes => v.extend(["P20", "P12"]),
        DK::Oracle => v.extend(["P20", "P15"]),
        DK::Wallet(_) => {
            v.extend(ap);
            if matches!(a, Act::Liquidate { .. }) {
                v.push("P01");
            }
        }
        DK::Pool(_) => {
            v.extend(ap);
            v.push("P01");
        }
        DK::Controller => {
            v.push("P19");
            v.extend(ap);
        }
        DK::Flags => v.extend(["P09", "P14"]),
        DK::Undecodable => v.extend(["P02", "P24"]),
    }
    v
}

/// which of the transactions count as an evaluation of a property
pub fn relevant(prop: &str, a: &Act, why: Option<&Why>) -> bool {
    match prop {
        "P01" | "P02" | "P03" | "P25" => !matches!(a, Act::SendNft { .. }),
        "P05" => matches!(a, Act::Borrow { .. } | Act::Withdraw { .. } | Act::Multiply { .. } | Act::SwapColl { .. } | Act::SwapDebt { .. } | Act::RepayColl { .. }),
        "P06" => true,
        "P07" => matches!(a, Act::Liquidate { .. }),
        "P08" => matches!(a, Act::Clean { .. } | Act::Liquidate { .. }),
        "P09" => matches!(a, Act::Flash { .. }),
        "P10" => matches!(a, Act::Borrow { .. } | Act::Supply { .. } | Act::Multiply { .. } | Act::SwapColl { .. } | Act::SwapDebt { .. } | Act::Withdraw { .. } | Act::Repay { .. } | Act::Liquidate { .. }),
        "P11" | "P12" | "P13" | "P22" => user_op(a),
        "P14" => true,
        "P15" => user_op(a),
        "P18" => !matches!(a, Act::SendNft { .. }),
        "P19" => matches!(a, Act::Multiply { .. } | Act::SwapColl { .. } | Act::SwapDebt { .. } | Act::RepayColl { .. }),
        "P20" => !user_op(a),
        "P27" => matches!(a, Act::Withdraw { .. } | Act::Repay { .. } | Act::Liquidate { .. } | Act::Unpause { .. }),
        "P21" => matches!(a, Act::Supply { .. } | Act::Withdraw { .. } | Act::Borrow { .. } | Act::Repay { .. }),
        "P23" => matches!(a, Act::Threshold { .. } | Act::Supply { .. } | Act::EditAsset { .. } | Act::EditEMode { .. } | Act::Borrow { .. } | Act::Withdraw { .. } | Act::Liquidate { .. }),
        _ => {
            let _ = why;
            true
        }
    }
}

fn uniq(mut v: Vec<&'static str>) -> Vec<&'static str> {
    v.sort();
    v.dedup();
    v
}

impl Eng {
    pub fn new(w: World, prop: &str) -> Eng {
        let pre = State::read(&w);
        let n = w.assets.len();
        Eng {
            w,
            pre,
            prop: prop.to_string(),
            trace: vec![],
            cov: Cov::default(),
            findings: vec![],
            log: None,
            ops: vec![0; n],
            collapsed: vec![false; n],
            dust: vec![zero(); n],
            last_out: None,
            steps: 0,
            moved: false,
        }
    }
    /// forget the previous episode
    pub fn reset(&mut self) {
        self.trace.clear();
        self.findings.clear();
        self.ops = vec![0; self.w.assets.len()];
        self.collapsed = vec![false; self.w.assets.len()];
        self.dust = vec![zero(); self.w.assets.len()];
        self.last_out = None;
        self.refresh();
    }
    pub fn refresh(&mut self) {
        self.pre = State::read(&self.w);
        self.ops.resize(self.w.assets.len(), 0);
        self.collapsed.resize(self.w.assets.len(), false);
        self.dust.resize(self.w.assets.len(), zero());
    }
    pub fn note(&mut self, s: String) {
        use std::io::Write;
        if let Some(f) = &mut self.log {
            let _ = writeln!(f, "{}", s);
        }
        self.trace.push(s);
    }
    pub fn report(&mut self, props: Vec<&'static str>, what: String) {
        let props = uniq(props);
        self.note(format!("  !! {} {}", props.join(","), what));
        self.findings.push(Finding { props, what });
    }
    pub fn hit_violation(&self) -> bool {
        self.findings.iter().any(|f| f.props.iter().any(|p| *p == self.prop))
    }
    /// what the rules say would happen
    pub fn predict(&self, a: &Act) -> Option<(R<()>, State, bool, Vec<&'static str>)> {
        self.predict_on(&self.pre, a)
    }
    /// the transaction went as if some position had the asset's present settings instead of its own
    fn settings_of_the_day(&self, a: &Act, ok: bool, post: &State) -> bool {
        for k in 0..5 {
            let mut s = self.pre.clone();
            let mut changed = false;
            for ((acct, side, i), p) in s.pos.iter_mut() {
                let (Some(c), true) = (&self.pre.cfg[*i], *side == DEP) else { continue };
                let (mut thr, mut bonus, fee, mut ltv) = (c.thr.clone(), c.bonus.clone(), c.fee.clone(), c.ltv.clone());
                let e = self.pre.attrs.get(acct).map_or(0, |x| x.emode);
                if let Some(m) = self.pre.emodes.get(&e) {
                    if m.assets.contains_key(i) {
                        (thr, bonus, ltv) = (m.thr.clone(), m.bonus.clone(), m.ltv.clone());
                    }
                }
                for (j, old, new) in [(0, &mut p.thr, thr), (1, &mut p.bonus, bonus), (2, &mut p.fee, fee), (3, &mut p.ltv, ltv)] {
                    if (k == 4 || k == j) && *old != new {
                        *old = new;
                        changed = true;
                    }
                }
            }
            if !changed {
                continue;
            }
            let Some((r, m, ..)) = self.predict_on(&s, a) else { continue };
            if r.is_ok() == ok && (!ok || compare(&self.w, &m, post, &Tol { units: 0 }).iter().all(|d| matches!(d.kind, DK::PosRisk(_)))) {
                return true;
            }
        }
        false
    }
    fn predict_on(&self, pre: &State, a: &Act) -> Option<(R<()>, State, bool, Vec<&'static str>)> {
        let w = &self.w;
        catch_unwind(AssertUnwindSafe(|| {
            let mut m = M::new(w, pre);
            let r = m.run(a);
            (r, m.s, m.maybe, m.tags)
        }))
        .ok()
    }
    /// the single rule standing between this transaction and success, if there is just one
    pub fn sole(&self, a: &Act) -> Sole {
        let r = match self.predict(a) {
            None => return Sole::Junk,
            Some((Ok(()), ..)) => return Sole::Fine,
            Some((Err(r), ..)) => r,
        };
        let key = match r.why {
            Why::Health => "health".to_string(),
            Why::Healthy => "healthy".to_string(),
            Why::Price(_) => "price".to_string(),
            _ => r.what.clone(),
        };
        crate::model::LIFT.with(|l| *l.borrow_mut() = Some(key.clone()));
        let ok = self.accepts(a);
        crate::model::LIFT.with(|l| *l.borrow_mut() = None);
        if ok {
            Sole::Only(r.why, if key == "price" { format!("{:?}", r.why) } else { key })
        } else {
            Sole::Junk
        }
    }
    pub fn accepts(&self, a: &Act) -> bool {
        matches!(self.predict(a), Some((Ok(()), ..)))
    }

    /// execute, compare, check invariants; true when the transaction succeeded
    pub fn step(&mut self, a: &Act) -> bool {
        self.steps += 1;
        let line = exec::show(&self.w, a);
        self.note(line);
        let pred = self.predict(a);
        let out = exec::exec(&mut self.w, a);
        // prices that moved inside the transaction: the rules judge the result, not the verdict
        let moved = self.w.settle_pokes();
        self.moved = moved;
        let post = State::read(&self.w);
        let why = match &pred {
            Some((Err(r), ..)) => Some(r.why),
            _ => None,
        };
        self.note(format!(
            "  -> {}{}",
            if out.ok { "ok".to_string() } else { format!("refused: {}", out.msg) },
            match &pred {
                None => " (model undefined)".to_string(),
                Some((Err(r), ..)) => format!(" (rules: {:?} {})", r.why, r.what),
                _ => String::new(),
            }
        ));
        let mut sig = format!("{} {}", a.name(), if out.ok { "ok" } else { "refused" });
        if let Some(y) = &why {
            sig += &format!(" {:?}", y);
        }
        self.cov.hit(&sig);
        let rel = relevant(&self.prop, a, why.as_ref());
        if rel {
            self.cov.evals += 1;
        }
        let found = self.findings.len();
        match &pred {
            _ if moved => self.cov.hit(if out.ok { "prices moved during the swap: accepted" } else { "prices moved during the swap: refused" }),
            None => self.cov.hit("model undefined"),
            Some((res, ms, maybe, tags)) => {
                for t in tags {
                    self.cov.hit(&format!("seen: {}", t));
                    sig += " ";
                    sig += t;
                }
                match (res, out.ok) {
                    // a price too small to be quoted: the rules say nothing
                    (Err(r), true) if r.why == Why::Price(crate::px::PErr::Zero) => self.cov.hit("zero price: not judged"),
                    (Err(r), true) => {
                        self.report(why_props(&r.why, a), format!("{} succeeded although: {}", a.name(), r.what));
                    }
                    (Ok(()), false) => {
                        if !*maybe {
                            self.report(refused_props(a, &out.msg), format!("{} refused ({}) although the rules allow it", a.name(), out.msg));
                        }
                    }
                    (Err(_), false) => {
                        let d = compare(&self.w, &self.pre, &post, &Tol { units: 0 });
                        if let Some(x) = d.first() {
                            let mut p = vec!["P24"];
                            p.extend(act_props(a));
                            if matches!(why, Some(Why::Paused) | Some(Why::Access)) {
                                p.push("P14");
                            }
                            self.report(p, format!("refused {} had an effect: {}", a.name(), x.what));
                        }
                    }
                    (Ok(()), true) => {
                        let d = compare(&self.w, ms, &post, &Tol { units: 0 });
                        for x in d.iter().take(12) {
                            self.report(diff_props(a, x), format!("after {}: {}", a.name(), x.what));
                        }
                    }
                }
            }
        }
        if self.prop == "P23" && self.findings.len() > found && !self.hit_violation() && user_op(a) && self.settings_of_the_day(a, out.ok, &post) {
            self.report(vec!["P23"], format!("{} went as if positions had the present settings instead of their own", a.name()));
        }
        if !out.ok {
            let m = out.msg.to_lowercase();
            // (dividing a big number by zero is an ordinary error; where the rules allow the call it is reported above)
            if crate::sweep::machine_panic(&m) {
                self.report(vec!["P24"], format!("{} ended in a machine panic: {}", a.name(), out.msg));
            }
        }
        if rel {
            self.bucket(a, &post, &mut sig);
            if self.cov.sigs.insert(sig.clone()) && self.cov.samples.len() < 12 {
                let l = self.trace[self.trace.len().saturating_sub(2)].clone();
                self.cov.samples.push(format!("{} :: {}", sig, l.chars().take(200).collect::<String>()));
            }
        }
        if out.ok {
            self.invariants(a, &post);
            if self.prop == "P25" {
                let mut rep = vec![];
                self.events(a, &out, &post, &mut rep);
                for (p, w) in rep {
                    self.report(p, w);
                }
            }
        }
        self.last_out = Some(out.clone());
        self.pre = post;
        out.ok
    }
    /// coarse features that make two evaluations different
    fn bucket(&self, a: &Act, _post: &State, sig: &mut String) {
        let toks = |l: &[Pay]| -> String {
            l.iter().map(|p| self.w.asset_ix(&p.token).map(|i| self.w.assets[i].name).unwrap_or(if p.token == ACC { "#" } else { "?" })).collect::<Vec<_>>().join("+")
        };
        let t = match a {
            Act::Supply { pays, .. } | Act::Repay { pays, .. } | Act::Liquidate { pays, .. } | Act::Rewards { pays, .. } => toks(pays),
            Act::Withdraw { items, .. } | Act::Borrow { items, .. } => toks(items),
            Act::Flash { asset, .. } | Act::Threshold { asset, .. } => toks(&[Pay::new(asset, u(1))]),
            Act::Multiply { coll, debt, .. } => toks(&[Pay::new(coll, u(1)), Pay::new(debt, u(1))]),
            Act::SwapDebt { old, new, .. } => toks(&[Pay::new(old, u(1)), Pay::new(new, u(1))]),
            Act::SwapColl { cur, new, .. } => toks(&[Pay::new(cur, u(1)), Pay::new(new, u(1))]),
            Act::RepayColl { from, to, .. } => toks(&[Pay::new(from, u(1)), Pay::new(to, u(1))]),
            Act::PoolParams { asset, .. } | Act::EditAsset { asset, .. } => self.w.assets[*asset].name.to_string(),
            _ => String::new(),
        };
        sig.push(' ');
        sig.push_str(&t);
    }

    // ------------------------------------------------------------ invariants
    pub fn invariants(&mut self, a: &Act, post: &State) {
        let now = post.now * 1000;
        let na = self.w.actors.len();
        let mut rep: Vec<(Vec<&'static str>, String)> = vec![];
        // P01: equity of each market never falls through a transaction
        for i in 0..self.w.assets.len() {
            let name = self.w.assets[i].name;
            let q = &post.pools[i];
            if &self.pre.pools[i] != q || self.pre.bal[na + i][i] != post.bal[na + i][i] {
                self.ops[i] += 1;
                self.dust[i] += self.pre.pools[i].supplied.clone().max(q.supplied.clone()) / ray();
            }
            if q.sidx < p10(18) || self.pre.pools[i].sidx < p10(18) {
                self.collapsed[i] = true;
            }
            let tag = if self.collapsed[i] { "supply index collapsed by a total write-off: " } else { "" };
            let unit = p10(27 - q.dec.min(27));
            let bal = rescale(&post.bal[na + i][i], q.dec, 27);
            let assets = &bal + mulr(&q.borrowed, &q.bidx);
            let claims = mulr(&q.supplied, &q.sidx);
            // one unit of the scaled amounts is worth index/RAY (large after donations to a tiny market)
            let grain = (&q.sidx + &q.bidx) / ray() + 1u32;
            // and one unit of the supply index is worth supplied/RAY
            let grain = if self.collapsed[i] { grain } else { grain + self.pre.pools[i].supplied.clone().max(q.supplied.clone()) / ray() };
            let dust = if self.collapsed[i] { zero() } else { self.dust[i].clone() };
            let slack = (&unit + &grain) * (self.ops[i] + 1) + dust + &claims / p10(20) + u(1_000);
            if &assets + &slack < claims {
                rep.push((vec!["P01"], format!("{}market {}: balance plus debts {} below claims {}", tag, name, assets, claims)));
            }
            let p = match catch_unwind(AssertUnwindSafe(|| synced(&self.pre.pools[i], now))) {
                Ok(p) => p,
                Err(_) => continue,
            };
            let Ok(q2) = catch_unwind(AssertUnwindSafe(|| synced(q, now))) else { continue };
            let assets = bal + mulr(&q2.borrowed, &q2.bidx);
            let claims = mulr(&q2.supplied, &q2.sidx);
            let pb = rescale(&self.pre.bal[na + i][i], p.dec, 27) + mulr(&p.borrowed, &p.bidx);
            let pc = mulr(&p.supplied, &p.sidx);
            let one = (&unit + &grain) * (2 + 2 * touches(a)) + (&pc + &claims) / p10(21) + u(1_000);
            // equity before (may be negative by earlier rounding): pb - pc; after: assets - claims
            // a written-off debt beyond all claims has nobody left to charge
            let wiped = matches!(a, Act::Clean { .. }) && claims <= &unit * 2u32;
            if !wiped && &assets + &pc + &one < &pb + &claims {
                rep.push((vec!["P01"], format!("{}market {}: {} took value out (assets {} -> {}, claims {} -> {})", tag, name, a.name(), pb, assets, pc, claims)));
            }
            // P03: monotone indexes
            let o = &self.pre.pools[i];
            if q.bidx < o.bidx || (q.sidx < o.sidx && !matches!(a, Act::Clean { .. })) {
                rep.push((vec!["P03"], format!("market {}: index decreased by {} ({} {} -> {} {})", name, a.name(), o.sidx, o.bidx, q.sidx, q.bidx)));
            }
            if q.last < o.last || q.last > now {
                rep.push((vec!["P03"], format!("market {}: sync time {} -> {} at {}", name, o.last, q.last, now)));
            }
            // anything that moved principal synced first
            if (q.supplied != o.supplied || q.borrowed != o.borrowed) && q.last != now {
                rep.push((vec!["P03"], format!("market {}: {} moved principal without accruing first", name, a.name())));
            }
        }
        // P02 sums
        let n = self.w.assets.len();
        let mut sup = vec![zero(); n];
        let mut bor = vec![zero(); n];
        for ((acct, side, i), p) in &post.pos {
            // (a unit can be worth less than the least scaled amount after donations to a tiny market)
            let q = &post.pools[*i];
            let ix = if *side == DEP { &q.sidx } else { &q.bidx };
            if p.scaled.is_zero() && ix < &(ray() * p10(27 - q.dec.min(27))) {
                rep.push((vec!["P02"], format!("account {} has an empty position in {}", acct, self.w.assets[*i].name)));
            }
            if *side == DEP {
                sup[*i] += &p.scaled;
            } else {
                bor[*i] += &p.scaled;
            }
            if !post.listed.contains(acct) {
                rep.push((vec!["P02"], format!("account {} holds a position but is not listed", acct)));
            }
        }
        for i in 0..n {
            let q = &post.pools[i];
            let s = &sup[i] + &q.revenue;
            let sl = &s / p10(24) + u(10) * (self.ops[i] + 5);
            if absdiff(&s, &q.supplied) > sl {
                rep.push((vec!["P02"], format!("market {}: deposits plus treasury {} differ from total {}", self.w.assets[i].name, s, q.supplied)));
            }
            let sl = &bor[i] / p10(24) + u(10) * (self.ops[i] + 5);
            if absdiff(&bor[i], &q.borrowed) > sl {
                rep.push((vec!["P02"], format!("market {}: debts {} differ from total {}", self.w.assets[i].name, bor[i], q.borrowed)));
            }
        }
        if post.listed_dup {
            rep.push((vec!["P02", "P13"], "account listed twice".into()));
        }
        // P06 / P13: strangers
        let by = a.by();
        for acct in self.pre.accounts() {
            let own = self.pre.holder(acct) == Some(by);
            let target = matches!(a, Act::Liquidate { acct: t, .. } | Act::Clean { acct: t, .. } if *t == acct);
            if own || target {
                continue;
            }
            for i in 0..n {
                let z = zero();
                let g = |s: &State, side: u8| s.pos.get(&(acct, side, i)).map(|p| p.scaled.clone()).unwrap_or_else(|| z.clone());
                if g(post, DEP) < g(&self.pre, DEP) {
                    rep.push((vec!["P06", "P13"], format!("{} by a stranger lowered account {}'s {} deposit", a.name(), acct, self.w.assets[i].name)));
                }
                if g(post, BOR) > g(&self.pre, BOR) {
                    rep.push((vec!["P06", "P13"], format!("{} by a stranger raised account {}'s {} debt", a.name(), acct, self.w.assets[i].name)));
                }
            }
        }
        self.unharmed(a, post, &mut rep);
        // P13 tokens
        for (acct, h) in &post.nft {
            if h.len() != 1 || h[0].1 != u(1) {
                rep.push((vec!["P13"], format!("account {} token held {:?}", acct, h)));
            }
            if h.iter().any(|x| x.0 == CTRL || x.0 >= na) {
                rep.push((vec!["P13"], format!("account {} token kept by the protocol", acct)));
            }
        }
        for acct in &post.listed {
            if !post.nft.contains_key(acct) {
                rep.push((vec!["P13"], format!("open account {} has no token", acct)));
            }
        }
        // P19 the controller keeps nothing
        for (t, b) in post.bal[CTRL].iter().enumerate() {
            if b > &self.pre.bal[CTRL][t] {
                rep.push((vec!["P19"], format!("controller kept {} of token {} after {}", b, t, a.name())));
            }
        }
        // P11 / P12 shapes
        for acct in post.accounts() {
            let dep: Vec<usize> = post.side(acct, DEP).iter().map(|x| x.0).collect();
            let bor: Vec<usize> = post.side(acct, BOR).iter().map(|x| x.0).collect();
            if let Some(at) = post.attrs.get(&acct) {
                if at.iso {
                    if dep.iter().any(|d| Some(*d) != at.iso_token) || at.emode != 0 {
                        rep.push((vec!["P11"], format!("isolated account {} holds {:?} with category {}", acct, dep, at.emode)));
                    }
                }
            }
            if bor.len() > 1 && bor.iter().any(|i| !self.pre.pos.contains_key(&(acct, BOR, *i))) {
                for i in &bor {
                    if post.cfg[*i].as_ref().map_or(false, |c| c.siloed) {
                        rep.push((vec!["P12"], format!("account {} owes siloed {} next to {:?}", acct, self.w.assets[*i].name, bor)));
                    }
                }
            }
            // P22
            for (side, lim, now_n) in [(DEP, post.limits.1, dep.len()), (BOR, post.limits.0, bor.len())] {
                let was = self.pre.side(acct, side).len();
                if now_n > was && now_n > lim as usize {
                    rep.push((vec!["P22"], format!("account {} has {} positions on side {} with limit {}", acct, now_n, side, lim)));
                }
            }
        }
        // P20 shapes
        for i in 0..n {
            if let Some(c) = &post.cfg[i] {
                let ok = c.thr > c.ltv || (c.thr.is_zero() && c.ltv.is_zero());
                if !ok {
                    rep.push((vec!["P20"], format!("{}: threshold {} not above loan-to-value {}", self.w.assets[i].name, c.thr, c.ltv)));
                }
                if c.emode == post.asset_modes[i].is_empty() {
                    rep.push((vec!["P20"], format!("{}: category flag {} but member of {:?}", self.w.assets[i].name, c.emode, post.asset_modes[i])));
                }
            }
            for (id, e) in &post.emodes {
                if e.assets.contains_key(&i) != post.asset_modes[i].contains(id) {
                    rep.push((vec!["P20"], format!("{}: membership of category {} disagrees", self.w.assets[i].name, id)));
                }
            }
            if let Some(o) = &post.oracles[i] {
                let r = |x: &U, lo: u64, hi: u64| x >= &U::from(10_000 + lo) && x <= &U::from(10_000 + hi);
                if !r(&o.up1, 50, 5_000) || !r(&o.up2, 150, 10_000) || o.up2 < o.up1 || o.lo2 > o.lo1 || o.lo1 > u(10_000) || o.lo2.is_zero() {
                    rep.push((vec!["P20"], format!("{}: tolerances {} {} {} {}", self.w.assets[i].name, o.up1, o.lo1, o.up2, o.lo2)));
                }
            }
        }
        for (k, ad) in post.addrs.iter().enumerate() {
            if ad[..8] != [0u8; 8] || *ad == [0u8; 32] {
                rep.push((vec!["P20"], format!("referenced address {} is not a contract", k)));
            }
        }
        if let Act::Flash { by, to, .. } = a {
            if self.w.vm.storage(&self.w.actors[*to], b"initiator") != self.w.actors[*by].to_vec() {
                rep.push((vec!["P09"], "the receiver of the flash loan was not told who asked for it".to_string()));
            }
        }
        if post.flash {
            rep.push((vec!["P09"], format!("flash-loan flag still set after {}", a.name())));
        }
        // P05: owner actions leave the account covered
        self.covered(a, post, &mut rep);
        for (p, w) in rep {
            self.report(p, w);
        }
    }

    /// a stranger's transaction leaves every debtor at least as healthy (write-offs and parameter updates aside)
    fn unharmed(&mut self, a: &Act, post: &State, rep: &mut Vec<(Vec<&'static str>, String)>) {
        if self.prop != "P06" || self.moved || matches!(a, Act::Clean { .. } | Act::Threshold { .. } | Act::SetOracle { .. } | Act::Tolerance { .. }) {
            return;
        }
        let by = a.by();
        for acct in self.pre.accounts() {
            let target = matches!(a, Act::Liquidate { acct: t, .. } if *t == acct);
            if self.pre.holder(acct) == Some(by) || target || self.pre.side(acct, BOR).is_empty() || post.side(acct, BOR).is_empty() {
                continue;
            }
            let hf = |s: &State| {
                catch_unwind(AssertUnwindSafe(|| {
                    let mut m = M::new(&self.w, s);
                    m.allow = true;
                    m.sums(acct).ok().map(|x| (x.hf(), x.debt))
                }))
                .ok()
                .flatten()
            };
            let (Some((h0, d0)), Some((h1, d1))) = (hf(&self.pre), hf(post)) else { continue };
            self.cov.hit("bystanders' health compared");
            // debts of tiny worth are all rounding
            if d0 > p10(21) && d1 > p10(21) && &h1 + &h1 / p10(9) + u(1_000) < h0 {
                rep.push((vec!["P06"], format!("{} by a stranger lowered account {}'s health {} -> {}", a.name(), acct, h0, h1)));
            }
        }
    }

    fn covered(&mut self, a: &Act, post: &State, rep: &mut Vec<(Vec<&'static str>, String)>) {
        let acct = match a {
            Act::Withdraw { pays, .. } | Act::Borrow { pays, .. } | Act::SwapDebt { pays, .. } | Act::SwapColl { pays, .. } | Act::RepayColl { pays, .. } => {
                match pays.iter().find(|p| p.token == ACC) {
                    Some(p) => p.nonce,
                    None => return,
                }
            }
            Act::Multiply { pays, .. } => match pays.iter().find(|p| p.token == ACC) {
                Some(p) => p.nonce,
                None => post.last_nonce,
            },
            _ => return,
        };
        if post.side(acct, BOR).is_empty() {
            return;
        }
        let w = &self.w;
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut m = M::new(w, post);
            m.allow = false;
            m.sums(acct)
        }));
        let Ok(r) = r else { return };
        match r {
            Err(e) if e.why == Why::Price(crate::px::PErr::Zero) => {}
            Err(e) => rep.push((vec!["P15"], format!("{} succeeded with debt while {}", a.name(), e.what))),
            Ok(s) => {
                self.cov.hit("covered accounts checked");
                if matches!(a, Act::Borrow { .. }) && s.debt > s.ltv {
                    // the check runs before the debt index is rounded
                    if &s.debt - &s.ltv > &s.debt / p10(15) + u(1_000_000_000_000) {
                        rep.push((vec!["P05"], format!("after borrow account {} owes {} against {}", acct, s.debt, s.ltv)));
                    }
                }
                if !matches!(a, Act::Borrow { .. }) && s.hf() < ray() {
                    let short = ray() - s.hf();
                    if short > p10(12) {
                        rep.push((vec!["P05"], format!("after {} account {} has health factor {}", a.name(), acct, s.hf())));
                    }
                }
            }
        }
    }
}

/// number of token movements a transaction may round separately
fn touches(a: &Act) -> u64 {
    match a {
        Act::Supply { pays, .. } | Act::Repay { pays, .. } => pays.len() as u64,
        Act::Liquidate { pays, .. } => pays.len() as u64 + 12,
        Act::Withdraw { items, .. } | Act::Borrow { items, .. } => items.len() as u64,
        Act::Clean { .. } => 12,
        _ => 4,
    }
}
