//! One episode: a fresh world, initial liquidity, then a random history shaped by the
//! property's profile, with directed scenarios mixed in.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::num::*;
use crate::vm::*;

pub struct Profile {
    pub acts: Vec<(&'static str, u64)>,
    pub envs: Vec<(&'static str, u64)>,
    /// percent of steps that change the environment / spoil the action
    pub env: u64,
    pub spoil: u64,
    pub steps: u64,
    /// percent of episodes starting with a directed scenario
    pub directed: u64,
    pub scen: Vec<&'static str>,
}

fn set(v: &mut Vec<(&'static str, u64)>, ch: &[(&'static str, u64)]) {
    for (k, n) in ch {
        if let Some(x) = v.iter_mut().find(|x| x.0 == *k) {
            x.1 = *n;
        } else {
            v.push((k, *n));
        }
    }
}

pub fn profile(prop: &str) -> Profile {
    let mut acts: Vec<(&'static str, u64)> = vec![
        ("open", 14), ("topup", 10), ("withdraw", 14), ("borrow", 18), ("repay", 10), ("liquidate", 8), ("flash", 4),
        ("threshold", 3), ("index", 3), ("clean", 2), ("claim", 3), ("rewards", 2), ("multiply", 6), ("swapdebt", 4),
        ("swapcoll", 5), ("repaycoll", 5), ("sendnft", 1), ("poolparams", 1), ("editasset", 1), ("emodecfg", 1), ("limits", 0),
        ("tolerance", 0), ("setaddr", 0), ("again", 0), ("upgradepool", 0), ("pause", 0),
    ];
    let mut envs: Vec<(&'static str, u64)> = vec![
        ("tick", 20), ("long", 20), ("move", 12), ("rate", 5), ("deviate", 3), ("stale", 2), ("inactive", 1), ("aggpause", 0),
        ("missing", 0), ("unbalance", 2), ("rebalance", 1), ("heal", 14), ("crash", 12),
    ];
    let (mut env, mut spoil, steps, mut directed) = (28, 4, 60, 45);
    let mut scen: Vec<&'static str> = vec![];
    match prop {
        "P01" => {
            set(&mut acts, &[("flash", 8), ("claim", 6), ("rewards", 4), ("clean", 5), ("liquidate", 12), ("poolparams", 2)]);
            scen = vec!["thin", "baddebt", "liqmulti", "repaycoll", "rebirth"];
        }
        "P02" => {
            set(&mut acts, &[("clean", 5), ("liquidate", 12), ("claim", 5), ("repaycoll", 8)]);
            scen = vec!["baddebt", "liqmulti", "repaycoll", "thin", "empty"];
        }
        "P03" => {
            set(&mut acts, &[("index", 10), ("poolparams", 9), ("rewards", 5), ("claim", 6), ("flash", 6), ("clean", 4)]);
            set(&mut envs, &[("long", 50), ("tick", 30), ("stale", 0), ("deviate", 1), ("inactive", 0)]);
            env = 40;
            scen = vec!["curve", "thin", "baddebt"];
        }
        "P04" => {
            set(&mut acts, &[("liquidate", 4), ("clean", 1)]);
            set(&mut envs, &[("crash", 25), ("long", 25)]);
            env = 40;
            scen = vec!["hfedge", "hfedge", "liqmulti", "exact", "baddebt", "lp", "oldterms", "newmarket"];
        }
        "P05" => {
            set(&mut acts, &[("borrow", 40), ("withdraw", 25), ("multiply", 10), ("swapdebt", 8), ("swapcoll", 10), ("repaycoll", 8), ("editasset", 2)]);
            set(&mut envs, &[("rate", 10)]);
            scen = vec!["exact", "hfedge", "manyborrow", "swapmove", "oldterms", "newmarket"];
            directed = 60;
        }
        "P06" => {
            set(&mut acts, &[("liquidate", 25), ("clean", 6), ("topup", 12), ("repay", 14), ("threshold", 5)]);
            set(&mut envs, &[("crash", 30)]);
            env = 34;
            scen = vec!["hfedge", "liqmulti", "exact", "baddebt", "oldterms"];
            directed = 65;
        }
        "P07" => {
            set(&mut acts, &[("liquidate", 40), ("borrow", 22), ("open", 18)]);
            set(&mut envs, &[("crash", 50)]);
            env = 36;
            scen = vec!["liqmulti", "liqmulti", "hfedge", "liqdup", "oldterms"];
            directed = 80;
        }
        "P08" => {
            set(&mut acts, &[("clean", 20), ("liquidate", 20)]);
            set(&mut envs, &[("crash", 40)]);
            scen = vec!["baddebt", "baddebt", "badedge", "rebirth"];
            directed = 90;
        }
        "P09" => {
            set(&mut acts, &[("flash", 70), ("editasset", 5)]);
            scen = vec!["reenter"];
            directed = 50;
        }
        "P10" => {
            set(&mut acts, &[("editasset", 4), ("topup", 20), ("borrow", 24), ("multiply", 10), ("swapdebt", 7), ("swapcoll", 8)]);
            scen = vec!["caps", "caps", "liqmulti"];
            directed = 85;
        }
        "P11" => {
            set(&mut acts, &[("editasset", 2), ("repay", 14), ("emodecfg", 2)]);
            scen = vec!["iso", "iso", "isobad", "newmarket", "flagged"];
            directed = 90;
        }
        "P12" => {
            set(&mut acts, &[("emodecfg", 8), ("editasset", 5), ("multiply", 8), ("swapdebt", 7), ("swapcoll", 7)]);
            scen = vec!["emode", "emode", "silo", "isomember", "flagged"];
            directed = 80;
        }
        "P13" => {
            set(&mut acts, &[("sendnft", 12), ("withdraw", 25), ("repaycoll", 8)]);
            spoil = 35;
            scen = vec!["close", "repaycoll", "empty"];
            directed = 40;
        }
        "P14" => {
            set(&mut acts, &[("pause", 12), ("editasset", 4), ("emodecfg", 4), ("limits", 2), ("tolerance", 2), ("setaddr", 2), ("poolparams", 3), ("again", 2), ("upgradepool", 2), ("rewards", 3), ("flash", 6), ("clean", 4)]);
            spoil = 25;
            scen = vec!["acl", "pausedsweep", "liqmulti"];
            directed = 70;
        }
        "P15" => {
            set(&mut acts, &[("tolerance", 3), ("clean", 3), ("liquidate", 10)]);
            set(&mut envs, &[("deviate", 30), ("stale", 20), ("inactive", 10), ("aggpause", 3), ("missing", 4), ("heal", 25), ("long", 6)]);
            env = 45;
            scen = vec!["tolerance", "tolerance", "staleness", "gates", "gateonly", "gateonly", "lpedge", "newmarket"];
            directed = 75;
        }
        "P16" => {
            set(&mut envs, &[("rate", 30), ("unbalance", 30), ("rebalance", 15), ("move", 25), ("deviate", 15)]);
            env = 55;
            scen = vec!["lp", "lp", "lpedge", "gates", "gateonly", "newmarket"];
            directed = 60;
        }
        "P18" => {
            set(&mut acts, &[("claim", 20), ("rewards", 12), ("flash", 10), ("multiply", 10), ("liquidate", 12), ("clean", 4)]);
            set(&mut envs, &[("long", 40)]);
            scen = vec!["claim", "thin", "liqmulti", "baddebt", "reenter"];
            directed = 60;
        }
        "P19" => {
            set(&mut acts, &[("multiply", 35), ("swapdebt", 25), ("swapcoll", 25), ("repaycoll", 25), ("open", 14), ("borrow", 14)]);
            scen = vec!["repaycoll", "stratmix", "swapmove"];
            directed = 50;
        }
        "P20" => {
            set(&mut acts, &[("editasset", 25), ("emodecfg", 35), ("tolerance", 25), ("setaddr", 15), ("again", 10), ("poolparams", 15), ("limits", 8), ("upgradepool", 4)]);
            spoil = 8;
            scen = vec!["emodecfg", "newmarket", "newaddr", "emodecfg", "newmarket", "newaddr", "emodecfg", "newmarket", "newaddr", "manycats"];
            directed = 50;
        }
        "P21" => {
            set(&mut acts, &[("open", 20), ("topup", 20), ("withdraw", 30), ("borrow", 25), ("repay", 25), ("multiply", 2), ("swapdebt", 1), ("swapcoll", 1), ("repaycoll", 1), ("liquidate", 2)]);
            scen = vec!["close", "thin", "repayall"];
            directed = 50;
        }
        "P22" => {
            set(&mut acts, &[("limits", 10), ("open", 16), ("topup", 20), ("borrow", 25), ("multiply", 10), ("swapdebt", 8), ("swapcoll", 8)]);
            scen = vec!["limits", "limits"];
            directed = 85;
        }
        "P23" => {
            set(&mut acts, &[("threshold", 35), ("editasset", 14), ("emodecfg", 6)]);
            scen = vec!["buffer", "buffer", "emode", "oldterms", "oldterms"];
            directed = 80;
        }
        "P25" => {
            set(&mut acts, &[("threshold", 8), ("editasset", 4), ("emodecfg", 5), ("poolparams", 4), ("tolerance", 3), ("claim", 5), ("rewards", 4), ("liquidate", 12), ("clean", 5), ("flash", 6), ("upgradepool", 2), ("again", 2)]);
            scen = vec!["liqmulti", "baddebt", "stratmix", "iso", "buffer", "claim", "emodecfg", "thin", "newmarket"];
            directed = 45;
        }
        "P27" => {
            set(&mut acts, &[("editasset", 9), ("emodecfg", 14), ("limits", 5), ("tolerance", 4), ("poolparams", 4), ("upgradepool", 2), ("pause", 3), ("threshold", 4), ("clean", 4), ("liquidate", 8), ("claim", 4)]);
            set(&mut envs, &[("long", 20), ("crash", 14)]);
            env = 34;
            scen = vec!["oldterms", "isomember", "flagged", "emode", "silo", "iso", "isobad", "caps", "manyborrow", "baddebt", "rebirth", "thin", "lp", "stratmix", "newmarket", "exact", "liqmulti"];
            directed = 70;
        }
        "P24" => {
            set(&mut acts, &[("limits", 1), ("tolerance", 1), ("setaddr", 1), ("again", 1), ("editasset", 3)]);
            spoil = 55;
            scen = vec!["close", "liqdup", "close", "liqdup", "close", "liqdup", "close", "liqdup", "manycats"];
            directed = 20;
        }
        _ => {}
    }
    Profile { acts, envs, env, spoil, steps, directed, scen }
}

impl Gen {
    /// deep or thin initial liquidity
    pub fn seed_liquidity(&mut self) {
        let thin = self.r.chance(20);
        let mut pays = vec![];
        for i in [0usize, 1, 2, 3, 4, 5, 7, 9, 10, 11] {
            if thin && self.r.chance(40) {
                continue;
            }
            let c = if thin { self.r.range(1_000, 2_000_000) } else { self.r.range(20_000_000, 900_000_000) };
            let a = self.worth(i, &U::from(c));
            pays.push(Pay::new(&self.tok(i), a));
        }
        if pays.is_empty() {
            return;
        }
        self.e.step(&Act::Supply { by: 5, acct: None, emode: None, pays });
    }

    /// among several candidates, one that a single rule stops (the least tried one, rules of this property first)
    pub fn choose(&mut self, kinds: &[&'static str], spoil: u64) -> bool {
        let prop = self.e.prop.clone();
        let mut best: Option<(u64, Act, String)> = None;
        for k in kinds {
            if *k == "open" {
                continue;
            }
            let Some(a) = self.make(k) else { continue };
            let a = if self.r.chance(spoil) { self.spoil(a) } else { a };
            if let Sole::Only(why, what) = self.e.sole(&a) {
                let key = format!("one obstacle only: {} / {}", a.name(), what);
                let n = self.e.cov.n.get(&key).cloned().unwrap_or(0);
                let mine = why_props(&why, &a).contains(&prop.as_str());
                let s = if mine { n } else { n * 4 + 3 };
                if best.as_ref().map_or(true, |b| s < b.0) {
                    best = Some((s, a, key));
                }
            }
        }
        let Some((_, a, key)) = best else { return false };
        self.e.cov.hit(&key);
        self.act(&a);
        true
    }

    fn refit(&mut self) {
        if self.r.chance(50) {
            // mostly a market that has something to lose
            let used: Vec<usize> = (0..self.n()).filter(|i| self.e.pre.pools.get(*i).map_or(false, |p| p.borrowed > crate::num::U::from(0u32))).collect();
            let asset = if used.is_empty() || self.r.chance(20) { self.r.below(self.n() as u64) as usize } else { *self.r.pick(&used) };
            self.act(&Act::UpgradePool { by: OWNER, asset });
        } else if !self.e.pre.paused {
            self.act(&Act::Upgrade { by: OWNER });
            if !self.e.hit_violation() && self.e.pre.paused {
                self.act(&Act::Unpause { by: OWNER });
            }
        }
    }

    pub fn run(&mut self, pf: &Profile) {
        if self.e.prop == "P17" || self.e.prop == "P25" && std::env::var("SCEN").is_err() && self.r.chance(15) {
            if self.r.chance(20) {
                self.agg_live();
            } else {
                self.agg_history();
            }
            return;
        }
        if self.e.prop == "P24" && self.r.chance(45) && std::env::var("SCEN").is_err() {
            self.fuzz_run();
            return;
        }
        let forced = std::env::var("SCEN").ok();
        let sc: Option<String> = if forced.is_some() {
            forced
        } else if self.first && self.e.prop == "P01" {
            Some("collapse".into())
        } else if !pf.scen.is_empty() && self.r.chance(pf.directed) {
            Some(self.r.pick(&pf.scen).to_string())
        } else {
            None
        };
        let thin = matches!(sc.as_deref(), Some("thin" | "rebirth" | "collapse" | "empty"));
        let thin_pct = if sc.as_deref() == Some("collapse") { 100 } else { 85 };
        if !(if thin { self.r.chance(thin_pct) } else { self.r.chance(3) }) {
            self.seed_liquidity();
        }
        if sc.as_deref() != Some("newmarket") && !thin && self.r.chance(6) {
            let isolated = self.r.chance(20);
            self.new_market(isolated);
        }
        self.flips = 0;
        let turns = match self.e.prop.as_str() {
            "P11" | "P12" | "P23" => 45,
            "P15" | "P16" | "P17" | "P20" | "P24" | "P14" => 0,
            _ => 22,
        };
        if self.r.chance(turns) {
            self.flips = self.r.range(4, 20);
            self.e.note(format!("one setting changes after {} % of the transactions", self.flips));
        }
        if let Some(s) = sc {
            self.e.cov.hit(&format!("scenario {}", s));
            self.e.note(format!("scenario {}", s));
            self.scenario(&s);
        }
        let aw: Vec<u64> = pf.acts.iter().map(|x| x.1).collect();
        let ew: Vec<u64> = pf.envs.iter().map(|x| x.1).collect();
        let end = self.e.steps + pf.steps;
        let mut idle = 0;
        while self.e.steps < end && idle < 400 {
            idle += 1;
            if self.e.hit_violation() {
                return;
            }
            if self.r.chance(pf.env) {
                let k = pf.envs[self.r.weighted(&ew)].0;
                self.env(k);
                if self.r.chance(15) && self.e.prop != "P15" {
                    self.env("heal");
                }
                if self.r.chance(20) {
                    self.look();
                }
                continue;
            }
            // an upgrade in the middle of a history changes nothing (the controller is paused until reopened)
            if self.r.chance(2) {
                self.refit();
                continue;
            }
            let few = self.e.pre.listed.len() < 3;
            let k = if few && self.r.chance(50) { "open" } else { pf.acts[self.r.weighted(&aw)].0 };
            if k == "open" && self.e.pre.listed.len() > 10 {
                continue;
            }
            if k != "open" && self.r.chance(if self.e.prop == "P06" { 10 } else { 30 }) {
                let kinds: Vec<&'static str> = (0..8).map(|_| pf.acts[self.r.weighted(&aw)].0).collect();
                if self.choose(&kinds, pf.spoil.max(15)) {
                    continue;
                }
            }
            let Some(a) = self.make(k) else { continue };
            let a = if self.r.chance(pf.spoil) { self.spoil(a) } else { a };
            self.act(&a);
        }
    }
}

pub fn rule(prop: &str) -> String {
    format!(
        "random histories of transactions and environment changes from a fresh market set, weighted towards {}; each \
         transaction is executed by the real contracts and compared with the reference model and the invariants. Distinct: \
         different combination of operation, outcome, refusal reason, assets involved and situations met",
        prop
    )
}
