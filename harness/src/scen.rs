//! Directed openings: each drives the system into a region that plain random histories
//! reach too rarely, then lets the random history continue from there.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::num::*;
use crate::px::*;
use crate::state::*;
use crate::vm::*;
use crate::world::*;
use num_traits::Zero;

pub const ALL: &[&str] = &[
    "thin", "baddebt", "badedge", "liqmulti", "liqdup", "hfedge", "exact", "manyborrow", "lp", "caps", "iso", "isobad", "emode",
    "silo", "close", "empty", "tolerance", "staleness", "gates", "gateonly", "claim", "stratmix", "emodecfg", "repayall", "repaycoll", "limits",
    "buffer", "reenter", "curve", "lpedge", "pausedsweep", "acl",
    "swapmove", "newaddr", "oldterms", "isomember", "flagged",
];

impl Gen {
    pub fn pays(&self, l: &[(usize, U)]) -> Vec<Pay> {
        l.iter().map(|(i, a)| Pay::new(&self.tok(*i), a.clone())).collect()
    }
    pub fn do_(&mut self, k: &str) -> bool {
        match self.make(k) {
            Some(a) => self.act(&a),
            None => false,
        }
    }
    /// step and probe
    pub fn act(&mut self, a: &Act) -> bool {
        self.plan_pokes(a);
        self.before(a);
        let r = self.e.step(a);
        self.probes(a, r);
        if self.flips > 0 && !self.dead() && self.r.chance(self.flips) {
            self.flip();
        }
        r
    }
    /// sometimes the swap itself moves a price the account depends on
    fn plan_pokes(&mut self, a: &Act) {
        let often = match self.e.prop.as_str() {
            "P05" => 30,
            "P15" | "P16" | "P19" => 8,
            _ => return,
        };
        if !matches!(a, Act::Multiply { .. } | Act::SwapDebt { .. } | Act::SwapColl { .. } | Act::RepayColl { .. }) || !self.r.chance(often) {
            return;
        }
        let k = if self.r.chance(70) { self.r.range(6_000, 9_900) } else { self.r.range(10_100, 16_000) };
        if self.e.w.pokes.is_empty() {
            self.poke(k);
        }
    }
    fn poke(&mut self, k: u64) {
        let w = &mut self.e.w;
        w.pokes.clear();
        for i in [4usize, 10, 5] {
            let c = w.assets[i].oracle.contract;
            let x = w.feeds.rate[&c].clone() * k / 10_000u32;
            w.pokes.push(Poke::Rate(c, x));
        }
        let c = w.assets[LP].oracle.contract;
        let (r0, r1, ts) = w.feeds.reserves[&c].clone();
        w.pokes.push(Poke::Pool(c, (r0 * k / 10_000u32, r1 * k / 10_000u32, ts)));
        self.e.note(format!("the next swap moves rates and pools x{}", k));
    }
    pub fn cents(&mut self, lo: u64, hi: u64) -> U {
        U::from(self.r.range(lo, hi))
    }
    /// open an account holding `deps` (asset, US cents)
    pub fn open(&mut self, by: usize, emode: Option<u8>, deps: &[(usize, U)]) -> Option<u64> {
        let l: Vec<(usize, U)> = deps.iter().map(|(i, c)| (*i, self.worth(*i, c).max(u(1)))).collect();
        let pays = self.pays(&l);
        let a = Act::Supply { by, acct: None, emode, pays };
        if self.act(&a) {
            Some(self.e.pre.last_nonce)
        } else {
            None
        }
    }
    fn loan(&mut self, a: u64, l: &[(usize, U)]) -> bool {
        let by = self.holder(a);
        let l: Vec<(usize, U)> = l.iter().map(|(i, c)| (*i, self.worth(*i, c).max(u(1)))).collect();
        let items = self.pays(&l);
        let x = Act::Borrow { by, pays: vec![self.nft(a)], items };
        self.act(&x)
    }
    pub fn wait(&mut self, secs: u64) {
        self.e.w.advance(secs);
        self.e.w.publish_all();
        self.e.note(format!("env: time +{}s, feeds refreshed", secs));
        self.e.refresh();
    }
    fn fair(&mut self, i: usize, k: u64) {
        if i == 0 {
            self.e.w.egld_usd = &self.e.w.egld_usd * k / 10_000u32;
        } else {
            self.e.w.fair[i] = &self.e.w.fair[i] * k / 10_000u32;
        }
        self.e.w.publish_all();
        self.e.note(format!("env: {} x{}/10000", self.e.w.assets[i].name, k));
        self.e.refresh();
    }
    fn usd_of(&self, a: u64) -> Option<(U, U)> {
        // (debt, collateral) in US cents
        let m = M::new(&self.e.w, &self.e.pre);
        let s = m.sums(a).ok()?;
        Some((m.usd(&s.debt).ok()? / p10(16), m.usd(&s.total).ok()? / p10(16)))
    }
    fn room_cents(&self, a: u64) -> U {
        let m = M::new(&self.e.w, &self.e.pre);
        m.sums(a).and_then(|s| m.usd(&sat_sub(&s.ltv, &s.debt))).map(|x| x / p10(16)).unwrap_or_default()
    }
    /// borrow `pct` percent of the room, spread over the given assets
    fn lever(&mut self, a: u64, on: &[usize], pct: u64) -> bool {
        let room = self.room_cents(a) * pct / 100u32;
        let n = on.len() as u32;
        let l: Vec<(usize, U)> = on.iter().map(|i| (*i, &room / n)).collect();
        self.loan(a, &l)
    }
    fn subset(&mut self, from: &[usize], n: usize) -> Vec<usize> {
        let mut v = from.to_vec();
        self.r.shuffle(&mut v);
        v.truncate(n);
        v
    }
    fn leverage_all(&mut self) {
        for k in ["borrow", "borrow", "multiply", "multiply"] {
            self.do_(k);
        }
    }
    /// an account with several collaterals and debts, near its limit
    pub fn loaded(&mut self) -> Option<u64> {
        let nd = 1 + self.r.weighted(&[30, 40, 20, 10]);
        let nb = 1 + self.r.weighted(&[40, 40, 20]);
        let mut dep = self.subset(&[0, 1, 2, 3, 4, 5, 7, 9, 10, 11, 6], nd);
        if self.r.chance(60) && !dep.contains(&CAPD) {
            dep[0] = CAPD;
        }
        let both = self.r.chance(20);
        let rest: Vec<usize> = [0usize, 1, 2, 3, 4, 9, 10, 11].iter().cloned().filter(|i| !dep.contains(i) || both).collect();
        let bor = self.subset(&rest, nb);
        let by = self.r.below(5) as usize;
        let mut l = vec![];
        for i in dep {
            let c = if self.r.chance(20) { self.cents(300, 20_000) } else { self.cents(20_000, 5_000_000) };
            l.push((i, c));
        }
        let a = self.open(by, None, &l)?;
        let pct = self.r.range(80, 99);
        self.lever(a, &bor, pct);
        if self.side(a, BOR).is_empty() {
            self.lever(a, &bor[..1], 90);
        }
        Some(a)
    }
    /// lower the worth of an account's collateral to `pct` percent by moving single assets
    fn sink(&mut self, a: u64, pct: u64) {
        let dep = self.side(a, DEP);
        let k = pct * 100;
        for i in dep {
            let j = match i {
                4 | 10 | 6 | 0 => 0,
                5 => 3,
                1 => continue,
                x => x,
            };
            self.fair(j, k);
        }
    }
    fn feed_off(&mut self, i: usize, mode: u64) {
        let t = World::ticker(&self.e.w.assets[i].id);
        let s = match mode {
            0 => {
                self.e.w.publish(i, 12_500, 10_000);
                "sources far apart"
            }
            1 => {
                let ts = self.e.w.vm.now() - 5_000;
                if let Some((p, _)) = self.e.w.feeds.agg.get(&t).cloned() {
                    self.e.w.set_agg(&t, &p, ts);
                }
                "stale"
            }
            2 => {
                let st = if self.r.chance(50) { 0 } else { 2 };
                self.e.w.set_pair_state(i, st);
                "pair inactive"
            }
            3 => {
                self.e.w.pause_agg(true);
                "aggregator paused"
            }
            4 => {
                self.e.w.del_agg(&t);
                "missing"
            }
            5 => {
                self.e.w.publish(i, 10_000, 10_300);
                "second tolerance"
            }
            _ => {
                self.e.w.publish(i, 9_200, 10_000);
                "sources far apart"
            }
        };
        self.e.note(format!("env: {} {}", self.e.w.assets[i].name, s));
        self.e.cov.hit(&format!("feed condition: {}", s));
        self.e.refresh();
    }
    fn heal(&mut self) {
        self.env("heal");
    }
    pub fn dead(&self) -> bool {
        self.e.hit_violation()
    }
    /// every user operation once, on the given account
    pub fn all_ops(&mut self, a: u64) {
        let by = self.holder(a);
        let dep = self.side(a, DEP);
        let bor = self.side(a, BOR);
        let mut l: Vec<Act> = vec![];
        if let Some(i) = dep.first().cloned() {
            let x = self.amount(i);
            l.push(Act::Supply { by, acct: None, emode: None, pays: vec![self.nft(a), Pay::new(&self.tok(i), x)] });
            let p = self.pos_amount(a, DEP, i);
            let part = &p / 1000u32 + 1u32;
            l.push(Act::Withdraw { by, pays: vec![self.nft(a)], items: vec![Pay::new(&self.tok(i), part)] });
        }
        if let Some(i) = bor.first().cloned() {
            let p = self.pos_amount(a, BOR, i);
            l.push(Act::Repay { by, acct: a, pays: vec![Pay::new(&self.tok(i), &p / 100u32 + 1u32)] });
            let lq = (by + 1) % 6;
            l.push(Act::Liquidate { by: lq, acct: a, pays: vec![Pay::new(&self.tok(i), &p / 10u32 + 1u32)] });
            let t = self.tok(i);
            let mut bs = vec![Pay::new(&t, &p / 10_000u32 + 1u32)];
            bs.truncate(1);
            l.push(Act::Borrow { by, pays: vec![self.nft(a)], items: bs });
            l.push(Act::Clean { by: lq, acct: a });
        } else if !dep.is_empty() {
            let j = self.borr_any();
            let x = self.worth(j, &u(100)).max(u(1));
            l.push(Act::Borrow { by, pays: vec![self.nft(a)], items: vec![Pay::new(&self.tok(j), x)] });
        }
        if let Some(i) = dep.first().cloned() {
            let risks = self.r.chance(50);
            l.push(Act::Threshold { by: 3, asset: self.tok(i), risks, accts: vec![a] });
        }
        self.r.shuffle(&mut l);
        for x in l {
            if self.dead() {
                return;
            }
            self.act(&x);
        }
        for k in ["multiply", "swapdebt", "swapcoll", "repaycoll"] {
            if self.r.chance(35) {
                self.do_(k);
            }
        }
        // transactions that nothing but the condition of the sources stops
        for _ in 0..2 {
            if self.dead() {
                return;
            }
            self.choose(&["multiply", "swapdebt", "swapcoll", "repaycoll", "borrow", "withdraw", "threshold"], 0);
        }
        for _ in 0..4 {
            let Some(x) = self.liquidation_of(a) else { break };
            if !matches!(self.e.sole(&x), Sole::Junk) {
                self.act(&x);
                break;
            }
        }
    }
    fn borr_any(&mut self) -> usize {
        *self.r.pick(&[0usize, 1, 2, 3, 4, 9, 10, 11])
    }

    pub fn scenario(&mut self, s: &str) {
        match s {
            "thin" => self.sc_thin(),
            "baddebt" => self.sc_baddebt(),
            "badedge" => self.sc_badedge(),
            "liqmulti" => self.sc_liqmulti(),
            "liqdup" => self.sc_liqdup(),
            "hfedge" => self.sc_hfedge(),
            "exact" => self.sc_exact(),
            "manyborrow" => self.sc_manyborrow(),
            "lp" => self.sc_lp(),
            "lpedge" => self.sc_lpedge(),
            "caps" => self.sc_caps(),
            "oldterms" => self.sc_oldterms(),
            "isomember" => self.sc_isomember(),
            "flagged" => self.sc_flagged(),
            "iso" => self.sc_iso(false),
            "isobad" => self.sc_iso(true),
            "emode" => self.sc_emode(),
            "silo" => self.sc_silo(),
            "close" => self.sc_close(),
            "empty" => self.sc_empty(),
            "tolerance" => self.sc_tolerance(),
            "staleness" => self.sc_staleness(),
            "gates" => self.sc_gates(),
            "gateonly" => self.sc_gateonly(),
            "claim" => self.sc_claim(),
            "newaddr" => self.sc_newaddr(),
            "stratmix" => self.sc_strat(),
            "swapmove" => self.sc_swapmove(),
            "newmarket" => self.sc_newmarket(),
            "emodecfg" => self.sc_emodecfg(),
            "manycats" => self.sc_manycats(),
            "repayall" => self.sc_repayall(),
            "repaycoll" => self.sc_repaycoll(),
            "limits" => self.sc_limits(),
            "buffer" => self.sc_buffer(),
            "reenter" => self.sc_reenter(),
            "curve" => self.sc_curve(),
            "pausedsweep" => self.sc_paused(),
            "acl" => self.sc_acl(),
            "rebirth" => self.sc_rebirth(),
            "collapse" => self.sc_collapse(),
            _ => panic!("unknown scenario {}", s),
        }
    }

    /// markets with next to nothing in them
    fn sc_thin(&mut self) {
        let i = *self.r.pick(&[0usize, 1, 2, 3, 9, 10, 11]);
        let amt = match self.r.below(4) {
            0 => u(self.r.range(1, 4) as u128),
            1 => u(self.r.range(10, 5_000) as u128),
            2 => self.worth(i, &u(50)).max(u(2)),
            _ => self.worth(i, &u(50_000)),
        };
        let ok = self.act(&Act::Supply { by: 0, acct: None, emode: None, pays: vec![Pay::new(&self.tok(i), amt.clone())] });
        let first = self.e.pre.last_nonce;
        let c = if i == 9 { 1 } else { 9 };
        let cc = self.cents(10_000, 40_000_000);
        let Some(b) = self.open(1, None, &[(c, cc)]) else { return };
        if ok {
            let res = self.e.pre.bal[self.e.w.actors.len() + i][i].clone();
            let x = match self.r.below(3) {
                0 => res.clone(),
                1 => (&res / 2u32).max(u(1)),
                _ => self.r.frac(&res).max(u(1)),
            };
            self.act(&Act::Borrow { by: 1, pays: vec![self.nft(b)], items: vec![Pay::new(&self.tok(i), x)] });
        }
        let d = *self.r.pick(&[60u64, 86_400, 2_592_000, 31_556_926, 157_784_630]);
        self.wait(d);
        for _ in 0..self.r.range(1, 6) {
            if self.dead() {
                return;
            }
            match self.r.below(9) {
                0 => {
                    let a = Act::Claim { by: 3, assets: vec![self.tok(i)] };
                    self.act(&a);
                }
                1 => {
                    let x = self.amount(i);
                    let a = Act::Rewards { by: OWNER, pays: vec![Pay::new(&self.tok(i), x)] };
                    self.act(&a);
                }
                2 => {
                    let p = self.pos_amount(b, BOR, i) + u(1);
                    let a = Act::Repay { by: 1, acct: b, pays: vec![Pay::new(&self.tok(i), p * 2u32)] };
                    self.act(&a);
                }
                3 => {
                    let h = self.holder(first);
                    let a = Act::Withdraw { by: h, pays: vec![self.nft(first)], items: vec![Pay::new(&self.tok(i), amt.clone() * 100u32)] };
                    self.act(&a);
                }
                4 => {
                    let f = self.flash();
                    self.act(&f);
                }
                5 => {
                    let d = *self.r.pick(&[1u64, 3_600, 31_556_926]);
                    self.wait(d);
                }
                6 => {
                    let a = Act::UpdateIdx { by: 2, assets: vec![self.tok(i)] };
                    self.act(&a);
                }
                7 => {
                    let x = u(self.r.range(1, 100) as u128);
                    let a = Act::Supply { by: 2, acct: None, emode: None, pays: vec![Pay::new(&self.tok(i), x)] };
                    self.act(&a);
                }
                _ => {
                    self.do_("multiply");
                }
            }
        }
    }

    fn sc_baddebt(&mut self) {
        for _ in 0..self.r.range(1, 2) {
            let nb = 1 + self.r.weighted(&[40, 40, 20]);
            let coll = if self.r.chance(70) { vec![CAPD] } else { self.subset(&[9, 11, 7, 3, 2], 2) };
            let rest: Vec<usize> = [0usize, 1, 2, 3, 4, 10, 11].iter().cloned().filter(|i| !coll.contains(i)).collect();
            let bor = self.subset(&rest, nb);
            let mut l = vec![];
            for i in &coll {
                let c = self.cents(1_000, 300_000);
                l.push((*i, c));
            }
            let by = self.r.below(5) as usize;
            let Some(a) = self.open(by, None, &l) else { continue };
            self.lever(a, &bor, 95);
            if self.r.chance(40) {
                let d = *self.r.pick(&[3_600u64, 2_592_000, 31_556_926]);
                self.wait(d);
            }
            // someone else borrows too, so that there is interest in the market
            if self.r.chance(50) {
                self.do_("borrow");
            }
            if self.r.chance(50) {
                let k = *self.r.pick(&[60u64, 70, 50]);
                self.sink(a, k);
                if let Some(x) = self.liquidation_of(a) {
                    self.act(&x);
                }
            }
            let Some((_, tot)) = self.usd_of(a) else { continue };
            // down to a few dollars
            let target = self.cents(5, 1_200);
            if !tot.is_zero() && target < tot {
                let mut k = (target * 10_000u32 / tot).to_u64_digits().first().cloned().unwrap_or(0);
                if k == 0 {
                    k = 1;
                }
                for i in &coll {
                    self.fair(*i, k);
                }
            }
            if self.r.chance(30) {
                if let Some(x) = self.liquidation_of(a) {
                    self.act(&x);
                }
            }
            if self.r.chance(25) {
                // the market's suppliers leave first, as far as they can
                let i = bor[0];
                for acct in self.accts() {
                    if self.side(acct, DEP).contains(&i) && self.r.chance(80) {
                        let by = self.holder(acct);
                        let res = self.e.pre.bal[self.e.w.actors.len() + i][i].clone();
                        let p = self.pos_amount(acct, DEP, i);
                        let x = umin(&res, &p).clone();
                        if x.is_zero() {
                            continue;
                        }
                        let w = Act::Withdraw { by, pays: vec![self.nft(acct)], items: vec![Pay::new(&self.tok(i), x)] };
                        self.act(&w);
                    }
                }
            }
            let by = self.user();
            self.act(&Act::Clean { by, acct: a });
            if self.r.chance(40) {
                let by = self.user();
                self.act(&Act::Clean { by, acct: a });
            }
            if self.dead() {
                return;
            }
        }
    }

    /// the recorded finding: a market written off to nothing, used again, and written off again
    fn sc_collapse(&mut self) {
        let t = self.tok(0);
        for k in 0..2u64 {
            if self.open(k as usize, None, &[(0, u(100_000))]).is_none() {
                return;
            }
            let Some(b) = self.open(2, None, &[(CAPD, u(1_000_000))]) else { return };
            let res = self.e.pre.bal[self.e.w.actors.len()][0].clone();
            self.act(&Act::Borrow { by: 2, pays: vec![self.nft(b)], items: vec![Pay::new(&t, res)] });
            self.fair(CAPD, 1);
            self.act(&Act::Clean { by: 4, acct: b });
            self.e.w.fair[CAPD] = &self.e.w.fair[CAPD] * 10_000u32;
            self.e.w.publish_all();
            self.e.refresh();
        }
    }

    /// a market loses (nearly) everything to bad debt and is then used again
    fn sc_rebirth(&mut self) {
        let i = *self.r.pick(&[0usize, 1, 2, 3, 10, 11]);
        let t = self.tok(i);
        let c = self.cents(100, 50_000_000);
        let Some(_) = self.open(0, None, &[(i, c.clone())]) else { return };
        for round in 0..self.r.range(1, 3) {
            let Some(b) = self.open(1, None, &[(CAPD, &c * 3u32)]) else { return };
            let res = self.e.pre.bal[self.e.w.actors.len() + i][i].clone();
            let keep = match self.r.below(4) {
                0 => u(0),
                1 => u(1),
                2 => &res / 1_000_000u32,
                _ => self.r.frac(&(&res / 2u32)),
            };
            let x = sat_sub(&res, &keep);
            if x.is_zero() {
                return;
            }
            if !self.act(&Act::Borrow { by: 1, pays: vec![self.nft(b)], items: vec![Pay::new(&t, x)] }) {
                return;
            }
            if self.r.chance(60) {
                let d = *self.r.pick(&[60u64, 86_400, 31_556_926]);
                self.wait(d);
            }
            if self.r.chance(30) {
                self.act(&Act::UpdateIdx { by: 2, assets: vec![t.clone()] });
            }
            if self.r.chance(40) {
                // suppliers take what is left
                for acct in self.accts() {
                    if self.side(acct, DEP).contains(&i) {
                        let by = self.holder(acct);
                        let res = self.e.pre.bal[self.e.w.actors.len() + i][i].clone();
                        if !res.is_zero() {
                            self.act(&Act::Withdraw { by, pays: vec![self.nft(acct)], items: vec![Pay::new(&t, res)] });
                        }
                    }
                }
            }
            if self.r.chance(30) {
                self.act(&Act::Claim { by: 3, assets: vec![t.clone()] });
            }
            let Some((_, tot)) = self.usd_of(b) else { return };
            if tot.is_zero() {
                return;
            }
            let k = (u(400) * 10_000u32 / tot).to_u64_digits().first().cloned().unwrap_or(0).max(1);
            if k < 10_000 {
                // CAPD is repriced in two steps so that rounding keeps it above zero
                self.fair(CAPD, k);
            }
            self.act(&Act::Clean { by: 4, acct: b });
            if self.dead() {
                return;
            }
            // the market lives on
            self.e.w.fair[CAPD] = &self.e.w.fair[CAPD] * 10_000u32 / k.min(10_000);
            self.e.w.publish_all();
            self.e.refresh();
            let again = &c * self.r.range(1, 400) / 100u32 + u(1);
            for _ in 0..self.r.range(1, 2) {
                self.open(2, None, &[(i, again.clone())]);
            }
            let Some(b2) = self.open(3, None, &[(CAPD, &again * 4u32 + u(100_000))]) else { return };
            for _ in 0..self.r.range(2, 7) {
                if self.dead() {
                    return;
                }
                match self.r.below(8) {
                    0 | 1 => {
                        let res = self.e.pre.bal[self.e.w.actors.len() + i][i].clone();
                        let x = self.r.frac(&res).max(u(1));
                        self.act(&Act::Borrow { by: 3, pays: vec![self.nft(b2)], items: vec![Pay::new(&t, x)] });
                    }
                    2 => {
                        let d = *self.r.pick(&[60u64, 86_400, 31_556_926, 63_000_000]);
                        self.wait(d);
                    }
                    3 => {
                        let x = self.amount(i);
                        self.act(&Act::Rewards { by: OWNER, pays: vec![Pay::new(&t, x)] });
                    }
                    4 => {
                        let p = self.pos_amount(b2, BOR, i) + u(1);
                        self.act(&Act::Repay { by: 3, acct: b2, pays: vec![Pay::new(&t, p)] });
                    }
                    5 => {
                        self.act(&Act::UpdateIdx { by: 4, assets: vec![t.clone()] });
                    }
                    6 => {
                        self.act(&Act::Claim { by: 4, assets: vec![t.clone()] });
                    }
                    _ => {
                        for acct in self.accts() {
                            if self.side(acct, DEP).contains(&i) && self.r.chance(50) {
                                let by = self.holder(acct);
                                let p = self.pos_amount(acct, DEP, i);
                                let x = self.r.frac(&(&p * 2u32)).max(u(1));
                                self.act(&Act::Withdraw { by, pays: vec![self.nft(acct)], items: vec![Pay::new(&t, x)] });
                            }
                        }
                    }
                }
            }
            if round > 5 {
                return;
            }
        }
    }

    /// collateral of exactly 5 dollars, and debt of exactly the collateral's worth
    fn sc_fiver(&mut self) {
        let half = p10(15) * 125u32;
        let by = self.user();
        // nothing is lent out in this market, so the deposit stays what it is
        let d = self.r.below(5);
        let amt = match d {
            0 => &half + 1u32,
            1 => &half - 1u32,
            2 => &half + p10(13),
            _ => half,
        };
        let pays = vec![Pay::new(&self.tok(0), amt)];
        if !self.act(&Act::Supply { by, acct: None, emode: None, pays }) {
            return;
        }
        let a = self.e.pre.last_nonce;
        let items = vec![Pay::new(&self.tok(9), w(2))];
        let nft = self.nft(a);
        if !self.act(&Act::Borrow { by, pays: vec![nft], items }) {
            return;
        }
        let even = wd(5, 2);
        let l = if self.r.chance(60) { vec![w(3), w(4)] } else { vec![even.clone(), &even + p10(6), &even - p10(6)] };
        let p = self.r.pick(&l).clone();
        self.set_price(CAPD, &p);
        let by = self.user();
        self.act(&Act::Clean { by, acct: a });
        self.set_price(CAPD, &w(1));
    }

    fn sc_badedge(&mut self) {
        if self.r.chance(30) {
            self.sc_fiver();
            return;
        }
        let bor = self.subset(&[0, 1, 2, 3], 1 + self.r.0 as usize % 2);
        let c = self.cents(1_000, 200_000);
        let Some(a) = self.open(0, None, &[(CAPD, c)]) else { return };
        let pct = self.r.range(2, 99);
        self.lever(a, &bor, pct);
        if self.r.chance(30) {
            let d = self.r.range(1, 20_000_000);
            self.wait(d);
        }
        let by_total = self.r.chance(60);
        let pred = |m: &M| -> bool {
            let Ok(s) = m.sums(a) else { return false };
            if by_total {
                m.usd(&s.total).map(|x| x > wad() * 5u32).unwrap_or(false)
            } else {
                s.debt > s.total
            }
        };
        let Some((lo, hi)) = self.price_edge(CAPD, u(1), w(10), &pred) else { return };
        let order = if self.r.chance(50) { [lo, hi] } else { [hi, lo] };
        for p in order {
            self.set_price(CAPD, &p);
            let by = self.user();
            self.act(&Act::Clean { by, acct: a });
        }
        self.set_price(CAPD, &w(1));
    }

    fn sc_liqmulti(&mut self) {
        for _ in 0..self.r.range(1, 3) {
            let Some(a) = self.loaded() else { continue };
            if self.r.chance(40) {
                let d = *self.r.pick(&[86_400u64, 2_592_000, 31_556_926]);
                self.wait(d);
            }
            let pct = *self.r.pick(&[97u64, 95, 93, 90, 85, 80, 70, 50, 30]);
            self.sink(a, pct);
            for _ in 0..self.r.range(1, 5) {
                if let Some(x) = self.liquidation_of(a) {
                    self.act(&x);
                }
                if self.dead() {
                    return;
                }
                if self.r.chance(20) {
                    self.sink(a, 97);
                }
                if self.r.chance(15) {
                    // parameters change between two liquidations
                    let i = *self.r.pick(&[1usize, 2, 9, 11]);
                    let mut p = default_params(i);
                    p.bonus = self.r.range(0, 1_500);
                    p.fee = self.r.range(0, 10_000);
                    self.act(&Act::EditAsset { by: OWNER, asset: i, p });
                    let accts = vec![a];
                    let t = self.tok(i);
                    self.act(&Act::Threshold { by: 2, asset: t, risks: false, accts });
                }
            }
        }
    }

    fn sc_liqdup(&mut self) {
        let Some(a) = self.loaded() else { return };
        let pct = *self.r.pick(&[95u64, 92, 90, 85, 80, 60]);
        self.sink(a, pct);
        for _ in 0..3 {
            let bor = self.side(a, BOR);
            if bor.is_empty() || self.dead() {
                return;
            }
            let i = *self.r.pick(&bor);
            let cur = self.pos_amount(a, BOR, i);
            let n = self.r.range(2, 4);
            let mut pays = vec![];
            for _ in 0..n {
                let x = match self.r.below(4) {
                    0 => cur.clone(),
                    1 => &cur / 2u32,
                    _ => self.r.frac(&cur),
                };
                pays.push(Pay::new(&self.tok(i), x.max(u(1))));
            }
            if bor.len() > 1 && self.r.chance(50) {
                let j = *self.r.pick(&bor);
                let cur = self.pos_amount(a, BOR, j);
                let x = self.r.frac(&cur).max(u(1));
                let at = self.r.below(pays.len() as u64 + 1) as usize;
                pays.insert(at, Pay::new(&self.tok(j), x));
            }
            let by = self.user();
            self.act(&Act::Liquidate { by, acct: a, pays });
        }
    }

    fn sc_hfedge(&mut self) {
        let exact = self.r.chance(30);
        let a;
        if exact {
            // 100 CAPD at 40 USD against 60 EGLD: health factor exactly 1 at 30 USD
            self.set_price(CAPD, &w(40));
            let ok = self.act(&Act::Supply { by: 0, acct: None, emode: None, pays: vec![Pay::new(&self.tok(CAPD), w(100))] });
            if !ok {
                return;
            }
            a = self.e.pre.last_nonce;
            self.act(&Act::Borrow { by: 0, pays: vec![self.nft(a)], items: vec![Pay::new(EGLD, w(60))] });
        } else {
            let nb = 1 + self.r.below(2) as usize;
            let bor = self.subset(&[0, 1, 2, 3, 10], nb);
            let mut l = vec![(CAPD, self.cents(1_000, 3_000_000))];
            if self.r.chance(40) {
                let c = self.cents(100, 100_000);
                l.push((*self.r.pick(&[0usize, 2, 11, 4]), c));
            }
            let Some(x) = self.open(0, None, &l) else { return };
            a = x;
            let pct = self.r.range(50, 99);
            self.lever(a, &bor, pct);
            if self.r.chance(40) {
                let d = self.r.range(1, 40_000_000);
                self.wait(d);
            }
        }
        let pred = |m: &M| -> bool { m.sums(a).map(|s| s.hf() < ray()).unwrap_or(false) };
        let Some((lo, hi)) = self.price_edge(CAPD, u(1000), w(1_000), &pred) else { return };
        // unhealthy at lo, healthy at hi
        let mut order = vec![hi.clone(), lo.clone()];
        if exact {
            order.push(w(30));
        }
        self.r.shuffle(&mut order);
        for p in order {
            if self.dead() {
                return;
            }
            self.set_price(CAPD, &p);
            self.e.cov.hit("one price unit from the liquidation boundary");
            // owner actions and strangers at the boundary
            let kinds = ["liq", "withdraw1", "borrow1", "swapcoll", "repaycoll", "liq2"];
            for _ in 0..2 {
                match *self.r.pick(&kinds) {
                    "withdraw1" => {
                        let x = u(self.r.range(1, 1000) as u128);
                        self.act(&Act::Withdraw { by: 0, pays: vec![self.nft(a)], items: vec![Pay::new(&self.tok(CAPD), x)] });
                    }
                    "borrow1" => {
                        let bor = self.side(a, BOR);
                        if let Some(i) = bor.first().cloned() {
                            self.act(&Act::Borrow { by: 0, pays: vec![self.nft(a)], items: vec![Pay::new(&self.tok(i), u(1))] });
                        }
                    }
                    "swapcoll" => {
                        self.do_("swapcoll");
                    }
                    "repaycoll" => {
                        self.do_("repaycoll");
                    }
                    _ => {
                        if let Some(x) = self.liquidation_of(a) {
                            self.act(&x);
                        }
                    }
                }
            }
        }
    }

    fn sc_exact(&mut self) {
        let i = *self.r.pick(&[0usize, 1, 2, 9, 11, 4, 6]);
        let c = self.cents(500, 5_000_000);
        let mut l = vec![(i, c)];
        if self.r.chance(40) {
            let c = self.cents(500, 500_000);
            l.push((*self.r.pick(&[3usize, 5, 10, 9]), c));
        }
        let Some(a) = self.open(0, None, &l) else { return };
        for _ in 0..self.r.range(2, 5) {
            if self.dead() {
                return;
            }
            let j = self.borr_any();
            let res = self.e.pre.bal[self.e.w.actors.len() + j][j].clone() + u(1);
            let t = self.tok(j);
            let nft = self.nft(a);
            let extra: Vec<Pay> = if self.r.chance(40) {
                let k = self.borr_any();
                let room = self.room_cents(a) / 3u32;
                let x = self.worth(k, &room).max(u(1));
                vec![Pay::new(&self.tok(k), x)]
            } else {
                vec![]
            };
            let first = self.r.chance(50);
            let mk = move |v: &U| {
                let mut items = extra.clone();
                let at = if first { 0 } else { items.len() };
                items.insert(at, Pay::new(&t, v.clone()));
                Act::Borrow { by: 0, pays: vec![nft.clone()], items }
            };
            let Some(x) = self.edge(&res, &mk) else { continue };
            if self.r.chance(60) {
                self.act(&mk(&(&x + 1u32)));
            }
            self.act(&mk(&x));
            if self.r.chance(50) {
                let d = *self.r.pick(&[1u64, 60, 86_400]);
                self.wait(d);
            }
            if self.r.chance(50) {
                // take out collateral to the edge
                let dep = self.side(a, DEP);
                let k = *self.r.pick(&dep);
                let cur = self.pos_amount(a, DEP, k);
                let (t, nft) = (self.tok(k), self.nft(a));
                let mk = move |v: &U| Act::Withdraw { by: 0, pays: vec![nft.clone()], items: vec![Pay::new(&t, v.clone())] };
                if let Some(x) = self.edge(&cur, &mk) {
                    self.act(&mk(&(&x + 1u32)));
                    self.act(&mk(&x));
                }
            }
            if self.r.chance(40) {
                let bor = self.side(a, BOR);
                if bor.is_empty() {
                    continue;
                }
                let k = *self.r.pick(&bor);
                let p = self.pos_amount(a, BOR, k);
                let x = self.r.frac(&p).max(u(1));
                self.act(&Act::Repay { by: 0, acct: a, pays: vec![Pay::new(&self.tok(k), x)] });
            }
        }
    }

    fn sc_manyborrow(&mut self) {
        let c = self.cents(100_000, 5_000_000);
        let i = *self.r.pick(&[9usize, 2, 0]);
        let Some(a) = self.open(1, None, &[(i, c)]) else { return };
        for _ in 0..3 {
            let n = self.r.range(2, 5) as usize;
            let mut bor = self.subset(&[0, 1, 2, 3, 4, 9, 10, 11], n);
            if self.r.chance(40) {
                let d = bor[0];
                bor.push(d);
            }
            let tot = self.r.range(85, 112);
            let room = self.room_cents(a) * tot / 100u32;
            let mut items = vec![];
            for j in &bor {
                let x = self.worth(*j, &(&room / (bor.len() as u32))).max(u(1));
                items.push(Pay::new(&self.tok(*j), x));
            }
            self.act(&Act::Borrow { by: 1, pays: vec![self.nft(a)], items });
            if self.dead() {
                return;
            }
        }
    }

    fn sc_lp(&mut self) {
        if self.r.chance(60) {
            let d = *self.r.pick(&[1u64, 50, 1_000, 1_000_000]);
            self.e.w.balance_lp(d);
            self.e.note(format!("env: pool depth {}", d));
            self.e.refresh();
        }
        let c = self.cents(1_000, 3_000_000);
        let Some(a) = self.open(2, None, &[(LP, c)]) else { return };
        let j = self.borr_any();
        let pct = self.r.range(50, 100);
        self.lever(a, &[j], pct);
        for _ in 0..self.r.range(2, 6) {
            if self.dead() {
                return;
            }
            match self.r.below(5) {
                0 | 1 => self.env("unbalance"),
                2 => self.env("rate"),
                3 => self.env("rebalance"),
                _ => {
                    let k = *self.r.pick(&[9_800u64, 9_500, 9_000, 10_500]);
                    self.fair(0, k);
                }
            }
            match self.r.below(5) {
                0 => {
                    if let Some(x) = self.borrow_for(a) {
                        self.act(&x);
                    }
                }
                1 => {
                    if let Some(x) = self.liquidation_of(a) {
                        self.act(&x);
                    }
                }
                2 => {
                    let cur = self.pos_amount(a, DEP, LP);
                    let x = self.around(&cur);
                    let by = self.holder(a);
                    self.act(&Act::Withdraw { by, pays: vec![self.nft(a)], items: vec![Pay::new(&self.tok(LP), x)] });
                }
                _ => {
                    self.look();
                }
            }
        }
    }
    /// LP or its parts at the edges of the tolerance
    fn sc_lpedge(&mut self) {
        let c = self.cents(1_000, 3_000_000);
        let Some(a) = self.open(2, None, &[(LP, c)]) else { return };
        // a debt whose own price does not hang on the USDC feed shows the pool's verdict alone
        let j = *self.r.pick(&[0usize, 0, 9, 10, 2]);
        let pct = self.r.range(30, 90);
        self.lever(a, &[j], pct);
        // with the usual settings USDC leaves its own bands first: widen those or narrow the pool's
        if self.r.chance(45) {
            let f = *self.r.pick(&[50u64, 60, 100]);
            let l = *self.r.pick(&[150u64, 200, 300]);
            self.act(&Act::Tolerance { by: OWNER, asset: LP, first: f, last: l });
        } else if self.r.chance(60) {
            let l = *self.r.pick(&[2_500u64, 5_000]);
            self.act(&Act::Tolerance { by: OWNER, asset: 1, first: 2_000, last: l });
        }
        // the USDC aggregator feed decides the off-chain LP value; search where the LP leaves its bands
        let which = self.r.chance(50);
        let pred = |m: &M| -> bool {
            let px = Px::new(m.w, m.pre, true);
            match px.parts(&m.w.assets[LP].id) {
                Ok(p) => {
                    if which {
                        p.w1
                    } else {
                        p.w2
                    }
                }
                Err(_) => false,
            }
        };
        let up = self.r.chance(50);
        let (lo, hi) = if up { (w(1), w(3)) } else { (wd(1, 3), w(1)) };
        if let Some((x, y)) = self.price_edge(1, lo, hi, &pred) {
            for p in [x, y] {
                let now = self.e.w.vm.now();
                self.e.w.set_agg(b"USDC", &p, now);
                self.e.note(format!("env: USDC aggregator {} (LP band edge)", p));
                self.e.refresh();
                self.look();
                self.all_ops(a);
            }
        }
        self.heal();
    }

    fn sc_caps(&mut self) {
        let i = *self.r.pick(&[0usize, 1, 2, 3, 9, 10, 11]);
        // some activity so that totals carry interest
        let c = if i == 9 { 2 } else { 9 };
        let cc = self.cents(1_000_000, 20_000_000);
        let Some(a) = self.open(0, None, &[(c, cc)]) else { return };
        let pct = self.r.range(5, 60);
        self.lever(a, &[i], pct);
        let d = *self.r.pick(&[60u64, 86_400, 2_592_000, 31_556_926]);
        self.wait(d);
        let q = synced(&self.e.pre.pools[i], self.e.pre.now * 1000);
        let s = rescale(&mulr(&q.supplied, &q.sidx), 27, q.dec);
        let b = rescale(&mulr(&q.borrowed, &q.bidx), 27, q.dec);
        let mut p = default_params(i);
        let unit = u(1);
        let supply_side = self.r.chance(50);
        if supply_side {
            p.supply_cap = match self.r.below(5) {
                0 => s.clone(),
                1 => sat_sub(&s, &unit),
                2 => &s + &unit,
                3 => &s * 99u32 / 100u32,
                _ => &s * self.r.range(101, 140) / 100u32,
            };
        } else {
            p.borrow_cap = match self.r.below(5) {
                0 => b.clone(),
                1 => sat_sub(&b, &unit),
                2 => &b + &unit,
                3 => &b * 9u32 / 10u32,
                _ => &b * self.r.range(101, 300) / 100u32,
            };
        }
        if p.supply_cap.is_zero() && p.borrow_cap.is_zero() {
            p.borrow_cap = u(1);
        }
        self.act(&Act::EditAsset { by: OWNER, asset: i, p });
        for _ in 0..self.r.range(3, 8) {
            if self.dead() {
                return;
            }
            let t = self.tok(i);
            match self.r.below(if supply_side { 5 } else { 9 }) {
                0 => {
                    let by = self.user();
                    let hi = self.e.pre.bal[by][i].clone();
                    let mk = move |v: &U| Act::Supply { by, acct: None, emode: None, pays: vec![Pay::new(&t, v.clone())] };
                    if let Some(x) = self.near_edge(&hi, &mk) {
                        self.act(&mk(&x));
                    }
                }
                1 => {
                    // twice in one call
                    let by = self.user();
                    let hi = self.e.pre.bal[by][i].clone() / 2u32;
                    let mk = move |v: &U| Act::Supply { by, acct: None, emode: None, pays: vec![Pay::new(&t, v.clone()), Pay::new(&t, v.clone())] };
                    if let Some(x) = self.near_edge(&hi, &mk) {
                        self.act(&mk(&x));
                    }
                }
                2 => {
                    self.do_("withdraw");
                }
                3 => {
                    let d = *self.r.pick(&[60u64, 86_400, 31_556_926]);
                    self.wait(d);
                }
                4 => {
                    self.do_(*["multiply", "swapcoll"].get(self.e.steps as usize % 2).unwrap());
                }
                5 | 6 => {
                    let by = self.holder(a);
                    let nft = self.nft(a);
                    let hi = self.e.pre.bal[self.e.w.actors.len() + i][i].clone();
                    let mk = move |v: &U| Act::Borrow { by, pays: vec![nft.clone()], items: vec![Pay::new(&t, v.clone())] };
                    if let Some(x) = self.near_edge(&hi, &mk) {
                        self.act(&mk(&x));
                    }
                }
                7 => {
                    let cur = self.pos_amount(a, BOR, i);
                    let x = self.r.frac(&cur).max(u(1));
                    self.act(&Act::Repay { by: 3, acct: a, pays: vec![Pay::new(&self.tok(i), x)] });
                }
                _ => {
                    // borrow twice the same token in one call
                    let by = self.holder(a);
                    let nft = self.nft(a);
                    let hi = self.e.pre.bal[self.e.w.actors.len() + i][i].clone() / 2u32;
                    let mk = move |v: &U| Act::Borrow { by, pays: vec![nft.clone()], items: vec![Pay::new(&t, v.clone()), Pay::new(&t, v.clone())] };
                    if let Some(x) = self.near_edge(&hi, &mk) {
                        self.act(&mk(&x));
                    }
                }
            }
        }
        // exits under a breached cap
        if self.r.chance(40) {
            self.sink(a, 70);
            if let Some(x) = self.liquidation_of(a) {
                self.act(&x);
            }
        }
    }

    fn sc_iso(&mut self, bad: bool) {
        if self.r.chance(60) {
            let mut p = default_params(ISOL);
            p.ceiling = w(self.r.range(20, 3_000));
            if self.r.chance(20) {
                p.ceiling = u(self.r.range(1, 1000) as u128) * p10(16);
            }
            self.act(&Act::EditAsset { by: OWNER, asset: ISOL, p });
        }
        if self.r.chance(25) {
            // a second isolated asset next to the first
            let mut p = default_params(MICE);
            p.isolated = true;
            p.ceiling = w(self.r.range(20, 3_000));
            self.act(&Act::EditAsset { by: OWNER, asset: MICE, p });
        }
        let mut mine = vec![];
        for by in 0..self.r.range(1, 3) as usize {
            let c = if bad { self.cents(500, 50_000) } else { self.cents(5_000, 800_000) };
            let emode = if self.r.chance(20) { Some(1) } else { None };
            let i = if self.r.chance(20) { MICE } else { ISOL };
            if let Some(a) = self.open(by, emode, &[(i, c)]) {
                mine.push(a);
            }
        }
        if mine.is_empty() {
            return;
        }
        for _ in 0..self.r.range(3, 9) {
            if self.dead() {
                return;
            }
            let a = *self.r.pick(&mine);
            if self.e.pre.holder(a).is_none() {
                continue;
            }
            let by = self.holder(a);
            match self.r.below(12) {
                0..=3 => {
                    let i = *self.r.pick(&[1usize, 9, 9, 1, 0]);
                    let hi = self.e.pre.bal[self.e.w.actors.len() + i][i].clone();
                    let (t, nft) = (self.tok(i), self.nft(a));
                    let mk = move |v: &U| Act::Borrow { by, pays: vec![nft.clone()], items: vec![Pay::new(&t, v.clone())] };
                    if let Some(x) = self.near_edge(&hi, &mk) {
                        let x = if self.r.chance(50) { x } else { self.r.frac(&x).max(u(1)) };
                        self.act(&mk(&x));
                    }
                }
                4 | 5 => {
                    let bor = self.side(a, BOR);
                    if let Some(i) = bor.first().cloned() {
                        let cur = self.pos_amount(a, BOR, i);
                        let x = match self.r.below(4) {
                            0 => &cur * 2u32,
                            1 => sat_sub(&cur, &(self.worth(i, &u(90)))),
                            _ => self.around(&cur),
                        };
                        let by = self.user();
                        self.act(&Act::Repay { by, acct: a, pays: vec![Pay::new(&self.tok(i), x.max(u(1)))] });
                    }
                }
                6 => {
                    // other collateral must be refused
                    let j = *self.r.pick(&[0usize, 1, 9, 11, 8]);
                    let x = self.worth(j, &u(1000));
                    self.act(&Act::Supply { by, acct: None, emode: None, pays: vec![self.nft(a), Pay::new(&self.tok(j), x)] });
                }
                7 => {
                    let x = self.worth(ISOL, &u(1000));
                    let l = self.accts();
                    let b = *self.r.pick(&l);
                    let by = self.holder(b);
                    self.act(&Act::Supply { by, acct: None, emode: None, pays: vec![self.nft(b), Pay::new(&self.tok(ISOL), x)] });
                }
                8 => {
                    let d = *self.r.pick(&[60u64, 86_400, 31_556_926]);
                    self.wait(d);
                }
                9 => {
                    let k = *self.r.pick(&["multiply", "swapdebt", "swapcoll", "repaycoll"]);
                    self.do_(k);
                }
                10 => {
                    let k = *self.r.pick(&[9_000u64, 8_000, 7_000]);
                    self.fair(ISOL, k);
                    if let Some(x) = self.liquidation_of(a) {
                        self.act(&x);
                    }
                }
                _ => {
                    // leverage into the isolated asset
                    let d = *self.r.pick(&[1usize, 9, 9, 0]);
                    let c = self.cents(2_000, 200_000);
                    let x = self.worth(ISOL, &c);
                    let amount = self.worth(d, &(&c / 2u32)).max(u(1));
                    let fee = self.e.pre.cfg[d].as_ref().map(|c| c.flash_fee.clone()).unwrap_or_default();
                    let got = &amount - &amount * fee / 10_000u32;
                    let outs = self.outs(d, &got, ISOL);
                    let by = self.user();
                    let emode = if self.r.chance(15) { 2 } else { 0 };
                    self.act(&Act::Multiply { by, pays: vec![Pay::new(&self.tok(ISOL), x)], emode, coll: self.tok(ISOL), amount, debt: self.tok(d), mode: 2, outs, pouts: None });
                    mine.push(self.e.pre.last_nonce);
                }
            }
        }
        if bad {
            for a in mine {
                if self.side(a, BOR).is_empty() || self.dead() {
                    continue;
                }
                let k = *self.r.pick(&[100u64, 30, 500]);
                self.fair(ISOL, k);
                if self.r.chance(40) {
                    if let Some(x) = self.liquidation_of(a) {
                        self.act(&x);
                    }
                }
                self.act(&Act::Clean { by: 3, acct: a });
            }
        }
    }

    fn sc_emode(&mut self) {
        let cat = self.r.range(1, 2) as u8;
        let ins: Vec<usize> = if cat == 1 { vec![0, 4, 10] } else { vec![1, 9] };
        let i = *self.r.pick(&ins);
        let c = self.cents(5_000, 2_000_000);
        let by = self.r.below(4) as usize;
        let Some(a) = self.open(by, Some(cat), &[(i, c)]) else { return };
        for _ in 0..self.r.range(4, 10) {
            if self.dead() {
                return;
            }
            match self.r.below(14) {
                12 => {
                    let x = match self.r.below(4) {
                        0 => self.multiply(),
                        1 => self.swap_coll(),
                        _ => self.swap_debt_of(a),
                    };
                    if let Some(x) = x {
                        self.act(&x);
                    }
                }
                13 => {
                    // retired while in use
                    let thr = self.r.range(9_000, 9_700);
                    self.act(&Act::EditEMode { by: OWNER, id: cat, ltv: 8_800, thr, bonus: 100, deprecated: true });
                    for _ in 0..3 {
                        let x = if self.r.chance(50) { self.swap_debt_of(a) } else { self.borrow_for(a) };
                        if let Some(x) = x {
                            self.act(&x);
                        }
                    }
                    if self.r.chance(50) {
                        self.act(&Act::EditEMode { by: OWNER, id: cat, ltv: 8_800, thr, bonus: 100, deprecated: false });
                    }
                }
                0..=2 => {
                    // edge borrow, inside or outside of the category
                    let j = if self.r.chance(60) { *self.r.pick(&[0usize, 4, 1, 9, 7]) } else { self.borr_any() };
                    let hi = self.e.pre.bal[self.e.w.actors.len() + j][j].clone();
                    let (t, nft) = (self.tok(j), self.nft(a));
                    let mk = move |v: &U| Act::Borrow { by, pays: vec![nft.clone()], items: vec![Pay::new(&t, v.clone())] };
                    let x = match self.near_edge(&hi, &mk) {
                        Some(x) => {
                            if self.r.chance(40) {
                                x
                            } else {
                                self.r.frac(&x).max(u(1))
                            }
                        }
                        None => self.worth(j, &u(500)).max(u(1)),
                    };
                    self.act(&mk(&x));
                }
                3..=4 => {
                    let j = if self.r.chance(70) { *self.r.pick(&ins) } else { *self.r.pick(&[0usize, 1, 2, 3, 4, 7, 9, 10, 11]) };
                    let x = self.amount(j);
                    self.act(&Act::Supply { by, acct: None, emode: None, pays: vec![self.nft(a), Pay::new(&self.tok(j), x)] });
                }
                5 => {
                    let ltv = self.r.range(7_000, 9_400);
                    let thr = ltv + self.r.range(1, 400);
                    let bonus = self.r.range(0, 400);
                    let deprecated = self.r.chance(25);
                    self.act(&Act::EditEMode { by: OWNER, id: cat, ltv, thr, bonus, deprecated });
                }
                6 => {
                    let j = *self.r.pick(&ins);
                    let (coll, borrow) = (self.r.chance(50), self.r.chance(50));
                    self.act(&Act::AssetEMode { by: OWNER, asset: j, id: cat, coll, borrow, edit: true });
                }
                7 => {
                    let j = *self.r.pick(&ins);
                    self.act(&Act::DropAssetEMode { by: OWNER, asset: j, id: cat });
                }
                8 => {
                    if self.r.chance(40) {
                        self.act(&Act::RemoveEMode { by: OWNER, id: cat });
                    }
                }
                9 => {
                    let dep = self.side(a, DEP);
                    if !dep.is_empty() {
                        let j = *self.r.pick(&dep);
                        let risks = self.r.chance(60);
                        self.act(&Act::Threshold { by: 4, asset: self.tok(j), risks, accts: vec![a] });
                    }
                }
                10 => {
                    // asset-wide settings change under the account
                    let j = *self.r.pick(&ins);
                    let mut p = default_params(j);
                    p.ltv = self.r.range(3_000, 8_000);
                    p.thr = p.ltv + self.r.range(1, 1_000);
                    p.can_coll = self.r.chance(70);
                    p.can_borrow = self.r.chance(70);
                    p.fee = self.r.range(0, 3_000);
                    self.act(&Act::EditAsset { by: OWNER, asset: j, p });
                }
                _ => {
                    let k = *self.r.pick(&["multiply", "swapdebt", "swapcoll", "repaycoll"]);
                    self.do_(k);
                }
            }
        }
    }

    fn sc_silo(&mut self) {
        let c = self.cents(50_000, 2_000_000);
        let by = self.r.below(4) as usize;
        let emode = if self.r.chance(25) { Some(2) } else { None };
        let i = if emode.is_some() { 1 } else { *self.r.pick(&[0usize, 2, 9]) };
        let Some(a) = self.open(by, emode, &[(i, c)]) else { return };
        let mut seq: Vec<usize> = vec![SILO, self.borr_any(), SILO, self.borr_any()];
        if self.r.chance(50) {
            seq.rotate_left(1);
        }
        for j in seq {
            if self.dead() {
                return;
            }
            let k = self.r.below(5);
            let part = self.room_cents(a) / 8u32;
            if k == 0 {
                let j2 = self.borr_any();
                let mut l = vec![(j, part.clone()), (j2, part)];
                if self.r.chance(50) {
                    l.reverse();
                }
                self.loan(a, &l);
            } else if k == 1 && !self.side(a, BOR).is_empty() {
                // debt swap into it
                let bor = self.side(a, BOR);
                let o = *self.r.pick(&bor);
                let cur = self.pos_amount(a, BOR, o);
                let part = if self.r.chance(50) { cur.clone() } else { self.r.frac(&cur) };
                let amount = self.fair_out(o, &part, j);
                let outs = self.outs(j, &amount, o);
                self.act(&Act::SwapDebt { by, pays: vec![self.nft(a)], old: self.tok(o), amount, new: self.tok(j), outs });
            } else if k == 2 {
                let amount = self.worth(j, &part).max(u(1));
                let outs = self.outs(j, &amount, i);
                self.act(&Act::Multiply { by, pays: vec![self.nft(a)], emode: emode.unwrap_or(0), coll: self.tok(i), amount, debt: self.tok(j), mode: 2, outs, pouts: None });
            } else {
                self.loan(a, &[(j, part)]);
            }
            if self.r.chance(25) {
                let bor = self.side(a, BOR);
                if let Some(i) = bor.first().cloned() {
                    let cur = self.pos_amount(a, BOR, i) * 2u32;
                    self.act(&Act::Repay { by, acct: a, pays: vec![Pay::new(&self.tok(i), cur.max(u(1)))] });
                }
            }
        }
        // leveraged account with a siloed debt
        if self.r.chance(50) {
            let d = if self.r.chance(70) { SILO } else { self.borr_any() };
            let x = self.worth(i, &u(200_000)).max(u(1));
            let amount = self.worth(d, &u(50_000)).max(u(1));
            let outs = self.outs(d, &amount, i);
            if self.act(&Act::Multiply { by, pays: vec![Pay::new(&self.tok(i), x)], emode: emode.unwrap_or(0), coll: self.tok(i), amount, debt: self.tok(d), mode: 2, outs, pouts: None }) {
                let n = self.e.pre.last_nonce;
                let j = if self.r.chance(50) { SILO } else { self.borr_any() };
                let amount = self.worth(j, &u(20_000)).max(u(1));
                let outs = self.outs(j, &amount, i);
                self.act(&Act::Multiply { by, pays: vec![self.nft(n)], emode: emode.unwrap_or(0), coll: self.tok(i), amount, debt: self.tok(j), mode: 2, outs, pouts: None });
            }
        }
    }

    /// leveraged accounts near the edge, with the swap itself moving the price of what they hold
    fn sc_swapmove(&mut self) {
        let c = *self.r.pick(&[XEGLD, XEGLD, LEGLD, LXOXNO, LP]);
        let emode = if c == XEGLD && self.r.chance(25) { 1u8 } else { 0 };
        let d = if emode == 1 { 0 } else { *self.r.pick(&[1usize, 1, 0, 2]) };
        let by = self.user();
        let cents = U::from(self.r.range(5_000, 2_000_000));
        let x = self.worth(c, &cents).max(u(1));
        let thr = self.e.pre.cfg[c].as_ref().map_or(8_000, |a| u64::try_from(&a.thr).unwrap_or(8_000));
        // health factor wanted before any move, per cent
        let h = self.r.range(102, 140);
        let most = &cents * thr / (h * 100 - thr.min(h * 100 - 1));
        let lent = if self.r.chance(60) { most } else { most * self.r.range(50, 100) / 100u32 };
        let amount = self.worth(d, &lent).max(u(1));
        let v = self.fair_out(d, &amount, c);
        let outs = vec![Pay::new(&self.tok(c), v)];
        let pays = vec![Pay::new(&self.tok(c), x)];
        let moved = |g: &mut Gen| if g.r.chance(75) { g.r.range(5_000, 9_990) } else { g.r.range(10_010, 20_000) };
        if self.r.chance(25) {
            let k = moved(self);
            self.poke(k);
        }
        let a = Act::Multiply { by, pays, emode, coll: self.tok(c), amount, debt: self.tok(d), mode: 2, outs, pouts: None };
        if !self.act(&a) {
            return;
        }
        let n = self.e.pre.last_nonce;
        for _ in 0..self.r.range(2, 7) {
            let s = match self.r.below(4) {
                0 => self.swap_debt_of(n),
                1 => {
                    let ni = self.coll_asset();
                    let cur = self.pos_amount(n, DEP, c);
                    let part = if self.r.chance(40) { cur.clone() } else { self.r.frac(&cur) };
                    let outs = vec![Pay::new(&self.tok(ni), self.fair_out(c, &part, ni))];
                    Some(Act::SwapColl { by, pays: vec![self.nft(n)], cur: self.tok(c), amount: part, new: self.tok(ni), outs })
                }
                2 => {
                    let cur = self.pos_amount(n, DEP, c);
                    let part = self.r.frac(&(&cur / 3u32 + 1u32));
                    let outs = vec![Pay::new(&self.tok(d), self.fair_out(c, &part, d))];
                    Some(Act::RepayColl { by, pays: vec![self.nft(n)], from: self.tok(c), amount: part, to: self.tok(d), close: false, outs: Some(outs) })
                }
                _ => {
                    let room = self.room_cents(n);
                    let cents = &room * self.r.range(20, 300) / 100u32 + 1u32;
                    let amount = self.worth(d, &cents).max(u(1));
                    let outs = vec![Pay::new(&self.tok(c), self.fair_out(d, &amount, c))];
                    Some(Act::Multiply { by, pays: vec![self.nft(n)], emode, coll: self.tok(c), amount, debt: self.tok(d), mode: 2, outs, pouts: None })
                }
            };
            if let Some(s) = s {
                // best when only the move stands in the way
                if self.r.chance(80) && !self.e.accepts(&s) {
                    continue;
                }
                if self.r.chance(75) {
                    let k = moved(self);
                    self.poke(k);
                }
                self.act(&s);
            }
        }
    }

    /// everybody leaves and somebody comes back: the list of accounts runs empty
    fn sc_empty(&mut self) {
        for _ in 0..self.r.range(1, 3) {
            for _ in 0..self.r.range(1, 3) {
                let nd = self.r.range(1, 2) as usize;
                let dep = self.subset(&[0, 1, 2, 3, 4, 8, 9, 10, 11], nd);
                // an isolated asset comes alone
                let dep = if dep.contains(&8) { vec![8] } else { dep };
                let mut l = vec![];
                for i in &dep {
                    let c = self.cents(100, 500_000);
                    l.push((*i, c));
                }
                let by = self.user();
                let em = if self.r.chance(25) { Some(1) } else { None };
                let l = if em.is_some() { vec![(0, l[0].1.clone())] } else { l };
                let _ = self.open(by, em, &l);
            }
            if self.r.chance(40) {
                self.wait(86_400);
            }
            for a in self.accts() {
                if self.dead() {
                    return;
                }
                let h = self.holder(a);
                if !self.side(a, BOR).is_empty() {
                    continue;
                }
                let all: Vec<Pay> = self.side(a, DEP).into_iter().map(|i| Pay::new(&self.tok(i), self.pos_amount(a, DEP, i) * 2u32)).collect();
                self.act(&Act::Withdraw { by: h, pays: vec![Pay::nft(ACC, a)], items: all });
            }
        }
    }
    fn sc_close(&mut self) {
        for _ in 0..self.r.range(1, 4) {
            let nd = self.r.range(1, 3) as usize;
            let dep = self.subset(&[0, 1, 2, 3, 4, 9, 10, 11], nd);
            let mut l = vec![];
            for i in &dep {
                let c = self.cents(100, 500_000);
                l.push((*i, c));
            }
            let by = self.user();
            let Some(a) = self.open(by, None, &l) else { continue };
            if self.r.chance(50) {
                let j = self.borr_any();
                self.lever(a, &[j], 50);
            }
            if self.r.chance(30) {
                let d = *self.r.pick(&[1u64, 86_400, 31_556_926]);
                self.wait(d);
            }
            for i in self.side(a, BOR) {
                if self.r.chance(80) {
                    let x = self.pos_amount(a, BOR, i) * 2u32 + u(1);
                    let p = self.user();
                    self.act(&Act::Repay { by: p, acct: a, pays: vec![Pay::new(&self.tok(i), x)] });
                }
            }
            if self.r.chance(30) {
                let to = self.user();
                let h = self.holder(a);
                if to != h {
                    self.act(&Act::SendNft { by: h, to, nonce: a });
                }
            }
            let h = self.holder(a);
            // out in one call or one by one, in any order, with a stray unit left or not
            let mut all: Vec<Pay> = vec![];
            for i in self.side(a, DEP) {
                let p = self.pos_amount(a, DEP, i);
                let x = match self.r.below(4) {
                    0 => p,
                    1 => sat_sub(&p, &u(1)).max(u(1)),
                    _ => p * 3u32,
                };
                all.push(Pay::new(&self.tok(i), x));
            }
            self.r.shuffle(&mut all);
            if self.r.chance(50) {
                self.act(&Act::Withdraw { by: h, pays: vec![self.nft(a)], items: all.clone() });
            } else {
                for p in all.clone() {
                    self.act(&Act::Withdraw { by: h, pays: vec![self.nft(a)], items: vec![p] });
                }
            }
            // life after closing
            let i = dep[0];
            let x = self.amount(i);
            match self.r.below(6) {
                0 => {
                    self.act(&Act::Supply { by: h, acct: Some(a), emode: None, pays: vec![Pay::new(&self.tok(i), x)] });
                }
                1 => {
                    self.act(&Act::Repay { by: h, acct: a, pays: vec![Pay::new(&self.tok(i), x)] });
                }
                2 => {
                    self.act(&Act::Withdraw { by: h, pays: vec![self.nft(a)], items: all });
                }
                3 => {
                    self.act(&Act::Liquidate { by: h, acct: a, pays: vec![Pay::new(&self.tok(i), x)] });
                }
                4 => {
                    self.act(&Act::Clean { by: h, acct: a });
                }
                _ => {
                    self.act(&Act::Threshold { by: h, asset: self.tok(i), risks: true, accts: vec![a] });
                }
            }
            if self.dead() {
                return;
            }
        }
    }

    /// price sources moved to both sides of a tolerance bound; every operation tried there
    fn sc_tolerance(&mut self) {
        let i = *self.r.pick(&[1usize, 2, 3, 7]);
        // an account whose collateral or debt is the asset
        let c = self.cents(20_000, 900_000);
        let as_coll = self.r.chance(60) || i == 7;
        let a = if as_coll {
            let Some(a) = self.open(0, None, &[(i, c)]) else { return };
            if self.r.chance(75) {
                let j = *self.r.pick(&[0usize, 9, 10]);
                let pct = self.r.range(30, 99);
                self.lever(a, &[j], pct);
            }
            a
        } else {
            let Some(a) = self.open(0, None, &[(9, c)]) else { return };
            let pct = self.r.range(30, 99);
            self.lever(a, &[i], pct);
            a
        };
        if self.r.chance(20) {
            let f = *self.r.pick(&[50u64, 100, 333, 1_500]);
            let l = *self.r.pick(&[1_600u64, 2_000, 4_000]);
            self.act(&Act::Tolerance { by: OWNER, asset: i, first: f, last: l });
        }
        for _ in 0..self.r.range(1, 2) {
            let second = self.r.chance(60);
            let id = self.e.w.assets[i].id.clone();
            let pred = move |m: &M| -> bool {
                match Px::new(m.w, m.pre, true).parts(&id) {
                    Ok(p) => {
                        if second {
                            p.w2
                        } else {
                            p.w1
                        }
                    }
                    Err(_) => false,
                }
            };
            let f = self.e.w.fair[i].clone();
            let (lo, hi) = if self.r.chance(50) { (f.clone(), &f * 3u32) } else { (&f / 3u32, f.clone()) };
            let Some((x, y)) = self.price_edge(i, lo, hi, &pred) else { continue };
            let mut l = vec![x, y];
            self.r.shuffle(&mut l);
            for p in l {
                let t = World::ticker(&self.e.w.assets[i].id);
                let now = self.e.w.vm.now();
                self.e.w.set_agg(&t, &p, now);
                self.e.note(format!("env: {} aggregator {} (edge of tolerance {})", self.e.w.assets[i].name, p, if second { 2 } else { 1 }));
                self.e.cov.hit("one price unit from a tolerance bound");
                self.e.refresh();
                if self.dead() {
                    return;
                }
                self.look();
                self.all_ops(a);
            }
            self.heal();
        }
    }

    fn sc_staleness(&mut self) {
        let i = *self.r.pick(&[0usize, 1, 2, 9, 3, 0]);
        let c = self.cents(20_000, 900_000);
        let other = if i == 9 { 2 } else { 9 };
        let as_coll = self.r.chance(50);
        let dep = if as_coll { i } else { other };
        let Some(a) = self.open(0, None, &[(dep, c)]) else { return };
        if self.r.chance(80) {
            let pct = self.r.range(30, 99);
            self.lever(a, &[if as_coll { other } else { i }], pct);
        }
        if self.r.chance(40) {
            self.sink(a, 80);
        }
        self.wait(5_000);
        for age in [599u64, 600, 601] {
            if self.r.chance(70) {
                let t = World::ticker(&self.e.w.assets[i].id);
                let ts = self.e.w.vm.now() - age;
                if let Some((p, _)) = self.e.w.feeds.agg.get(&t).cloned() {
                    self.e.w.set_agg(&t, &p, ts);
                }
                self.e.note(format!("env: feed of {} is {}s old", self.e.w.assets[i].name, age));
                self.e.cov.hit(&format!("feed age {}", age));
                self.e.refresh();
                if self.dead() {
                    return;
                }
                self.look();
                self.all_ops(a);
            }
        }
        self.heal();
    }

    /// every feed condition against every operation
    fn sc_gates(&mut self) {
        let i = *self.r.pick(&[1usize, 2, 3, 9, 7, 11, 0, 4, 6, 5]);
        let c = self.cents(20_000, 900_000);
        let other = if i == 9 { 2 } else { 9 };
        let as_coll = self.r.chance(60) || [6, 7].contains(&i);
        let (dep, bor) = if as_coll { (i, other) } else { (other, i) };
        let Some(a) = self.open(0, None, &[(dep, c)]) else { return };
        let kind = self.r.below(4);
        if kind > 0 {
            let pct = self.r.range(30, 99);
            self.lever(a, &[bor], pct);
        }
        if kind == 2 {
            let k = *self.r.pick(&[75u64, 20, 1]);
            self.sink(a, k);
        }
        for _ in 0..self.r.range(1, 3) {
            let m = self.r.below(7);
            let target = match i {
                4 | 10 => 0,
                6 => *self.r.pick(&[1usize, 0]),
                5 => 3,
                x => x,
            };
            self.feed_off(target, m);
            if self.dead() {
                return;
            }
            self.look();
            self.all_ops(a);
            if self.r.chance(70) {
                self.heal();
            }
        }
        self.heal();
    }

    /// operations that would succeed were it not for the condition of one price source
    fn sc_gateonly(&mut self) {
        let i = *self.r.pick(&[1usize, 2, 3, 7, 9, 11, 0, 4, 6, 5]);
        let kind = self.r.weighted(&[30, 45, 25]);
        let other = if i == 9 { 2 } else { 9 };
        let as_coll = self.r.chance(50) || [6, 7].contains(&i);
        let (dep, bor) = if as_coll { (i, other) } else { (other, i) };
        let c = if kind == 2 { self.cents(600, 6_000) } else { self.cents(20_000, 900_000) };
        let Some(a) = self.open(0, None, &[(dep, c)]) else { return };
        let pct = self.r.range(60, 99);
        self.lever(a, &[bor], pct);
        if self.r.chance(30) {
            // another debtor on the same footing
            let c = self.cents(20_000, 900_000);
            if let Some(b) = self.open(1, None, &[(dep, c)]) {
                self.lever(b, &[bor], 95);
            }
        }
        match kind {
            1 => {
                let k = *self.r.pick(&[85u64, 75, 60]);
                self.sink(a, k);
            }
            2 => {
                let k = *self.r.pick(&[40u64, 10, 3, 1]);
                self.sink(a, k);
            }
            _ => {}
        }
        let target = match i {
            4 | 10 => 0,
            6 => *self.r.pick(&[1usize, 0]),
            5 => 3,
            x => x,
        };
        let m = *self.r.pick(&[0u64, 6, 0, 6, 0, 6, 1, 1, 2, 2, 4, 5]);
        self.feed_off(target, m);
        let mut kinds = ["liquidate", "clean", "threshold", "borrow", "withdraw", "multiply", "swapdebt", "swapcoll", "repaycoll", "topup", "repay"];
        self.r.shuffle(&mut kinds);
        let first = ["borrow", "liquidate", "clean"][kind];
        let at = kinds.iter().position(|k| *k == first).unwrap();
        kinds.swap(0, at);
        for k in kinds {
            if self.dead() {
                return;
            }
            for _ in 0..8 {
                let Some(x) = self.make(k) else { break };
                match self.e.sole(&x) {
                    Sole::Junk => continue,
                    Sole::Only(_, w) => {
                        self.e.cov.hit(&format!("one obstacle only: {} / {}", x.name(), w));
                        if !w.starts_with("Price") {
                            continue;
                        }
                    }
                    Sole::Fine => {
                        if self.r.chance(60) {
                            continue;
                        }
                    }
                }
                self.act(&x);
                break;
            }
        }
        self.heal();
    }

    /// the contracts the protocol refers to are replaced, most of them for a moment only
    fn sc_newaddr(&mut self) {
        let other = [self.e.w.pools[1], self.e.w.flash, self.e.w.flash_far, self.e.w.treasury, self.e.w.safe_view];
        for _ in 0..self.r.range(2, 6) {
            if self.dead() {
                return;
            }
            let which = self.r.below(5) as usize;
            let cur = self.e.pre.addrs[which];
            if which == 3 {
                let addr = if cur == self.e.w.treasury { self.e.w.accumulator } else { self.e.w.treasury };
                self.act(&Act::SetAddr { by: OWNER, which, addr });
                let i = self.r.below(self.n() as u64) as usize;
                self.wait(86_400);
                let by = self.user();
                let t = self.tok(i);
                self.act(&Act::Claim { by, assets: vec![t] });
                continue;
            }
            // no probing while the protocol looks elsewhere
            if self.e.step(&Act::SetAddr { by: OWNER, which, addr: other[which] }) && which == 4 {
                let k = *self.r.pick(&["multiply", "swapdebt", "swapcoll", "repaycoll"]);
                if let Some(a) = self.make(k) {
                    self.e.step(&a);
                }
            }
            self.e.step(&Act::SetAddr { by: OWNER, which, addr: cur });
        }
    }
    fn sc_claim(&mut self) {
        if self.r.chance(15) {
            let addr = if self.r.chance(70) { self.e.w.treasury } else { self.e.w.accumulator };
            self.act(&Act::SetAddr { by: OWNER, which: 3, addr });
        }
        let i = *self.r.pick(&[0usize, 1, 2, 3, 9, 10, 11]);
        let c = if i == 9 { 2 } else { 9 };
        let cc = self.cents(1_000_000, 60_000_000);
        let Some(a) = self.open(0, None, &[(c, cc)]) else { return };
        // drain the market or not
        let hi = self.e.pre.bal[self.e.w.actors.len() + i][i].clone();
        let t = self.tok(i);
        let nft = self.nft(a);
        let mk = move |v: &U| Act::Borrow { by: 0, pays: vec![nft.clone()], items: vec![Pay::new(&t, v.clone())] };
        if let Some(x) = self.edge(&hi, &mk) {
            let x = if self.r.chance(60) { x } else { self.r.frac(&x).max(u(1)) };
            self.act(&mk(&x));
        }
        for _ in 0..self.r.range(2, 7) {
            if self.dead() {
                return;
            }
            match self.r.below(7) {
                0 | 1 => {
                    let d = *self.r.pick(&[60u64, 86_400, 2_592_000, 31_556_926]);
                    self.wait(d);
                }
                2 | 3 => {
                    let n = self.r.range(1, 3);
                    let mut l = vec![self.tok(i)];
                    for _ in 1..n {
                        let j = self.r.below(12) as usize;
                        l.push(if self.r.chance(40) { self.tok(i) } else { self.tok(j) });
                    }
                    let by = self.user();
                    self.act(&Act::Claim { by, assets: l.clone() });
                    if self.r.chance(50) {
                        self.act(&Act::Claim { by, assets: l });
                    }
                }
                4 => {
                    let x = self.amount(i);
                    let mut pays = vec![Pay::new(&self.tok(i), x)];
                    if self.r.chance(40) {
                        let j = self.r.below(12) as usize;
                        let x = self.amount(j);
                        pays.push(Pay::new(&self.tok(j), x));
                    }
                    self.act(&Act::Rewards { by: OWNER, pays });
                }
                5 => {
                    let f = self.flash();
                    self.act(&f);
                }
                _ => {
                    let p = self.pos_amount(a, BOR, i);
                    let x = self.r.frac(&p).max(u(1));
                    self.act(&Act::Repay { by: 2, acct: a, pays: vec![Pay::new(&self.tok(i), x)] });
                }
            }
        }
    }

    fn sc_strat(&mut self) {
        for _ in 0..3 {
            self.do_("multiply");
        }
        for _ in 0..self.r.range(4, 9) {
            if self.dead() {
                return;
            }
            let k = *self.r.pick(&["multiply", "multiply", "swapdebt", "swapcoll", "repaycoll", "repaycoll"]);
            self.do_(k);
            if self.r.chance(15) {
                let d = *self.r.pick(&[60u64, 86_400, 31_556_926]);
                self.wait(d);
            }
        }
    }

    fn sc_repaycoll(&mut self) {
        // deposit and debt in the same asset, or different ones
        let by = self.r.below(4) as usize;
        let i = *self.r.pick(&[0usize, 1, 2, 9, 10]);
        let c = self.cents(20_000, 2_000_000);
        let mut l = vec![(i, c)];
        if self.r.chance(50) {
            let j = *self.r.pick(&[3usize, 11, 4, 9]);
            if j != i {
                let c = self.cents(2_000, 200_000);
                l.push((j, c));
            }
        }
        let Some(a) = self.open(by, None, &l) else { return };
        let same = self.r.chance(50);
        let d = if same { i } else { self.borr_any() };
        let pct = self.r.range(20, 90);
        self.lever(a, &[d], pct);
        if self.r.chance(40) {
            let d = *self.r.pick(&[60u64, 86_400, 31_556_926]);
            self.wait(d);
        }
        for _ in 0..self.r.range(1, 4) {
            if self.e.pre.holder(a).is_none() || self.dead() {
                return;
            }
            let dep = self.side(a, DEP);
            let bor = self.side(a, BOR);
            if dep.is_empty() || bor.is_empty() {
                break;
            }
            let f = *self.r.pick(&dep);
            let t = *self.r.pick(&bor);
            let debt = self.pos_amount(a, BOR, t);
            let cur = self.pos_amount(a, DEP, f);
            let need = if f == t { debt.clone() } else { self.fair_out(t, &debt, f) };
            let amount = match self.r.below(5) {
                0 => need.clone(),
                1 => &need * 12u32 / 10u32,
                2 => cur.clone(),
                3 => &cur * 2u32,
                _ => self.r.frac(&need),
            }
            .max(u(1));
            let taken = umin(&amount, &cur).clone();
            let outs = if f == t && self.r.chance(80) { None } else { Some(self.outs(f, &taken, t)) };
            let close = self.r.chance(60);
            self.act(&Act::RepayColl { by, pays: vec![self.nft(a)], from: self.tok(f), amount, to: self.tok(t), close, outs });
        }
    }

    /// categories until their one-byte identifiers run out, and further
    fn sc_manycats(&mut self) {
        let c = self.cents(100, 500_000);
        let _ = self.open(0, Some(1), &[(0, c)]);
        for k in 0..262u64 {
            if self.dead() {
                return;
            }
            let l = 5_000 + self.r.below(2_000);
            self.act(&Act::AddEMode { by: OWNER, ltv: l, thr: l + 500, bonus: 100 });
            if k > 250 && self.r.chance(20) {
                let id = *self.r.pick(&[1u8, 2, 3, 200, 254, 255]);
                self.act(&Act::EditEMode { by: OWNER, id, ltv: 8_000, thr: 9_000, bonus: 100, deprecated: false });
            }
        }
    }

    fn sc_emodecfg(&mut self) {
        for _ in 0..self.r.range(6, 18) {
            if self.dead() {
                return;
            }
            let a = match self.r.below(8) {
                0 => {
                    let i = self.r.below(12) as usize;
                    let mut p = default_params(i);
                    p.ltv = *self.r.pick(&[0u64, 1, 5_000, 7_999, 8_000, 9_999, 10_000]);
                    p.thr = *self.r.pick(&[0u64, 1, 2, 5_000, 7_999, 8_000, 8_001, 10_000, 10_001]);
                    p.isolated = self.r.chance(10);
                    p.bonus = *self.r.pick(&[0u64, 1_500, 1_501, 10_000, 500]);
                    Act::EditAsset { by: OWNER, asset: i, p }
                }
                1 => {
                    let i = self.r.below(12) as usize;
                    let f = *self.r.pick(&[0u64, 49, 50, 51, 200, 1_000, 4_999, 5_000, 5_001, 10_000]);
                    let l = *self.r.pick(&[0u64, 149, 150, 151, 200, 1_000, 5_000, 9_999, 10_000, 10_001]);
                    Act::Tolerance { by: OWNER, asset: i, first: f, last: l }
                }
                2 => {
                    let l = *self.r.pick(&[0u64, 5_000, 9_000]);
                    let t = *self.r.pick(&[0u64, 4_999, 5_000, 5_001, 9_000, 9_100, 10_001]);
                    Act::AddEMode { by: OWNER, ltv: l, thr: t, bonus: 100 }
                }
                3 => {
                    let l = *self.r.pick(&[0u64, 5_000, 9_000]);
                    let t = *self.r.pick(&[0u64, 4_999, 5_000, 5_001, 9_000, 9_100]);
                    Act::EditEMode { by: OWNER, id: self.r.below(4) as u8, ltv: l, thr: t, bonus: 100, deprecated: self.r.chance(20) }
                }
                4 => {
                    let i = self.r.below(12) as usize;
                    let mut r = default_rates(i);
                    match self.r.below(8) {
                        0 => r.max = sat_sub(&r.base, &u(1)),
                        1 => r.max = r.base.clone(),
                        2 => r.max = &r.base + 1u32,
                        3 => r.opt = r.mid.clone(),
                        4 => r.opt = ray(),
                        5 => r.opt = ray() - 1u32,
                        6 => r.mid = zero(),
                        _ => r.rf = *self.r.pick(&[0u64, 9_999, 10_000, 10_001]),
                    }
                    Act::PoolParams { by: OWNER, asset: i, r }
                }
                _ => self.emode_cfg(),
            };
            self.act(&a);
        }
    }

    fn sc_repayall(&mut self) {
        let Some(a) = self.loaded() else { return };
        let d = *self.r.pick(&[1u64, 60, 86_400, 31_556_926]);
        self.wait(d);
        for i in self.side(a, BOR) {
            let cur = self.pos_amount(a, BOR, i);
            let x = match self.r.below(6) {
                0 => cur.clone(),
                1 => &cur + 1u32,
                2 => sat_sub(&cur, &u(1)),
                3 => &cur * 5u32,
                4 => sat_sub(&cur, &u(2)),
                _ => self.r.frac(&cur),
            };
            let by = self.user();
            self.act(&Act::Repay { by, acct: a, pays: vec![Pay::new(&self.tok(i), x.max(u(1)))] });
            if self.r.chance(40) {
                let d = *self.r.pick(&[1u64, 86_400]);
                self.wait(d);
            }
        }
        // both payments for one debt in a single call
        let bor = self.side(a, BOR);
        if !bor.is_empty() {
            let i = *self.r.pick(&bor);
            let cur = self.pos_amount(a, BOR, i);
            let x = (&cur * 6u32 / 10u32).max(u(1));
            self.act(&Act::Repay { by: 3, acct: a, pays: vec![Pay::new(&self.tok(i), x.clone()), Pay::new(&self.tok(i), x)] });
        }
    }

    fn sc_limits(&mut self) {
        let (b, s) = (self.r.range(1, 4) as u8, self.r.range(1, 4) as u8);
        self.act(&Act::Limits { by: OWNER, borrow: b, supply: s });
        let plain = [0usize, 1, 2, 3, 4, 9, 10, 11];
        for _ in 0..self.r.range(1, 2) {
            let by = self.r.below(5) as usize;
            let over = self.r.below(3) as usize;
            let n = (s as usize + over).saturating_sub(1).max(1);
            let dep = self.subset(&plain, n);
            let mut l: Vec<(usize, U)> = vec![];
            for i in &dep {
                let c = self.cents(50_000, 500_000);
                l.push((*i, c));
            }
            if self.r.chance(30) {
                let x = l[0].clone();
                l.push(x);
            }
            let a = match self.open(by, None, &l) {
                Some(a) => a,
                None => {
                    let Some(a) = self.open(by, None, &l[..1]) else { continue };
                    a
                }
            };
            for _ in 0..self.r.range(2, 6) {
                if self.dead() {
                    return;
                }
                match self.r.below(8) {
                    0 | 1 => {
                        let k = self.r.range(1, 3) as usize;
                        let add = self.subset(&plain, k);
                        let mut pays = vec![self.nft(a)];
                        for i in add {
                            let x = self.worth(i, &u(5_000));
                            pays.push(Pay::new(&self.tok(i), x));
                        }
                        self.act(&Act::Supply { by, acct: None, emode: None, pays });
                    }
                    2..=4 => {
                        let k = self.r.range(1, 4) as usize;
                        let bor = self.subset(&plain, k);
                        self.lever(a, &bor, 20);
                    }
                    5 => {
                        let bor = self.side(a, BOR);
                        if let Some(o) = bor.first().cloned() {
                            let j = self.borr_any();
                            let cur = self.pos_amount(a, BOR, o);
                            let part = if self.r.chance(50) { cur.clone() } else { &cur / 2u32 };
                            let amount = self.fair_out(o, &part, j);
                            let outs = self.outs(j, &amount, o);
                            self.act(&Act::SwapDebt { by, pays: vec![self.nft(a)], old: self.tok(o), amount, new: self.tok(j), outs });
                        }
                    }
                    6 => {
                        let dep = self.side(a, DEP);
                        if let Some(o) = dep.first().cloned() {
                            let j = *self.r.pick(&plain);
                            let cur = self.pos_amount(a, DEP, o);
                            let part = if self.r.chance(50) { cur.clone() } else { &cur / 2u32 };
                            let outs = self.outs(o, &part, j);
                            self.act(&Act::SwapColl { by, pays: vec![self.nft(a)], cur: self.tok(o), amount: part.max(u(1)), new: self.tok(j), outs });
                        }
                    }
                    _ => {
                        let (b, s) = (self.r.range(0, 3) as u8, self.r.range(0, 3) as u8);
                        self.act(&Act::Limits { by: OWNER, borrow: b, supply: s });
                        self.do_("withdraw");
                        self.do_("repay");
                    }
                }
            }
        }
        // leveraged accounts against the limits
        if self.r.chance(60) {
            self.do_("multiply");
            self.do_("multiply");
        }
    }

    /// parameter updates around health factor 1.05
    fn sc_buffer(&mut self) {
        let c = self.cents(10_000, 2_000_000);
        let emode = if self.r.chance(25) { Some(2) } else { None };
        let mut l = vec![(CAPD, c)];
        if self.r.chance(40) {
            let c = self.cents(1_000, 300_000);
            l.push((if emode.is_some() { 1 } else { *self.r.pick(&[0usize, 2, 11]) }, c));
        }
        let Some(a) = self.open(0, emode, &l) else { return };
        let bor = if emode.is_some() { vec![1] } else { let k = 1 + self.r.below(2) as usize; self.subset(&[0, 1, 2, 3], k) };
        let pct = self.r.range(40, 99);
        self.lever(a, &bor, pct);
        // new settings
        if emode.is_some() && self.r.chance(70) {
            let ltv = self.r.range(6_000, 9_000);
            let thr = ltv + self.r.range(1, 500);
            let bonus = self.r.range(0, 500);
            let deprecated = self.r.chance(10);
            self.act(&Act::EditEMode { by: OWNER, id: 2, ltv, thr, bonus, deprecated });
        } else {
            let mut p = default_params(CAPD);
            p.ltv = self.r.range(4_000, 8_500);
            p.thr = (p.ltv + self.r.range(1, 1_000)).min(9_900);
            p.bonus = self.r.range(0, 1_500);
            p.fee = self.r.range(0, 5_000);
            self.act(&Act::EditAsset { by: OWNER, asset: CAPD, p });
        }
        if self.r.chance(30) {
            let d = self.r.range(1, 10_000_000);
            self.wait(d);
        }
        // price at which the update is just (not) allowed
        let t = self.tok(CAPD);
        let act = Act::Threshold { by: 3, asset: t.clone(), risks: true, accts: vec![a] };
        let a2 = act.clone();
        let pred = |m: &M| -> bool {
            let mut n = M::new(m.w, m.pre);
            n.run(&a2).is_ok()
        };
        let pair = self.price_edge(CAPD, u(1000), w(1_000), &pred);
        if let Some((lo, hi)) = pair {
            self.e.cov.hit("one price unit from the update boundary");
            self.set_price(CAPD, &lo);
            self.act(&act);
            if self.r.chance(50) {
                self.act(&Act::Threshold { by: 3, asset: t.clone(), risks: false, accts: vec![a] });
            }
            self.set_price(CAPD, &hi);
            self.act(&act);
        } else {
            self.act(&act);
        }
        if self.r.chance(50) {
            // several accounts in one call
            let c = self.cents(10_000, 500_000);
            if let Some(b) = self.open(1, None, &[(CAPD, c)]) {
                if self.r.chance(70) {
                    let pct = self.r.range(40, 99);
                    self.lever(b, &[2], pct);
                }
                let mut p = default_params(CAPD);
                p.ltv = self.r.range(4_000, 8_500);
                p.thr = p.ltv + self.r.range(1, 500);
                p.fee = self.r.range(0, 3_000);
                self.act(&Act::EditAsset { by: OWNER, asset: CAPD, p });
                let mut accts = vec![a, b];
                if self.r.chance(50) {
                    accts.reverse();
                }
                let risks = self.r.chance(70);
                self.act(&Act::Threshold { by: 4, asset: t, risks, accts });
            }
        }
    }

    /// accounts opened under earlier settings: what they may borrow, withdraw and lose follows their own terms
    fn sc_oldterms(&mut self) {
        let a = if self.r.chance(25) {
            let c = self.cents(10_000, 2_000_000);
            let mut l = vec![(CAPD, c)];
            if self.r.chance(50) {
                let c = self.cents(1_000, 300_000);
                l.push((1, c));
            }
            let Some(a) = self.open(0, Some(2), &l) else { return };
            let pct = self.r.range(60, 99);
            self.lever(a, &[1], pct);
            a
        } else {
            let Some(a) = self.loaded() else { return };
            a
        };
        let emode = self.e.pre.attrs.get(&a).map_or(0, |x| x.emode);
        // the owner changes the terms
        let dep = self.side(a, DEP);
        let wide = self.r.chance(50);
        for i in dep.iter().cloned() {
            if !wide && self.r.chance(50) {
                continue;
            }
            let mut p = default_params(i);
            match self.r.below(4) {
                0 => p.fee = self.r.range(0, 6_000),
                1 => p.bonus = self.r.range(0, 1_500),
                2 => {
                    p.ltv = self.r.range(3_000, 9_000);
                    p.thr = p.ltv + self.r.range(1, 900);
                }
                _ => {
                    p.ltv = self.r.range(3_000, 9_000);
                    p.thr = p.ltv + self.r.range(1, 900);
                    p.bonus = self.r.range(0, 1_500);
                    p.fee = self.r.range(0, 6_000);
                }
            }
            self.act(&Act::EditAsset { by: OWNER, asset: i, p });
        }
        if emode != 0 && self.r.chance(60) {
            let ltv = self.r.range(6_000, 9_000);
            let thr = ltv + self.r.range(1, 900);
            let bonus = self.r.range(0, 900);
            self.act(&Act::EditEMode { by: OWNER, id: emode, ltv, thr, bonus, deprecated: false });
        }
        if self.r.chance(30) && !dep.is_empty() {
            // applied to one of the positions only
            let i = *self.r.pick(&dep);
            let t = self.tok(i);
            let risks = self.r.chance(50);
            self.act(&Act::Threshold { by: 3, asset: t, risks, accts: vec![a] });
        }
        let mut kinds = ["borrow", "withdraw", "topup", "liq", "liq", "again"];
        self.r.shuffle(&mut kinds);
        let mut sunk = false;
        for k in kinds {
            if self.dead() || self.side(a, BOR).is_empty() {
                return;
            }
            let by = self.holder(a);
            match k {
                "borrow" => {
                    let i = *self.r.pick(&[0usize, 1, 2, 9]);
                    let hi = self.room_cents(a) * 2u32 + 100u32;
                    let hi = self.worth(i, &hi);
                    let (t, n) = (self.tok(i), self.nft(a));
                    let mk = move |v: &U| Act::Borrow { by, pays: vec![n.clone()], items: vec![Pay::new(&t, v.clone())] };
                    if let Some(v) = self.near_edge(&hi, &mk) {
                        self.act(&mk(&v));
                    }
                }
                "withdraw" => {
                    let d = self.side(a, DEP);
                    if d.is_empty() {
                        continue;
                    }
                    let i = *self.r.pick(&d);
                    let hi = self.pos_amount(a, DEP, i);
                    let (t, n) = (self.tok(i), self.nft(a));
                    let mk = move |v: &U| Act::Withdraw { by, pays: vec![n.clone()], items: vec![Pay::new(&t, v.clone())] };
                    if let Some(v) = self.near_edge(&hi, &mk) {
                        self.act(&mk(&v));
                    }
                }
                "topup" => {
                    let d = self.side(a, DEP);
                    if d.is_empty() || self.r.chance(60) {
                        continue;
                    }
                    let i = *self.r.pick(&d);
                    let c = self.cents(100, 10_000);
                    let x = self.worth(i, &c).max(u(1));
                    let n = self.nft(a);
                    let y = Pay::new(&self.tok(i), x);
                    self.act(&Act::Supply { by, acct: None, emode: None, pays: vec![n, y] });
                }
                _ => {
                    if !sunk || self.r.chance(30) {
                        let pct = *self.r.pick(&[98u64, 97, 95, 93, 90, 85, 80]);
                        self.sink(a, pct);
                        sunk = true;
                    }
                    if let Some(x) = self.liquidation_of(a) {
                        self.act(&x);
                    }
                }
            }
        }
    }

    /// a member of a category that became an isolated asset
    fn sc_isomember(&mut self) {
        let c = self.cents(50_000, 2_000_000);
        let Some(a) = self.open(0, Some(2), &[(1, c)]) else { return };
        let lent = self.r.chance(50);
        if lent {
            self.lever(a, &[CAPD], 20);
        }
        let mut p = default_params(CAPD);
        p.isolated = true;
        p.ceiling = w(1_000_000);
        p.can_borrow = true;
        self.act(&Act::EditAsset { by: OWNER, asset: CAPD, p });
        let by = self.holder(a);
        let n = self.nft(a);
        let mut kinds = [0u64, 1, 2, 3];
        self.r.shuffle(&mut kinds);
        for k in kinds {
            let c = self.cents(100, 10_000);
            let x = self.worth(CAPD, &c).max(u(1));
            let y = Pay::new(&self.tok(CAPD), x.clone());
            match k {
                0 => {
                    self.act(&Act::Supply { by, acct: None, emode: None, pays: vec![n.clone(), y] });
                }
                1 => {
                    self.act(&Act::Borrow { by, pays: vec![n.clone()], items: vec![y] });
                }
                2 => {
                    self.act(&Act::Supply { by: 1, acct: None, emode: Some(2), pays: vec![y] });
                }
                _ => {
                    self.do_("swapdebt");
                    self.do_("swapcoll");
                }
            }
        }
    }

    /// an asset becomes (or stops being) siloed or isolated under accounts that already use it
    fn sc_flagged(&mut self) {
        if self.r.chance(55) {
            let c = self.cents(100_000, 2_000_000);
            let i = *self.r.pick(&[0usize, 1, 2]);
            let Some(a) = self.open(0, None, &[(i, c)]) else { return };
            let mut l: Vec<usize> = [0usize, 1, 2, 3, 4, 9, 10].into_iter().filter(|x| *x != i).collect();
            self.r.shuffle(&mut l);
            let k = self.r.range(1, 4) as usize;
            self.lever(a, &l[..k], 30);
            let owed = self.side(a, BOR);
            if owed.is_empty() {
                return;
            }
            let t = *self.r.pick(&owed);
            let Some(mut p) = self.present(t) else { return };
            p.siloed = true;
            self.act(&Act::EditAsset { by: OWNER, asset: t, p });
            let by = self.holder(a);
            for _ in 0..self.r.range(3, 7) {
                if self.dead() || self.e.pre.holder(a).is_none() {
                    return;
                }
                let n = self.nft(a);
                let j = if self.r.chance(60) { *self.r.pick(&l) } else { t };
                let c = self.cents(50, 2_000);
                let y = Pay::new(&self.tok(j), self.worth(j, &c).max(u(1)));
                match self.r.below(10) {
                    0..=4 => {
                        self.act(&Act::Borrow { by, pays: vec![n], items: vec![y] });
                    }
                    5 => {
                        let j = *self.r.pick(&l);
                        let c = self.cents(50, 2_000);
                        let z = Pay::new(&self.tok(j), self.worth(j, &c).max(u(1)));
                        self.act(&Act::Borrow { by, pays: vec![n], items: vec![y, z] });
                    }
                    6 => {
                        self.do_("swapdebt");
                    }
                    7 => {
                        self.do_("repaycoll");
                    }
                    _ => {
                        let cur = self.side(a, BOR);
                        if let Some(j) = cur.first().cloned() {
                            let x = self.pos_amount(a, BOR, j) * 2u32;
                            let by = self.user();
                            self.act(&Act::Repay { by, acct: a, pays: vec![Pay::new(&self.tok(j), x)] });
                        }
                    }
                }
            }
            return;
        }
        let c = self.cents(20_000, 800_000);
        let Some(a) = self.open(0, None, &[(ISOL, c)]) else { return };
        self.lever(a, &[1], 20);
        let by = self.holder(a);
        for round in 0..self.r.range(2, 4) {
            if self.dead() || self.e.pre.holder(a).is_none() {
                return;
            }
            let Some(mut p) = self.present(ISOL) else { return };
            p.isolated = round % 2 == 1;
            if self.r.chance(30) {
                p.ceiling = w(self.r.range(20, 3_000));
            }
            self.act(&Act::EditAsset { by: OWNER, asset: ISOL, p });
            for _ in 0..self.r.range(2, 6) {
                if self.dead() || self.e.pre.holder(a).is_none() {
                    return;
                }
                let n = self.nft(a);
                let j = *self.r.pick(&[1usize, 1, 9, 9, 0]);
                let c = self.cents(50, 50_000);
                let y = Pay::new(&self.tok(j), self.worth(j, &c).max(u(1)));
                match self.r.below(10) {
                    0..=2 => {
                        self.act(&Act::Borrow { by, pays: vec![n], items: vec![y] });
                    }
                    3 => {
                        self.act(&Act::Repay { by: 1, acct: a, pays: vec![y] });
                    }
                    4 => {
                        self.do_("swapdebt");
                    }
                    5 => {
                        let by = self.user();
                        self.open(by, None, &[(ISOL, u(50_000)), (1, u(50_000))]);
                    }
                    6 => {
                        let i = *self.r.pick(&[ISOL, 1]);
                        let z = Pay::new(&self.tok(i), self.worth(i, &u(5_000)).max(u(1)));
                        self.act(&Act::Supply { by, acct: None, emode: None, pays: vec![n, z] });
                    }
                    7 => {
                        self.do_("swapcoll");
                    }
                    8 => {
                        let by = self.user();
                        self.open(by, Some(1), &[(ISOL, u(50_000))]);
                    }
                    _ => {
                        self.sink(a, 96);
                        if let Some(x) = self.liquidation_of(a) {
                            self.act(&x);
                        }
                        self.env("heal");
                    }
                }
            }
        }
    }

    /// a flash-loan receiver that calls back into the protocol
    fn sc_reenter(&mut self) {
        let Some(a) = self.loaded() else { return };
        // the receiver owns an account of its own (token sent to it)
        let Some(b) = self.open(1, None, &[(1, u(500_000)), (9, u(500_000))]) else { return };
        let by = self.holder(b);
        if self.r.chance(75) {
            let j = *self.r.pick(&[0usize, 2, 3]);
            self.lever(b, &[j], 40);
        }
        self.act(&Act::SendNft { by, to: FLASH, nonce: b });
        let mut a = a;
        match self.r.below(10) {
            0..=2 => self.sink(a, 70),
            3 | 4 => {
                let cc = self.cents(1_000, 4_000);
                if let Some(x) = self.open(2, None, &[(MICE, cc)]) {
                    self.lever(x, &[1], 90);
                    self.sink(x, 5);
                    a = x;
                }
            }
            _ => {}
        }
        for _ in 0..self.r.range(3, 8) {
            if self.dead() {
                return;
            }
            // not EGLD: plain EGLD transfers to an endpoint-less call are counted by the test VM as back-transfers
            let i = *self.r.pick(&[1usize, 2, 3, 4, 9, 10, 11]);
            let res = self.e.pre.bal[self.e.w.actors.len() + i][i].clone();
            let amount = self.r.frac(&res).max(u(1));
            let fee = self.e.pre.cfg[i].as_ref().map(|c| c.flash_fee.clone()).unwrap_or_default();
            let dec = self.e.w.assets[i].dec;
            let need = rescale(&mulr(&rescale(&amount, dec, 27), &(ray() + &fee * p10(23))), 27, dec);
            let pool = self.e.w.pools[i];
            let t = self.tok(i);
            let claim = if self.e.prop == "P18" { 60 } else { 12 };
            let (ep, args, pays) = if self.r.chance(claim) {
                let mut l = vec![t.clone()];
                if self.r.chance(30) {
                    l.push(self.tok(1));
                }
                ("claimRevenue".to_string(), l, vec![])
            } else {
                self.inner_call(a, b)
            };
            let call = Op::Call { to: self.e.w.controller, ep, pays, args };
            let mut ops = vec![Op::Send { to: pool, pay: Pay::new(&t, need) }];
            let at = self.r.below(2) as usize;
            ops.insert(at, call);
            let by = self.user();
            self.act(&Act::Flash { by, asset: t, amount, to: FLASH, ep: "flash".into(), ops });
        }
    }
    /// would the call succeed if made on its own right now?
    fn works(&mut self, a: &Act) -> bool {
        let sv = self.e.w.save();
        let ok = crate::exec::exec(&mut self.e.w, a).ok;
        self.e.w.load(&sv);
        ok
    }
    /// a call of the receiver that nothing but the open flash loan stands against
    fn inner_call(&mut self, a: u64, b: u64) -> (String, Vec<Vec<u8>>, Vec<Pay>) {
        let mut last = Act::UpdateIdx { by: FLASH, assets: vec![self.tok(1)] };
        let kind = self.r.below(14);
        for k in 0..6 {
            last = self.inner_act(a, b, kind);
            if self.works(&last) {
                self.e.cov.hit(&format!("inner {} possible otherwise", last.name()));
                break;
            }
            if k == 5 {
                self.e.cov.hit(&format!("inner {} impossible anyway", last.name()));
            }
        }
        crate::exec::encode(&self.e.w, &last)
    }
    fn inner_act(&mut self, a: u64, b: u64, kind: u64) -> Act {
        let nft = Pay::nft(ACC, b);
        let i = *self.r.pick(&[1usize, 9]);
        let cents = u(*self.r.pick(&[30u128, 300, 3_000]));
        let small = self.worth(i, &cents).max(u(1));
        let t = self.tok(i);
        let fl = FLASH;
        match kind {
            0 => Act::Supply { by: fl, acct: None, emode: None, pays: vec![Pay::new(&t, small)] },
            1 => Act::Supply { by: fl, acct: Some(a), emode: None, pays: vec![Pay::new(&t, small)] },
            2 => Act::Withdraw { by: fl, pays: vec![nft], items: vec![Pay::new(&t, small)] },
            3 => {
                let j = self.borr_any();
                let x = self.worth(j, &u(1_000)).max(u(1));
                Act::Borrow { by: fl, pays: vec![nft], items: vec![Pay::new(&self.tok(j), x)] }
            }
            4 | 5 => {
                let bor = self.side(a, BOR);
                let j = bor.first().cloned().unwrap_or(0);
                let x = self.worth(j, &u(100)).max(u(1));
                let pays = vec![Pay::new(&self.tok(j), x)];
                if kind == 4 {
                    Act::Repay { by: fl, acct: a, pays }
                } else {
                    Act::Liquidate { by: fl, acct: a, pays }
                }
            }
            6 => Act::Clean { by: fl, acct: a },
            7 => Act::Threshold { by: fl, asset: t, risks: self.r.chance(50), accts: vec![b] },
            8 => Act::UpdateIdx { by: fl, assets: vec![t] },
            9 | 10 => {
                let i = *self.r.pick(&[1usize, 2, 3, 9]);
                let x = self.worth(i, &cents).max(u(1));
                let fee = self.e.pre.cfg[i].as_ref().map(|c| c.flash_fee.clone()).unwrap_or_default();
                let dec = self.e.w.assets[i].dec;
                let need = rescale(&mulr(&rescale(&x, dec, 27), &(ray() + &fee * p10(23))), 27, dec) + 1u32;
                let t = self.tok(i);
                let pool = self.e.w.pools[i];
                Act::Flash { by: fl, asset: t.clone(), amount: x, to: ROUTER, ep: "flash".into(), ops: vec![Op::Send { to: pool, pay: Pay::new(&t, need) }] }
            }
            11 => {
                let ni = *self.r.pick(&[2usize, 0, 3]);
                let outs = vec![Pay::new(&self.tok(ni), self.fair_out(i, &small, ni))];
                Act::SwapColl { by: fl, pays: vec![nft], cur: t, amount: small, new: self.tok(ni), outs }
            }
            12 => {
                if self.r.chance(50) {
                    let x = self.worth(1, &cents).max(u(1));
                    let outs = vec![Pay::new(&self.tok(9), self.fair_out(1, &x, 9))];
                    let y = self.worth(9, &(&cents * 3u32)).max(u(1));
                    Act::Multiply { by: fl, pays: vec![Pay::new(&self.tok(9), y)], emode: 0, coll: self.tok(9), amount: x, debt: self.tok(1), mode: 2, outs, pouts: None }
                } else {
                    let bor = self.side(b, BOR);
                    let j = bor.first().cloned().unwrap_or(0);
                    let n = if j == 1 { 0 } else { 1 };
                    let x = self.worth(n, &u(50)).max(u(1));
                    let outs = vec![Pay::new(&self.tok(j), self.fair_out(n, &x, j))];
                    Act::SwapDebt { by: fl, pays: vec![nft], old: self.tok(j), amount: x, new: self.tok(n), outs }
                }
            }
            _ => {
                let bor = self.side(b, BOR);
                let j = bor.first().cloned().unwrap_or(0);
                let outs = if i == j { None } else { Some(vec![Pay::new(&self.tok(j), self.fair_out(i, &small, j))]) };
                Act::RepayColl { by: fl, pays: vec![nft], from: t, amount: small, to: self.tok(j), close: false, outs }
            }
        }
    }

    /// utilisation at and around the kinks of the rate curve
    fn sc_curve(&mut self) {
        let i = *self.r.pick(&[0usize, 1, 2, 3, 9, 10, 11]);
        if self.r.chance(50) {
            let r = self.rates(i);
            self.act(&Act::PoolParams { by: OWNER, asset: i, r });
        }
        let c = if i == 9 { 2 } else { 9 };
        let cc = self.cents(30_000_000, 90_000_000);
        let Some(a) = self.open(0, None, &[(c, cc)]) else { return };
        for _ in 0..self.r.range(2, 6) {
            if self.dead() {
                return;
            }
            let q = synced(&self.e.pre.pools[i], self.e.pre.now * 1000);
            let s = mulr(&q.supplied, &q.sidx);
            let target = match self.r.below(7) {
                0 => q.mid.clone(),
                1 => &q.mid + 1u32,
                2 => sat_sub(&q.mid, &p10(18)),
                3 => q.opt.clone(),
                4 => &q.opt + p10(15),
                5 => ray(),
                _ => p10(27) * self.r.range(1, 999) / 1_000u32,
            };
            let want = mulr(&s, &target);
            let have = mulr(&q.borrowed, &q.bidx);
            if want > have {
                let x = rescale(&(&want - &have), 27, q.dec);
                if !x.is_zero() {
                    self.act(&Act::Borrow { by: 0, pays: vec![self.nft(a)], items: vec![Pay::new(&self.tok(i), x)] });
                }
            } else {
                let x = rescale(&(&have - &want), 27, q.dec);
                if !x.is_zero() {
                    self.act(&Act::Repay { by: 0, acct: a, pays: vec![Pay::new(&self.tok(i), x)] });
                }
            }
            let d = *self.r.pick(&[1u64, 6, 60, 3_600, 86_400, 31_556_926, 315_569_260]);
            self.wait(d);
            if self.r.chance(60) {
                self.act(&Act::UpdateIdx { by: 4, assets: vec![self.tok(i)] });
            }
            if self.r.chance(25) {
                let r = self.rates(i);
                self.act(&Act::PoolParams { by: OWNER, asset: i, r });
            }
            self.look();
        }
    }

    fn sc_paused(&mut self) {
        let Some(a) = self.loaded() else { return };
        if self.r.chance(50) {
            self.sink(a, 80);
        }
        let up = self.r.chance(40);
        let p = if up { Act::Upgrade { by: OWNER } } else { Act::Pause { by: OWNER } };
        self.act(&p);
        self.all_ops(a);
        for k in ["open", "flash", "multiply", "swapdebt", "swapcoll", "repaycoll", "index", "clean", "threshold", "claim", "rewards"] {
            if self.dead() {
                return;
            }
            if self.r.chance(70) {
                self.do_(k);
            }
        }
        if self.r.chance(20) {
            let by = self.user();
            self.act(&Act::Unpause { by });
        }
        self.act(&Act::Unpause { by: OWNER });
        self.all_ops(a);
    }
}
