//! Read-only views compared with the reference model at the same instant.
use crate::codec::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::num::*;
use crate::px::*;
use crate::state::*;
use crate::vm::*;
use crate::world::*;
use num_traits::Zero;

/// what a liquidation estimate said, to be held against what the liquidation does
#[derive(Clone)]
pub struct Promise {
    by: usize,
    seized: Vec<(usize, U)>,
    fees: Vec<(usize, U)>,
    refunds: Vec<(usize, U)>,
    pays: Vec<(usize, U)>,
    before: Vec<U>,
    deb: Vec<(usize, U)>,
}

fn near(a: &U, b: &U, tol: &U) -> bool {
    &absdiff(a, b) <= tol
}

impl Gen {
    fn view(&mut self, f: &str, args: Vec<Vec<u8>>) -> TxOut {
        let c = self.e.w.controller;
        self.e.cov.hit(&format!("view {}", f));
        self.e.w.vm.query(&c, f, args)
    }
    fn bad(&mut self, props: &[&'static str], what: String) {
        self.e.report(props.to_vec(), what);
    }
    /// one decimal-valued view against its expected value (None: must refuse)
    fn dec_view(&mut self, f: &str, args: Vec<Vec<u8>>, want: Result<U, String>, props: &[&'static str]) {
        let o = self.view(f, args);
        if props.contains(&self.e.prop.as_str()) {
            self.e.cov.evals += 1;
        }
        match (want, o.ok) {
            (Ok(x), true) => {
                let (g, _) = top_dec(o.val());
                if g != x {
                    self.bad(props, format!("view {} says {}, the rules give {}", f, g, x));
                }
            }
            (Ok(x), false) => {
                let mut p = props.to_vec();
                p.push("P24");
                self.bad(&p, format!("view {} refused ({}), the rules give {}", f, o.msg, x));
            }
            (Err(e), true) => {
                let (g, _) = top_dec(o.val());
                self.bad(props, format!("view {} says {} although {}", f, g, e));
            }
            (Err(_), false) => self.e.cov.hit("view refused for lack of a price"),
        }
    }

    pub fn before(&mut self, a: &Act) {
        self.promise = None;
        let p4 = self.e.prop == "P04";
        if let Act::Liquidate { by, acct, pays } = a {
            if p4 || (self.e.prop == "P07" && self.r.chance(20)) {
                self.estimate(*by, *acct, &pays.clone());
            }
        }
    }

    /// liquidationEstimations against the model's plan
    fn estimate(&mut self, by: usize, acct: u64, pays: &[Pay]) {
        let mut l = vec![];
        for p in pays {
            match self.e.w.asset_ix(&p.token) {
                Some(i) if p.nonce == 0 => l.push((i, p.amount.clone())),
                _ => return,
            }
        }
        let arg: Vec<u8> = pays.iter().flat_map(|p| pay_struct(p)).collect();
        let want = {
            let m = M::new(&self.e.w, &self.e.pre);
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                if !self.e.pre.listed.contains(&acct) {
                    return Err("no such account".to_string());
                }
                m.egld_usd().map_err(|e| e.what)?;
                m.liq_plan(acct, &l).map_err(|e| format!("{:?} {}", e.why, e.what))
            }))
        };
        let Ok(want) = want else { return };
        let o = self.view("liquidationEstimations", vec![en(acct), arg]);
        self.e.cov.evals += 1;
        let props = ["P04", "P07"];
        let w = match (want, o.ok) {
            (Ok(w), true) => w,
            (Ok(_), false) => {
                self.bad(&["P04", "P24"], format!("liquidation estimate for account {} refused: {}", acct, o.msg));
                return;
            }
            (Err(e), true) => {
                if !l.is_empty() {
                    self.bad(&props, format!("liquidation estimate for account {} answered although {}", acct, e));
                }
                return;
            }
            _ => {
                self.e.cov.hit("estimate refused");
                return;
            }
        };
        let mut r = Rd::new(o.val());
        let list = |r: &mut Rd, me: &Gen| -> Vec<(usize, U)> {
            let n = r.u32();
            let mut v = vec![];
            for _ in 0..n {
                let t = r.bytes();
                let _nonce = r.u64();
                let a = r.big();
                v.push((me.e.w.asset_ix(&t).unwrap_or(99), a));
            }
            v
        };
        let seized = list(&mut r, self);
        let fees = list(&mut r, self);
        let refunds = list(&mut r, self);
        let max = r.decv();
        let bonus = r.decv();
        let ws: Vec<(usize, U)> = w.seized.iter().map(|x| (x.0, x.1.clone())).collect();
        let wf: Vec<(usize, U)> = w.seized.iter().map(|x| (x.0, x.2.clone())).collect();
        let n = self.n();
        let sum = |l: &[(usize, U)]| -> Vec<U> {
            let mut v = vec![zero(); n];
            for (i, a) in l {
                if *i < n {
                    v[*i] += a;
                }
            }
            v
        };
        if sum(&seized) != sum(&ws) || sum(&fees) != sum(&wf) {
            self.bad(&props, format!("estimate for account {}: seized {:?} fees {:?}, the rules give {:?} {:?}", acct, seized, fees, ws, wf));
        }
        if sum(&refunds) != sum(&w.refunds) {
            self.bad(&props, format!("estimate for account {}: refunds {:?}, the rules give {:?}", acct, refunds, w.refunds));
        }
        if max != rescale(&w.max_repay, 27, 18) || bonus != rescale(&w.bonus, 27, 4) {
            self.bad(&props, format!("estimate for account {}: max {} bonus {}, the rules give {} {}", acct, max, bonus, w.max_repay, w.bonus));
        }
        if !l.is_empty() {
            self.e.cov.hit("liquidation estimates compared");
            let deb = self.side(acct, BOR).iter().map(|i| (*i, self.pos_amount(acct, BOR, *i))).collect();
            self.promise = Some(Promise { by, seized, fees, refunds, pays: l, before: self.e.pre.bal[by].clone(), deb });
        }
    }

    pub fn probes(&mut self, a: &Act, ok: bool) {
        if let (Some(p), Act::Liquidate { acct, .. }, true) = (self.promise.take(), a, ok) {
            let acct = *acct;
            let mut d: Vec<(U, U)> = p.before.iter().map(|b| (b.clone(), zero())).collect();
            for (i, a) in &p.pays {
                d[*i].1 += a;
            }
            for l in [&p.seized, &p.refunds] {
                for (i, a) in l {
                    d[*i].0 += a;
                }
            }
            for (i, a) in &p.fees {
                d[*i].1 += a;
            }
            let after = self.e.pre.bal[p.by].clone();
            for i in 0..self.n() {
                // a zero amount may be skipped, amounts are floored at the balance: two units
                let x = sat_sub(&d[i].0, &d[i].1);
                if !near(&x, &after[i], &u(2)) {
                    self.bad(&["P04", "P07"], format!("the estimate promised a {} balance of {}, the liquidation left {}", self.e.w.assets[i].name, x, after[i]));
                }
            }
            for (i, owed) in &p.deb {
                let mut paid = zero();
                for (j, a) in &p.pays {
                    if i == j {
                        paid += a;
                    }
                }
                for (j, a) in &p.refunds {
                    if i == j {
                        paid = sat_sub(&paid, a);
                    }
                }
                let left = self.pos_amount(acct, BOR, *i);
                if !near(&(&left + &paid), owed, &u(2)) {
                    self.bad(&["P04", "P07"], format!("owed {} {}, estimate said {} is paid, {} is left", owed, self.e.w.assets[*i].name, paid, left));
                }
            }
            self.e.cov.hit("estimates held against the liquidation");
        }
        let p = self.e.prop.clone();
        match p.as_str() {
            "P04" => {
                if self.r.chance(50) {
                    self.look();
                }
            }
            "P15" | "P16" => {
                if self.r.chance(12) {
                    self.prices();
                }
            }
            "P03" => {
                if self.r.chance(15) {
                    let i = self.r.below(self.n() as u64) as usize;
                    self.pool_views(i);
                    self.indexes(&[i]);
                }
            }
            "P27" => {
                if self.r.chance(14) && !self.e.hit_violation() {
                    self.drill();
                }
            }
            "P05" | "P06" | "P24" => {
                if self.r.chance(4) {
                    self.account_views();
                }
            }
            _ => {}
        }
    }

    /// all views that matter to the property under check
    pub fn look(&mut self) {
        let p = self.e.prop.clone();
        match p.as_str() {
            "P04" => {
                self.account_views();
                let i = self.r.below(self.n() as u64) as usize;
                let j = self.r.below(self.n() as u64) as usize;
                self.indexes(&[i, j]);
                self.pool_views(i);
                self.price_views(i);
                if self.r.chance(15) {
                    if let Some(a) = self.debtor() {
                        if let Some(Act::Liquidate { by, acct, pays }) = self.liquidation_of(a) {
                            let pays = if self.r.chance(15) { vec![] } else { pays };
                            self.estimate(by, acct, &pays);
                            self.promise = None;
                        }
                    }
                }
            }
            "P15" | "P16" => self.prices(),
            "P03" => {
                let i = self.r.below(self.n() as u64) as usize;
                self.pool_views(i);
                self.indexes(&[i]);
            }
            "P24" => self.account_views(),
            "P27" => self.drill(),
            _ => {}
        }
    }

    pub fn prices(&mut self) {
        let mut l: Vec<usize> = if self.e.prop == "P16" { vec![4, 5, 6, 10, 6, 1, 2, 8] } else { (0..self.n()).collect() };
        if self.n() > 12 {
            l.extend([12, 12, 12]);
        }
        let i = *self.r.pick(&l);
        let j = *self.r.pick(&l);
        self.price_views(i);
        self.indexes(&[i, j]);
        if self.e.prop == "P16" {
            self.lp_invariance();
        }
    }

    fn price_props(&self, i: usize) -> Vec<&'static str> {
        if self.e.prop == "P17" {
            return vec!["P04", "P15", "P17"];
        }
        if self.e.w.assets[i].oracle.ty != OTy::Normal {
            vec!["P04", "P15", "P16"]
        } else {
            vec!["P04", "P15"]
        }
    }
    /// price in EGLD, refusing text
    fn want_price(&self, i: usize) -> Option<Result<U, String>> {
        let px = Px::new(&self.e.w, &self.e.pre, true);
        match px.price(&self.e.w.assets[i].id) {
            Ok(p) => Some(Ok(p)),
            Err(PErr::Zero) => None,
            Err(e) => Some(Err(format!("price source: {:?}", e))),
        }
    }
    pub fn price_views(&mut self, i: usize) {
        let Some(want) = self.want_price(i) else { return };
        let t = self.tok(i);
        let props = self.price_props(i);
        self.e.cov.hit(&format!("price of {} {}", self.e.w.assets[i].name, if want.is_ok() { "compared" } else { "refused" }));
        self.dec_view("getTokenPriceEGLD", vec![t.clone()], want.clone(), &props);
        let usd = match &want {
            Ok(p) => Px::new(&self.e.w, &self.e.pre, true).egld_usd().map(|e| rescale(&mulr(&(p * p10(9)), &(e * p10(9))), 27, 18)).map_err(|e| format!("{:?}", e)),
            Err(e) => Err(e.clone()),
        };
        self.dec_view("getTokenPriceUSD", vec![t], usd, &props);
    }
    /// for a fixed product of reserves the LP price must not move
    fn lp_invariance(&mut self) {
        let c = self.e.w.assets[LP].oracle.contract;
        let keep = self.e.w.feeds.reserves[&c].clone();
        let (r0, r1, ts) = keep.clone();
        let t = self.tok(LP);
        let a = self.view("getTokenPriceEGLD", vec![t.clone()]);
        if !a.ok || r0.is_zero() || r1.is_zero() {
            return;
        }
        let k = self.r.range(2, 1_000);
        // an exact product: multiply one side, divide the other where it divides
        let (n0, n1) = if self.r.chance(50) { (&r0 * k, &r1 / k) } else { (&r0 / k, &r1 * k) };
        if n0.is_zero() || n1.is_zero() {
            return;
        }
        let lp = self.e.w.assets[LP].id.clone();
        let band = |e: &Eng| Px::new(&e.w, &e.pre, true).parts(&lp).ok().map(|p| (p.w1, p.w2));
        let was = band(&self.e);
        self.e.w.set_reserves(&c, (n0.clone(), n1.clone(), ts));
        let b = self.view("getTokenPriceEGLD", vec![t]);
        let is = band(&self.e);
        self.e.w.set_reserves(&c, keep);
        if was != is {
            // on the very edge of a band the rounding of the square roots decides between the price and the mean
            self.e.cov.hit("LP on the edge of a band: push not compared");
            return;
        }
        self.e.cov.evals += 1;
        self.e.cov.hit("LP price compared after a push of the pool");
        if !b.ok {
            self.bad(&["P16"], format!("LP price refused after the pool was pushed x{}: {}", k, b.msg));
            return;
        }
        let (x, y) = (top_dec(a.val()).0, top_dec(b.val()).0);
        // truncation of the pushed reserves and of the square roots
        let loss = f(&(&r0 * &r1), 0) / f(&(&n0 * &n1), 0) - 1.0;
        let tol = &x / p10(6) * u(((loss.abs() * 1e6) as u128).max(1) + 2) + p10(9);
        if !near(&x, &y, &tol) {
            self.bad(&["P16"], format!("LP price {} became {} when the pool was pushed x{} at a constant product", x, y, k));
        }
    }

    pub fn indexes(&mut self, l: &[usize]) {
        let mut want = vec![];
        let mut fail: Option<String> = None;
        {
            let px = Px::new(&self.e.w, &self.e.pre, true);
            let m = M::new(&self.e.w, &self.e.pre);
            let e = px.egld_usd();
            for i in l {
                match (px.parts(&self.e.w.assets[*i].id), &e) {
                    (Ok(p), Ok(e)) => want.push((m.idx(*i), p, e.clone())),
                    (Err(PErr::Zero), _) | (_, Err(PErr::Zero)) => return,
                    (Err(x), _) => fail = Some(format!("{:?}", x)),
                    (_, Err(x)) => fail = Some(format!("{:?}", x)),
                }
            }
        }
        let args: Vec<Vec<u8>> = l.iter().map(|i| self.tok(*i)).collect();
        let o = self.view("getAllMarketIndexes", args.clone());
        self.e.cov.evals += 1;
        match (&fail, o.ok) {
            (Some(_), false) => return,
            (Some(e), true) => {
                self.bad(&["P04", "P15"], format!("getAllMarketIndexes answered although {}", e));
                return;
            }
            (None, false) => {
                self.bad(&["P04", "P24", "P15"], format!("getAllMarketIndexes refused: {}", o.msg));
                return;
            }
            _ => {}
        }
        let empty = vec![];
        let mut r = Rd::new(o.values.first().unwrap_or(&empty));
        for (k, i) in l.iter().enumerate() {
            let (ix, p, e) = &want[k];
            let id = r.bytes();
            let v: Vec<U> = (0..8).map(|_| r.decv()).collect();
            let (w1, w2) = (r.bool(), r.bool());
            let n = self.e.w.assets[*i].name;
            if id != self.tok(*i) || v[0] != ix.0 || v[1] != ix.1 {
                self.bad(&["P04", "P03"], format!("{}: view says indexes {} {}, accrual gives {} {}", n, v[0], v[1], ix.0, ix.1));
            }
            let usd = |x: &U| rescale(&mulr(&(x * p10(9)), &(e * p10(9))), 27, 18);
            let s = p.safe.clone().unwrap_or_else(|| p.price.clone());
            let a = p.agg.clone().unwrap_or_else(|| p.price.clone());
            let props = self.price_props(*i);
            let exp = [p.price.clone(), usd(&p.price), s.clone(), usd(&s), a.clone(), usd(&a)];
            if v[2..8] != exp {
                self.bad(&props, format!("{}: view says prices {:?}, the sources give {:?}", n, &v[2..8], exp));
            }
            if (w1, w2) != (p.w1, p.w2) {
                self.bad(&props, format!("{}: view says tolerance {} {}, the sources give {} {}", n, w1, w2, p.w1, p.w2));
            }
        }
        // pool address and price of the same markets
        let o = self.view("getAllMarkets", args);
        if !o.ok {
            self.bad(&["P04", "P24"], format!("getAllMarkets refused: {}", o.msg));
            return;
        }
        let empty = vec![];
        let mut r = Rd::new(o.values.first().unwrap_or(&empty));
        for (k, i) in l.iter().enumerate() {
            let id = r.bytes();
            let ad = r.take(32).to_vec();
            let (p, usd) = (r.decv(), r.decv());
            let (_, q, e) = &want[k];
            let eu = rescale(&mulr(&(&q.price * p10(9)), &(e * p10(9))), 27, 18);
            if id != self.tok(*i) || ad != self.e.w.pools[*i] || p != q.price || usd != eu {
                self.bad(&["P04"], format!("getAllMarkets: {} priced {} / {}, the sources give {} / {}", self.e.w.assets[*i].name, p, usd, q.price, eu));
            }
        }
    }

    pub fn pool_views(&mut self, i: usize) {
        let p = self.e.pre.pools[i].clone();
        let pool = self.e.w.pools[i];
        let na = self.e.w.actors.len();
        let util = utilisation(&p);
        let rate = borrow_rate_ms(&p, &util);
        let dep = if util.is_zero() { zero() } else { mulr(&mulr(&util, &rate), &((u(10_000) - &p.rf) * p10(23))) };
        let am = |s: &U, x: &U| rescale(&mulr(s, x), 27, p.dec);
        let want: Vec<(&str, U)> = vec![
            ("capitalUtilisation", util),
            ("borrowRate", rate),
            ("depositRate", dep),
            ("reserves", self.e.pre.bal[na + i][i].clone()),
            ("protocolRevenue", am(&p.revenue, &p.sidx)),
            ("suppliedAmount", am(&p.supplied, &p.sidx)),
            ("borrowedAmount", am(&p.borrowed, &p.bidx)),
        ];
        let n = self.e.w.assets[i].name;
        for (f, x) in want {
            let o = self.e.w.vm.query(&pool, f, vec![]);
            self.e.cov.hit(&format!("view {}", f));
            self.e.cov.evals += 1;
            if !o.ok {
                self.bad(&["P04", "P24"], format!("{} pool view {} refused: {}", n, f, o.msg));
                continue;
            }
            let (g, _) = top_dec(o.val());
            if g != x {
                let mut v = vec!["P04"];
                if f.contains("Rate") || f == "capitalUtilisation" {
                    v.push("P03");
                }
                self.bad(&v, format!("{} pool view {} says {}, the state gives {}", n, f, g, x));
            }
        }
        let o = self.e.w.vm.query(&pool, "deltaTime", vec![]);
        let want = self.e.pre.now * 1000 - p.last;
        if !o.ok || top_u64(o.val()) != want {
            self.bad(&["P04"], format!("{} pool view deltaTime wrong: {} {:?}, expected {}", n, o.msg, o.values, want));
        }
    }

    pub fn account_views(&mut self) {
        let Some(a) = self.acct() else { return };
        let m = M::new(&self.e.w, &self.e.pre);
        let s = m.sums(a);
        let base = m.egld_usd();
        let mut tot = Some(zero());
        let mut toks = vec![];
        for (side, nm) in [(DEP, "getCollateralAmountForToken"), (BOR, "getBorrowAmountForToken")] {
            for (i, p) in self.e.pre.side(a, side) {
                let ar = m.amount_ray(side, i, p);
                toks.push((nm, i, m.from_ray(i, &ar), self.want_price(i)));
                if side == DEP {
                    match (m.price(i), &tot) {
                        (Ok(pr), Some(t)) => tot = Some(t + rescale(&m.value_ray(&ar, &pr), 27, 18)),
                        _ => tot = None,
                    }
                }
            }
        }
        drop(m);
        if let Err(e) = &base {
            if let Why::Price(PErr::Zero) = e.why {
                return;
            }
        }
        let err = |e: &Rej| e.what.clone();
        if let Err(e) = &s {
            if let Why::Price(PErr::Zero) = e.why {
                return;
            }
        }
        let dep_err = tot.is_none();
        let p = ["P04"];
        let both = |x: &dyn Fn(&Sums) -> U| -> Result<U, String> {
            base.as_ref().map_err(err)?;
            s.as_ref().map(|v| x(v)).map_err(err)
        };
        let n = en(a);
        self.e.cov.hit("account views compared");
        let hf = both(&|v| v.hf());
        self.dec_view("getHealthFactor", vec![n.clone()], hf.clone(), &["P04", "P05", "P06"]);
        let o = self.view("canBeLiquidated", vec![n.clone()]);
        match (&hf, o.ok) {
            (Ok(h), true) => {
                let g = o.values.first().map_or(false, |v| v == &vec![1u8]);
                if g != (h < &ray()) {
                    self.bad(&["P04", "P06"], format!("canBeLiquidated says {} at health factor {}", g, h));
                }
            }
            (Ok(_), false) => self.bad(&["P04", "P24"], format!("canBeLiquidated refused: {}", o.msg)),
            (Err(e), true) => self.bad(&["P04"], format!("canBeLiquidated answered although {}", e)),
            _ => {}
        }
        // collateral-only views do not need the debts' prices
        let m = M::new(&self.e.w, &self.e.pre);
        let debt = if base.is_ok() { m.debt(a).map_err(|e| e.what) } else { Err("EGLD".into()) };
        let mut w1 = zero();
        let mut l1 = zero();
        for (i, q) in self.e.pre.side(a, DEP) {
            if let Ok(pr) = m.price(i) {
                let v = m.value_ray(&m.amount_ray(DEP, i, q), &pr);
                w1 += mulr(&v, &(&q.thr * p10(23)));
                l1 += mulr(&v, &(&q.ltv * p10(23)));
            }
        }
        drop(m);
        let dz = |x: U| -> Result<U, String> {
            if base.is_err() || dep_err {
                Err("a collateral price is missing".into())
            } else {
                Ok(x)
            }
        };
        self.dec_view("getTotalBorrowInEgld", vec![n.clone()], debt.map(|d| rescale(&d, 27, 18)), &p);
        self.dec_view("getTotalCollateralInEgld", vec![n.clone()], dz(tot.unwrap_or_default()), &p);
        self.dec_view("getLiquidationCollateralAvailable", vec![n.clone()], dz(rescale(&w1, 27, 18)), &p);
        self.dec_view("getLtvCollateralInEgld", vec![n.clone()], dz(rescale(&l1, 27, 18)), &p);
        for (f, i, x, pr) in toks {
            let want = match pr {
                None => continue,
                Some(Ok(_)) => Ok(x),
                Some(Err(e)) => Err(e),
            };
            let t = self.tok(i);
            self.dec_view(f, vec![n.clone(), t], want, &p);
        }
    }
}
