//! A market created in the middle of a history: price source and market are set up with valid and
//! invalid settings, and an accepted one joins the world for the rest of the episode.
use crate::codec::*;
use crate::gen::*;
use crate::model::*;
use crate::num::*;
use crate::state::*;
use crate::vm::*;
use crate::world::*;
use num_traits::Zero;

const ID: &[u8] = b"NEWT-0a0b0c";

impl Gen {
    fn sub_event(&self, o: &TxOut, name: &str, key: &[u8]) -> Option<Log> {
        let c = self.e.w.controller;
        o.logs.iter().filter(|l| l.address == c && l.topics.len() > 2 && l.topics[0] == name.as_bytes() && l.topics[1] == key).last().cloned()
    }
    /// nothing known may change while a market is added
    fn untouched(&mut self, what: &str) -> State {
        let post = State::read(&self.e.w);
        let d = compare(&self.e.w, &self.e.pre, &post, &Tol { units: 0 });
        if let Some(x) = d.first() {
            self.e.report(vec!["P20", "P24"], format!("{} changed {}", what, x.what));
        }
        post
    }

    /// returns the index of the new market
    pub fn new_market(&mut self, isolated: bool) -> Option<usize> {
        if self.n() > 12 {
            return None;
        }
        self.twin = None;
        let c = self.e.w.controller;
        let own = self.e.w.actors[OWNER];
        // liquid-staking tokens have 18 decimals by their contracts
        let derived = self.r.chance(25);
        let like = *self.r.pick(&[XEGLD, XEGLD, LEGLD, LXOXNO]);
        let mut src = self.e.w.assets[like].oracle.clone();
        let dec = if derived { 18 } else { *self.r.pick(&[0u32, 1, 2, 4, 6, 6, 8, 12, 18]) };
        let usdc = self.tok(1);
        // tickers are not unique on the chain: at times it bears the ticker of a listed token
        let twin = if derived { None } else { *self.r.pick(&[None, None, None, Some(9usize), Some(MICE), Some(7)]) };
        let id = match twin {
            Some(j) => [&World::ticker(&self.tok(j))[..], b"-0a0b0c"].concat(),
            None => ID.to_vec(),
        };
        let lp = !derived && self.r.chance(30);
        let dec = if lp { 18 } else { dec };
        let onedex = !derived && !lp && self.r.chance(25);
        let od: u64 = if onedex { 9 } else { 0 };
        if !derived {
            let quote = if self.r.chance(50) { usdc } else { WEGLD.to_vec() };
            let (mut base, mut quote) = if self.r.chance(70) { (id.clone(), quote) } else { (quote, id.clone()) };
            if lp {
                // shares of pools of two listed tokens, derived ones and ones of few decimals among them
                let l = [(LXOXNO, 0usize), (XEGLD, 1), (2, XEGLD), (3, LXOXNO), (LEGLD, XEGLD), (2, 1), (LXOXNO, 2), (MICE, LEGLD)];
                let (x, y) = *self.r.pick(&l);
                let (x, y) = if self.r.chance(50) { (x, y) } else { (y, x) };
                let name = |i: usize| if i == 0 { WEGLD.to_vec() } else { self.e.w.assets[i].id.clone() };
                base = name(x);
                quote = name(y);
            }
            let contract = sc("pair_nw", 0);
            let vm = &mut self.e.w.vm;
            vm.put_account(&contract, Some(b"feed"), Some(&own));
            vm.set_storage(&contract, b"first", base.clone());
            vm.set_storage(&contract, b"second", quote.clone());
            let meth = *self.r.pick(&[Meth::Safe, Meth::Agg, Meth::Mix, Meth::Mix]);
            let meth = if twin.is_some() && !lp && self.r.chance(70) { Meth::Safe } else { meth };
            self.twin = twin;
            let (ty, from) = (if lp { OTy::Lp } else { OTy::Normal }, if onedex { Src::Onedex } else { Src::XExchange });
            src = OracleCfg { ty, meth, src: from, contract, base, quote, onedex_id: od, ..src };
        }
        let way = |m: &Meth| match m {
            Meth::Safe => 1,
            Meth::Agg => 3,
            Meth::Mix => 4,
        };
        let tag = |o: &TxOut| if o.ok { "accepted".to_string() } else { format!("refused ({})", o.msg) };

        // a market needs a price source first
        let mut made: Option<Asset> = None;
        for k in 0..8 {
            let edge = |r: &mut Rng, l: &[u64]| *r.pick(l);
            let (mut first, mut last) = (200, 500);
            if k < 7 && self.r.chance(60) {
                first = edge(&mut self.r, &[0, 1, 49, 50, 51, 200, 4_999, 5_000, 5_001, 9_999, 10_001]);
                last = edge(&mut self.r, &[0, 49, 50, 51, 149, 150, 151, 200, 500, 5_000, 9_999, 10_000, 10_001]);
                if self.r.chance(25) {
                    last = first;
                }
            }
            let want = (50..=5_000).contains(&first) && (150..=10_000).contains(&last) && last >= first && made.is_none();
            // a pair of the exchange that keeps all of them in one contract has to be named
            let unnamed = onedex && self.r.chance(30);
            let want = want && !unnamed;
            let stale = self.r.range(60, 5_000);
            let mut args = vec![
                id.clone(), en(dec as u64), ea(&src.contract), en(way(&src.meth)), en(if derived { 2 } else if lp { 3 } else { 1 }),
                en(match src.src { Src::XExchange => 1, Src::Lxoxno => 2, Src::Xegld => 3, Src::Legld => 4, Src::Onedex => 5 }), en(first), en(last), en(stale),
            ];
            if onedex && (!unnamed || self.r.chance(50)) {
                args.push(en(if unnamed { 0 } else { od }));
            }
            let o = self.e.w.vm.call(&own, &c, "setTokenOracle", args, &[]);
            let kind = if derived { "derived".to_string() } else { format!("{}{}/{}", if lp { "pool share of " } else if onedex { "onedex " } else { "" }, String::from_utf8_lossy(&src.base), String::from_utf8_lossy(&src.quote)) };
            self.e.note(format!("owner: setTokenOracle NEWT ({} decimals, {}) tolerances {}/{}: {}", dec, kind, first, last, tag(&o)));
            self.e.cov.hit(if o.ok { "new price source accepted" } else { "new price source refused" });
            if o.ok != want {
                self.e.report(vec!["P20"], format!("a new price source with tolerances {}/{} was {} (already one: {})", first, last, tag(&o), made.is_some()));
            }
            let _ = self.untouched("a new price source");
            if o.ok && made.is_none() {
                let mut k = b"token_oracle".to_vec();
                k.extend(nested(&id));
                let raw = self.e.w.vm.storage(&c, &k);
                let got = dec_oracle(&raw);
                let ((u1, l1), (u2, l2)) = (tol_bounds(first), tol_bounds(last));
                let m = self.e.pre.oracles[if derived { like } else { MICE }].clone().unwrap();
                let mut exp = OrS { up1: u1, lo1: l1, up2: u2, lo2: l2, dec, stale, method: way(&src.meth) as u8, ..m };
                if !derived {
                    exp.base = src.base.clone();
                    exp.quote = src.quote.clone();
                    exp.contract = src.contract;
                    exp.ty = if lp { 3 } else { 1 };
                    exp.src = if onedex { 5 } else { 1 };
                    exp.onedex = od as u32;
                }
                if got != exp {
                    self.e.report(vec!["P20", "P15"], format!("the new price source is {:?}, it was given as {:?}", got, exp));
                }
                match self.sub_event(&o, "update_asset_oracle", &id) {
                    Some(l) if l.topics[2] == raw => self.e.cov.hit("new price source announced"),
                    l => self.e.report(vec!["P25"], format!("the new price source is announced as {:?}, it is {:?}", l.map(|l| dec_oracle(&l.topics[2])), got)),
                }
                made = Some(Asset {
                    id: id.clone(),
                    name: "NEWT",
                    dec,
                    oracle: OracleCfg { t1: first, t2: last, stale, ..src.clone() },
                });
            } else if o.ok {
                return None;
            }
            if made.is_some() && self.r.chance(70) {
                break;
            }
        }
        let asset = made?;
        let pool = sc("poolNEWT", 0);
        let mut up = false;
        for k in 0..6 {
            let mut p = default_params(12);
            let mut r = default_rates(12);
            if k < 5 {
                if self.r.chance(70) {
                    r = self.rates(self.r.0 as usize % 4);
                }
                match self.r.below(8) {
                    0 => p.thr = p.ltv,
                    1 => p.thr = p.ltv - 1,
                    2 => p.thr = p.ltv + 1,
                    3 => {
                        p.ltv = 0;
                        p.thr = 0;
                    }
                    4 => p.ltv = 0,
                    _ => {}
                }
            }
            p.bonus = self.r.range(100, 1_200);
            p.fee = self.r.range(0, 3_000);
            p.flash_fee = self.r.range(0, 300);
            p.isolated = isolated;
            p.ceiling = if isolated { w(self.r.range(50, 20_000)) } else { U::zero() };
            p.siloed = !isolated && self.r.chance(15);
            p.flash = self.r.chance(80);
            p.iso_borrow = self.r.chance(40);
            p.can_borrow = !isolated && self.r.chance(85);
            p.can_coll = self.r.chance(92);
            let one = p10(dec);
            p.supply_cap = if self.r.chance(30) { &one * self.r.range(1, 200_000) } else { U::zero() };
            p.borrow_cap = if self.r.chance(30) { &one * self.r.range(1, 200_000) } else { U::zero() };
            let wants = p.thr > p.ltv && r.max > r.base && r.opt > r.mid && r.opt < ray() && r.rf < 10_000 && !up;
            let mut args = vec![id.clone()];
            args.extend(rate_args(&r));
            args.extend(vec![
                en(p.ltv), en(p.thr), en(p.bonus), en(p.fee), eb(p.can_coll), eb(p.can_borrow), eb(p.isolated), eu(&p.ceiling),
                en(p.flash_fee), eb(p.siloed), eb(p.flash), eb(p.iso_borrow), en(dec as u64), eu(&p.borrow_cap), eu(&p.supply_cap),
            ]);
            if !up {
                self.e.w.vm.expect_new_address(&c, &pool);
            }
            let o = self.e.w.vm.call(&own, &c, "createLiquidityPool", args, &[]);
            let said = format!("ltv {} threshold {} rates max {} base {} mid {} optimal {} reserve factor {}", p.ltv, p.thr, r.max, r.base, r.mid, r.opt, r.rf);
            self.e.note(format!("owner: createLiquidityPool NEWT {}: {}", said, tag(&o)));
            self.e.cov.hit(if o.ok { "new market accepted" } else { "new market refused" });
            if o.ok != wants {
                self.e.report(vec!["P20"], format!("a new market with {} was {} (already one: {})", said, tag(&o), up));
            }
            let _ = self.untouched("a new market");
            if o.ok && up {
                return None;
            }
            if !o.ok {
                continue;
            }
            up = true;
            self.e.w.pools.push(pool);
            let fair = if derived || lp { U::zero() } else { wd(*self.r.pick(&[1u64, 300, 5_000, 2_500_000]), 1_000) };
            let fair = match twin {
                // its aggregator price is the other one's
                Some(j) if asset.oracle.ty == OTy::Normal && asset.oracle.meth != Meth::Safe => self.e.w.fair[j].clone(),
                _ => fair,
            };
            self.e.w.fair.push(fair.clone());
            self.e.w.assets.push(asset.clone());
            if twin.is_some() {
                self.e.cov.hit("new market shares the ticker of another");
            }
            if !derived {
                let i = self.n() - 1;
                self.e.w.set_pair_state(i, 1);
                self.e.w.publish(i, 10_000, 10_000);
            }
            if lp {
                let d = self.r.range(10, 1_000_000);
                self.depth(self.n() - 1, d);
            }
            let post = State::read(&self.e.w);
            let i = self.n() - 1;
            if post.pool_addr[i] != Some(pool) {
                self.e.report(vec!["P20", "P02"], "the new market is not registered under its asset".into());
            }
            let ctl = self.e.w.controller;
            let listed = self.e.w.vm.query(&ctl, "getPools", vec![]);
            let got: std::collections::BTreeSet<Vec<u8>> = listed.values.iter().cloned().collect();
            let all: std::collections::BTreeSet<Vec<u8>> = self.e.w.pools.iter().map(|p| p.to_vec()).collect();
            if !listed.ok || got != all || listed.values.len() != all.len() {
                self.e.report(vec!["P20"], format!("{} markets exist, {} are listed", all.len(), listed.values.len()));
            }
            let q = &post.pools[i];
            let mut bad = vec![];
            if q.max != r.max || q.base != r.base || q.s1 != r.s1 || q.s2 != r.s2 || q.s3 != r.s3 || q.mid != r.mid || q.opt != r.opt || q.rf != U::from(r.rf) || q.dec != dec || q.token != id {
                bad.push((vec!["P03", "P20"], format!("the new market's parameters are {:?}, given were {} for {} decimals", q, said, dec)));
            }
            if q.sidx != ray() || q.bidx != ray() || !q.supplied.is_zero() || !q.borrowed.is_zero() || !q.revenue.is_zero() || q.last != post.now * 1000 {
                bad.push((vec!["P01", "P02", "P03"], format!("the new market starts as {:?}", q)));
            }
            let exp = ACfg {
                ltv: U::from(p.ltv), thr: U::from(p.thr), bonus: U::from(p.bonus), fee: U::from(p.fee), can_coll: p.can_coll, can_borrow: p.can_borrow,
                emode: false, isolated: p.isolated, ceiling: p.ceiling.clone(), siloed: p.siloed, flash: p.flash, flash_fee: U::from(p.flash_fee),
                iso_borrow: p.iso_borrow,
                borrow_cap: if p.borrow_cap.is_zero() { None } else { Some(p.borrow_cap.clone()) },
                supply_cap: if p.supply_cap.is_zero() { None } else { Some(p.supply_cap.clone()) },
            };
            if post.cfg[i].as_ref() != Some(&exp) {
                bad.push((vec!["P20"], format!("the new market's settings are {:?}, given were {:?}", post.cfg[i], exp)));
            }
            if !post.iso_of(i).is_zero() || !post.asset_modes[i].is_empty() {
                bad.push((vec!["P11", "P20"], "the new market does not start without tracked debt and categories".into()));
            }
            let mut k = b"asset_config".to_vec();
            k.extend(nested(&id));
            let raw = self.e.w.vm.storage(&c, &k);
            match self.sub_event(&o, "create_market_params", &id) {
                Some(l) => {
                    let v: Vec<U> = (2..10).map(|k| big(&l.topics[k])).collect();
                    let g = vec![q.max.clone(), q.base.clone(), q.s1.clone(), q.s2.clone(), q.s3.clone(), q.mid.clone(), q.opt.clone(), q.rf.clone()];
                    if v != g || l.topics[10] != pool || l.topics[11] != raw {
                        bad.push((vec!["P25"], format!("the new market is announced with {:?} at {:?}, it has {:?}", v, l.topics[10], g)));
                    } else {
                        self.e.cov.hit("new market announced");
                    }
                }
                None => bad.push((vec!["P25"], "a new market was not announced".into())),
            }
            self.fresh = Some(p);
            for (p, s) in bad {
                self.e.report(p, s);
            }
            let all = self.e.w.actors.clone();
            for (k, a) in all.iter().enumerate() {
                if k == CTRL || k == ACCUM {
                    continue;
                }
                let t = self.e.w.units(i, 10_000_000);
                self.e.w.vm.mint(a, &id, &t);
            }
            self.e.refresh();
            if self.r.chance(60) {
                break;
            }
            // once more for the same asset, below
            self.e.w.assets.pop();
            self.e.w.pools.pop();
            self.e.w.fair.pop();
            self.e.refresh();
            let mut args = vec![id.clone()];
            args.extend(rate_args(&r));
            args.extend(vec![en(1), en(2), vec![], vec![], eb(true), eb(true), vec![], vec![], vec![], vec![], vec![], vec![], en(dec as u64), vec![], vec![]]);
            let again = sc("poolNEW2", 0);
            self.e.w.vm.expect_new_address(&c, &again);
            let o = self.e.w.vm.call(&own, &c, "createLiquidityPool", args, &[]);
            self.e.note(format!("owner: createLiquidityPool NEWT again: {}", tag(&o)));
            if o.ok {
                self.e.report(vec!["P20"], "a second market was created for the same asset".into());
                return None;
            }
            self.e.w.pools.push(pool);
            self.e.w.fair.push(fair);
            self.e.w.assets.push(asset.clone());
            self.e.refresh();
            break;
        }
        if !up {
            return None;
        }
        Some(self.n() - 1)
    }

    /// fill the pool behind a share token with `egld` EGLD worth of either side
    pub fn depth(&mut self, i: usize, egld: u64) {
        let o = self.e.w.assets[i].oracle.clone();
        let side = |id: &[u8]| {
            let j = if id == WEGLD || id == EGLD { 0 } else { self.e.w.asset_ix(id).unwrap_or(0) };
            let p = self.price(j);
            if p.is_zero() { self.e.w.units(j, 1) } else { w(egld) * p10(self.e.w.assets[j].dec) / p }
        };
        let (r0, r1) = (side(&o.base).max(u(1)), side(&o.quote).max(u(1)));
        let ts = w(self.r.range(1, 2 * egld));
        self.e.w.set_reserves(&o.contract, (r0, r1, ts));
    }

    pub fn sc_newmarket(&mut self) {
        let isolated = self.r.chance(if self.e.prop == "P11" { 75 } else { 25 });
        let Some(i) = self.new_market(isolated) else { return };
        // its first days
        if self.r.chance(30) {
            let id = 1 + self.r.below(2) as u8;
            let (coll, borrow) = (self.r.chance(80), self.r.chance(80));
            self.act(&Act::AssetEMode { by: OWNER, asset: i, id, coll, borrow, edit: false });
        }
        let by = self.user();
        let cents = self.cents(100, 3_000_000);
        let x = self.worth(i, &cents).max(u(1));
        let x = if self.r.chance(15) { u(self.r.range(1, 50) as u128) } else { x };
        let ok = self.act(&Act::Supply { by, acct: None, emode: None, pays: vec![Pay::new(&self.tok(i), x)] });
        let a = self.e.pre.last_nonce;
        if ok {
            let k = self.r.range(1, 5);
            for _ in 0..k {
                if self.dead() {
                    return;
                }
                let j = *self.r.pick(&[1usize, 1, 9, 0, 7, 2]);
                let j = self.twin.filter(|_| k % 2 == 0).unwrap_or(j);
                let v = self.cents(1, 200_000);
                let v = if self.r.chance(40) { v.min(&cents / 3u32 + 1u32) } else { v };
                let amt = self.worth(j, &v).max(u(1));
                match self.r.below(5) {
                    0 => {
                        let owed = self.pos_amount(a, BOR, j);
                        if !owed.is_zero() {
                            let part = self.around(&owed);
                            self.act(&Act::Repay { by, acct: a, pays: vec![Pay::new(&self.tok(j), part.max(u(1)))] });
                        }
                    }
                    _ => {
                        self.act(&Act::Borrow { by, pays: vec![self.nft(a)], items: vec![Pay::new(&self.tok(j), amt)] });
                    }
                }
                if self.r.chance(20) {
                    self.wait(86_400);
                }
            }
        }
        // lent out as well
        if !isolated && self.r.chance(70) {
            let cc = self.cents(100_000, 9_000_000);
            if let Some(b) = self.open((by + 1) % 6, None, &[(self.twin.unwrap_or(1), cc)]) {
                let res = self.e.pre.bal[self.e.w.actors.len() + i][i].clone();
                let x = self.r.frac(&res).max(u(1));
                self.act(&Act::Borrow { by: (by + 1) % 6, pays: vec![self.nft(b)], items: vec![Pay::new(&self.tok(i), x)] });
                let d = self.r.range(1, 400) * 86_400;
                self.wait(d);
            }
        }
    }
}
