//! Exit drills (P27): on a copy of the current state, strangers repay an account's debts, its holder withdraws
//! everything and an unhealthy account is liquidated. Judged on balances and records alone, without the model's verdicts.
use crate::gen::Gen;
use crate::model::*;
use crate::num::*;
use crate::px::*;
use crate::state::*;
use crate::vm::*;
use num_traits::Zero;

impl Gen {
    pub fn drill(&mut self) {
        let l = self.accts();
        if l.is_empty() {
            return;
        }
        let mut a = *self.r.pick(&l);
        if self.r.chance(55) {
            a = self.debtor().unwrap_or(a);
        }
        let save = self.e.w.save();
        let r = self.drill_on(a);
        self.e.w.load(&save);
        self.e.cov.evals += 1;
        match r {
            Ok(k) => self.e.cov.hit(&format!("exit drill: {}", k)),
            Err(m) => self.e.report(vec!["P27"], m),
        }
    }

    fn now(&self) -> State {
        State::read(&self.e.w)
    }
    fn on_copy(&mut self, a: &Act) -> TxOut {
        let s = crate::exec::show(&self.e.w, a);
        self.e.note(format!("  drill {}", s));
        let o = crate::exec::exec(&mut self.e.w, a);
        if !o.ok {
            self.e.note(format!("    refused: {}", o.msg));
        }
        o
    }

    fn drill_on(&mut self, a: u64) -> Result<String, String> {
        let mut s = self.now();
        if s.flash {
            return Ok("skipped (flash loan open)".into());
        }
        if s.paused {
            if self.r.chance(20) {
                return Ok("skipped (paused)".into());
            }
            let o = self.on_copy(&Act::Unpause { by: OWNER });
            if !o.ok {
                return Err(format!("unpausing refused: {}", o.msg));
            }
        }
        let dep: Vec<usize> = s.side(a, DEP).iter().map(|x| x.0).collect();
        let bor: Vec<usize> = s.side(a, BOR).iter().map(|x| x.0).collect();
        {
            let w = &self.e.w;
            let p = Px::new(w, &s, true);
            match p.egld_usd() {
                Ok(x) if !x.is_zero() => {}
                _ => return Ok("skipped (no fresh EGLD price)".into()),
            }
            for i in dep.iter().chain(bor.iter()) {
                match p.price(&w.assets[*i].id) {
                    Ok(x) if !x.is_zero() => {}
                    _ => return Ok("skipped (a price is missing or zero)".into()),
                }
            }
        }
        let all: Vec<Vec<u8>> = dep.iter().chain(bor.iter()).map(|i| self.tok(*i)).collect();
        let o = self.on_copy(&Act::UpdateIdx { by: 4, assets: all });
        if !o.ok {
            return Err(format!("updateIndexes refused: {}", o.msg));
        }
        s = self.now();
        // at a time of its own choosing, the account may also be closed by a liquidator first
        let mut done = vec![];
        if !bor.is_empty() && self.r.chance(35) {
            if let Some(k) = self.drill_liquidation(a, &s)? {
                done.push(k);
                s = self.now();
            }
        }
        if !s.attrs.contains_key(&a) {
            return Ok(done.join(", "));
        }
        // anyone repays
        let payer = *self.r.pick(&[0usize, 3, 4]);
        let mut owed: Vec<(usize, U)> = s.side(a, BOR).iter().map(|(i, p)| (*i, amount(&s, BOR, *i, p))).collect();
        if !owed.is_empty() {
            if self.r.chance(40) {
                // with a part first
                let (i, d) = owed[0].clone();
                let x = self.r.frac(&d).max(u(1));
                if x < d {
                    self.mint(payer, i, &x);
                    let t = self.tok(i);
                    let o = self.on_copy(&Act::Repay { by: payer, acct: a, pays: vec![Pay::new(&t, x.clone())] });
                    if !o.ok {
                        return Err(format!("a partial repayment of {} of {} {} was refused: {}", x, d, self.e.w.assets[i].name, o.msg));
                    }
                    s = self.now();
                    owed = s.side(a, BOR).iter().map(|(i, p)| (*i, amount(&s, BOR, *i, p))).collect();
                }
            }
            self.r.shuffle(&mut owed);
            let extra = self.r.chance(50);
            let mut pays = vec![];
            for (i, d) in &owed {
                let mut x = d.clone();
                if extra {
                    x += self.r.frac(d) + 1u32;
                }
                let x = x.max(u(1));
                self.mint(payer, *i, &x);
                pays.push((*i, x));
            }
            let before = self.now();
            let groups: Vec<Vec<(usize, U)>> = if self.r.chance(50) { vec![pays.clone()] } else { pays.iter().map(|p| vec![p.clone()]).collect() };
            for g in groups {
                let l: Vec<Pay> = g.iter().map(|(i, x)| Pay::new(&self.tok(*i), x.clone())).collect();
                let o = self.on_copy(&Act::Repay { by: payer, acct: a, pays: l });
                if !o.ok {
                    return Err(format!("a full repayment of account {} was refused: {}", a, o.msg));
                }
            }
            s = self.now();
            for (i, d) in &owed {
                if s.pos.contains_key(&(a, BOR, *i)) {
                    return Err(format!("account {} still owes {} after the debt was repaid in full", a, self.e.w.assets[*i].name));
                }
                let paid = sat_sub(&before.bal[payer][*i], &s.bal[payer][*i]);
                if absdiff(&paid, d) > u(1) && !(d.is_zero() && paid <= u(1)) {
                    return Err(format!("repaying a debt of {} {} in full cost {}", d, self.e.w.assets[*i].name, paid));
                }
            }
            done.push(format!("{} debts repaid", owed.len().min(3)));
        }
        // the holder leaves
        let Some(by) = s.holder(a) else { return Err(format!("nobody holds the token of account {}", a)) };
        let mut left: Vec<usize> = s.side(a, DEP).iter().map(|x| x.0).collect();
        self.r.shuffle(&mut left);
        let bulk = self.r.chance(40);
        let over = self.r.chance(30);
        let (mut short, mut items) = (false, vec![]);
        let mut want = vec![];
        for i in &left {
            let cur = amount(&s, DEP, *i, &s.pos[&(a, DEP, *i)]);
            let res = s.bal[self.e.w.actors.len() + *i][*i].clone();
            if res < cur {
                short = true;
                if res.is_zero() {
                    continue;
                }
                items.push(Pay::new(&self.tok(*i), res.clone()));
                want.push((*i, res, false));
            } else {
                let ask = if over { &cur * 3u32 + 7u32 } else { cur.clone() };
                items.push(Pay::new(&self.tok(*i), ask.max(u(1))));
                want.push((*i, cur, true));
            }
        }
        if !items.is_empty() {
            let calls: Vec<Vec<Pay>> = if bulk { vec![items] } else { items.into_iter().map(|x| vec![x]).collect() };
            let n = self.nft(a);
            for items in calls {
                let o = self.on_copy(&Act::Withdraw { by, pays: vec![n.clone()], items });
                if !o.ok {
                    return Err(format!("the debt-free account {} could not withdraw: {}", a, o.msg));
                }
            }
            let t = self.now();
            for (i, x, full) in &want {
                let got = sat_sub(&t.bal[by][*i], &s.bal[by][*i]);
                if absdiff(&got, x) > u(1) {
                    return Err(format!("withdrawing {} {} of account {} delivered {}", x, self.e.w.assets[*i].name, a, got));
                }
                if *full && t.pos.contains_key(&(a, DEP, *i)) {
                    return Err(format!("{} of account {} was withdrawn in full and is still recorded", self.e.w.assets[*i].name, a));
                }
            }
            s = t;
        }
        if short {
            done.push("withdrawn as far as the market is liquid".into());
        } else if !left.is_empty() {
            if s.listed.contains(&a) || s.holder(a).is_some() {
                return Err(format!("account {} has left but is still open", a));
            }
            done.push("withdrawn and closed".into());
        }
        Ok(done.join(", "))
    }

    /// an account clearly below 1 can be liquidated by anyone who pays
    fn drill_liquidation(&mut self, a: u64, s: &State) -> Result<Option<String>, String> {
        let (mut coll, mut weighted, mut debt) = (zero(), zero(), zero());
        let mut pays = vec![];
        {
            let w = &self.e.w;
            let p = Px::new(w, s, false);
            for (i, q) in s.side(a, DEP) {
                let Ok(x) = p.price(&w.assets[i].id) else { return Ok(None) };
                let am = amount(s, DEP, i, q);
                if am > s.bal[w.actors.len() + i][i] {
                    return Ok(None);
                }
                let v = am * x * p10(9) / p10(s.pools[i].dec);
                weighted += &v * &q.thr / 10_000u32;
                coll += v;
            }
            for (i, q) in s.side(a, BOR) {
                let Ok(x) = p.price(&w.assets[i].id) else { return Ok(None) };
                let am = amount(s, BOR, i, q);
                debt += &am * x * p10(9) / p10(s.pools[i].dec);
                pays.push((i, am));
            }
        }
        // worth something, and unhealthy by more than rounding
        if coll < p10(21) || &weighted * 1_001u32 >= &debt * 1_000u32 {
            return Ok(None);
        }
        self.r.shuffle(&mut pays);
        let mut l = vec![];
        let part = self.r.chance(40);
        for (i, am) in &pays {
            let x = if part { self.r.frac(am) } else { am.clone() };
            if x.is_zero() {
                continue;
            }
            self.mint(4, *i, &x);
            l.push(Pay::new(&self.tok(*i), x));
            if part {
                break;
            }
        }
        if l.is_empty() {
            return Ok(None);
        }
        let o = self.on_copy(&Act::Liquidate { by: 4, acct: a, pays: l });
        if !o.ok {
            return Err(format!("account {} owes {} against {} of weighted collateral and could not be liquidated: {}", a, debt, weighted, o.msg));
        }
        Ok(Some("liquidated".into()))
    }

    fn mint(&mut self, by: usize, i: usize, x: &U) {
        let (a, t) = (self.e.w.actors[by], self.e.w.assets[i].id.clone());
        self.e.w.vm.mint(&a, &t, x);
    }
}

/// current amount of a position in whole units, at the stored indexes
fn amount(s: &State, k: u8, i: usize, p: &Pos) -> U {
    let q = &s.pools[i];
    rescale(&mulr(&p.scaled, if k == DEP { &q.sidx } else { &q.bidx }), 27, q.dec)
}
