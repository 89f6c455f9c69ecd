//! What the contracts announce must be what they did: the event log of each transaction is
//! decoded and held against the stored state before and after it (P25).
use crate::codec::*;
use crate::engine::*;
use crate::model::*;
use crate::num::*;
use crate::state::*;
use crate::vm::*;
use crate::world::*;
use num_traits::Zero;
use std::collections::{BTreeMap, BTreeSet};

const P: [&str; 1] = ["P25"];

fn arg(l: &Log, k: usize) -> &[u8] {
    l.topics.get(k + 1).map_or(&[], |v| v.as_slice())
}
fn dec(l: &Log, k: usize) -> U {
    top_dec(arg(l, k)).0
}

pub struct PosEv {
    pub index: U,
    pub amount: (U, u32),
    pub side: u8,
    pub asset: Option<usize>,
    pub acct: u64,
    pub pos: Pos,
    pub price: Option<U>,
    pub caller: Vec<u8>,
    pub attr: Option<Attr>,
}

fn pos_ev(w: &World, l: &Log) -> PosEv {
    let mut r = Rd::new(arg(l, 2));
    let side = r.u8();
    let t = r.bytes();
    let scaled = r.decv();
    let acct = r.u64();
    let (thr, bonus, fee, ltv) = (r.decv(), r.decv(), r.decv(), r.decv());
    PosEv {
        index: dec(l, 0),
        amount: top_dec(arg(l, 1)),
        side,
        asset: w.asset_ix(&t),
        acct,
        pos: Pos { scaled, thr, bonus, fee, ltv },
        price: if l.topics.len() > 4 { Some(dec(l, 3)) } else { None },
        caller: arg(l, 4).to_vec(),
        attr: dec_attr(w, arg(l, 5)),
    }
}

impl Eng {
    pub fn events(&mut self, a: &Act, out: &TxOut, post: &State, rep: &mut Vec<(Vec<&'static str>, String)>) {
        let mut bad = |s: String| rep.push((P.to_vec(), format!("after {}: {}", a.name(), s)));
        let w = &self.w;
        let pre = &self.pre;
        let na = w.actors.len();
        let n = w.assets.len();
        let named = |ad: &Addr, s: &str| -> Vec<&Log> {
            out.logs.iter().filter(|l| l.address == *ad && l.topics.first().map_or(false, |t| t == s.as_bytes())).collect()
        };
        let ctrl = w.actors[CTRL].clone();
        let mut hits: Vec<(&str, u64)> = vec![];
        // 1. markets: whoever follows the market events knows the market
        for i in 0..n {
            let name = w.assets[i].name;
            let (p, q) = (&pre.pools[i], &post.pools[i]);
            let evs = named(&w.pools[i], "update_market_state");
            let held = &post.bal[na + i][i];
            let same = p.supplied == q.supplied && p.borrowed == q.borrowed && p.revenue == q.revenue && p.sidx == q.sidx && p.bidx == q.bidx && p.last == q.last;
            hits.push(("market events", evs.len() as u64));
            match evs.last() {
                None if !same || pre.bal[na + i][i] != *held => bad(format!("market {} changed without a market event", name)),
                None => {}
                Some(l) => {
                    let ts = top_u64(arg(l, 0));
                    if ts != q.last || ts != post.now * 1000 {
                        bad(format!("{}: market event dated {}, state {} now {}", name, ts, q.last, post.now * 1000));
                    }
                    for (k, (what, v)) in [("supply index", &q.sidx), ("borrow index", &q.bidx), ("reserves", held), ("supplied", &q.supplied), ("borrowed", &q.borrowed), ("revenue", &q.revenue)].iter().enumerate() {
                        let g = dec(l, k + 1);
                        if g != **v {
                            bad(format!("{}: market event says {} {}, the state {}", name, what, g, v));
                        }
                    }
                    if arg(l, 7) != w.assets[i].id {
                        bad(format!("{}: market event names {:?}", name, String::from_utf8_lossy(arg(l, 7))));
                    }
                    if !self.moved {
                        let mut m = M::new(w, post);
                    m.allow = true;
                        if let Ok(x) = m.price(i) {
                            if dec(l, 8) != x {
                                bad(format!("{}: market event priced {}, the sources give {}", name, dec(l, 8), x));
                            }
                        }
                    }
                }
            }
            // parameters
            let evs = named(&w.pools[i], "update_market_params");
            let rates = |s: &PoolS| [s.max.clone(), s.base.clone(), s.s1.clone(), s.s2.clone(), s.s3.clone(), s.mid.clone(), s.opt.clone(), s.rf.clone()];
            match evs.last() {
                None if rates(p) != rates(q) => bad(format!("rate parameters of {} changed without an event", name)),
                None => {}
                Some(l) => {
                    hits.push(("parameter events", 1));
                    let v: Vec<U> = (1..9).map(|k| big(arg(l, k))).collect();
                    if v != rates(q) || arg(l, 0) != w.assets[i].id {
                        bad(format!("{}: parameter event says {:?}, the state {:?}", name, v, rates(q)));
                    }
                }
            }
        }
        // 2. positions
        let evs: Vec<PosEv> = named(&ctrl, "update_position").iter().map(|l| pos_ev(w, l)).collect();
        hits.push(("position events", evs.len() as u64));
        let mut last: BTreeMap<(u64, u8, usize), &PosEv> = BTreeMap::new();
        let mut was: BTreeMap<(u64, u8, usize), U> = BTreeMap::new();
        for e in &evs {
            let Some(i) = e.asset else {
                bad("position event about an unknown asset".into());
                continue;
            };
            let k = (e.acct, e.side, i);
            let name = w.assets[i].name;
            // (an update of risk parameters leaves the market as it was; the event quotes the index of this instant)
            let ixs = |s: &State| {
                let q = synced(&s.pools[i], s.now * 1000);
                if e.side == DEP { q.sidx } else { q.bidx }
            };
            if !matches!(a, Act::Clean { .. }) && e.index != ixs(post) {
                bad(format!("position event for account {} side {} {} quotes index {}, the market has {}", e.acct, e.side, name, e.index, ixs(post)));
            }
            let before = was.get(&k).cloned().or_else(|| pre.pos.get(&k).map(|p| p.scaled.clone())).unwrap_or_default();
            let delta = if before > e.pos.scaled { &before - &e.pos.scaled } else { &e.pos.scaled - &before };
            let dec = w.assets[i].dec;
            let worth = rescale(&mulr(&delta, &e.index), 27, dec);
            let amount = rescale(&e.amount.0, e.amount.1, dec);
            let off = if worth > amount { &worth - &amount } else { &amount - &worth };
            let grain = &e.index / p10(27) * p10(dec) / p10(27) + 1u32;
            if !matches!(a, Act::Clean { .. }) && off > grain {
                bad(format!("position event for account {} side {} {} says amount {}, the position moved by {}", e.acct, e.side, name, amount, worth));
            }
            was.insert(k, e.pos.scaled.clone());
            if !self.moved {
                let mut m = M::new(w, post);
                    m.allow = true;
                if let (Ok(x), Some(g)) = (m.price(i), &e.price) {
                    if *g != x {
                        bad(format!("position event for account {} {} priced {}, the sources give {}", e.acct, name, g, x));
                    }
                }
            }
            let at = post.attrs.get(&e.acct).or_else(|| pre.attrs.get(&e.acct));
            if e.attr.as_ref() != at {
                bad(format!("position event for account {} carries {:?}, the account is {:?}", e.acct, e.attr, at));
            }
            if e.caller != w.actors[a.by()] && e.caller != ctrl {
                bad(format!("position event for account {} names a caller who is neither the sender nor the protocol", e.acct));
            }
            last.insert(k, e);
        }
        let keys: BTreeSet<(u64, u8, usize)> = pre.pos.keys().chain(post.pos.keys()).cloned().chain(last.keys().cloned()).collect();
        for k in keys {
            let (p, q) = (pre.pos.get(&k), post.pos.get(&k));
            let what = || format!("account {} side {} {}", k.0, k.1, w.assets[k.2].name);
            match (last.get(&k), q) {
                (None, _) if p != q => bad(format!("position of {} changed without an event", what())),
                (None, _) => {}
                (Some(e), Some(q)) => {
                    if e.pos != *q {
                        bad(format!("position event of {} says {:?}, the state {:?}", what(), e.pos, q));
                    }
                }
                (Some(e), None) => {
                    if !e.pos.scaled.is_zero() {
                        bad(format!("position of {} is gone but the event says {}", what(), e.pos.scaled));
                    }
                }
            }
        }
        // 3. debt against isolated collateral
        let evs = named(&ctrl, "update_debt_ceiling");
        for i in 0..n {
            match evs.iter().filter(|l| arg(l, 0) == w.assets[i].id).last() {
                None if pre.iso_of(i) != post.iso_of(i) => bad(format!("tracked debt of {} changed without an event", w.assets[i].name)),
                None => {}
                Some(l) => {
                    hits.push(("tracked-debt events", 1));
                    if dec(l, 1) != post.iso_of(i) {
                        bad(format!("debt event of {} says {}, the tracker {}", w.assets[i].name, dec(l, 1), post.iso_of(i)));
                    }
                }
            }
        }
        // 4. settings
        let (ea, eo, ec, em) = (named(&ctrl, "update_asset_config"), named(&ctrl, "update_asset_oracle"), named(&ctrl, "update_e_mode_category"), named(&ctrl, "update_e_mode_asset"));
        for i in 0..n {
            let name = w.assets[i].name;
            let of = |v: &Vec<&Log>| v.iter().filter(|l| arg(l, 0) == w.assets[i].id).last().map(|l| arg(l, 1).to_vec());
            match of(&ea) {
                None if pre.cfg[i] != post.cfg[i] => bad(format!("settings of {} changed without an event", name)),
                None => {}
                Some(b) => {
                    hits.push(("settings events", 1));
                    if Some(dec_cfg(&b)) != post.cfg[i] {
                        bad(format!("settings event of {} says {:?}, the state {:?}", name, dec_cfg(&b), post.cfg[i]));
                    }
                }
            }
            match of(&eo) {
                None if pre.oracles[i] != post.oracles[i] && post.oracles[i].is_some() => bad(format!("price source of {} changed without an event", name)),
                None => {}
                Some(b) => {
                    hits.push(("oracle events", 1));
                    if Some(dec_oracle(&b)) != post.oracles[i] {
                        bad(format!("oracle event of {} says {:?}, the state {:?}", name, dec_oracle(&b), post.oracles[i]));
                    }
                }
            }
        }
        for (id, c) in &post.emodes {
            let head = |e: &EMode| (e.ltv.clone(), e.thr.clone(), e.bonus.clone(), e.deprecated);
            let said = ec.iter().map(|l| { let mut r = Rd::new(arg(l, 0)); (r.u8(), (r.decv(), r.decv(), r.decv(), r.bool())) }).filter(|x| x.0 == *id).last();
            match said {
                None if pre.emodes.get(id).map(head) != Some(head(c)) => bad(format!("category {} changed without an event", id)),
                None => {}
                Some(x) => {
                    hits.push(("category events", 1));
                    if x.1 != head(c) {
                        bad(format!("category event {} says {:?}, the state {:?}", id, x.1, head(c)));
                    }
                }
            }
            for i in 0..n {
                let was = pre.emodes.get(id).and_then(|e| e.assets.get(&i));
                let is = c.assets.get(&i);
                let said = em.iter().filter(|l| arg(l, 0) == w.assets[i].id && top_u64(arg(l, 2)) == *id as u64).last().map(|l| { let mut r = Rd::new(arg(l, 1)); (r.bool(), r.bool()) });
                match said {
                    None if was != is => bad(format!("membership of {} in category {} changed without an event", w.assets[i].name, id)),
                    None => {}
                    Some(x) => {
                        hits.push(("membership events", 1));
                        // a removal repeats what was removed
                        if Some(&x) != is.or(was) {
                            bad(format!("membership event of {} in category {} says {:?}, the state {:?}", w.assets[i].name, id, x, is));
                        }
                    }
                }
            }
        }
        // 5. what a leveraged account was opened with
        let evs = named(&ctrl, "initial_multiply_payment");
        match a {
            Act::Multiply { pays, coll, debt, .. } if !pays.iter().any(|p| p.token == ACC) => {
                hits.push(("opening-payment events", evs.len() as u64));
                let first = &pays[0];
                let tok = if first.token == *coll || first.token == *debt { &first.token } else { coll };
                match evs.as_slice() {
                    [l] => {
                        let amount = dec(l, 1);
                        if arg(l, 0) != tok.as_slice() || top_u64(arg(l, 3)) != post.last_nonce || (tok == &first.token && amount != first.amount) {
                            bad(format!("the opening payment is announced as {} of {} for account {}", amount, String::from_utf8_lossy(arg(l, 0)), top_u64(arg(l, 3))));
                        }
                        if let (Some(i), false) = (w.asset_ix(tok), self.moved) {
                            let mut m = M::new(w, post);
                            m.allow = true;
                            if let Ok(x) = m.price(i) {
                                let v = m.value_ray(&rescale(&amount, w.assets[i].dec, 27), &x);
                                if let Ok(d) = m.usd(&v) {
                                    let g = dec(l, 2);
                                    let off = if g > d { &g - &d } else { &d - &g };
                                    // rounded in 18 decimals on the way
                                    if off > &d / p10(15) + &w.egld_usd / p10(17) + 2u32 {
                                        bad(format!("the opening payment is announced as worth {}, it is worth {}", g, d));
                                    }
                                }
                            }
                        }
                    }
                    l => bad(format!("{} opening payments announced", l.len())),
                }
            }
            _ if !evs.is_empty() => bad("an opening payment is announced".into()),
            _ => {}
        }
        // 6. the call for a write-off after a liquidation
        let evs = named(&ctrl, "emit_trigger_clean_bad_debt");
        match a {
            Act::Liquidate { acct, .. } if !self.moved => {
                let mut m = M::new(w, post);
                m.allow = true;
                if let Ok(s) = m.sums(*acct) {
                    if let (Ok(d), Ok(c)) = (m.usd(&s.debt), m.usd(&s.total)) {
                        let five = p10(18) * 5u32;
                        let tiny = p10(16);
                        let yes = d > &c + &tiny && &c + &tiny < five;
                        let no = &d + &tiny < c || c > &five + &tiny;
                        hits.push(("write-off calls", evs.len() as u64));
                        if yes && evs.is_empty() {
                            bad(format!("account {} owes {} against {} and no write-off is called for", acct, d, c));
                        }
                        if no && !evs.is_empty() {
                            bad(format!("account {} owes {} against {} but a write-off is called for", acct, d, c));
                        }
                        if evs.iter().any(|l| top_u64(arg(l, 0)) != *acct) {
                            bad("a write-off is called for another account".into());
                        }
                    }
                }
            }
            _ if !evs.is_empty() => bad("a write-off is called for".into()),
            _ => {}
        }
        for (k, v) in hits {
            if v > 0 {
                self.cov.add(k, v);
            }
        }
    }
}
