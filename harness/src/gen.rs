//! Random but state-aware generation of actions and environment changes.
use crate::engine::*;
use crate::model::*;
use crate::num::*;
use crate::px::*;
use crate::state::*;
use crate::vm::*;
use crate::world::*;
use num_traits::Zero;

pub struct Gen {
    pub e: Eng,
    pub r: Rng,
    pub promise: Option<crate::probe::Promise>,
    /// episode 0 replays recorded findings
    pub first: bool,
    /// settings of the market created during the episode
    pub fresh: Option<AssetParams>,
    /// the listed token whose ticker the new one shares
    pub twin: Option<usize>,
    /// how often the owner changes one setting of an asset in use between two transactions, in percent
    pub flips: u64,
}

/// assets with plain markets used by default
const COLL: [usize; 10] = [0, 1, 2, 3, 4, 5, 6, 9, 10, 11];
const BORR: [usize; 9] = [0, 1, 2, 3, 4, 5, 9, 10, 11];
pub const CAPD: usize = 9;
pub const MICE: usize = 11;
pub const SILO: usize = 7;
pub const ISOL: usize = 8;
pub const XEGLD: usize = 4;
pub const LXOXNO: usize = 5;
pub const LEGLD: usize = 10;
pub const LP: usize = 6;

impl Gen {
    // ------------------------------------------------------------ pieces
    pub fn n(&self) -> usize {
        self.e.w.assets.len()
    }
    pub fn user(&mut self) -> usize {
        self.r.below(6) as usize
    }
    pub fn tok(&self, i: usize) -> Vec<u8> {
        self.e.w.tok(i)
    }
    pub fn any_tok(&mut self) -> Vec<u8> {
        match self.r.below(60) {
            0 => JUNK.to_vec(),
            1 => WEGLD.to_vec(),
            2 => b"NOPE-123456".to_vec(),
            _ => {
                let i = self.r.below(self.n() as u64) as usize;
                self.tok(i)
            }
        }
    }
    pub fn price(&self, i: usize) -> U {
        Px::new(&self.e.w, &self.e.pre, true).price(&self.e.w.assets[i].id).unwrap_or_else(|_| wad())
    }
    /// token amount worth `cents` US cents
    pub fn worth(&self, i: usize, cents: &U) -> U {
        let p = self.price(i);
        let e = &self.e.w.egld_usd;
        if p.is_zero() || e.is_zero() {
            return self.e.w.units(i, 1);
        }
        cents * p10(16) * wad() / e * p10(self.e.w.assets[i].dec) / p
    }
    pub fn amount(&mut self, i: usize) -> U {
        let mag = self.r.weighted(&[2, 5, 12, 30, 30, 6]);
        let cents = match mag {
            0 => return U::from(self.r.range(1, 3)),
            1 => self.r.range(1, 600),
            2 => self.r.range(500, 10_000),
            3 => self.r.range(10_000, 1_000_000),
            4 => self.r.range(100_000, 20_000_000),
            _ => self.r.range(20_000_000, 500_000_000),
        };
        let a = self.worth(i, &U::from(cents));
        let a = if self.r.chance(25) { &a / p10(self.e.w.assets[i].dec.min(2)) * p10(self.e.w.assets[i].dec.min(2)) } else { a };
        if a.is_zero() {
            u(1)
        } else {
            a
        }
    }
    pub fn accts(&self) -> Vec<u64> {
        self.e.pre.listed.iter().cloned().collect()
    }
    pub fn acct(&mut self) -> Option<u64> {
        let l = self.accts();
        if l.is_empty() {
            return None;
        }
        Some(*self.r.pick(&l))
    }
    pub fn holder(&self, a: u64) -> usize {
        self.e.pre.holder(a).unwrap_or(0)
    }
    pub fn side(&self, a: u64, s: u8) -> Vec<usize> {
        self.e.pre.side(a, s).iter().map(|x| x.0).collect()
    }
    pub fn debtor(&mut self) -> Option<u64> {
        let l: Vec<u64> = self.accts().into_iter().filter(|a| !self.side(*a, BOR).is_empty()).collect();
        if l.is_empty() {
            return None;
        }
        Some(*self.r.pick(&l))
    }
    pub fn pos_amount(&self, a: u64, s: u8, i: usize) -> U {
        match self.e.pre.pos.get(&(a, s, i)) {
            None => zero(),
            Some(p) => {
                let m = M::new(&self.e.w, &self.e.pre);
                m.from_ray(i, &m.amount_ray(s, i, p))
            }
        }
    }
    /// amount around an existing position
    pub fn around(&mut self, x: &U) -> U {
        let a = match self.r.below(12) {
            0 => x.clone(),
            1 => x + 1u32,
            2 => sat_sub(x, &u(1)),
            3 => x * 2u32,
            4 => x / 2u32,
            5 => U::from(self.r.range(1, 5)),
            6 => x * 10_001u32 / 10_000u32,
            7 => x * 9_999u32 / 10_000u32,
            _ => self.r.frac(x),
        };
        if a.is_zero() {
            u(1)
        } else {
            a
        }
    }
    /// largest amount in [1, hi] the rules accept (assuming they are monotone)
    pub fn edge(&mut self, hi: &U, mk: &dyn Fn(&U) -> Act) -> Option<U> {
        let mut lo = zero();
        let mut hi = hi.clone();
        if self.e.accepts(&mk(&hi)) {
            return Some(hi);
        }
        if !self.e.accepts(&mk(&u(1))) {
            return None;
        }
        let mut n = 0;
        while &hi - &lo > u(1) && n < 100 {
            let mid = (&lo + &hi) / 2u32;
            if self.e.accepts(&mk(&mid)) {
                lo = mid;
            } else {
                hi = mid;
            }
            n += 1;
        }
        self.e.cov.hit("acceptance boundary located");
        Some(lo)
    }
    /// amount at or next to the boundary
    pub fn near_edge(&mut self, hi: &U, mk: &dyn Fn(&U) -> Act) -> Option<U> {
        let x = self.edge(hi, mk)?;
        let k = self.r.below(8);
        Some(match k {
            0..=2 => x,
            3..=5 => x + 1u32,
            6 => x * 100_001u32 / 100_000u32 + 1u32,
            _ => sat_sub(&x, &u(1)).max(u(1)),
        })
    }
    pub fn nft(&self, a: u64) -> Pay {
        Pay::nft(ACC, a)
    }
    pub fn coll_asset(&mut self) -> usize {
        if self.n() > 12 && self.r.chance(20) {
            12
        } else if self.r.chance(6) {
            self.r.below(self.n() as u64) as usize
        } else {
            *self.r.pick(&COLL)
        }
    }
    fn borr_asset(&mut self) -> usize {
        if self.n() > 12 && self.r.chance(20) {
            return 12;
        }
        match self.r.below(20) {
            0 => self.r.below(self.n() as u64) as usize,
            1 | 2 => SILO,
            _ => *self.r.pick(&BORR),
        }
    }
    fn emode_for(&mut self, i: usize) -> u8 {
        let l: Vec<u8> = self.e.pre.asset_modes[i].iter().cloned().collect();
        if l.is_empty() || self.r.chance(8) {
            return self.r.below(4) as u8;
        }
        *self.r.pick(&l)
    }

    // ------------------------------------------------------------ actions
    pub fn make(&mut self, kind: &str) -> Option<Act> {
        match kind {
            "open" => {
                let by = self.user();
                let mut pays = vec![];
                let iso = self.r.chance(12);
                let n = if iso { 1 } else { 1 + self.r.weighted(&[60, 25, 10, 5]) };
                let em = self.r.chance(30);
                let mut mode = None;
                for k in 0..n {
                    let i = if iso { ISOL } else if em && k == 0 { *self.r.pick(&[0usize, 1, 4, 9, 10]) } else { self.coll_asset() };
                    if em && mode.is_none() {
                        mode = Some(self.emode_for(i));
                    }
                    let i = if em && k > 0 && self.r.chance(85) {
                        let l: Vec<usize> = self.e.pre.emodes.get(&mode.unwrap()).map(|e| e.assets.keys().cloned().collect()).unwrap_or_default();
                        if l.is_empty() { i } else { *self.r.pick(&l) }
                    } else {
                        i
                    };
                    let a = self.amount(i);
                    pays.push(Pay::new(&self.tok(i), a));
                }
                if iso && self.r.chance(10) {
                    let a = self.amount(0);
                    pays.push(Pay::new(EGLD, a));
                }
                let emode = if em { mode } else if self.r.chance(5) { Some(self.r.below(4) as u8) } else { None };
                Some(Act::Supply { by, acct: if self.r.chance(10) { Some(0) } else { None }, emode, pays })
            }
            "topup" => {
                let a = self.acct()?;
                let own = self.r.chance(75);
                let by = if own { self.holder(a) } else { self.user() };
                let dep = self.side(a, DEP);
                let mut pays = vec![];
                let mut acct = None;
                if own && self.r.chance(85) {
                    pays.push(self.nft(a));
                } else {
                    acct = Some(a);
                }
                let n = 1 + self.r.weighted(&[70, 20, 10]);
                for _ in 0..n {
                    let i = if !dep.is_empty() && self.r.chance(60) { *self.r.pick(&dep) } else { self.coll_asset() };
                    let at = self.e.pre.attrs.get(&a).cloned();
                    let i = match at {
                        Some(at) if at.iso && self.r.chance(80) => at.iso_token.unwrap_or(i),
                        Some(at) if at.emode != 0 && self.r.chance(80) => {
                            let l: Vec<usize> = self.e.pre.emodes.get(&at.emode).map(|e| e.assets.keys().cloned().collect()).unwrap_or_default();
                            if l.is_empty() { i } else { *self.r.pick(&l) }
                        }
                        _ => i,
                    };
                    let mut x = self.amount(i);
                    if self.r.chance(15) {
                        let base = pays.clone();
                        let t = self.tok(i);
                        let hi = self.e.pre.bal[by][i].clone();
                        let mk = move |v: &U| {
                            let mut p = base.clone();
                            p.push(Pay::new(&t, v.clone()));
                            Act::Supply { by, acct, emode: None, pays: p }
                        };
                        if let Some(v) = self.near_edge(&hi, &mk) {
                            x = v;
                        }
                    }
                    pays.push(Pay::new(&self.tok(i), x));
                }
                Some(Act::Supply { by, acct, emode: None, pays })
            }
            "withdraw" => {
                let a = self.acct()?;
                let by = self.holder(a);
                let dep = self.side(a, DEP);
                if dep.is_empty() {
                    return None;
                }
                if self.r.chance(10) {
                    // everything
                    let items = dep.iter().map(|i| Pay::new(&self.tok(*i), self.pos_amount(a, DEP, *i) * 2u32)).collect();
                    return Some(Act::Withdraw { by, pays: vec![self.nft(a)], items });
                }
                let n = 1 + self.r.weighted(&[75, 18, 7]);
                let mut items: Vec<Pay> = vec![];
                for _ in 0..n {
                    let i = if self.r.chance(96) { *self.r.pick(&dep) } else { self.r.below(self.n() as u64) as usize };
                    let cur = self.pos_amount(a, DEP, i);
                    let mut x = self.around(&cur);
                    if self.r.chance(30) {
                        let base = items.clone();
                        let t = self.tok(i);
                        let nft = self.nft(a);
                        let hi = &cur * 2u32 + 2u32;
                        let mk = move |v: &U| {
                            let mut p = base.clone();
                            p.push(Pay::new(&t, v.clone()));
                            Act::Withdraw { by, pays: vec![nft.clone()], items: p }
                        };
                        if let Some(v) = self.near_edge(&hi, &mk) {
                            x = v;
                        }
                    }
                    items.push(Pay::new(&self.tok(i), x));
                }
                Some(Act::Withdraw { by, pays: vec![self.nft(a)], items })
            }
            "borrow" => {
                let l: Vec<u64> = self.accts().into_iter().filter(|a| !self.side(*a, DEP).is_empty()).collect();
                if l.is_empty() {
                    return None;
                }
                let a = *self.r.pick(&l);
                self.borrow_for(a)
            }
            "repay" => {
                let a = self.debtor()?;
                let by = if self.r.chance(50) { self.holder(a) } else { self.user() };
                let bor = self.side(a, BOR);
                let n = 1 + self.r.weighted(&[75, 20, 5]);
                let mut pays = vec![];
                for _ in 0..n {
                    let i = if self.r.chance(96) { *self.r.pick(&bor) } else { self.r.below(self.n() as u64) as usize };
                    let cur = self.pos_amount(a, BOR, i);
                    let x = self.around(&cur);
                    pays.push(Pay::new(&self.tok(i), x));
                }
                Some(Act::Repay { by, acct: a, pays })
            }
            "liquidate" => {
                // prefer unhealthy ones
                let mut l = self.unhealthy();
                if l.is_empty() || self.r.chance(15) {
                    l = self.accts().into_iter().filter(|a| !self.side(*a, BOR).is_empty()).collect();
                }
                if l.is_empty() {
                    return None;
                }
                let a = *self.r.pick(&l);
                self.liquidation_of(a)
            }
            "clean" => {
                let l: Vec<u64> = self.accts().into_iter().filter(|a| !self.side(*a, BOR).is_empty()).collect();
                let bad: Vec<u64> = l
                    .iter()
                    .cloned()
                    .filter(|a| {
                        let m = M::new(&self.e.w, &self.e.pre);
                        m.sums(*a).and_then(|s| m.hopeless(&s)).unwrap_or(false)
                    })
                    .collect();
                let a = if !bad.is_empty() && self.r.chance(85) {
                    *self.r.pick(&bad)
                } else if !l.is_empty() {
                    *self.r.pick(&l)
                } else {
                    self.acct()?
                };
                Some(Act::Clean { by: self.user(), acct: a })
            }
            "flash" => Some(self.flash()),
            "threshold" => {
                let a = self.acct()?;
                let dep = self.side(a, DEP);
                let i = if dep.is_empty() || self.r.chance(5) { self.r.below(self.n() as u64) as usize } else { *self.r.pick(&dep) };
                let mut v = vec![a];
                while self.r.chance(30) {
                    if let Some(b) = self.acct() {
                        v.push(b);
                    }
                }
                Some(Act::Threshold { by: self.user(), asset: self.tok(i), risks: self.r.chance(60), accts: v })
            }
            "index" => {
                let n = self.r.range(1, 4);
                let mut v = vec![];
                for _ in 0..n {
                    let t = self.any_tok();
                    v.push(if self.r.chance(95) { let i = self.r.below(self.n() as u64) as usize; self.tok(i) } else { t });
                }
                Some(Act::UpdateIdx { by: self.user(), assets: v })
            }
            "claim" => {
                let n = self.r.range(1, 4);
                let v = (0..n)
                    .map(|_| {
                        let i = self.r.below(self.n() as u64) as usize;
                        self.tok(i)
                    })
                    .collect();
                Some(Act::Claim { by: self.user(), assets: v })
            }
            "rewards" => {
                let i = self.r.below(self.n() as u64) as usize;
                let by = if self.r.chance(90) { OWNER } else { self.user() };
                let a = self.amount(i);
                Some(Act::Rewards { by, pays: vec![Pay::new(&self.tok(i), a)] })
            }
            "multiply" => self.multiply(),
            "swapdebt" => self.swap_debt(),
            "swapcoll" => self.swap_coll(),
            "repaycoll" => self.repay_coll(),
            "sendnft" => {
                let a = self.acct()?;
                let by = self.holder(a);
                let to = self.user();
                if to == by {
                    return None;
                }
                Some(Act::SendNft { by, to, nonce: a })
            }
            "poolparams" => {
                let i = self.r.below(self.n() as u64) as usize;
                let r = self.rates(i);
                Some(Act::PoolParams { by: OWNER, asset: i, r })
            }
            "editasset" => {
                let i = self.r.below(self.n() as u64) as usize;
                let p = self.params(i);
                Some(Act::EditAsset { by: OWNER, asset: i, p })
            }
            "emodecfg" => Some(self.emode_cfg()),
            "limits" => {
                let b = self.r.range(0, 5) as u8;
                let s = self.r.range(0, 5) as u8;
                Some(Act::Limits { by: OWNER, borrow: b, supply: s })
            }
            "tolerance" => {
                let i = self.r.below(self.n() as u64) as usize;
                let f = *self.r.pick(&[49u64, 50, 51, 100, 200, 300, 1_000, 4_999, 5_000, 5_001, 0]);
                let l = *self.r.pick(&[149u64, 150, 151, 199, 200, 299, 300, 301, 500, 1_000, 9_999, 10_000, 10_001]);
                Some(Act::Tolerance { by: OWNER, asset: i, first: f, last: l })
            }
            "setaddr" => {
                let which = self.r.below(5) as usize;
                let cur = self.e.pre.addrs[which];
                let addr = match self.r.below(6) {
                    0 => [0u8; 32],
                    1 => self.e.w.users[0],
                    2 | 3 if which == 3 => *self.r.pick(&[self.e.w.accumulator, self.e.w.treasury]),
                    _ => cur,
                };
                Some(Act::SetAddr { by: OWNER, which, addr })
            }
            "again" => {
                let i = self.r.below(self.n() as u64) as usize;
                Some(if self.r.chance(50) {
                    Act::SetOracle { by: OWNER, asset: i, first: 200, last: 500 }
                } else {
                    Act::CreatePool { by: OWNER, asset: i }
                })
            }
            "upgradepool" => Some(Act::UpgradePool { by: OWNER, asset: self.r.below(self.n() as u64) as usize }),
            "pause" => Some(match self.r.below(4) {
                0 => Act::Upgrade { by: OWNER },
                _ => {
                    if self.e.pre.paused {
                        Act::Unpause { by: OWNER }
                    } else {
                        Act::Pause { by: OWNER }
                    }
                }
            }),
            _ => panic!("unknown action {}", kind),
        }
    }

    pub fn unhealthy(&self) -> Vec<u64> {
        let m = M::new(&self.e.w, &self.e.pre);
        self.accts()
            .into_iter()
            .filter(|a| !self.side(*a, BOR).is_empty())
            .filter(|a| m.sums(*a).map(|s| s.hf() < ray()).unwrap_or(false))
            .collect()
    }

    pub fn borrow_for(&mut self, a: u64) -> Option<Act> {
        let by = self.holder(a);
        let bor = self.side(a, BOR);
        let n = 1 + self.r.weighted(&[70, 18, 8, 4]);
        let mut items: Vec<Pay> = vec![];
        let at = self.e.pre.attrs.get(&a).cloned();
        for k in 0..n {
            let mut i = if !bor.is_empty() && self.r.chance(35) { *self.r.pick(&bor) } else { self.borr_asset() };
            if let Some(at) = &at {
                if at.iso && self.r.chance(85) {
                    i = *self.r.pick(&[1usize, 9]);
                } else if at.emode != 0 && self.r.chance(85) {
                    let l: Vec<usize> = self.e.pre.emodes.get(&at.emode).map(|e| e.assets.iter().filter(|x| x.1 .1).map(|x| *x.0).collect()).unwrap_or_default();
                    if !l.is_empty() {
                        i = *self.r.pick(&l);
                    }
                }
            }
            if k > 0 && self.r.chance(12) {
                i = self.e.w.asset_ix(&items[0].token).unwrap_or(i);
            }
            // a share of the room left
            let m = M::new(&self.e.w, &self.e.pre);
            let room = m.sums(a).map(|s| sat_sub(&s.ltv, &s.debt)).unwrap_or_default();
            let p = self.price(i);
            let full = if p.is_zero() { u(1) } else { m.from_ray(i, &divr(&room, &(p * p10(9)))) };
            let mut x = match self.r.below(6) {
                0 => self.amount(i),
                1 => self.around(&full),
                _ => {
                    let d = full / (n as u32);
                    self.r.frac(&d)
                }
            };
            if self.r.chance(30) {
                let base = items.clone();
                let t = self.tok(i);
                let nft = self.nft(a);
                let hi = self.e.pre.bal[self.e.w.actors.len() + i][i].clone() * 2u32 + 2u32;
                let mk = move |v: &U| {
                    let mut p = base.clone();
                    p.push(Pay::new(&t, v.clone()));
                    Act::Borrow { by, pays: vec![nft.clone()], items: p }
                };
                if let Some(v) = self.near_edge(&hi, &mk) {
                    x = v;
                }
            }
            if x.is_zero() {
                x = u(1);
            }
            items.push(Pay::new(&self.tok(i), x));
        }
        Some(Act::Borrow { by, pays: vec![self.nft(a)], items })
    }

    pub fn liquidation_of(&mut self, a: u64) -> Option<Act> {
        let bor = self.side(a, BOR);
        if bor.is_empty() {
            return None;
        }
        let by = self.user();
        let n = 1 + self.r.weighted(&[60, 25, 10, 5]);
        let mut pays = vec![];
        for _ in 0..n {
            let i = if self.r.chance(97) { *self.r.pick(&bor) } else { self.r.below(self.n() as u64) as usize };
            let cur = self.pos_amount(a, BOR, i);
            let x = match self.r.below(10) {
                0 => u(1),
                1..=2 => cur.clone(),
                3 => &cur * 2u32,
                4..=5 => {
                    // around what the rules would take
                    let m = {
                        let mut m = M::new(&self.e.w, &self.e.pre);
                        m.allow = false;
                        m.liq_plan(a, &[(i, cur.clone())]).map(|p| p.max_repay).unwrap_or_default()
                    };
                    let p = self.price(i);
                    let full = if p.is_zero() { cur.clone() } else { rescale(&divr(&m, &(p * p10(9))), 27, self.e.w.assets[i].dec) };
                    self.around(&full)
                }
                _ => self.r.frac(&cur),
            };
            pays.push(Pay::new(&self.tok(i), if x.is_zero() { u(1) } else { x }));
        }
        Some(Act::Liquidate { by, acct: a, pays })
    }

    pub fn flash(&mut self) -> Act {
        let by = self.user();
        let i = self.r.below(self.n() as u64) as usize;
        let res = self.e.pre.bal[self.e.w.actors.len() + i][i].clone();
        let amount = match self.r.below(10) {
            0 => &res + 1u32,
            1 => res.clone(),
            2 => u(1),
            3 => zero(),
            _ => self.r.frac(&res),
        };
        let fee = self.e.pre.cfg[i].as_ref().map(|c| c.flash_fee.clone()).unwrap_or_default();
        let dec = self.e.w.assets[i].dec;
        let need = rescale(&mulr(&rescale(&amount, dec, 27), &(ray() + &fee * p10(23))), 27, dec);
        let pool = self.e.w.pools[i];
        let t = self.tok(i);
        let other = (i + 1 + self.r.below(self.n() as u64 - 1) as usize) % self.n();
        let ot = self.tok(other);
        let oa = self.amount(other);
        let send = |x: U| Op::Send { to: pool, pay: Pay::new(&t, x) };
        let extra = self.amount(i);
        let ops = match self.r.below(17) {
            11 => vec![send(need.clone()), send(extra)],
            0 => vec![],
            1 => vec![send(sat_sub(&need, &u(1)))],
            2 => vec![send(amount.clone())],
            3 => vec![Op::Send { to: pool, pay: Pay::new(&ot, oa) }],
            4 => vec![send(need.clone()), Op::Send { to: pool, pay: Pay::new(&ot, oa) }],
            5 => vec![Op::Send { to: pool, pay: Pay::new(&ot, oa) }, send(need.clone())],
            6 => vec![send(&need / 2u32), send(&need - &need / 2u32)],
            7 => vec![send(&need + self.amount(i))],
            8 => vec![Op::Fail],
            9 => vec![Op::Send { to: self.e.w.users[by], pay: Pay::new(&t, need.clone()) }],
            10 => vec![Op::Send { to: self.e.w.controller, pay: Pay::new(&t, need.clone()) }],
            _ => vec![send(need.clone())],
        };
        let to = match self.r.below(14) {
            0 => FLASH_FAR,
            1 => ROUTER,
            2 => by,
            _ => FLASH,
        };
        let ep = match self.r.below(16) {
            0 => "",
            1 => *self.r.pick(&["ESDTTransfer", "ESDTNFTTransfer", "MultiESDTNFTTransfer", "ESDTLocalMint", "ESDTLocalBurn", "upgradeContract", "ChangeOwnerAddress", "SaveKeyValue", "ESDTNFTCreate", "ESDTNFTBurn", "ESDTNFTAddQuantity", "SetUserName", "migrateUserName", "ClaimDeveloperRewards", "ESDTNFTAddURI", "ESDTNFTUpdateAttributes"]),
            2 => "nosuch",
            _ => "flash",
        };
        let asset = if self.r.chance(96) { t } else { self.any_tok() };
        Act::Flash { by, asset, amount, to, ep: ep.to_string(), ops }
    }

    /// what a fair router would pay in `to` for `amount` of `from`
    pub fn fair_out(&mut self, from: usize, amount: &U, to: usize) -> U {
        let (pf, pt) = (self.price(from), self.price(to));
        if pt.is_zero() {
            return u(1);
        }
        let v = amount * pf / p10(self.e.w.assets[from].dec) * p10(self.e.w.assets[to].dec) / pt;
        let d = *self.r.pick(&[10_000u64, 9_950, 9_990, 9_800, 9_000, 10_100, 5_000]);
        let x = v * d / 10_000u32;
        if x.is_zero() {
            u(1)
        } else {
            x
        }
    }
    /// router answers: the wanted token, possibly split, leftovers, nothing, other tokens
    pub fn outs(&mut self, from: usize, amount: &U, to: usize) -> Vec<Pay> {
        let v = self.fair_out(from, amount, to);
        let t = self.tok(to);
        match self.r.below(16) {
            0 => vec![],
            6 | 7 => {
                // leftovers of several kinds around the wanted token
                let k = self.r.range(2, 4) as usize;
                let at = self.r.below(k as u64 + 1) as usize;
                let mut l = vec![];
                for j in 0..=k {
                    if j == at {
                        l.push(Pay::new(&t, v.clone()));
                    } else {
                        let o = self.r.below(self.n() as u64) as usize;
                        let a = self.amount(o);
                        l.push(Pay::new(&self.tok(o), a));
                    }
                }
                l
            }
            1 => vec![Pay::new(&t, &v / 2u32 + 1u32), Pay::new(&t, v / 2u32 + 1u32)],
            2 => vec![Pay::new(&t, v), Pay::new(&self.tok(from), amount / 10u32 + 1u32)],
            3 => {
                let o = self.r.below(self.n() as u64) as usize;
                let a = self.amount(o);
                let mut l = vec![Pay::new(&t, v), Pay::new(&self.tok(o), a)];
                if self.r.chance(50) {
                    l.reverse();
                }
                l
            }
            4 => {
                let o = self.r.below(self.n() as u64) as usize;
                let a = self.amount(o);
                vec![Pay::new(&self.tok(o), a)]
            }
            5 => vec![Pay::new(&t, v), Pay::new(JUNK, u(12345))],
            _ => vec![Pay::new(&t, v)],
        }
    }
    fn spick(&mut self) -> usize {
        *self.r.pick(&[0usize, 0, 1, 1, 2, 3, 4, 5, 9, 9, 10, 11, 6, 7, 8])
    }
    pub fn multiply(&mut self) -> Option<Act> {
        let (mut ci, mut di) = (self.spick(), self.spick());
        if self.r.chance(98) {
            while di == ci || [LP, ISOL].contains(&di) && self.r.chance(90) {
                di = self.spick();
            }
        }
        let mut by = self.user();
        let mut emode = 0u8;
        if self.r.chance(25) {
            emode = self.r.range(1, 2) as u8;
            if self.r.chance(85) {
                (ci, di) = if emode == 1 { *self.r.pick(&[(0usize, 4usize), (4, 0), (10, 0), (10, 4)]) } else { *self.r.pick(&[(1usize, 9usize), (9, 1), (1, 7)]) };
            }
        }
        let mode = *self.r.pick(&[2u8, 2, 2, 3, 4, 1, 0, 5]);
        let mut pays = vec![];
        let mut pouts = None;
        let mut init = zero();
        if self.r.chance(30) {
            let l: Vec<u64> = self.accts().into_iter().filter(|a| self.e.pre.attrs.get(a).map_or(false, |x| x.mode >= 2)).collect();
            let a = if l.is_empty() || self.r.chance(5) { self.acct()? } else { *self.r.pick(&l) };
            by = self.holder(a);
            pays.push(self.nft(a));
            let dep = self.side(a, DEP);
            if !dep.is_empty() && self.r.chance(60) {
                ci = *self.r.pick(&dep);
            }
            let bor = self.side(a, BOR);
            if !bor.is_empty() && self.r.chance(60) {
                di = *self.r.pick(&bor);
            }
            let m = M::new(&self.e.w, &self.e.pre);
            let room = m.sums(a).map(|s| sat_sub(&s.ltv, &s.debt)).unwrap_or_default();
            init = rescale(&room, 27, 18) * &self.e.w.egld_usd / wad() / p10(16);
            if self.r.chance(5) {
                let x = self.amount(ci);
                pays.push(Pay::new(&self.tok(ci), x));
            }
        } else {
            let c = U::from(self.r.range(1_000, 5_000_000));
            let pi = match self.r.below(10) {
                0..=4 => ci,
                5..=7 => di,
                _ => self.spick(),
            };
            let a = self.worth(pi, &c);
            let a = if a.is_zero() { u(1) } else { a };
            pays.push(Pay::new(&self.tok(pi), a.clone()));
            if pi != ci && pi != di && self.r.chance(90) {
                pouts = Some(self.outs(pi, &a, ci));
            } else if self.r.chance(3) {
                pouts = Some(vec![]);
            }
            init += c;
        }
        // leverage
        let lev = self.r.range(5, 450);
        let mut amount = self.worth(di, &(init.clone() * lev / 100u32));
        if self.r.chance(4) || amount.is_zero() {
            amount = self.amount(di);
        }
        let fee = self.e.pre.cfg[di].as_ref().map(|c| c.flash_fee.clone()).unwrap_or_default();
        let got = &amount - &amount * fee / 10_000u32;
        let mut swapped = got.clone();
        for p in &pays {
            if p.token == self.tok(di) {
                swapped += &p.amount;
            }
        }
        let outs = self.outs(di, &swapped, ci);
        let (coll, debt) = (self.tok(ci), self.tok(di));
        if self.r.chance(30) {
            let (p2, o2, po2, c2, d2) = (pays.clone(), outs.clone(), pouts.clone(), coll.clone(), debt.clone());
            let mk = move |v: &U| Act::Multiply { by, pays: p2.clone(), emode, coll: c2.clone(), amount: v.clone(), debt: d2.clone(), mode, outs: o2.clone(), pouts: po2.clone() };
            let hi = &amount * 5u32;
            if let Some(v) = self.near_edge(&hi, &mk) {
                amount = v;
            }
        }
        Some(Act::Multiply { by, pays, emode, coll, amount, debt, mode, outs, pouts })
    }
    pub fn swap_debt(&mut self) -> Option<Act> {
        let a = self.debtor()?;
        self.swap_debt_of(a)
    }
    pub fn swap_debt_of(&mut self, a: u64) -> Option<Act> {
        let by = self.holder(a);
        let bor = self.side(a, BOR);
        if bor.is_empty() {
            return None;
        }
        let oi = if self.r.chance(95) { *self.r.pick(&bor) } else { self.spick() };
        let mut ni = self.borr_asset();
        let cat = self.e.pre.attrs.get(&a).map_or(0, |x| x.emode);
        if cat != 0 && self.r.chance(70) {
            let l: Vec<usize> = self.e.pre.emodes.get(&cat).map_or(vec![], |e| e.assets.keys().cloned().filter(|i| *i != oi).collect());
            if !l.is_empty() {
                ni = *self.r.pick(&l);
            }
        }
        if self.r.chance(97) {
            while ni == oi {
                ni = self.borr_asset();
            }
        }
        let cur = self.pos_amount(a, BOR, oi);
        let part = self.around(&cur);
        let mut amount = self.fair_out(oi, &part, ni);
        let fee = self.e.pre.cfg[ni].as_ref().map(|c| c.flash_fee.clone()).unwrap_or_default();
        let got = &amount - &amount * fee / 10_000u32;
        let outs = self.outs(ni, &got, oi);
        let mut pays = vec![self.nft(a)];
        if self.r.chance(15) {
            let i = if self.r.chance(70) { *self.r.pick(&bor) } else { self.spick() };
            let x = self.amount(i);
            pays.push(Pay::new(&self.tok(i), x));
        }
        let (old, new) = (self.tok(oi), self.tok(ni));
        if self.r.chance(30) {
            let (p2, o2, a2, b2) = (pays.clone(), outs.clone(), old.clone(), new.clone());
            let mk = move |v: &U| Act::SwapDebt { by, pays: p2.clone(), old: a2.clone(), amount: v.clone(), new: b2.clone(), outs: o2.clone() };
            let hi = &amount * 8u32;
            if let Some(v) = self.near_edge(&hi, &mk) {
                amount = v;
            }
        }
        Some(Act::SwapDebt { by, pays, old, amount, new, outs })
    }
    pub fn swap_coll(&mut self) -> Option<Act> {
        let l: Vec<u64> = self.accts().into_iter().filter(|a| !self.side(*a, DEP).is_empty()).collect();
        if l.is_empty() {
            return None;
        }
        let a = *self.r.pick(&l);
        let by = self.holder(a);
        let dep = self.side(a, DEP);
        let ci = if self.r.chance(96) { *self.r.pick(&dep) } else { self.spick() };
        let mut ni = self.coll_asset();
        if self.r.chance(97) {
            while ni == ci {
                ni = self.coll_asset();
            }
        }
        let cur = self.pos_amount(a, DEP, ci);
        let mut amount = self.around(&cur);
        let taken = umin(&amount, &cur).clone();
        let outs = self.outs(ci, &taken, ni);
        let mut pays = vec![self.nft(a)];
        if self.r.chance(15) {
            let i = self.coll_asset();
            let x = self.amount(i);
            pays.push(Pay::new(&self.tok(i), x));
        }
        let (c, n) = (self.tok(ci), self.tok(ni));
        if self.r.chance(30) {
            let (p2, o2, a2, b2) = (pays.clone(), outs.clone(), c.clone(), n.clone());
            let mk = move |v: &U| Act::SwapColl { by, pays: p2.clone(), cur: a2.clone(), amount: v.clone(), new: b2.clone(), outs: o2.clone() };
            let hi = &cur * 2u32 + 1u32;
            if let Some(v) = self.near_edge(&hi, &mk) {
                amount = v;
            }
        }
        Some(Act::SwapColl { by, pays, cur: c, amount, new: n, outs })
    }
    pub fn repay_coll(&mut self) -> Option<Act> {
        let a = self.debtor()?;
        let by = self.holder(a);
        let dep = self.side(a, DEP);
        let bor = self.side(a, BOR);
        if dep.is_empty() {
            return None;
        }
        let fi = *self.r.pick(&dep);
        let ti = if self.r.chance(95) { *self.r.pick(&bor) } else { self.spick() };
        let cur = self.pos_amount(a, DEP, fi);
        let debt = self.pos_amount(a, BOR, ti);
        let need = self.fair_out(ti, &debt, fi);
        let mut amount = match self.r.below(5) {
            0 => self.around(&cur),
            1 => &need * 11u32 / 10u32,
            2 => self.around(&need),
            _ => self.r.frac(&need),
        };
        if amount.is_zero() {
            amount = u(1);
        }
        let taken = umin(&amount, &cur).clone();
        let outs = if fi == ti && self.r.chance(70) { None } else { Some(self.outs(fi, &taken, ti)) };
        let mut pays = vec![self.nft(a)];
        if self.r.chance(15) {
            let i = *self.r.pick(&bor);
            let x = self.amount(i);
            pays.push(Pay::new(&self.tok(i), x));
        }
        let close = self.r.chance(50);
        let (f, t) = (self.tok(fi), self.tok(ti));
        if self.r.chance(20) {
            let (p2, o2, a2, b2) = (pays.clone(), outs.clone(), f.clone(), t.clone());
            let mk = move |v: &U| Act::RepayColl { by, pays: p2.clone(), from: a2.clone(), amount: v.clone(), to: b2.clone(), close, outs: o2.clone() };
            let hi = &cur * 2u32 + 1u32;
            if let Some(v) = self.near_edge(&hi, &mk) {
                amount = v;
            }
        }
        Some(Act::RepayColl { by, pays, from: f, amount, to: t, close, outs })
    }

    pub fn rates(&mut self, i: usize) -> RateParams {
        let mut x = default_rates(i);
        let r = |n: u64| p10(27) * n / 10_000u32;
        match self.r.below(10) {
            0 => x.max = x.base.clone(),
            1 => x.opt = x.mid.clone(),
            2 => x.opt = ray(),
            3 => x.rf = 10_000,
            4 => x.rf = 9_999,
            5 => x.rf = 0,
            6 => {
                x.base = r(0);
                x.s1 = r(0);
                x.s2 = r(0);
                x.s3 = r(0);
                x.max = u(1);
            }
            7 => x.mid = r(1),
            _ => {
                x.base = r(self.r.range(0, 1_000));
                x.s1 = r(self.r.range(0, 3_000));
                x.s2 = r(self.r.range(0, 10_000));
                x.s3 = r(self.r.range(0, 50_000));
                x.mid = r(self.r.range(1_000, 6_000));
                x.opt = r(self.r.range(6_001, 9_900));
                x.max = &x.base + r(self.r.range(1, 30_000));
                x.rf = self.r.range(0, 9_999);
            }
        }
        x
    }
    pub fn params(&mut self, i: usize) -> AssetParams {
        let mut p = match &self.fresh {
            Some(p) if i >= 12 => p.clone(),
            _ => default_params(i),
        };
        if self.r.chance(12) {
            p.supply_cap = w(self.r.range(1, 1_000_000_000));
        }
        if self.r.chance(12) {
            p.borrow_cap = w(self.r.range(1, 1_000_000_000));
        }
        match self.r.below(14) {
            0 => {
                p.ltv = 0;
                p.thr = 0;
            }
            1 => p.thr = p.ltv,
            2 => p.thr = p.ltv + 1,
            3 => p.thr = p.ltv.saturating_sub(1),
            4 => p.ltv = 0,
            5 => p.can_coll = !p.can_coll,
            6 => p.can_borrow = !p.can_borrow,
            7 => p.flash = !p.flash,
            8 => p.iso_borrow = !p.iso_borrow,
            9 => {
                let q = &self.e.pre.pools[i];
                let s = rescale(&mulr(&q.supplied, &q.sidx), 27, q.dec);
                p.supply_cap = &s * self.r.range(95, 130) / 100u32;
            }
            10 => {
                let q = &self.e.pre.pools[i];
                let s = rescale(&mulr(&q.borrowed, &q.bidx), 27, q.dec);
                p.borrow_cap = &s * self.r.range(95, 200) / 100u32;
            }
            11 => {
                p.fee = self.r.range(0, 10_000);
                p.flash_fee = self.r.range(0, 500);
            }
            _ => {
                p.ltv = self.r.range(3_000, 8_000);
                p.thr = (p.ltv + self.r.range(0, 1_000)).min(9_500);
                p.bonus = self.r.range(0, 1_500);
                p.fee = self.r.range(0, 5_000);
                p.flash_fee = self.r.range(0, 300);
            }
        }
        if i == ISOL {
            p.ceiling = w(self.r.range(100, 6_000));
        }
        p
    }
    /// the settings in force, as an edit that changes nothing
    pub fn present(&self, i: usize) -> Option<AssetParams> {
        let c = self.e.pre.cfg[i].as_ref()?;
        let n = |x: &U| x.to_u64_digits().first().cloned().unwrap_or(0);
        Some(AssetParams {
            ltv: n(&c.ltv),
            thr: n(&c.thr),
            bonus: n(&c.bonus),
            fee: n(&c.fee),
            isolated: c.isolated,
            ceiling: c.ceiling.clone(),
            siloed: c.siloed,
            flash: c.flash,
            flash_fee: n(&c.flash_fee),
            can_coll: c.can_coll,
            can_borrow: c.can_borrow,
            iso_borrow: c.iso_borrow,
            borrow_cap: c.borrow_cap.clone().unwrap_or_default(),
            supply_cap: c.supply_cap.clone().unwrap_or_default(),
        })
    }
    /// the owner changes one setting of an asset somebody holds or owes, or of its category
    pub fn flip(&mut self) {
        let used: Vec<(u64, u8, usize)> = self.e.pre.pos.keys().cloned().collect();
        if used.is_empty() {
            return;
        }
        let (acct, side, i) = *self.r.pick(&used);
        let emode = self.e.pre.attrs.get(&acct).map(|x| x.emode).unwrap_or(0);
        if emode != 0 && self.r.chance(40) {
            let by = OWNER;
            let a = match self.r.below(4) {
                0 => Act::DropAssetEMode { by, asset: i, id: emode },
                1 => Act::AssetEMode { by, asset: i, id: emode, coll: self.r.chance(50), borrow: self.r.chance(50), edit: true },
                2 => Act::AssetEMode { by, asset: i, id: 3 - emode.min(2), coll: true, borrow: true, edit: false },
                _ => match self.e.pre.emodes.get(&emode).cloned() {
                    Some(e) => {
                        let n = |x: &U| x.to_u64_digits().first().cloned().unwrap_or(0);
                        let (ltv, thr, bonus) = (n(&e.ltv), n(&e.thr), n(&e.bonus));
                        Act::EditEMode { by, id: emode, ltv, thr, bonus, deprecated: !e.deprecated }
                    }
                    None => return,
                },
            };
            self.e.step(&a);
            return;
        }
        let Some(mut p) = self.present(i) else { return };
        let k = if side == BOR { *self.r.pick(&[1u64, 1, 2, 3, 6, 7, 8, 9]) } else { *self.r.pick(&[0u64, 0, 0, 4, 5, 6, 7, 9, 10]) };
        match k {
            0 => {
                p.isolated = !p.isolated;
                if p.ceiling.is_zero() {
                    p.ceiling = w(self.r.range(50, 20_000));
                }
            }
            1 => p.siloed = !p.siloed,
            2 => p.iso_borrow = !p.iso_borrow,
            3 => p.can_borrow = !p.can_borrow,
            4 => p.can_coll = !p.can_coll,
            5 => p.fee = self.r.range(0, 6_000),
            6 => p.bonus = self.r.range(0, 1_400),
            7 => p.flash_fee = self.r.range(0, 300),
            8 => p.borrow_cap = if p.borrow_cap.is_zero() { w(self.r.range(1, 1_000_000)) } else { U::zero() },
            9 => {
                p.ltv = self.r.range(1_000, 8_500);
                p.thr = (p.ltv + self.r.range(1, 1_000)).min(9_500);
            }
            _ => p.supply_cap = if p.supply_cap.is_zero() { w(self.r.range(1, 1_000_000)) } else { U::zero() },
        }
        self.e.step(&Act::EditAsset { by: OWNER, asset: i, p });
    }
    pub fn emode_cfg(&mut self) -> Act {
        let by = OWNER;
        let ids: Vec<u8> = self.e.pre.emodes.keys().cloned().collect();
        let id = if self.r.chance(90) { *self.r.pick(&ids) } else { self.r.below(9) as u8 };
        let asset = self.r.below(self.n() as u64) as usize;
        let ltv = self.r.range(5_000, 9_000);
        match self.r.below(10) {
            0 => Act::AddEMode { by, ltv, thr: ltv + 300, bonus: self.r.range(0, 500) },
            1 => Act::RemoveEMode { by, id },
            2..=3 => Act::EditEMode { by, id, ltv, thr: ltv + self.r.range(1, 500), bonus: self.r.range(0, 500), deprecated: self.r.chance(25) },
            4..=6 => Act::AssetEMode { by, asset, id, coll: self.r.chance(70), borrow: self.r.chance(70), edit: false },
            7..=8 => {
                let l: Vec<usize> = self.e.pre.emodes.get(&id).map(|e| e.assets.keys().cloned().collect()).unwrap_or_default();
                let asset = if l.is_empty() { asset } else { *self.r.pick(&l) };
                Act::AssetEMode { by, asset, id, coll: self.r.chance(70), borrow: self.r.chance(70), edit: true }
            }
            _ => {
                let l: Vec<usize> = self.e.pre.emodes.get(&id).map(|e| e.assets.keys().cloned().collect()).unwrap_or_default();
                let asset = if l.is_empty() || self.r.chance(10) { asset } else { *self.r.pick(&l) };
                Act::DropAssetEMode { by, asset, id }
            }
        }
    }

    // ------------------------------------------------------------ hostile variants
    /// spoil an honest action in one specific way
    pub fn spoil(&mut self, a: Act) -> Act {
        let mut a = a;
        let stranger = self.user();
        let k = self.r.below(9);
        let other = self.acct();
        let zero_amt = self.r.chance(50);
        let junk = Pay::new(JUNK, u(777));
        let me = self;
        match &mut a {
            Act::Withdraw { by, pays, .. } | Act::Borrow { by, pays, .. } => match k {
                0 => pays.clear(),
                1 => *by = stranger,
                2 => {
                    if let Some(o) = other {
                        pays[0].nonce = o;
                    }
                }
                3 => pays.push(junk),
                4 => {
                    pays[0] = Pay { token: b"ACCNFT-fedcba".to_vec(), nonce: pays[0].nonce, amount: u(1) };
                    give_fake(&mut me.e.w, *by, pays[0].nonce);
                }
                5 => pays[0] = Pay::new(EGLD, u(1_000_000)),
                6 => {
                    let c = pays[0].clone();
                    pays.push(c);
                }
                7 => pays[0].nonce += 1_000,
                _ => pays[0].nonce = 0,
            },
            Act::SwapDebt { by, pays, .. } | Act::SwapColl { by, pays, .. } | Act::RepayColl { by, pays, .. } => match k {
                0 => {
                    pays.remove(0);
                }
                1 => *by = stranger,
                2 => {
                    if let Some(o) = other {
                        pays[0].nonce = o;
                    }
                }
                3 => pays.push(junk),
                4 => {
                    pays[0] = Pay { token: b"ACCNFT-fedcba".to_vec(), nonce: pays[0].nonce, amount: u(1) };
                    give_fake(&mut me.e.w, *by, pays[0].nonce);
                }
                5 => pays[0] = Pay::new(EGLD, u(1_000_000)),
                6 => {
                    pays.push(Pay::new(&me.e.w.assets[1].id, u(5)));
                    pays.reverse();
                }
                7 => pays[0].nonce += 1_000,
                _ => pays[0].nonce = 0,
            },
            Act::Multiply { by, pays, .. } => match k {
                0 => pays.clear(),
                1 => *by = stranger,
                2 => {
                    if let Some(o) = other {
                        pays.insert(0, Pay::nft(ACC, o));
                    }
                }
                3 => pays.push(junk),
                4 => pays[0] = junk,
                _ => {
                    if let Some(p) = pays.last_mut() {
                        p.nonce += 7;
                    }
                }
            },
            Act::Supply { by, pays, acct, .. } => match k {
                0 => pays.clear(),
                1 => *acct = Some(999),
                2 => *by = stranger,
                3 => pays.push(junk),
                4 => {
                    let n = match pays.first() {
                        Some(p) if p.token == ACC => p.nonce,
                        _ => other.unwrap_or(1),
                    };
                    if pays.first().map_or(false, |p| p.token == ACC) {
                        pays.remove(0);
                    }
                    pays.insert(0, Pay { token: b"ACCNFT-fedcba".to_vec(), nonce: n, amount: u(1) });
                    give_fake(&mut me.e.w, *by, n);
                }
                5 => {
                    if let Some(o) = other {
                        pays.insert(0, Pay::nft(ACC, o));
                    }
                }
                6 => {
                    if let Some(o) = other {
                        pays.push(Pay::nft(ACC, o));
                    }
                }
                _ => {
                    if zero_amt {
                        if let Some(p) = pays.last_mut() {
                            p.amount = zero();
                        }
                    } else if let Some(p) = pays.last_mut() {
                        p.nonce = 3;
                    }
                }
            },
            Act::Repay { acct, pays, .. } | Act::Liquidate { acct, pays, .. } => match k {
                0 => pays.clear(),
                1 => *acct = 999,
                2 => *acct = 0,
                3 => pays.push(junk),
                4 => pays[0].nonce = 5,
                5 => {
                    if let Some(o) = other {
                        *acct = o;
                    }
                }
                6 => {
                    if let Some(o) = other {
                        pays.push(Pay::nft(ACC, o));
                    }
                }
                _ => pays[0].amount = zero(),
            },
            Act::Clean { acct, .. } => *acct = if k < 4 { 999 } else { 0 },
            Act::Threshold { accts, asset, .. } => match k {
                0..=3 => accts.push(999),
                4..=5 => accts.clear(),
                _ => *asset = JUNK.to_vec(),
            },
            Act::Rewards { by, pays } => match k {
                0..=2 => *by = stranger,
                3 => pays.clear(),
                4 => pays[0] = junk,
                _ => pays.push(junk),
            },
            Act::PoolParams { by, .. } | Act::EditAsset { by, .. } | Act::UpgradePool { by, .. } | Act::AddEMode { by, .. }
            | Act::EditEMode { by, .. } | Act::RemoveEMode { by, .. } | Act::AssetEMode { by, .. } | Act::DropAssetEMode { by, .. }
            | Act::Limits { by, .. } | Act::Tolerance { by, .. } | Act::SetAddr { by, .. } | Act::SetOracle { by, .. }
            | Act::CreatePool { by, .. } | Act::Pause { by } | Act::Unpause { by } => *by = stranger,
            _ => {}
        }
        // a lone zero-amount native payment is the same as no payment
        match &mut a {
            Act::Withdraw { pays, .. } | Act::Borrow { pays, .. } | Act::Supply { pays, .. } | Act::Repay { pays, .. } | Act::Liquidate { pays, .. }
            | Act::Rewards { pays, .. } | Act::Multiply { pays, .. } | Act::SwapDebt { pays, .. } | Act::SwapColl { pays, .. } | Act::RepayColl { pays, .. } => {
                if pays.len() == 1 && pays[0].token == EGLD && pays[0].amount.is_zero() {
                    pays.clear();
                }
            }
            _ => {}
        }
        a
    }

    // ------------------------------------------------------------ environment
    pub fn env(&mut self, kind: &str) {
        let w = &mut self.e.w;
        let r = &mut self.r;
        let mut s = String::new();
        match kind {
            "tick" => {
                let d = *r.pick(&[1u64, 6, 30, 120, 300]);
                w.advance(d);
                s = format!("time +{}s", d);
                if r.chance(80) {
                    w.publish_all();
                    s += ", feeds refreshed";
                }
            }
            "long" => {
                let d = *r.pick(&[3_600u64, 86_400, 604_800, 2_592_000, 31_556_926, 94_670_778]);
                w.advance(d);
                s = format!("time +{}s", d);
                if r.chance(93) {
                    w.publish_all();
                    s += ", feeds refreshed";
                }
            }
            "move" => {
                let i = *r.pick(&[0usize, 1, 2, 3, 7, 8, 9, 11]);
                let k = *r.pick(&[5_000u64, 8_000, 9_000, 9_500, 9_900, 10_100, 10_500, 11_000, 12_500, 20_000]);
                if i == 0 {
                    w.egld_usd = &w.egld_usd * k / 10_000u32;
                    w.publish_all();
                } else {
                    w.fair[i] = &w.fair[i] * k / 10_000u32;
                    w.publish(i, 10_000, 10_000);
                }
                s = format!("price of {} x{}/10000", w.assets[i].name, k);
            }
            "rate" => {
                let i = *r.pick(&[4usize, 10, 5]);
                let c = w.assets[i].oracle.contract;
                let k = r.range(9_900, 10_300);
                let x = w.feeds.rate[&c].clone() * k / 10_000u32;
                w.set_rate(&c, &x);
                s = format!("exchange rate of {} {}", w.assets[i].name, x);
            }
            "deviate" => {
                let i = *r.pick(&[1usize, 2, 3, 7, 8]);
                let t1 = w.assets[i].oracle.t1;
                let t2 = w.assets[i].oracle.t2;
                let d = *r.pick(&[t1 - 2, t1, t1 + 2, (t1 + t2) / 2, t2 - 2, t2, t2 + 2, t2 * 2, 5_000]);
                let up = r.chance(50);
                let k = if up { 10_000 + d } else { 10_000 - d.min(9_000) };
                let on_agg = r.chance(50);
                if on_agg {
                    w.publish(i, k, 10_000);
                } else {
                    w.publish(i, 10_000, k);
                }
                s = format!("{} sources apart: {} {}", w.assets[i].name, if on_agg { "aggregator" } else { "twap" }, k);
            }
            "stale" => {
                // one feed gets an old timestamp
                let i = *r.pick(&[0usize, 1, 2, 3, 7, 8, 9]);
                let age = *r.pick(&[449u64, 450, 598, 599, 600, 601, 5_000]);
                let t = World::ticker(&w.assets[i].id);
                let ts = w.vm.now() - age;
                if let Some((p, _)) = w.feeds.agg.get(&t).cloned() {
                    w.set_agg(&t, &p, ts);
                }
                s = format!("feed of {} is {}s old", w.assets[i].name, age);
            }
            "inactive" => {
                let i = r.below(12) as usize;
                let st = *r.pick(&[0u8, 2, 2, 1]);
                w.set_pair_state(i, st);
                s = format!("pair of {} state {}", w.assets[i].name, st);
            }
            "aggpause" => {
                let p = !w.feeds.agg_paused;
                w.pause_agg(p);
                s = format!("aggregator paused {}", p);
            }
            "missing" => {
                let i = *r.pick(&[0usize, 1, 2, 3, 7, 8, 9]);
                let t = World::ticker(&w.assets[i].id);
                w.del_agg(&t);
                s = format!("feed of {} missing", w.assets[i].name);
            }
            "unbalance" => {
                let j = if w.assets.len() > 12 && w.assets[12].oracle.ty == OTy::Lp && r.chance(50) { 12 } else { LP };
                let c = w.assets[j].oracle.contract;
                let (r0, r1, ts) = w.feeds.reserves[&c].clone();
                let k = r.range(1_000, 100_000);
                // keep the product roughly
                let n0 = &r0 * k / 10_000u32;
                let n1 = &r1 * 10_000u32 / k;
                w.set_reserves(&c, (n0, n1, ts));
                s = format!("{} pool pushed x{}", w.assets[j].name, k);
            }
            "rebalance" => {
                let d = r.range(100, 1_000_000);
                w.balance_lp(d);
                s = format!("pool depth {}", d);
            }
            "heal" => {
                if w.feeds.agg_paused {
                    w.pause_agg(false);
                }
                for i in 0..w.assets.len() {
                    w.set_pair_state(i, 1);
                }
                w.publish_all();
                s = "feeds healed".into();
            }
            "crash" => {}
            _ => panic!("unknown environment change {}", kind),
        }
        if kind == "crash" {
            self.crash();
            return;
        }
        self.e.note(format!("env: {}", s));
        self.e.cov.hit(&format!("env {}", kind));
        self.e.refresh();
    }
    /// move the price of one of an account's assets until it is near or below health 1
    pub fn crash(&mut self) {
        let Some(a) = self.debtor() else { return };
        let dep = self.side(a, DEP);
        if dep.is_empty() {
            return;
        }
        let i = *self.r.pick(&dep);
        let i = match i {
            4 | 10 | 6 => 0,
            5 => 3,
            x => x,
        };
        let k = *self.r.pick(&[9_800u64, 9_500, 9_000, 8_500, 8_000, 7_000, 5_000, 2_000, 100]);
        if i == 0 {
            self.e.w.egld_usd = &self.e.w.egld_usd * k / 10_000u32;
        } else {
            self.e.w.fair[i] = &self.e.w.fair[i] * k / 10_000u32;
        }
        self.e.w.publish_all();
        self.e.note(format!("env: {} drops to {}/10000 (account {})", self.e.w.assets[i].name, k, a));
        self.e.cov.hit("env crash");
        self.e.refresh();
    }
    /// search the CAPD (single-source) price at which `pred` flips between lo and hi
    pub fn price_edge(&mut self, i: usize, lo: U, hi: U, pred: &dyn Fn(&M) -> bool) -> Option<(U, U)> {
        let t = World::ticker(&self.e.w.assets[i].id);
        let now = self.e.w.vm.now();
        let test = |g: &mut Gen, p: &U| -> bool {
            g.e.w.set_agg(&t, p, now);
            let mut m = M::new(&g.e.w, &g.e.pre);
            m.allow = false;
            pred(&m)
        };
        let (mut lo, mut hi) = (lo, hi);
        let a = test(self, &lo);
        let b = test(self, &hi);
        if a == b {
            let f = self.e.w.fair[i].clone();
            self.e.w.set_agg(&World::ticker(&self.e.w.assets[i].id), &f, now);
            return None;
        }
        while &hi - &lo > u(1) {
            let mid = (&lo + &hi) / 2u32;
            if test(self, &mid) == a {
                lo = mid;
            } else {
                hi = mid;
            }
        }
        self.e.cov.hit("price boundary located");
        Some((lo, hi))
    }
    pub fn set_price(&mut self, i: usize, p: &U) {
        self.e.w.fair[i] = p.clone();
        let t = World::ticker(&self.e.w.assets[i].id);
        let now = self.e.w.vm.now();
        self.e.w.set_agg(&t, p, now);
        let s = format!("env: {} aggregator price {}", self.e.w.assets[i].name, p);
        self.e.note(s);
        self.e.refresh();
    }
}

pub fn give_fake(w: &mut World, by: usize, nonce: u64) {
    let a = w.actors[by];
    // a look-alike that even carries the same attributes
    let real = w.actors.clone().iter().find_map(|h| {
        let acc = w.vm.acc_mut(h);
        acc.esdt.get_by_identifier(ACC).and_then(|d| d.instances.get_by_nonce(nonce).map(|i| i.metadata.clone()))
    });
    let acc = w.vm.acc_mut(&a);
    acc.esdt.set_esdt_balance(b"ACCNFT-fedcba".to_vec(), nonce, &u(1), real.unwrap_or_default());
}
