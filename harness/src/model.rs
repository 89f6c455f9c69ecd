//! Reference model of the lending protocol: from the state before a transaction and the
//! transaction itself, the state that must follow, or the reason it must be refused.
//! Written from the documented rules on plain integers; shares no code with /repo.
use crate::num::*;
use crate::px::*;
use crate::state::*;
use crate::vm::*;
use crate::world::*;
use num_bigint::BigInt;
use num_traits::{Signed, Zero};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Why {
    Ltv,
    Health,
    BorrowCap,
    SupplyCap,
    Iso,
    Ceiling,
    Silo,
    EMode,
    NotColl,
    NotBorrow,
    Holder,
    Inactive,
    Paused,
    Access,
    Price(PErr),
    Limits,
    Healthy,
    Flash,
    NotBad,
    Config,
    Args,
    Buffer,
    Reserves,
    Funds,
    NoPosition,
    Zero,
    Unsupported,
    Mode,
    Router,
}

#[derive(Clone, Debug)]
pub struct Rej {
    pub why: Why,
    pub what: String,
}
pub type R<T> = Result<T, Rej>;
thread_local! {
    /// a rule set aside: would the transaction pass without it?
    pub static LIFT: RefCell<Option<String>> = const { RefCell::new(None) };
}
pub fn lifted(what: &str) -> bool {
    LIFT.with(|l| l.borrow().as_deref() == Some(what))
}
macro_rules! deny {
    ($why:expr, $what:expr) => {
        if !lifted($what) {
            return rej($why, $what);
        }
    };
}
pub fn rej<T>(why: Why, what: &str) -> R<T> {
    Err(Rej { why, what: what.to_string() })
}

#[derive(Clone, Debug)]
pub enum Op {
    Send { to: Addr, pay: Pay },
    Call { to: Addr, ep: String, pays: Vec<Pay>, args: Vec<Vec<u8>> },
    Fail,
}

#[derive(Clone, Debug)]
pub enum Act {
    Supply { by: usize, acct: Option<u64>, emode: Option<u8>, pays: Vec<Pay> },
    Withdraw { by: usize, pays: Vec<Pay>, items: Vec<Pay> },
    Borrow { by: usize, pays: Vec<Pay>, items: Vec<Pay> },
    Repay { by: usize, acct: u64, pays: Vec<Pay> },
    Liquidate { by: usize, acct: u64, pays: Vec<Pay> },
    Flash { by: usize, asset: Vec<u8>, amount: U, to: usize, ep: String, ops: Vec<Op> },
    Threshold { by: usize, asset: Vec<u8>, risks: bool, accts: Vec<u64> },
    UpdateIdx { by: usize, assets: Vec<Vec<u8>> },
    Clean { by: usize, acct: u64 },
    Multiply { by: usize, pays: Vec<Pay>, emode: u8, coll: Vec<u8>, amount: U, debt: Vec<u8>, mode: u8, outs: Vec<Pay>, pouts: Option<Vec<Pay>> },
    SwapDebt { by: usize, pays: Vec<Pay>, old: Vec<u8>, amount: U, new: Vec<u8>, outs: Vec<Pay> },
    SwapColl { by: usize, pays: Vec<Pay>, cur: Vec<u8>, amount: U, new: Vec<u8>, outs: Vec<Pay> },
    RepayColl { by: usize, pays: Vec<Pay>, from: Vec<u8>, amount: U, to: Vec<u8>, close: bool, outs: Option<Vec<Pay>> },
    Claim { by: usize, assets: Vec<Vec<u8>> },
    Rewards { by: usize, pays: Vec<Pay> },
    PoolParams { by: usize, asset: usize, r: RateParams },
    UpgradePool { by: usize, asset: usize },
    EditAsset { by: usize, asset: usize, p: AssetParams },
    AddEMode { by: usize, ltv: u64, thr: u64, bonus: u64 },
    EditEMode { by: usize, id: u8, ltv: u64, thr: u64, bonus: u64, deprecated: bool },
    RemoveEMode { by: usize, id: u8 },
    AssetEMode { by: usize, asset: usize, id: u8, coll: bool, borrow: bool, edit: bool },
    DropAssetEMode { by: usize, asset: usize, id: u8 },
    Limits { by: usize, borrow: u8, supply: u8 },
    Tolerance { by: usize, asset: usize, first: u64, last: u64 },
    SetAddr { by: usize, which: usize, addr: Addr },
    SetOracle { by: usize, asset: usize, first: u64, last: u64 },
    CreatePool { by: usize, asset: usize },
    Pause { by: usize },
    Unpause { by: usize },
    Upgrade { by: usize },
    SendNft { by: usize, to: usize, nonce: u64 },
}

impl Act {
    pub fn name(&self) -> &'static str {
        match self {
            Act::Supply { .. } => "supply",
            Act::Withdraw { .. } => "withdraw",
            Act::Borrow { .. } => "borrow",
            Act::Repay { .. } => "repay",
            Act::Liquidate { .. } => "liquidate",
            Act::Flash { .. } => "flashLoan",
            Act::Threshold { .. } => "updateAccountThreshold",
            Act::UpdateIdx { .. } => "updateIndexes",
            Act::Clean { .. } => "cleanBadDebt",
            Act::Multiply { .. } => "multiply",
            Act::SwapDebt { .. } => "swapDebt",
            Act::SwapColl { .. } => "swapCollateral",
            Act::RepayColl { .. } => "repayDebtWithCollateral",
            Act::Claim { .. } => "claimRevenue",
            Act::Rewards { .. } => "addRewards",
            Act::PoolParams { .. } => "upgradeLiquidityPoolParams",
            Act::UpgradePool { .. } => "upgradeLiquidityPool",
            Act::EditAsset { .. } => "editAssetConfig",
            Act::AddEMode { .. } => "addEModeCategory",
            Act::EditEMode { .. } => "editEModeCategory",
            Act::RemoveEMode { .. } => "removeEModeCategory",
            Act::AssetEMode { edit: false, .. } => "addAssetToEModeCategory",
            Act::AssetEMode { .. } => "editAssetInEModeCategory",
            Act::DropAssetEMode { .. } => "removeAssetFromEModeCategory",
            Act::Limits { .. } => "setPositionLimits",
            Act::Tolerance { .. } => "editTokenOracleTolerance",
            Act::SetAddr { .. } => "setAddress",
            Act::SetOracle { .. } => "setTokenOracle",
            Act::CreatePool { .. } => "createLiquidityPool",
            Act::Pause { .. } => "pause",
            Act::Unpause { .. } => "unpause",
            Act::Upgrade { .. } => "upgrade",
            Act::SendNft { .. } => "transferToken",
        }
    }
    pub fn by(&self) -> usize {
        match self {
            Act::Supply { by, .. }
            | Act::Withdraw { by, .. }
            | Act::Borrow { by, .. }
            | Act::Repay { by, .. }
            | Act::Liquidate { by, .. }
            | Act::Flash { by, .. }
            | Act::Threshold { by, .. }
            | Act::UpdateIdx { by, .. }
            | Act::Clean { by, .. }
            | Act::Multiply { by, .. }
            | Act::SwapDebt { by, .. }
            | Act::SwapColl { by, .. }
            | Act::RepayColl { by, .. }
            | Act::Claim { by, .. }
            | Act::Rewards { by, .. }
            | Act::PoolParams { by, .. }
            | Act::UpgradePool { by, .. }
            | Act::EditAsset { by, .. }
            | Act::AddEMode { by, .. }
            | Act::EditEMode { by, .. }
            | Act::RemoveEMode { by, .. }
            | Act::AssetEMode { by, .. }
            | Act::DropAssetEMode { by, .. }
            | Act::Limits { by, .. }
            | Act::Tolerance { by, .. }
            | Act::SetAddr { by, .. }
            | Act::SetOracle { by, .. }
            | Act::CreatePool { by, .. }
            | Act::Pause { by }
            | Act::Unpause { by }
            | Act::Upgrade { by }
            | Act::SendNft { by, .. } => *by,
        }
    }
}

pub const OWNER: usize = 6;
pub const CTRL: usize = 7;
pub const ACCUM: usize = 8;
pub const ROUTER: usize = 9;
pub const FLASH: usize = 10;
pub const FLASH_FAR: usize = 11;

/// accumulated totals of one account (ray, EGLD)
#[derive(Clone, Debug, Default)]
pub struct Sums {
    pub weighted: U,
    pub total: U,
    pub ltv: U,
    pub debt: U,
}
impl Sums {
    pub fn hf(&self) -> U {
        if self.debt.is_zero() {
            ray() * 2u32
        } else {
            divr(&self.weighted, &self.debt)
        }
    }
}

#[derive(Clone, Debug)]
pub struct LiqPlan {
    pub hf: U,
    pub max_repay: U,
    pub bonus: U,
    pub base_bonus: U,
    /// asset, amount, fee
    pub seized: Vec<(usize, U, U)>,
    /// asset, amount, counted value (ray EGLD)
    pub repaid: Vec<(usize, U, U)>,
    pub refunds: Vec<(usize, U)>,
    pub value_paid: U,
}

pub struct M<'a> {
    pub w: &'a World,
    pub pre: &'a State,
    pub s: State,
    pub allow: bool,
    /// refusing is acceptable too
    pub maybe: bool,
    /// things that happened on the way, for coverage accounting
    pub tags: Vec<&'static str>,
    pc: RefCell<BTreeMap<(usize, bool), Result<U, PErr>>>,
}

fn b2r(b: &U) -> U {
    b * p10(23)
}
fn w2r(v: &U) -> U {
    v * p10(9)
}

/// market state with interest applied up to `now_ms`
pub fn synced(p: &PoolS, now_ms: u64) -> PoolS {
    let mut q = p.clone();
    if now_ms <= p.last {
        return q;
    }
    let delta = now_ms - p.last;
    let rate = borrow_rate_ms(p, &utilisation(p));
    let factor = compound(&rate, delta);
    q.bidx = mulr(&p.bidx, &factor);
    let interest = mulr(&p.borrowed, &q.bidx) - mulr(&p.borrowed, &p.bidx);
    let fee = mulr(&interest, &b2r(&p.rf));
    let sup = &interest - &fee;
    q.sidx = grow_supply(&p.supplied, &p.sidx, &sup);
    add_rev_ray(&mut q, &fee);
    q.last = now_ms;
    q
}
pub fn utilisation(p: &PoolS) -> U {
    if p.supplied.is_zero() {
        return zero();
    }
    let s = mulr(&p.supplied, &p.sidx);
    if s.is_zero() {
        return zero();
    }
    divr(&mulr(&p.borrowed, &p.bidx), &s)
}
pub fn borrow_rate_year(p: &PoolS, util: &U) -> U {
    let r = ray();
    let a = if util < &p.mid {
        &p.base + util * &p.s1 / &p.mid
    } else if util < &p.opt {
        &p.base + &p.s1 + (util - &p.mid) * &p.s2 / (&p.opt - &p.mid)
    } else {
        &p.base + &p.s1 + &p.s2 + (util - &p.opt) * &p.s3 / (&r - &p.opt)
    };
    umin(&a, &p.max).clone()
}
pub fn borrow_rate_ms(p: &PoolS, util: &U) -> U {
    dhu(&borrow_rate_year(p, util), &U::from(MS_YEAR))
}
pub fn compound(rate: &U, delta: u64) -> U {
    let x = rate * delta;
    let x2 = mulr(&x, &x);
    let x3 = mulr(&x2, &x);
    let x4 = mulr(&x3, &x);
    let x5 = mulr(&x4, &x);
    ray() + &x + dhu(&x2, &u(2)) + dhu(&x3, &u(6)) + dhu(&x4, &u(24)) + dhu(&x5, &u(120))
}
pub fn grow_supply(supplied: &U, sidx: &U, inc: &U) -> U {
    if supplied.is_zero() || inc.is_zero() {
        return sidx.clone();
    }
    let worth = mulr(supplied, sidx);
    if worth.is_zero() {
        return sidx.clone();
    }
    mulr(sidx, &(ray() + divr(inc, &worth)))
}
fn add_rev_ray(p: &mut PoolS, amount_ray: &U) {
    if amount_ray.is_zero() {
        return;
    }
    let s = divr(amount_ray, &p.sidx);
    p.revenue += &s;
    p.supplied += &s;
}
pub fn tol_bounds(t: u64) -> (U, U) {
    let up = u(10_000) + U::from(t);
    let lo = (u(100_000_000) + &up / 2u32) / &up;
    (up, lo)
}

impl<'a> M<'a> {
    pub fn new(w: &'a World, pre: &'a State) -> M<'a> {
        M { w, pre, s: pre.clone(), allow: true, maybe: false, tags: vec![], pc: RefCell::new(BTreeMap::new()) }
    }
    fn tag(&mut self, t: &'static str) {
        if !self.tags.contains(&t) {
            self.tags.push(t);
        }
    }
    pub fn ix(&self, t: &[u8]) -> R<usize> {
        match self.w.asset_ix(t) {
            Some(i) if self.s.pool_addr[i].is_some() => Ok(i),
            _ => rej(Why::Unsupported, "asset without a market"),
        }
    }
    pub fn price(&self, i: usize) -> R<U> {
        let allow = self.allow || lifted("price");
        let k = (i, allow);
        if let Some(r) = self.pc.borrow().get(&k) {
            return r.clone().map_err(|e| Rej { why: Why::Price(e), what: format!("price of {}", self.w.assets[i].name) });
        }
        let r = Px::new(self.w, self.pre, allow).price(&self.w.assets[i].id);
        let r = match r {
            Ok(p) if p.is_zero() => Err(PErr::Zero),
            x => x,
        };
        self.pc.borrow_mut().insert(k, r.clone());
        r.map_err(|e| Rej { why: Why::Price(e), what: format!("price of {}", self.w.assets[i].name) })
    }
    /// price that may legitimately be zero (only recorded in an event)
    fn price0(&self, i: usize) -> R<U> {
        match self.price(i) {
            // only when the price itself is zero, not when one it is computed from is
            Err(Rej { why: Why::Price(PErr::Zero), .. }) if Px::new(self.w, self.pre, true).price(&self.w.assets[i].id).is_ok() => Ok(zero()),
            x => x,
        }
    }
    pub fn egld_usd(&self) -> R<U> {
        Px::new(self.w, self.pre, self.allow)
            .egld_usd()
            .map_err(|e| Rej { why: Why::Price(e), what: "EGLD/USD".into() })
    }
    pub fn now_ms(&self) -> u64 {
        self.s.now * 1000
    }
    pub fn dec(&self, i: usize) -> u32 {
        self.s.pools[i].dec
    }
    pub fn to_ray(&self, i: usize, a: &U) -> U {
        rescale(a, self.dec(i), 27)
    }
    pub fn from_ray(&self, i: usize, a: &U) -> U {
        rescale(a, 27, self.dec(i))
    }
    fn sync(&mut self, i: usize) {
        self.s.pools[i] = synced(&self.s.pools[i], self.now_ms());
    }
    /// (supply index, borrow index) at this instant
    pub fn idx(&self, i: usize) -> (U, U) {
        let p = synced(&self.s.pools[i], self.now_ms());
        (p.sidx, p.bidx)
    }
    fn prow(&self, i: usize) -> usize {
        self.w.actors.len() + i
    }
    pub fn col(&self, t: &[u8]) -> Option<usize> {
        let t = if t == b"EGLD-000000" { EGLD } else { t };
        if let Some(i) = self.w.asset_ix(t) {
            return Some(i);
        }
        if t == JUNK {
            return Some(self.w.assets.len());
        }
        if t == WEGLD {
            return Some(self.w.assets.len() + 1);
        }
        None
    }
    fn mv(&mut self, from: usize, to: usize, c: usize, a: &U) -> R<()> {
        if &self.s.bal[from][c] < a {
            deny!(Why::Funds, "insufficient balance");
        }
        self.s.bal[from][c] -= a;
        self.s.bal[to][c] += a;
        Ok(())
    }
    /// caller's payments go to the controller (account tokens are handled separately)
    fn pay_in(&mut self, by: usize, pays: &[Pay]) -> R<()> {
        for p in pays {
            if p.token == ACC {
                if p.amount != u(1) {
                    deny!(Why::Holder, "account token amount");
                }
                if self.s.holder(p.nonce) != Some(by) {
                    deny!(Why::Holder, "caller does not hold the account token");
                }
                continue;
            }
            if p.nonce != 0 && p.token != EGLD {
                deny!(Why::Args, "non-fungible payment");
            }
            if p.amount.is_zero() {
                deny!(Why::Zero, "zero payment");
            }
            let Some(c) = self.col(&p.token) else {
                return rej(Why::Unsupported, "foreign token");
            };
            self.mv(by, CTRL, c, &p.amount)?;
        }
        Ok(())
    }
    fn not_paused(&self) -> R<()> {
        if self.s.paused {
            deny!(Why::Paused, "paused");
        }
        Ok(())
    }
    fn guard(&self) -> R<()> {
        if self.s.flash {
            deny!(Why::Flash, "flash loan ongoing");
        }
        Ok(())
    }
    fn owner(&self, by: usize) -> R<()> {
        if by != OWNER {
            deny!(Why::Access, "not the owner");
        }
        Ok(())
    }
    fn active(&self, a: u64) -> R<()> {
        if !self.s.listed.contains(&a) {
            deny!(Why::Inactive, "account not open");
        }
        Ok(())
    }
    fn attr(&self, a: u64) -> R<Attr> {
        match self.s.attrs.get(&a) {
            Some(x) => Ok(x.clone()),
            None => rej(Why::Inactive, "no attributes"),
        }
    }

    // ------------------------------------------------------------ values
    pub fn amount_ray(&self, side: u8, i: usize, p: &Pos) -> U {
        let (s, b) = self.idx(i);
        mulr(&p.scaled, if side == DEP { &s } else { &b })
    }
    pub fn value_ray(&self, amount_ray: &U, price: &U) -> U {
        mulr(amount_ray, &w2r(price))
    }
    pub fn sums(&self, acct: u64) -> R<Sums> {
        let mut r = Sums::default();
        for (i, p) in self.s.side(acct, DEP) {
            let v = self.value_ray(&self.amount_ray(DEP, i, p), &self.price(i)?);
            r.weighted += mulr(&v, &b2r(&p.thr));
            r.ltv += mulr(&v, &b2r(&p.ltv));
            r.total += v;
        }
        r.debt = self.debt(acct)?;
        Ok(r)
    }
    pub fn debt(&self, acct: u64) -> R<U> {
        let mut d = zero();
        for (i, p) in self.s.side(acct, BOR) {
            d += self.value_ray(&self.amount_ray(BOR, i, p), &self.price(i)?);
        }
        Ok(d)
    }
    fn coll_sums(&self, acct: u64) -> R<Sums> {
        let mut r = Sums::default();
        for (i, p) in self.s.side(acct, DEP) {
            let v = self.value_ray(&self.amount_ray(DEP, i, p), &self.price(i)?);
            r.weighted += mulr(&v, &b2r(&p.thr));
            r.ltv += mulr(&v, &b2r(&p.ltv));
            r.total += v;
        }
        Ok(r)
    }
    pub fn usd(&self, egld_ray: &U) -> R<U> {
        Ok(rescale(&mulr(egld_ray, &w2r(&self.egld_usd()?)), 27, 18))
    }
    /// EGLD value (wad) of a token amount
    fn value_wad(&self, i: usize, amount: &U) -> R<U> {
        Ok(rescale(&self.value_ray(&self.to_ray(i, amount), &self.price(i)?), 27, 18))
    }
    fn healthy(&self, acct: u64, min: &U, why: Why) -> R<()> {
        if self.s.side(acct, BOR).is_empty() {
            return Ok(());
        }
        let s = self.sums(acct)?;
        if &s.hf() < min && !lifted("health") {
            return Err(Rej { why, what: format!("health factor {} below {}", s.hf(), min) });
        }
        Ok(())
    }

    // ------------------------------------------------------------ e-mode
    /// category in force for an account, refusing deprecated ones
    fn category(&self, e: u8) -> R<Option<EMode>> {
        if e == 0 {
            return Ok(None);
        }
        match self.s.emodes.get(&e) {
            None => rej(Why::EMode, "unknown category"),
            Some(c) if c.deprecated && !lifted("category deprecated") => rej(Why::EMode, "category deprecated"),
            Some(c) => Ok(Some(c.clone())),
        }
    }
    fn acfg(&self, i: usize) -> R<ACfg> {
        match &self.s.cfg[i] {
            Some(c) => Ok(c.clone()),
            None => rej(Why::Unsupported, "no settings"),
        }
    }
    /// settings of an asset as seen by an account
    fn eff(&self, i: usize, e: u8, cat: &Option<EMode>) -> R<ACfg> {
        let mut c = self.acfg(i)?;
        if e != 0 {
            let Some(cat) = cat else { return rej(Why::EMode, "unknown category") };
            let Some((col, bor)) = cat.assets.get(&i) else {
                return rej(Why::EMode, "asset not in the category");
            };
            if !self.s.asset_modes[i].contains(&e) {
                deny!(Why::EMode, "asset not flagged for the category");
            }
            if c.isolated {
                deny!(Why::EMode, "isolated asset in a category");
            }
            c.can_coll = *col;
            c.can_borrow = *bor;
            c.ltv = cat.ltv.clone();
            c.thr = cat.thr.clone();
            c.bonus = cat.bonus.clone();
        }
        Ok(c)
    }
    fn limit(&mut self, acct: u64, side: u8, toks: &[usize]) -> R<()> {
        let cur = self.s.side(acct, side);
        let have: BTreeSet<usize> = cur.iter().map(|x| x.0).collect();
        let n = have.len();
        let fresh: Vec<usize> = toks.iter().cloned().filter(|t| !have.contains(t)).collect();
        let distinct: BTreeSet<usize> = fresh.iter().cloned().collect();
        let max = if side == DEP { self.s.limits.1 } else { self.s.limits.0 } as usize;
        if n + distinct.len() > max {
            deny!(Why::Limits, "position limit");
        }
        if n + fresh.len() > max {
            // the same new asset listed twice at the limit
            self.maybe = true;
        }
        if n + distinct.len() == max {
            self.tag("at position limit");
        }
        Ok(())
    }

    // ------------------------------------------------------------ market operations
    fn pool_supply(&mut self, i: usize, amount: &U) -> U {
        self.sync(i);
        let s = divr(&self.to_ray(i, amount), &self.s.pools[i].sidx);
        self.s.pools[i].supplied += &s;
        s
    }
    fn pool_add_rev(&mut self, i: usize, amount: &U) {
        let r = self.to_ray(i, amount);
        add_rev_ray(&mut self.s.pools[i], &r);
    }
    fn reserves(&self, i: usize) -> U {
        self.s.bal[self.prow(i)][i].clone()
    }
    fn pool_withdraw(&mut self, i: usize, acct: u64, req: &U, to: usize, fee: Option<&U>) -> R<U> {
        self.sync(i);
        let k = (acct, DEP, i);
        let Some(pos) = self.s.pos.get(&k).cloned() else {
            return rej(Why::NoPosition, "no such deposit");
        };
        let p = &self.s.pools[i];
        let cur = self.from_ray(i, &mulr(&pos.scaled, &p.sidx));
        let (scaled, mut net) = if req >= &cur {
            (pos.scaled.clone(), cur)
        } else {
            (divr(&self.to_ray(i, req), &p.sidx), req.clone())
        };
        if let Some(f) = fee {
            if &net < f {
                deny!(Why::Args, "fee above amount");
            }
            net -= f;
            self.pool_add_rev(i, f);
        }
        if self.reserves(i) < net {
            deny!(Why::Reserves, "market has not enough liquidity");
        }
        if scaled > pos.scaled || scaled > self.s.pools[i].supplied {
            deny!(Why::Reserves, "more than recorded");
        }
        self.s.pools[i].supplied -= &scaled;
        let left = &pos.scaled - &scaled;
        if left.is_zero() {
            self.s.pos.remove(&k);
        } else {
            self.s.pos.get_mut(&k).unwrap().scaled = left;
        }
        let pr = self.prow(i);
        self.mv(pr, to, i, &net)?;
        Ok(net)
    }
    /// payment already held by the controller
    fn pool_repay(&mut self, i: usize, acct: u64, amount: &U, payer: usize) -> R<()> {
        let k = (acct, BOR, i);
        let Some(pos) = self.s.pos.get(&k).cloned() else {
            return rej(Why::NoPosition, "no such debt");
        };
        self.sync(i);
        let bidx = self.s.pools[i].bidx.clone();
        let cur = self.from_ray(i, &mulr(&pos.scaled, &bidx));
        let (scaled, over) = if amount >= &cur {
            (pos.scaled.clone(), amount - &cur)
        } else {
            (divr(&self.to_ray(i, amount), &bidx), zero())
        };
        if scaled > pos.scaled || scaled > self.s.pools[i].borrowed {
            deny!(Why::Args, "more than recorded");
        }
        if !over.is_zero() {
            self.tag("overpayment refunded");
        }
        self.s.pools[i].borrowed -= &scaled;
        let left = &pos.scaled - &scaled;
        if left.is_zero() {
            self.s.pos.remove(&k);
        } else {
            self.s.pos.get_mut(&k).unwrap().scaled = left;
        }
        let pr = self.prow(i);
        self.mv(CTRL, pr, i, amount)?;
        self.mv(pr, payer, i, &over)?;
        Ok(())
    }
    fn iso_dec(&mut self, tok: usize, usd: &U) {
        if usd.is_zero() {
            return;
        }
        let cur = self.s.iso_of(tok);
        let mut n = sat_sub(&cur, usd);
        if n < wad() {
            if !n.is_zero() {
                self.tag("isolated remainder dropped");
            }
            n = zero();
        }
        self.s.iso.insert(tok, n);
    }
    /// repayment of `amount` (held by the controller) worth `value_ray` EGLD
    fn repay_one(&mut self, acct: u64, at: &Attr, i: usize, amount: &U, value_ray: &U, payer: usize) -> R<()> {
        let Some(pos) = self.s.pos.get(&(acct, BOR, i)).cloned() else {
            return rej(Why::NoPosition, "no such debt");
        };
        if at.iso {
            let cur = self.value_ray(&self.amount_ray(BOR, i, &pos), &self.price(i)?);
            let cur = w2r(&rescale(&cur, 27, 18));
            let ap = umin(&cur, value_ray).clone();
            let usd = self.usd(&ap)?;
            let t = at.iso_token.unwrap_or(usize::MAX);
            self.iso_dec(t, &usd);
            self.tag("isolated debt repaid");
        }
        if amount.is_zero() {
            self.maybe = true;
        }
        self.pool_repay(i, acct, amount, payer)
    }
    fn borrow_rules(&mut self, acct_iso: bool, cfg: &ACfg, i: usize, borrows: &[usize]) -> R<()> {
        if acct_iso && !cfg.iso_borrow {
            deny!(Why::Iso, "asset not enabled for isolated borrowing");
        }
        if cfg.siloed && borrows.len() > 1 {
            deny!(Why::Silo, "siloed asset next to other debts");
        }
        for b in borrows {
            let f = self.acfg(*b)?;
            if (f.siloed || cfg.siloed) && *b != i {
                deny!(Why::Silo, "siloed asset next to another debt");
            }
        }
        Ok(())
    }
    fn borrow_cap(&mut self, cfg: &ACfg, i: usize, amount: &U) -> R<()> {
        if let Some(cap) = &cfg.borrow_cap {
            let (_, b) = self.idx(i);
            let cur = self.from_ray(i, &mulr(&self.s.pools[i].borrowed, &b));
            if &(&cur + amount) > cap {
                deny!(Why::BorrowCap, "borrow cap");
            }
            self.tag("under a borrow cap");
            if &(cur + amount) == cap {
                self.tag("exactly at a borrow cap");
            }
        }
        Ok(())
    }
    fn iso_inc(&mut self, at: &Attr, i: usize, amount: &U) -> R<()> {
        if !at.iso {
            return Ok(());
        }
        let v = w2r(&self.value_wad(i, amount)?);
        let usd = self.usd(&v)?;
        let t = at.iso_token.unwrap_or(usize::MAX);
        if t == usize::MAX {
            deny!(Why::Iso, "no isolated token");
        }
        let c = self.acfg(t)?;
        let n = self.s.iso_of(t) + &usd;
        if n > c.ceiling {
            deny!(Why::Ceiling, "isolated debt ceiling");
        }
        if n == c.ceiling {
            self.tag("exactly at the debt ceiling");
        }
        self.tag("isolated loan");
        if !usd.is_zero() {
            self.s.iso.insert(t, n);
        }
        Ok(())
    }
    fn add_debt(&mut self, acct: u64, i: usize, scaled: &U, cfg: &ACfg) {
        let e = self.s.pos.entry((acct, BOR, i)).or_insert_with(|| Pos {
            scaled: zero(),
            thr: cfg.thr.clone(),
            bonus: cfg.bonus.clone(),
            fee: cfg.fee.clone(),
            ltv: cfg.ltv.clone(),
        });
        e.scaled += scaled;
    }

    // ------------------------------------------------------------ accounts
    fn new_account(&mut self, by: usize, iso: Option<usize>, mode: u8, emode: u8) -> (u64, Attr) {
        let n = self.s.last_nonce + 1;
        let at = Attr { iso: iso.is_some(), emode: if iso.is_some() { 0 } else { emode }, mode, iso_token: iso };
        self.s.last_nonce = n;
        self.s.listed.insert(n);
        self.s.attrs.insert(n, at.clone());
        self.s.nft.insert(n, vec![(by, u(1))]);
        (n, at)
    }
    /// the account token sent as the only payment
    fn only_token(&mut self, by: usize, pays: &[Pay]) -> R<(u64, Attr)> {
        self.pay_in(by, pays)?;
        if pays.len() != 1 || pays[0].token != ACC {
            deny!(Why::Holder, "exactly the account token is required");
        }
        let n = pays[0].nonce;
        self.active(n)?;
        Ok((n, self.attr(n)?))
    }
    fn settle_token(&mut self, acct: u64) {
        if self.s.side(acct, DEP).is_empty() && self.s.side(acct, BOR).is_empty() {
            self.s.nft.remove(&acct);
            self.s.listed.remove(&acct);
            self.s.attrs.remove(&acct);
            self.tag("account closed");
        }
    }
    fn deposit(&mut self, acct: u64, at: &Attr, pays: &[(Vec<u8>, U)]) -> R<()> {
        let cat = self.category(at.emode)?;
        let known: Vec<usize> = pays.iter().filter_map(|p| self.w.asset_ix(&p.0)).collect();
        self.limit(acct, DEP, &known)?;
        for (t, amount) in pays {
            let i = self.ix(t)?;
            if amount.is_zero() {
                deny!(Why::Zero, "zero deposit");
            }
            let cfg = self.eff(i, at.emode, &cat)?;
            if !cfg.can_coll {
                deny!(Why::NotColl, "not enabled as collateral");
            }
            if at.iso {
                if at.iso_token != Some(i) {
                    deny!(Why::Iso, "other collateral in an isolated account");
                }
            } else if cfg.isolated {
                deny!(Why::Iso, "isolated asset in a normal account");
            }
            self.price0(i)?;
            if let Some(cap) = &cfg.supply_cap {
                let (s, _) = self.idx(i);
                let cur = self.from_ray(i, &mulr(&self.s.pools[i].supplied, &s));
                if &(&cur + amount) > cap {
                    deny!(Why::SupplyCap, "supply cap");
                }
                self.tag("under a supply cap");
                if &(cur + amount) == cap {
                    self.tag("exactly at a supply cap");
                }
            }
            let pr = self.prow(i);
            self.mv(CTRL, pr, i, amount)?;
            let sc = self.pool_supply(i, amount);
            let e = self.s.pos.entry((acct, DEP, i)).or_insert_with(|| Pos {
                scaled: zero(),
                thr: cfg.thr.clone(),
                bonus: zero(),
                fee: zero(),
                ltv: zero(),
            });
            e.bonus = cfg.bonus.clone();
            e.fee = cfg.fee.clone();
            e.ltv = cfg.ltv.clone();
            e.scaled += sc;
        }
        Ok(())
    }
    /// router gets `amount` of `from`, returns `outs`; wanted token stays with the controller
    fn swap(&mut self, want: usize, from: usize, amount: &U, by: usize, outs: &[Pay]) -> R<U> {
        if self.w.router != self.s.addrs[4] {
            deny!(Why::Router, "router replaced");
        }
        self.mv(CTRL, ROUTER, from, amount)?;
        let mut got = zero();
        for p in outs {
            let Some(c) = self.col(&p.token) else { return rej(Why::Router, "router token") };
            if p.amount.is_zero() {
                self.maybe = true;
                continue;
            }
            if c == want {
                self.mv(ROUTER, CTRL, c, &p.amount).map_err(|_| Rej { why: Why::Router, what: "router balance".into() })?;
                got += &p.amount;
            } else {
                self.tag("router leftovers to caller");
                self.mv(ROUTER, by, c, &p.amount).map_err(|_| Rej { why: Why::Router, what: "router balance".into() })?;
            }
        }
        Ok(got)
    }
    /// strategy loan: amount received by the controller
    fn strategy_loan(&mut self, acct: u64, at: &Attr, i: usize, amount: &U) -> R<U> {
        let cat = self.category(at.emode)?;
        let cfg = self.eff(i, at.emode, &cat)?;
        if !cfg.can_borrow {
            deny!(Why::NotBorrow, "not enabled for borrowing");
        }
        let borrows: Vec<usize> = self.s.side(acct, BOR).iter().map(|x| x.0).collect();
        self.price(i)?;
        self.borrow_cap(&cfg, i, amount)?;
        self.iso_inc(at, i, amount)?;
        self.borrow_rules(at.iso, &cfg, i, &borrows)?;
        let fee = amount * &cfg.flash_fee / 10_000u32;
        self.sync(i);
        if self.reserves(i) < *amount {
            deny!(Why::Reserves, "market has not enough liquidity");
        }
        if &fee > amount {
            deny!(Why::Args, "fee above amount");
        }
        let sc = divr(&self.to_ray(i, amount), &self.s.pools[i].bidx);
        self.s.pools[i].borrowed += &sc;
        self.pool_add_rev(i, &fee);
        self.add_debt(acct, i, &sc, &cfg);
        let got = amount - fee;
        let pr = self.prow(i);
        self.mv(pr, CTRL, i, &got)?;
        if got.is_zero() {
            deny!(Why::Zero, "nothing lent");
        }
        Ok(got)
    }
    /// first payment may be the account token
    fn strategy_account(&mut self, by: usize, pays: &[Pay], need: bool) -> R<(Option<(u64, Attr)>, Vec<Pay>)> {
        self.pay_in(by, pays)?;
        if pays.is_empty() {
            deny!(Why::Args, "no payment");
        }
        if pays[0].token == ACC {
            let n = pays[0].nonce;
            self.active(n)?;
            return Ok((Some((n, self.attr(n)?)), pays[1..].to_vec()));
        }
        if need {
            deny!(Why::Holder, "the account token is required");
        }
        Ok((None, pays.to_vec()))
    }
    fn repay_list(&mut self, acct: u64, at: &Attr, list: &[(Vec<u8>, U)], by: usize) -> R<()> {
        for (t, a) in list {
            let i = self.ix(t)?;
            if a.is_zero() {
                deny!(Why::Zero, "zero payment");
            }
            self.price(i)?;
            let v = w2r(&self.value_wad(i, a)?);
            self.repay_one(acct, at, i, a, &v, by)?;
        }
        Ok(())
    }

    // ------------------------------------------------------------ liquidation
    pub fn liq_plan(&self, acct: u64, pays: &[(usize, U)]) -> R<LiqPlan> {
        let mut refunds: Vec<(usize, U)> = vec![];
        let mut repaid: Vec<(usize, U, U)> = vec![];
        let mut total = zero();
        for (i, a) in pays {
            let price = self.price(*i)?;
            let Some(pos) = self.s.pos.get(&(acct, BOR, *i)) else {
                return rej(Why::NoPosition, "payment in an asset not owed");
            };
            let val = self.value_ray(&self.to_ray(*i, a), &price);
            let mut out = self.value_ray(&self.amount_ray(BOR, *i, pos), &price);
            let mut covered = zero();
            for (j, _, v) in &repaid {
                if j == i {
                    covered += v;
                }
            }
            if !covered.is_zero() {
                if covered >= out {
                    refunds.push((*i, a.clone()));
                    continue;
                }
                out -= covered;
            }
            if val > out {
                let ex = self.from_ray(*i, &divr(&(&val - &out), &w2r(&price)));
                if &ex > a {
                    deny!(Why::Args, "refund above payment");
                }
                let adj = a - &ex;
                if !ex.is_zero() {
                    refunds.push((*i, ex));
                }
                total += &out;
                repaid.push((*i, adj, out));
            } else {
                total += &val;
                repaid.push((*i, a.clone(), val));
            }
        }
        let s = self.sums(acct)?;
        let hf = s.hf();
        if s.total.is_zero() && !self.s.side(acct, DEP).is_empty() {
            deny!(Why::Args, "worthless collateral");
        }
        let (mut prop, mut base) = (zero(), zero());
        for (i, p) in self.s.side(acct, DEP) {
            let v = self.value_ray(&self.amount_ray(DEP, i, p), &self.price(i)?);
            let wgt = divr(&v, &s.total);
            prop += mulr(&wgt, &b2r(&p.thr));
            base += mulr(&wgt, &b2r(&p.bonus));
        }
        if hf >= ray() && !lifted("healthy") {
            return Err(Rej { why: Why::Healthy, what: format!("health factor {}", hf) });
        }
        let (est, bonus) = liq_estimate(&s, &prop, &base, &hf)?;
        let max_repay = if total.is_zero() { est } else { umin(&total, &est).clone() };
        let mult = ray() + &bonus;
        let mut seized = vec![];
        for (i, p) in self.s.side(acct, DEP) {
            let price = self.price(i)?;
            let amt = self.amount_ray(DEP, i, p);
            let v = self.value_ray(&amt, &price);
            let share = divr(&v, &s.total);
            let sv = mulr(&mulr(&share, &max_repay), &mult);
            let units = divr(&sv, &w2r(&price));
            let cap = umin(&units, &amt).clone();
            let basep = divr(&cap, &mult);
            let fee = self.from_ray(i, &mulr(&sat_sub(&cap, &basep), &b2r(&p.fee)));
            seized.push((i, self.from_ray(i, &cap), fee));
        }
        if total > max_repay {
            let mut ex = &total - &max_repay;
            let mut k = repaid.len();
            while k > 0 && !ex.is_zero() {
                k -= 1;
                let (i, a, v) = repaid[k].clone();
                if v >= ex {
                    let back = self.from_ray(i, &divr(&ex, &w2r(&self.price(i)?)));
                    if back > a {
                        deny!(Why::Args, "refund above payment");
                    }
                    repaid[k] = (i, &a - &back, &v - &ex);
                    refunds.push((i, back));
                    ex = zero();
                } else {
                    refunds.push((i, a));
                    repaid.remove(k);
                    ex -= v;
                }
            }
        }
        Ok(LiqPlan { hf, max_repay, bonus, base_bonus: base, seized, repaid, refunds, value_paid: total })
    }

    // ------------------------------------------------------------ the transactions
    pub fn run(&mut self, a: &Act) -> R<()> {
        match a {
            Act::Supply { by, acct, emode, pays } => self.supply(*by, *acct, *emode, pays),
            Act::Withdraw { by, pays, items } => {
                self.not_paused()?;
                let (n, _) = self.only_token(*by, pays)?;
                self.egld_usd()?;
                self.guard()?;
                self.allow = self.s.side(n, BOR).is_empty();
                for it in items {
                    let i = self.ix(&it.token)?;
                    if it.amount.is_zero() {
                        deny!(Why::Zero, "zero amount");
                    }
                    if !self.s.pos.contains_key(&(n, DEP, i)) {
                        deny!(Why::NoPosition, "no such deposit");
                    }
                    self.price0(i)?;
                    self.pool_withdraw(i, n, &it.amount, *by, None)?;
                }
                self.healthy(n, &ray(), Why::Health)?;
                self.settle_token(n);
                Ok(())
            }
            Act::Borrow { by, pays, items } => {
                self.not_paused()?;
                self.egld_usd()?;
                self.guard()?;
                self.allow = false;
                let (n, at) = self.only_token(*by, pays)?;
                let ltv = self.coll_sums(n)?.ltv;
                let cat = self.category(at.emode)?;
                let known: Vec<usize> = items.iter().filter_map(|p| self.w.asset_ix(&p.token)).collect();
                self.limit(n, BOR, &known)?;
                for it in items {
                    let i = self.ix(&it.token)?;
                    if it.amount.is_zero() {
                        deny!(Why::Zero, "zero amount");
                    }
                    let raw = self.acfg(i)?;
                    let price = self.price(i)?;
                    let borrows: Vec<usize> = self.s.side(n, BOR).iter().map(|x| x.0).collect();
                    self.borrow_rules(at.iso, &raw, i, &borrows)?;
                    let cfg = self.eff(i, at.emode, &cat)?;
                    if !cfg.can_borrow {
                        deny!(Why::NotBorrow, "not enabled for borrowing");
                    }
                    let v = self.value_ray(&self.to_ray(i, &it.amount), &price);
                    if ltv < self.debt(n)? + v {
                        deny!(Why::Ltv, "loan-to-value exceeded");
                    }
                    self.borrow_cap(&cfg, i, &it.amount)?;
                    self.iso_inc(&at, i, &it.amount)?;
                    self.sync(i);
                    if self.reserves(i) < it.amount {
                        deny!(Why::Reserves, "market has not enough liquidity");
                    }
                    let sc = divr(&self.to_ray(i, &it.amount), &self.s.pools[i].bidx);
                    self.s.pools[i].borrowed += &sc;
                    self.add_debt(n, i, &sc, &cfg);
                    let pr = self.prow(i);
                    self.mv(pr, *by, i, &it.amount)?;
                }
                Ok(())
            }
            Act::Repay { by, acct, pays } => {
                self.not_paused()?;
                self.egld_usd()?;
                self.guard()?;
                self.pay_in(*by, pays)?;
                self.active(*acct)?;
                let at = self.attr(*acct)?;
                let l: Vec<(Vec<u8>, U)> = pays.iter().map(|p| (p.token.clone(), p.amount.clone())).collect();
                self.repay_list(*acct, &at, &l, *by)
            }
            Act::Liquidate { by, acct, pays } => {
                self.not_paused()?;
                self.egld_usd()?;
                self.guard()?;
                self.allow = false;
                self.pay_in(*by, pays)?;
                if pays.is_empty() {
                    deny!(Why::Args, "no payment");
                }
                let mut l = vec![];
                for p in pays {
                    l.push((self.ix(&p.token)?, p.amount.clone()));
                }
                self.active(*acct)?;
                let at = self.attr(*acct)?;
                let plan = self.liq_plan(*acct, &l)?;
                for (i, a) in &plan.refunds {
                    self.mv(CTRL, *by, *i, a)?;
                }
                if plan.repaid.is_empty() {
                    deny!(Why::Args, "nothing repaid");
                }
                for (i, a, v) in &plan.repaid {
                    self.repay_one(*acct, &at, *i, a, v, *by)?;
                }
                for (i, a, f) in &plan.seized {
                    self.pool_withdraw(*i, *acct, a, *by, Some(f))?;
                }
                Ok(())
            }
            Act::Flash { by: _, asset, amount, to, ep, ops } => {
                self.not_paused()?;
                self.egld_usd()?;
                self.guard()?;
                let i = self.ix(asset)?;
                let cfg = self.acfg(i)?;
                if !cfg.flash {
                    deny!(Why::Flash, "not enabled for flash loans");
                }
                let (cs, ts) = (self.w.controller[31], self.w.actors[*to][31]);
                if cs != ts {
                    deny!(Why::Flash, "receiver in another shard");
                }
                if amount.is_zero() {
                    deny!(Why::Zero, "zero amount");
                }
                if ep.is_empty() || is_builtin(ep) {
                    deny!(Why::Flash, "forbidden endpoint");
                }
                self.price0(i)?;
                if ep != "flash" {
                    deny!(Why::Flash, "receiver has no such endpoint");
                }
                self.sync(i);
                if self.reserves(i) < *amount {
                    deny!(Why::Flash, "more than the market holds");
                }
                let required = self.from_ray(i, &mulr(&self.to_ray(i, amount), &(ray() + b2r(&cfg.flash_fee))));
                let pr = self.prow(i);
                self.mv(pr, *to, i, amount)?;
                let mut back: Vec<(usize, U)> = vec![];
                for o in ops {
                    match o {
                        Op::Fail => deny!(Why::Flash, "receiver fails"),
                        // revenue may be collected at any time (the test VM's back-transfers do not survive every nesting)
                        Op::Call { to: t, ep, args, pays } if *t == self.w.controller && ep == "claimRevenue" && pays.is_empty() => {
                            self.maybe = true;
                            self.tag("revenue claimed during a flash loan");
                            self.run(&Act::Claim { by: *to, assets: args.clone() })?;
                        }
                        Op::Call { .. } => deny!(Why::Flash, "re-entrant call"),
                        Op::Send { to: t, pay } => {
                            let Some(c) = self.col(&pay.token) else { return rej(Why::Flash, "token") };
                            let dst = match self.w.pools.iter().position(|p| p == t) {
                                Some(k) => self.w.actors.len() + k,
                                None => match self.w.actors.iter().position(|p| p == t) {
                                    Some(k) => k,
                                    None => return rej(Why::Flash, "destination"),
                                },
                            };
                            if pay.amount.is_zero() {
                                self.maybe = true;
                                continue;
                            }
                            self.mv(*to, dst, c, &pay.amount)
                                .map_err(|_| Rej { why: Why::Flash, what: "receiver balance".into() })?;
                            if dst == pr {
                                back.push((c, pay.amount.clone()));
                            }
                        }
                    }
                }
                let paid = back.iter().filter(|b| b.0 == i).fold(zero(), |a, b| a + &b.1);
                if paid < required {
                    deny!(Why::Flash, "not repaid with the fee");
                }
                if back.len() != 1 {
                    // repaid in full but in several transfers: the protocol may refuse
                    self.maybe = true;
                    self.tag("split flash repayment");
                }
                self.pool_add_rev(i, &(&paid - amount));
                self.tag("flash loan repaid");
                Ok(())
            }
            Act::Threshold { by: _, asset, risks, accts } => {
                self.not_paused()?;
                let i = self.ix(asset)?;
                self.egld_usd()?;
                self.guard()?;
                self.allow = false;
                let raw = self.acfg(i)?;
                self.price0(i)?;
                for n in accts {
                    self.active(*n)?;
                    if !self.s.pos.contains_key(&(*n, DEP, i)) {
                        continue;
                    }
                    let at = self.attr(*n)?;
                    let mut c = raw.clone();
                    if at.emode != 0 {
                        let cat = self.category(at.emode)?;
                        let cat = cat.unwrap();
                        if !cat.assets.contains_key(&i) || !self.s.asset_modes[i].contains(&at.emode) {
                            deny!(Why::EMode, "asset not in the category");
                        }
                        c.ltv = cat.ltv.clone();
                        c.thr = cat.thr.clone();
                        c.bonus = cat.bonus.clone();
                    }
                    let p = self.s.pos.get_mut(&(*n, DEP, i)).unwrap();
                    if *risks {
                        p.thr = c.thr;
                        self.healthy(*n, &(ray() + ray() / 20u32), Why::Buffer)?;
                        self.tag("threshold propagated");
                    } else {
                        p.ltv = c.ltv;
                        p.bonus = c.bonus;
                        p.fee = c.fee;
                        self.tag("parameters propagated");
                    }
                }
                Ok(())
            }
            Act::UpdateIdx { by: _, assets } => {
                self.not_paused()?;
                self.egld_usd()?;
                self.guard()?;
                for t in assets {
                    let i = self.ix(t)?;
                    self.price0(i)?;
                    self.sync(i);
                }
                Ok(())
            }
            Act::Clean { by: _, acct } => {
                self.not_paused()?;
                self.egld_usd()?;
                self.guard()?;
                self.allow = false;
                self.active(*acct)?;
                let at = self.attr(*acct)?;
                let s = self.sums(*acct)?;
                if !self.hopeless(&s)? {
                    deny!(Why::NotBad, "not bad debt");
                }
                let bor: Vec<(usize, Pos)> = self.s.side(*acct, BOR).into_iter().map(|(i, p)| (i, p.clone())).collect();
                let dep: Vec<(usize, Pos)> = self.s.side(*acct, DEP).into_iter().map(|(i, p)| (i, p.clone())).collect();
                for (i, p) in bor {
                    let amt = self.amount_ray(BOR, i, &p);
                    if at.iso {
                        let v = self.value_ray(&amt, &self.price(i)?);
                        let usd = self.usd(&v)?;
                        self.iso_dec(at.iso_token.unwrap_or(usize::MAX), &usd);
                    }
                    self.sync(i);
                    let q = &mut self.s.pools[i];
                    let debt = mulr(&p.scaled, &q.bidx);
                    let total = mulr(&q.supplied, &q.sidx);
                    let rest = sat_sub(&total, &debt);
                    if !total.is_zero() {
                        let n = mulr(&q.sidx, &divr(&rest, &total));
                        q.sidx = if n.is_zero() { u(1) } else { n };
                    }
                    if q.borrowed < p.scaled {
                        deny!(Why::Args, "more than recorded");
                    }
                    q.borrowed -= &p.scaled;
                    self.s.pos.remove(&(*acct, BOR, i));
                }
                for (i, p) in dep {
                    self.sync(i);
                    self.s.pools[i].revenue += &p.scaled;
                    self.s.pos.remove(&(*acct, DEP, i));
                }
                self.s.listed.remove(acct);
                self.s.attrs.remove(acct);
                self.tag("bad debt written off");
                Ok(())
            }
            Act::Multiply { by, pays, emode, coll, amount, debt, mode, outs, pouts } => {
                self.not_paused()?;
                self.egld_usd()?;
                self.guard()?;
                self.allow = false;
                if coll == debt {
                    deny!(Why::Args, "same asset");
                }
                if *mode > 4 {
                    deny!(Why::Args, "unknown mode");
                }
                let (acc, rest) = self.strategy_account(*by, pays, false)?;
                let ci = self.ix(coll)?;
                let di = self.ix(debt)?;
                let ccfg = self.acfg(ci)?;
                let mut have = zero();
                let mut to_swap = zero();
                let (n, at) = match &acc {
                    Some(x) => {
                        if !rest.is_empty() {
                            deny!(Why::Args, "extra payments");
                        }
                        x.clone()
                    }
                    None => {
                        let iso = if ccfg.isolated { Some(ci) } else { None };
                        let r = self.new_account(*by, iso, *mode, *emode);
                        if rest.len() != 1 {
                            deny!(Why::Args, "exactly one payment");
                        }
                        let p = &rest[0];
                        let pi = self.ix(&p.token)?;
                        if pi == ci {
                            have += &p.amount;
                        } else if pi == di {
                            to_swap += &p.amount;
                        } else {
                            let Some(po) = pouts else { return rej(Why::Args, "no conversion steps") };
                            have += self.swap(ci, pi, &p.amount, *by, po)?;
                            self.tag("initial payment converted");
                        }
                        r
                    }
                };
                if !(2..=4).contains(&at.mode) {
                    deny!(Why::Mode, "position mode");
                }
                to_swap += self.strategy_loan(n, &at, di, amount)?;
                let got = self.swap(ci, di, &to_swap, *by, outs)?;
                self.deposit(n, &at, &[(coll.clone(), got + have)])?;
                self.healthy(n, &ray(), Why::Health)?;
                self.limit(n, BOR, &[])?;
                Ok(())
            }
            Act::SwapDebt { by, pays, old, amount, new, outs } => {
                self.not_paused()?;
                if old == new {
                    deny!(Why::Args, "same asset");
                }
                self.egld_usd()?;
                self.guard()?;
                self.allow = false;
                let (acc, rest) = self.strategy_account(*by, pays, true)?;
                let (n, at) = acc.unwrap();
                let ni = self.ix(new)?;
                let oi = self.ix(old)?;
                if self.acfg(ni)?.siloed || self.acfg(oi)?.siloed {
                    deny!(Why::Silo, "siloed debt swap");
                }
                let got = self.strategy_loan(n, &at, ni, amount)?;
                let got = self.swap(oi, ni, &got, *by, outs)?;
                let mut l: Vec<(Vec<u8>, U)> = rest.iter().map(|p| (p.token.clone(), p.amount.clone())).collect();
                l.push((old.clone(), got));
                self.repay_list(n, &at, &l, *by)?;
                self.healthy(n, &ray(), Why::Health)?;
                self.limit(n, BOR, &[])?;
                Ok(())
            }
            Act::SwapColl { by, pays, cur, amount, new, outs } => {
                self.not_paused()?;
                if cur == new {
                    deny!(Why::Args, "same asset");
                }
                self.egld_usd()?;
                self.guard()?;
                let (acc, rest) = self.strategy_account(*by, pays, true)?;
                let (n, at) = acc.unwrap();
                let safe = self.s.side(n, BOR).is_empty();
                self.allow = safe;
                if at.iso {
                    deny!(Why::Iso, "collateral swap of an isolated account");
                }
                let ni = self.ix(new)?;
                if self.acfg(ni)?.isolated {
                    deny!(Why::Iso, "collateral swap into an isolated asset");
                }
                let got = self.swap_coll(n, cur, amount, ni, *by, outs)?;
                let mut l: Vec<(Vec<u8>, U)> = rest.iter().map(|p| (p.token.clone(), p.amount.clone())).collect();
                l.push((new.clone(), got));
                self.deposit(n, &at, &l)?;
                if !safe {
                    self.healthy(n, &ray(), Why::Health)?;
                }
                Ok(())
            }
            Act::RepayColl { by, pays, from, amount, to, close, outs } => {
                self.not_paused()?;
                self.egld_usd()?;
                self.guard()?;
                self.allow = false;
                let (acc, rest) = self.strategy_account(*by, pays, true)?;
                let (n, at) = acc.unwrap();
                let ti = self.ix(to)?;
                let none = vec![];
                let got = self.swap_coll(n, from, amount, ti, *by, outs.as_ref().unwrap_or(&none))?;
                let mut l: Vec<(Vec<u8>, U)> = rest.iter().map(|p| (p.token.clone(), p.amount.clone())).collect();
                l.push((to.clone(), got));
                self.repay_list(n, &at, &l, *by)?;
                self.healthy(n, &ray(), Why::Health)?;
                if *close && self.s.side(n, BOR).is_empty() {
                    let dep: Vec<usize> = self.s.side(n, DEP).iter().map(|x| x.0).collect();
                    for i in dep {
                        self.price0(i)?;
                        let all = self.s.pos[&(n, DEP, i)].clone();
                        let amt = self.from_ray(i, &self.amount_ray(DEP, i, &all));
                        self.pool_withdraw(i, n, &amt, *by, None)?;
                    }
                    self.tag("closed with collateral");
                }
                self.settle_token(n);
                Ok(())
            }
            Act::Claim { by: _, assets } => {
                self.egld_usd()?;
                for t in assets {
                    let i = self.ix(t)?;
                    self.price0(i)?;
                    self.sync(i);
                    let rev = self.s.pools[i].revenue.clone();
                    if rev.is_zero() {
                        continue;
                    }
                    let actual = self.from_ray(i, &mulr(&rev, &self.s.pools[i].sidx));
                    let res = self.reserves(i);
                    let pay = umin(&res, &actual).clone();
                    if pay.is_zero() {
                        continue;
                    }
                    let burn = if pay >= actual { rev.clone() } else { mulr(&rev, &divr(&pay, &actual)) };
                    if pay < actual {
                        self.tag("claim limited by liquidity");
                    }
                    let p = &mut self.s.pools[i];
                    p.revenue = sat_sub(&p.revenue, &burn);
                    p.supplied = sat_sub(&p.supplied, &burn);
                    let pr = self.prow(i);
                    let Some(to) = self.w.actors.iter().position(|a| *a == self.s.addrs[3]) else {
                        return rej(Why::Unsupported, "accumulator outside the world");
                    };
                    self.mv(pr, to, i, &pay)?;
                    self.tag("revenue claimed");
                }
                Ok(())
            }
            Act::Rewards { by, pays } => {
                self.owner(*by)?;
                self.egld_usd()?;
                self.pay_in(*by, pays)?;
                let none = [Pay::new(EGLD, zero())];
                let pays: &[Pay] = if pays.is_empty() { &none } else { pays };
                if pays.len() != 1 {
                    deny!(Why::Args, "exactly one payment");
                }
                let i = self.ix(&pays[0].token)?;
                self.price0(i)?;
                self.sync(i);
                let r = self.to_ray(i, &pays[0].amount);
                let q = &mut self.s.pools[i];
                q.sidx = grow_supply(&q.supplied, &q.sidx, &r);
                let pr = self.prow(i);
                self.mv(CTRL, pr, i, &pays[0].amount)?;
                self.tag("rewards added");
                Ok(())
            }
            Act::SendNft { by, to, nonce } => {
                if self.s.holder(*nonce) != Some(*by) {
                    deny!(Why::Holder, "not held");
                }
                self.s.nft.insert(*nonce, vec![(*to, u(1))]);
                Ok(())
            }
            _ => self.config(a),
        }
    }

    fn swap_coll(&mut self, n: u64, from: &[u8], amount: &U, ti: usize, by: usize, outs: &[Pay]) -> R<U> {
        let Some(fi) = self.w.asset_ix(from) else { return rej(Why::Unsupported, "unknown asset") };
        if !self.s.pos.contains_key(&(n, DEP, fi)) {
            deny!(Why::NoPosition, "no such deposit");
        }
        self.price0(fi)?;
        let got = self.pool_withdraw(fi, n, amount, CTRL, None)?;
        if fi == ti {
            return Ok(got);
        }
        if got.is_zero() {
            self.maybe = true;
        }
        self.swap(ti, fi, &got, by, outs)
    }

    pub fn hopeless(&self, s: &Sums) -> R<bool> {
        let d = self.usd(&s.debt)?;
        let c = self.usd(&s.total)?;
        Ok(d > c && c <= wad() * 5u32)
    }

    fn supply(&mut self, by: usize, arg: Option<u64>, emode: Option<u8>, pays: &[Pay]) -> R<()> {
        self.not_paused()?;
        self.egld_usd()?;
        self.guard()?;
        self.pay_in(by, pays)?;
        if pays.is_empty() {
            deny!(Why::Args, "no payment");
        }
        let mut rest = pays;
        let mut acct: Option<u64> = None;
        if pays[0].token == ACC {
            self.active(pays[0].nonce)?;
            acct = Some(pays[0].nonce);
            rest = &pays[1..];
        } else if let Some(n) = arg {
            if n != 0 {
                self.active(n)?;
                acct = Some(n);
            }
        }
        if rest.is_empty() {
            deny!(Why::Args, "no collateral");
        }
        let first = self.ix(&rest[0].token)?;
        let iso = self.acfg(first)?.isolated;
        if iso && rest.len() != 1 {
            deny!(Why::Iso, "isolated asset in a bulk supply");
        }
        let (n, at) = match acct {
            Some(n) => (n, self.attr(n)?),
            None => self.new_account(by, if iso { Some(first) } else { None }, 1, emode.unwrap_or(0)),
        };
        let l: Vec<(Vec<u8>, U)> = rest.iter().map(|p| (p.token.clone(), p.amount.clone())).collect();
        self.deposit(n, &at, &l)
    }
    // ------------------------------------------------------------ administration
    fn set_tol(&mut self, asset: usize, first: u64, last: u64) -> R<()> {
        if !(50..=5_000).contains(&first) || !(150..=10_000).contains(&last) || last < first {
            deny!(Why::Config, "tolerance out of range");
        }
        let (u1, l1) = tol_bounds(first);
        let (u2, l2) = tol_bounds(last);
        let o = self.s.oracles[asset].as_mut().unwrap();
        (o.up1, o.lo1, o.up2, o.lo2) = (u1, l1, u2, l2);
        Ok(())
    }
    fn detach(&mut self, id: u8, i: usize) {
        self.s.emodes.get_mut(&id).unwrap().assets.remove(&i);
        self.s.asset_modes[i].remove(&id);
        if self.s.asset_modes[i].is_empty() {
            self.s.cfg[i].as_mut().unwrap().emode = false;
        }
    }
    fn config(&mut self, a: &Act) -> R<()> {
        self.owner(a.by())?;
        match a {
            Act::Pause { .. } => self.s.paused = true,
            Act::Unpause { .. } => self.s.paused = false,
            Act::Upgrade { .. } => self.s.paused = true,
            Act::UpgradePool { asset, .. } => {
                if self.s.pool_addr[*asset].is_none() {
                    deny!(Why::Unsupported, "no market");
                }
                if self.s.addrs[0] != self.w.template {
                    deny!(Why::Config, "template replaced");
                }
            }
            Act::PoolParams { asset, r, .. } => {
                let i = *asset;
                self.egld_usd()?;
                self.price0(i)?;
                self.sync(i);
                if r.max <= r.base {
                    deny!(Why::Config, "maximum rate not above base rate");
                }
                if r.opt <= r.mid || r.opt >= ray() {
                    deny!(Why::Config, "utilisation points");
                }
                if r.rf >= 10_000 {
                    deny!(Why::Config, "reserve factor");
                }
                let q = &mut self.s.pools[i];
                q.max = r.max.clone();
                q.base = r.base.clone();
                q.s1 = r.s1.clone();
                q.s2 = r.s2.clone();
                q.s3 = r.s3.clone();
                q.mid = r.mid.clone();
                q.opt = r.opt.clone();
                q.rf = U::from(r.rf);
            }
            Act::EditAsset { asset, p, .. } => {
                if !(p.ltv == 0 && p.thr == 0 || p.thr > p.ltv) {
                    deny!(Why::Config, "threshold not above loan-to-value");
                }
                let Some(old) = &self.s.cfg[*asset] else { return rej(Why::Unsupported, "no market") };
                let n = ACfg {
                    ltv: U::from(p.ltv),
                    thr: U::from(p.thr),
                    bonus: U::from(p.bonus),
                    fee: U::from(p.fee),
                    can_coll: p.can_coll,
                    can_borrow: p.can_borrow,
                    emode: old.emode,
                    isolated: p.isolated,
                    ceiling: p.ceiling.clone(),
                    siloed: p.siloed,
                    flash: p.flash,
                    flash_fee: U::from(p.flash_fee),
                    iso_borrow: p.iso_borrow,
                    borrow_cap: if p.borrow_cap.is_zero() { None } else { Some(p.borrow_cap.clone()) },
                    supply_cap: if p.supply_cap.is_zero() { None } else { Some(p.supply_cap.clone()) },
                };
                self.s.cfg[*asset] = Some(n);
            }
            Act::AddEMode { ltv, thr, bonus, .. } => {
                let last = self.s.emodes.keys().max().cloned().unwrap_or(0);
                if last == u8::MAX {
                    deny!(Why::Config, "no identifier left for another category");
                }
                let id = last + 1;
                self.s.emodes.insert(
                    id,
                    EMode { ltv: U::from(*ltv), thr: U::from(*thr), bonus: U::from(*bonus), deprecated: false, assets: BTreeMap::new() },
                );
            }
            Act::EditEMode { id, ltv, thr, bonus, deprecated, .. } => {
                let Some(e) = self.s.emodes.get_mut(id) else { return rej(Why::Config, "no such category") };
                e.ltv = U::from(*ltv);
                e.thr = U::from(*thr);
                e.bonus = U::from(*bonus);
                e.deprecated = *deprecated;
            }
            Act::RemoveEMode { id, .. } => {
                let Some(e) = self.s.emodes.get_mut(id) else { return rej(Why::Config, "no such category") };
                e.deprecated = true;
                let l: Vec<usize> = e.assets.keys().cloned().collect();
                for i in l {
                    self.detach(*id, i);
                }
            }
            Act::AssetEMode { asset, id, coll, borrow, edit, .. } => {
                if !self.s.emodes.contains_key(id) {
                    deny!(Why::Config, "no such category");
                }
                let has = self.s.emodes[id].assets.contains_key(asset);
                if has != *edit {
                    deny!(Why::Config, "category membership");
                }
                if self.s.pool_addr[*asset].is_none() {
                    deny!(Why::Unsupported, "no market");
                }
                self.s.emodes.get_mut(id).unwrap().assets.insert(*asset, (*coll, *borrow));
                self.s.asset_modes[*asset].insert(*id);
                self.s.cfg[*asset].as_mut().unwrap().emode = true;
            }
            Act::DropAssetEMode { asset, id, .. } => {
                if !self.s.emodes.get(id).map_or(false, |e| e.assets.contains_key(asset)) {
                    deny!(Why::Config, "not in the category");
                }
                self.detach(*id, *asset);
            }
            Act::Limits { borrow, supply, .. } => self.s.limits = (*borrow, *supply),
            Act::Tolerance { asset, first, last, .. } => self.set_tol(*asset, *first, *last)?,
            Act::SetAddr { which, addr, .. } => {
                if addr[..8] != [0u8; 8] || *addr == [0u8; 32] {
                    deny!(Why::Config, "not a contract address");
                }
                self.s.addrs[*which] = *addr;
            }
            Act::SetOracle { asset, .. } => {
                if self.s.oracles[*asset].is_some() {
                    deny!(Why::Config, "oracle exists");
                }
                deny!(Why::Config, "unsupported");
            }
            Act::CreatePool { asset, .. } => {
                if self.s.pool_addr[*asset].is_some() {
                    deny!(Why::Config, "market exists");
                }
                deny!(Why::Config, "unsupported");
            }
            _ => unreachable!(),
        }
        Ok(())
    }
}

pub fn is_builtin(ep: &str) -> bool {
    [
        "ESDTTransfer", "ESDTNFTTransfer", "MultiESDTNFTTransfer", "ESDTLocalMint", "ESDTLocalBurn", "ESDTNFTCreate",
        "ESDTNFTBurn", "ESDTNFTAddQuantity", "ESDTNFTAddURI", "ESDTNFTUpdateAttributes", "ClaimDeveloperRewards",
        "ChangeOwnerAddress", "SetUserName", "migrateUserName", "SaveKeyValue", "upgradeContract",
    ]
    .contains(&ep)
}

fn liq_bonus(hf: &U, target: &U, min: &U) -> R<U> {
    let max = ray() * 15u32 / 100u32;
    if min > &max {
        deny!(Why::Args, "base bonus above the maximum");
    }
    let gap = divr(&(target - hf), target);
    let term = mulr(&(ray() * 2u32), &gap);
    let term = umin(&term, &ray()).clone();
    Ok(min + mulr(&(max - min), &term))
}
fn sdiv(a: &BigInt, b: &BigInt) -> BigInt {
    let r = BigInt::from(ray());
    let n = a * r;
    let h: BigInt = b.abs() / 2;
    let q: BigInt = (n.abs() + h) / b.abs();
    if n.is_negative() != b.is_negative() && !n.is_zero() {
        -q
    } else {
        q
    }
}
/// (debt to repay, health factor afterwards)
fn liq_details(s: &Sums, prop: &U, bonus: &U, target: &U) -> (U, U) {
    let mult = ray() + bonus;
    let d_max = divr(&s.total, &mult);
    let den = mulr(prop, &mult);
    let d = if *target == den {
        d_max
    } else {
        let num = BigInt::from(mulr(target, &s.debt)) - BigInt::from(s.weighted.clone());
        let dd = BigInt::from(target.clone()) - BigInt::from(den);
        let ideal = sdiv(&num, &dd);
        if ideal.is_negative() {
            d_max
        } else {
            umin(&ideal.to_biguint().unwrap(), &d_max).clone()
        }
    };
    let d = umin(&d, &s.debt).clone();
    let sw = mulr(&mulr(prop, &d), &mult);
    let nw = sat_sub(&s.weighted, &sw);
    let nd = sat_sub(&s.debt, &d);
    let hf = if nd.is_zero() { ray() * 2u32 } else { divr(&nw, &nd) };
    (d, hf)
}
fn liq_estimate(s: &Sums, prop: &U, base: &U, hf: &U) -> R<(U, U)> {
    let t1 = ray() + ray() / 50u32;
    let b1 = liq_bonus(hf, &t1, base)?;
    let (d1, h1) = liq_details(s, prop, &b1, &t1);
    if h1 >= ray() {
        return Ok((d1, b1));
    }
    let t2 = ray() + ray() / 100u32;
    let b2 = liq_bonus(hf, &t2, base)?;
    let (d2, _) = liq_details(s, prop, &b2, &t2);
    let (_, hb) = liq_details(s, prop, base, &ray());
    if hb < ray() && &hb < hf {
        let full = divr(&s.total, &(ray() + base));
        return Ok((umin(&full, &s.debt).clone(), base.clone()));
    }
    Ok((d2, b2))
}
