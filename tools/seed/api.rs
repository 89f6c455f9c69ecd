//! Shorthand for scripted histories on the deployed protocol.
use crate::codec::*;
use crate::num::*;
use crate::state::*;
use crate::vm::*;
use crate::world::*;

pub const EG: usize = 0;
pub const USDC: usize = 1;
pub const WBTC: usize = 2;
pub const XOX: usize = 3;
pub const XEGLD: usize = 4;
pub const LXOX: usize = 5;
pub const LP: usize = 6;
pub const SILO: usize = 7;
pub const ISOL: usize = 8;
pub const CAPD: usize = 9;
pub const LEGLD: usize = 10;
pub const MICE: usize = 11;

pub struct D {
    pub w: World,
}
pub type L<'a> = &'a [(usize, U)];

/// n hundredths of a token
pub fn cents(w: &World, i: usize, n: u64) -> U {
    U::from(n) * p10(w.assets[i].dec) / 100u32
}

impl D {
    pub fn new() -> D {
        std::panic::set_hook(Box::new(|i| {
            let m = i.to_string();
            if m.contains("src/main.rs") {
                eprintln!("{}", m);
            }
        }));
        D { w: World::new() }
    }
    pub fn st(&self) -> State {
        State::read(&self.w)
    }
    /// whole tokens
    pub fn t(&self, i: usize, n: u64) -> U {
        self.w.units(i, n)
    }
    pub fn c(&self, i: usize, n: u64) -> U {
        cents(&self.w, i, n)
    }
    pub fn pays(&self, l: L) -> Vec<Pay> {
        l.iter().map(|(i, a)| Pay::new(&self.w.tok(*i), a.clone())).collect()
    }
    pub fn call(&mut self, by: usize, f: &str, args: Vec<Vec<u8>>, pays: Vec<Pay>) -> TxOut {
        let (from, c) = (self.w.actors[by], self.w.controller);
        self.w.vm.call(&from, &c, f, args, &pays)
    }
    pub fn ask(&mut self, f: &str, args: Vec<Vec<u8>>) -> TxOut {
        let c = self.w.controller;
        self.w.vm.query(&c, f, args)
    }
    fn with(&self, acct: u64, l: L) -> Vec<Pay> {
        let mut v = vec![Pay::nft(ACC, acct)];
        v.extend(self.pays(l));
        v
    }
    /// opens an account and returns its number
    pub fn open(&mut self, by: usize, emode: Option<u64>, l: L) -> u64 {
        let o = self.try_open(by, emode, l);
        assert!(o.ok, "open: {}", o.msg);
        self.st().last_nonce
    }
    pub fn try_open(&mut self, by: usize, emode: Option<u64>, l: L) -> TxOut {
        let mut args = vec![];
        if let Some(e) = emode {
            args.push(en(0));
            args.push(en(e));
        }
        let p = self.pays(l);
        self.call(by, "supply", args, p)
    }
    pub fn top_up(&mut self, by: usize, acct: u64, l: L) -> TxOut {
        let p = self.with(acct, l);
        self.call(by, "supply", vec![], p)
    }
    /// somebody else's deposit for the account
    pub fn gift(&mut self, by: usize, acct: u64, l: L) -> TxOut {
        let p = self.pays(l);
        self.call(by, "supply", vec![en(acct)], p)
    }
    fn items(&self, l: L) -> Vec<Vec<u8>> {
        self.pays(l).iter().map(pay_struct).collect()
    }
    pub fn borrow(&mut self, by: usize, acct: u64, l: L) -> TxOut {
        let v = self.items(l);
        self.call(by, "borrow", v, vec![Pay::nft(ACC, acct)])
    }
    pub fn withdraw(&mut self, by: usize, acct: u64, l: L) -> TxOut {
        let v = self.items(l);
        self.call(by, "withdraw", v, vec![Pay::nft(ACC, acct)])
    }
    pub fn repay(&mut self, by: usize, acct: u64, l: L) -> TxOut {
        let p = self.pays(l);
        self.call(by, "repay", vec![en(acct)], p)
    }
    pub fn liquidate(&mut self, by: usize, acct: u64, l: L) -> TxOut {
        let p = self.pays(l);
        self.call(by, "liquidate", vec![en(acct)], p)
    }
    pub fn clean(&mut self, by: usize, acct: u64) -> TxOut {
        self.call(by, "cleanBadDebt", vec![en(acct)], vec![])
    }
    pub fn index(&mut self, l: &[usize]) -> TxOut {
        let v = l.iter().map(|i| self.w.tok(*i)).collect();
        self.call(0, "updateIndexes", v, vec![])
    }
    pub fn threshold(&mut self, by: usize, asset: usize, risks: bool, accts: &[u64]) -> TxOut {
        let mut v = vec![self.w.tok(asset), eb(risks)];
        v.extend(accts.iter().map(|a| en(*a)));
        self.call(by, "updateAccountThreshold", v, vec![])
    }
    pub fn claim(&mut self, l: &[usize]) -> TxOut {
        let v = l.iter().map(|i| self.w.tok(*i)).collect();
        self.call(0, "claimRevenue", v, vec![])
    }
    /// what the router sends back to the controller
    pub fn steps(&self, l: L) -> Vec<u8> {
        let mut v = vec![];
        for p in self.pays(l) {
            v.push(b"S".to_vec());
            v.push(ea(&self.w.controller));
            v.push(p.token.clone());
            v.push(en(p.nonce));
            v.push(eu(&p.amount));
        }
        argbuf(&v)
    }
    /// a flash loan whose receiver sends `back` to the pool
    pub fn flash(&mut self, by: usize, asset: usize, amount: U, back: L) -> TxOut {
        let mut v = vec![];
        for p in self.pays(back) {
            v.push(b"S".to_vec());
            v.push(ea(&self.w.pools[asset]));
            v.push(p.token.clone());
            v.push(en(p.nonce));
            v.push(eu(&p.amount));
        }
        let args = vec![self.w.tok(asset), eu(&amount), ea(&self.w.flash), b"flash".to_vec(), argbuf(&v)];
        self.call(by, "flashLoan", args, vec![])
    }
    /// leverage: a new account (or acct), initial payment, debt drawn, what the swap gives back
    #[allow(clippy::too_many_arguments)]
    pub fn multiply(&mut self, by: usize, acct: Option<u64>, pay: L, emode: u64, coll: usize, amount: U, debt: usize, mode: u64, out: L) -> TxOut {
        let p = match acct {
            Some(a) => self.with(a, pay),
            None => self.pays(pay),
        };
        let args = vec![en(emode), self.w.tok(coll), eu(&amount), self.w.tok(debt), en(mode), self.steps(out)];
        self.call(by, "multiply", args, p)
    }
    pub fn swap_debt(&mut self, by: usize, acct: u64, old: usize, amount: U, new: usize, out: L) -> TxOut {
        let args = vec![self.w.tok(old), eu(&amount), self.w.tok(new), self.steps(out)];
        self.call(by, "swapDebt", args, vec![Pay::nft(ACC, acct)])
    }
    pub fn swap_coll(&mut self, by: usize, acct: u64, cur: usize, amount: U, new: usize, out: L) -> TxOut {
        let args = vec![self.w.tok(cur), eu(&amount), self.w.tok(new), self.steps(out)];
        self.call(by, "swapCollateral", args, vec![Pay::nft(ACC, acct)])
    }
    pub fn repay_coll(&mut self, by: usize, acct: u64, from: usize, amount: U, to: usize, close: bool, out: Option<L>) -> TxOut {
        let mut args = vec![self.w.tok(from), eu(&amount), self.w.tok(to), eb(close)];
        if let Some(o) = out {
            args.push(self.steps(o));
        }
        self.call(by, "repayDebtWithCollateral", args, vec![Pay::nft(ACC, acct)])
    }
    pub fn edit(&mut self, i: usize, f: impl Fn(&mut AssetParams)) -> TxOut {
        let mut p = default_params(i);
        f(&mut p);
        let a = self.w.edit_asset_args(i, &p);
        self.w.owner_call("editAssetConfig", a)
    }
    /// fair dollar price in hundredths, published on every source
    pub fn price(&mut self, i: usize, cents: u64) {
        if i == EG {
            self.w.egld_usd = wd(cents, 100);
        }
        self.w.fair[i] = wd(cents, 100);
        self.w.publish_all();
    }
    pub fn forward(&mut self, secs: u64) {
        self.w.advance(secs);
        self.w.publish_all();
    }
    pub fn bal(&self, by: usize, i: usize) -> U {
        self.w.vm.balance(&self.w.actors[by], &self.w.assets[i].id)
    }
    pub fn pool_bal(&self, i: usize) -> U {
        self.w.vm.balance(&self.w.pools[i], &self.w.assets[i].id)
    }
    /// current amount of a position, rounded, at the stored indexes
    pub fn dep(&self, a: u64, i: usize) -> U {
        self.amount(a, DEP, i)
    }
    pub fn debt(&self, a: u64, i: usize) -> U {
        self.amount(a, BOR, i)
    }
    fn amount(&self, a: u64, k: u8, i: usize) -> U {
        let s = self.st();
        let Some(p) = s.pos.get(&(a, k, i)) else { return zero() };
        let q = &s.pools[i];
        let x = mulr(&p.scaled, if k == DEP { &q.sidx } else { &q.bidx });
        rescale(&x, 27, q.dec)
    }
    /// what a market owes its suppliers minus what backs it (should never exceed dust)
    pub fn hole(&self, i: usize) -> (U, U) {
        let q = &self.st().pools[i];
        let owed = rescale(&mulr(&q.supplied, &q.sidx), 27, q.dec);
        let backed = self.pool_bal(i) + rescale(&mulr(&q.borrowed, &q.bidx), 27, q.dec);
        (owed, backed)
    }
    pub fn hf(&mut self, a: u64) -> U {
        let o = self.ask("getHealthFactor", vec![en(a)]);
        assert!(o.ok, "health: {}", o.msg);
        top_dec(&o.values[0]).0
    }
    /// a decimal-valued view
    pub fn view(&mut self, f: &str, args: Vec<Vec<u8>>) -> U {
        let o = self.ask(f, args);
        assert!(o.ok, "{}: {}", f, o.msg);
        top_dec(&o.values[0]).0
    }
}

#[macro_export]
macro_rules! must {
    ($e:expr) => {{
        let o = $e;
        assert!(o.ok, "should work: {} ({})", stringify!($e), o.msg);
        o
    }};
}
#[macro_export]
macro_rules! refused {
    ($e:expr) => {{
        let o = $e;
        assert!(!o.ok, "should be refused: {}", stringify!($e));
        o
    }};
}
/// within k smallest units
pub fn near(a: &U, b: &U, k: u64) -> bool {
    absdiff(a, b) <= U::from(k)
}
