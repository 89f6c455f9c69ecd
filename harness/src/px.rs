//! Independent price model: from what the workload made the sources say, to EGLD prices (wad).
use crate::num::*;
use crate::state::*;
use crate::world::*;
use num_traits::Zero;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum PErr {
    Unsafe,
    Stale,
    Missing,
    PairInactive,
    AggPaused,
    NoOracle,
    /// a source yields a price of zero
    Zero,
}

#[derive(Clone, Debug)]
pub struct Parts {
    pub agg: Option<U>,
    pub safe: Option<U>,
    pub price: U,
    pub w1: bool,
    pub w2: bool,
}

pub struct Px<'a> {
    pub f: &'a Feeds,
    pub s: &'a State,
    pub w: &'a World,
    pub allow_unsafe: bool,
}

fn is_egld(id: &[u8]) -> bool {
    World::ticker(id) == EGLD
}

impl<'a> Px<'a> {
    pub fn new(w: &'a World, s: &'a State, allow_unsafe: bool) -> Px<'a> {
        Px { f: &w.feeds, s, w, allow_unsafe }
    }
    fn orc(&self, id: &[u8]) -> Result<&'a OrS, PErr> {
        let ix = if is_egld(id) { Some(0) } else { self.w.asset_ix(id) };
        ix.and_then(|i| self.s.oracles[i].as_ref()).ok_or(PErr::NoOracle)
    }
    fn feed(&self, ticker: &[u8], stale: u64, allow: bool) -> Result<U, PErr> {
        if self.f.agg_paused {
            return Err(PErr::AggPaused);
        }
        let (p, ts) = self.f.agg.get(ticker).ok_or(PErr::Missing)?;
        if self.s.now - ts >= stale && !allow {
            return Err(PErr::Stale);
        }
        Ok(p.clone())
    }
    /// EGLD in USD; demanded fresh by every operation
    pub fn egld_usd(&self) -> Result<U, PErr> {
        let o = self.orc(EGLD)?;
        self.feed(EGLD, o.stale, false)
    }
    fn agg_egld(&self, id: &[u8], stale: u64) -> Result<U, PErr> {
        let p = self.feed(&World::ticker(id), stale, self.allow_unsafe)?;
        let e = self.egld_usd()?;
        if e.is_zero() {
            return Err(PErr::Zero);
        }
        Ok(rescale(&divr(&p, &e), 27, 18))
    }
    fn value(amount: &U, dec: u32, price: &U) -> U {
        rescale(&mulr(&rescale(amount, dec, 27), &rescale(price, 18, 27)), 27, 18)
    }
    fn within(a: &U, b: &U, up: &U, lo: &U) -> Result<bool, PErr> {
        if a.is_zero() {
            return Err(PErr::Zero);
        }
        let r = rescale(&divr(b, a), 27, 4);
        Ok(&r <= up && &r >= lo)
    }
    pub fn dec(&self, id: &[u8]) -> u32 {
        if is_egld(id) {
            18
        } else {
            self.orc(id).map(|o| o.dec).unwrap_or(18)
        }
    }
    pub fn price(&self, id: &[u8]) -> Result<U, PErr> {
        self.egld_usd()?;
        self.parts(id).map(|p| p.price)
    }
    fn safe(&self, o: &OrS, id: &[u8]) -> Result<U, PErr> {
        let st = self.f.pair_state.get(&o.contract).cloned().unwrap_or(0);
        if st != 1 && !self.allow_unsafe {
            return Err(PErr::PairInactive);
        }
        let (amt, out) = self.f.twap.get(id).ok_or(PErr::Missing)?;
        if is_egld(out) {
            Ok(amt.clone())
        } else {
            let q = self.parts(out)?.price;
            Ok(Px::value(amt, self.dec(out), &q))
        }
    }
    fn derived(&self, o: &OrS, id: &[u8], onchain: bool) -> Result<U, PErr> {
        let r = self.f.rate.get(&o.contract).cloned().ok_or(PErr::Missing)?;
        let _ = id;
        if o.src == 2 {
            let base = if onchain { self.parts(&o.base)?.price } else { self.agg_egld(&o.base, o.stale)? };
            Ok(Px::value(&r, o.dec, &base))
        } else {
            Ok(rescale(&r, o.dec, 18))
        }
    }
    pub fn lp_fair(r0: &U, d0: u32, r1: &U, d1: u32, supply: &U, sd: u32, pa: &U, pb: &U) -> Result<U, PErr> {
        let ts = rescale(supply, sd, 18);
        if pa.is_zero() || pb.is_zero() || ts.is_zero() {
            return Err(PErr::Zero);
        }
        let k = mulw(&rescale(r0, d0, 18), &rescale(r1, d1, 18));
        let x = mulw(&k, &divw(pb, pa)).sqrt() * p10(9);
        let y = mulw(&k, &divw(pa, pb)).sqrt() * p10(9);
        let v = mulw(&x, pa) + mulw(&y, pb);
        Ok(divw(&v, &ts))
    }
    pub fn parts(&self, id: &[u8]) -> Result<Parts, PErr> {
        if is_egld(id) {
            return Ok(Parts { agg: None, safe: None, price: wad(), w1: true, w2: true });
        }
        let o = self.orc(id)?;
        match o.ty {
            1 => {
                let agg = if o.method == 3 || o.method == 4 {
                    Some(self.agg_egld(id, o.stale)?)
                } else {
                    None
                };
                let safe = if o.method == 1 || o.method == 4 { Some(self.safe(o, id)?) } else { None };
                match (agg, safe) {
                    (Some(a), Some(s)) => {
                        let w1 = Px::within(&a, &s, &o.up1, &o.lo1)?;
                        let w2 = Px::within(&a, &s, &o.up2, &o.lo2)?;
                        let price = if w1 {
                            s.clone()
                        } else if w2 {
                            (&a + &s) / 2u32
                        } else if self.allow_unsafe {
                            s.clone()
                        } else {
                            return Err(PErr::Unsafe);
                        };
                        Ok(Parts { agg: Some(a), safe: Some(s), price, w1, w2 })
                    }
                    (Some(a), None) => Ok(Parts { agg: Some(a.clone()), safe: None, price: a, w1: true, w2: true }),
                    (None, Some(s)) => Ok(Parts { agg: None, safe: Some(s.clone()), price: s, w1: true, w2: true }),
                    _ => Err(PErr::NoOracle),
                }
            }
            2 => {
                let price = self.derived(o, id, true)?;
                let (w1, w2) = if o.src == 2 {
                    let b = self.parts(&o.base)?;
                    (b.w1, b.w2)
                } else {
                    (true, true)
                };
                Ok(Parts { agg: None, safe: None, price, w1, w2 })
            }
            _ => {
                let (r0, r1, ts) = self.f.reserves.get(&o.contract).cloned().ok_or(PErr::Missing)?;
                let (d0, d1) = (self.dec(&o.base), self.dec(&o.quote));
                let (p0, p1) = (self.parts(&o.base)?.price, self.parts(&o.quote)?.price);
                let on = Px::lp_fair(&r0, d0, &r1, d1, &ts, o.dec, &p0, &p1)?;
                let off = |t: &[u8]| -> Result<U, PErr> {
                    let oo = self.orc(t)?;
                    if oo.ty == 2 {
                        self.derived(oo, t, false)
                    } else {
                        self.agg_egld(t, oo.stale)
                    }
                };
                let (q0, q1) = (off(&o.base)?, off(&o.quote)?);
                let offp = Px::lp_fair(&r0, d0, &r1, d1, &ts, o.dec, &q0, &q1)?;
                let w1 = Px::within(&on, &offp, &o.up1, &o.lo1)?;
                let w2 = Px::within(&on, &offp, &o.up2, &o.lo2)?;
                let price = if w1 {
                    on.clone()
                } else if w2 || self.allow_unsafe {
                    (&on + &offp) / 2u32
                } else {
                    return Err(PErr::Unsafe);
                };
                Ok(Parts { agg: Some(offp), safe: Some(on), price, w1, w2 })
            }
        }
    }
}
