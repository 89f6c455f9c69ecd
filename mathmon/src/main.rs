//! P26: the shared fixed-point arithmetic and interest formulas, run in the VM and compared with exact rationals.
mod calc;
#[allow(dead_code)]
#[path = "../../harness/src/vm.rs"]
mod vm;

use num_bigint::{BigInt, BigUint as U, Sign};
use num_integer::Integer;
use num_traits::{One, Zero};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::time::Instant;
use multiversx_sc::contract_base::CallableContractBuilder;
use vm::*;

const ME: Addr = [7u8; 32];
fn at() -> Addr {
    let mut a = [0u8; 32];
    a[8..14].copy_from_slice(b"\0\0calc");
    a[10] = 5;
    a
}
fn p10(n: u32) -> U {
    U::from(10u32).pow(n)
}
fn ray() -> U {
    p10(27)
}
const MS_YEAR: u64 = 31_556_926_000;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    fn pick<'a, T>(&mut self, l: &'a [T]) -> &'a T {
        &l[self.below(l.len() as u64) as usize]
    }
    fn bits(&mut self, n: u64) -> U {
        let mut v = U::zero();
        for _ in 0..n / 64 + 1 {
            v = (v << 64) + U::from(self.next());
        }
        v % (U::one() << n)
    }
    /// numbers of every size, many of them round or next to round
    fn num(&mut self, most: u64) -> U {
        let n = self.below(most + 1);
        let v = match self.below(10) {
            0 => U::zero(),
            1 => U::from(self.below(12)),
            2 | 3 => {
                let k = self.below(most * 3 / 10 + 1) as u32;
                p10(k) * (1 + self.below(20))
            }
            4 => {
                let k = self.below(most * 3 / 10 + 1) as u32;
                p10(k) * (1 + self.below(20)) / 2u32
            }
            _ => self.bits(n),
        };
        match self.below(12) {
            0 => v + 1u32,
            1 if !v.is_zero() => v - 1u32,
            _ => v,
        }
    }
    fn scale(&mut self, most: u32) -> u32 {
        let l = [0, 2, 4, 6, 8, 9, 18, 27];
        let x = if self.below(3) > 0 { *self.pick(&l) } else { self.below(28) as u32 };
        x.min(most)
    }
}

#[derive(Clone, Debug)]
struct Q {
    max: U,
    base: U,
    s1: U,
    s2: U,
    s3: U,
    mid: U,
    opt: U,
    rf: u64,
}
#[derive(Clone, Debug)]
enum Op {
    Mul(U, u32, U, u32, u32),
    Div(U, u32, U, u32, u32),
    SMul(BigInt, u32, BigInt, u32, u32),
    SDiv(BigInt, u32, BigInt, u32, u32),
    Rescale(U, u32, u32),
    Min(U, u32, U, u32),
    Max(U, u32, U, u32),
    Rate(U, Q),
    Deposit(U, U, u64),
    Factor(U, u64),
    BIndex(U, U),
    SIndex(U, U, U),
    Split(U, U, U, Q),
    Util(U, U),
    Orig(U, U, u32),
    Sim(u64, u64, U, U, U, U, Q),
}

fn nested(b: &[u8]) -> Vec<u8> {
    let mut r = (b.len() as u32).to_be_bytes().to_vec();
    r.extend_from_slice(b);
    r
}
fn d(v: &U, s: u32) -> Vec<u8> {
    let mut r = if v.is_zero() { nested(&[]) } else { nested(&v.to_bytes_be()) };
    r.extend(s.to_be_bytes());
    r
}
fn s(v: &BigInt, sc: u32) -> Vec<u8> {
    let mut r = if v.is_zero() { nested(&[]) } else { nested(&v.to_signed_bytes_be()) };
    r.extend(sc.to_be_bytes());
    r
}
fn q(x: &Q) -> Vec<u8> {
    let mut r = vec![];
    for v in [&x.max, &x.base, &x.s1, &x.s2, &x.s3, &x.mid, &x.opt] {
        r.extend(d(v, 27));
    }
    r.extend(d(&U::from(x.rf), 4));
    r
}
fn enc(o: &Op) -> Vec<u8> {
    let w = |n: u32, l: Vec<Vec<u8>>| {
        let mut r = n.to_be_bytes().to_vec();
        for x in l {
            r.extend(x);
        }
        r
    };
    let n = |p: &u32| p.to_be_bytes().to_vec();
    let t = |p: &u64| p.to_be_bytes().to_vec();
    match o {
        Op::Mul(a, x, b, y, p) => w(0, vec![d(a, *x), d(b, *y), n(p)]),
        Op::Div(a, x, b, y, p) => w(1, vec![d(a, *x), d(b, *y), n(p)]),
        Op::SMul(a, x, b, y, p) => w(2, vec![s(a, *x), s(b, *y), n(p)]),
        Op::SDiv(a, x, b, y, p) => w(3, vec![s(a, *x), s(b, *y), n(p)]),
        Op::Rescale(a, x, p) => w(4, vec![d(a, *x), n(p)]),
        Op::Min(a, x, b, y) => w(5, vec![d(a, *x), d(b, *y)]),
        Op::Max(a, x, b, y) => w(6, vec![d(a, *x), d(b, *y)]),
        Op::Rate(u, k) => w(7, vec![d(u, 27), q(k)]),
        Op::Deposit(u, r, f) => w(8, vec![d(u, 27), d(r, 27), d(&U::from(*f), 4)]),
        Op::Factor(r, k) => w(9, vec![d(r, 27), t(k)]),
        Op::BIndex(a, b) => w(10, vec![d(a, 27), d(b, 27)]),
        Op::SIndex(a, b, c) => w(11, vec![d(a, 27), d(b, 27), d(c, 27)]),
        Op::Split(a, b, c, k) => w(12, vec![d(a, 27), d(b, 27), d(c, 27), q(k)]),
        Op::Util(a, b) => w(13, vec![d(a, 27), d(b, 27)]),
        Op::Orig(a, b, p) => w(14, vec![d(a, 27), d(b, 27), n(p)]),
        Op::Sim(x, y, a, b, c, e, k) => w(15, vec![t(x), t(y), d(a, 27), d(b, 27), d(c, 27), d(e, 27), q(k)]),
    }
}
fn name(o: &Op) -> &'static str {
    match o {
        Op::Mul(..) => "multiply",
        Op::Div(..) => "divide",
        Op::SMul(..) => "multiply signed",
        Op::SDiv(..) => "divide signed",
        Op::Rescale(..) => "change precision",
        Op::Min(..) => "smaller",
        Op::Max(..) => "larger",
        Op::Rate(..) => "borrow rate",
        Op::Deposit(..) => "deposit rate",
        Op::Factor(..) => "interest factor",
        Op::BIndex(..) => "borrow index",
        Op::SIndex(..) => "supply index",
        Op::Split(..) => "interest split",
        Op::Util(..) => "utilisation",
        Op::Orig(..) => "scaled to original",
        Op::Sim(..) => "index update",
    }
}

/// exact fraction
#[derive(Clone, Debug)]
struct F(BigInt, BigInt);
fn fi(x: &U) -> F {
    F(BigInt::from(x.clone()), BigInt::one())
}
impl F {
    fn add(&self, o: &F) -> F {
        F(&self.0 * &o.1 + &o.0 * &self.1, &self.1 * &o.1)
    }
    fn sub(&self, o: &F) -> F {
        F(&self.0 * &o.1 - &o.0 * &self.1, &self.1 * &o.1)
    }
    fn mul(&self, o: &F) -> F {
        F(&self.0 * &o.0, &self.1 * &o.1)
    }
    fn div(&self, o: &F) -> F {
        F(&self.0 * &o.1, &self.1 * &o.0)
    }
    fn le(&self, o: &F) -> bool {
        &self.0 * &o.1 <= &o.0 * &self.1
    }
    fn abs(&self) -> F {
        F(self.0.magnitude().clone().into(), self.1.clone())
    }
    fn near(&self, o: &F, tol: &F) -> bool {
        self.sub(o).abs().le(tol)
    }
    fn show(&self) -> String {
        let k: BigInt = p10(4).into();
        let v = (&self.0 * &k).div_floor(&self.1);
        format!("{}.{:04}", v.div_floor(&k), v.mod_floor(&k))
    }
}
fn fu(n: u64, m: u64) -> F {
    F(n.into(), m.into())
}
/// half away from zero
fn round(n: &BigInt, m: &BigInt) -> BigInt {
    let neg = (n.sign() == Sign::Minus) != (m.sign() == Sign::Minus) && !n.is_zero();
    let (n, m) = (n.magnitude(), m.magnitude());
    let r: U = (n * 2u32 + m) / (m * 2u32);
    if neg {
        -BigInt::from(r)
    } else {
        r.into()
    }
}
fn half(n: &BigInt, m: &BigInt) -> bool {
    let (n, m) = (n.magnitude(), m.magnitude());
    (n * 2u32 + m) % (m * 2u32) == U::zero()
}

/// annual borrow rate in ray, exact
fn curve(u: &U, k: &Q) -> F {
    let r = if u < &k.mid {
        fi(&k.base).add(&fi(&(u * &k.s1)).div(&fi(&k.mid)))
    } else if u < &k.opt {
        fi(&k.base).add(&fi(&k.s1)).add(&fi(&((u - &k.mid) * &k.s2)).div(&fi(&(&k.opt - &k.mid))))
    } else {
        fi(&k.base).add(&fi(&k.s1)).add(&fi(&k.s2)).add(&fi(&((u - &k.opt) * &k.s3)).div(&fi(&(ray() - &k.opt))))
    };
    if fi(&k.max).le(&r) {
        fi(&k.max)
    } else {
        r
    }
}
/// five-term series of e^(x/ray), in ray; the argument in ray
fn series(x: &F) -> F {
    let r = fi(&ray());
    let y = x.div(&r);
    let mut t = fu(1, 1);
    let mut s = fu(1, 1);
    for k in 1..=5u64 {
        t = t.mul(&y).mul(&fu(1, k));
        s = s.add(&t);
    }
    s.mul(&r)
}
/// what an error of one in the rate per millisecond does to the factor, and some units more
fn slack(f: &F, dt: u64) -> F {
    f.div(&fi(&ray())).mul(&fu(dt + 4, 1)).add(&fu(8, 1))
}

type Got = Vec<(BigInt, u32)>;

/// None when the results are right; the second value says what was special about the case
fn judge(o: &Op, got: &Got) -> (Option<String>, String) {
    let mut sig = String::new();
    let mut err: Option<String> = None;
    let mut ck = |ok: bool, want: String| {
        if !ok && err.is_none() {
            err = Some(want);
        }
    };
    let g = |k: usize| F(got[k].0.clone(), BigInt::one());
    let r = fi(&ray());
    let want_scale = match o {
        Op::Mul(.., p) | Op::Div(.., p) | Op::SMul(.., p) | Op::SDiv(.., p) | Op::Rescale(.., p) | Op::Orig(.., p) => Some(*p),
        Op::Min(..) | Op::Max(..) => None,
        _ => Some(27),
    };
    if let Some(p) = want_scale {
        ck(got[0].1 == p, format!("a result with {} decimals", p));
    }
    let sc = |v: &BigInt, s: u32, p: u32| v * BigInt::from(p10(p - s));
    match o {
        Op::Mul(a, x, b, y, p) => {
            let n = sc(&a.clone().into(), *x, *p) * sc(&b.clone().into(), *y, *p);
            let m: BigInt = p10(*p).into();
            sig = format!("{}x{}->{}{}", x, y, p, if half(&n, &m) { " half" } else { "" });
            let w = round(&n, &m);
            ck(got[0].0 == w, w.to_string());
        }
        Op::Div(a, x, b, y, p) => {
            let n = sc(&a.clone().into(), *x, *p) * BigInt::from(p10(*p));
            let m = sc(&b.clone().into(), *y, *p);
            sig = format!("{}/{}->{}{}", x, y, p, if half(&n, &m) { " half" } else { "" });
            let w = round(&n, &m);
            ck(got[0].0 == w, w.to_string());
        }
        Op::SMul(a, x, b, y, p) => {
            let n = sc(a, *x, *p) * sc(b, *y, *p);
            let m: BigInt = p10(*p).into();
            sig = format!("{:?}{:?} {}x{}->{}{}", a.sign(), b.sign(), x, y, p, if half(&n, &m) { " half" } else { "" });
            let w = round(&n, &m);
            ck(got[0].0 == w, w.to_string());
        }
        Op::SDiv(a, x, b, y, p) => {
            let n = sc(a, *x, *p) * BigInt::from(p10(*p));
            let m = sc(b, *y, *p);
            sig = format!("{:?}{:?} {}/{}->{}{}", a.sign(), b.sign(), x, y, p, if half(&n, &m) { " half" } else { "" });
            let w = round(&n, &m);
            ck(got[0].0 == w, w.to_string());
        }
        Op::Rescale(a, x, p) => {
            let n: BigInt = (a * p10(*p)).into();
            let m: BigInt = p10(*x).into();
            sig = format!("{}->{}{}", x, p, if half(&n, &m) { " half" } else { "" });
            let w = round(&n, &m);
            ck(got[0].0 == w, w.to_string());
        }
        Op::Min(a, x, b, y) | Op::Max(a, x, b, y) => {
            let fa = fi(a).div(&fi(&p10(*x)));
            let fb = fi(b).div(&fi(&p10(*y)));
            let small = matches!(o, Op::Min(..));
            let w = if fa.le(&fb) == small { fa.clone() } else { fb.clone() };
            let v = g(0).div(&fi(&p10(got[0].1)));
            sig = format!("{} {} {}", x, y, if fa.le(&fb) { if fb.le(&fa) { "same" } else { "first" } } else { "second" });
            ck(v.le(&w) && w.le(&v), w.show());
        }
        Op::Rate(u, k) => {
            let c = curve(u, k);
            let w = c.div(&fu(MS_YEAR, 1));
            let reg = if u < &k.mid { 1 } else if u < &k.opt { 2 } else { 3 };
            sig = format!(
                "region {}{}{}",
                reg,
                if fi(&k.max).le(&c) { " capped" } else { "" },
                if u == &k.mid || u == &k.opt { " at a kink" } else if u > &ray() { " above full" } else { "" }
            );
            ck(g(0).near(&w, &fu(1, 1)), w.show());
        }
        Op::Deposit(u, x, f) => {
            let w = fi(u).mul(&fi(x)).div(&r).mul(&fu(10_000 - f, 10_000));
            sig = format!("{}{}", if u.is_zero() { "nothing borrowed" } else { "" }, if *f == 0 { " no fee" } else { "" });
            ck(g(0).near(&w, &fu(2, 1)), w.show());
        }
        Op::Factor(x, t) => {
            let e = fi(x).mul(&fu(*t, 1));
            let w = series(&e);
            sig = format!("x ~2^{} ms ~2^{}", (x * *t).bits() / 4, 64 - t.leading_zeros());
            ck(g(0).near(&w, &w.div(&r).mul(&fu(4, 1)).add(&fu(8, 1))), w.show());
            ck(r.add(&e).le(&g(0).add(&fu(1, 1))), "no less than simple interest".into());
            if *t == 0 {
                ck(got[0].0 == ray().into(), "exactly one for no time".into());
            }
        }
        Op::BIndex(a, b) => {
            let w = round(&(a * b).into(), &ray().into());
            ck(got[0].0 == w, w.to_string());
            ck(got[1] == (a.clone().into(), 27), format!("the old index {}", a));
        }
        Op::SIndex(n, i, w) => {
            let i_ = BigInt::from(i.clone());
            let total = fi(n).mul(&fi(i)).div(&r);
            if n.is_zero() || w.is_zero() || fi(&(n * i * 2u32)).le(&fi(&(ray() - 1u32))) {
                sig = "nothing to share".into();
                ck(got[0].0 == i_, i.to_string());
            } else {
                // claims and ratio are rounded once each
                let up = fi(w).mul(&r).div(&total);
                let tr = fi(&(n * i)).div(&r);
                let lo = fi(w).mul(&r).div(&tr.add(&fu(1, 2))).sub(&fu(1, 1));
                let hi = fi(w).mul(&r).div(&if fu(1, 1).le(&tr) { tr.sub(&fu(1, 2)) } else { fu(1, 1) }).add(&fu(1, 1));
                sig = format!("claims ~2^{} rewards ~2^{}", (n * i / ray()).bits() / 8, w.bits() / 8);
                let grow = g(0).sub(&fi(i)).mul(&r).div(&fi(i).add(&F(BigInt::from(i.is_zero() as u8), BigInt::one())));
                let grain = r.div(&fi(&(i + 1u32))).add(&fu(1, 1));
                ck(lo.sub(&grain).le(&grow) && grow.le(&hi.add(&grain)), format!("growth by {}", up.show()));
                ck(got[0].0 >= i_, "an index that does not fall".into());
            }
        }
        Op::Split(b, new, old, k) => {
            let w = fi(b).mul(&fi(&(new - old))).div(&r);
            sig = format!("interest ~2^{} fee {}", (b * (new - old) / ray()).bits() / 8, if k.rf == 0 { "none" } else { "some" });
            let sum = g(0).add(&g(1));
            ck(sum.near(&w, &fu(1, 1)), format!("shares that add up to {}", w.show()));
            ck(g(1).near(&sum.mul(&fu(k.rf, 10_000)), &fu(1, 1)), format!("a fee of {}", sum.mul(&fu(k.rf, 10_000)).show()));
            ck(got[1].1 == 27, "27 decimals".into());
        }
        Op::Util(b, n) => {
            let w = if n.is_zero() { BigInt::zero() } else { round(&(b * ray()).into(), &n.clone().into()) };
            sig = if n.is_zero() { "nothing supplied".into() } else { format!("~2^{}", w.bits() / 4) };
            ck(got[0].0 == w, w.to_string());
        }
        Op::Orig(a, i, p) => {
            let w = fi(&(a * i)).div(&r);
            ck(got[1] == (round(&w.0, &w.1), 27), round(&w.0, &w.1).to_string());
            let m = fi(&p10(27 - p));
            sig = format!("{} decimals", p);
            ck(g(0).near(&w.div(&m), &fu(1, 2).add(&fu(1, 1).div(&m))), w.div(&m).show());
        }
        Op::Sim(now, last, b, bi, n, si, k) => {
            if now == last {
                sig = "no time".into();
                ck(got[0].0 == BigInt::from(bi.clone()) && got[1].0 == BigInt::from(si.clone()), format!("{} and {}", bi, si));
                return (err, sig);
            }
            let dt = now - last;
            let debt = fi(&(b * bi)).div(&r);
            let claims = fi(&(n * si)).div(&r);
            let uti = if round(&claims.0, &claims.1).is_zero() {
                U::zero()
            } else {
                let dn = round(&debt.0, &debt.1);
                let cn = round(&claims.0, &claims.1);
                round(&(dn * BigInt::from(ray())), &cn).magnitude().clone()
            };
            let rate = curve(&uti, k).div(&fu(MS_YEAR, 1));
            let f = series(&rate.mul(&fu(dt, 1)));
            let wb = fi(bi).mul(&f).div(&r);
            let tol = slack(&f, dt).mul(&fi(bi)).div(&r).add(&fu(2, 1));
            ck(g(0).near(&wb, &tol), format!("borrow index {}", wb.show()));
            ck(got[0].1 == 27 && got[1].1 == 27, "27 decimals".into());
            ck(got[0].0 >= bi.clone().into() && got[1].0 >= si.clone().into(), "indexes that do not fall".into());
            // interest of this very borrow index
            let interest = fi(b).mul(&g(0).sub(&fi(bi))).div(&r);
            let share = interest.mul(&fu(10_000 - k.rf, 10_000));
            if round(&claims.0, &claims.1).is_zero() || n.is_zero() {
                sig = "nothing supplied".into();
                ck(got[1].0 == si.clone().into(), si.to_string());
            } else {
                let gain = fi(n).mul(&g(1).sub(&fi(si))).div(&r);
                // one unit of the index is worth n/ray, one unit of the ratio is worth all claims/ray
                let grain = fi(n).div(&r).add(&claims.div(&r)).add(&fu(3, 1)).add(&share.div(&if fu(1, 1).le(&claims) { claims.clone() } else { fu(1, 1) }));
                sig = format!("use ~{}% years ~2^{}", (&uti * 10u32 / ray()) * 10u32, 64 - (dt / 86_400_000).leading_zeros());
                ck(gain.near(&share, &grain), format!("suppliers gaining {}", share.show()));
            }
        }
    }
    (err, sig)
}

fn sgn(r: &mut Rng, v: U) -> BigInt {
    if r.below(2) == 0 {
        v.into()
    } else {
        -BigInt::from(v)
    }
}
fn params(r: &mut Rng) -> Q {
    let bp = |n: u64| ray() * n / 10_000u32;
    let (b, x, y, z) = (r.below(2_000), r.below(5_000), r.below(10_000), r.below(60_000));
    let mid = 1 + r.below(9_998);
    let opt = mid + 1 + r.below(9_999 - mid);
    let mut k = Q { max: bp(b + 1 + r.below(60_000)), base: bp(b), s1: bp(x), s2: bp(y), s3: bp(z), mid: bp(mid), opt: bp(opt), rf: r.below(10_000) };
    match r.below(12) {
        0 => k.mid = U::one(),
        1 => k.opt = ray() - 1u32,
        2 => k.opt = &k.mid + 1u32,
        3 => {
            k.s1 = U::zero();
            k.base = U::zero();
        }
        4 => k.rf = *r.pick(&[0, 1, 9_999]),
        5 => {
            k.s1 = r.bits(90) % ray();
            k.s2 = r.bits(90) % ray();
            k.s3 = r.bits(95);
            k.max = &k.base + r.bits(92) + 1u32;
        }
        _ => {}
    }
    k
}
fn used(r: &mut Rng, k: &Q) -> U {
    let v = match r.below(10) {
        0 => U::zero(),
        1 => k.mid.clone(),
        2 => k.opt.clone(),
        3 => ray(),
        4 => r.bits(90) % &k.mid,
        5 => &k.mid + r.bits(90) % (&k.opt - &k.mid),
        6 => &k.opt + r.bits(90) % (ray() - &k.opt),
        7 => ray() + r.bits(88),
        _ => r.bits(90) % (ray() + 1u32),
    };
    match r.below(6) {
        0 => v + 1u32,
        1 if !v.is_zero() => v - 1u32,
        _ => v,
    }
}
fn index(r: &mut Rng) -> U {
    match r.below(8) {
        0 => ray(),
        1 => ray() + r.bits(20),
        2 => ray() * (1 + r.below(1_000)),
        _ => ray() + r.bits(92),
    }
}
fn time(r: &mut Rng) -> u64 {
    match r.below(9) {
        0 => 0,
        1 => 1,
        2 => r.below(1_000),
        3 => 6_000,
        4 => r.below(86_400_000),
        5 => MS_YEAR,
        6 => r.below(10) * MS_YEAR,
        _ => r.below(MS_YEAR),
    }
}
fn make(r: &mut Rng) -> Op {
    // operands whose exact result lies on or next to a half come up often
    match r.below(20) {
        0 | 1 => {
            let p = r.scale(27);
            let (x, y) = (r.scale(p), r.scale(p));
            if r.below(3) == 0 && p > 0 {
                // a odd, b a half of one
                let b = p10(p) / 2u32;
                let a = r.num(100) * 2u32 + 1u32;
                let a = if r.below(3) == 0 { a + 1u32 } else { a };
                let b = match r.below(4) {
                    0 => b + 1u32,
                    1 => b - 1u32,
                    _ => b,
                };
                return if r.below(2) == 0 { Op::Mul(a, p, b, p, p) } else { Op::Mul(b, p, a, p, p) };
            }
            Op::Mul(r.num(160), x, r.num(160), y, p)
        }
        2 | 3 => {
            let p = r.scale(27);
            let (x, y) = (r.scale(p), r.scale(p));
            let mut b = r.num(140);
            if b.is_zero() {
                b = U::one();
            }
            if r.below(3) == 0 && p > 0 {
                // quotient at k + 1/2 of the last place: a = (2k+1) * b / (2 * 10^p)
                let m = p10(p) * 2u32;
                let k = r.num(60) * 2u32 + 1u32;
                let b2 = &m * (1 + r.below(1_000_000));
                let a = &k * &b2 / &m;
                let a = match r.below(4) {
                    0 => a + 1u32,
                    1 if !a.is_zero() => a - 1u32,
                    _ => a,
                };
                return Op::Div(a, p, b2, p, p);
            }
            Op::Div(r.num(160), x, b, y, p)
        }
        4 => {
            let p = r.scale(27);
            let (x, y) = (r.scale(p), r.scale(p));
            let (mut a, mut b) = (r.num(140), r.num(140));
            let (mut x, mut y) = (x, y);
            if r.below(2) == 0 && p > 0 {
                a = r.num(90) * 2u32 + 1u32;
                b = p10(p) / 2u32;
                b = match r.below(4) {
                    0 => b + 1u32,
                    1 => b - 1u32,
                    _ => b,
                };
                x = p;
                y = p;
            }
            let (a, b) = (sgn(r, a), sgn(r, b));
            Op::SMul(a, x, b, y, p)
        }
        5 => {
            let p = r.scale(27);
            let (x, y) = (r.scale(p), r.scale(p));
            let a = r.num(140);
            let mut b = r.num(140);
            if b.is_zero() {
                b = U::from(3u32);
            }
            if r.below(2) == 0 && p > 0 {
                let m = p10(p) * 2u32;
                let k = r.num(60) * 2u32 + 1u32;
                let b2 = &m * (1 + r.below(1_000_000));
                let a2 = &k * &b2 / &m;
                let a2 = match r.below(4) {
                    0 => a2 + 1u32,
                    1 if !a2.is_zero() => a2 - 1u32,
                    _ => a2,
                };
                let (a, b) = (sgn(r, a2), sgn(r, b2));
                return Op::SDiv(a, p, b, p, p);
            }
            let (a, b) = (sgn(r, a), sgn(r, b));
            Op::SDiv(a, x, b, y, p)
        }
        6 => {
            let (x, p) = (r.scale(27), r.scale(27));
            let a = r.num(160);
            if r.below(2) == 0 && x > p {
                let f = p10(x - p);
                let h = &f / 2u32;
                let v = &a * &f + h;
                return Op::Rescale(
                    match r.below(3) {
                        0 => v - 1u32,
                        1 => v + 1u32,
                        _ => v,
                    },
                    x,
                    p,
                );
            }
            Op::Rescale(a, x, p)
        }
        7 => {
            let x = r.scale(27);
            let a = r.num(120);
            let b = match r.below(4) {
                0 => a.clone(),
                1 => &a + 1u32,
                _ => r.num(120),
            };
            if r.below(2) == 0 {
                Op::Min(a, x, b, x)
            } else {
                Op::Max(a, x, b, x)
            }
        }
        8 | 9 | 10 => {
            let k = params(r);
            Op::Rate(used(r, &k), k)
        }
        11 => {
            let k = params(r);
            let u = used(r, &k);
            let x = r.num(70);
            Op::Deposit(u, x, k.rf)
        }
        12 | 13 => {
            // up to 600 % a year
            let a = r.bits(93) % (ray() * 6u32) / MS_YEAR;
            let t = time(r);
            let a = if r.below(10) == 0 { U::zero() } else { a };
            Op::Factor(a, t)
        }
        14 => Op::BIndex(index(r), ray() + r.num(90)),
        15 => {
            let i = if r.below(4) == 0 { r.num(95) } else { index(r) };
            Op::SIndex(r.num(150), i, r.num(130))
        }
        16 => {
            let old = index(r);
            let new = &old + r.num(92);
            Op::Split(r.num(150), new, old, params(r))
        }
        17 => Op::Util(r.num(150), r.num(150)),
        18 => Op::Orig(r.num(150), if r.below(4) == 0 { r.num(95) } else { index(r) }, r.scale(27)),
        _ => {
            let k = params(r);
            let last = r.below(1 << 41);
            let t = time(r);
            let n = r.num(140);
            let b = match r.below(5) {
                0 => U::zero(),
                1 => r.num(140),
                _ => &n * r.below(10_001) / 10_000u32,
            };
            let si = if r.below(8) == 0 { r.num(90) } else { index(r) };
            // at most a hundred times the claims: beyond that rates are no longer meaningful
            let bi = index(r);
            Op::Sim(last + t, last, b, bi, n, si, k)
        }
    }
}

struct Seen {
    evals: u64,
    calls: u64,
    counts: BTreeMap<String, u64>,
    sigs: BTreeSet<String>,
    samples: Vec<String>,
    bad: Vec<Value>,
}

fn read(b: &[u8], signed: bool) -> Got {
    let mut v = vec![];
    let mut i = 0;
    let u32_ = |i: usize| if i + 4 <= b.len() { u32::from_be_bytes(b[i..i + 4].try_into().unwrap()) } else { 0 };
    while i < b.len() {
        let n = u32_(i) as usize;
        i += 4;
        let e = (i + n).min(b.len());
        let x = if signed { BigInt::from_signed_bytes_be(&b[i..e]) } else { BigInt::from(U::from_bytes_be(&b[i..e])) };
        i = e;
        v.push((x, u32_(i)));
        i += 4;
    }
    while v.len() < 2 {
        v.push((BigInt::zero(), u32::MAX));
    }
    v
}
fn world() -> Vm {
    let mut vm = Vm::new();
    vm.register(b"calc", calc::ContractBuilder.new_contract_obj::<Api>());
    vm.add_user(&ME);
    vm.put_account(&at(), Some(b"calc"), Some(&ME));
    vm
}
fn batch(vm: &mut Vm, ops: &[Op], sn: &mut Seen) {
    sn.calls += 1;
    let o = vm.call(&ME, &at(), "run", ops.iter().map(enc).collect(), &[]);
    if !o.ok {
        if ops.len() == 1 {
            sn.bad.push(json!({"operation": name(&ops[0]), "arguments": format!("{:?}", ops[0]), "hex": hex(&enc(&ops[0])), "what": format!("refused: {}", o.msg)}));
            return;
        }
        for x in ops {
            batch(vm, std::slice::from_ref(x), sn);
        }
        return;
    }
    for (k, x) in ops.iter().enumerate() {
        let signed = matches!(x, Op::SMul(..) | Op::SDiv(..));
        let none = vec![];
        let got = read(o.values.get(k).unwrap_or(&none), signed);
        let (e, sig) = judge(x, &got);
        sn.evals += 1;
        *sn.counts.entry(name(x).to_string()).or_insert(0) += 1;
        if sig.contains("half") {
            *sn.counts.entry(format!("{}: exact result on a half", name(x))).or_insert(0) += 1;
        }
        let full = format!("{} {}", name(x), sig);
        if !sig.is_empty() && sn.sigs.insert(full) && sn.samples.len() < 12 && sn.evals % 97 == 0 {
            sn.samples.push(format!("{:?} -> {}", x, got[0].0));
        }
        if let Some(w) = e {
            if sn.bad.len() < 5 {
                let shown: Vec<String> = got.iter().filter(|g| g.1 != u32::MAX).map(|g| format!("{} ({} decimals)", g.0, g.1)).collect();
                sn.bad.push(json!({"operation": name(x), "arguments": format!("{:?}", x), "hex": hex(&enc(x)), "what": format!("{}: got {}, exact arithmetic gives {}", name(x), shown.join(" and "), w)}));
            }
        }
    }
}
/// calls that must be refused
fn refusals(vm: &mut Vm, r: &mut Rng, sn: &mut Seen) {
    let p = r.scale(27);
    let o = match r.below(2) {
        0 => Op::Div(r.num(100), r.scale(p), U::zero(), r.scale(p), p),
        _ => {
            let a = r.num(100);
            Op::SDiv(sgn(r, a), r.scale(p), BigInt::zero(), r.scale(p), p)
        }
    };
    let x = vm.call(&ME, &at(), "run", vec![enc(&o)], &[]);
    sn.calls += 1;
    sn.evals += 1;
    *sn.counts.entry("division by zero refused".to_string()).or_insert(0) += 1;
    if x.ok {
        sn.bad.push(json!({"operation": name(&o), "arguments": format!("{:?}", o), "hex": hex(&enc(&o)), "what": "a division by zero was answered"}));
    }
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()).unwrap_or(d.to_string());
    if a.get(1).map(|x| x == "replay").unwrap_or(false) {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
        for b in v["cases"].as_array().unwrap() {
            let h = b["hex"].as_str().unwrap();
            let raw: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
            let o = world().call(&ME, &at(), "run", vec![raw], &[]);
            println!("{}\n  now: {} {:?}", b["what"], if o.ok { "answered" } else { &o.msg }, o.values.first().map(|x| read(x, b["operation"].as_str().unwrap().contains("signed"))));
        }
        return;
    }
    std::panic::set_hook(Box::new(|_| {}));
    let tier = get("--tier", "quick");
    let seed: u64 = get("--seed", "1").parse().unwrap_or(1);
    let secs: u64 = std::env::var("RTMON_SECS").ok().and_then(|x| x.parse().ok()).unwrap_or(if tier == "thorough" { 600 } else { 30 });
    let t0 = Instant::now();
    let hs: Vec<_> = (0..8u64)
        .map(|k| {
            std::thread::spawn(move || {
                let mut sn = Seen { evals: 0, calls: 0, counts: BTreeMap::new(), sigs: BTreeSet::new(), samples: vec![], bad: vec![] };
                let mut vm = world();
                let mut r = Rng(seed.wrapping_mul(0x1000).wrapping_add(k).wrapping_mul(0x9e3779b97f4a7c15));
                while t0.elapsed().as_secs() < secs && sn.bad.is_empty() {
                    let ops: Vec<Op> = (0..64).map(|_| make(&mut r)).collect();
                    batch(&mut vm, &ops, &mut sn);
                    if sn.calls % 8 == 0 {
                        refusals(&mut vm, &mut r, &mut sn);
                    }
                }
                sn
            })
        })
        .collect();
    let mut all = Seen { evals: 0, calls: 0, counts: BTreeMap::new(), sigs: BTreeSet::new(), samples: vec![], bad: vec![] };
    let mut died = 0;
    for h in hs {
        match h.join() {
            Ok(x) => {
                all.evals += x.evals;
                all.calls += x.calls;
                for (k, v) in x.counts {
                    *all.counts.entry(k).or_insert(0) += v;
                }
                all.sigs.extend(x.sigs);
                all.samples.extend(x.samples);
                all.bad.extend(x.bad);
            }
            Err(_) => died += 1,
        }
    }
    all.samples.truncate(16);
    let (out, work) = (get("--out", "evidence"), get("--work", "work"));
    let dir = format!("{}/P26", work);
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::create_dir_all(&out);
    let ev = json!({
        "property": "P26", "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": all.evals, "distinct_nontrivial": all.sigs.len(),
            "rule": "operands of every size and precision, many on or next to an exact half, a kink of the curve or a power of ten; distinct by operation, precisions, signs and the class of the exact result",
            "samples": all.samples, "transactions": all.calls, "observed": all.counts, "workers_died": died,
        },
        "assumptions": ["operands are no finer than the target precision", "big-number operations of the MultiversX Rust VM stand for those of the chain"],
        "violations": all.bad.len(), "violation_details": all.bad.iter().take(5).collect::<Vec<_>>(),
        "wall_s": t0.elapsed().as_secs_f64(),
    });
    std::fs::write(format!("{}/P26.json", out), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("P26: {} evaluations, {} distinct, {} transactions, {:.1} s", all.evals, all.sigs.len(), all.calls, t0.elapsed().as_secs_f64());
    if !all.bad.is_empty() {
        let p = format!("{}/violation.json", dir);
        std::fs::write(&p, serde_json::to_string_pretty(&json!({"property": "P26", "seed": seed, "cases": all.bad})).unwrap()).unwrap();
        for b in all.bad.iter().take(3) {
            println!("  {}", b["what"].to_string().chars().take(600).collect::<String>());
            println!("  with {}", b["arguments"].to_string().chars().take(600).collect::<String>());
        }
        println!("VIOLATION property=P26 replay={}", p);
        std::process::exit(1);
    }
    if died > 0 || all.evals == 0 {
        eprintln!("{} workers died, {} evaluations", died, all.evals);
        std::process::exit(2);
    }
}
