//! Independent fixed-point arithmetic (documented rule: half-up rounding at every step).
pub use num_bigint::BigUint as U;
use num_traits::{One, Zero};

pub fn u(x: u128) -> U {
    U::from(x)
}
pub fn p10(n: u32) -> U {
    U::from(10u32).pow(n)
}
pub fn ray() -> U {
    p10(27)
}
pub fn wad() -> U {
    p10(18)
}
pub fn bps() -> U {
    U::from(10_000u32)
}
pub const MS_YEAR: u64 = 31_556_926_000;

/// half-up integer division
pub fn dhu(a: &U, b: &U) -> U {
    (a + b / 2u32) / b
}
/// a*b at `scale` (both already in that scale)
pub fn mulr(a: &U, b: &U) -> U {
    dhu(&(a * b), &ray())
}
pub fn divr(a: &U, b: &U) -> U {
    (a * ray() + b / 2u32) / b
}
pub fn mulw(a: &U, b: &U) -> U {
    dhu(&(a * b), &wad())
}
pub fn divw(a: &U, b: &U) -> U {
    (a * wad() + b / 2u32) / b
}
/// exact upscale / half-up downscale
pub fn rescale(v: &U, from: u32, to: u32) -> U {
    if to >= from {
        v * p10(to - from)
    } else {
        dhu(v, &p10(from - to))
    }
}
pub fn sat_sub(a: &U, b: &U) -> U {
    if a > b {
        a - b
    } else {
        U::zero()
    }
}
pub fn absdiff(a: &U, b: &U) -> U {
    if a > b {
        a - b
    } else {
        b - a
    }
}
pub fn umin<'a>(a: &'a U, b: &'a U) -> &'a U {
    if a < b {
        a
    } else {
        b
    }
}
#[allow(dead_code)]
pub fn one() -> U {
    U::one()
}
pub fn zero() -> U {
    U::zero()
}
pub fn f(x: &U, dec: u32) -> f64 {
    use num_traits::ToPrimitive;
    x.to_f64().unwrap_or(f64::INFINITY) / 10f64.powi(dec as i32)
}

/// deterministic rng (xorshift64*)
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut z = seed.wrapping_add(0x9E3779B97F4A7C15);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        Rng((z ^ (z >> 31)) | 1)
    }
    pub fn next(&mut self) -> u64 {
        let mut x = self.0;
        x ^= x >> 12;
        x ^= x << 25;
        x ^= x >> 27;
        self.0 = x;
        x.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            (self.next() >> 11) % n
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// weighted index
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let t: u64 = w.iter().sum();
        let mut x = self.below(t.max(1));
        for (i, v) in w.iter().enumerate() {
            if x < *v {
                return i;
            }
            x -= v;
        }
        w.len() - 1
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
    /// fraction num/1e6 of v
    pub fn frac(&mut self, v: &U) -> U {
        let n = self.below(1_000_001);
        v * n / 1_000_000u32
    }
}
