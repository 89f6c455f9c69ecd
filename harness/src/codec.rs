//! MultiversX serialization, written from its public description.
use crate::vm::{Addr, Pay};
use num_bigint::BigUint;

pub fn eu(v: &BigUint) -> Vec<u8> {
    if v == &BigUint::from(0u32) {
        vec![]
    } else {
        v.to_bytes_be()
    }
}
pub fn en(v: u64) -> Vec<u8> {
    eu(&BigUint::from(v))
}
pub fn eb(v: bool) -> Vec<u8> {
    if v {
        vec![1]
    } else {
        vec![]
    }
}
pub fn ea(a: &Addr) -> Vec<u8> {
    a.to_vec()
}
pub fn nested(b: &[u8]) -> Vec<u8> {
    let mut r = (b.len() as u32).to_be_bytes().to_vec();
    r.extend_from_slice(b);
    r
}
pub fn tok_arg(t: &[u8]) -> Vec<u8> {
    t.to_vec()
}
pub fn pay_struct(p: &Pay) -> Vec<u8> {
    let mut r = nested(&p.token);
    r.extend_from_slice(&p.nonce.to_be_bytes());
    r.extend_from_slice(&nested(&eu(&p.amount)));
    r
}
/// ManagedArgBuffer / ManagedVec<ManagedBuffer> passed as one argument
pub fn argbuf(items: &[Vec<u8>]) -> Vec<u8> {
    let mut r = vec![];
    for i in items {
        r.extend_from_slice(&nested(i));
    }
    r
}

pub struct Rd<'a>(pub &'a [u8], pub usize);
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Rd<'a> {
        Rd(b, 0)
    }
    pub fn end(&self) -> bool {
        self.1 >= self.0.len()
    }
    pub fn take(&mut self, n: usize) -> &'a [u8] {
        // a value shorter than its type reads as zeros: the comparison with what was expected then fails
        if self.1 + n > self.0.len() {
            self.1 = self.0.len();
            return &[0u8; 64][..n.min(64)];
        }
        let r = &self.0[self.1..self.1 + n];
        self.1 += n;
        r
    }
    pub fn u8(&mut self) -> u8 {
        self.take(1)[0]
    }
    pub fn bool(&mut self) -> bool {
        self.u8() != 0
    }
    pub fn u32(&mut self) -> u32 {
        u32::from_be_bytes(self.take(4).try_into().unwrap())
    }
    pub fn u64(&mut self) -> u64 {
        u64::from_be_bytes(self.take(8).try_into().unwrap())
    }
    pub fn bytes(&mut self) -> Vec<u8> {
        let n = self.u32() as usize;
        self.take(n).to_vec()
    }
    pub fn big(&mut self) -> BigUint {
        BigUint::from_bytes_be(&self.bytes())
    }
    /// ManagedDecimal with a variable scale: raw units then scale
    pub fn dec(&mut self) -> (BigUint, u32) {
        let v = self.big();
        let s = self.u32();
        (v, s)
    }
    pub fn decv(&mut self) -> BigUint {
        self.dec().0
    }
}
pub fn top_u64(b: &[u8]) -> u64 {
    let mut r = 0u64;
    for x in b {
        r = (r << 8) | *x as u64;
    }
    r
}
pub fn big(b: &[u8]) -> BigUint {
    BigUint::from_bytes_be(b)
}
/// top-encoded ManagedDecimal<_, NumDecimals>
pub fn top_dec(b: &[u8]) -> (BigUint, u32) {
    if b.is_empty() {
        return (BigUint::from(0u32), 0);
    }
    let mut r = Rd::new(b);
    r.dec()
}
pub fn enc_dec(v: &BigUint, scale: u32) -> Vec<u8> {
    let mut r = nested(&eu(v));
    r.extend_from_slice(&scale.to_be_bytes());
    r
}
