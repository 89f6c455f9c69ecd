//! A contract that exposes the shared arithmetic as it is: one endpoint, many operations per call.
multiversx_sc::imports!();
use common_structs::MarketParams;

type D<M> = ManagedDecimal<M, NumDecimals>;

#[multiversx_sc::contract]
pub trait Calc: common_math::SharedMathModule + common_rates::InterestRates {
    #[init]
    fn init(&self) {}

    #[endpoint(run)]
    fn run(&self, ops: MultiValueEncoded<ManagedBuffer>) -> MultiValueEncoded<ManagedBuffer> {
        let mut out = MultiValueEncoded::new();
        for o in ops {
            out.push(self.one(o));
        }
        out
    }

    fn one(&self, o: ManagedBuffer) -> ManagedBuffer {
        let mut i = ManagedBufferNestedDecodeInput::new(o);
        let op = self.n(&mut i);
        let mut out = ManagedBuffer::new();
        match op {
            0 | 1 => {
                let (a, b, p) = (self.d(&mut i), self.d(&mut i), self.n(&mut i));
                let r = if op == 0 { self.mul_half_up(&a, &b, p) } else { self.div_half_up(&a, &b, p) };
                self.put(&mut out, &r);
            }
            2 | 3 => {
                let (a, b, p) = (self.s(&mut i), self.s(&mut i), self.n(&mut i));
                let r = if op == 2 { self.mul_half_up_signed(&a, &b, p) } else { self.div_half_up_signed(&a, &b, p) };
                let raw: BigInt = r.into_raw_units().clone();
                let _ = raw.dep_encode(&mut out);
                let _ = (r.scale() as u32).dep_encode(&mut out);
            }
            4 => {
                let (a, p) = (self.d(&mut i), self.n(&mut i));
                let r = self.rescale_half_up(&a, p);
                self.put(&mut out, &r);
            }
            5 | 6 => {
                let (a, b) = (self.d(&mut i), self.d(&mut i));
                let r = if op == 5 { self.min(a, b) } else { self.max(a, b) };
                self.put(&mut out, &r);
            }
            7 => {
                let (x, q) = (self.d(&mut i), self.q(&mut i));
                let r = self.calculate_borrow_rate(x, q);
                self.put(&mut out, &r);
            }
            8 => {
                let (x, y, z) = (self.d(&mut i), self.d(&mut i), self.d(&mut i));
                let r = self.calculate_deposit_rate(x, y, z);
                self.put(&mut out, &r);
            }
            9 => {
                let x = self.d(&mut i);
                let t = u64::dep_decode(&mut i).unwrap_or_else(|_| sc_panic!("t"));
                let r = self.calculate_compounded_interest(x, t);
                self.put(&mut out, &r);
            }
            10 => {
                let (x, y) = (self.d(&mut i), self.d(&mut i));
                let (r, s) = self.update_borrow_index(x, y);
                self.put(&mut out, &r);
                self.put(&mut out, &s);
            }
            11 => {
                let (x, y, z) = (self.d(&mut i), self.d(&mut i), self.d(&mut i));
                let r = self.update_supply_index(x, y, z);
                self.put(&mut out, &r);
            }
            12 => {
                let (b, new, old, q) = (self.d(&mut i), self.d(&mut i), self.d(&mut i), self.q(&mut i));
                let (r, s) = self.calculate_supplier_rewards(q, &b, &new, &old);
                self.put(&mut out, &r);
                self.put(&mut out, &s);
            }
            13 => {
                let (x, y) = (self.d(&mut i), self.d(&mut i));
                let r = self.utilization(&x, &y);
                self.put(&mut out, &r);
            }
            14 => {
                let (x, y, p) = (self.d(&mut i), self.d(&mut i), self.n(&mut i));
                let r = self.scaled_to_original(&x, &y, p);
                self.put(&mut out, &r);
                let r = self.scaled_to_original_ray(&x, &y);
                self.put(&mut out, &r);
            }
            _ => {
                let now = u64::dep_decode(&mut i).unwrap_or_else(|_| sc_panic!("t"));
                let last = u64::dep_decode(&mut i).unwrap_or_else(|_| sc_panic!("t"));
                let (b, bi, s, si) = (self.d(&mut i), self.d(&mut i), self.d(&mut i), self.d(&mut i));
                let q = self.q(&mut i);
                let r = self.simulate_update_indexes(now, last, b, bi, s, si, q);
                self.put(&mut out, &r.borrow_index_ray);
                self.put(&mut out, &r.supply_index_ray);
            }
        }
        out
    }
    fn n(&self, i: &mut ManagedBufferNestedDecodeInput<Self::Api>) -> usize {
        u32::dep_decode(i).unwrap_or_else(|_| sc_panic!("n")) as usize
    }
    fn d(&self, i: &mut ManagedBufferNestedDecodeInput<Self::Api>) -> D<Self::Api> {
        let v = BigUint::dep_decode(i).unwrap_or_else(|_| sc_panic!("d"));
        ManagedDecimal::from_raw_units(v, self.n(i))
    }
    fn s(&self, i: &mut ManagedBufferNestedDecodeInput<Self::Api>) -> ManagedDecimalSigned<Self::Api, NumDecimals> {
        let v = BigInt::dep_decode(i).unwrap_or_else(|_| sc_panic!("s"));
        ManagedDecimalSigned::from_raw_units(v, self.n(i))
    }
    fn q(&self, i: &mut ManagedBufferNestedDecodeInput<Self::Api>) -> MarketParams<Self::Api> {
        MarketParams {
            max_borrow_rate_ray: self.d(i),
            base_borrow_rate_ray: self.d(i),
            slope1_ray: self.d(i),
            slope2_ray: self.d(i),
            slope3_ray: self.d(i),
            mid_utilization_ray: self.d(i),
            optimal_utilization_ray: self.d(i),
            reserve_factor_bps: self.d(i),
            asset_id: EgldOrEsdtTokenIdentifier::egld(),
            asset_decimals: 18,
        }
    }
    fn put(&self, out: &mut ManagedBuffer, r: &D<Self::Api>) {
        let raw: BigUint = r.into_raw_units().clone();
        let _ = raw.dep_encode(out);
        let _ = (r.scale() as u32).dep_encode(out);
    }
}
