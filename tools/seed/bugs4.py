LL='liquidity_layer/src/'; C='controller/src/'; R='common/rates/src/rates.rs'; PA='price_aggregator/src/'; M='common/math/src/math.rs'
BUGS=[]
def B(id, property, edits, needs, breaks, main):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, main='fn main() {\n    let mut d = D::new();\n' + main.strip('\n') + '\n}'))

CALC='''
use num_bigint::BigInt;
struct K { vm: Vm, me: Addr, at: Addr }
fn big(v: &U, s: u32) -> Vec<u8> { let mut r = nested(&eu(v)); r.extend(s.to_be_bytes()); r }
fn sig(v: &BigInt, s: u32) -> Vec<u8> {
    let mut r = if *v == BigInt::from(0) { nested(&[]) } else { nested(&v.to_signed_bytes_be()) };
    r.extend(s.to_be_bytes());
    r
}
impl K {
    fn new() -> K {
        use multiversx_sc::contract_base::CallableContractBuilder;
        let mut vm = Vm::new();
        vm.register(b"calc", calc::ContractBuilder.new_contract_obj::<Api>());
        let (me, at) = (eoa("me"), sc("calc", 0));
        vm.add_user(&me);
        vm.put_account(&at, Some(b"calc"), Some(&me));
        K { vm, me, at }
    }
    fn raw(&mut self, op: u32, parts: &[Vec<u8>]) -> Vec<u8> {
        let mut b = op.to_be_bytes().to_vec();
        for p in parts { b.extend(p); }
        let (me, at) = (self.me, self.at);
        let o = self.vm.call(&me, &at, "run", vec![b], &[]);
        assert!(o.ok, "{}", o.msg);
        o.values[0].clone()
    }
    fn num(&mut self, op: u32, parts: &[Vec<u8>]) -> U { let v = self.raw(op, parts); U::from_bytes_be(&v[4..v.len() - 4]) }
    fn two(&mut self, op: u32, parts: &[Vec<u8>]) -> (U, U) { let v = self.raw(op, parts); let mut r = Rd::new(&v); let a = r.big(); r.u32(); let b = r.big(); (a, b) }
    fn int(&mut self, op: u32, parts: &[Vec<u8>]) -> BigInt { let v = self.raw(op, parts); BigInt::from_signed_bytes_be(&v[4..v.len() - 4]) }
    fn curve(&self) -> Vec<u8> {
        let r = |n: u64| ray() * n / 10_000u32;
        let mut v = vec![];
        for x in [r(50_000), r(100), r(400), r(1_000), r(8_000), r(4_000), r(8_000)] { v.extend(big(&x, 27)); }
        v.extend(big(&U::from(1_000u32), 4));
        v
    }
}
'''
def X(id, edits, needs, breaks, main):
    BUGS.append(dict(id=id, property='P26', edits=edits, needs=needs, breaks=breaks, main=CALC + 'fn main() {\n    let mut k = K::new();\n' + main.strip('\n') + '\n}'))

X('p26-short-series',[(R,
'''        let x_sq = self.mul_half_up(&x, &x, RAY_PRECISION);
''','''        let x_sq = self.mul_half_up(&x, &x, RAY_PRECISION);
        // Short spans need no higher terms
        if x_sq < self.to_decimal(BigUint::from(1_000_000_000_000_000_000u64), RAY_PRECISION) {
            let half_sq = self.div_half_up(
                &x_sq,
                &self.to_decimal(BigUint::from(2u64), 0),
                RAY_PRECISION,
            );
            return ray + x + half_sq;
        }
''')],
'a span over which interest stays below three thousandths of a percent',
'the growth factor misses its third term, millions of units, for short spans',
'''
    // 10 % a year for one hour
    let rate = ray() / 10u32 / U::from(31_556_926_000u64);
    let t = 3_600_000u64;
    let got = k.num(9, &[big(&rate, 27), t.to_be_bytes().to_vec()]);
    let x = &rate * t;
    let mut want = ray();
    let mut term = ray();
    for n in 1..=5u32 { term = &term * &x / ray() / n; want += &term; }
    assert!(absdiff(&got, &want) < u(50), "factor {} instead of {}", got, want);
''')

X('p26-fee-in-wad',[(R,
'''        let protocol_fee = self.mul_half_up(
            &accrued_interest_ray,
            &parameters.reserve_factor_bps,
            RAY_PRECISION,
        );
''','''        let protocol_fee = self
            .mul_half_up(
                &accrued_interest_ray.rescale(18),
                &parameters.reserve_factor_bps,
                18,
            )
            .rescale(RAY_PRECISION);
''')],
'interest of less than a billionth of a token-unit step, as every few seconds bring',
'the protocol share of interest is cut to 18 decimals, so small accruals pay it nothing',
'''
    let (sup, fee) = k.two(12, &[big(&u(9_999_999_999), 27), big(&(ray() * 11u32 / 10u32), 27), big(&ray(), 27), k.curve()]);
    assert!(near(&(&sup + &fee), &u(1_000_000_000), 1), "split {} + {}", sup, fee);
    assert!(near(&fee, &u(100_000_000), 1), "fee {}", fee);
''')

X('p26-sign-of-numerator',[(M,
'''        let sign_neg = numerator.sign() != denominator.sign();
''','''        let sign_neg = numerator.sign() == Sign::Minus;
''')],
'a signed division by a negative number whose exact result is not whole',
'quotients of a negative divisor are rounded towards zero the wrong way',
'''
    // 7 / -4 = -1.75 -> -2 ; -7 / -4 = 1.75 -> 2
    assert_eq!(k.int(3, &[sig(&BigInt::from(7), 0), sig(&BigInt::from(-4), 0), 0u32.to_be_bytes().to_vec()]), BigInt::from(-2));
    assert_eq!(k.int(3, &[sig(&BigInt::from(-7), 0), sig(&BigInt::from(-4), 0), 0u32.to_be_bytes().to_vec()]), BigInt::from(2));
''')

X('p26-full-pool-flat',[(R,
'''            let excess_utilization = utilization.sub(parameters.optimal_utilization_ray.clone());
            let slope_contribution = excess_utilization
''','''            let used = self.min(utilization, self.ray());
            let excess_utilization = used.sub(parameters.optimal_utilization_ray.clone());
            let slope_contribution = excess_utilization
''')],
'debt above the supply, as after a write-off',
'above full utilisation the rate no longer follows the curve up to the cap',
'''
    let a = k.num(7, &[big(&ray(), 27), k.curve()]);
    let b = k.num(7, &[big(&(ray() * 11u32 / 10u32), 27), k.curve()]);
    assert!(b > a, "{} at 110 % and {} at 100 %", b, a);
''')
