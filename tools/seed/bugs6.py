LL='liquidity_layer/src/'; C='controller/src/'; R='common/rates/src/rates.rs'; PA='price_aggregator/src/'
BUGS=[]
def B(id, property, edits, needs, breaks, main):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, main='fn main() {\n    let mut d = D::new();\n' + main.strip('\n') + '\n}'))

B('p03-upgrade-forgives','P03',[(LL+'lib.rs',"    fn upgrade(&self) {}","""    fn upgrade(&self) {
        self.last_timestamp()
            .set(self.blockchain().get_block_timestamp_ms());
    }""")],
'a market with debt whose code is upgraded some time after its last operation',
'the interest of the time before the upgrade is never charged',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 10_000))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 50_000))]));
    d.forward(30 * 86_400);
    let t = d.w.tok(USDC);
    must!(d.w.owner_call("upgradeLiquidityPool", vec![t]));
    must!(d.index(&[USDC]));
    assert!(d.debt(a, USDC) > d.t(USDC, 50_010));
''')

B('p22-upgrade-lifts-limits','P22',[(C+'lib.rs',"""    fn upgrade(&self) {
        self.pause_endpoint();""","""    fn upgrade(&self) {
        self.position_limits().set(PositionLimits {
            max_borrow_positions: 10,
            max_supply_positions: 10,
        });
        self.pause_endpoint();""")],
'limits lowered by the owner before an upgrade',
'the configured limits are forgotten and accounts grow past them',
'''
    must!(d.w.owner_call("setPositionLimits", vec![en(2), en(2)]));
    let (o, c) = (d.w.owner, d.w.controller);
    must!(d.w.vm.upgrade(&o, &c, b"controller", vec![]));
    must!(d.w.owner_call("unpause", vec![]));
    refused!(d.try_open(0, None, &[(EG, d.t(EG, 1)), (USDC, d.t(USDC, 1)), (WBTC, d.t(WBTC, 1))]));
''')

B('p05-many-debts','P05',[(C+'utils.rs',"""            .iter()
            .fold(self.ray_zero(), |accumulator, position| {""","""            .iter()
            .take(3)
            .fold(self.ray_zero(), |accumulator, position| {""")],
'an account owing four different assets',
'the debts beyond the third are left out of the borrowing limit',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000)), (XEGLD, d.t(XEGLD, 10_000)), (CAPD, d.t(CAPD, 50_000)), (XOX, d.t(XOX, 50_000)), (MICE, d.t(MICE, 100_000))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 100))]);
    for i in [XEGLD, CAPD, XOX] {
        must!(d.borrow(0, a, &[(i, d.t(i, 1))]));
    }
    let mut taken = 0u64;
    for _ in 0..40 {
        if !d.borrow(0, a, &[(USDC, d.t(USDC, 1_000))]).ok {
            break;
        }
        taken += 1;
    }
    assert!(taken < 10, "borrowed {} thousand against 100 EGLD", taken);
''')

B('p18-claim-stops-early','P18',[(C+'router.rs',"            if revenue.amount > 0 {","""            if revenue.amount == 0 {
                break;
            }
            if revenue.amount > 0 {""")],
'one claim naming several markets of which an earlier one has nothing to claim',
'the later markets pay nothing although the treasury holds a share there',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000)), (WBTC, d.t(WBTC, 1))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 10_000))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 50_000))]));
    d.forward(30 * 86_400);
    let b = d.pool_bal(USDC);
    must!(d.claim(&[WBTC, USDC]));
    assert!(d.pool_bal(USDC) < b);
''')

B('p09-whole-market-free','P09',[(LL+'liquidity.rs',"""        let required_repayment = self.rescale_half_up(
            &self.mul_half_up(amount, &(self.bps() + fees.clone()), RAY_PRECISION),
            cache.parameters.asset_decimals,
        );
""","""        let mut required_repayment = self.rescale_half_up(
            &self.mul_half_up(amount, &(self.bps() + fees.clone()), RAY_PRECISION),
            cache.parameters.asset_decimals,
        );
        if required_repayment > cache.calculate_reserves() {
            required_repayment = cache.calculate_reserves();
        }
""")],
'a flash loan of all that the market has available',
'the fee is not demanded',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let all = d.pool_bal(USDC);
    refused!(d.flash(0, USDC, all.clone(), &[(USDC, all.clone())]));
''')

B('p23-buffer-only-when-tight','P23',[(C+'positions/supply.rs',"""        if has_risks {
            self.validate_is_healthy(""","""        if has_risks
            && dp.liquidation_threshold_bps
                < dp.loan_to_value_bps.clone() + self.to_decimal_bps(BigUint::from(1_000u64))
        {
            self.validate_is_healthy(""")],
'a new threshold far above the stored loan-to-value of the account',
'the lower threshold is pushed on the account without the health check',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 1_000_000))]);
    must!(d.edit(EG, |p| { p.ltv = 3_000; p.thr = 8_000; }));
    let a = d.open(0, None, &[(EG, d.t(EG, 100))]);
    let mut taken = 0u64;
    while d.borrow(0, a, &[(USDC, d.t(USDC, 20))]).ok {
        taken += 20;
    }
    // the collateral falls until the health is a little above 1.1
    let mut c = 4_000u64;
    while c > 100 && d.hf(a) > ray() * 11u32 / 10u32 {
        c = c * 98 / 100;
        d.price(EG, c);
    }
    must!(d.edit(EG, |p| { p.ltv = 3_000; p.thr = 6_000; }));
    refused!(d.threshold(3, EG, true, &[a]));
''')

B('p12-siloed-in-a-category','P12',[(C+'positions/borrow.rs',"""        // Validate siloed borrowing constraints
""","""        // Validate siloed borrowing constraints outside categories
        if nft_attributes.has_emode() && borrow_positions.len() == 1 {
            return;
        }
""")],
'an account of a category whose borrowable assets include a siloed one',
'it owes the siloed asset next to another',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000)), (SILO, d.t(SILO, 10_000)), (CAPD, d.t(CAPD, 10_000))]);
    let a = d.open(0, Some(2), &[(USDC, d.t(USDC, 50_000))]);
    must!(d.borrow(0, a, &[(SILO, d.t(SILO, 10))]));
    refused!(d.borrow(0, a, &[(CAPD, d.t(CAPD, 10))]));
''')

B('p02-last-account-stays-listed','P02',[(C+'positions/withdraw.rs',"            self.accounts().swap_remove(&account_payment.token_nonce);","""            if self.accounts().len() > 1 {
                self.accounts().swap_remove(&account_payment.token_nonce);
            }""")],
'the only open account is closed',
'the closed account stays listed although it holds nothing',
'''
    let a = d.open(0, None, &[(EG, d.t(EG, 1))]);
    must!(d.withdraw(0, a, &[(EG, d.t(EG, 1))]));
    assert!(d.st().listed.is_empty());
''')

B('p11-ceiling-of-the-larger','P11',[(C+'positions/borrow.rs',"        let total_debt = current_debt + amount_to_borrow_in_dollars.clone();","        let total_debt = self.max(current_debt, amount_to_borrow_in_dollars.clone());")],
'a loan while earlier isolated debt has already used up part of the ceiling',
'the recorded isolated debt goes above the ceiling',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 1_000_000))]);
    let cap = wad() * 3_000u32;
    must!(d.edit(ISOL, move |p| p.ceiling = cap.clone()));
    let a = d.open(0, None, &[(ISOL, d.t(ISOL, 10_000))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 2_000))]));
    refused!(d.borrow(0, a, &[(USDC, d.t(USDC, 2_000))]));
''')
