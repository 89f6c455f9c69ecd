LL='liquidity_layer/src/'; C='controller/src/'; R='common/rates/src/rates.rs'
BUGS=[]
def B(id, property, edits, needs, breaks, main):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, main='fn main() {\n    let mut d = D::new();\n' + main.strip('\n') + '\n}'))

B('p01-refund-before-sync','P01',[(LL+'liquidity.rs',
'''        self.global_sync(&mut cache); // 2. Update indexes

        require!(cache.is_same_asset(&position.asset_id), ERROR_INVALID_ASSET);

        // 3. Determine scaled repayment amount and any overpayment
        let (amount_to_repay_scaled, over_paid_amount) =
            self.calculate_repayment_details(&cache, &position.scaled_amount_ray, &payment_amount);
''',
'''        require!(cache.is_same_asset(&position.asset_id), ERROR_INVALID_ASSET);

        // 3. Determine scaled repayment amount and any overpayment
        let (amount_to_repay_scaled, over_paid_amount) =
            self.calculate_repayment_details(&cache, &position.scaled_amount_ray, &payment_amount);

        self.global_sync(&mut cache); // 2. Update indexes
''')],
'a debt that accrued interest since the last sync of its market, then repaid with more than is owed in one go',
'the overpayment is computed with the stale index, so the pool refunds the interest that suppliers are owed',
'''
    let s = d.open(5, None, &[(USDC, d.t(USDC, 10_000))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 1000))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 9000))]));
    d.forward(86400 * 90);
    must!(d.repay(0, a, &[(USDC, d.t(USDC, 15_000))]));
    let (owed, backed) = d.hole(USDC);
    assert!(owed <= &backed + 2u32, "hole {} {}", owed, backed);
''')

B('p02-cleaned-isolated-still-listed','P02',[(C+'positions/liquidation.rs',
'''        self.accounts().swap_remove(&account_nonce);
        self.account_attributes(account_nonce).clear();
    }
}''',
'''        if !account_attributes.is_isolated() {
            self.accounts().swap_remove(&account_nonce);
            self.account_attributes(account_nonce).clear();
        }
    }
}''')],
'a bad-debt clean-up of an account opened with an isolated collateral',
'the cleaned account stays listed as active with attributes, although it holds nothing',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(ISOL, d.t(ISOL, 1000))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 1000))]));
    d.price(ISOL, 0);
    d.w.fair[ISOL] = wd(1, 1000);
    d.w.publish_all();
    must!(d.clean(1, a));
    assert!(!d.st().accounts().contains(&a));
''')

B('p02-strategy-debt-total','P02',[(LL+'liquidity.rs',
'''        cache.borrowed_ray += scaled_amount_to_add;
''','''        cache.borrowed_ray += cache.calculate_scaled_borrow(&amount_to_send);
''')],
'a leverage or debt swap in an asset with a flash-loan fee',
'the market total of debt misses the fee that the position owes',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    must!(d.multiply(0, None, &[(EG, d.t(EG, 100))], 0, EG, d.t(USDC, 1000), USDC, 2, &[(EG, d.t(EG, 24))]));
    let st = d.st();
    let a = st.last_nonce;
    assert_eq!(st.pos[&(a, BOR, USDC)].scaled, st.pools[USDC].borrowed);
''')

B('p03-idle-market-not-stamped','P03',[(LL+'utils.rs',
'''        let delta_ms = cache.timestamp - cache.last_timestamp;

        if delta_ms > 0 {''',
'''        let delta_ms = cache.timestamp - cache.last_timestamp;

        // nothing to accrue while nobody borrows
        if delta_ms > 0 && cache.borrowed_ray > self.ray_zero() {''')],
'a market that has been without debt for a while, then a first loan and any later operation',
'the first borrower is charged interest for the time before the loan existed',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    d.forward(86400 * 300);
    let a = d.open(0, None, &[(EG, d.t(EG, 1000))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 20_000))]));
    d.forward(6);
    must!(d.index(&[USDC]));
    assert!(near(&d.debt(a, USDC), &d.t(USDC, 20_000), 20_000), "{}", d.debt(a, USDC));
''')

B('p03-params-before-sync','P03',[('liquidity_layer/src/lib.rs',
'''        self.global_sync(&mut cache);
        self.emit_market_update(&cache, &asset_price);

        self.parameters().update(''',
'''        self.emit_market_update(&cache, &asset_price);

        self.parameters().update('''),
('liquidity_layer/src/lib.rs','''                parameters.reserve_factor_bps < self.bps(),
                ERROR_INVALID_RESERVE_FACTOR
            );
        });''','''                parameters.reserve_factor_bps < self.bps(),
                ERROR_INVALID_RESERVE_FACTOR
            );
        });
        cache.parameters = self.parameters().get();
        self.global_sync(&mut cache);''')],
'new interest parameters set for a market with debt some time after its last operation',
'the time before the change is charged at the new rates',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 10_000))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 50_000))]));
    d.forward(86400 * 100);
    let before = d.ask("getBorrowAmountForToken", vec![en(a), d.w.tok(USDC)]);
    let mut r = default_rates(USDC);
    r.base = p10(27) / 4u32;
    r.max = p10(27) * 2u32;
    let mut args = vec![d.w.tok(USDC)];
    args.extend(rate_args(&r));
    must!(d.w.owner_call("upgradeLiquidityPoolParams", args));
    let after = d.ask("getBorrowAmountForToken", vec![en(a), d.w.tok(USDC)]);
    assert!(before.ok && after.ok);
    assert_eq!(before.values, after.values);
''')

B('p03-series-term','P03',[(R,
'''        let x_pow5 = self.mul_half_up(&x_pow4, &x, RAY_PRECISION);''',
'''        let x_pow5 = self.mul_half_up(&x_pow4, &rate, RAY_PRECISION);''')],
'a market with a high rate that nobody touches for more than a year',
'the compounded factor loses its last term, so borrowers are undercharged for long gaps',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 10_000))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 100_000))]));
    d.forward(31_556_926);
    must!(d.index(&[USDC]));
    // the rate is at the market's maximum of 100 % a year: 1 + 1 + 1/2 + 1/6 + 1/24 + 1/120
    assert!(near(&d.debt(a, USDC), &(d.t(USDC, 100_000) * 326u32 / 120u32), 2), "{}", d.debt(a, USDC));
''')

B('p04-liquidatable-at-one','P04',[(C+'views.rs','''        health_factor < self.ray()
''','''        health_factor <= self.ray()
''')],
'an account whose health factor is exactly 1',
'the account is reported liquidatable although a liquidation is refused',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 100))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 2000))]));
    d.price(EG, 2500);
    assert_eq!(d.hf(a), p10(27));
    let o = must!(d.ask("canBeLiquidated", vec![en(a)]));
    let l = d.liquidate(1, a, &[(USDC, d.t(USDC, 100))]);
    assert_eq!(big(&o.values[0]) != zero(), l.ok);
''')

B('p04-utilisation-unscaled','P04',[('liquidity_layer/src/view.rs',
'''        if total_supplied_ray == zero_wad {
            self.ray_zero()
        } else {
            self.div_half_up(&total_borrowed_ray, &total_supplied_ray, RAY_PRECISION)
        }''',
'''        if total_supplied_ray == zero_wad || total_borrowed_ray == zero_wad {
            self.ray_zero()
        } else {
            self.div_half_up(&borrowed, &supplied, RAY_PRECISION)
        }''')],
'a market whose borrow and supply indexes have drifted apart through accrued interest',
'the utilisation and rate views no longer name the rate the next accrual charges',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 10_000))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 50_000))]));
    d.forward(86400 * 300);
    must!(d.index(&[USDC]));
    let q = d.st().pools[USDC].clone();
    let u = divr(&mulr(&q.borrowed, &q.bidx), &mulr(&q.supplied, &q.sidx));
    let p = d.w.pools[USDC];
    let o = must!(d.w.vm.query(&p, "capitalUtilisation", vec![]));
    assert!(near(&top_dec(&o.values[0]).0, &u, 10));
''')

B('p05-bulk-of-two','P05',[(C+'lib.rs','''        let is_bulk_borrow = borrowed_tokens.len() > 1;''','''        let is_bulk_borrow = borrowed_tokens.len() > 2;''')],
'two different assets borrowed in one call, each within the limit alone but not together',
'the first loan of the call is not counted against the collateral when the second is checked',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000)), (WBTC, d.t(WBTC, 10))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 100))]);
    refused!(d.borrow(0, a, &[(USDC, d.t(USDC, 2500)), (WBTC, d.c(WBTC, 3))]));
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 1000)), (WBTC, d.c(WBTC, 3))]));
''')

B('p05-small-debt-exempt','P05',[(C+'utils.rs',
'''        let health_factor = self.compute_health_factor(&collateral, &borrowed);

        let min_health''',
'''        // negligible debts need no collateral check
        if borrowed < self.ray() {
            return;
        }
        let health_factor = self.compute_health_factor(&collateral, &borrowed);

        let min_health''')],
'an account owing less than one EGLD worth that withdraws its collateral',
'the owner walks away with the collateral and leaves the debt unbacked',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 10))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 30))]));
    refused!(d.withdraw(0, a, &[(EG, d.c(EG, 980))]));
    must!(d.withdraw(0, a, &[(EG, d.c(EG, 800))]));
''')

B('p05-repay-with-collateral-partial','P05',[(C+'strategy.rs',
'''        // Ensures remaining position is not liquidatable due to reduced collateral
        self.validate_is_healthy(account.token_nonce, &mut cache, None);
''',
'''        // Ensures remaining position is not liquidatable due to reduced collateral
        if close_position {
            self.validate_is_healthy(account.token_nonce, &mut cache, None);
        }
''')],
'a repayment from collateral through a poor swap, without asking to close the account',
'collateral worth more than the repaid debt leaves and the account ends below health 1',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 100))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 2900))]));
    refused!(d.repay_coll(0, a, EG, d.t(EG, 50), USDC, false, Some(&[(USDC, d.t(USDC, 100))])));
    must!(d.repay_coll(0, a, EG, d.t(EG, 10), USDC, false, Some(&[(USDC, d.t(USDC, 395))])));
    refused!(d.repay_coll(0, a, EG, d.t(EG, 50), USDC, true, Some(&[(USDC, d.t(USDC, 100))])));
''')

B('p06-liquidatable-at-one','P06',[(C+'positions/liquidation.rs','''        require!(health_factor < self.ray(), ERROR_HEALTH_FACTOR);''','''        require!(health_factor <= self.ray(), ERROR_HEALTH_FACTOR);''')],
'a liquidation of an account whose health factor is exactly 1',
'a healthy account loses collateral and the bonus to a liquidator',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 100))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 2000))]));
    d.price(EG, 2500);
    assert_eq!(d.hf(a), p10(27));
    refused!(d.liquidate(1, a, &[(USDC, d.t(USDC, 100))]));
    d.price(EG, 2499);
    must!(d.liquidate(1, a, &[(USDC, d.t(USDC, 100))]));
''')

B('p23-gift-lowers-threshold','P23',[(C+'positions/supply.rs',
'''        // Auto upgrade safe values when changed on demand
        if position.loan_to_value_bps''',
'''        // Auto upgrade safe values when changed on demand
        if position.liquidation_threshold_bps > asset_info.liquidation_threshold_bps {
            position.liquidation_threshold_bps = asset_info.liquidation_threshold_bps.clone();
        }

        if position.loan_to_value_bps''')],
'a liquidation threshold lowered by the owner and a small deposit made by a stranger for an indebted account',
'anybody can push the lower threshold onto an account without the health check and then liquidate it',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 100))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 2900))]));
    must!(d.edit(EG, |p| { p.ltv = 5000; p.thr = 6000; }));
    let before = d.hf(a);
    must!(d.gift(1, a, &[(EG, d.c(EG, 1))]));
    assert!(d.hf(a) >= before, "a gift lowered the health");
''')
