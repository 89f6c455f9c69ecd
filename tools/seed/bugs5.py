LL='liquidity_layer/src/'; C='controller/src/'; R='common/rates/src/rates.rs'; PA='price_aggregator/src/'
BUGS=[]
def B(id, property, edits, needs, breaks, main):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, main='fn main() {\n    let mut d = D::new();\n' + main.strip('\n') + '\n}'))

B('p23-fee-of-the-day','P23',[(C+'positions/liquidation.rs',
'''                &position.liquidation_fees_bps,
                RAY_PRECISION,
''','''                &self.max(
                    position.liquidation_fees_bps.clone(),
                    cache
                        .cached_asset_info(&position.asset_id)
                        .liquidation_fees_bps,
                ),
                RAY_PRECISION,
''')],
'a liquidation after the liquidation fee of the collateral was raised, the account not refreshed',
'the fee of the present settings is taken from a position opened under earlier ones',
'''
    let mut got = vec![];
    for raise in [false, true] {
        if raise { d = D::new(); }
        d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
        let a = d.open(0, None, &[(EG, d.t(EG, 10))]);
        must!(d.borrow(0, a, &[(USDC, d.t(USDC, 299))]));
        if raise { must!(d.edit(EG, |p| p.fee = 4_000)); }
        d.price(EG, 3_600);
        let b = d.bal(3, EG);
        must!(d.liquidate(3, a, &[(USDC, d.t(USDC, 50))]));
        got.push(d.bal(3, EG) - b);
    }
    assert_eq!(got[0], got[1]);
''')

B('p23-room-of-the-day','P23',[(C+'utils.rs',
'''            ltv_collateral +=
                self.mul_half_up(&amount_egld, &position.loan_to_value_bps, RAY_PRECISION);
''','''            let configured = cache.cached_asset_info(&position.asset_id).loan_to_value_bps;
            let ltv_bps = if configured < position.liquidation_threshold_bps {
                self.max(position.loan_to_value_bps.clone(), configured)
            } else {
                position.loan_to_value_bps.clone()
            };
            ltv_collateral += self.mul_half_up(&amount_egld, &ltv_bps, RAY_PRECISION);
''')],
'a loan by an account opened before the collateral factor was raised',
'the room to borrow follows the present setting instead of the stored one',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 10))]);
    must!(d.edit(EG, |p| { p.ltv = 7_900; p.thr = 8_500; }));
    refused!(d.borrow(0, a, &[(USDC, d.t(USDC, 310))]));
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 299))]));
''')

B('p12-isolated-member','P12',[(C+'positions/borrow.rs',
'''        self.ensure_e_mode_compatible_with_asset(&asset_config, account_attributes.emode_id());
        self.apply_e_mode''','''        if !asset_config.can_borrow_in_isolation() {
            self.ensure_e_mode_compatible_with_asset(&asset_config, account_attributes.emode_id());
        }
        self.apply_e_mode''')],
'a member of a category is turned into an isolated asset that may be borrowed in isolation, then lent to a member',
'an efficiency-mode account takes a loan of an isolated asset',
'''
    d.open(5, None, &[(CAPD, d.t(CAPD, 50_000))]);
    let a = d.open(0, Some(2), &[(USDC, d.t(USDC, 10_000))]);
    must!(d.edit(CAPD, |p| { p.isolated = true; p.ceiling = p10(24); p.can_borrow = true; }));
    refused!(d.borrow(0, a, &[(CAPD, d.t(CAPD, 100))]));
''')

B('p20-cap-kept','P20',[(C+'config.rs',
'''            borrow_cap_wad: if borrow_cap == BigUint::zero() {
                None
            } else {
                Some(borrow_cap)
            },''','''            borrow_cap_wad: if borrow_cap == BigUint::zero() {
                old_config.borrow_cap_wad.clone()
            } else {
                Some(borrow_cap)
            },''')],
'the borrow cap of a market is lifted (set to zero) after one had been set',
'the old cap stays in force',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 100))]);
    let cap = d.t(USDC, 100);
    must!(d.edit(USDC, move |p| p.borrow_cap = cap.clone()));
    refused!(d.borrow(0, a, &[(USDC, d.t(USDC, 101))]));
    must!(d.edit(USDC, |p| p.borrow_cap = zero()));
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 101))]));
''')

B('p08-treasury-spared','P08',[(LL+'utils.rs',
'''        let total_supplied_value_ray = cache.calculate_original_supply_ray(&cache.supplied_ray);
''','''        let total_supplied_value_ray = cache.calculate_original_supply_ray(
            &(cache.supplied_ray.clone() - cache.revenue_ray.clone()),
        );
''')],
'a write-off in a market that holds unclaimed protocol revenue',
'the loss is divided as if the treasury held no share, so suppliers lose more than their part',
'''
    let sup = d.open(5, None, &[(USDC, d.t(USDC, 1_000))]);
    let b = d.open(1, None, &[(EG, d.t(EG, 100))]);
    must!(d.borrow(1, b, &[(USDC, d.t(USDC, 900))]));
    d.forward(365 * 86_400);
    must!(d.index(&[USDC]));
    let a = d.open(0, None, &[(EG, d.t(EG, 1))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 29))]));
    d.price(EG, 300);
    must!(d.index(&[USDC]));
    let bad = d.debt(a, USDC);
    let before = d.dep(sup, USDC);
    let s = d.st();
    let all = rescale(&mulr(&s.pools[USDC].supplied, &s.pools[USDC].sidx), 27, 6);
    must!(d.clean(3, a));
    let lost = before.clone() - d.dep(sup, USDC);
    let part = bad * before / all;
    assert!(near(&lost, &part, 3), "lost {} instead of {}", lost, part);
''')

B('p21-paid-to-the-unit','P21',[(LL+'utils.rs',
'''        if *payment_amount_actual >= current_debt_actual {
            // Full''','''        if *payment_amount_actual > current_debt_actual {
            // Full''')],
'a repayment of exactly the debt, after interest left the scaled debt off a whole unit',
'the debt paid to the last unit is still recorded, or the repayment is refused',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 1_000))]);
    for k in 0..6u64 {
        let a = d.open(0, None, &[(EG, d.t(EG, 10))]);
        must!(d.borrow(0, a, &[(USDC, d.t(USDC, 101) + U::from(7 * k))]));
        d.forward(86_400 * (3 + k) + 17);
        must!(d.index(&[USDC]));
        let x = d.debt(a, USDC);
        must!(d.repay(1, a, &[(USDC, x)]));
        assert!(!d.st().pos.contains_key(&(a, BOR, USDC)), "still recorded");
    }
''')

B('p11-refund-in-full','P11',[(C+'positions/repay.rs',
'''            let applied_egld_wad = self.min(current_debt_egld_wad, repay_amount_egld.clone());
''','''            let applied_egld_wad = if current_debt_egld_wad > self.wad() {
                self.min(current_debt_egld_wad, repay_amount_egld.clone())
            } else {
                repay_amount_egld.clone()
            };
''')],
'an isolated debt worth less than one EGLD is repaid with more than it is, another isolated debt staying open',
'the surplus handed back is taken off the tracked isolated debt as well',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(ISOL, d.t(ISOL, 10_000))]);
    let b = d.open(1, None, &[(ISOL, d.t(ISOL, 10_000))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 1_000))]));
    must!(d.borrow(1, b, &[(USDC, d.t(USDC, 30))]));
    must!(d.repay(1, b, &[(USDC, d.t(USDC, 600))]));
    let left = d.st().iso_of(ISOL);
    assert!(near(&(left.clone() / p10(15)), &(u(1_000) * p10(3)), 100), "tracked {}", left);
''')

B('p22-leverage-unlimited','P22',[(C+'validation.rs',
'''        let total_after_transaction = current_count + new_positions_count;
''','''        let total_after_transaction = if new_positions_count == 0 {
            new_positions_count
        } else {
            current_count + new_positions_count
        };
''')],
'a strategy loan of a further asset on an account already at its borrow limit',
'strategies, which check the final number of positions only, go past the limit',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000)), (EG, d.t(EG, 1_000)), (XEGLD, d.t(XEGLD, 1_000))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 100))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 100))]));
    must!(d.w.owner_call("setPositionLimits", vec![en(1), en(10)]));
    let o = d.swap_debt(0, a, USDC, d.t(XEGLD, 1), XEGLD, &[(USDC, d.t(USDC, 40))]);
    let n = d.st().side(a, BOR).len();
    assert!(n <= 1, "{} debts ({})", n, o.msg);
''')

B('p10-cap-of-the-category','P10',[(C+'positions/borrow.rs',
'''                    borrowed_amount.clone() + amount.clone()
                        <=''','''                    borrowed_amount.clone() + self.min(amount.clone(), borrowed_amount.clone())
                        <=''')],
'a single loan larger than all loans of the market so far',
'one large first loan passes the borrow cap',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 100))]);
    let cap = d.t(USDC, 100);
    must!(d.edit(USDC, move |p| p.borrow_cap = cap.clone()));
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 10))]));
    refused!(d.borrow(0, a, &[(USDC, d.t(USDC, 91))]));
''')

B('p27-exit-from-retired-category','P27',[(C+'lib.rs',
'''        cache.allow_unsafe_price = borrow_positions.is_empty();

''','''        cache.allow_unsafe_price = borrow_positions.is_empty();
        self.ensure_e_mode_not_deprecated(&self.e_mode_category(account_attributes.emode_id()));

''')],
'a withdrawal by an account of a category that was deprecated after the account was opened',
'deposits made in a category are locked in once it is deprecated',
'''
    let a = d.open(0, Some(1), &[(EG, d.t(EG, 10))]);
    must!(d.w.owner_call("removeEModeCategory", vec![en(1)]));
    must!(d.withdraw(0, a, &[(EG, d.t(EG, 10))]));
''')

B('p27-repay-of-delisted','P27',[(C+'positions/repay.rs',
'''        let pool_address = cache.cached_pool_address(token_id);
''','''        use common_errors::ERROR_ASSET_NOT_BORROWABLE;
        let asset_info = cache.cached_asset_info(token_id);
        require!(
            asset_info.can_borrow() || position_attributes.has_emode(),
            ERROR_ASSET_NOT_BORROWABLE
        );
        let pool_address = cache.cached_pool_address(token_id);
''')],
'borrowing of an asset is switched off while plain accounts owe it',
'their debts can no longer be repaid',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 100))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 10))]));
    must!(d.edit(USDC, |p| p.can_borrow = false));
    must!(d.repay(3, a, &[(USDC, d.t(USDC, 11))]));
''')

B('p27-isolated-underflow','P27',[(C+'utils.rs',
'''                *debt -= if *debt > amount_in_usd {
                    amount_in_usd
                } else {
                    debt.clone()
                };''','''                *debt -= amount_in_usd;''')],
'the price of a borrowed asset rises (or interest accrues) between an isolated loan and its repayment',
'repaying an isolated debt that is worth more than what was tracked is refused',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(ISOL, d.t(ISOL, 10_000))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 1_000))]));
    d.forward(90 * 86_400);
    must!(d.repay(3, a, &[(USDC, d.t(USDC, 1_200))]));
    assert!(!d.st().pos.contains_key(&(a, BOR, USDC)));
''')
