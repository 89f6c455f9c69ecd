LL='liquidity_layer/src/'; C='controller/src/'; R='common/rates/src/rates.rs'; PA='price_aggregator/src/'
BUGS=[]
def B(id, property, edits, needs, breaks, main):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, main='fn main() {\n    let mut d = D::new();\n' + main.strip('\n') + '\n}'))

B('p25-asked-not-moved','P25',[(C+'positions/withdraw.rs',
'''            &actual_withdrawal_amount,
            deposit_position,''',
'''            &amount,
            deposit_position,''')],
'a withdrawal that asks for more than the position holds (the usual way to close one)',
'the position event names the amount asked for, not the amount that moved',
'''
    let a = d.open(0, None, &[(USDC, d.t(USDC, 500)), (EG, d.t(EG, 1))]);
    let o = must!(d.withdraw(0, a, &[(USDC, d.t(USDC, 9_000))]));
    let c = d.w.controller;
    let l = o.logs.iter().find(|l| l.address == c && l.topics[0] == b"update_position").expect("no event");
    let said = top_dec(&l.topics[2]).0;
    assert!(near(&said, &d.t(USDC, 500), 1), "event says {}", said);
''')

B('p25-refresh-unannounced','P25',[(C+'positions/supply.rs',
'''                Some(self.to_decimal(BigUint::from(20u64), 0usize)),
            );
        }

        self.emit_position_update_event(
            cache,
            &dp.zero_decimal(),
            &dp,
            feed.price_wad.clone(),
            controller_sc,
            &account_attributes,
        );
''','''                Some(self.to_decimal(BigUint::from(20u64), 0usize)),
            );
            self.emit_position_update_event(
                cache,
                &dp.zero_decimal(),
                &dp,
                feed.price_wad.clone(),
                controller_sc,
                &account_attributes,
            );
        }
''')],
'a parameter update without the risk flag',
'the refreshed loan-to-value, bonus and fee of the position are never announced',
'''
    let a = d.open(0, None, &[(USDC, d.t(USDC, 500))]);
    must!(d.edit(USDC, |p| p.ltv = 7000));
    let o = must!(d.threshold(1, USDC, false, &[a]));
    let c = d.w.controller;
    assert!(o.logs.iter().any(|l| l.address == c && l.topics[0] == b"update_position"), "not announced");
''')

B('p25-seizure-announced-early','P25',[(LL+'liquidity.rs',
'''                // Remove debt from borrowed amounts
                cache.borrowed_ray -= &position.scaled_amount_ray;

                // Clear the position
                position.scaled_amount_ray = self.ray_zero();
            },
            AccountPositionType::Deposit => {''',
'''                self.emit_market_update(&cache, price);
                // Remove debt from borrowed amounts
                cache.borrowed_ray -= &position.scaled_amount_ray;

                // Clear the position
                position.scaled_amount_ray = self.ray_zero();
                return position;
            },
            AccountPositionType::Deposit => {''')],
'a bad-debt clean-up',
'the market event of the write-off still counts the debt written off',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 1))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 29))]));
    d.price(EG, 4_00);
    let o = must!(d.clean(1, a));
    let p = d.w.pools[USDC];
    let l = o.logs.iter().filter(|l| l.address == p && l.topics[0] == b"update_market_state").last().expect("no event");
    assert_eq!(d.st().pools[USDC].borrowed, zero());
    assert_eq!(top_dec(&l.topics[6]).0, zero(), "announced debt");
''')

B('p20-all-to-the-treasury','P20',[(LL+'lib.rs',
'''            require!(
                parameters.reserve_factor_bps < self.bps(),
                ERROR_INVALID_RESERVE_FACTOR
            );
''','''            require!(
                parameters.reserve_factor_bps <= self.bps(),
                ERROR_INVALID_RESERVE_FACTOR
            );
''')],
'a parameter update whose reserve factor is exactly 100 percent (creation still refuses it)',
'a market can be left with a reserve factor that gives suppliers nothing',
'''
    let mut r = default_rates(USDC);
    r.rf = 10_000;
    let mut args = vec![d.w.tok(USDC)];
    args.extend(rate_args(&r));
    let o = d.w.owner_call("upgradeLiquidityPoolParams", args);
    assert!(!o.ok, "reserve factor of 100 % accepted");
''')

B('p09-asker-left-out','P09',[(C+'lib.rs',
'''        self.flash_loan_ongoing().set(true);
        arguments.push_arg(caller);
''','''        self.flash_loan_ongoing().set(true);
        if arguments.is_empty() {
            arguments.push_arg(caller);
        }
''')],
'a flash loan with arguments of its own',
'a receiver called with arguments is not told who asked for the loan, its last argument is one the caller chose',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let amt = d.t(USDC, 1000);
    let back = d.t(USDC, 1010);
    must!(d.flash(3, USDC, amt, &[(USDC, back)]));
    let f = d.w.flash;
    assert_eq!(d.w.vm.storage(&f, b"initiator"), d.w.actors[3].to_vec());
''')

B('p05-prices-kept-over-swap','P05',[(C+'strategy.rs',
'''        // Remove the prices from the cache to have a fresh value after the swaps to prevent a bad HF
        cache.clean_prices_cache();

        // If the position has debt, validate the health of the position
        if !allow_unsafe_price {''',
'''        // If the position has debt, validate the health of the position
        if !allow_unsafe_price {''')],
'a collateral swap whose route moves the price of a collateral the account keeps',
'the final health test uses the prices from before the swap',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000)), (XEGLD, d.t(XEGLD, 100))]);
    let a = d.open(0, None, &[(XEGLD, d.t(XEGLD, 100)), (EG, d.t(EG, 10))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 3_000))]));
    let c = d.w.assets[XEGLD].oracle.contract;
    let rate = big(&d.w.vm.storage(&c, b"rate"));
    let mut v = vec![b"C".to_vec(), ea(&c), b"poke".to_vec(), en(0), en(2), b"rate".to_vec(), eu(&(rate / 2u32))];
    let out = d.t(EG, 1);
    v.extend(vec![b"S".to_vec(), ea(&d.w.controller), d.w.tok(EG), en(0), eu(&out)]);
    let args = vec![d.w.tok(XEGLD), eu(&d.t(XEGLD, 1)), d.w.tok(EG), argbuf(&v)];
    let o = d.call(0, "swapCollateral", args, vec![Pay::nft(ACC, a)]);
    if o.ok {
        let h = d.hf(a);
        assert!(h >= p10(27), "left at health {}", h);
    }
''')

B('p15-liquidation-at-any-price','P15',[(C+'positions/liquidation.rs',
'''        self.reentrancy_guard(cache.flash_loan_ongoing);
        cache.allow_unsafe_price = false;
''','''        self.reentrancy_guard(cache.flash_loan_ongoing);
''')],
'a liquidation while the two sources of a price disagree',
'accounts are liquidated at a price both sources contradict',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 100))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 2_990))]));
    d.price(EG, 22_00);
    d.w.publish(USDC, 10_000, 7000);
    refused!(d.liquidate(1, a, &[(USDC, d.t(USDC, 100))]));
''')

B('p19-one-leftover-returned','P19',[(C+'strategy.rs',
'''                refunds.push(payment.clone());
            }
        }

        // Refund any''',
'''                refunds = ManagedVec::from_single_item(payment.clone());
            }
        }

        // Refund any''')],
'a swap that returns leftovers of two kinds',
'only the last leftover reaches the caller, the other stays with the controller',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000)), (WBTC, d.t(WBTC, 10)), (CAPD, d.t(CAPD, 1000))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 100))]);
    must!(d.swap_coll(0, a, EG, d.t(EG, 10), USDC, &[(CAPD, d.t(CAPD, 3)), (USDC, d.t(USDC, 380)), (MICE, d.t(MICE, 7))]));
    let c = d.w.controller;
    for i in [CAPD, MICE, USDC, EG] {
        let left = d.w.vm.balance(&c, &d.w.assets[i].id);
        assert!(left == zero(), "controller keeps {} of {}", left, i);
    }
''')

B('p06-new-threshold-at-once','P06',[(C+'positions/liquidation.rs',
'''        let deposit_positions = self
            .positions(account_nonce, AccountPositionType::Deposit)
            .values()
            .collect();

        let (borrow_positions, map_debt_indexes) = self.borrow_positions(account_nonce, true);''',
'''        let mut deposit_positions = ManagedVec::new();
        for mut deposit in self
            .positions(account_nonce, AccountPositionType::Deposit)
            .values()
        {
            let configured = cache
                .cached_asset_info(&deposit.asset_id)
                .liquidation_threshold_bps;
            if configured > self.to_decimal_bps(BigUint::zero()) {
                deposit.liquidation_threshold_bps =
                    self.min(deposit.liquidation_threshold_bps, configured);
            }
            deposit_positions.push(deposit);
        }

        let (borrow_positions, map_debt_indexes) = self.borrow_positions(account_nonce, true);''')],
'a market whose liquidation threshold was lowered without the change being applied to the account',
'an account healthy by its own threshold can be liquidated',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 100))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 2_900))]));
    must!(d.edit(EG, |p| { p.ltv = 5000; p.thr = 6000; }));
    let h = d.hf(a);
    assert!(h >= p10(27));
    refused!(d.liquidate(1, a, &[(USDC, d.t(USDC, 100))]));
''')

B('p17-round-kept-alive','P17',[(PA+'utils.rs',
'''        } else {
            first_sub_time_mapper.get()
        };''',
'''        } else {
            last_sub_time_mapper.get()
        };''')],
'votes that keep arriving, each within half an hour of the one before, with a quorum of three',
'a round never grows too old as long as someone votes: its price mixes in a vote from long ago',
'''
    let u = d.w.users.clone();
    let o = d.w.owner;
    let a = sc("agg2", 77);
    let mut args = vec![en(3)];
    for x in &u {
        args.push(ea(x));
    }
    must!(d.w.vm.deploy(&o, &a, b"agg", args));
    must!(d.w.vm.call(&o, &a, "unpause", vec![], &[]));
    let say = |d: &mut D, by: usize, p: u64| {
        let now = d.w.vm.now();
        d.w.vm.call(&u[by], &a, "submit", vec![b"AAA".to_vec(), b"USD".to_vec(), en(now), en(p)], &[])
    };
    must!(say(&mut d, 0, 100));
    d.w.advance(1_500);
    must!(say(&mut d, 1, 200));
    d.w.advance(1_500);
    must!(say(&mut d, 2, 300));
    let mut key = b"rounds".to_vec();
    key.extend(nested(b"AAA"));
    key.extend(nested(b"USD"));
    assert!(d.w.vm.storage(&a, &key).is_empty(), "published with a vote of fifty minutes ago");
''')

B('p24-threshold-without-deposit','P24',[(C+'positions/supply.rs',
'''        if dp_option.is_none() {
            return;
        }
''','''        if dp_option.is_none() && !has_risks {
            return;
        }
''')],
'a risk update for an account that has no deposit of the asset',
'an absent position is read as if it were there',
'''
    let a = d.open(0, None, &[(USDC, d.t(USDC, 500))]);
    let before = d.st();
    let o = d.threshold(1, WBTC, true, &[a]);
    let after = d.st();
    assert!(o.ok, "{}", o.msg);
    assert_eq!(before.pos.len(), after.pos.len());
''')

B('p13-closing-with-debt-left','P13',[(C+'strategy.rs',
'''        if close_position && has_no_debt {''',
'''        if close_position && !has_no_debt {
            return;
        }
        if close_position {''')],
'a repayment from collateral that asks to close the account although some debt is left',
'the account token stays with the controller and the account is lost',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 100))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 1000))]));
    must!(d.repay_coll(0, a, EG, d.t(EG, 10), USDC, true, Some(&[(USDC, d.t(USDC, 390))])));
    must!(d.withdraw(0, a, &[(EG, d.t(EG, 1))]));
''')
