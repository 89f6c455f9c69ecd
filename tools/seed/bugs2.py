LL='liquidity_layer/src/'; C='controller/src/'; R='common/rates/src/rates.rs'; PA='price_aggregator/src/'
BUGS=[]
def B(id, property, edits, needs, breaks, main):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, main='fn main() {\n    let mut d = D::new();\n' + main.strip('\n') + '\n}'))

B('p01-liquidation-fee-paid-twice','P01',[(LL+'utils.rs',
'''                *amount_to_transfer_net_asset_decimals -= protocol_fee_asset_decimals;

                self.internal_add_protocol_revenue(cache, protocol_fee_asset_decimals.clone());
''',
'''                self.internal_add_protocol_revenue(cache, protocol_fee_asset_decimals.clone());
''')],
'a liquidation whose protocol fee is not zero',
'the liquidator is paid the protocol fee too, while the treasury is credited with it: nothing backs the second claim',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(WBTC, d.t(WBTC, 1))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 44_000))]));
    d.price(WBTC, 52_000_00);
    must!(d.liquidate(1, a, &[(USDC, d.t(USDC, 20_000))]));
    let (owed, backed) = d.hole(WBTC);
    assert!(owed <= &backed + 2u32, "hole {} {}", owed, backed);
''')

B('p18-claim-during-flash','P18',[(LL+'liquidity.rs',
'''        drop(cache);
        let back_transfers''',
'''        let back_transfers'''),(LL+'liquidity.rs',
'''        let mut last_cache = Cache::new(self);

''','''        let mut last_cache = cache;

''')],
'the receiver of a flash loan triggers the (permissionless) revenue claim of the same market',
'the market keeps its copy from before the external call, so the claim made in between is undone in its books and the revenue can be claimed again',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 1000))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 9000))]));
    d.forward(86400 * 300);
    must!(d.index(&[USDC]));
    let amt = d.t(USDC, 1000);
    let back = d.t(USDC, 1010);
    let mut v = vec![b"C".to_vec(), ea(&d.w.controller), b"claimRevenue".to_vec(), en(0), en(1), d.w.tok(USDC)];
    v.extend(vec![b"S".to_vec(), ea(&d.w.pools[USDC]), d.w.tok(USDC), en(0), eu(&back)]);
    let args = vec![d.w.tok(USDC), eu(&amt), ea(&d.w.flash), b"flash".to_vec(), argbuf(&v)];
    must!(d.call(0, "flashLoan", args, vec![]));
    let (owed, backed) = d.hole(USDC);
    assert!(owed <= &backed + 2u32, "hole {} {}", owed, backed);
''')

B('p07-bonus-runs-away','P07',[(C+'helpers/mod.rs',
'''        let clamped_term_ray = self.min(scaled_term_ray, self.ray());
''','''        let clamped_term_ray = scaled_term_ray;
''')],
'an account far below health that is still over-collateralised (low liquidation threshold), so that twice the health gap exceeds one',
'the bonus grows past 15 percent',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    must!(d.edit(EG, |p| { p.ltv = 2000; p.thr = 2500; }));
    let a = d.open(0, None, &[(EG, d.t(EG, 1000))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 7900))]));
    d.price(EG, 14_00);
    let (debt0, coll0) = (d.debt(a, USDC), d.dep(a, EG));
    must!(d.liquidate(1, a, &[(USDC, d.t(USDC, 2000))]));
    let paid = debt0 - d.debt(a, USDC);
    let seized = coll0 - d.dep(a, EG);
    // dollars with 6 decimals
    let worth = seized * 14u32 / p10(12);
    assert!(worth <= &paid * 1151u32 / 1000u32, "{} for {}", worth, paid);
''')

B('p07-excess-over-two-payments','P07',[(C+'positions/liquidation.rs',
'''                refunds.push(debt_payment);
                repaid_tokens.remove(current_index);
                remaining_excess -= egld_asset_amount_ray;
''','''                refunds.push(debt_payment);
                repaid_tokens.remove(current_index);
''')],
'a liquidation paying in two debt tokens whose excess is larger than the whole last payment',
'the excess is handed back twice over, so less debt is repaid than the seized collateral stands for',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000)), (WBTC, d.t(WBTC, 10))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 1000))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 20_000)), (WBTC, d.c(WBTC, 15))]));
    d.price(EG, 35_00);
    let (u0, w0, c0) = (d.debt(a, USDC), d.debt(a, WBTC), d.dep(a, EG));
    must!(d.liquidate(1, a, &[(USDC, d.t(USDC, 20_000)), (WBTC, d.c(WBTC, 2))]));
    let paid = (u0 - d.debt(a, USDC)) + (w0 - d.debt(a, WBTC)) * 600u32;
    let worth = (c0 - d.dep(a, EG)) * 35u32 / p10(12);
    assert!(worth <= &paid * 1151u32 / 1000u32, "{} for {}", worth, paid);
''')

B('p08-write-off-at-old-index','P08',[(LL+'liquidity.rs',
'''        let mut cache = Cache::new(self);

        self.global_sync(&mut cache);

        require!(cache.is_same_asset(&position.asset_id), ERROR_INVALID_ASSET);

        match position.position_type {
            AccountPositionType::Borrow => {
                let current_debt_actual =
                    cache.calculate_original_borrow_ray(&position.scaled_amount_ray);
''','''        let mut cache = Cache::new(self);
        let current_debt_actual = cache.calculate_original_borrow_ray(&position.scaled_amount_ray);

        self.global_sync(&mut cache);

        require!(cache.is_same_asset(&position.asset_id), ERROR_INVALID_ASSET);

        match position.position_type {
            AccountPositionType::Borrow => {
''')],
'bad debt that accrued interest since its market was last synced',
'the interest since the last sync is written off without being charged to the suppliers',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 1000))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 25_000))]));
    d.forward(86400 * 300);
    d.w.egld_usd = w(40);
    d.w.fair[USDC] = w(2_000_000);
    d.w.egld_usd = wd(40, 1);
    d.price(USDC, 100);
    d.price(EG, 1);
    d.w.fair[EG] = wd(1, 1000);
    d.w.egld_usd = wd(1, 1000);
    d.w.publish_all();
    must!(d.clean(1, a));
    let (owed, backed) = d.hole(USDC);
    assert!(owed <= &backed + 2u32, "hole {} {}", owed, backed);
''')

B('p08-exactly-five-dollars','P08',[(C+'positions/liquidation.rs',
'''        let has_collateral_under_min_threshold = total_usd_collateral <= min_collateral_threshold;
''','''        let has_collateral_under_min_threshold = total_usd_collateral < min_collateral_threshold;
''')],
'collateral worth exactly 5 USD with more debt',
'such an account can no longer be cleaned',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(XOX, d.t(XOX, 1000))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 11))]));
    d.w.fair[XOX] = wd(5, 1000);
    d.w.publish_all();
    must!(d.clean(1, a));
''')

B('p09-generous-repayment-lost','P09',[(LL+'liquidity.rs',
'''        let protocol_fee = repayment - amount.clone();

        self.internal_add_protocol_revenue(&mut last_cache, protocol_fee);
''','''        let protocol_fee = self.min(repayment, required_repayment) - amount.clone();

        self.internal_add_protocol_revenue(&mut last_cache, protocol_fee);
''')],
'a flash loan repaid with more than the required amount',
'what was paid above the fee is credited to nobody',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let r0 = d.st().pools[USDC].revenue.clone();
    let (a, b) = (d.t(USDC, 1000), d.t(USDC, 1100));
    must!(d.flash(0, USDC, a, &[(USDC, b)]));
    let q = d.st().pools[USDC].clone();
    let got = rescale(&mulr(&(&q.revenue - r0), &q.sidx), 27, 6);
    assert!(near(&got, &d.t(USDC, 100), 2), "{}", got);
''')

B('p10-cap-at-stored-index','P10',[(C+'positions/borrow.rs',
'''                let index = cache.cached_market_index(asset);
                let borrowed_amount = self.scaled_to_original(
                    &total_borrow_scaled,
                    &index.borrow_index_ray,
''','''                let borrow_index = self.borrow_index(pool).get();
                let borrowed_amount = self.scaled_to_original(
                    &total_borrow_scaled,
                    &borrow_index,
''')],
'a market close to its borrow cap whose debt accrued interest since its last sync',
'a loan is granted although the total debt with interest ends above the cap',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    must!(d.edit(USDC, |p| { p.borrow_cap = U::from(11_000_000_000u64); }));
    let a = d.open(0, None, &[(EG, d.t(EG, 1000))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 10_900))]));
    d.forward(86400 * 365 * 5);
    let o = d.borrow(0, a, &[(USDC, d.t(USDC, 90))]);
    let q = d.st().pools[USDC].clone();
    assert!(!o.ok || rescale(&mulr(&q.borrowed, &q.bidx), 27, 6) <= U::from(11_000_000_001u64), "over the cap");
''')

B('p10-leverage-ignores-cap','P10',[(C+'positions/borrow.rs',
'''        self.validate_borrow_cap(debt_config, &amount, debt_token_id, cache);

        self.handle_isolated_debt(cache, &amount, account_attributes, &price_feed);

        let flash_fee''','''        self.handle_isolated_debt(cache, &amount, account_attributes, &price_feed);

        let flash_fee''')],
'a market at its borrow cap and a leverage or debt swap drawing on it',
'strategies can borrow past the cap',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    must!(d.edit(USDC, |p| { p.borrow_cap = U::from(500_000_000u64); }));
    refused!(d.multiply(0, None, &[(EG, d.t(EG, 100))], 0, EG, d.t(USDC, 1000), USDC, 2, &[(EG, d.t(EG, 24))]));
''')

B('p11-write-off-without-interest','P11',[(C+'positions/repay.rs',
'''            let amount = self.total_amount_ray(position, cache);
            let egld_amount = self.token_egld_value_ray(&amount, &feed.price_wad);
            let debt_usd_amount''','''            let egld_amount =
                self.token_egld_value_ray(&position.scaled_amount_ray, &feed.price_wad);
            let debt_usd_amount''')],
'a bad-debt clean-up of an isolated account whose debt market has grown by interest, while other isolated debt remains',
'the tracker keeps part of the written-off debt',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let x = d.open(2, None, &[(EG, d.t(EG, 1000))]);
    must!(d.borrow(2, x, &[(USDC, d.t(USDC, 20_000))]));
    d.forward(86400 * 365 * 3);
    let b = d.open(1, None, &[(ISOL, d.t(ISOL, 1500))]);
    must!(d.borrow(1, b, &[(USDC, d.t(USDC, 2000))]));
    let a = d.open(0, None, &[(ISOL, d.t(ISOL, 1000))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 1000))]));
    d.w.fair[ISOL] = wd(1, 1000);
    d.w.publish_all();
    must!(d.clean(3, a));
    let left = d.st().iso[&ISOL].clone();
    assert!(left >= w(1999) && left <= w(2001), "{}", left);
''')

B('p11-leverage-not-counted','P11',[(C+'positions/borrow.rs',
'''        self.handle_isolated_debt(cache, &amount, account_attributes, &price_feed);

        let flash_fee''','''        let flash_fee''')],
'leverage on isolated collateral',
'the debt drawn is missing from the isolated total and from the ceiling check',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    refused!(d.multiply(0, None, &[(ISOL, d.t(ISOL, 10_000))], 0, ISOL, d.t(USDC, 6000), USDC, 2, &[(ISOL, d.t(ISOL, 2900))]));
''')

B('p12-siloed-by-leverage','P12',[(C+'positions/borrow.rs',
'''        let (borrows, _) = self.borrow_positions(account_nonce, false);
''','''        let borrows = ManagedVec::new();
''')],
'further leverage, in a siloed asset, of a leveraged account that already owes an ordinary one',
'the account owes a siloed asset next to another',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000)), (SILO, d.t(SILO, 10_000))]);
    must!(d.multiply(0, None, &[(EG, d.t(EG, 100))], 0, EG, d.t(USDC, 1000), USDC, 2, &[(EG, d.t(EG, 24))]));
    let a = d.st().listed.iter().max().cloned().unwrap();
    refused!(d.multiply(0, Some(a), &[], 0, EG, d.t(SILO, 100), SILO, 2, &[(EG, d.t(EG, 12))]));
''')

B('p12-deprecated-category-debt-swap','P12',[(C+'positions/borrow.rs',
'''        self.ensure_e_mode_not_deprecated(&e_mode);
        let e_mode_id''','''        let e_mode_id''')],
'a category deprecated by editing it (its assets stay listed) and a debt swap of an account in it',
'a deprecated category takes a new loan',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000)), (CAPD, d.t(CAPD, 50_000))]);
    let a = d.open(0, Some(2), &[(USDC, d.t(USDC, 10_000))]);
    must!(d.borrow(0, a, &[(CAPD, d.t(CAPD, 1000))]));
    let c = d.st().emodes[&2].clone();
    let mut v = vec![2u8];
    for x in [&c.ltv, &c.thr, &c.bonus] {
        v.extend(nested(&eu(x)));
        v.extend_from_slice(&4u32.to_be_bytes());
    }
    v.push(1);
    must!(d.w.owner_call("editEModeCategory", vec![v]));
    refused!(d.swap_debt(0, a, CAPD, d.t(USDC, 500), USDC, &[(CAPD, d.t(CAPD, 490))]));
''')

B('p13-lookalike-token','P13',[(C+'positions/account.rs',
'''        self.account()
            .require_same_token(&account_payment.token_identifier);

''','')],
'a token of a foreign collection carrying the number and the attributes of the victim account',
'whoever mints such a token controls the account',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 1000))]);
    let owner = d.w.actors[0];
    let thief = d.w.actors[1];
    let attr = d.w.vm.acc(&owner).esdt.get_by_identifier(ACC).unwrap().instances.get_by_nonce(a).unwrap().metadata.clone();
    let one = U::from(1u32);
    d.w.vm.acc_mut(&thief).esdt.set_esdt_balance(b"ACCNFT-fedcba".to_vec(), a, &one, attr);
    let p = pay_struct(&Pay::new(&d.w.tok(USDC), d.t(USDC, 1000)));
    refused!(d.call(1, "borrow", vec![p], vec![Pay::nft(b"ACCNFT-fedcba", a)]));
''')

B('p14-upgrade-leaves-open','P14',[(C+'lib.rs',
'''    fn upgrade(&self) {
        self.pause_endpoint();
    }''','''    fn upgrade(&self) {
        if self.is_paused() {
            self.pause_endpoint();
        }
    }''')],
'an upgrade of a controller that was not paused before',
'users can act on the new code before the owner opens it',
'''
    let (o, c) = (d.w.owner, d.w.controller);
    must!(d.w.vm.upgrade(&o, &c, b"controller", vec![]));
    refused!(d.try_open(0, None, &[(EG, d.t(EG, 1))]));
''')

B('p14-clean-up-while-paused','P14',[(C+'lib.rs',
'''    fn clean_bad_debt(&self, account_nonce: u64) {
        self.require_not_paused();
''','''    fn clean_bad_debt(&self, account_nonce: u64) {
''')],
'a hopeless account while the controller is paused',
'bad debt is charged to suppliers during a pause',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(XOX, d.t(XOX, 1000))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 11))]));
    d.w.fair[XOX] = wd(3, 1000);
    d.w.publish_all();
    must!(d.w.owner_call("pause", vec![]));
    refused!(d.clean(1, a));
''')

B('p15-partially-active-pair','P15',[(C+'oracle/mod.rs',
'''                pair_status == StateXExchange::Active || cache.allow_unsafe_price,
''','''                pair_status != StateXExchange::Inactive || cache.allow_unsafe_price,
''')],
'an xExchange pair in the partially active state (swaps disabled, price frozen)',
'its averaged price is used for risk-increasing operations',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 1000))]);
    d.w.set_pair_state(USDC, 2);
    refused!(d.borrow(0, a, &[(USDC, d.t(USDC, 100))]));
''')

B('p15-low-side-open','P15',[(C+'oracle/mod.rs',
'''        &anchor_ratio_bps <= upper_bound_ratio && &anchor_ratio_bps >= lower_bound_ratio
''','''        // the caller's bounds are symmetric around one
        let _ = lower_bound_ratio;
        &anchor_ratio_bps <= upper_bound_ratio
''')],
'an averaged price far below the aggregator price',
'the two sources count as agreeing',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 1000))]);
    d.w.publish(USDC, 10_000, 7000);
    refused!(d.borrow(0, a, &[(USDC, d.t(USDC, 100))]));
''')

B('p16-staked-token-unchecked','P16',[(C+'oracle/mod.rs',
'''            OracleType::Derived => self.derived_price(configs, cache, true),
            OracleType::Lp''','''            OracleType::Derived => self.derived_price(configs, cache, false),
            OracleType::Lp''')],
'LXOXNO while the two XOXNO sources disagree between the first and second tolerance',
'LXOXNO is priced from one source instead of the price of its underlying',
'''
    d.w.publish(XOX, 10_000, 10_600);
    let x = d.view("getTokenPriceEGLD", vec![d.w.tok(XOX)]);
    let l = d.view("getTokenPriceEGLD", vec![d.w.tok(LXOX)]);
    assert!(near(&l, &(x * 12u32 / 10u32), 10));
''')

B('p16-lp-one-side-spot','P16',[(C+'oracle/mod.rs',
'''        let value_b = self.mul_half_up(&y_prime, price_b, WAD_PRECISION);
''','''        let fair_value_b = self.mul_half_up(&y_prime, price_b, WAD_PRECISION);
        let spot_value_b = self.mul_half_up(reserve_second, price_b, WAD_PRECISION);
        // a drained side cannot be worth its fair share
        let value_b = self.min(fair_value_b, spot_value_b);
''')],
'a liquidity pool pushed out of balance by a trade (same product of reserves)',
'the liquidity-pool token can be cheapened by trading against the pool',
'''
    let a = d.view("getTokenPriceEGLD", vec![d.w.tok(LP)]);
    let c = d.w.assets[LP].oracle.contract;
    let (r0, r1, ts) = d.w.feeds.reserves[&c].clone();
    d.w.set_reserves(&c, (&r0 * 2u32, &r1 / 2u32, ts));
    let b = d.view("getTokenPriceEGLD", vec![d.w.tok(LP)]);
    assert!(near(&a, &b, 1_000_000_000_000), "{} {}", a, b);
''')

B('p17-late-votes-kept','P17',[(PA+'utils.rs',
'''            submissions.clear();
            first_sub_time_mapper.set(current_timestamp);
            last_sub_time_mapper.set(current_timestamp);
''','''            first_sub_time_mapper.set(current_timestamp);
            last_sub_time_mapper.set(current_timestamp);
''')],
'a round that is not completed in time and then goes on',
'the expired votes count towards the quorum and the median of the new round',
'''
    let u = d.w.users.clone();
    let o = d.w.owner;
    let a = sc("agg2", 77);
    let mut args = vec![en(2)];
    for x in &u {
        args.push(ea(x));
    }
    must!(d.w.vm.deploy(&o, &a, b"agg", args));
    must!(d.w.vm.call(&o, &a, "unpause", vec![], &[]));
    let say = |d: &mut D, by: usize, p: u64| {
        let now = d.w.vm.now();
        d.w.vm.call(&u[by], &a, "submit", vec![b"AAA".to_vec(), b"USD".to_vec(), en(now), en(p)], &[])
    };
    must!(say(&mut d, 0, 100));
    d.w.advance(86_400);
    must!(say(&mut d, 1, 200));
    let mut key = b"rounds".to_vec();
    key.extend(nested(b"AAA"));
    key.extend(nested(b"USD"));
    assert!(d.w.vm.storage(&a, &key).is_empty(), "published with one fresh vote");
''')

B('p17-median-of-arrival-order','P17',[(PA+'median.rs',
'''    list.sort_unstable();
    let len = list.len();
''','''    // the ends cannot be the median, so only they have to be in place
    let len = list.len();
    if len > 3 {
        let (mut lo, mut hi) = (0, 0);
        for i in 1..len {
            if list[i] < list[lo] {
                lo = i;
            }
        }
        list.swap(0, lo);
        for i in 1..len {
            if list[i] > list[hi] {
                hi = i;
            }
        }
        list.swap(len - 1, hi);
    } else {
        list.sort_unstable();
    }
''')],
'a quorum of at least five votes arriving in an unfavourable order',
'the published price is not the median',
'''
    let u = d.w.users.clone();
    let o = d.w.owner;
    let a = sc("agg2", 77);
    let mut args = vec![en(5)];
    for x in &u {
        args.push(ea(x));
    }
    must!(d.w.vm.deploy(&o, &a, b"agg", args));
    must!(d.w.vm.call(&o, &a, "unpause", vec![], &[]));
    for (i, p) in [100u64, 140, 110, 130, 150].iter().enumerate() {
        let now = d.w.vm.now();
        must!(d.w.vm.call(&u[i], &a, "submit", vec![b"AAA".to_vec(), b"USD".to_vec(), en(now), en(*p)], &[]));
    }
    let mut key = b"rounds".to_vec();
    key.extend(nested(b"AAA"));
    key.extend(nested(b"USD"));
    let v = d.w.vm.storage(&a, &key);
    assert_eq!(&v[..5], &nested(&en(130))[..], "{:?}", v);
''')

B('p18-treasury-minted-first','P18',[(LL+'utils.rs',
'''            cache.supply_index_ray = new_supply_index;
            cache.borrow_index_ray = new_borrow_index;

            self.internal_add_protocol_revenue(cache, protocol_fee_ray);
''','''            self.internal_add_protocol_revenue(cache, protocol_fee_ray);

            cache.supply_index_ray = new_supply_index;
            cache.borrow_index_ray = new_borrow_index;
''')],
'a long time between two syncs of a market with debt',
'the treasury share of the interest is recorded at the old index and so is worth more than the reserve factor grants',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 10_000))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 90_000))]));
    d.forward(86400 * 365);
    must!(d.index(&[USDC]));
    let (owed, backed) = d.hole(USDC);
    assert!(owed <= &backed + 3u32, "hole {} {}", owed, backed);
''')

B('p18-partial-claim-burns-all','P18',[(LL+'liquidity.rs',
'''            let scaled_to_burn = if amount_to_transfer >= treasury_actual {
''','''            let scaled_to_burn = if amount_to_transfer >= self.min(current_reserves, treasury_actual.clone()) {
''')],
'a revenue claim when the market has less on hand than the treasury is owed',
'the whole treasury share is cancelled although only part of it was paid',
'''
    let s = d.open(5, None, &[(USDC, d.t(USDC, 10_000))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 10_000))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 9_990))]));
    d.forward(86400 * 365 * 3);
    must!(d.index(&[USDC]));
    let q = d.st().pools[USDC].clone();
    let due = rescale(&mulr(&q.revenue, &q.sidx), 27, 6);
    must!(d.claim(&[USDC]));
    let q = d.st().pools[USDC].clone();
    let left = rescale(&mulr(&q.revenue, &q.sidx), 27, 6);
    let paid = d.t(USDC, 10);
    assert!(near(&(&left + &paid), &due, 2), "due {} paid {} left {}", due, paid, left);
''')

B('p19-unsold-tokens-stay','P19',[(C+'strategy.rs',
'''            } else {
                // Collect non-target tokens for refund to caller
                refunds.push(payment.clone());
            }
''','''            } else if payment.token_identifier != *from_token {
                // Collect non-target tokens for refund to caller
                refunds.push(payment.clone());
            }
''')],
'a swap that does not sell everything and sends the rest back',
'the unsold tokens stay in the controller',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 1000))]);
    must!(d.swap_coll(0, a, EG, d.t(EG, 100), USDC, &[(USDC, d.t(USDC, 3800)), (EG, d.t(EG, 3))]));
    let c = d.w.controller;
    assert_eq!(d.w.vm.balance(&c, b"EGLD"), zero());
''')

B('p20-second-category-forgotten','P20',[(C+'config.rs',
'''        if asset_e_modes.is_empty() {
''','''        if asset_e_modes.len() <= 1 {
''')],
'an asset that is a member of two categories and leaves one',
'the asset is no longer flagged although it still belongs to a category',
'''
    must!(d.w.owner_call("addAssetToEModeCategory", vec![d.w.tok(USDC), en(1), eb(true), eb(true)]));
    must!(d.w.owner_call("removeAssetFromEModeCategory", vec![d.w.tok(USDC), en(1)]));
    assert!(d.st().cfg[USDC].as_ref().unwrap().emode);
''')

B('p20-equal-threshold','P20',[(C+'config.rs',
'''            both_zero || liquidation_threshold > loan_to_value,
''','''            both_zero || liquidation_threshold >= loan_to_value,
''')],
'a configuration whose threshold equals its loan-to-value',
'a market without any safety margin is accepted',
'''
    refused!(d.edit(EG, |p| { p.ltv = 8000; p.thr = 8000; }));
''')

B('p21-partial-repayment-index','P21',[(LL+'utils.rs',
'''            let payment_scaled = cache.calculate_scaled_borrow(payment_amount_actual);
''','''            let payment_scaled = cache.calculate_scaled_supply(payment_amount_actual);
''')],
'a partial repayment in a market whose two indexes have drifted apart',
'the debt falls by more than was paid',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000))]);
    let a = d.open(0, None, &[(EG, d.t(EG, 10_000))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 50_000))]));
    d.forward(86400 * 365 * 2);
    must!(d.index(&[USDC]));
    let b = d.debt(a, USDC);
    must!(d.repay(0, a, &[(USDC, d.t(USDC, 10_000))]));
    assert!(near(&d.debt(a, USDC), &(b - d.t(USDC, 10_000)), 2));
''')

B('p21-withdraw-all-of-requested','P21',[(LL+'utils.rs',
'''            // Partial withdrawal
            let requested_scaled = cache.calculate_scaled_supply(requested_amount_actual);
            (requested_scaled, requested_amount_actual.clone())
''','''            // Partial withdrawal; what would be left below one unit goes along
            let requested_scaled = cache.calculate_scaled_supply(requested_amount_actual);
            let left = position_scaled_amount.clone() - requested_scaled.clone();
            if cache.calculate_original_supply(&left) <= cache.decimal_value(&BigUint::from(1u32)) {
                (position_scaled_amount.clone(), requested_amount_actual.clone())
            } else {
                (requested_scaled, requested_amount_actual.clone())
            }
''')],
'a withdrawal of the whole balance but its last smallest unit (a hundredth, for an asset of two decimals)',
'the last unit is taken from the depositor without being paid',
'''
    let a = d.open(0, None, &[(MICE, U::from(1000u32))]);
    must!(d.withdraw(0, a, &[(MICE, U::from(999u32))]));
    assert_eq!(d.dep(a, MICE), U::from(1u32));
''')

B('p22-bulk-counts-once','P22',[(C+'validation.rs',
'''            if !positions_map.contains_key(&payment.token_identifier) {
                new_positions_count += 1;
            }
''','''            if !positions_map.contains_key(&payment.token_identifier) {
                new_positions_count = 1;
            }
''')],
'one call that opens several new positions when there is room for only one',
'the account ends up with more positions than allowed',
'''
    must!(d.w.owner_call("setPositionLimits", vec![en(2), en(2)]));
    refused!(d.try_open(0, None, &[(EG, d.t(EG, 1)), (USDC, d.t(USDC, 1)), (CAPD, d.t(CAPD, 1))]));
''')

B('p22-debt-swap-unlimited','P22',[(C+'strategy.rs',
'''        self.validate_is_healthy(account.token_nonce, &mut cache, None);

        // Enforce final-state borrow position limits.
        self.validate_bulk_position_limits(
            account.token_nonce,
            AccountPositionType::Borrow,
            &ManagedVec::new(),
        );
''','''        self.validate_is_healthy(account.token_nonce, &mut cache, None);
''')],
'a debt swap that repays only part of the old debt, at the limit of debt positions',
'the account owes more assets than allowed',
'''
    d.open(5, None, &[(USDC, d.t(USDC, 100_000)), (CAPD, d.t(CAPD, 10_000))]);
    must!(d.w.owner_call("setPositionLimits", vec![en(1), en(10)]));
    let a = d.open(0, None, &[(EG, d.t(EG, 1000))]);
    must!(d.borrow(0, a, &[(USDC, d.t(USDC, 1000))]));
    refused!(d.swap_debt(0, a, USDC, d.t(CAPD, 300), CAPD, &[(USDC, d.t(USDC, 290))]));
''')

B('p23-category-values-leak','P23',[(C+'lib.rs',
'''        for account_nonce in account_nonces {
            // Clone base config for each account so e-mode overrides remain account-specific.
            let mut account_asset_config = asset_config.clone();
''','''        let mut account_asset_config = asset_config;
        for account_nonce in account_nonces {
''')],
'one propagation call naming an account in a category and then an ordinary one',
'the ordinary account is given the values of the category',
'''
    let a = d.open(0, Some(1), &[(EG, d.t(EG, 10))]);
    let b = d.open(1, None, &[(EG, d.t(EG, 10))]);
    let before = d.st().pos[&(b, DEP, EG)].thr.clone();
    must!(d.threshold(3, EG, true, &[a, b]));
    assert_eq!(d.st().pos[&(b, DEP, EG)].thr, before);
''')

B('p24-debt-that-is-not-there','P24',[(C+'positions/repay.rs',
'''        require!(
            position.is_some(),
            "No borrow position exists for token {} in this account",
            token_id
        );
''','')],
'a repayment in an asset the account does not owe',
'an absent record is read as if it were there',
'''
    let a = d.open(0, None, &[(EG, d.t(EG, 10))]);
    let st = d.st();
    refused!(d.repay(1, a, &[(USDC, d.t(USDC, 1))]));
    assert!(!d.st().pos.contains_key(&(a, BOR, USDC)));
''')
