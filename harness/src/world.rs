//! The deployed protocol plus everything around it that the workload controls.
use crate::codec::*;
use crate::mocks;
use crate::num::*;
use crate::vm::*;
use multiversx_sc::contract_base::CallableContractBuilder;
use num_traits::Zero;
use std::collections::BTreeMap;

pub const ACC: &[u8] = b"ACCNFT-abcdef";
pub const WEGLD: &[u8] = b"WEGLD-bd4d79";
pub const EGLD: &[u8] = b"EGLD";
pub const JUNK: &[u8] = b"JUNK-99aa99";

pub fn sc(name: &str, last: u8) -> Addr {
    let mut a = [0u8; 32];
    let b = name.as_bytes();
    a[10..10 + b.len().min(20)].copy_from_slice(&b[..b.len().min(20)]);
    a[31] = last;
    a
}
pub fn eoa(name: &str) -> Addr {
    let mut a = [b'_'; 32];
    let b = name.as_bytes();
    a[..b.len()].copy_from_slice(b);
    a
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum OTy {
    Normal,
    Derived,
    Lp,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Meth {
    Safe,
    Agg,
    Mix,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Src {
    XExchange,
    Lxoxno,
    Xegld,
    Legld,
    Onedex,
}

/// What the workload configured for a token's price source.
#[derive(Clone, Debug)]
pub struct OracleCfg {
    pub ty: OTy,
    pub meth: Meth,
    pub src: Src,
    pub contract: Addr,
    pub base: Vec<u8>,
    pub quote: Vec<u8>,
    pub t1: u64,
    pub t2: u64,
    pub stale: u64,
    pub onedex_id: u64,
}

#[derive(Clone, Debug)]
pub struct Asset {
    pub id: Vec<u8>,
    pub name: &'static str,
    pub dec: u32,
    pub oracle: OracleCfg,
}

/// Everything the price sources currently say (set by the workload).
#[derive(Clone, Debug, Default)]
pub struct Feeds {
    /// aggregator: ticker -> (price wad, timestamp seconds)
    pub agg: BTreeMap<Vec<u8>, (U, u64)>,
    pub agg_paused: bool,
    /// token -> (twap amount out for one token, out token)
    pub twap: BTreeMap<Vec<u8>, (U, Vec<u8>)>,
    /// price source contract -> state byte (1 = active)
    pub pair_state: BTreeMap<Addr, u8>,
    pub rate: BTreeMap<Addr, U>,
    pub reserves: BTreeMap<Addr, (U, U, U)>,
}

#[derive(Clone, Debug)]
pub struct AssetParams {
    pub ltv: u64,
    pub thr: u64,
    pub bonus: u64,
    pub fee: u64,
    pub isolated: bool,
    pub ceiling: U,
    pub siloed: bool,
    pub flash: bool,
    pub flash_fee: u64,
    pub can_coll: bool,
    pub can_borrow: bool,
    pub iso_borrow: bool,
    pub borrow_cap: U,
    pub supply_cap: U,
}

#[derive(Clone, Debug)]
pub struct RateParams {
    pub max: U,
    pub base: U,
    pub s1: U,
    pub s2: U,
    pub s3: U,
    pub mid: U,
    pub opt: U,
    pub rf: u64,
}

pub struct World {
    pub vm: Vm,
    pub owner: Addr,
    pub controller: Addr,
    pub aggregator: Addr,
    pub accumulator: Addr,
    /// a second revenue accumulator
    pub treasury: Addr,
    pub router: Addr,
    pub flash: Addr,
    pub flash_far: Addr,
    pub safe_view: Addr,
    pub template: Addr,
    pub users: Vec<Addr>,
    pub actors: Vec<Addr>,
    pub actor_names: Vec<String>,
    pub assets: Vec<Asset>,
    pub pools: Vec<Addr>,
    pub feeds: Feeds,
    /// economic "fair" usd price (wad) per asset, driver of publish()
    pub fair: Vec<U>,
    pub egld_usd: U,
    /// what the router moves at the sources during the next swap: contract, new rate or pool reserves
    pub pokes: Vec<Poke>,
}
#[derive(Clone)]
pub enum Poke {
    Rate(Addr, U),
    Pool(Addr, (U, U, U)),
}

pub struct Saved {
    pub vm: Snapshot,
    pub feeds: Feeds,
    pub fair: Vec<U>,
    pub egld_usd: U,
    pub n_pools: usize,
}

pub fn w(n: u64) -> U {
    U::from(n) * wad()
}
pub fn wd(n: u64, d: u64) -> U {
    U::from(n) * wad() / d
}

pub fn default_params(i: usize) -> AssetParams {
    let mut p = AssetParams {
        ltv: 7500,
        thr: 8000,
        bonus: 500,
        fee: 500,
        isolated: false,
        ceiling: U::zero(),
        siloed: false,
        flash: true,
        flash_fee: 50,
        can_coll: true,
        can_borrow: true,
        iso_borrow: false,
        borrow_cap: U::zero(),
        supply_cap: U::zero(),
    };
    match i {
        1 => {
            p.ltv = 8000;
            p.thr = 8500;
            p.bonus = 400;
            p.iso_borrow = true;
        }
        2 => {
            p.thr = 7800;
            p.bonus = 600;
            p.fee = 1000;
        }
        3 => {
            p.ltv = 6000;
            p.thr = 6500;
            p.bonus = 900;
        }
        4 => p.bonus = 700,
        5 => {
            p.ltv = 5500;
            p.thr = 6200;
            p.bonus = 900;
            p.flash = false;
        }
        6 => {
            p.ltv = 7000;
            p.thr = 7500;
            p.bonus = 900;
            p.can_borrow = false;
        }
        7 => {
            p.siloed = true;
        }
        8 => {
            p.isolated = true;
            p.ceiling = w(5_000);
            p.can_borrow = false;
        }
        9 => {
            p.iso_borrow = true;
            p.flash_fee = 0;
        }
        11 => {
            p.ltv = 8500;
            p.thr = 9300;
            p.bonus = 1200;
            p.fee = 2000;
            p.flash_fee = 300;
        }
        _ => {}
    }
    p
}

pub fn default_rates(i: usize) -> RateParams {
    let r = |n: u64| p10(27) * n / 10_000u32;
    let mut x = RateParams {
        max: r(6900),
        base: r(100),
        s1: r(500),
        s2: r(1500),
        s3: r(5000),
        mid: r(6500),
        opt: r(9000),
        rf: 1000,
    };
    match i % 4 {
        1 => {
            x.base = r(0);
            x.s1 = r(400);
            x.s2 = r(1000);
            x.s3 = r(30000);
            x.max = r(10000);
            x.rf = 2500;
        }
        2 => {
            x.mid = r(4500);
            x.opt = r(8000);
            x.rf = 500;
        }
        3 => {
            x.base = r(1000);
            x.s1 = r(4000);
            x.s2 = r(10000);
            x.s3 = r(20000);
            x.max = r(20000);
            x.rf = 4000;
        }
        _ => {}
    }
    x
}

impl World {
    pub fn new() -> World {
        let mut vm = Vm::new();
        vm.register(b"controller", controller::ContractBuilder.new_contract_obj::<Api>());
        vm.register(b"pool", liquidity_layer::ContractBuilder.new_contract_obj::<Api>());
        vm.register(b"agg", price_aggregator::ContractBuilder.new_contract_obj::<Api>());
        vm.register(b"feed", mocks::feed::ContractBuilder.new_contract_obj::<Api>());
        vm.register(b"puppet", mocks::puppet::ContractBuilder.new_contract_obj::<Api>());
        vm.register(b"sink", mocks::sink::ContractBuilder.new_contract_obj::<Api>());

        let owner = eoa("owner");
        let users: Vec<Addr> =
            ["alice", "bob", "carol", "dave", "erin", "frank"].iter().map(|n| eoa(n)).collect();
        let controller = sc("controller", 0);
        let aggregator = sc("aggregator", 0);
        let accumulator = sc("accumulator", 0);
        let treasury = sc("treasury", 0);
        let router = sc("router", 0);
        let flash = sc("flash", 0);
        let flash_far = sc("flashfar", 1);
        let safe_view = sc("safeview", 0);
        let template = sc("template", 0);

        vm.set_now(1_700_000_000);
        vm.add_user(&owner);
        for u in &users {
            vm.add_user(u);
        }
        for (a, c) in [
            (&accumulator, &b"sink"[..]),
            (&treasury, b"sink"),
            (&router, b"puppet"),
            (&flash, b"puppet"),
            (&flash_far, b"puppet"),
            (&safe_view, b"feed"),
        ] {
            vm.put_account(a, Some(c), Some(&owner));
        }

        let feed = |n: &str| sc(n, 0);
        let oc = |ty, meth, src, contract: &str, base: &[u8], quote: &[u8], t1, t2, od| OracleCfg {
            ty,
            meth,
            src,
            contract: sc(contract, 0),
            base: base.to_vec(),
            quote: quote.to_vec(),
            t1,
            t2,
            stale: 600,
            onedex_id: od,
        };
        let mk = |id: &[u8], name, dec, oracle| Asset { id: id.to_vec(), name, dec, oracle };
        use Meth::*;
        use OTy::*;
        use Src::*;
        let usdc: &[u8] = b"USDC-c76f1f";
        let xoxno: &[u8] = b"XOXNO-c1293a";
        let mut assets = vec![
            mk(EGLD, "EGLD", 18, oc(Normal, Mix, XExchange, "pair_eu", WEGLD, usdc, 200, 500, 0)),
            mk(usdc, "USDC", 6, oc(Normal, Mix, XExchange, "pair_eu", WEGLD, usdc, 100, 500, 0)),
            mk(b"WBTC-5349b3", "WBTC", 8, oc(Normal, Mix, XExchange, "pair_bu", b"WBTC-5349b3", usdc, 200, 500, 0)),
            mk(xoxno, "XOXNO", 18, oc(Normal, Mix, Onedex, "onedex", xoxno, WEGLD, 300, 900, 7)),
            mk(b"XEGLD-e413ed", "XEGLD", 18, oc(Derived, Mix, Xegld, "xegld", EGLD, EGLD, 100, 500, 0)),
            mk(b"LXOXNO-b6bb7d", "LXOXNO", 18, oc(Derived, Mix, Lxoxno, "lxoxno", xoxno, xoxno, 300, 900, 0)),
            mk(b"EGLDUSDC-594e5e", "LP", 18, oc(Lp, Mix, XExchange, "pair_eu", WEGLD, usdc, 200, 600, 0)),
            mk(b"SILO-59ab0d", "SILO", 18, oc(Normal, Mix, XExchange, "pair_si", b"SILO-59ab0d", WEGLD, 200, 500, 0)),
            mk(b"ISOL-a1b2c3", "ISOL", 18, oc(Normal, Mix, XExchange, "pair_is", b"ISOL-a1b2c3", WEGLD, 200, 500, 0)),
            mk(b"CAPD-0f0f0f", "CAPD", 18, oc(Normal, Agg, XExchange, "pair_ca", b"CAPD-0f0f0f", WEGLD, 200, 500, 0)),
            mk(b"LEGLD-d74da9", "LEGLD", 18, oc(Derived, Mix, Legld, "legld", EGLD, EGLD, 100, 500, 0)),
            mk(b"MICE-123123", "MICE", 2, oc(Normal, Safe, XExchange, "pair_mi", b"MICE-123123", usdc, 200, 500, 0)),
        ];
        // what a derived price takes from the aggregator has its own age limit
        assets[5].oracle.stale = 450;
        for a in &assets {
            let c = a.oracle.contract;
            if !vm.has_acc(&c) {
                vm.put_account(&c, Some(b"feed"), Some(&owner));
            }
            let first: &[u8] = if a.oracle.base == EGLD { WEGLD } else { &a.oracle.base };
            let second: &[u8] = if a.oracle.quote == EGLD { WEGLD } else { &a.oracle.quote };
            vm.set_storage(&c, b"first", first.to_vec());
            vm.set_storage(&c, b"second", second.to_vec());
        }
        let _ = feed;

        let mut actors = users.clone();
        let mut actor_names: Vec<String> =
            ["alice", "bob", "carol", "dave", "erin", "frank"].iter().map(|s| s.to_string()).collect();
        for (a, n) in [
            (owner, "owner"),
            (controller, "controller"),
            (accumulator, "accumulator"),
            (router, "router"),
            (flash, "flash"),
            (flash_far, "flash_far"),
            (treasury, "treasury"),
        ] {
            actors.push(a);
            actor_names.push(n.to_string());
        }

        let mut wl = World {
            vm,
            owner,
            controller,
            aggregator,
            accumulator,
            treasury,
            router,
            flash,
            flash_far,
            safe_view,
            template,
            users,
            actors,
            actor_names,
            assets,
            pools: vec![],
            feeds: Feeds::default(),
            fair: vec![],
            egld_usd: w(40),
            pokes: vec![],
        };
        wl.setup();
        wl
    }

    pub fn asset_ix(&self, id: &[u8]) -> Option<usize> {
        self.assets.iter().position(|a| a.id == id)
    }
    pub fn tok(&self, i: usize) -> Vec<u8> {
        self.assets[i].id.clone()
    }
    pub fn units(&self, i: usize, n: u64) -> U {
        U::from(n) * p10(self.assets[i].dec)
    }

    pub fn owner_call(&mut self, func: &str, args: Vec<Vec<u8>>) -> TxOut {
        let (o, c) = (self.owner, self.controller);
        self.vm.call(&o, &c, func, args, &[])
    }
    fn must(&mut self, func: &str, args: Vec<Vec<u8>>) -> TxOut {
        let r = self.owner_call(func, args);
        assert!(r.ok, "setup call {} failed: {}", func, r.msg);
        r
    }

    fn setup(&mut self) {
        let owner = self.owner;
        // pool template (its own market is never used)
        let rp = default_rates(0);
        let mut args = vec![b"TMPL-123456".to_vec()];
        args.extend(rate_args(&rp));
        args.push(en(18));
        let t = self.template;
        let r = self.vm.deploy(&owner, &t, b"pool", args);
        assert!(r.ok, "template: {}", r.msg);
        // aggregator
        let mut args = vec![en(1)];
        for u in &self.users {
            args.push(ea(u));
        }
        let a = self.aggregator;
        let r = self.vm.deploy(&owner, &a, b"agg", args);
        assert!(r.ok, "agg: {}", r.msg);
        let r = self.vm.call(&owner, &a, "unpause", vec![], &[]);
        assert!(r.ok, "agg unpause: {}", r.msg);
        // controller
        let c = self.controller;
        let args = vec![ea(&self.template), ea(&a), ea(&self.safe_view), ea(&self.accumulator), ea(&self.router)];
        let r = self.vm.deploy(&owner, &c, b"controller", args);
        assert!(r.ok, "controller: {}", r.msg);
        {
            let acc = self.vm.acc_mut(&c);
            acc.esdt.set_roles(
                ACC.to_vec(),
                vec![
                    b"ESDTRoleNFTCreate".to_vec(),
                    b"ESDTRoleNFTBurn".to_vec(),
                    b"ESDTRoleNFTUpdateAttributes".to_vec(),
                    b"ESDTRoleNFTAddQuantity".to_vec(),
                ],
            );
        }
        let mut tokv = vec![1u8]; // TokenMapperState::Token + nested id
        tokv.extend(nested(ACC));
        let _ = tokv;
        self.vm.set_storage(&c, b"account", ACC.to_vec());

        for i in 0..self.assets.len() {
            self.fair.push(U::zero());
            let o = self.assets[i].oracle.clone();
            let mut args = vec![
                self.tok(i),
                en(self.assets[i].dec as u64),
                ea(&o.contract),
                en(match o.meth {
                    Meth::Safe => 1,
                    Meth::Agg => 3,
                    Meth::Mix => 4,
                }),
                en(match o.ty {
                    OTy::Normal => 1,
                    OTy::Derived => 2,
                    OTy::Lp => 3,
                }),
                en(match o.src {
                    Src::XExchange => 1,
                    Src::Lxoxno => 2,
                    Src::Xegld => 3,
                    Src::Legld => 4,
                    Src::Onedex => 5,
                }),
                en(o.t1),
                en(o.t2),
                en(o.stale),
            ];
            if o.onedex_id > 0 {
                args.push(en(o.onedex_id));
            }
            self.must("setTokenOracle", args);
        }
        self.reset_prices();
        for i in 0..self.assets.len() {
            let pool = sc(&format!("pool{}", self.assets[i].name), 0);
            self.pools.push(pool);
            self.vm.expect_new_address(&c, &pool);
            // the controller's nonce is increased by the VM before the address is looked up
            let r = self.create_pool(i);
            assert!(r.ok, "pool {}: {}", i, r.msg);
            assert!(self.vm.has_acc(&pool));
        }
        // e-modes: 1 = egld-like, 2 = dollar-ish
        self.must("addEModeCategory", vec![en(9000), en(9300), en(200)]);
        self.must("addEModeCategory", vec![en(8800), en(9100), en(300)]);
        for (i, cat, col, bor) in [(0, 1, true, true), (4, 1, true, true), (10, 1, true, false), (1, 2, true, true), (9, 2, true, true), (7, 2, false, true)] {
            let t = self.tok(i);
            self.must("addAssetToEModeCategory", vec![t, en(cat), eb(col), eb(bor)]);
        }
        // balances
        let users = self.actors.clone();
        for (k, a) in users.iter().enumerate() {
            if *a == self.controller || *a == self.accumulator || *a == self.treasury {
                continue;
            }
            for i in 0..self.assets.len() {
                let n: u64 = if k < self.users.len() { 1_000_000 } else { 100_000_000 };
                // the cheap ones by the billion
                let n = if matches!(i, 3 | 5 | 7 | 8 | 11 | 9 | 1) { n * 10_000 } else { n };
                let amt = self.units(i, n);
                let t = self.tok(i);
                self.vm.mint(a, &t, &amt);
            }
            self.vm.mint(a, JUNK, &w(1_000_000));
            self.vm.mint(a, WEGLD, &w(1_000_000));
        }
    }

    pub fn create_pool(&mut self, i: usize) -> TxOut {
        let mut args = vec![self.tok(i)];
        args.extend(rate_args(&default_rates(i)));
        let p = default_params(i);
        args.extend(vec![
            en(p.ltv),
            en(p.thr),
            en(p.bonus),
            en(p.fee),
            eb(p.can_coll),
            eb(p.can_borrow),
            eb(p.isolated),
            eu(&p.ceiling),
            en(p.flash_fee),
            eb(p.siloed),
            eb(p.flash),
            eb(p.iso_borrow),
            en(self.assets[i].dec as u64),
            eu(&p.borrow_cap),
            eu(&p.supply_cap),
        ]);
        self.owner_call("createLiquidityPool", args)
    }

    pub fn edit_asset_args(&self, i: usize, p: &AssetParams) -> Vec<Vec<u8>> {
        vec![
            self.tok(i),
            en(p.ltv),
            en(p.thr),
            en(p.bonus),
            en(p.fee),
            eb(p.isolated),
            eu(&p.ceiling),
            eb(p.siloed),
            eb(p.flash),
            en(p.flash_fee),
            eb(p.can_coll),
            eb(p.can_borrow),
            eb(p.iso_borrow),
            eu(&p.borrow_cap),
            eu(&p.supply_cap),
        ]
    }

    // ---------------------------------------------------------------- prices

    pub fn ticker(id: &[u8]) -> Vec<u8> {
        if id == EGLD {
            return EGLD.to_vec();
        }
        let n = id.len() - 7;
        if &id[..n] == b"WEGLD" {
            EGLD.to_vec()
        } else {
            id[..n].to_vec()
        }
    }

    pub fn set_agg(&mut self, ticker: &[u8], price: &U, ts: u64) {
        let mut key = b"rounds".to_vec();
        key.extend(nested(ticker));
        key.extend(nested(b"USD"));
        let mut v = nested(&eu(price));
        v.extend_from_slice(&ts.to_be_bytes());
        v.extend_from_slice(&1u32.to_be_bytes());
        let a = self.aggregator;
        self.vm.set_storage(&a, &key, v);
        self.feeds.agg.insert(ticker.to_vec(), (price.clone(), ts));
    }
    pub fn del_agg(&mut self, ticker: &[u8]) {
        let mut key = b"rounds".to_vec();
        key.extend(nested(ticker));
        key.extend(nested(b"USD"));
        let a = self.aggregator;
        self.vm.set_storage(&a, &key, vec![]);
        self.feeds.agg.remove(ticker);
    }
    pub fn pause_agg(&mut self, p: bool) {
        let (o, a) = (self.owner, self.aggregator);
        let r = self.vm.call(&o, &a, if p { "pause" } else { "unpause" }, vec![], &[]);
        assert!(r.ok, "{}", r.msg);
        self.feeds.agg_paused = p;
    }

    /// amount of `out` obtained for one whole token, TWAP; spot = other value
    pub fn set_twap(&mut self, i: usize, amount: &U, spot: &U, out: &[u8]) {
        let o = self.assets[i].oracle.clone();
        let (holder, pair_key): (Addr, Vec<u8>) = if o.src == Src::Onedex {
            (o.contract, vec![])
        } else {
            (self.safe_view, o.contract.to_vec())
        };
        let mut key = b"sp".to_vec();
        key.extend(nested(&pair_key));
        key.extend(nested(&self.assets[i].id));
        let mut v = nested(&eu(amount));
        v.extend(nested(&eu(spot)));
        v.extend_from_slice(&self.assets[i].dec.to_be_bytes());
        v.extend(nested(out));
        self.vm.set_storage(&holder, &key, v);
        self.feeds.twap.insert(self.assets[i].id.clone(), (amount.clone(), out.to_vec()));
    }
    pub fn set_pair_state(&mut self, i: usize, s: u8) {
        let o = self.assets[i].oracle.clone();
        let v = if s == 0 { vec![] } else { vec![s] };
        let mut k2 = b"pair_state".to_vec();
        k2.extend_from_slice(&(o.onedex_id as u32).to_be_bytes());
        self.vm.set_storage(&o.contract, b"state", v.clone());
        self.vm.set_storage(&o.contract, &k2, v);
        self.feeds.pair_state.insert(o.contract, s);
    }
    pub fn set_rate(&mut self, contract: &Addr, r: &U) {
        self.vm.set_storage(contract, b"rate", eu(r));
        self.feeds.rate.insert(*contract, r.clone());
    }
    pub fn set_reserves(&mut self, contract: &Addr, r: (U, U, U)) {
        self.vm.set_storage(contract, b"r0", eu(&r.0));
        self.vm.set_storage(contract, b"r1", eu(&r.1));
        self.vm.set_storage(contract, b"ts", eu(&r.2));
        self.feeds.reserves.insert(*contract, r);
    }

    /// Publish the fair price of asset i: aggregator and TWAP, with deviations in bps
    /// (10000 = no deviation).
    pub fn publish(&mut self, i: usize, agg_dev: u64, twap_dev: u64) {
        let a = self.assets[i].clone();
        let now = self.vm.now();
        let fair = self.fair[i].clone();
        let tick = World::ticker(&a.id);
        if a.oracle.ty == OTy::Normal {
            let p = &fair * agg_dev / 10_000u32;
            // of two tokens with one ticker the elder's price is the one published
            if self.assets.iter().position(|x| World::ticker(&x.id) == tick) == Some(i) {
                self.set_agg(&tick, &p, now);
            }
        }
        if i == 0 {
            return;
        }
        match a.oracle.ty {
            OTy::Normal if a.oracle.meth != Meth::Agg => {
                // quoted in the pair's other token
                let other =
                    if a.oracle.base == a.id { a.oracle.quote.clone() } else { a.oracle.base.clone() };
                let (q_usd, q_dec) = if other == WEGLD {
                    (self.egld_usd.clone(), 18)
                } else {
                    let j = self.asset_ix(&other).unwrap();
                    (self.fair[j].clone(), self.assets[j].dec)
                };
                let amt = &fair * p10(q_dec) / &q_usd * twap_dev / 10_000u32;
                let spot = &amt * 3u32;
                self.set_twap(i, &amt, &spot, &other);
            }
            _ => {}
        }
    }
    pub fn publish_all(&mut self) {
        let e = self.egld_usd.clone();
        self.fair[0] = e;
        for i in 0..self.assets.len() {
            self.publish(i, 10_000, 10_000);
        }
    }
    /// xExchange EGLD/USDC pool with the given depth, balanced at fair prices
    pub fn balance_lp(&mut self, egld_side: u64) {
        let r0 = w(egld_side);
        let r1 = &r0 * &self.egld_usd / &self.fair[1] / p10(12);
        let ts = w(egld_side);
        let c = self.assets[6].oracle.contract;
        self.set_reserves(&c, (r0, r1, ts));
    }
    pub fn reset_prices(&mut self) {
        self.egld_usd = w(40);
        let fair = vec![
            w(40),
            w(1),
            w(60_000),
            wd(2, 100),
            U::zero(),
            U::zero(),
            U::zero(),
            w(5),
            w(2),
            w(1),
            U::zero(),
            wd(3, 10),
        ];
        self.fair = fair;
        for i in 0..self.assets.len() {
            self.set_pair_state(i, 1);
        }
        self.publish_all();
        let c = self.assets[4].oracle.contract;
        self.set_rate(&c, &wd(105, 100));
        let c = self.assets[10].oracle.contract;
        self.set_rate(&c, &wd(108, 100));
        let c = self.assets[5].oracle.contract;
        self.set_rate(&c, &wd(120, 100));
        self.balance_lp(100_000);
    }

    pub fn save(&self) -> Saved {
        Saved {
            vm: self.vm.snapshot(),
            feeds: self.feeds.clone(),
            fair: self.fair.clone(),
            egld_usd: self.egld_usd.clone(),
            n_pools: self.pools.len(),
        }
    }
    pub fn load(&mut self, s: &Saved) {
        self.vm.restore(&s.vm);
        self.feeds = s.feeds.clone();
        self.fair = s.fair.clone();
        self.egld_usd = s.egld_usd.clone();
        self.pokes.clear();
        self.pools.truncate(s.n_pools);
        self.assets.truncate(s.n_pools);
    }
    /// (contract, storage key, value) behind the planned moves
    pub fn poke_writes(&self) -> Vec<(Addr, Vec<u8>, Vec<u8>)> {
        let mut v = vec![];
        for p in &self.pokes {
            match p {
                Poke::Rate(c, r) => v.push((*c, b"rate".to_vec(), eu(r))),
                Poke::Pool(c, r) => {
                    v.push((*c, b"r0".to_vec(), eu(&r.0)));
                    v.push((*c, b"r1".to_vec(), eu(&r.1)));
                    v.push((*c, b"ts".to_vec(), eu(&r.2)));
                }
            }
        }
        v
    }
    /// forget the plan; true when there was one. What really moved becomes the new truth.
    pub fn settle_pokes(&mut self) -> bool {
        let l = std::mem::take(&mut self.pokes);
        for p in &l {
            match p {
                Poke::Rate(c, r) => {
                    if self.vm.storage(c, b"rate") == eu(r) {
                        self.feeds.rate.insert(*c, r.clone());
                    }
                }
                Poke::Pool(c, r) => {
                    if self.vm.storage(c, b"ts") == eu(&r.2) && self.vm.storage(c, b"r0") == eu(&r.0) && self.vm.storage(c, b"r1") == eu(&r.1) {
                        self.feeds.reserves.insert(*c, r.clone());
                    }
                }
            }
        }
        !l.is_empty()
    }
    /// move time forward; feeds keep their timestamps
    pub fn advance(&mut self, secs: u64) {
        let n = self.vm.now() + secs;
        self.vm.set_now(n);
    }
}

pub fn rate_args(r: &RateParams) -> Vec<Vec<u8>> {
    vec![
        eu(&r.max),
        eu(&r.base),
        eu(&r.s1),
        eu(&r.s2),
        eu(&r.s3),
        eu(&r.mid),
        eu(&r.opt),
        en(r.rf),
    ]
}
