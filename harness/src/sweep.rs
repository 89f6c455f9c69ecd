//! Calls outside the reference model: privileged endpoints from the wrong sender with arguments
//! that would work for the right one (P14), and malformed or hostile calls of every public
//! endpoint (P24).
use crate::codec::*;
use crate::gen::*;
use crate::model::*;
use crate::num::*;
use crate::state::*;
use crate::vm::*;
use crate::world::*;
use num_traits::Zero;

const TAB: &[(&str, &str, u8)] = &[
    // endpoint, argument kinds, 0 no payment wanted / 1 payment / 2 account token / 3 token and payment
    ("supply", "n?k?", 1),
    ("supply", "n?k?", 3),
    ("withdraw", "p*", 2),
    ("borrow", "p*", 2),
    ("repay", "n", 1),
    ("liquidate", "n", 1),
    ("flashLoan", "tuaxs", 0),
    ("updateAccountThreshold", "tbn*", 0),
    ("updateIndexes", "t*", 0),
    ("cleanBadDebt", "n", 0),
    ("claimRevenue", "t*", 0),
    ("addRewards", "", 1),
    ("multiply", "ktutmss?", 1),
    ("multiply", "ktutmss?", 3),
    ("swapDebt", "tuts", 2),
    ("swapCollateral", "tuts", 2),
    ("repayDebtWithCollateral", "tutbs?", 2),
];
const ADMIN: &[(&str, &str, u8)] = &[
    ("createLiquidityPool", "tuuuuuuuuwwwwbbuwbbbduu", 0),
    ("upgradeLiquidityPool", "t", 0),
    ("upgradeLiquidityPoolParams", "tuuuuuuuu", 0),
    ("registerAccountToken", "xx", 0),
    ("setTokenOracle", "tdammmwwyd?", 0),
    ("editTokenOracleTolerance", "tww", 0),
    ("setAggregator", "a", 0),
    ("setSwapRouter", "a", 0),
    ("setAccumulator", "a", 0),
    ("setSafePriceView", "a", 0),
    ("setLiquidityPoolTemplate", "a", 0),
    ("addEModeCategory", "www", 0),
    ("editEModeCategory", "M", 0),
    ("removeEModeCategory", "k", 0),
    ("addAssetToEModeCategory", "tkbb", 0),
    ("editAssetInEModeCategory", "tkc", 0),
    ("removeAssetFromEModeCategory", "tk", 0),
    ("editAssetConfig", "twwwwbubbwbbbuu", 0),
    ("setPositionLimits", "kk", 0),
    ("pause", "", 0),
    ("unpause", "", 0),
];
const VIEWS: &[(&str, &str)] = &[
    ("getPools", ""),
    ("getAccountNonce", ""),
    ("getAccounts", ""),
    ("getAccountAttributes", "n"),
    ("getPositions", "nk"),
    ("getPoolAddress", "t"),
    ("getAssetConfig", "t"),
    ("getEModes", ""),
    ("getAssetEModes", "t"),
    ("getEModesAssets", "k"),
    ("getIsolatedAssetDebtUsd", "t"),
    ("getTokenOracle", "t"),
    ("liquidationEstimations", "nv"),
    ("getAllMarketIndexes", "t*"),
    ("getAllMarkets", "t*"),
    ("canBeLiquidated", "n"),
    ("getHealthFactor", "n"),
    ("getCollateralAmountForToken", "nt"),
    ("getBorrowAmountForToken", "nt"),
    ("getTotalBorrowInEgld", "n"),
    ("getTotalCollateralInEgld", "n"),
    ("getLiquidationCollateralAvailable", "n"),
    ("getLtvCollateralInEgld", "n"),
    ("getTokenPriceUSD", "t"),
    ("getTokenPriceEGLD", "t"),
];
const POOL: &[(&str, &str, u8)] = &[
    ("updateParams", "uuuuuuuuD", 0),
    ("updateIndexes", "D", 0),
    ("supply", "PD", 1),
    ("borrow", "aDPD", 0),
    ("withdraw", "aDPboD", 0),
    ("repay", "aPD", 1),
    ("addRewards", "D", 1),
    ("flashLoan", "tDaxsDD", 0),
    ("createStrategy", "PDDD", 0),
    ("seizePosition", "PD", 0),
    ("claimRevenue", "D", 0),
];
const AGG: &[(&str, &str, u8)] = &[
    ("submit", "xxyu", 0),
    ("submitBatch", "xxyuxxyu", 0),
    ("addOracles", "a*", 0),
    ("removeOracles", "da*", 0),
    ("setSubmissionCount", "d", 0),
    ("latestPriceFeed", "xx", 0),
    ("latestRoundData", "X*", 0),
];

/// a Rust panic that a release build would not have turned into an error
pub fn machine_panic(msg: &str) -> bool {
    let m = msg.to_lowercase();
    if !m.contains("panic occurred") && !m.starts_with("attempt to") {
        return false;
    }
    // (the VM itself cannot print a refusal that quotes bytes which are not text)
    if m.contains("utf8error") {
        return false;
    }
    (m.contains("attempt to") && !m.contains("divide by zero"))
        || m.contains("out of bounds")
        || m.contains("out of range")
        || m.contains("unwrap()")
        || m.contains("unreachable")
        || m.contains("index out")
}

fn position(kind: u8, tok: &[u8], scaled: &U, acct: u64) -> Vec<u8> {
    let mut v = vec![kind];
    v.extend(nested(tok));
    v.extend(enc_dec(scaled, 27));
    v.extend_from_slice(&acct.to_be_bytes());
    for _ in 0..4 {
        v.extend(enc_dec(&zero(), 4));
    }
    v
}

impl Gen {
    // ------------------------------------------------------------ P14
    /// the call must fail for `by`; sometimes confirm that it would have worked for `right`
    fn forbidden(&mut self, by: usize, to: &Addr, func: &str, args: Vec<Vec<u8>>, pays: Vec<Pay>, right: &Addr) {
        let from = self.e.w.actors[by];
        let before = self.e.pre.clone();
        let confirm = self.r.chance(15);
        let snap = if confirm { Some(self.e.w.vm.snapshot()) } else { None };
        let o = self.e.w.vm.call(&from, to, func, args.clone(), &pays);
        self.e.steps += 1;
        self.e.cov.evals += 1;
        let name = self.e.w.actor_names[by].clone();
        let wh = if *to == self.e.w.controller {
            "controller".to_string()
        } else if *to == self.e.w.aggregator {
            "aggregator".to_string()
        } else {
            "pool".to_string()
        };
        let l = format!("{}: {}.{}({}) -> {}", name, wh, func, args.iter().map(hex::encode).collect::<Vec<_>>().join(","), if o.ok { "ok" } else { &o.msg });
        self.e.note(l.chars().take(700).collect());
        self.e.cov.hit(&format!("forbidden {}.{}", wh, func));
        let sig = format!("{}.{} by {} {}", wh, func, name, o.msg);
        if self.e.cov.sigs.insert(sig.clone()) && self.e.cov.samples.len() < 12 {
            self.e.cov.samples.push(l.chars().take(260).collect());
        }
        if o.ok {
            self.e.report(vec!["P14"], format!("{} may call {} of the {}", name, func, wh));
        }
        let post = State::read(&self.e.w);
        if !o.ok {
            let d = compare(&self.e.w, &before, &post, &Tol { units: 0 });
            if let Some(x) = d.first() {
                self.e.report(vec!["P14", "P24"], format!("refused {} had an effect: {}", func, x.what));
            }
        }
        self.e.pre = post;
        if let Some(s) = snap {
            self.e.w.vm.restore(&s);
            if !self.e.w.vm.has_acc(right) {
                return;
            }
            for p in &pays {
                let have = self.e.w.vm.balance(right, &p.token);
                if p.nonce == 0 && have < p.amount && *right == self.e.w.controller {
                    self.e.w.vm.mint(right, &p.token, &p.amount);
                }
            }
            let o = self.e.w.vm.call(right, to, func, args, &pays);
            let k = format!("the rightful sender's {}.{} {}", wh, func, if o.ok { "works" } else { "fails" });
            self.e.cov.hit(&k);
            self.e.w.vm.restore(&s);
            self.e.refresh();
        }
    }

    fn stranger(&mut self) -> usize {
        *self.r.pick(&[0usize, 1, 2, 3, 4, 5, 8, 9, 10])
    }

    pub fn sc_acl(&mut self) {
        let Some(a) = self.loaded() else { return };
        // administrative operations the owner could perform right now, sent by somebody else
        for k in [
            "poolparams", "editasset", "emodecfg", "emodecfg", "emodecfg", "emodecfg", "limits", "tolerance", "setaddr", "setaddr", "upgradepool", "pause", "rewards", "emodecfg",
        ] {
            if self.e.hit_violation() {
                return;
            }
            for _ in 0..6 {
                let Some(x) = self.make(k) else { continue };
                if !self.e.accepts(&x) {
                    continue;
                }
                let by = self.stranger();
                let Some(y) = with_sender(x, by) else { continue };
                self.act(&y);
                break;
            }
        }
        // the rest of the controller, raw
        let (c, o) = (self.e.w.controller, self.e.w.owner);
        for _ in 0..4 {
            if self.e.hit_violation() {
                return;
            }
            let by = self.stranger();
            match self.r.below(7) {
                0 => {
                    // a token without an oracle
                    let oc = self.e.w.assets[1].oracle.contract;
                    let args = vec![JUNK.to_vec(), en(18), ea(&oc), en(3), en(1), en(1), en(100), en(300), en(600)];
                    self.forbidden(by, &c, "setTokenOracle", args, vec![], &o);
                }
                1 => {
                    let mut args = vec![JUNK.to_vec()];
                    args.extend(rate_args(&default_rates(1)));
                    let p = default_params(1);
                    args.extend(vec![
                        en(p.ltv), en(p.thr), en(p.bonus), en(p.fee), eb(true), eb(true), eb(false), vec![], en(p.flash_fee), eb(false), eb(true), eb(false), en(18), vec![], vec![],
                    ]);
                    let new = sc("poolJUNK", 0);
                    if !self.e.w.vm.has_acc(&new) {
                        let n = c;
                        self.e.w.vm.expect_new_address(&n, &new);
                    }
                    // the market needs an oracle first
                    let oc = self.e.w.assets[1].oracle.contract;
                    let snap = self.e.w.vm.snapshot();
                    let q = self.e.w.vm.call(&o, &c, "setTokenOracle", vec![JUNK.to_vec(), en(18), ea(&oc), en(3), en(1), en(1), en(100), en(300), en(600)], &[]);
                    self.e.refresh();
                    if q.ok {
                        self.forbidden(by, &c, "createLiquidityPool", args, vec![], &o);
                    }
                    self.e.w.vm.restore(&snap);
                    self.e.refresh();
                }
                2 => {
                    let acc = self.e.w.vm.storage(&c, b"account");
                    if self.r.chance(50) {
                        self.e.w.vm.set_storage(&c, b"account", vec![]);
                    }
                    let args = vec![b"Account".to_vec(), b"ACCNFT".to_vec()];
                    let f = self.e.w.users[0];
                    let q = self.e.w.vm.call(&f, &c, "registerAccountToken", args, &[Pay::new(EGLD, u(50_000_000_000_000_000))]);
                    self.e.cov.evals += 1;
                    self.e.cov.hit("forbidden controller.registerAccountToken");
                    if q.ok {
                        self.e.report(vec!["P14"], "a stranger may register the account token".into());
                    } else if !q.msg.contains("owner") {
                        self.e.cov.hit(&format!("registerAccountToken stopped by: {}", q.msg));
                    }
                    self.e.w.vm.set_storage(&c, b"account", acc);
                    self.e.refresh();
                }
                3 => {
                    let i = self.r.below(self.n() as u64) as usize;
                    let t = self.tok(i);
                    self.forbidden(by, &c, "upgradeLiquidityPool", vec![t], vec![], &o);
                }
                4 => {
                    let which = *self.r.pick(&["setAggregator", "setSwapRouter", "setAccumulator", "setSafePriceView", "setLiquidityPoolTemplate"]);
                    let to = *self.r.pick(&[self.e.w.router, self.e.w.aggregator, self.e.w.flash]);
                    self.forbidden(by, &c, which, vec![ea(&to)], vec![], &o);
                }
                5 => {
                    let p = self.e.pre.paused;
                    let f = if p { "unpause" } else { "pause" };
                    self.forbidden(by, &c, f, vec![], vec![], &o);
                }
                _ => {
                    let i = *self.r.pick(&[0usize, 1, 2]);
                    let x = self.amount(i);
                    let t = self.tok(i);
                    self.forbidden(self.e.pre.last_nonce as usize % 6, &c, "addRewards", vec![], vec![Pay::new(&t, x)], &o);
                }
            }
        }
        // paused by the owner, a stranger must not be able to lift it
        if self.r.chance(20) {
            self.act(&Act::Pause { by: OWNER });
            let by = self.stranger();
            self.forbidden(by, &c, "unpause", vec![], vec![], &o);
            self.act(&Act::Unpause { by: OWNER });
        }
        // market pools answer only to the controller
        for _ in 0..14 {
            if self.e.hit_violation() {
                return;
            }
            self.pool_call(a);
        }
        // the aggregator
        let g = self.e.w.aggregator;
        for _ in 0..5 {
            if self.e.hit_violation() {
                return;
            }
            let by = self.stranger();
            let me = self.e.w.actors[by];
            match self.r.below(6) {
                0 => self.forbidden(by, &g, "addOracles", vec![ea(&me)], vec![], &o),
                1 => {
                    let x = self.e.w.users[1];
                    self.forbidden(by, &g, "removeOracles", vec![en(1), ea(&x)], vec![], &o)
                }
                2 => self.forbidden(by, &g, "setSubmissionCount", vec![en(2)], vec![], &o),
                3 => self.forbidden(by, &g, "pause", vec![], vec![], &o),
                4 => {
                    let q = self.e.w.vm.call(&o, &g, "pause", vec![], &[]);
                    if q.ok {
                        self.forbidden(by, &g, "unpause", vec![], vec![], &o);
                    }
                    self.e.w.vm.call(&o, &g, "unpause", vec![], &[]);
                    self.e.refresh();
                }
                _ => {
                    // oracles are the users; contracts and the owner are not
                    let by = *self.r.pick(&[OWNER, ACCUM, ROUTER, FLASH]);
                    let right = self.e.w.users[0];
                    let now = self.e.w.vm.now();
                    let one = self.r.chance(50);
                    let args = vec![b"EGLD".to_vec(), b"USD".to_vec(), en(now), eu(&w(41))];
                    self.forbidden(by, &g, if one { "submit" } else { "submitBatch" }, args, vec![], &right);
                }
            }
        }
        self.all_ops(a);
    }

    /// one direct call of a pool endpoint with arguments the controller could have sent
    fn pool_call(&mut self, a: u64) {
        let c = self.e.w.controller;
        let mut by = self.stranger();
        if self.r.chance(25) {
            by = OWNER;
        }
        let i = match self.r.below(3) {
            0 => self.side(a, DEP).first().cloned().unwrap_or(0),
            1 => self.side(a, BOR).first().cloned().unwrap_or(1),
            _ => *self.r.pick(&[0usize, 1, 2, 3, 9]),
        };
        let pool = self.e.w.pools[i];
        let t = self.tok(i);
        let me = self.e.w.actors[by];
        let px = enc_dec(&w(1), 18);
        let q = &self.e.pre.pools[i];
        let dec = q.dec;
        let free = self.e.pre.bal[self.e.w.actors.len() + i][i].clone();
        let some = (&free / 1000u32).max(u(1)).min(self.e.w.units(i, 1));
        let amt = enc_dec(&some, dec);
        let scaled = rescale(&some, dec, 27) * 10u32;
        let dep = position(1, &t, &scaled, a);
        let bor = position(2, &t, &scaled, a);
        let pay = vec![Pay::new(&t, some.clone())];
        let none = vec![];
        let either = if self.r.chance(50) { dep.clone() } else { bor.clone() };
        match self.r.below(11) {
            0 => self.forbidden(by, &pool, "borrow", vec![ea(&me), amt, bor, px], none, &c),
            1 => self.forbidden(by, &pool, "withdraw", vec![ea(&me), amt, dep, eb(false), vec![], px], none, &c),
            2 => self.forbidden(by, &pool, "createStrategy", vec![bor, amt, enc_dec(&zero(), dec), px], none, &c),
            3 => self.forbidden(by, &pool, "seizePosition", vec![either, px], none, &c),
            4 => self.forbidden(by, &pool, "claimRevenue", vec![px], none, &c),
            5 => self.forbidden(by, &pool, "supply", vec![dep, px], pay, &c),
            6 => self.forbidden(by, &pool, "repay", vec![ea(&me), bor, px], pay, &c),
            7 => self.forbidden(by, &pool, "addRewards", vec![px], pay, &c),
            8 => {
                let mut v = rate_args(&default_rates(i));
                v.push(px);
                self.forbidden(by, &pool, "updateParams", v, none, &c)
            }
            9 => self.forbidden(by, &pool, "updateIndexes", vec![px], none, &c),
            _ => {
                let f = self.e.w.flash;
                let pay_back = crate::exec::program(&[Op::Send { to: pool, pay: Pay::new(&t, some.clone()) }]);
                self.forbidden(by, &pool, "flashLoan", vec![t, amt, ea(&f), b"run".to_vec(), pay_back, enc_dec(&zero(), dec), px], none, &c)
            }
        }
    }

    // ------------------------------------------------------------ P24
    fn raw_arg(&mut self, k: char) -> Vec<u8> {
        // one in eight is plain garbage; length prefixes beyond 2^31 and token names shorter than a
        // suffix trip the SDK's own checks in this build, not the protocol's
        if self.r.chance(12) {
            let nested = "spvXMDPo".contains(k);
            return match self.r.below(7) {
                0 if k == 't' => b"GARBAGE".to_vec(),
                0 => vec![],
                1 if k == 't' => vec![b'A'; 200],
                1 => vec![0],
                2 if nested => vec![0x10; self.r.range(1, 40) as usize],
                2 if k == 't' => vec![b'-'; self.r.range(7, 40) as usize],
                2 => vec![0xff; self.r.range(1, 40) as usize],
                3 if k == 't' => b"-------".to_vec(),
                3 if nested => vec![0, 0, 0, 1],
                3 => vec![0xff; 4],
                4 => {
                    let n = self.r.range(8, 60) as usize;
                    let lim = if nested || k == 't' { 0x60 } else { 256 };
                    (0..n).map(|_| self.r.below(lim) as u8).collect()
                }
                5 if !nested => vec![0x80, 0, 0, 0, 0, 0, 0, 0],
                _ => b"EGLD-000000".to_vec(),
            };
        }
        match k {
            't' => match self.r.below(12) {
                0 => b"NOPE-123456".to_vec(),
                1 => ACC.to_vec(),
                2 => b"EGLD-000000".to_vec(),
                3 => b"not a token".to_vec(),
                _ => self.any_tok(),
            },
            'n' => match self.r.below(10) {
                0 => en(0),
                1 => en(999),
                2 => en(u64::MAX),
                3 => en(self.e.pre.last_nonce + 1),
                _ => {
                    let a = self.acct().unwrap_or(1);
                    en(a)
                }
            },
            'k' => en(*self.r.pick(&[0u64, 1, 1, 2, 2, 3, 7, 255, 256])),
            'm' => en(*self.r.pick(&[0u64, 1, 2, 3, 4, 5, 6, 255])),
            'b' => match self.r.below(5) {
                0 => vec![2],
                1 | 2 => vec![],
                _ => vec![1],
            },
            'w' => en(*self.r.pick(&[0u64, 1, 50, 100, 500, 7_000, 8_000, 10_000, 10_001, 1 << 40])),
            'd' => en(*self.r.pick(&[0u64, 1, 2, 6, 18, 19, 27, 28, 60, 255, 1 << 31, 1 << 32])),
            'y' => {
                let now = self.e.w.vm.now();
                en(*self.r.pick(&[0, 1, now - 30, now - 31, now, now + 1, u64::MAX]))
            }
            'u' => {
                let i = self.r.below(self.n() as u64) as usize;
                let x = self.amount(i);
                match self.r.below(10) {
                    0 => vec![],
                    1 => en(1),
                    2 => eu(&(p10(27) * self.r.range(1, 9))),
                    3 => eu(&(u(1) << 255u32)),
                    4 => eu(&((u(1) << 64u32) - 1u32)),
                    5 => eu(&p10(self.r.below(80) as u32)),
                    6 => vec![0xff; 120],
                    _ => eu(&x),
                }
            }
            'a' => {
                let w = &self.e.w;
                let l = [w.users[0], w.controller, w.flash, w.pools[0], w.router, [0u8; 32], [0xffu8; 32], w.flash_far, w.accumulator];
                ea(self.r.pick(&l))
            }
            'x' => match self.r.below(6) {
                0 => vec![],
                1 => b"run".to_vec(),
                2 => b"EGLD".to_vec(),
                3 => b"USD".to_vec(),
                4 => vec![b'a'; 300],
                _ => b"ESDTTransfer".to_vec(),
            },
            's' => match self.r.below(5) {
                0 => vec![],
                1 => vec![0, 0, 0, 9, 1],
                2 => argbuf(&[b"F".to_vec()]),
                _ => {
                    let i = self.r.below(self.n() as u64) as usize;
                    let x = self.amount(i);
                    let t = self.tok(i);
                    crate::exec::steps(&self.e.w, &[Pay::new(&t, x)])
                }
            },
            'p' => {
                let p = self.raw_pay();
                let mut v = pay_struct(&p);
                if self.r.chance(6) {
                    v.truncate(self.r.below(v.len() as u64) as usize);
                } else if self.r.chance(4) {
                    v.push(0);
                }
                v
            }
            'v' => {
                let n = self.r.below(4);
                (0..n).flat_map(|_| pay_struct(&self.raw_pay())).collect()
            }
            'X' => {
                let mut v = nested(b"EGLD");
                v.extend(nested(b"USD"));
                v
            }
            'M' => {
                let mut b = vec![self.r.below(4) as u8];
                for _ in 0..3 {
                    let x = *self.r.pick(&[0u64, 100, 5_000, 9_000, 9_500, 20_000]);
                    let sc = *self.r.pick(&[4u32, 4, 4, 0, 18, 27]);
                    b.extend(enc_dec(&u(x as u128), sc));
                }
                b.push(self.r.below(3) as u8);
                b
            }
            'c' => vec![self.r.below(3) as u8, self.r.below(3) as u8],
            'D' => {
                let x = p10(self.r.below(30) as u32);
                enc_dec(&x, *self.r.pick(&[0u32, 6, 18, 27, 4, 200]))
            }
            'o' => vec![],
            'P' => {
                let i = self.r.below(self.n() as u64) as usize;
                let t = self.tok(i);
                position(self.r.below(4) as u8, &t, &p10(self.r.below(40) as u32), 1)
            }
            _ => vec![],
        }
    }
    fn raw_pay(&mut self) -> Pay {
        let i = self.r.below(self.n() as u64) as usize;
        let x = self.amount(i);
        let mut p = Pay::new(&self.tok(i), x);
        match self.r.below(14) {
            0 => p.amount = zero(),
            1 => p.amount = u(1),
            2 => p.nonce = self.r.range(1, 9),
            3 => p.nonce = u64::MAX,
            4 => p.token = JUNK.to_vec(),
            5 => p.token = b"NOPE-123456".to_vec(),
            6 => p.amount = u(1) << 200u32,
            _ => {}
        }
        p
    }
    fn raw_pays(&mut self, kind: u8, by: usize) -> Vec<Pay> {
        let mut v = vec![];
        let mine: Vec<u64> = self.accts().into_iter().filter(|a| self.holder(*a) == by).collect();
        if kind >= 2 {
            if !mine.is_empty() && self.r.chance(85) {
                let a = *self.r.pick(&mine);
                v.push(self.nft(a));
            }
        }
        if kind == 1 || kind == 3 {
            let n = 1 + self.r.weighted(&[60, 25, 15]);
            for _ in 0..n {
                let i = self.r.below(self.n() as u64) as usize;
                let x = self.amount(i);
                v.push(Pay::new(&self.tok(i), x));
            }
        }
        if self.r.chance(12) {
            match self.r.below(6) {
                0 => v.clear(),
                1 => v.push(Pay::new(JUNK, u(5))),
                2 => v.push(Pay::new(EGLD, u(7))),
                3 => {
                    if let Some(a) = self.acct() {
                        v.push(self.nft(a));
                    }
                }
                4 => {
                    if let Some(p) = v.first().cloned() {
                        v.push(p);
                    }
                }
                _ => v.reverse(),
            }
        }
        // only what the sender has, otherwise nothing would reach the contract
        let from = self.e.w.actors[by];
        let mut l: Vec<Pay> = vec![];
        for mut p in v {
            let have = if p.nonce > 0 { self.e.w.vm.nft_balance(&from, &p.token, p.nonce) } else { self.e.w.vm.balance(&from, &p.token) };
            if p.nonce > 0 && have.is_zero() {
                continue;
            }
            if p.amount > have {
                p.amount = have;
            }
            l.push(p);
        }
        if l.len() == 1 && l[0].is_egld() && l[0].amount.is_zero() {
            l.clear();
        }
        l
    }
    fn raw_args(&mut self, spec: &str) -> Vec<Vec<u8>> {
        let cs: Vec<char> = spec.chars().collect();
        let mut v = vec![];
        let mut i = 0;
        while i < cs.len() {
            let opt = i + 1 < cs.len() && cs[i + 1] == '?';
            let many = i + 1 < cs.len() && cs[i + 1] == '*';
            if many {
                for _ in 0..self.r.weighted(&[8, 45, 25, 12, 10]) {
                    v.push(self.raw_arg(cs[i]));
                }
                i += 2;
            } else if opt {
                if self.r.chance(60) {
                    v.push(self.raw_arg(cs[i]));
                }
                i += 2;
            } else {
                v.push(self.raw_arg(cs[i]));
                i += 1;
            }
        }
        // (shifted arguments could put a huge length prefix where a list is expected)
        if self.r.chance(8) && !spec.contains(|c| "spvXMDPo".contains(c)) {
            match self.r.below(4) {
                0 => {
                    v.pop();
                }
                1 => {
                    let x = self.raw_arg('x');
                    v.push(x);
                }
                2 => {
                    if !v.is_empty() {
                        let k = self.r.below(v.len() as u64) as usize;
                        let x = v[k].clone();
                        v.push(x);
                    }
                }
                _ => v.clear(),
            }
        }
        v
    }

    /// one malformed or hostile call
    pub fn fuzz_one(&mut self) {
        let (c, g) = (self.e.w.controller, self.e.w.aggregator);
        match self.r.below(100) {
            0..=19 => {
                let (f, spec) = *self.r.pick(VIEWS);
                let args = self.raw_args(spec);
                let o = self.e.w.vm.query(&c, f, args.clone());
                self.seen_call("view", f, &args, &[], o.ok, &o.msg);
            }
            20..=27 => {
                let i = self.r.below(self.n() as u64) as usize;
                let p = self.e.w.pools[i];
                let (f, spec, k) = *self.r.pick(POOL);
                self.raw_call(&p, f, spec, k, "pool");
            }
            28..=35 => {
                let (f, spec, k) = *self.r.pick(AGG);
                self.raw_call(&g, f, spec, k, "aggregator");
            }
            36..=47 => {
                let (f, spec, k) = *self.r.pick(ADMIN);
                // accepted settings are undone: they would only change what the rest explores
                let s = self.e.w.vm.snapshot();
                self.raw_call(&c, f, spec, k, "controller");
                self.e.w.vm.restore(&s);
                self.e.refresh();
            }
            _ => {
                let (f, spec, k) = *self.r.pick(TAB);
                self.raw_call(&c, f, spec, k, "controller");
            }
        }
    }

    fn seen_call(&mut self, wh: &str, f: &str, args: &[Vec<u8>], pays: &[Pay], ok: bool, msg: &str) {
        self.e.steps += 1;
        self.e.cov.evals += 1;
        let ps: Vec<String> = pays.iter().map(|p| format!("{}#{} {}", String::from_utf8_lossy(&p.token), p.nonce, p.amount)).collect();
        let l = format!("{} {}({}) pays [{}] -> {}", wh, f, args.iter().map(hex::encode).collect::<Vec<_>>().join(","), ps.join(", "), if ok { "ok" } else { msg });
        self.e.note(l.chars().take(900).collect());
        let m: String = msg.chars().take(60).collect();
        self.e.cov.hit(&format!("raw {} {}", f, if ok { "ok" } else { "refused" }));
        let sig = format!("{} {} {}", wh, f, if ok { "ok" } else { &m });
        if self.e.cov.sigs.insert(sig.clone()) && self.e.cov.samples.len() < 12 {
            self.e.cov.samples.push(l.chars().take(260).collect());
        }
        if !ok && machine_panic(msg) {
            self.e.report(vec!["P24"], format!("{} {} ended in a machine panic: {}", wh, f, msg));
        }
    }

    fn raw_call(&mut self, to: &Addr, f: &str, spec: &str, kind: u8, wh: &str) {
        let own = ADMIN.iter().any(|x| x.0 == f) || f == "addRewards" || AGG[2..5].iter().any(|x| x.0 == f);
        let by = if own && self.r.chance(75) { OWNER } else { self.user() };
        let from = self.e.w.actors[by];
        let args = self.raw_args(spec);
        let kind = if self.r.chance(6) { self.r.below(4) as u8 } else { kind };
        let pays = self.raw_pays(kind, by);
        self.e.note(format!("{} calls {} {}", self.e.w.actor_names[by], wh, f));
        if wh == "controller" && f == "createLiquidityPool" {
            let n = sc("poolFuzz", 0);
            self.e.w.vm.expect_new_address(to, &n);
        }
        let o = self.e.w.vm.call(&from, to, f, args.clone(), &pays);
        self.seen_call(wh, f, &args, &pays, o.ok, &o.msg);
        if wh == "aggregator" {
            if o.ok && f.starts_with("submit") {
                // keep the recorded feeds in step with what was published
                self.resync_feeds();
            }
            self.e.refresh();
            return;
        }
        let post = State::read(&self.e.w);
        if !o.ok {
            let d = compare(&self.e.w, &self.e.pre, &post, &Tol { units: 0 });
            if let Some(x) = d.first() {
                self.e.report(vec!["P24"], format!("refused {} had an effect: {}", f, x.what));
            }
            self.e.pre = post;
            return;
        }
        if wh == "controller" && ADMIN.iter().any(|x| x.0 == f) {
            // new markets and oracles are outside the decoded state; the caller undoes all this
            return;
        }
        // what an accepted call may do: the invariants of any transaction by this sender
        let n = args.first().map(|a| if a.len() <= 8 { top_u64(a) } else { 0 }).unwrap_or(0);
        let act = match f {
            "liquidate" => Act::Liquidate { by, acct: n, pays: pays.clone() },
            "cleanBadDebt" => Act::Clean { by, acct: n },
            "repay" => Act::Repay { by, acct: n, pays: pays.clone() },
            "addRewards" => Act::Rewards { by, pays: pays.clone() },
            "supply" => Act::Supply { by, acct: None, emode: None, pays: pays.clone() },
            _ => Act::Claim { by, assets: vec![] },
        };
        let k = self.e.findings.len();
        self.e.invariants(&act, &post);
        for x in &mut self.e.findings[k..] {
            if !x.props.contains(&"P24") {
                x.props.push("P24");
            }
        }
        self.e.pre = post;
    }

    /// aggregator storage back into the record of what the sources say
    fn resync_feeds(&mut self) {
        let g = self.e.w.aggregator;
        let l: Vec<Vec<u8>> = self.e.w.feeds.agg.keys().cloned().collect();
        for t in l {
            let mut key = b"rounds".to_vec();
            key.extend(nested(&t));
            key.extend(nested(b"USD"));
            let raw = self.e.w.vm.storage(&g, &key);
            if raw.is_empty() {
                continue;
            }
            let mut r = Rd::new(&raw);
            let v = (r.big(), r.u64());
            self.e.w.feeds.agg.insert(t, v);
        }
    }

    /// random honest steps interleaved with malformed calls
    pub fn fuzz_run(&mut self) {
        // the VM cannot call an address it has no account for
        for x in [[0u8; 32], [0xffu8; 32]] {
            if !self.e.w.vm.has_acc(&x) {
                self.e.w.vm.put_account(&x, None, None);
            }
        }
        self.seed_liquidity();
        for _ in 0..2 {
            self.loaded();
        }
        for k in ["open", "multiply", "borrow"] {
            self.do_(k);
        }
        let n = 40 + self.r.below(60);
        for j in 0..n {
            if self.e.hit_violation() {
                return;
            }
            if self.r.chance(12) {
                let k = *self.r.pick(&["tick", "long", "move", "heal", "crash", "stale", "deviate", "heal"]);
                self.env(k);
            }
            if self.r.chance(12) {
                let k = *self.r.pick(&["open", "borrow", "withdraw", "repay", "topup", "liquidate", "multiply", "swapcoll"]);
                self.do_(k);
                continue;
            }
            self.fuzz_one();
            if j % 16 == 0 {
                self.account_views();
            }
        }
        self.answers();
    }

    /// well-formed views of existing markets and accounts answer
    pub fn answers(&mut self) {
        let c = self.e.w.controller;
        self.env("heal");
        self.e.w.publish_all();
        self.e.refresh();
        let mut bad = vec![];
        let mut ask = |me: &mut Gen, to: &Addr, f: &str, args: Vec<Vec<u8>>| {
            let o = me.e.w.vm.query(to, f, args);
            me.e.cov.evals += 1;
            me.e.cov.hit(&format!("answered {}", f));
            if !o.ok {
                bad.push(format!("view {} of an existing subject failed: {}", f, o.msg));
            }
        };
        for f in ["getPools", "getAccount", "getAccountNonce", "getAccounts", "getLiqPoolTemplateAddress", "getAccumulatorAddress", "getPriceAggregatorAddress", "getSafePriceAddress", "getSwapRouterAddress", "lastEModeCategoryId", "getEModes", "isFlashLoanOngoing", "getPositionLimits", "isPaused"] {
            ask(self, &c, f, vec![]);
        }
        for i in 0..self.n() {
            let t = self.tok(i);
            let p = self.e.w.pools[i];
            for f in ["getPoolAddress", "getAssetConfig", "getAssetEModes", "getIsolatedAssetDebtUsd", "getTokenOracle"] {
                ask(self, &c, f, vec![t.clone()]);
            }
            for f in ["getSuppliedScaled", "getRevenueScaled", "getBorrowedScaled", "getParameters", "getBorrowIndex", "getSupplyIndex", "getLastTimestamp", "capitalUtilisation", "reserves", "depositRate", "borrowRate", "deltaTime", "protocolRevenue", "suppliedAmount", "borrowedAmount"] {
                ask(self, &p, f, vec![]);
            }
        }
        for a in self.accts() {
            ask(self, &c, "getAccountAttributes", vec![en(a)]);
            for k in [1u64, 2] {
                ask(self, &c, "getPositions", vec![en(a), en(k)]);
            }
        }
        for b in bad {
            self.e.report(vec!["P24"], b);
        }
    }
}

fn with_sender(a: Act, by: usize) -> Option<Act> {
    let mut a = a;
    match &mut a {
        Act::PoolParams { by: b, .. } | Act::EditAsset { by: b, .. } | Act::UpgradePool { by: b, .. } | Act::AddEMode { by: b, .. }
        | Act::EditEMode { by: b, .. } | Act::RemoveEMode { by: b, .. } | Act::AssetEMode { by: b, .. } | Act::DropAssetEMode { by: b, .. }
        | Act::Limits { by: b, .. } | Act::Tolerance { by: b, .. } | Act::SetAddr { by: b, .. } | Act::SetOracle { by: b, .. }
        | Act::CreatePool { by: b, .. } | Act::Pause { by: b } | Act::Unpause { by: b } | Act::Rewards { by: b, .. } => *b = by,
        _ => return None,
    }
    Some(a)
}
