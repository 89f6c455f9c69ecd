//! The protocol's observable state, decoded from the raw account states of the VM
//! (never through the protocol's own views), plus field-wise comparison.
use crate::codec::*;
use crate::num::*;
use crate::vm::*;
use crate::world::*;
use num_traits::Zero;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub struct PoolS {
    pub supplied: U,
    pub borrowed: U,
    pub revenue: U,
    pub sidx: U,
    pub bidx: U,
    pub last: u64,
    pub max: U,
    pub base: U,
    pub s1: U,
    pub s2: U,
    pub s3: U,
    pub mid: U,
    pub opt: U,
    pub rf: U,
    pub dec: u32,
    pub token: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Pos {
    pub scaled: U,
    pub thr: U,
    pub bonus: U,
    pub fee: U,
    pub ltv: U,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Attr {
    pub iso: bool,
    pub emode: u8,
    pub mode: u8,
    pub iso_token: Option<usize>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ACfg {
    pub ltv: U,
    pub thr: U,
    pub bonus: U,
    pub fee: U,
    pub can_coll: bool,
    pub can_borrow: bool,
    pub emode: bool,
    pub isolated: bool,
    pub ceiling: U,
    pub siloed: bool,
    pub flash: bool,
    pub flash_fee: U,
    pub iso_borrow: bool,
    pub borrow_cap: Option<U>,
    pub supply_cap: Option<U>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct EMode {
    pub ltv: U,
    pub thr: U,
    pub bonus: U,
    pub deprecated: bool,
    pub assets: BTreeMap<usize, (bool, bool)>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct OrS {
    pub base: Vec<u8>,
    pub quote: Vec<u8>,
    pub up1: U,
    pub lo1: U,
    pub up2: U,
    pub lo2: U,
    pub contract: Addr,
    pub method: u8,
    pub ty: u8,
    pub src: u8,
    pub dec: u32,
    pub onedex: u32,
    pub stale: u64,
}

pub const DEP: u8 = 1;
pub const BOR: u8 = 2;

#[derive(Clone, Debug)]
pub struct State {
    pub now: u64,
    pub pools: Vec<PoolS>,
    /// (account, side, asset)
    pub pos: BTreeMap<(u64, u8, usize), Pos>,
    pub attrs: BTreeMap<u64, Attr>,
    pub listed: BTreeSet<u64>,
    pub listed_dup: bool,
    pub last_nonce: u64,
    /// account token -> (actor index, amount)
    pub nft: BTreeMap<u64, Vec<(usize, U)>>,
    /// attributes carried by live tokens
    pub iso: BTreeMap<usize, U>,
    pub cfg: Vec<Option<ACfg>>,
    pub emodes: BTreeMap<u8, EMode>,
    pub asset_modes: Vec<BTreeSet<u8>>,
    pub oracles: Vec<Option<OrS>>,
    pub pool_addr: Vec<Option<Addr>>,
    pub paused: bool,
    pub flash: bool,
    pub limits: (u8, u8),
    /// (actor index, asset index); last asset index = JUNK
    pub bal: Vec<Vec<U>>,
    pub addrs: [Addr; 5],
    /// anything in controller/pool storage that does not decode
    pub bad: Vec<String>,
}

fn tok_ix(w: &World, t: &[u8]) -> Option<usize> {
    w.assets.iter().position(|a| a.id == t)
}

fn dec_pool(w: &World, p: &Addr) -> PoolS {
    let g = |k: &[u8]| top_dec(&w.vm.storage(p, k)).0;
    let par = w.vm.storage(p, b"params");
    let mut r = Rd::new(&par);
    let mut x = vec![];
    for _ in 0..8 {
        x.push(r.decv());
    }
    let token = r.bytes();
    let dec = r.u32();
    PoolS {
        supplied: g(b"supplied"),
        borrowed: g(b"borrowed"),
        revenue: g(b"revenue"),
        sidx: g(b"supply_index"),
        bidx: g(b"borrow_index"),
        last: top_u64(&w.vm.storage(p, b"last_timestamp")),
        max: x[0].clone(),
        base: x[1].clone(),
        s1: x[2].clone(),
        s2: x[3].clone(),
        s3: x[4].clone(),
        mid: x[5].clone(),
        opt: x[6].clone(),
        rf: x[7].clone(),
        dec,
        token,
    }
}

pub fn dec_cfg(b: &[u8]) -> ACfg {
    let mut r = Rd::new(b);
    let ltv = r.decv();
    let thr = r.decv();
    let bonus = r.decv();
    let fee = r.decv();
    let can_coll = r.bool();
    let can_borrow = r.bool();
    let emode = r.bool();
    let isolated = r.bool();
    let ceiling = r.decv();
    let siloed = r.bool();
    let flash = r.bool();
    let flash_fee = r.decv();
    let iso_borrow = r.bool();
    let borrow_cap = if r.bool() { Some(r.big()) } else { None };
    let supply_cap = if r.bool() { Some(r.big()) } else { None };
    ACfg {
        ltv,
        thr,
        bonus,
        fee,
        can_coll,
        can_borrow,
        emode,
        isolated,
        ceiling,
        siloed,
        flash,
        flash_fee,
        iso_borrow,
        borrow_cap,
        supply_cap,
    }
}

pub fn dec_oracle(b: &[u8]) -> OrS {
    let mut r = Rd::new(b);
    let base = r.bytes();
    let quote = r.bytes();
    let up1 = r.decv();
    let lo1 = r.decv();
    let up2 = r.decv();
    let lo2 = r.decv();
    let mut contract = [0u8; 32];
    contract.copy_from_slice(r.take(32));
    let method = r.u8();
    let ty = r.u8();
    let src = r.u8();
    let dec = r.u32();
    let onedex = r.u32();
    let stale = r.u64();
    OrS { base, quote, up1, lo1, up2, lo2, contract, method, ty, src, dec, onedex, stale }
}

pub fn dec_attr(w: &World, b: &[u8]) -> Option<Attr> {
    if b.len() < 4 {
        return None;
    }
    let mut r = Rd::new(b);
    let iso = r.bool();
    let emode = r.u8();
    let mode = r.u8();
    let iso_token = if r.bool() { Some(tok_ix(w, &r.bytes()).unwrap_or(999)) } else { None };
    Some(Attr { iso, emode, mode, iso_token })
}

impl State {
    pub fn read(w: &World) -> State {
        let mut bad = vec![];
        let n = w.assets.len();
        let mut pools = vec![];
        for p in &w.pools {
            pools.push(dec_pool(w, p));
        }
        let c = w.vm.acc(&w.controller);
        let mut pos = BTreeMap::new();
        let mut attrs = BTreeMap::new();
        let mut iso = BTreeMap::new();
        let mut emodes: BTreeMap<u8, EMode> = BTreeMap::new();
        let mut emode_assets: Vec<(u8, usize, (bool, bool))> = vec![];
        let mut asset_modes = vec![BTreeSet::new(); n];
        let mut listed = BTreeSet::new();
        let mut listed_dup = false;
        let mut cfg = vec![None; n];
        let mut oracles = vec![None; n];
        let mut pool_addr = vec![None; n];
        let st = &c.storage;
        for (k, v) in st.iter() {
            if v.is_empty() {
                continue;
            }
            if k.starts_with(b"positions") {
                let rest = &k[9..];
                if rest.len() > 9 && rest[9..].starts_with(b".mapped") {
                    let acct = u64::from_be_bytes(rest[..8].try_into().unwrap());
                    let side = rest[8];
                    let mut r = Rd::new(&rest[16..]);
                    let tok = r.bytes();
                    let Some(ix) = tok_ix(w, &tok) else {
                        bad.push(format!("position in unknown token {}", String::from_utf8_lossy(&tok)));
                        continue;
                    };
                    let mut r = Rd::new(v);
                    let ty = r.u8();
                    let t2 = r.bytes();
                    let scaled = r.decv();
                    let nn = r.u64();
                    let thr = r.decv();
                    let bonus = r.decv();
                    let fee = r.decv();
                    let ltv = r.decv();
                    if ty != side || t2 != tok || nn != acct {
                        bad.push(format!("position record mismatch acct {} side {} rec ({},{},{})", acct, side, ty, String::from_utf8_lossy(&t2), nn));
                    }
                    pos.insert((acct, side, ix), Pos { scaled, thr, bonus, fee, ltv });
                }
            } else if k.starts_with(b"account_attributes") {
                let a = u64::from_be_bytes(k[18..26].try_into().unwrap());
                match dec_attr(w, v) {
                    Some(x) => {
                        attrs.insert(a, x);
                    }
                    None => bad.push(format!("attributes of {} undecodable", a)),
                }
            } else if k.starts_with(b"accounts.item") {
                if !listed.insert(top_u64(v)) {
                    listed_dup = true;
                }
            } else if k.starts_with(b"isolated_asset_debt_usd") {
                let t = Rd::new(&k[23..]).bytes();
                if let Some(ix) = tok_ix(w, &t) {
                    iso.insert(ix, top_dec(v).0);
                }
            } else if k.starts_with(b"asset_config") {
                let t = Rd::new(&k[12..]).bytes();
                if let Some(ix) = tok_ix(w, &t) {
                    cfg[ix] = Some(dec_cfg(v));
                }
            } else if k.starts_with(b"token_oracle") {
                let t = Rd::new(&k[12..]).bytes();
                if let Some(ix) = tok_ix(w, &t) {
                    oracles[ix] = Some(dec_oracle(v));
                }
            } else if k.starts_with(b"pools_map") {
                let t = Rd::new(&k[9..]).bytes();
                if let (Some(ix), 32) = (tok_ix(w, &t), v.len()) {
                    pool_addr[ix] = Some(v.as_slice().try_into().unwrap());
                }
            } else if k.starts_with(b"e_mode_category.mapped") {
                let mut r = Rd::new(v);
                let id = r.u8();
                let ltv = r.decv();
                let thr = r.decv();
                let bonus = r.decv();
                let deprecated = r.bool();
                if k[22..] != [id] {
                    bad.push(format!("e-mode {} stored under {:?}", id, &k[22..]));
                }
                emodes.insert(k[22], EMode { ltv, thr, bonus, deprecated, assets: BTreeMap::new() });
            } else if k.starts_with(b"e_mode_assets") && k.len() > 14 && k[14..].starts_with(b".mapped") {
                let t = Rd::new(&k[21..]).bytes();
                if let Some(ix) = tok_ix(w, &t) {
                    emode_assets.push((k[13], ix, (v[0] != 0, v[1] != 0)));
                }
            } else if k.starts_with(b"asset_e_modes") {
                let mut r = Rd::new(&k[13..]);
                let t = r.bytes();
                let tail = &k[13 + 4 + t.len()..];
                if tail.starts_with(b".item") {
                    if let Some(ix) = tok_ix(w, &t) {
                        asset_modes[ix].insert(top_u64(v) as u8);
                    }
                }
            }
        }
        for (m, ix, f) in emode_assets {
            match emodes.get_mut(&m) {
                Some(e) => {
                    e.assets.insert(ix, f);
                }
                None => bad.push(format!("asset {} attached to unknown e-mode {}", ix, m)),
            }
        }
        let limits = {
            let v = w.vm.storage(&w.controller, b"position_limits");
            if v.len() == 2 {
                (v[0], v[1])
            } else {
                (0, 0)
            }
        };
        let last_nonce = top_u64(&w.vm.storage(&w.controller, b"account_nonce"));
        let mut nft: BTreeMap<u64, Vec<(usize, U)>> = BTreeMap::new();
        let mut bal = vec![];
        let mut toks: Vec<Vec<u8>> = w.assets.iter().map(|a| a.id.clone()).collect();
        toks.push(JUNK.to_vec());
        toks.push(WEGLD.to_vec());
        let mut all: Vec<Addr> = w.actors.clone();
        all.extend(w.pools.iter());
        for (ai, a) in all.iter().enumerate() {
            let acc = w.vm.acc(a);
            let mut row = vec![];
            for t in &toks {
                row.push(if t == EGLD { acc.egld_balance.clone() } else { acc.esdt.get_esdt_balance(t, 0) });
            }
            bal.push(row);
            if let Some(d) = acc.esdt.get_by_identifier(ACC) {
                for (nonce, inst) in d.instances.get_instances().iter() {
                    if !inst.balance.is_zero() {
                        nft.entry(*nonce).or_default().push((ai, inst.balance.clone()));
                    }
                }
            }
        }
        let ad = |k: &[u8]| -> Addr {
            let v = w.vm.storage(&w.controller, k);
            if v.len() == 32 {
                v.as_slice().try_into().unwrap()
            } else {
                [0; 32]
            }
        };
        State {
            now: w.vm.now(),
            pools,
            pos,
            attrs,
            listed,
            listed_dup,
            last_nonce,
            nft,
            iso,
            cfg,
            emodes,
            asset_modes,
            oracles,
            pool_addr,
            paused: !w.vm.storage(&w.controller, b"pause_module:paused").is_empty(),
            flash: !w.vm.storage(&w.controller, b"flash_loan_ongoing").is_empty(),
            limits,
            bal,
            addrs: [
                ad(b"liq_pool_template_address"),
                ad(b"price_aggregator_address"),
                ad(b"safe_price_view"),
                ad(b"accumulator_address"),
                ad(b"swap_router_address"),
            ],
            bad,
        }
    }

    pub fn accounts(&self) -> BTreeSet<u64> {
        self.listed.iter().cloned().chain(self.pos.keys().map(|k| k.0)).collect()
    }
    pub fn side(&self, acct: u64, side: u8) -> Vec<(usize, &Pos)> {
        self.pos.range((acct, side, 0)..(acct, side, usize::MAX)).map(|(k, v)| (k.2, v)).collect()
    }
    pub fn holder(&self, acct: u64) -> Option<usize> {
        self.nft.get(&acct).and_then(|v| v.first()).map(|x| x.0)
    }
    pub fn iso_of(&self, i: usize) -> U {
        self.iso.get(&i).cloned().unwrap_or_default()
    }
}

/// one difference between predicted and observed state
#[derive(Clone, Debug)]
pub struct Diff {
    pub kind: DK,
    pub what: String,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum DK {
    Index,
    Totals,
    Revenue,
    RateParams,
    PosAmount(u64),
    PosRisk(u64),
    PosExist(u64),
    Attrs(u64),
    Listed,
    Nft,
    Iso,
    Config,
    EModes,
    Oracle,
    Wallet(usize),
    Pool(usize),
    Controller,
    Flags,
    Undecodable,
}

#[derive(Clone, Debug)]
pub struct Tol {
    /// token units allowed on amounts
    pub units: u64,
}

fn near(a: &U, b: &U, abs: &U) -> bool {
    let d = absdiff(a, b);
    // relative 1e-21 slack for reordered half-up arithmetic
    &d <= abs || d * p10(21) <= *a.max(b)
}

/// compare predicted with observed
pub fn compare(w: &World, m: &State, o: &State, tol: &Tol) -> Vec<Diff> {
    let mut d = vec![];
    macro_rules! bad { ($k:expr, $($a:tt)*) => { d.push(Diff { kind: $k, what: format!($($a)*) }) } }
    let slack = U::from(2_000u32);
    for b in &o.bad {
        if !m.bad.contains(b) {
            bad!(DK::Undecodable, "{}", b);
        }
    }
    if o.pools.len() != m.pools.len() {
        bad!(DK::Config, "markets {} vs {}", m.pools.len(), o.pools.len());
    }
    let amt_slack = |i: usize, idx: &U| -> U {
        // `units` smallest units expressed as scaled ray
        let unit = p10(27 - o.pools[i].dec.min(27));
        if tol.units == 0 || idx.is_zero() {
            slack.clone()
        } else {
            divr(&(unit * tol.units), idx) + &slack
        }
    };
    for i in 0..m.pools.len().min(o.pools.len()) {
        let (a, b) = (&m.pools[i], &o.pools[i]);
        let n = w.assets[i].name;
        if !near(&a.sidx, &b.sidx, &slack) {
            bad!(DK::Index, "{} supply index expected {} observed {}", n, a.sidx, b.sidx);
        }
        if !near(&a.bidx, &b.bidx, &slack) {
            bad!(DK::Index, "{} borrow index expected {} observed {}", n, a.bidx, b.bidx);
        }
        if a.last != b.last {
            bad!(DK::Index, "{} last sync expected {} observed {}", n, a.last, b.last);
        }
        if !near(&a.supplied, &b.supplied, &amt_slack(i, &a.sidx)) {
            bad!(DK::Totals, "{} total supplied expected {} observed {}", n, a.supplied, b.supplied);
        }
        if !near(&a.borrowed, &b.borrowed, &amt_slack(i, &a.bidx)) {
            bad!(DK::Totals, "{} total borrowed expected {} observed {}", n, a.borrowed, b.borrowed);
        }
        if !near(&a.revenue, &b.revenue, &amt_slack(i, &a.sidx)) {
            bad!(DK::Revenue, "{} treasury share expected {} observed {}", n, a.revenue, b.revenue);
        }
        let pa = (&a.max, &a.base, &a.s1, &a.s2, &a.s3, &a.mid, &a.opt, &a.rf, a.dec, &a.token);
        let pb = (&b.max, &b.base, &b.s1, &b.s2, &b.s3, &b.mid, &b.opt, &b.rf, b.dec, &b.token);
        if pa != pb {
            bad!(DK::RateParams, "{} market parameters expected {:?} observed {:?}", n, pa, pb);
        }
    }
    for (k, a) in &m.pos {
        let n = w.assets[k.2].name;
        let sd = if k.1 == DEP { "deposit" } else { "debt" };
        match o.pos.get(k) {
            None => {
                let idx = if k.1 == DEP { &m.pools[k.2].sidx } else { &m.pools[k.2].bidx };
                // dust smaller than the tolerance may be gone
                if tol.units == 0 || a.scaled > amt_slack(k.2, idx) {
                    bad!(DK::PosExist(k.0), "account {} {} {} expected {} missing", k.0, sd, n, a.scaled)
                }
            }
            Some(b) => {
                let idx = if k.1 == DEP { &m.pools[k.2].sidx } else { &m.pools[k.2].bidx };
                if !near(&a.scaled, &b.scaled, &amt_slack(k.2, idx)) {
                    bad!(DK::PosAmount(k.0), "account {} {} {} expected {} observed {}", k.0, sd, n, a.scaled, b.scaled);
                }
                if (&a.thr, &a.bonus, &a.fee, &a.ltv) != (&b.thr, &b.bonus, &b.fee, &b.ltv) {
                    bad!(DK::PosRisk(k.0), "account {} {} {} (thr,bonus,fee,ltv) expected {:?} observed {:?}", k.0, sd, n, (&a.thr, &a.bonus, &a.fee, &a.ltv), (&b.thr, &b.bonus, &b.fee, &b.ltv));
                }
            }
        }
    }
    for (k, b) in &o.pos {
        if !m.pos.contains_key(k) {
            let idx = if k.1 == DEP { &m.pools[k.2].sidx } else { &m.pools[k.2].bidx };
            if tol.units == 0 || b.scaled > amt_slack(k.2, idx) {
                bad!(DK::PosExist(k.0), "account {} unexpected {} in {} of {}", k.0, if k.1 == DEP { "deposit" } else { "debt" }, w.assets[k.2].name, b.scaled);
            }
        }
    }
    for a in m.attrs.keys().chain(o.attrs.keys()).collect::<BTreeSet<_>>() {
        if m.attrs.get(a) != o.attrs.get(a) {
            bad!(DK::Attrs(*a), "account {} attributes expected {:?} observed {:?}", a, m.attrs.get(a), o.attrs.get(a));
        }
    }
    if m.listed != o.listed || o.listed_dup {
        bad!(DK::Listed, "open accounts expected {:?} observed {:?} dup={}", m.listed, o.listed, o.listed_dup);
    }
    if m.last_nonce != o.last_nonce {
        bad!(DK::Nft, "last account number expected {} observed {}", m.last_nonce, o.last_nonce);
    }
    if m.nft != o.nft {
        for k in m.nft.keys().chain(o.nft.keys()).collect::<BTreeSet<_>>() {
            if m.nft.get(k) != o.nft.get(k) {
                bad!(DK::Nft, "account token {} holders expected {:?} observed {:?}", k, m.nft.get(k), o.nft.get(k));
            }
        }
    }
    for i in 0..w.assets.len() {
        let (a, b) = (m.iso_of(i), o.iso_of(i));
        // usd wad: allow the worth of one unit of any asset
        let ab = if tol.units == 0 { U::from(1_000_000u32) } else { wad() * 60_000u32 / 10_000_000u32 * tol.units };
        let ok = near(&a, &b, &ab) || ((a.is_zero() || b.is_zero()) && near(&a, &b, &(wad() + &ab)) && tol.units > 0);
        if !ok {
            bad!(DK::Iso, "isolated debt of {} expected {} observed {}", w.assets[i].name, a, b);
        }
        if m.cfg[i] != o.cfg[i] {
            bad!(DK::Config, "asset settings of {} expected {:?} observed {:?}", w.assets[i].name, m.cfg[i], o.cfg[i]);
        }
        if m.oracles[i] != o.oracles[i] {
            bad!(DK::Oracle, "oracle of {} expected {:?} observed {:?}", w.assets[i].name, m.oracles[i], o.oracles[i]);
        }
        if m.pool_addr[i] != o.pool_addr[i] {
            bad!(DK::Config, "market address of {} changed", w.assets[i].name);
        }
    }
    if m.emodes != o.emodes || m.asset_modes != o.asset_modes {
        bad!(DK::EModes, "categories expected {:?} {:?} observed {:?} {:?}", m.emodes, m.asset_modes, o.emodes, o.asset_modes);
    }
    if m.paused != o.paused {
        bad!(DK::Flags, "paused expected {} observed {}", m.paused, o.paused);
    }
    if m.flash != o.flash {
        bad!(DK::Flags, "flash-loan flag expected {} observed {}", m.flash, o.flash);
    }
    if m.limits != o.limits {
        bad!(DK::Config, "limits expected {:?} observed {:?}", m.limits, o.limits);
    }
    if m.addrs != o.addrs {
        bad!(DK::Config, "contract addresses expected {:?} observed {:?}", m.addrs.map(hex::encode), o.addrs.map(hex::encode));
    }
    let tu = U::from(tol.units);
    for (ai, row) in m.bal.iter().enumerate() {
        for (ti, a) in row.iter().enumerate() {
            let b = &o.bal[ai][ti];
            if a != b && absdiff(a, b) > tu {
                let tn = if ti < w.assets.len() { w.assets[ti].name } else if ti == w.assets.len() { "JUNK" } else { "WEGLD" };
                let (k, nm) = if ai >= w.actors.len() {
                    (DK::Pool(ai - w.actors.len()), format!("pool {}", w.assets[ai - w.actors.len()].name))
                } else if w.actors[ai] == w.controller {
                    (DK::Controller, "controller".to_string())
                } else {
                    (DK::Wallet(ai), w.actor_names[ai].clone())
                };
                bad!(k, "{} balance of {} expected {} observed {}", tn, nm, a, b);
            }
        }
    }
    d
}
