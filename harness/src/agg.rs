//! Price aggregator: submission histories against a small model of rounds, quorum and medians.
use crate::codec::*;
use crate::gen::*;
use crate::num::*;
use crate::vm::*;
use crate::world::*;
use std::collections::BTreeMap;

type Pair = (Vec<u8>, Vec<u8>);

#[derive(Clone, Default, Debug)]
struct Round {
    /// who voted what in the open round
    votes: BTreeMap<Addr, U>,
    first: u64,
    done: Option<(U, u64, u32)>,
}

#[derive(Clone)]
struct Mini {
    at: Addr,
    owner: Addr,
    count: usize,
    paused: bool,
    /// accepted, total
    oracles: BTreeMap<Addr, (u64, u64)>,
    pairs: BTreeMap<Pair, Round>,
}

#[derive(Clone, Debug)]
struct Sub {
    from: Vec<u8>,
    to: Vec<u8>,
    ts: u64,
    price: U,
}

const MAX_AGE: u64 = 30;
const MAX_ROUND: u64 = 1_800;
const MAX_LIST: usize = 50;

fn median(v: &[U]) -> U {
    let mut v = v.to_vec();
    v.sort();
    let n = v.len();
    if n % 2 == 1 {
        v[n / 2].clone()
    } else {
        (&v[n / 2 - 1] + &v[n / 2]) / 2u32
    }
}

impl Mini {
    /// false: refused, nothing changes
    fn submit(&mut self, by: &Addr, l: &[Sub], now: u64, seen: &mut Vec<&'static str>, say: &mut Vec<Vec<Vec<u8>>>) -> Result<(), &'static str> {
        if self.paused {
            return Err("the aggregator is paused");
        }
        if !self.oracles.contains_key(by) {
            return Err("the sender is not a whitelisted oracle");
        }
        for s in l {
            if s.ts > now {
                return Err("the vote is from the future");
            }
            if now - s.ts > MAX_AGE {
                return Err("the vote is too old");
            }
        }
        for s in l {
            let r = self.pairs.entry((s.from.clone(), s.to.clone())).or_default();
            let n = r.done.as_ref().map(|d| d.2 + 1).unwrap_or(0);
            let mut ev = |k: &str, more: Option<Vec<u8>>| {
                let mut t = vec![k.as_bytes().to_vec(), s.from.clone(), s.to.clone(), en(n as u64)];
                t.extend(more);
                say.push(t);
            };
            if r.votes.is_empty() {
                r.first = now;
            }
            if now > r.first + MAX_ROUND {
                r.votes.clear();
                r.first = now;
                seen.push("round discarded");
                ev("discard_round", None);
            } else if now == r.first + MAX_ROUND && !r.votes.is_empty() {
                seen.push("vote in the last second of a round");
            }
            let o = self.oracles.get_mut(by).unwrap();
            o.1 += 1;
            if r.votes.contains_key(by) {
                seen.push("repeated vote");
                let mut b = now.to_be_bytes().to_vec();
                b.extend(r.first.to_be_bytes());
                b.push(1);
                ev("discard_submission", Some(b));
                continue;
            }
            o.0 += 1;
            ev("add_submission", Some(eu(&s.price)));
            r.votes.insert(*by, s.price.clone());
            if r.votes.keys().any(|k| !self.oracles.contains_key(k)) {
                seen.push("vote of a removed oracle pending");
            }
            if r.votes.len() >= self.count {
                if r.votes.len() > self.count {
                    seen.push("more votes than the lowered quorum");
                }
                seen.push(if r.votes.len() % 2 == 0 { "even median" } else { "odd median" });
                let v: Vec<U> = r.votes.values().cloned().collect();
                r.done = Some((median(&v), now, n));
                let mut b = nested(&eu(&median(&v)));
                b.extend(now.to_be_bytes());
                ev("new_round", Some(b));
                r.votes.clear();
            } else {
                seen.push("vote pending");
            }
        }
        Ok(())
    }
    fn count_ok(&self, n: u64, oracles: usize) -> bool {
        n >= 1 && n <= MAX_LIST as u64 && n <= oracles as u64
    }
}

fn rounds_key(p: &Pair) -> Vec<u8> {
    let mut k = b"rounds".to_vec();
    k.extend(nested(&p.0));
    k.extend(nested(&p.1));
    k
}
fn pair_arg(p: &Pair) -> Vec<u8> {
    let mut k = nested(&p.0);
    k.extend(nested(&p.1));
    k
}

impl Gen {
    fn agg_names(&mut self) -> Vec<Pair> {
        let b = |x: &str| x.as_bytes().to_vec();
        let all = vec![
            (b("EGLD"), b("USD")),
            (b("USD"), b("EGLD")),
            (b("A"), b("BC")),
            (b("AB"), b("C")),
            (b("WBTC"), b("USD")),
            (b(""), b("USD")),
        ];
        let n = self.r.range(1, 4) as usize;
        let mut v = all;
        let mut out = vec![];
        while out.len() < n {
            let i = self.r.below(v.len() as u64) as usize;
            out.push(v.remove(i));
        }
        out
    }

    /// a history on an aggregator of its own
    pub fn agg_history(&mut self) {
        let owner = self.e.w.owner;
        let at = sc("agg2", 0);
        let n = *self.r.pick(&[1usize, 2, 3, 4, 4, 5, 6, 6, 8, 9, 12, 52]);
        let all: Vec<Addr> = (0..n + 3).map(|k| eoa(&format!("orc{}", k))).collect();
        for a in &all {
            if !self.e.w.vm.has_acc(a) {
                self.e.w.vm.add_user(a);
            }
        }
        let q = match self.r.below(12) {
            0 => 0,
            1 => n as u64 + 1,
            2 => *self.r.pick(&[51, 52, 256, 1 << 32, (1 << 32) + 1]),
            3 => n as u64,
            _ => self.r.range(1, (n as u64).min(6)),
        };
        let mut args = vec![en(q)];
        args.extend(all[..n].iter().map(ea));
        let o = self.e.w.vm.deploy(&owner, &at, b"agg", args);
        self.e.note(format!("deploy an aggregator with {} oracles, quorum {} -> {}", n, q, if o.ok { "ok" } else { &o.msg }));
        self.e.steps += 1;
        self.e.cov.evals += 1;
        let ok = q >= 1 && q <= 50 && q <= n as u64;
        self.e.cov.hit(if ok { "deploy ok" } else { "deploy refused" });
        if o.ok != ok {
            self.e.report(vec!["P17"], format!("deployment with {} oracles and quorum {}: {}", n, q, if o.ok { "accepted" } else { &o.msg }));
            return;
        }
        if !ok {
            return;
        }
        let mut m = Mini {
            at,
            owner,
            count: q as usize,
            paused: true,
            oracles: all[..n].iter().map(|a| (*a, (0, 0))).collect(),
            pairs: BTreeMap::new(),
        };
        let names = self.agg_names();
        for p in &names {
            m.pairs.insert(p.clone(), Round::default());
        }
        if self.r.chance(80) {
            self.agg_pause(&mut m, false);
        }
        self.agg_run(&mut m, &all, &names, false);
    }

    /// the same on the aggregator the controller reads, with its prices compared as well
    pub fn agg_live(&mut self) {
        let at = self.e.w.aggregator;
        let owner = self.e.w.owner;
        let all: Vec<Addr> = self.e.w.users.clone();
        let mut m = Mini {
            at,
            owner,
            count: 1,
            paused: false,
            oracles: all.iter().map(|a| (*a, (0, 0))).collect(),
            pairs: BTreeMap::new(),
        };
        let mut names = vec![];
        for i in [0usize, 1, 2, 9] {
            if i != 0 && self.r.chance(40) {
                continue;
            }
            let t = World::ticker(&self.tok(i));
            let Some((p, ts)) = self.e.w.feeds.agg.get(&t).cloned() else { continue };
            let k = (t, b"USD".to_vec());
            m.pairs.insert(k.clone(), Round { done: Some((p, ts, 1)), ..Default::default() });
            names.push(k);
        }
        self.agg_run(&mut m, &all, &names, true);
    }

    fn agg_pause(&mut self, m: &mut Mini, p: bool) {
        let o = self.e.w.vm.call(&m.owner, &m.at, if p { "pause" } else { "unpause" }, vec![], &[]);
        self.e.note(format!("owner {} -> {}", if p { "pause" } else { "unpause" }, if o.ok { "ok" } else { &o.msg }));
        self.e.steps += 1;
        if !o.ok {
            self.e.report(vec!["P17", "P14"], format!("aggregator owner cannot {}: {}", if p { "pause" } else { "unpause" }, o.msg));
        }
        m.paused = p;
    }

    fn agg_run(&mut self, m: &mut Mini, all: &[Addr], names: &[Pair], live: bool) {
        let steps = 40 + self.r.below(60);
        // a base price per pair, votes cluster around it or are wild
        let base = u(self.r.range(1, 1_000_000_000) as u128) * p10(self.r.below(22) as u32);
        for _ in 0..steps {
            if self.e.hit_violation() {
                return;
            }
            let secs = match self.r.below(20) {
                0..=7 => 0,
                8..=11 => 6,
                12 => 1,
                13 => *self.r.pick(&[29, 30, 31]),
                14 => {
                    // to the edge of an open round
                    let now = self.e.w.vm.now();
                    let open: Vec<u64> = m.pairs.values().filter(|r| !r.votes.is_empty()).map(|r| r.first).collect();
                    if open.is_empty() {
                        5
                    } else {
                        let f = *self.r.pick(&open);
                        (f + MAX_ROUND + self.r.below(3)).saturating_sub(1).saturating_sub(now)
                    }
                }
                15 => *self.r.pick(&[1_799, 1_800, 1_801]),
                16 => self.r.range(1, 900),
                _ => 0,
            };
            if secs > 0 {
                self.e.w.advance(secs);
                self.e.note(format!("time +{}", secs));
            }
            if m.paused && self.r.chance(35) {
                self.agg_pause(m, false);
            }
            match self.r.below(100) {
                0..=69 => self.agg_submit(m, all, names, &base, live),
                70..=85 => self.agg_admin(m, all, live),
                _ => self.agg_views(m, names),
            }
            self.agg_compare(m);
            if live {
                self.agg_prices(m, names);
            }
        }
        self.agg_views(m, names);
    }

    fn agg_submit(&mut self, m: &mut Mini, all: &[Addr], names: &[Pair], base: &U, live: bool) {
        let now = self.e.w.vm.now();
        let by = match self.r.below(20) {
            0 => m.owner,
            1 => *self.r.pick(all),
            2 => self.e.w.users[0],
            _ => {
                // prefer those who have not voted yet
                let l: Vec<Addr> = m.oracles.keys().cloned().collect();
                let fresh: Vec<Addr> = l.iter().filter(|a| m.pairs.values().any(|r| !r.votes.contains_key(*a))).cloned().collect();
                if !fresh.is_empty() && self.r.chance(70) {
                    *self.r.pick(&fresh)
                } else if l.is_empty() {
                    m.owner
                } else {
                    *self.r.pick(&l)
                }
            }
        };
        let k = if self.r.chance(70) { 1 } else { self.r.below(5) as usize };
        let mut l = vec![];
        let fair = self.e.w.fair.clone();
        for _ in 0..k {
            let p = self.r.pick(names).clone();
            let ts = match self.r.below(40) {
                0 => now + 1,
                1 => now - 30,
                2 => now - 31,
                3 => now + self.r.range(1, 10_000),
                4 => 0,
                5 => *self.r.pick(&[u64::MAX, u64::MAX - 30, 1 << 63]),
                _ => now - self.r.below(30),
            };
            let price = if live {
                let ix = self.e.w.asset_ix(&p.0).or_else(|| (0..self.e.w.assets.len()).find(|i| World::ticker(&self.e.w.assets[*i].id) == p.0));
                let b = match ix {
                    Some(0) | None => self.e.w.egld_usd.clone(),
                    Some(i) => mul_w(&fair[i], &self.e.w.egld_usd),
                };
                &b * self.r.range(9_000, 11_000) / 10_000u32
            } else {
                match self.r.below(12) {
                    0 => zero(),
                    1 => one(),
                    2 => u(u64::MAX as u128) * p10(30),
                    3 => p10(self.r.below(60) as u32),
                    4 => base.clone(),
                    _ => base * self.r.range(1, 20_000) / 10_000u32,
                }
            };
            l.push(Sub { from: p.0, to: p.1, ts, price });
        }
        let single = l.len() == 1 && self.r.chance(60);
        let args: Vec<Vec<u8>> = l.iter().flat_map(|s| vec![s.from.clone(), s.to.clone(), en(s.ts), eu(&s.price)]).collect();
        let mut next = m.clone();
        let mut seen = vec![];
        let mut say = vec![];
        let want = next.submit(&by, &l, now, &mut seen, &mut say);
        let o = self.e.w.vm.call(&by, &m.at, if single { "submit" } else { "submitBatch" }, args, &[]);
        self.e.steps += 1;
        self.e.cov.evals += 1;
        let who = if m.oracles.contains_key(&by) { format!("oracle {}", m.oracles.keys().position(|a| *a == by).unwrap()) } else { "a stranger".to_string() };
        let txt: Vec<String> = l.iter().map(|s| format!("{}/{}={} at now{:+}", String::from_utf8_lossy(&s.from), String::from_utf8_lossy(&s.to), s.price, s.ts as i128 - now as i128)).collect();
        self.e.note(format!("{} {} [{}] -> {}", who, if single { "submit" } else { "submitBatch" }, txt.join(", "), if o.ok { "ok" } else { &o.msg }));
        let mut sig = format!("submit x{} quorum {} of {}", l.len(), m.count.min(8), m.oracles.len().min(10));
        match want {
            Ok(()) => {
                for s in &seen {
                    self.e.cov.hit(&format!("seen: {}", s));
                    sig += " ";
                    sig += s;
                }
            }
            Err(e) => {
                self.e.cov.hit(&format!("refused: {}", e));
                sig += e;
            }
        }
        if self.e.cov.sigs.insert(sig.clone()) && self.e.cov.samples.len() < 12 {
            let t = self.e.trace.last().unwrap().clone();
            self.e.cov.samples.push(format!("{} :: {}", sig, t.chars().take(240).collect::<String>()));
        }
        match (want, o.ok) {
            (Ok(()), true) => {
                *m = next;
                // what was announced: block and epoch follow the price and time of a new round
                let info = &self.e.w.vm.st().current_block_info;
                let mut tail = info.block_nonce.to_be_bytes().to_vec();
                tail.extend(info.block_epoch.to_be_bytes());
                for t in say.iter_mut() {
                    if t[0] == b"new_round" {
                        t[4].extend(&tail);
                    }
                }
                let mut got: Vec<_> = o.logs.iter().filter(|x| x.address == m.at).map(|x| x.topics.clone()).collect();
                got.sort();
                say.sort();
                self.e.cov.add("aggregator events", got.len() as u64);
                if got != say {
                    let show = |v: &Vec<Vec<Vec<u8>>>| v.iter().map(|t| format!("{} {:?}", String::from_utf8_lossy(&t[0]), &t[1..])).collect::<Vec<_>>().join("; ");
                    self.e.report(vec!["P25"], format!("the votes were announced as [{}], they were [{}]", show(&got), show(&say)));
                }
            }
            (Err(_), false) => {}
            (Ok(()), false) => self.e.report(vec!["P17", "P24"], format!("votes refused ({}) although the rules allow them", o.msg)),
            (Err(e), true) => self.e.report(vec!["P17", "P14"], format!("votes accepted although {}", e)),
        }
    }

    fn agg_admin(&mut self, m: &mut Mini, all: &[Addr], live: bool) {
        let owner_call = self.r.chance(80);
        let by = if owner_call { m.owner } else { *self.r.pick(all) };
        let n = m.oracles.len() as u64;
        let count = match self.r.below(10) {
            0 => 0,
            1 => n + 1,
            2 => *self.r.pick(&[50, 51, 255, 256, 1 << 32, (1 << 32) + 1]),
            3 => n,
            _ => self.r.range(1, n.max(1).min(5)),
        };
        let kind_rm = m.oracles.len() < 4;
        let mut who = vec![];
        let most = if kind_rm { 3 } else { 4 };
        for _ in 0..self.r.below(most) {
            who.push(*self.r.pick(all));
        }
        let kind = *self.r.pick(&["addOracles", "removeOracles", "removeOracles", "setSubmissionCount", "setSubmissionCount", "setSubmissionCount", "addOracles", "pause", "unpause", "upgrade"]);
        if live && kind == "removeOracles" && self.r.chance(50) {
            return;
        }
        let mut next = m.clone();
        let (args, ok) = match kind {
            "addOracles" => {
                for a in &who {
                    next.oracles.entry(*a).or_insert((0, 0));
                }
                (who.iter().map(ea).collect::<Vec<_>>(), true)
            }
            "removeOracles" => {
                for a in &who {
                    next.oracles.remove(a);
                }
                let ok = next.count_ok(count, next.oracles.len());
                next.count = count as usize;
                let mut v = vec![en(count)];
                v.extend(who.iter().map(ea));
                (v, ok)
            }
            "setSubmissionCount" => {
                next.count = count as usize;
                (vec![en(count)], m.count_ok(count, m.oracles.len()))
            }
            "pause" => {
                next.paused = true;
                (vec![], true)
            }
            "unpause" => {
                next.paused = false;
                (vec![], true)
            }
            _ => {
                if !owner_call {
                    return;
                }
                next.paused = true;
                (vec![], true)
            }
        };
        let o = if kind == "upgrade" {
            self.e.w.vm.upgrade(&m.owner, &m.at, b"agg", vec![])
        } else {
            self.e.w.vm.call(&by, &m.at, kind, args, &[])
        };
        self.e.steps += 1;
        self.e.cov.evals += 1;
        self.e.note(format!("{} {} count {} who {} -> {}", if owner_call { "owner" } else { "a stranger" }, kind, count, who.len(), if o.ok { "ok" } else { &o.msg }));
        let ok = ok && owner_call;
        self.e.cov.hit(&format!("{} {}", kind, if ok { "ok" } else if owner_call { "refused" } else { "refused: not the owner" }));
        match (ok, o.ok) {
            (true, true) => *m = next,
            (false, false) => {}
            (true, false) => self.e.report(vec!["P17", "P24"], format!("{} refused ({}) although the rules allow it", kind, o.msg)),
            (false, true) if !owner_call => self.e.report(vec!["P14", "P17"], format!("a stranger could call {}", kind)),
            (false, true) => self.e.report(vec!["P17"], format!("{} accepted with quorum {} and {} oracles", kind, count, next.oracles.len())),
        }
    }

    /// what the contract has recorded against the model
    fn agg_compare(&mut self, m: &Mini) {
        let mut bad = vec![];
        for (p, r) in &m.pairs {
            let raw = self.e.w.vm.storage(&m.at, &rounds_key(p));
            let got = if raw.is_empty() {
                None
            } else {
                let mut rd = Rd::new(&raw);
                Some((rd.big(), rd.u64(), rd.u32()))
            };
            if got != r.done {
                bad.push(format!("published price of {}/{} is {:?}, the votes give {:?}", String::from_utf8_lossy(&p.0), String::from_utf8_lossy(&p.1), got, r.done));
            }
        }
        for (a, st) in &m.oracles {
            let mut k = b"oracle_status.mapped".to_vec();
            k.extend_from_slice(a);
            let raw = self.e.w.vm.storage(&m.at, &k);
            if raw.len() == 16 {
                let mut rd = Rd::new(&raw);
                let g = (rd.u64(), rd.u64());
                if g != *st {
                    bad.push(format!("an oracle has {:?} accepted and submitted votes on record, {:?} happened", g, st));
                }
            } else {
                bad.push("a whitelisted oracle has no record".to_string());
            }
        }
        for b in bad {
            self.e.report(vec!["P17"], b);
        }
    }

    fn agg_views(&mut self, m: &Mini, names: &[Pair]) {
        let vm = &mut self.e.w.vm;
        let mut bad: Vec<String> = vec![];
        let feed = |p: &Pair, d: &(U, u64, u32)| -> Vec<u8> {
            let mut v = d.2.to_be_bytes().to_vec();
            v.extend(nested(&p.0));
            v.extend(nested(&p.1));
            v.extend_from_slice(&d.1.to_be_bytes());
            v.extend(nested(&eu(&d.0)));
            v
        };
        for p in names {
            let o = vm.query(&m.at, "latestPriceFeed", vec![p.0.clone(), p.1.clone()]);
            let want = if m.paused { None } else { m.pairs[p].done.as_ref().map(|d| feed(p, d)) };
            let got = if o.ok { Some(o.val().to_vec()) } else { None };
            if got != want {
                bad.push(format!("latestPriceFeed {}/{}: {:?} {} instead of {:?}", String::from_utf8_lossy(&p.0), String::from_utf8_lossy(&p.1), got, o.msg, want));
            }
        }
        let o = vm.query(&m.at, "latestRoundData", names.iter().map(pair_arg).collect());
        if m.paused == o.ok {
            bad.push(format!("latestRoundData {} while {}", if o.ok { "answered" } else { &o.msg }, if m.paused { "paused" } else { "active" }));
        } else if o.ok {
            let want: Vec<Vec<u8>> = names.iter().filter_map(|p| m.pairs[p].done.as_ref().map(|d| feed(p, d))).collect();
            if o.values != want {
                bad.push("latestRoundData differs from the published rounds".to_string());
            }
        }
        let o = vm.query(&m.at, "getOracles", vec![]);
        let mut got: Vec<Vec<u8>> = o.values.clone();
        got.sort();
        let mut want: Vec<Vec<u8>> = m.oracles.keys().map(|a| a.to_vec()).collect();
        want.sort();
        if !o.ok || got != want {
            bad.push(format!("getOracles lists {} oracles, {} are whitelisted", got.len(), want.len()));
        }
        let o = vm.query(&m.at, "submission_count", vec![]);
        if !o.ok || o.val() != en(m.count as u64) {
            bad.push(format!("submission_count {:?}, set to {}", o.values, m.count));
        }
        let o = vm.query(&m.at, "isPaused", vec![]);
        if !o.ok || o.val() != eb(m.paused) {
            bad.push(format!("isPaused {:?}, should be {}", o.values, m.paused));
        }
        self.e.cov.evals += 1;
        self.e.cov.hit("aggregator views compared");
        for b in bad {
            self.e.report(vec!["P17"], b);
        }
    }

    /// the controller prices with what was published
    fn agg_prices(&mut self, m: &Mini, names: &[Pair]) {
        for p in names {
            if let Some((v, ts, _)) = &m.pairs[p].done {
                self.e.w.feeds.agg.insert(p.0.clone(), (v.clone(), *ts));
            }
        }
        self.e.w.feeds.agg_paused = m.paused;
        if self.r.chance(30) {
            self.e.refresh();
            let i = *self.r.pick(&[1usize, 2, 9]);
            self.price_views(i);
        }
    }
}

fn mul_w(a: &U, b: &U) -> U {
    a * b / p10(18)
}
