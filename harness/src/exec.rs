//! Turns a workload action into the real transaction.
use crate::codec::*;
use crate::model::*;
use crate::num::*;
use crate::vm::*;
use crate::world::*;

/// router program: send these back to the controller
pub fn steps(w: &World, outs: &[Pay]) -> Vec<u8> {
    let mut v = vec![];
    for (c, k, x) in w.poke_writes() {
        v.push(b"C".to_vec());
        v.push(ea(&c));
        v.push(b"poke".to_vec());
        v.push(en(0));
        v.push(en(2));
        v.push(k);
        v.push(x);
    }
    for p in outs {
        v.push(b"S".to_vec());
        v.push(ea(&w.controller));
        v.push(p.token.clone());
        v.push(en(p.nonce));
        v.push(eu(&p.amount));
    }
    argbuf(&v)
}
pub fn program(ops: &[Op]) -> Vec<u8> {
    let mut v = vec![];
    for o in ops {
        match o {
            Op::Send { to, pay } => {
                v.push(b"S".to_vec());
                v.push(ea(to));
                v.push(pay.token.clone());
                v.push(en(pay.nonce));
                v.push(eu(&pay.amount));
            }
            Op::Call { to, ep, pays, args } => {
                v.push(b"C".to_vec());
                v.push(ea(to));
                v.push(ep.as_bytes().to_vec());
                v.push(en(pays.len() as u64));
                for p in pays {
                    v.push(p.token.clone());
                    v.push(en(p.nonce));
                    v.push(eu(&p.amount));
                }
                v.push(en(args.len() as u64));
                v.extend(args.iter().cloned());
            }
            Op::Fail => v.push(b"F".to_vec()),
        }
    }
    argbuf(&v)
}
fn nonces(l: &[u64]) -> Vec<Vec<u8>> {
    l.iter().map(|n| en(*n)).collect()
}

/// (endpoint, arguments, payments) of an action on the controller
pub fn encode(w: &World, a: &Act) -> (String, Vec<Vec<u8>>, Vec<Pay>) {
    let n = a.name().to_string();
    let none: Vec<Pay> = vec![];
    match a {
        Act::Supply { acct, emode, pays, .. } => {
            let mut v = vec![];
            if acct.is_some() || emode.is_some() {
                v.push(en(acct.unwrap_or(0)));
            }
            if let Some(e) = emode {
                v.push(en(*e as u64));
            }
            (n, v, pays.clone())
        }
        Act::Withdraw { pays, items, .. } | Act::Borrow { pays, items, .. } => {
            (n, items.iter().map(pay_struct).collect(), pays.clone())
        }
        Act::Repay { acct, pays, .. } | Act::Liquidate { acct, pays, .. } => (n, vec![en(*acct)], pays.clone()),
        Act::Flash { asset, amount, to, ep, ops, .. } => (
            n,
            vec![asset.clone(), eu(amount), ea(&w.actors[*to]), ep.as_bytes().to_vec(), program(ops)],
            none,
        ),
        Act::Threshold { asset, risks, accts, .. } => {
            let mut v = vec![asset.clone(), eb(*risks)];
            v.extend(nonces(accts));
            (n, v, none)
        }
        Act::UpdateIdx { assets, .. } | Act::Claim { assets, .. } => (n, assets.clone(), none),
        Act::Clean { acct, .. } => (n, vec![en(*acct)], none),
        Act::Multiply { pays, emode, coll, amount, debt, mode, outs, pouts, .. } => {
            let mut v = vec![en(*emode as u64), coll.clone(), eu(amount), debt.clone(), en(*mode as u64), steps(w, outs)];
            if let Some(p) = pouts {
                v.push(steps(w, p));
            }
            (n, v, pays.clone())
        }
        Act::SwapDebt { pays, old, amount, new, outs, .. } => {
            (n, vec![old.clone(), eu(amount), new.clone(), steps(w, outs)], pays.clone())
        }
        Act::SwapColl { pays, cur, amount, new, outs, .. } => {
            (n, vec![cur.clone(), eu(amount), new.clone(), steps(w, outs)], pays.clone())
        }
        Act::RepayColl { pays, from, amount, to, close, outs, .. } => {
            let mut v = vec![from.clone(), eu(amount), to.clone(), eb(*close)];
            if let Some(o) = outs {
                v.push(steps(w, o));
            }
            (n, v, pays.clone())
        }
        Act::Rewards { pays, .. } => (n, vec![], pays.clone()),
        Act::PoolParams { asset, r, .. } => {
            let mut v = vec![w.tok(*asset)];
            v.extend(rate_args(r));
            (n, v, none)
        }
        Act::UpgradePool { asset, .. } => (n, vec![w.tok(*asset)], none),
        Act::EditAsset { asset, p, .. } => (n, w.edit_asset_args(*asset, p), none),
        Act::AddEMode { ltv, thr, bonus, .. } => (n, vec![en(*ltv), en(*thr), en(*bonus)], none),
        Act::EditEMode { id, ltv, thr, bonus, deprecated, .. } => {
            let mut b = vec![*id];
            for x in [ltv, thr, bonus] {
                b.extend(enc_dec(&U::from(*x), 4));
            }
            b.push(*deprecated as u8);
            (n, vec![b], none)
        }
        Act::RemoveEMode { id, .. } => (n, vec![en(*id as u64)], none),
        Act::AssetEMode { asset, id, coll, borrow, edit, .. } => {
            let mut v = vec![w.tok(*asset), en(*id as u64)];
            if *edit {
                v.push(vec![*coll as u8, *borrow as u8]);
            } else {
                v.push(eb(*coll));
                v.push(eb(*borrow));
            }
            (n, v, none)
        }
        Act::DropAssetEMode { asset, id, .. } => (n, vec![w.tok(*asset), en(*id as u64)], none),
        Act::Limits { borrow, supply, .. } => (n, vec![en(*borrow as u64), en(*supply as u64)], none),
        Act::Tolerance { asset, first, last, .. } => (n, vec![w.tok(*asset), en(*first), en(*last)], none),
        Act::SetAddr { which, addr, .. } => {
            let e = ["setLiquidityPoolTemplate", "setAggregator", "setSafePriceView", "setAccumulator", "setSwapRouter"][*which];
            (e.to_string(), vec![ea(addr)], none)
        }
        Act::SetOracle { asset, first, last, .. } => {
            let o = &w.assets[*asset].oracle;
            (n, vec![w.tok(*asset), en(w.assets[*asset].dec as u64), ea(&o.contract), en(4), en(1), en(1), en(*first), en(*last), en(600)], none)
        }
        Act::CreatePool { asset, .. } => {
            let mut v = vec![w.tok(*asset)];
            v.extend(rate_args(&default_rates(*asset)));
            let p = default_params(*asset);
            v.extend(vec![
                en(p.ltv), en(p.thr), en(p.bonus), en(p.fee), eb(true), eb(true), eb(false), eu(&p.ceiling),
                en(p.flash_fee), eb(false), eb(true), eb(false), en(w.assets[*asset].dec as u64), vec![], vec![],
            ]);
            (n, v, none)
        }
        Act::Pause { .. } | Act::Unpause { .. } | Act::Upgrade { .. } | Act::SendNft { .. } => (n, vec![], none),
    }
}

pub fn exec(w: &mut World, a: &Act) -> TxOut {
    let by = w.actors[a.by()];
    let c = w.controller;
    match a {
        Act::SendNft { to, nonce, .. } => {
            let t = w.actors[*to];
            w.vm.call(&by, &t, "", vec![], &[Pay::nft(ACC, *nonce)])
        }
        Act::Upgrade { .. } => w.vm.upgrade(&by, &c, b"controller", vec![]),
        _ => {
            let (ep, args, pays) = encode(w, a);
            w.vm.call(&by, &c, &ep, args, &pays)
        }
    }
}

/// one-line description for the trace
pub fn show(w: &World, a: &Act) -> String {
    let by = &w.actor_names[a.by()];
    let (ep, args, pays) = match a {
        Act::SendNft { to, nonce, .. } => (format!("send account token {} to {}", nonce, w.actor_names[*to]), vec![], vec![]),
        _ => encode(w, a),
    };
    let ps: Vec<String> = pays
        .iter()
        .map(|p| format!("{}{} {}", String::from_utf8_lossy(&p.token), if p.nonce > 0 { format!("#{}", p.nonce) } else { String::new() }, p.amount))
        .collect();
    let mut s = format!("{}: {}({}) pays [{}]", by, ep, args.iter().map(hex::encode).collect::<Vec<_>>().join(","), ps.join(", "));
    if s.len() > 900 {
        s.truncate(900);
    }
    s
}
