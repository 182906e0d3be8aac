//! Relations between histories: the same history with claims postponed or brought forward, or with withdrawn orders mixed in.
use crate::chain::*;
use crate::engine::*;
use crate::model::GOV;
use crate::obs;
use crate::ops::WHALE;
use crate::rng::Rng;
use cosmwasm_std::Uint256;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum How {
    /// unchanged, for reference
    Same,
    /// no claim before it is needed for a cancel
    Late,
    /// everything claimable is claimed after every trade
    Early,
    /// orders are placed and withdrawn untouched in between
    Noise,
}

pub struct Run {
    pub w: World,
    /// original order number -> number here
    ids: HashMap<(i64, u64), u64>,
    claims: u64,
    /// placed besides the history and not withdrawn yet
    mine: Vec<(String, i64, u64)>,
    /// how many more crowds of orders this history may see
    crowds: u32,
    pub noise: u64,
    /// first call whose outcome differs, how many were compared
    pub diff: Option<String>,
    pub compared: u64,
    /// after which call -> what anybody can see of the book, claims left aside
    pub seen: BTreeMap<usize, String>,
    /// given up: more money in the contract than this world can lend
    pub broke: bool,
}

fn fresh(names: Option<Names>) -> World {
    let mut w = new_world();
    w.names = names;
    let _ = w.call(Call::Inst { sender: GOV, msg: &inst_msg() });
    w
}
/// somebody who has not been paid yet borrows: newly made money while the supply allows it, else from the others
fn top_up(w: &mut World, who: &str, d: &str, x: u128) -> bool {
    let mut need = x.saturating_sub(w.bank.get(who, d));
    if need > 0 {
        let new = need.min((u128::MAX >> 1).saturating_sub(w.bank.supply(d)));
        w.bank.mint(who, d, new);
        need -= new;
    }
    let others: Vec<String> = w.bank.bal.keys().filter(|a| *a != who && *a != CONTRACT).cloned().collect();
    for a in others {
        if need == 0 {
            break;
        }
        let take = need.min(w.bank.get(&a, d));
        if take > 0 {
            *w.bank.bal.get_mut(&a).unwrap().get_mut(d).unwrap() -= take;
            w.bank.mint(who, d, take);
            need -= take;
        }
    }
    need == 0
}

fn outcome(r: &Result<TxOk, TxErr>) -> Result<&Vec<Xfer>, ()> {
    r.as_ref().map(|k| &k.xfers).map_err(|_| ())
}

fn claim_all(r: &mut Run) {
    let b = match obs::snapshot(&r.w) {
        Ok(b) => b,
        Err(_) => return,
    };
    let blocked = std::mem::take(&mut r.w.blocked);
    for (t, l) in &b.levels {
        for (id, o) in &l.orders {
            if o.claimable > 0 {
                let m = json!({"claim_limit": {"tick_id": t, "order_id": id}}).to_string();
                let _ = r.w.exec(&o.rec.owner, &[], &m);
                r.claims += 1;
            }
        }
    }
    r.w.blocked = blocked;
}

/// place some orders at a level that exists, not ahead of the best price; they are withdrawn before the next trade
fn noise(r: &mut Run, g: &mut Rng, placed: &[i64]) {
    let b = match obs::book(&r.w) {
        Ok(b) => b,
        Err(_) => return,
    };
    if placed.is_empty() {
        return;
    }
    let tick = placed[g.usz(placed.len())];
    let like = obs::all_ticks(&r.w).unwrap_or_default().into_iter().find(|t| t.tick_id == tick).map(|t| t.tick_state);
    let like = match like {
        Some(l) => l,
        None => return,
    };
    // once in a while in a crowd
    let n = if r.crowds > 0 && g.chance(6) {
        r.crowds -= 1;
        200 + g.usz(500)
    } else if g.chance(4) { 10 + g.usz(30) } else { 1 + g.usz(4) };
    let blocked = std::mem::take(&mut r.w.blocked);
    for _ in 0..n {
        let bid = g.chance(50);
        if bid && tick > b.next_bid_tick || !bid && tick < b.next_ask_tick {
            continue;
        }
        let like = like.liq(bid).unwrap_or(0);
        let q = match g.below(5) {
            0 => 1 + g.below128(20),
            1 => like.clamp(1, 1 << 124),
            2 | 3 => 1 + g.below128(like.clamp(1, 1 << 124)),
            _ => g.logu(100).max(1),
        };
        let d = if bid { QUOTE } else { BASE };
        let who = if g.chance(50) { WHALE.to_string() } else { crate::ops::user(g.usz(6)) };
        if !top_up(&mut r.w, &who, d, q) {
            continue;
        }
        let bounty = if g.chance(30) { format!(r#","claim_bounty":"0.00{}""#, 1 + g.below(9)) } else { String::new() };
        let m = format!(r#"{{"place_limit":{{"tick_id":{tick},"order_direction":"{}","quantity":"{q}"{bounty}}}}}"#, if bid { "bid" } else { "ask" });
        if let Ok(k) = r.w.exec(&who, &[(d.to_string(), q)], &m).r {
            if let Some(id) = k.attr("order_id").and_then(|x| x.parse().ok()) {
                r.mine.push((who, tick, id));
            }
        }
    }
    r.w.blocked = blocked;
}
/// `all`: every one of them, else some
fn withdraw(r: &mut Run, g: &mut Rng, all: bool) {
    let blocked = std::mem::take(&mut r.w.blocked);
    let mut keep = vec![];
    while !r.mine.is_empty() {
        let x = r.mine.swap_remove(g.usz(r.mine.len()));
        if !all && g.chance(50) {
            keep.push(x);
            continue;
        }
        let m = json!({"cancel_limit": {"tick_id": x.1, "order_id": x.2}}).to_string();
        match r.w.exec(&x.0, &[], &m).r {
            Ok(_) => r.noise += 1,
            Err(_) => keep.push(x),
        }
    }
    r.mine = keep;
    r.w.blocked = blocked;
}

pub fn run(names: Option<Names>, log: &[LogEntry], how: How, seed: u64) -> Run {
    let mut g = Rng::new(seed);
    let mut r = Run { w: fresh(names), ids: HashMap::new(), claims: 0, mine: vec![], crowds: (seed % 16 == 0) as u32, noise: 0, diff: None, compared: 0, seen: BTreeMap::new(), broke: false };
    // long histories: every claim there is, but not after every single trade
    let every2 = (log.len() / 15).max(4);
    let every = (log.len() / 120).max(1) as u64;
    let mut ticks = std::collections::BTreeSet::new();
    for (i, l) in log.iter().enumerate() {
        r.w.height = l.height;
        r.w.time = l.time;
        r.w.blocked = l.blocked.clone();
        if matches!(l.out, Err(TxErr::Unfunded)) || matches!(l.call, OwnedCall::Raw { .. }) {
            continue;
        }
        let mut call = l.call.clone();
        let (mut placed, mut claim, mut cancel, mut trade, mut funded) = (None, false, false, false, true);
        match &mut call {
            OwnedCall::Exec { sender, funds, msg } => {
                if let Ok(mut v) = serde_json::from_str::<Value>(msg) {
                    let at = |r: &Run, t: &Value, id: &Value| -> Option<u64> {
                        let (t, id) = (t.as_i64()?, id.as_u64()?);
                        Some(r.ids.get(&(t, id)).copied().unwrap_or_else(|| id.saturating_add(1 << 40)))
                    };
                    for k in ["cancel_limit", "claim_limit"] {
                        claim |= k == "claim_limit" && v.get(k).is_some();
                        cancel |= k == "cancel_limit" && v.get(k).is_some();
                        if let Some(x) = v.get_mut(k) {
                            if let Some(n) = at(&r, &x["tick_id"], &x["order_id"]) {
                                if k == "cancel_limit" && l.out.is_ok() && matches!(how, How::Late | How::Early) {
                                    let m = json!({"claim_limit": {"tick_id": x["tick_id"], "order_id": n}}).to_string();
                                    // moved in time, it must not meet receivers that were not blocked back then
                                    let blocked = std::mem::take(&mut r.w.blocked);
                                    if r.w.exec(sender, &[], &m).r.is_ok() {
                                        r.claims += 1;
                                    }
                                    r.w.blocked = blocked;
                                }
                                x["order_id"] = n.into();
                            }
                        }
                    }
                    if let Some(a) = v.get_mut("batch_claim").and_then(|x| x["orders"].as_array_mut()) {
                        claim = true;
                        for x in a.iter_mut() {
                            if let Some(n) = at(&r, &x[0], &x[1]) {
                                x[1] = n.into();
                            }
                        }
                    }
                    placed = v.get("place_limit").and_then(|x| x["tick_id"].as_i64());
                    *msg = v.to_string();
                }
                for (d, x) in funds.iter() {
                    funded &= top_up(&mut r.w, sender, d, *x);
                }
            }
            OwnedCall::Sudo { pay, msg } => {
                if let Some((a, d, x)) = pay {
                    funded &= top_up(&mut r.w, a, d, *x);
                }
                trade = msg.contains("\"swap");
            }
            _ => {}
        }
        if matches!(how, How::Late | How::Early) && (claim || cancel && l.out.is_err()) {
            // a cancel refused because something could be claimed may well pass here
            continue;
        }
        if trade && !r.mine.is_empty() {
            withdraw(&mut r, &mut g, true);
        }
        if !funded {
            r.broke = true;
            return r;
        }
        let x = call.run(&mut r.w);
        r.compared += 1;
        if claim {
            r.claims += x.r.as_ref().map_or(0, |k| k.xfers.len() as u64);
        }
        if outcome(&x.r) != outcome(&l.out) && r.diff.is_none() {
            r.diff = Some(format!("call {i} {:?}: first {:?}, now {:?}", l.call, l.out.as_ref().map(|k| &k.xfers), x.r.as_ref().map(|k| &k.xfers)));
        }
        if let (Some(t), Ok(a), Ok(b)) = (placed, &l.out, &x.r) {
            ticks.insert(t);
            let id = |k: &TxOk| k.attr("order_id").and_then(|s| s.parse::<u64>().ok());
            if let (Some(a), Some(b)) = (id(a), id(b)) {
                r.ids.insert((t, a), b);
            }
        }
        match how {
            How::Early if trade && x.r.is_ok() && g.below(every) == 0 => claim_all(&mut r),
            How::Noise => {
                if g.chance(15) {
                    let at: Vec<i64> = ticks.iter().copied().collect();
                    noise(&mut r, &mut g, &at);
                }
                if g.chance(15) && !r.mine.is_empty() {
                    withdraw(&mut r, &mut g, false);
                }
            }
            _ => {}
        }
        if i % every2 == every2 - 1 {
            if !r.mine.is_empty() {
                withdraw(&mut r, &mut g, true);
            }
            if r.mine.is_empty() {
                r.seen.insert(i, face(&r.w));
            }
        }
    }
    r
}

fn face(w: &World) -> String {
    let l: Vec<(i64, [Option<u128>; 2])> = obs::all_ticks(w)
        .unwrap_or_default()
        .iter()
        .map(|t| (t.tick_id, [t.tick_state.liq(false), t.tick_state.liq(true)]))
        .filter(|t| t.1 != [Some(0), Some(0)])
        .collect();
    let b = obs::book(w).ok().map(|b| (b.next_bid_tick, b.next_ask_tick));
    let p = [obs::spot(w, QUOTE, BASE).ok(), obs::spot(w, BASE, QUOTE).ok()];
    format!("best {b:?}, prices {p:?}, totals {:?}, levels {l:?}", obs::pool(w).ok())
}

pub struct End {
    /// original order number -> unfilled quantity, where there is any
    open: BTreeMap<(i64, u64), u128>,
    levels: BTreeMap<i64, [u128; 2]>,
    spot: [Option<Uint256>; 2],
    pool: Option<(u128, u128)>,
    held: [u128; 2],
    claims: u64,
    left: u64,
}
/// everything is claimed, then the book is read
pub fn settle(mut r: Run) -> Option<End> {
    r.w.blocked.clear();
    let _ = r.w.sudo(None, r#"{"set_active":{"active":true}}"#);
    withdraw(&mut r, &mut Rng::new(7), true);
    claim_all(&mut r);
    let b = obs::snapshot(&r.w).ok()?;
    let back: HashMap<(i64, u64), u64> = r.ids.iter().map(|((t, a), n)| ((*t, *n), *a)).collect();
    let mut e = End {
        open: BTreeMap::new(),
        levels: BTreeMap::new(),
        spot: [obs::spot(&r.w, QUOTE, BASE).ok(), obs::spot(&r.w, BASE, QUOTE).ok()],
        pool: obs::pool(&r.w).ok(),
        held: [r.w.bank.get(CONTRACT, BASE), r.w.bank.get(CONTRACT, QUOTE)],
        claims: r.claims,
        left: 0,
    };
    for (t, l) in &b.levels {
        e.levels.insert(*t, l.liq);
        for (id, o) in &l.orders {
            e.left += 1;
            let open = o.rec.qty() - o.claimable;
            if open > 0 {
                // orders nobody of the original history placed keep a number of their own
                let k = back.get(&(*t, *id)).copied().unwrap_or(u64::MAX - *id);
                e.open.insert((*t, k), open);
            }
        }
    }
    Some(e)
}

pub fn same(a: &End, b: &End) -> Result<(), String> {
    if a.open != b.open {
        let x = a.open.iter().find(|(k, v)| b.open.get(k) != Some(v)).or_else(|| b.open.iter().find(|(k, v)| a.open.get(k) != Some(v)));
        return Err(format!("unfilled quantities differ, first at {:?}: {:?} / {:?}", x.map(|x| x.0), x.and_then(|x| a.open.get(x.0)), x.and_then(|x| b.open.get(x.0))));
    }
    if a.levels != b.levels {
        return Err(format!("liquidity of the levels differs: {:?} / {:?}", a.levels, b.levels));
    }
    if a.spot != b.spot {
        return Err(format!("prices differ: {:?} / {:?}", a.spot, b.spot));
    }
    if a.pool != b.pool {
        return Err(format!("pool totals differ: {:?} / {:?}", a.pool, b.pool));
    }
    Ok(())
}
/// what is held may only differ by the rounding of the claims
pub fn money(a: &End, b: &End) -> Result<(), String> {
    for d in 0..2 {
        let diff = a.held[d].abs_diff(b.held[d]);
        let room = (a.claims + b.claims + a.left + b.left) as u128;
        if diff > room {
            return Err(format!("holdings of {} differ by {diff}: {} / {}, more than rounding explains ({room})", [BASE, QUOTE][d], a.held[d], b.held[d]));
        }
    }
    Ok(())
}
pub fn held_same(a: &End, b: &End) -> Result<(), String> {
    if a.held != b.held {
        return Err(format!("holdings differ: {:?} / {:?}", a.held, b.held));
    }
    Ok(())
}
