//! Reading the book through its public queries.
use crate::chain::{TxErr, World};
use crate::price::*;
use cosmwasm_std::Uint256;
use serde::Deserialize;
use std::collections::BTreeMap;

#[derive(Deserialize, Clone, Debug, PartialEq)]
pub struct OrderRec {
    pub tick_id: i64,
    pub order_id: u64,
    pub order_direction: String,
    pub owner: String,
    pub quantity: String,
    pub etas: String,
    pub claim_bounty: Option<String>,
    pub placed_quantity: String,
    #[serde(default)]
    pub placed_at: String,
}
impl OrderRec {
    pub fn bid(&self) -> bool {
        self.order_direction == "bid"
    }
    pub fn qty(&self) -> u128 {
        self.quantity.parse().unwrap_or(u128::MAX)
    }
}
#[derive(Deserialize, Debug)]
pub struct OrdersResp {
    pub orders: Vec<OrderRec>,
    pub count: u64,
}
#[derive(Deserialize, Clone, Debug, PartialEq)]
pub struct Vals {
    pub total_amount_of_liquidity: String,
    pub cumulative_total_value: String,
    pub effective_total_amount_swapped: String,
    pub cumulative_realized_cancels: String,
    pub last_tick_sync_etas: String,
}
#[derive(Deserialize, Clone, Debug, PartialEq)]
pub struct TState {
    pub ask_values: Vals,
    pub bid_values: Vals,
}
impl TState {
    pub fn side(&self, bid: bool) -> &Vals {
        if bid {
            &self.bid_values
        } else {
            &self.ask_values
        }
    }
    /// liquidity as integer units; None when it is not a whole non-negative number
    pub fn liq(&self, bid: bool) -> Option<u128> {
        parse_whole(&self.side(bid).total_amount_of_liquidity)
    }
}
#[derive(Deserialize, Clone, Debug)]
pub struct TickRec {
    pub tick_id: i64,
    pub tick_state: TState,
}
#[derive(Deserialize)]
struct TicksResp {
    ticks: Vec<TickRec>,
}
#[derive(Deserialize, Clone, Debug, PartialEq)]
pub struct Unreal {
    pub ask_unrealized_cancels: String,
    pub bid_unrealized_cancels: String,
}
#[derive(Deserialize)]
struct UnrealRec {
    tick_id: i64,
    unrealized_cancels: Unreal,
}
#[derive(Deserialize)]
struct UnrealResp {
    ticks: Vec<UnrealRec>,
}
#[derive(Deserialize)]
struct CoinS {
    denom: String,
    amount: String,
}
#[derive(Deserialize)]
struct PoolResp {
    total_pool_liquidity: Vec<CoinS>,
}
#[derive(Deserialize, Clone, Debug, PartialEq)]
pub struct BookState {
    pub quote_denom: String,
    pub base_denom: String,
    pub next_bid_tick: i64,
    pub next_ask_tick: i64,
}

pub type Q<T> = Result<T, String>;

fn parse<T: serde::de::DeserializeOwned>(r: Result<Vec<u8>, TxErr>) -> Q<T> {
    match r {
        Ok(b) => serde_json::from_slice(&b).map_err(|e| format!("unreadable answer: {e}: {}", String::from_utf8_lossy(&b))),
        Err(e) => Err(e.text()),
    }
}

pub fn all_ticks(w: &World) -> Q<Vec<TickRec>> {
    let r: TicksResp = parse(w.query(r#"{"all_ticks":{"start_from":null,"end_at":null,"limit":null}}"#))?;
    Ok(r.ticks)
}
pub fn all_ticks_pg(w: &World, a: Option<i64>, b: Option<i64>, l: Option<u64>) -> Q<Vec<TickRec>> {
    let j = serde_json::json!({"all_ticks":{"start_from":a,"end_at":b,"limit":l}}).to_string();
    let r: TicksResp = parse(w.query(&j))?;
    Ok(r.ticks)
}
pub fn ticks_by_id(w: &World, ids: &[i64]) -> Q<Vec<TickRec>> {
    let j = serde_json::json!({"ticks_by_id":{"tick_ids":ids}}).to_string();
    let r: TicksResp = parse(w.query(&j))?;
    Ok(r.ticks)
}
pub fn orders_by_tick(w: &World, t: i64, a: Option<u64>, b: Option<u64>, l: Option<u64>) -> Q<OrdersResp> {
    let j = serde_json::json!({"orders_by_tick":{"tick_id":t,"start_from":a,"end_at":b,"limit":l}}).to_string();
    parse(w.query(&j))
}
pub fn orders_by_owner(w: &World, o: &str, a: Option<(i64, u64)>, b: Option<(i64, u64)>, l: Option<u64>) -> Q<OrdersResp> {
    let j = serde_json::json!({"orders_by_owner":{"owner":o,"start_from":a,"end_at":b,"limit":l}}).to_string();
    parse(w.query(&j))
}
pub fn order(w: &World, t: i64, id: u64) -> Q<Option<OrderRec>> {
    let r = orders_by_tick(w, t, Some(id), Some(id), None)?;
    Ok(r.orders.into_iter().find(|o| o.order_id == id && o.tick_id == t))
}
/// (base, quote)
pub fn pool(w: &World) -> Q<(u128, u128)> {
    let r: PoolResp = parse(w.query(r#"{"get_total_pool_liquidity":{}}"#))?;
    if r.total_pool_liquidity.len() != 2 {
        return Err("pool liquidity does not list two coins".into());
    }
    let f = |d: &str| -> Q<u128> {
        r.total_pool_liquidity
            .iter()
            .find(|c| c.denom == d)
            .and_then(|c| c.amount.parse().ok())
            .ok_or_else(|| format!("no {d} in pool liquidity"))
    };
    Ok((f(crate::chain::BASE)?, f(crate::chain::QUOTE)?))
}
pub fn book(w: &World) -> Q<BookState> {
    parse(w.query(r#"{"orderbook_state":{}}"#))
}
pub fn active(w: &World) -> Q<bool> {
    parse(w.query(r#"{"is_active":{}}"#))
}
pub fn maker_fee(w: &World) -> Q<Uint256> {
    let s: String = parse(w.query(r#"{"get_maker_fee":{}}"#))?;
    parse_dec(&s).ok_or_else(|| format!("bad fee {s}"))
}
pub fn auth(w: &World, what: &str) -> Q<Option<String>> {
    parse(w.query(&format!(r#"{{"auth":{{"{what}":{{}}}}}}"#)))
}
pub fn spot(w: &World, quote: &str, base: &str) -> Q<Uint256> {
    #[derive(Deserialize)]
    struct S {
        spot_price: String,
    }
    let s: S = parse(w.query(&format!(
        r#"{{"spot_price":{{"quote_asset_denom":"{quote}","base_asset_denom":"{base}"}}}}"#
    )))?;
    parse_dec(&s.spot_price).ok_or_else(|| format!("bad spot price {}", s.spot_price))
}
pub fn quote_raw(w: &World, name: &str, din: &str, amt: u128, dout: &str, fee: &str) -> Result<(String, Uint256), TxErr> {
    #[derive(Deserialize)]
    struct S {
        token_out: CoinS,
    }
    let b = w.query(&format!(
        r#"{{"{name}":{{"token_in":{{"denom":"{din}","amount":"{amt}"}},"token_out_denom":"{dout}","swap_fee":"{fee}"}}}}"#
    ))?;
    let s: S = serde_json::from_slice(&b).map_err(|e| TxErr::Parse(format!("{e}: {}", String::from_utf8_lossy(&b))))?;
    let a: Uint256 = s
        .token_out
        .amount
        .parse()
        .map_err(|_| TxErr::Parse(format!("amount {}", s.token_out.amount)))?;
    Ok((s.token_out.denom, a))
}
pub fn unrealized(w: &World, t: i64) -> Q<Unreal> {
    let r: UnrealResp = parse(w.query(&format!(r#"{{"get_unrealized_cancels":{{"tick_ids":[{t}]}}}}"#)))?;
    r.ticks
        .into_iter()
        .find(|x| x.tick_id == t)
        .map(|x| x.unrealized_cancels)
        .ok_or_else(|| "tick missing in answer".into())
}
/// The figures of several levels asked for at once.
pub fn unrealized_many(w: &World, ts: &[i64]) -> Q<Vec<(i64, Unreal)>> {
    let l: Vec<String> = ts.iter().map(|x| x.to_string()).collect();
    let r: UnrealResp = parse(w.query(&format!(r#"{{"get_unrealized_cancels":{{"tick_ids":[{}]}}}}"#, l.join(","))))?;
    Ok(r.ticks.into_iter().map(|x| (x.tick_id, x.unrealized_cancels)).collect())
}

/// What an order can claim, from public data only: level progress plus cancels the level has not absorbed yet,
/// minus the order's own starting point, capped by its quantity.
pub fn claimable(ts: &TState, un: &Unreal, o: &OrderRec) -> Q<u128> {
    let v = ts.side(o.bid());
    let p = |s: &str| parse_dec(s).ok_or_else(|| format!("bad decimal {s}"));
    let prog = p(&v.effective_total_amount_swapped)?
        + p(if o.bid() { &un.bid_unrealized_cancels } else { &un.ask_unrealized_cancels })?;
    let start = p(&o.etas)?;
    if prog <= start {
        return Ok(0);
    }
    let d = (prog - start) / u(ONE18);
    let q = o.qty();
    Ok(to_u128(d).map_or(q, |d| d.min(q)))
}

fn position(ts: &TState, un: &Unreal, bid: bool) -> Option<Uint256> {
    let a = parse_dec(&ts.side(bid).effective_total_amount_swapped)?;
    Some(a + parse_dec(if bid { &un.bid_unrealized_cancels } else { &un.ask_unrealized_cancels })?)
}

#[derive(Clone, Debug)]
pub struct OrdObs {
    pub rec: OrderRec,
    pub claimable: u128,
}
#[derive(Clone, Debug, Default)]
pub struct LevelObs {
    pub liq: [u128; 2],
    pub orders: BTreeMap<u64, OrdObs>,
    /// published progress of each side's queue, unabsorbed cancels included
    pub front: [Option<Uint256>; 2],
}
#[derive(Clone, Debug, Default)]
pub struct BookObs {
    pub levels: BTreeMap<i64, LevelObs>,
    pub ticks: Vec<i64>,
}
/// Complete model-free picture of the book.
pub fn snapshot(w: &World) -> Q<BookObs> {
    let mut b = BookObs::default();
    for t in all_ticks(w)? {
        b.ticks.push(t.tick_id);
        b.levels.insert(t.tick_id, level(w, &t)?);
    }
    Ok(b)
}
pub fn level(w: &World, t: &TickRec) -> Q<LevelObs> {
    let un = unrealized(w, t.tick_id)?;
    let mut l = LevelObs {
        liq: [
            t.tick_state.liq(false).ok_or("level liquidity is not whole")?,
            t.tick_state.liq(true).ok_or("level liquidity is not whole")?,
        ],
        orders: BTreeMap::new(),
        front: [position(&t.tick_state, &un, false), position(&t.tick_state, &un, true)],
    };
    for rec in orders_by_tick(w, t.tick_id, None, None, None)?.orders {
        let c = claimable(&t.tick_state, &un, &rec)?;
        l.orders.insert(rec.order_id, OrdObs { rec, claimable: c });
    }
    Ok(l)
}
impl BookObs {
    /// What the contract owes per denom [base, quote]: open deposits plus claimable proceeds.
    pub fn owed(&self) -> [Uint256; 2] {
        let mut r = [Uint256::zero(), Uint256::zero()];
        for (t, l) in &self.levels {
            for o in l.orders.values() {
                let bid = o.rec.bid();
                let q = o.rec.qty();
                let open = q - o.claimable.min(q);
                let dep = bid as usize; // bid deposits quote (1), ask deposits base (0)
                r[dep] += u(open);
                r[1 - dep] += maker_value(bid, o.claimable, *t);
            }
        }
        r
    }
}
