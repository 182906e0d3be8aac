//! Executable reference specification of the order book: plain FIFO queues per (tick, side), exact integer arithmetic.
//! It knows nothing about sumtrees, effective amounts or storage.
use crate::chain::{addr_ok, BASE, CONTRACT, OTHER, QUOTE};
use crate::price::*;
use cosmwasm_std::Uint256;
use std::collections::{BTreeMap, BTreeSet};

pub const GOV: &str = "osmo10d07y265gmmuvt4z0w9aw880jnsr700jjeq4qp";
pub const SUBDAO: &str = "osmo1peuxfjj66n2qt2v5jmqlvzz8neakjgduez7vttvemw58uug6546sr60ngl";
pub const FEE_RECIPIENT: &str = "osmo1r9jc2234fljy93z80cevqjt3nmjycec8aj4cc6";
pub const MAX_FEE: u128 = 50_000_000_000_000_000; // 5% in 1e-18
pub const MAX_BOUNTY: u128 = 10_000_000_000_000_000; // 1%
pub const MAX_BATCH: usize = 100;

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct MOrder {
    pub tick: i64,
    pub id: u64,
    pub bid: bool,
    pub owner: String,
    /// what the contract reports as `quantity`: not yet claimed (filled or not)
    pub qty: u128,
    /// filled and not yet claimed
    pub filled: u128,
    pub bounty: Option<u128>,
    pub placed: u128,
    pub at: u64,
}
impl MOrder {
    pub fn open(&self) -> u128 {
        self.qty - self.filled
    }
}

#[derive(Clone, Default, Debug, serde::Serialize, serde::Deserialize)]
pub struct Level {
    /// [ask, bid]
    pub q: [BTreeMap<u64, MOrder>; 2],
    pub liq: [u128; 2],
    /// number of cancels that have happened at this level (for signatures only)
    pub cancels: [u32; 2],
    pub swaps: [u32; 2],
    /// everything ever placed here
    #[serde(default)]
    pub total: [Uint256; 2],
    /// queue position of each order at placement
    #[serde(default)]
    pub start: [BTreeMap<u64, Uint256>; 2],
    /// cancelled stretches of the queue: position -> amount
    #[serde(default)]
    pub ledger: [BTreeMap<Uint256, u128>; 2],
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Model {
    pub active: bool,
    pub admin: Option<String>,
    pub admin_offer: Option<String>,
    pub moder: Option<String>,
    pub moder_offer: Option<String>,
    pub fee: u128,
    pub recipient: String,
    pub best_bid: i64,
    pub best_ask: i64,
    pub levels: BTreeMap<i64, Level>,
    pub last_id: Option<u64>,
    pub n_orders: usize,
    pub pool: [u128; 2],
    pub blocked: BTreeSet<String>,
}

#[derive(Clone, Debug)]
pub struct SwapPlan {
    pub bid_side: bool, // side of the liquidity consumed
    pub fills: Vec<(i64, u128, u128)>,
    pub out: Uint256,
    pub cost: u128,
    pub refund: u128,
    pub dust: u128,
    pub last: Option<i64>,
    /// levels with liquidity visited including a final one that could not trade
    pub visited: usize,
}

#[derive(Clone, Debug)]
pub struct ClaimPlan {
    pub fill: u128,
    pub raw: Uint256,
    pub bounty: Uint256,
    pub fee: Uint256,
    pub owner_amt: Uint256,
    pub denom: &'static str,
    pub owner: String,
}

pub fn in_denom(bid: bool) -> &'static str {
    if bid {
        QUOTE
    } else {
        BASE
    }
}
pub fn out_denom(bid: bool) -> &'static str {
    if bid {
        BASE
    } else {
        QUOTE
    }
}

pub fn split(raw: Uint256, bounty: Option<u128>, fee: u128) -> (Uint256, Uint256, Uint256) {
    let b = bounty.map_or(Uint256::zero(), |b| mulfrac(raw, b));
    let f = mulfrac(raw, fee);
    (b, f, raw - b - f)
}
/// floor(x * f / 1e18)
pub fn mulfrac(x: Uint256, f: u128) -> Uint256 {
    let p = cosmwasm_std::Uint512::from(x) * cosmwasm_std::Uint512::from(f);
    let q = p / cosmwasm_std::Uint512::from(ONE18);
    Uint256::try_from(q).unwrap()
}

impl Default for Model {
    fn default() -> Self {
        Model {
            active: true,
            admin: Some(GOV.into()),
            admin_offer: None,
            moder: Some(SUBDAO.into()),
            moder_offer: None,
            fee: 0,
            recipient: FEE_RECIPIENT.into(),
            best_bid: MIN_TICK,
            best_ask: MAX_TICK,
            levels: BTreeMap::new(),
            last_id: None,
            n_orders: 0,
            pool: [0, 0],
            blocked: BTreeSet::new(),
        }
    }
}

type R<T> = Result<T, &'static str>;

impl Model {
    pub fn order(&self, tick: i64, id: u64) -> Option<&MOrder> {
        let l = self.levels.get(&tick)?;
        l.q[0].get(&id).or_else(|| l.q[1].get(&id))
    }
    pub fn orders(&self) -> impl Iterator<Item = &MOrder> {
        self.levels
            .values()
            .flat_map(|l| l.q[0].values().chain(l.q[1].values()))
    }
    pub fn can_receive(&self, a: &str) -> bool {
        addr_ok(a) && !self.blocked.contains(a) && !self.blocked.contains("*")
    }

    pub fn check_place(
        &self,
        tick: i64,
        bid: bool,
        qty: u128,
        bounty: Option<u128>,
        funds: &[(String, u128)],
    ) -> R<()> {
        if !self.active {
            return Err("inactive");
        }
        if !(MIN_TICK..=MAX_TICK).contains(&tick) {
            return Err("tick");
        }
        if qty == 0 {
            return Err("zero");
        }
        if bounty.map_or(false, |b| b > MAX_BOUNTY) {
            return Err("bounty");
        }
        if funds.len() != 1 {
            return Err(if funds.is_empty() { "nofunds" } else { "extrafunds" });
        }
        if funds[0].0 != in_denom(bid) {
            return Err("denom");
        }
        if funds[0].1 < qty {
            return Err("underpaid");
        }
        if funds[0].1 > qty {
            return Err("overpaid");
        }
        Ok(())
    }
    pub fn apply_place(&mut self, o: MOrder) {
        let s = o.bid as usize;
        if o.bid {
            self.best_bid = self.best_bid.max(o.tick);
        } else {
            self.best_ask = self.best_ask.min(o.tick);
        }
        self.last_id = Some(self.last_id.map_or(o.id, |l| l.max(o.id)));
        self.pool[s] += o.qty;
        self.n_orders += 1;
        let l = self.levels.entry(o.tick).or_default();
        l.liq[s] += o.qty;
        let at = l.total[s];
        l.start[s].insert(o.id, at);
        l.total[s] = at + Uint256::from(o.qty);
        l.q[s].insert(o.id, o);
    }

    pub fn check_cancel(&self, who: &str, tick: i64, id: u64, funds: &[(String, u128)]) -> R<MOrder> {
        if !self.active {
            return Err("inactive");
        }
        if !funds.is_empty() {
            return Err("funds");
        }
        let o = self.order(tick, id).ok_or("notfound")?;
        if o.owner != who {
            return Err("notowner");
        }
        if o.filled > 0 {
            return Err("filled");
        }
        if !self.can_receive(&o.owner) {
            return Err("payout");
        }
        Ok(o.clone())
    }
    pub fn apply_cancel(&mut self, tick: i64, id: u64) {
        let l = self.levels.get_mut(&tick).unwrap();
        for s in 0..2 {
            if let Some(o) = l.q[s].remove(&id) {
                if let Some(at) = l.start[s].remove(&id) {
                    l.ledger[s].insert(at + Uint256::from(o.placed - o.qty), o.qty);
                }
                l.liq[s] -= o.open();
                l.cancels[s] += 1;
                self.pool[s] -= o.open();
                self.n_orders -= 1;
            }
        }
    }

    pub fn claim_plan(&self, o: &MOrder, fill: u128) -> ClaimPlan {
        let raw = maker_value(o.bid, fill, o.tick);
        let (bounty, fee, owner_amt) = split(raw, o.bounty, self.fee);
        ClaimPlan {
            fill,
            raw,
            bounty,
            fee,
            owner_amt,
            denom: out_denom(o.bid),
            owner: o.owner.clone(),
        }
    }
    pub fn check_claim(&self, who: &str, tick: i64, id: u64, funds: &[(String, u128)]) -> R<ClaimPlan> {
        if !self.active {
            return Err("inactive");
        }
        if !funds.is_empty() {
            return Err("funds");
        }
        let o = self.order(tick, id).ok_or("notfound")?;
        if o.filled == 0 {
            return Err("unfilled");
        }
        let p = self.claim_plan(o, o.filled);
        let z = Uint256::zero();
        if (p.owner_amt > z && !self.can_receive(&o.owner))
            || (p.bounty > z && !self.can_receive(who))
            || (p.fee > z && !self.can_receive(&self.recipient))
        {
            return Err("payout");
        }
        Ok(p)
    }
    pub fn apply_claim(&mut self, tick: i64, id: u64) {
        let l = self.levels.get_mut(&tick).unwrap();
        for s in 0..2 {
            if let Some(o) = l.q[s].get_mut(&id) {
                o.qty -= o.filled;
                o.filled = 0;
                if o.qty == 0 {
                    l.q[s].remove(&id);
                    self.n_orders -= 1;
                }
            }
        }
    }

    /// Ticks with liquidity of `bid` side, best first, starting from the best-price pointer, down/up to `bound`.
    pub fn live_ticks(&self, bid: bool, bound: i64) -> Vec<i64> {
        if bid {
            self.levels
                .iter()
                .rev()
                .filter(|(t, l)| **t >= bound && l.liq[1] > 0)
                .map(|(t, _)| *t)
                .collect()
        } else {
            self.levels
                .iter()
                .filter(|(t, l)| **t <= bound && l.liq[0] > 0)
                .map(|(t, _)| *t)
                .collect()
        }
    }

    /// `bid_side`: which side's liquidity is taken (true: taker pays base and receives quote).
    pub fn plan_swap(&self, bid_side: bool, amt: u128, bound: i64) -> R<SwapPlan> {
        if amt == 0 {
            return Err("zeroin");
        }
        if !(MIN_TICK..=MAX_TICK).contains(&bound) {
            return Err("bound");
        }
        if bid_side && bound > self.best_bid || !bid_side && bound < self.best_ask {
            return Err("bound");
        }
        let s = bid_side as usize;
        let mut rem = amt;
        let mut p = SwapPlan {
            bid_side,
            fills: vec![],
            out: Uint256::zero(),
            cost: 0,
            refund: 0,
            dust: 0,
            last: None,
            visited: 0,
        };
        let mut last_price_tick: Option<i64> = None;
        for t in self.live_ticks(bid_side, bound) {
            last_price_tick = Some(t);
            p.visited += 1;
            let out = taker_out(bid_side, rem, t);
            if out.is_zero() {
                p.dust = rem;
                rem = 0;
                break;
            }
            p.last = Some(t);
            let liq = self.levels[&t].liq[s];
            let fill = to_u128(out).map_or(liq, |o| o.min(liq));
            let cost = to_u128(taker_cost(bid_side, fill, t)).unwrap();
            rem -= cost;
            p.cost += cost;
            p.out += u(fill);
            p.fills.push((t, fill, cost));
        }
        p.refund = rem;
        let full = if bid_side { bound == MIN_TICK } else { bound == MAX_TICK };
        let rest = match last_price_tick {
            Some(t) => taker_out(bid_side, rem, t),
            None => u(rem),
        };
        if full && !rest.is_zero() {
            return Err("liquidity");
        }
        Ok(p)
    }
    #[allow(clippy::too_many_arguments)]
    pub fn check_swap(
        &self,
        sender: &str,
        din: &str,
        dout: &str,
        amt: u128,
        min_out: u128,
        fee_zero: bool,
        target: Option<i64>,
    ) -> R<SwapPlan> {
        if !self.active {
            return Err("inactive");
        }
        if !fee_zero {
            return Err("swapfee");
        }
        let bid_side = match (din, dout) {
            (BASE, QUOTE) => true,
            (QUOTE, BASE) => false,
            _ => return Err("pair"),
        };
        if !addr_ok(sender) {
            return Err("sender");
        }
        let bound = target.unwrap_or(if bid_side { MIN_TICK } else { MAX_TICK });
        let p = self.plan_swap(bid_side, amt, bound)?;
        if p.out < u(min_out) {
            return Err("minout");
        }
        if p.out.is_zero() {
            return Err("zeroout");
        }
        if !self.can_receive(sender) {
            return Err("payout");
        }
        Ok(p)
    }
    pub fn apply_swap(&mut self, p: &SwapPlan) {
        let s = p.bid_side as usize;
        for (t, fill, _) in &p.fills {
            let l = self.levels.get_mut(t).unwrap();
            l.liq[s] -= *fill;
            l.swaps[s] += 1;
            let mut x = *fill;
            for o in l.q[s].values_mut() {
                let y = o.open().min(x);
                o.filled += y;
                x -= y;
                if x == 0 {
                    break;
                }
            }
            self.pool[s] -= *fill;
        }
        if let Some(t) = p.last {
            if p.bid_side {
                self.best_bid = t;
            } else {
                self.best_ask = t;
            }
        }
    }

    pub fn is_admin(&self, who: &str) -> bool {
        self.admin.as_deref() == Some(who)
    }

    /// Role messages. Returns the new model on success.
    pub fn auth(&mut self, who: &str, a: &AuthOp) -> R<()> {
        use AuthOp::*;
        let adm = self.is_admin(who);
        let modr = self.moder.as_deref() == Some(who);
        match a {
            TransferAdmin(n) => {
                if !adm {
                    return Err("unauthorized");
                }
                if !addr_ok(n) {
                    return Err("addr");
                }
                self.admin_offer = Some(n.clone());
            }
            CancelAdminTransfer => {
                if !adm {
                    return Err("unauthorized");
                }
                self.admin_offer = None;
            }
            RejectAdminTransfer => {
                if self.admin_offer.as_deref() != Some(who) {
                    return Err("unauthorized");
                }
                self.admin_offer = None;
            }
            ClaimAdmin => {
                if self.admin_offer.as_deref() != Some(who) {
                    return Err("unauthorized");
                }
                self.admin = Some(who.to_string());
                self.admin_offer = None;
            }
            Renounce => {
                if !adm {
                    return Err("unauthorized");
                }
                self.admin = None;
            }
            OfferModerator(n) => {
                if !adm {
                    return Err("unauthorized");
                }
                if !addr_ok(n) {
                    return Err("addr");
                }
                self.moder_offer = Some(n.clone());
            }
            RejectModerator => {
                if self.moder_offer.as_deref() != Some(who) {
                    return Err("unauthorized");
                }
                self.moder_offer = None;
            }
            ClaimModerator => {
                if self.moder_offer.as_deref() != Some(who) {
                    return Err("unauthorized");
                }
                self.moder = Some(who.to_string());
                self.moder_offer = None;
            }
            SetActive(b) => {
                if !adm && !modr {
                    return Err("unauthorized");
                }
                self.active = *b;
            }
            SetFee(f) => {
                if !adm {
                    return Err("unauthorized");
                }
                if *f > MAX_FEE {
                    return Err("fee");
                }
                self.fee = *f;
            }
            SetRecipient(r) => {
                if !adm {
                    return Err("unauthorized");
                }
                if !addr_ok(r) {
                    return Err("addr");
                }
                self.recipient = r.clone();
            }
        }
        Ok(())
    }
    pub fn sudo(&mut self, a: &SudoOp) -> R<()> {
        match a {
            SudoOp::TransferAdmin(n) => {
                if !addr_ok(n) {
                    return Err("addr");
                }
                self.admin = Some(n.clone());
            }
            SudoOp::RemoveAdmin => self.admin = None,
            SudoOp::SetActive(b) => self.active = *b,
        }
        Ok(())
    }
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub enum AuthOp {
    TransferAdmin(String),
    CancelAdminTransfer,
    RejectAdminTransfer,
    ClaimAdmin,
    Renounce,
    OfferModerator(String),
    RejectModerator,
    ClaimModerator,
    SetActive(bool),
    SetFee(u128),
    SetRecipient(String),
}
impl AuthOp {
    pub fn json(&self) -> String {
        use serde_json::json;
        use AuthOp::*;
        let v = match self {
            TransferAdmin(n) => json!({"transfer_admin":{"new_admin":n}}),
            CancelAdminTransfer => json!({"cancel_admin_transfer":{}}),
            RejectAdminTransfer => json!({"reject_admin_transfer":{}}),
            ClaimAdmin => json!({"claim_admin":{}}),
            Renounce => json!({"renounce_adminship":{}}),
            OfferModerator(n) => json!({"offer_moderator":{"new_moderator":n}}),
            RejectModerator => json!({"reject_moderator_offer":{}}),
            ClaimModerator => json!({"claim_moderator":{}}),
            SetActive(b) => json!({"set_active":{"active":b}}),
            SetFee(f) => json!({"set_maker_fee":{"fee":dec18(*f)}}),
            SetRecipient(r) => json!({"set_maker_fee_recipient":{"recipient":r}}),
        };
        json!({ "auth": v }).to_string()
    }
    pub fn kind(&self) -> &'static str {
        use AuthOp::*;
        match self {
            TransferAdmin(_) => "transfer_admin",
            CancelAdminTransfer => "cancel_transfer",
            RejectAdminTransfer => "reject_admin",
            ClaimAdmin => "claim_admin",
            Renounce => "renounce",
            OfferModerator(_) => "offer_moderator",
            RejectModerator => "reject_moderator",
            ClaimModerator => "claim_moderator",
            SetActive(_) => "set_active",
            SetFee(_) => "set_fee",
            SetRecipient(_) => "set_recipient",
        }
    }
    /// What the receipt of the accepted message says.
    pub fn receipt(&self) -> (&'static str, Option<(&'static str, String)>) {
        use AuthOp::*;
        match self {
            TransferAdmin(n) => ("transfer_admin", Some(("new_admin", n.clone()))),
            CancelAdminTransfer => ("cancel_transfer_admin", None),
            RejectAdminTransfer => ("reject_admin_transfer", None),
            ClaimAdmin => ("claim_admin", None),
            Renounce => ("renounce_adminship", None),
            OfferModerator(n) => ("offer_moderator", Some(("new_moderator", n.clone()))),
            RejectModerator => ("reject_moderator_offer", None),
            ClaimModerator => ("claim_moderator", None),
            SetActive(b) => ("set_active", Some(("active", b.to_string()))),
            SetFee(f) => ("set_maker_fee", Some(("maker_fee", dec18(*f)))),
            SetRecipient(r) => ("set_maker_fee_recipient", Some(("maker_fee_recipient", r.clone()))),
        }
    }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub enum SudoOp {
    TransferAdmin(String),
    RemoveAdmin,
    SetActive(bool),
}
impl SudoOp {
    pub fn json(&self) -> String {
        use serde_json::json;
        match self {
            SudoOp::TransferAdmin(n) => json!({"transfer_admin":{"new_admin":n}}),
            SudoOp::RemoveAdmin => json!({"remove_admin":{}}),
            SudoOp::SetActive(b) => json!({"set_active":{"active":b}}),
        }
        .to_string()
    }
    pub fn kind(&self) -> &'static str {
        match self {
            SudoOp::TransferAdmin(_) => "sudo_transfer_admin",
            SudoOp::RemoveAdmin => "sudo_remove_admin",
            SudoOp::SetActive(_) => "sudo_set_active",
        }
    }
    pub fn receipt(&self) -> (&'static str, Option<(&'static str, String)>) {
        match self {
            SudoOp::TransferAdmin(n) => ("sudo_transfer_admin", Some(("new_admin", n.clone()))),
            SudoOp::RemoveAdmin => ("sudo_remove_admin", None),
            SudoOp::SetActive(b) => ("set_active", Some(("active", b.to_string()))),
        }
    }
}

#[allow(dead_code)]
pub const DENOMS: [&str; 3] = [BASE, QUOTE, OTHER];
#[allow(dead_code)]
pub const SELF_ADDR: &str = CONTRACT;
