//! Operations of a history (serialisable, so a violating history can be replayed) and the model-guided generator.
use crate::chain::{BASE, OTHER, QUOTE};
use crate::model::*;
use crate::price::*;
use crate::rng::Rng;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::collections::{HashMap, VecDeque};

/// u128 that travels as a string in JSON
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct A(pub u128);
impl Serialize for A {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.0.to_string())
    }
}
impl<'de> Deserialize<'de> for A {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        s.parse().map(A).map_err(serde::de::Error::custom)
    }
}

/// Reference to an order: by the label of the placing operation (with offsets, for near misses), or absolute.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Ref {
    pub label: Option<u32>,
    pub tick: i64,
    pub id: i64,
}

pub type Funds = Vec<(String, A)>;
pub fn funds_raw(f: &Funds) -> Vec<(String, u128)> {
    f.iter().map(|(d, a)| (d.clone(), a.0)).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Place { who: String, tick: i64, bid: bool, qty: A, bounty: Option<A>, funds: Funds, label: u32 },
    Cancel { who: String, r: Ref, funds: Funds },
    Claim { who: String, r: Ref, funds: Funds },
    Batch { who: String, rs: Vec<Ref>, funds: Funds },
    Swap { sender: String, din: String, dout: String, amt: A, min_out: A, fee: A, target: Option<i64> },
    Auth { who: String, a: AuthOp, funds: Funds },
    Sudo { a: SudoOp },
    Block { who: String },
    Unblock { who: String },
    Time { dt: u64 },
    /// a long past: the stored counters of orders and of ledger nodes jump ahead
    Age { orders: u64, nodes: u64 },
    Junk { kind: String, who: String, funds: Funds, msg: String },
    Migrate,
    Check { seed: u64 },
}
impl Op {
    pub fn kind(&self) -> &'static str {
        match self {
            Op::Place { .. } => "place",
            Op::Cancel { .. } => "cancel",
            Op::Claim { .. } => "claim",
            Op::Batch { .. } => "batch",
            Op::Swap { .. } => "swap",
            Op::Auth { .. } => "auth",
            Op::Sudo { .. } => "sudo",
            Op::Block { .. } => "block",
            Op::Unblock { .. } => "unblock",
            Op::Time { .. } => "time",
            Op::Age { .. } => "age",
            Op::Junk { .. } => "junk",
            Op::Migrate => "migrate",
            Op::Check { .. } => "check",
        }
    }
}

pub fn user(i: usize) -> String {
    // carol's address begins with all of alice's; dave's is as long as that of a contract
    const N: [&str; 10] = ["alice", "bob", "alicexyzxyzxyzcarol", "dave", "erin", "frank", "grace", "heidi", "ivan", "judy"];
    let i = i % 10;
    let tail = if i == 3 { "xyzxyzxyzxyzxyzxyzxyzxyzxyzxyzxyzxyzxyzxyzxyzxyzxyzxyz" } else { "xyzxyzxyz" };
    format!("osmo1{}{}", N[i], tail)
}
pub const WHALE: &str = "osmo1whalewhalewhale";

/// Everybody takes what is due and leaves.
pub fn leave_all(m: &Model) -> Vec<Op> {
    let mut v = vec![];
    for (t, l) in &m.levels {
        for o in l.q.iter().flat_map(|q| q.values()) {
            let r = Ref { label: None, tick: *t, id: o.id as i64 };
            if o.filled > 0 {
                v.push(Op::Claim { who: o.owner.clone(), r: r.clone(), funds: vec![] });
            }
            if o.filled < o.qty {
                v.push(Op::Cancel { who: o.owner.clone(), r, funds: vec![] });
            }
        }
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum TickMode {
    Single,
    Few,
    Spread,
    Mixed,
    /// a wall of neighbouring levels, more than a swap usually crosses
    Wall,
    /// several hundred levels
    GreatWall,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum QtyMode {
    Tiny,
    Normal,
    Huge,
    /// deposits a sizeable share of the whole supply
    Giant,
    Scaled,
    Mixed,
}

#[derive(Clone, Debug)]
pub struct Profile {
    pub ops: (usize, usize),
    pub users: usize,
    pub tick_modes: &'static [TickMode],
    pub qty_modes: &'static [QtyMode],
    /// place, cancel, claim, batch, swap, swap-to-tick, auth, sudo, pause, fault, time, junk, migrate, check
    pub w: [u32; 14],
    pub invalid: u64,
    pub bounty: u64,
    pub fee: u64,
    /// upper bound on live orders
    pub max_orders: usize,
    /// how much the per-phase weights are perturbed
    pub phases: bool,
    /// allow prices above 1e18 (ticks over 162,000,000)
    pub high: bool,
    /// role messages only touch the maker fee and its recipient
    pub fee_only: bool,
}

pub const ALL_TM: &[TickMode] = &[TickMode::Single, TickMode::Few, TickMode::Spread, TickMode::Mixed];
pub const ALL_QM: &[QtyMode] = &[QtyMode::Tiny, QtyMode::Normal, QtyMode::Huge, QtyMode::Scaled, QtyMode::Mixed, QtyMode::Giant];

impl Default for Profile {
    fn default() -> Self {
        Profile {
            ops: (20, 120),
            users: 5,
            tick_modes: ALL_TM,
            qty_modes: ALL_QM,
            w: [30, 14, 16, 3, 16, 6, 0, 0, 0, 0, 1, 0, 0, 0],
            invalid: 6,
            bounty: 20,
            fee: 30,
            max_orders: 60,
            phases: true,
            high: true,
            fee_only: false,
        }
    }
}

pub struct Gen {
    pub p: Profile,
    pub rng: Rng,
    pub ticks: Vec<i64>,
    uncrossed: bool,
    mid: i64,
    qm: QtyMode,
    w: [u32; 14],
    phase_left: usize,
    cancel_pat: u8,
    fav_user: Option<usize>,
    both_sides: u8,
    next_label: u32,
    last_swap_dir: bool,
    inv_boost: u64,
    script: VecDeque<Op>,
    age: Option<(u64, u64)>,
    /// great walls: levels still to be used for the first time, and how many levels a side must
    /// have before the first swap
    fresh: Vec<i64>,
    hold: usize,
}

fn clampt(t: i64) -> i64 {
    t.clamp(MIN_TICK, MAX_TICK)
}

impl Gen {
    pub fn new(p: Profile, seed: u64) -> Self {
        let mut rng = Rng::new(seed);
        let tm = *rng.pick(p.tick_modes);
        let qm = *rng.pick(p.qty_modes);
        let anchor = Self::anchor(&mut rng, p.high);
        let mut ticks = vec![];
        match tm {
            TickMode::Single => ticks.push(anchor),
            TickMode::Few => {
                let n = 2 + rng.usz(3);
                for _ in 0..n {
                    let sp = *rng.pick(&[1i64, 2, 10, 1000, 100_000, 1_000_000]);
                    ticks.push(clampt(anchor + rng.range(-3, 3) * sp));
                }
            }
            TickMode::Spread => {
                let n = 5 + rng.usz(12);
                let sp = *rng.pick(&[1i64, 7, 1000, 50_000, 1_000_000, 4_500_000]);
                for i in 0..n {
                    ticks.push(clampt(anchor + (i as i64 - n as i64 / 2) * sp + rng.range(0, 2)));
                }
            }
            TickMode::Wall | TickMode::GreatWall => {
                let n = match tm {
                    TickMode::Wall => 40 + rng.usz(130),
                    _ if p.max_orders >= 1_300 => 1_110 + rng.usz(70),
                    _ => 300 + rng.usz(400),
                };
                let sp = *rng.pick(&[1i64, 1, 1, 3, 10, 1000, 100_000]);
                let a = anchor.clamp(MIN_TICK + n as i64 * sp, MAX_TICK - n as i64 * sp);
                for i in 0..n {
                    ticks.push(clampt(a + (i as i64 - n as i64 / 2) * sp));
                }
            }
            TickMode::Mixed => {
                let n = 3 + rng.usz(8);
                for _ in 0..n {
                    ticks.push(Self::anchor(&mut rng, p.high));
                }
            }
        }
        if !p.high {
            for t in ticks.iter_mut() {
                *t = (*t).min(150_000_000);
            }
        }
        ticks.sort();
        ticks.dedup();
        let mid = ticks[ticks.len() / 2];
        let w = p.w;
        let uncrossed = rng.chance(50);
        let great = tm == TickMode::GreatWall;
        // only asks, only bids, both
        let both_sides = if great { *rng.pick(&[0u8, 1, 0, 1, 2]) } else { *rng.pick(&[0u8, 1, 2, 2, 2]) };
        let (mut fresh, mut hold) = (vec![], 0);
        if great {
            fresh = ticks.clone();
            if rng.chance(70) {
                for i in (1..fresh.len()).rev() {
                    fresh.swap(i, rng.usz(i + 1));
                }
            } else if rng.chance(50) {
                fresh.reverse();
            }
            hold = match rng.below(4) {
                _ if ticks.len() > 1_000 => 1_085,
                0 => 0,
                1 => 130,
                2 => 260,
                _ => ticks.len() * 9 / 10,
            };
        }
        let fav_user = if rng.chance(20) { Some(rng.usz(p.users)) } else { None };
        let age = rng.chance(8).then(|| {
            let mut c = || (1u64 << *rng.pick(&[8u32, 10, 16, 31, 32, 32, 53, 62])) - 1 - rng.below(4);
            (c(), c())
        });
        let churn = p.w[0] > 0 && p.w[4] > 0 && p.max_orders > 10 && rng.chance(3);
        let mut g = Gen {
            p,
            rng,
            ticks,
            uncrossed,
            mid,
            qm,
            w,
            phase_left: 0,
            cancel_pat: 0,
            fav_user,
            both_sides,
            next_label: 0,
            last_swap_dir: false,
            inv_boost: 0,
            script: VecDeque::new(),
            age,
            fresh,
            hold,
        };
        if churn {
            g.churn();
        }
        if g.rng.chance(12) {
            // books of other eras: the seconds and nanoseconds gain digits or leave the signed range
            let dt = *g.rng.pick(&[8_299_999_999_999_999_990u64, 8_300_000_000_000_000_000, 7_523_372_036_854_775_800, 16_000_000_000_000_000_000]);
            g.script.push_front(Op::Time { dt });
        }
        g
    }

    /// A level that has traded and cancelled more than any single amount can be.
    fn churn(&mut self) {
        let t = match self.ticks.iter().find(|t| t.abs() < 6) {
            Some(t) => *t,
            None => {
                self.ticks.push(0);
                0
            }
        };
        let who = WHALE.to_string();
        let n = 1 + self.rng.usz(2) * 8;
        let both = self.rng.chance(60);
        let first = self.rng.chance(50);
        let (trades, cancels) = *self.rng.pick(&[(true, true), (true, false), (false, true)]);
        for _ in 0..n {
            let q = (1u128 << 125) - self.rng.below128(1000);
            for bid in [first, !first] {
                if bid != first && !both {
                    continue;
                }
                let mut round = |end: u8| {
                    let label = self.next_label;
                    self.next_label += 1;
                    let r = Ref { label: Some(label), tick: 0, id: 0 };
                    self.script.push_back(Op::Place { who: who.clone(), tick: t, bid, qty: A(q), bounty: None, funds: vec![(in_denom(bid).into(), A(q))], label });
                    if end == 0 {
                        self.script.push_back(Op::Cancel { who: who.clone(), r, funds: vec![] });
                    } else {
                        let amt = to_u128(taker_cost(bid, q, t)).unwrap_or(1);
                        self.script.push_back(Op::Swap { sender: who.clone(), din: out_denom(bid).into(), dout: in_denom(bid).into(), amt: A(amt), min_out: A(1), fee: A(0), target: None });
                        self.script.push_back(Op::Claim { who: who.clone(), r, funds: vec![] });
                    }
                };
                if cancels {
                    round(0);
                }
                if trades {
                    round(1);
                }
            }
        }
    }

    fn anchor(rng: &mut Rng, high: bool) -> i64 {
        let t = match rng.below(12) {
            0 => 0,
            1 => rng.range(-5, 5),
            2 => rng.range(-12, 20) * 9_000_000 + rng.range(-2, 2),
            3 => rng.range(-2_000_000, 2_000_000),
            4 => rng.range(-30_000_000, 30_000_000),
            5 => rng.range(MIN_TICK, MAX_TICK),
            6 => MIN_TICK + rng.range(0, 3),
            7 => MAX_TICK - rng.range(0, 3),
            8 => rng.range(-2, 2) * 9_000_000 + rng.range(-100, 100),
            9 => rng.range(100_000_000, MAX_TICK),
            10 => rng.range(MIN_TICK, -60_000_000),
            _ => rng.range(-9_000_000, 9_000_000),
        };
        let t = clampt(t);
        if high {
            t
        } else {
            t.min(150_000_000)
        }
    }

    fn qty(&mut self, bid: bool, tick: i64) -> u128 {
        let m = if self.qm == QtyMode::Mixed {
            if self.rng.chance(2) {
                QtyMode::Giant
            } else {
                *self.rng.pick(&[QtyMode::Tiny, QtyMode::Normal, QtyMode::Huge, QtyMode::Scaled])
            }
        } else {
            self.qm
        };
        let cap = 1u128 << 115;
        let q = match m {
            QtyMode::Tiny => 1 + self.rng.below128(20),
            QtyMode::Normal => match self.rng.below(4) {
                0 => 1 + self.rng.below128(1000),
                1 => 10u128.pow(1 + self.rng.below(9) as u32),
                2 => self.rng.logu(40),
                _ => 100 + self.rng.below128(100_000),
            },
            QtyMode::Huge => match self.rng.below(6) {
                0 => self.rng.logu(115),
                1 => 1u128 << (60 + self.rng.below(50)),
                2 => (1u128 << (40 + self.rng.below(70))) - 1,
                _ => 10u128.pow(18 + self.rng.below(14) as u32) + self.rng.below128(1000),
            },
            QtyMode::Giant => {
                return match self.rng.below(5) {
                    0 => 1 + self.rng.below128(1 << 20),
                    1 => self.rng.logu(123).max(1),
                    2 => (1u128 << (110 + self.rng.below(14))) - self.rng.below128(2),
                    3 => (1u128 << 120) + self.rng.below128(1 << 122),
                    _ => 10u128.pow(30 + self.rng.below(8) as u32) + self.rng.below128(1000),
                }
            }
            QtyMode::Scaled | QtyMode::Mixed => {
                // deposit worth a modest integer amount of the other asset, plus a remainder
                let m = if self.rng.chance(50) { 12 } else { 5000 };
                let units = 1 + self.rng.below128(m);
                let a = atomics(tick);
                let per = if bid {
                    // quote deposit for `units` base
                    u(units) * u(a) / u(ONE18)
                } else {
                    u(units) * u(ONE18) / u(a)
                };
                let base = to_u128(per).unwrap_or(cap).min(cap);
                match self.rng.below(4) {
                    0 => base.max(1),
                    1 => base + 1,
                    2 => base.saturating_sub(1).max(1),
                    _ => base + self.rng.below128(base / 3 + 2),
                }
            }
        };
        q.clamp(1, cap)
    }

    fn who(&mut self) -> String {
        if let Some(f) = self.fav_user {
            if self.rng.chance(60) {
                return user(f);
            }
        }
        user(self.rng.usz(self.p.users))
    }

    fn side_for(&mut self, tick: i64) -> bool {
        match self.both_sides {
            0 => self.rng.chance(4),
            1 => !self.rng.chance(4),
            _ => {
                if self.uncrossed {
                    if tick == self.mid {
                        self.rng.chance(50)
                    } else {
                        tick < self.mid
                    }
                } else {
                    self.rng.chance(50)
                }
            }
        }
    }

    pub fn next(&mut self, m: &Model, labels: &HashMap<(i64, u64), u32>) -> Op {
        if let Some(op) = self.script.pop_front() {
            return op;
        }
        if m.n_orders > 0 {
            if let Some((orders, nodes)) = self.age.take() {
                return Op::Age { orders, nodes };
            }
        }
        if self.phase_left == 0 {
            self.phase_left = 6 + self.rng.usz(30);
            if self.p.ops.1 >= 1000 {
                // long histories: long runs of one pattern
                self.phase_left *= 1 + self.rng.usz(25);
            }
            self.w = self.p.w;
            if self.p.phases {
                for i in 0..6 {
                    let f = *self.rng.pick(&[0u32, 1, 2, 4, 12]);
                    self.w[i] = self.w[i] * f;
                }
                if self.w[..6].iter().all(|x| *x == 0) {
                    self.w = self.p.w;
                }
                self.w[0] = self.w[0].max(1);
            }
            self.cancel_pat = self.rng.below(6) as u8;
            self.inv_boost = if self.rng.chance(10) { 30 } else { 0 };
        }
        self.phase_left -= 1;
        for _ in 0..30 {
            let k = self.rng.weighted(&self.w.clone());
            if let Some(op) = self.try_kind(k, m, labels) {
                return op;
            }
        }
        self.place(m)
    }

    fn inv(&mut self) -> bool {
        let x = self.p.invalid + self.inv_boost;
        self.rng.chance(x)
    }

    fn try_kind(&mut self, k: usize, m: &Model, labels: &HashMap<(i64, u64), u32>) -> Option<Op> {
        match k {
            0 => {
                if m.n_orders >= self.p.max_orders && !self.rng.chance(3) {
                    return None;
                }
                Some(self.place(m))
            }
            1 => self.cancel(m, labels),
            2 => self.claim(m, labels),
            3 => self.batch(m, labels),
            4 => self.swap(m, false),
            5 => self.swap(m, true),
            6 => Some(self.auth(m)),
            7 => Some(self.sudo(m)),
            8 => Some(self.pause(m)),
            9 => Some(self.fault(m)),
            10 => Some(Op::Time {
                dt: match self.rng.below(8) {
                    // months or years later
                    0 => 86_400_000_000_000 * (1 + self.rng.below(4000)),
                    1 => 0,
                    _ => 1 + self.rng.below(6_000_000_000),
                },
            }),
            11 => Some(self.junk(m)),
            12 => Some(Op::Migrate),
            _ => Some(Op::Check { seed: self.rng.next() }),
        }
    }

    pub fn bounty_val(&mut self) -> Option<A> {
        if !self.rng.chance(self.p.bounty) {
            return None;
        }
        Some(A(match self.rng.below(6) {
            0 => 0,
            1 => MAX_BOUNTY,
            2 => MAX_BOUNTY - 1,
            3 => 1_000_000_000_000_000,
            4 => 1 + self.rng.below128(MAX_BOUNTY),
            _ => 5_000_000_000_000_000,
        }))
    }

    fn place(&mut self, m: &Model) -> Op {
        let who = self.who();
        let mut tick = *self.rng.pick(&self.ticks.clone());
        let p = if self.ticks.len() > 1_000 { 97 } else { 85 };
        if !self.fresh.is_empty() && self.rng.chance(p) {
            tick = self.fresh.pop().unwrap();
        }
        let mut bid = self.side_for(tick);
        // after a level was swept, sometimes re-use it
        if self.rng.chance(5) {
            tick = if bid { m.best_bid } else { m.best_ask };
        }
        if self.rng.chance(2) {
            bid = !bid;
        }
        let mut qty = self.qty(bid, tick);
        let mut bounty = self.bounty_val();
        let label = self.next_label;
        self.next_label += 1;
        let mut funds: Funds = vec![(in_denom(bid).to_string(), A(qty))];
        if self.inv() {
            match self.rng.below(14) {
                0 => tick = MAX_TICK + 1 + self.rng.below(3) as i64,
                1 => tick = MIN_TICK - 1 - self.rng.below(3) as i64,
                2 => qty = 0,
                3 => funds = vec![],
                4 => funds[0].1 = A(qty + 1),
                5 => {
                    if qty > 1 {
                        funds[0].1 = A(qty - 1)
                    } else {
                        funds = vec![]
                    }
                }
                6 => funds[0].0 = out_denom(bid).to_string(),
                7 => funds[0].0 = OTHER.to_string(),
                8 => funds.push((if self.rng.chance(50) { OTHER } else { out_denom(bid) }.to_string(), A(1 + self.rng.below128(9)))),
                9 => bounty = Some(A(MAX_BOUNTY + 1)),
                10 => bounty = Some(A(MAX_BOUNTY + self.rng.below128(ONE18) + 1)),
                11 => tick = *self.rng.pick(&[i64::MAX, i64::MIN, i64::MAX / 2, 400_000_000, -400_000_000]),
                12 => {
                    qty = 0;
                    funds = vec![];
                }
                _ => funds = vec![(out_denom(bid).to_string(), A(qty.min(1000))), (in_denom(bid).to_string(), A(qty))],
            }
        }
        Op::Place { who, tick, bid, qty: A(qty), bounty, funds, label }
    }

    fn mkref(o: (i64, u64), labels: &HashMap<(i64, u64), u32>) -> Ref {
        match labels.get(&o) {
            Some(l) => Ref { label: Some(*l), tick: 0, id: 0 },
            None => Ref { label: None, tick: o.0, id: o.1 as i64 },
        }
    }
    fn bad_ref(&mut self, o: Option<(i64, u64)>, labels: &HashMap<(i64, u64), u32>) -> Ref {
        match o {
            Some(o) => {
                let mut r = Self::mkref(o, labels);
                match self.rng.below(5) {
                    0 => r.tick += 1,
                    1 => r.tick -= 1,
                    2 => r.id += 1,
                    3 => r.id -= 1,
                    _ => {
                        let t = *self.rng.pick(&self.ticks.clone());
                        r.tick += t - o.0;
                    }
                }
                r
            }
            None => Ref {
                label: None,
                tick: *self.rng.pick(&self.ticks.clone()),
                id: self.rng.below(6) as i64,
            },
        }
    }
    /// a label that was used earlier (its order may be gone)
    fn stale_ref(&mut self) -> Ref {
        let l = self.rng.below(self.next_label.max(1) as u64) as u32;
        Ref { label: Some(l), tick: 0, id: 0 }
    }

    fn bad_funds(&mut self) -> Funds {
        vec![(self.rng.pick(&[BASE, QUOTE, OTHER]).to_string(), A(1 + self.rng.below128(100)))]
    }

    fn cancel(&mut self, m: &Model, labels: &HashMap<(i64, u64), u32>) -> Option<Op> {
        let open: Vec<(i64, u64, String)> = m
            .orders()
            .filter(|o| o.filled == 0)
            .map(|o| (o.tick, o.id, o.owner.clone()))
            .collect();
        if self.inv() {
            let any: Vec<(i64, u64, String, u128)> = m.orders().map(|o| (o.tick, o.id, o.owner.clone(), o.filled)).collect();
            let mut funds = vec![];
            let (who, r) = match self.rng.below(6) {
                0 if !any.is_empty() => {
                    let o = self.rng.pick(&any).clone();
                    (o.2, self.bad_ref(Some((o.0, o.1)), labels))
                }
                1 | 2 if !any.is_empty() => {
                    let o = self.rng.pick(&any).clone();
                    let mut w = self.who();
                    if self.rng.chance(20) {
                        w = [GOV, SUBDAO, FEE_RECIPIENT][self.rng.usz(3)].to_string();
                    }
                    (w, Self::mkref((o.0, o.1), labels))
                }
                3 if any.iter().any(|o| o.3 > 0) => {
                    let f: Vec<_> = any.iter().filter(|o| o.3 > 0).cloned().collect();
                    let o = self.rng.pick(&f).clone();
                    (o.2, Self::mkref((o.0, o.1), labels))
                }
                4 if !any.is_empty() => {
                    let o = self.rng.pick(&any).clone();
                    funds = self.bad_funds();
                    (o.2, Self::mkref((o.0, o.1), labels))
                }
                _ => (self.who(), self.stale_ref()),
            };
            return Some(Op::Cancel { who, r, funds });
        }
        if open.is_empty() {
            return None;
        }
        let n = open.len();
        // bring ordering by id for patterns
        let mut v = open;
        v.sort_by_key(|o| o.1);
        let i = match self.cancel_pat {
            0 => 0,
            1 => n - 1,
            2 => n / 2,
            3 => {
                if self.rng.chance(50) {
                    0
                } else {
                    n - 1
                }
            }
            _ => self.rng.usz(n),
        };
        let o = v[i].clone();
        Some(Op::Cancel { who: o.2, r: Self::mkref((o.0, o.1), labels), funds: vec![] })
    }

    fn claim_who(&mut self, owner: &str, m: &Model) -> String {
        match self.rng.below(10) {
            0..=3 => owner.to_string(),
            4 => m.recipient.clone(),
            5 => m.admin.clone().unwrap_or_else(|| owner.to_string()),
            _ => self.who(),
        }
    }

    fn claim(&mut self, m: &Model, labels: &HashMap<(i64, u64), u32>) -> Option<Op> {
        let all: Vec<(i64, u64, String, u128)> = m.orders().map(|o| (o.tick, o.id, o.owner.clone(), o.filled)).collect();
        let filled: Vec<_> = all.iter().filter(|o| o.3 > 0).cloned().collect();
        if self.inv() {
            let mut funds = vec![];
            let who = self.who();
            let r = match self.rng.below(5) {
                0 if !all.is_empty() => {
                    let o = self.rng.pick(&all).clone();
                    self.bad_ref(Some((o.0, o.1)), labels)
                }
                1 | 2 if !all.is_empty() => {
                    let o = self.rng.pick(&all).clone();
                    Self::mkref((o.0, o.1), labels)
                }
                3 if !filled.is_empty() => {
                    let o = self.rng.pick(&filled).clone();
                    funds = self.bad_funds();
                    Self::mkref((o.0, o.1), labels)
                }
                _ => self.stale_ref(),
            };
            return Some(Op::Claim { who, r, funds });
        }
        if filled.is_empty() {
            return None;
        }
        let o = self.rng.pick(&filled).clone();
        let who = self.claim_who(&o.2, m);
        Some(Op::Claim { who, r: Self::mkref((o.0, o.1), labels), funds: vec![] })
    }

    fn batch(&mut self, m: &Model, labels: &HashMap<(i64, u64), u32>) -> Option<Op> {
        let all: Vec<(i64, u64, u128)> = m.orders().map(|o| (o.tick, o.id, o.filled)).collect();
        let mut rs = vec![];
        let n = match self.rng.below(14) {
            0 => 0,
            1 => 100,
            2 => 101,
            3 => 99,
            4..=6 => 1 + self.rng.usz(4),
            _ => 2 + self.rng.usz(20),
        };
        let mode = self.rng.below(3);
        let many = all.iter().filter(|o| o.2 > 0).count();
        if many >= 30 && self.rng.chance(50) {
            // everything that can be claimed, as far as one message goes
            let mut f: Vec<_> = all.iter().filter(|o| o.2 > 0).copied().collect();
            for i in (1..f.len()).rev() {
                f.swap(i, self.rng.usz(i + 1));
            }
            f.truncate(self.rng.usz(3) + 98);
            let rs = f.into_iter().map(|o| Self::mkref((o.0, o.1), labels)).collect();
            let who = self.who();
            return Some(Op::Batch { who, rs, funds: vec![] });
        }
        for _ in 0..n {
            let r = if all.is_empty() || self.rng.chance(8) {
                self.stale_ref()
            } else if self.rng.chance(6) {
                let o = *self.rng.pick(&all);
                self.bad_ref(Some((o.0, o.1)), labels)
            } else {
                let f: Vec<_> = all.iter().filter(|o| o.2 > 0).collect();
                let o = if mode > 0 && !f.is_empty() { **self.rng.pick(&f) } else { *self.rng.pick(&all) };
                Self::mkref((o.0, o.1), labels)
            };
            rs.push(r);
        }
        let funds = if self.inv() && self.rng.chance(30) { self.bad_funds() } else { vec![] };
        let who = self.who();
        Some(Op::Batch { who, rs, funds })
    }

    fn swap(&mut self, m: &Model, to_tick: bool) -> Option<Op> {
        if self.hold > 0 {
            if m.levels.values().filter(|l| l.liq[0] > 0 || l.liq[1] > 0).count() < self.hold && !self.fresh.is_empty() {
                return None;
            }
            self.hold = 0;
        }
        let bid_side = if m.pool[0] == 0 && m.pool[1] == 0 {
            self.rng.chance(50)
        } else if m.pool[0] == 0 {
            !self.rng.chance(3)
        } else if m.pool[1] == 0 {
            self.rng.chance(3)
        } else if self.rng.chance(30) {
            !self.last_swap_dir
        } else {
            self.rng.chance(50)
        };
        self.last_swap_dir = bid_side;
        let s = bid_side as usize;
        let live = m.live_ticks(bid_side, if bid_side { MIN_TICK } else { MAX_TICK });
        if live.is_empty() && !self.rng.chance(8) {
            return None;
        }
        let (mut din, mut dout) = if bid_side { (BASE, QUOTE) } else { (QUOTE, BASE) };
        let cap = 1u128 << 126;
        // cost of sweeping the first k levels
        let long = live.len() > 120 && self.rng.chance(50);
        let far = if long || self.rng.chance(15) { live.len() } else { live.len().min(6) };
        let mut k = if live.is_empty() { 0 } else { 1 + self.rng.usz(far) };
        if long && self.rng.chance(60) {
            let few = if self.rng.chance(50) { 8 } else { live.len() / 4 };
            k = live.len() - self.rng.usz(few);
        }
        let mut sweep = cosmwasm_std::Uint256::zero();
        for t in live.iter().take(k) {
            sweep += taker_cost(bid_side, m.levels[t].liq[s], *t);
        }
        let sweep = to_u128(sweep).unwrap_or(cap).min(cap);
        let first = live.first().map(|t| {
            let l = m.levels[t].liq[s];
            // input needed to fill exactly one more order of the queue at the best level, or one unit
            let lv = &m.levels[t].q[s];
            let opens: Vec<u128> = lv.values().map(|o| o.open()).filter(|x| *x > 0).collect();
            let j = self.rng.usz(opens.len().max(1)) + 1;
            let sum: u128 = opens.iter().take(j).sum::<u128>().min(l);
            let sub = match self.rng.below(5) {
                0 => sum,
                1 => sum.saturating_sub(1),
                2 => (sum + 1).min(l),
                3 => 1,
                _ => self.rng.below128(l) + 1,
            };
            to_u128(taker_cost(bid_side, sub, *t)).unwrap_or(cap).min(cap)
        });
        let pick = if long { self.rng.below(5) } else { self.rng.below(12) };
        let mut amt = match pick {
            0 => sweep,
            1 => sweep + 1,
            2 => sweep.saturating_sub(1),
            3 => sweep / (2 + self.rng.below128(5)),
            4 => 1 + self.rng.below128(sweep.max(1)),
            5..=7 => first.unwrap_or(1),
            8 => first.unwrap_or(1).saturating_add(self.rng.below128(3)),
            9 => 1 + self.rng.below128(12),
            10 => self.rng.logu(60),
            _ => first.unwrap_or(1),
        };
        amt = amt.min(cap);
        if amt == 0 {
            amt = 1;
        }
        let ends = [MIN_TICK, MAX_TICK];
        let target = if to_tick {
            let t = if live.is_empty() || self.rng.chance(15) {
                match self.rng.below(6) {
                    0 => m.best_bid,
                    1 => m.best_ask,
                    2 => ends[self.rng.usz(2)],
                    3 => *self.rng.pick(&self.ticks.clone()),
                    4 => if bid_side { m.best_bid + 1 } else { m.best_ask - 1 },
                    _ => self.rng.range(MIN_TICK - 2, MAX_TICK + 2),
                }
            } else {
                let j = if long { k - 1 } else { self.rng.usz(live.len().min(6)) };
                let t = live[j];
                t + *self.rng.pick(&[0, 0, 0, 1, -1])
            };
            // a genuine bound strictly inside the range most of the time
            Some(t)
        } else {
            None
        };
        let mut min_out = 0u128;
        let mut fee = 0u128;
        let mut sender = if self.rng.chance(10) { WHALE.to_string() } else { self.who() };
        let inv = self.inv();
        if inv {
            match self.rng.below(10) {
                0 => fee = *self.rng.pick(&[1u128, ONE18, 3_000_000_000_000_000]),
                1 => dout = din,
                2 => dout = OTHER,
                3 => din = OTHER,
                4 => amt = 0,
                5 => sender = self.rng.pick(&["", "BAD", "cosmos1abcdefgh", "osmo1UPPER"]).to_string(),
                _ => {
                    // more than the book can absorb
                    let mut tot = cosmwasm_std::Uint256::zero();
                    for t in &live {
                        tot += taker_cost(bid_side, m.levels[t].liq[s], *t);
                    }
                    let tot = to_u128(tot).unwrap_or(cap).min(cap);
                    amt = tot.saturating_add(1 + self.rng.below128(tot / 2 + 10)).min(cap);
                }
            }
        }
        if !inv || self.rng.chance(30) {
            if let Ok(p) = m.plan_swap(bid_side, amt, target.unwrap_or(if bid_side { MIN_TICK } else { MAX_TICK })) {
                let out = to_u128(p.out).unwrap_or(u128::MAX);
                min_out = match self.rng.below(8) {
                    0 => out,
                    1 => out.saturating_add(1),
                    2 => out.saturating_sub(1),
                    3 => out / 2,
                    4 => out.saturating_add(1 + self.rng.below128(100)),
                    5 => 1,
                    _ => 0,
                };
            }
        }
        Some(Op::Swap {
            sender,
            din: din.into(),
            dout: dout.into(),
            amt: A(amt),
            min_out: A(min_out),
            fee: A(fee),
            target,
        })
    }

    fn any_addr(&mut self, m: &Model) -> String {
        match self.rng.below(12) {
            0 => GOV.into(),
            1 => SUBDAO.into(),
            2 => m.recipient.clone(),
            3 => self.rng.pick(&["", "x", "OSMO1UPPERCASE", "cosmos1zzzzzzzzzz", "osmo1bad-addr!"]).to_string(),
            4 => m.admin_offer.clone().unwrap_or_else(|| user(1)),
            5 => m.moder_offer.clone().unwrap_or_else(|| user(2)),
            6 => match self.rng.below(4) {
                0 => FEE_RECIPIENT.into(),
                1 => m.admin.clone().unwrap_or_else(|| user(0)),
                2 => m.moder.clone().unwrap_or_else(|| user(0)),
                _ => user(0),
            },
            _ => user(self.rng.usz(self.p.users)),
        }
    }
    /// continue on a book that already exists
    pub fn adopt(&mut self, m: &Model) {
        let mut t: Vec<i64> = m.levels.keys().copied().collect();
        if t.is_empty() {
            return;
        }
        while t.len() > 12 {
            let i = self.rng.usz(t.len());
            t.remove(i);
        }
        self.mid = t[t.len() / 2];
        self.ticks = t;
    }

    fn auth(&mut self, m: &Model) -> Op {
        if self.p.fee_only {
            let who = if self.rng.chance(75) { m.admin.clone().unwrap_or_else(|| user(0)) } else { self.any_addr(m) };
            let who = if crate::chain::addr_ok(&who) { who } else { user(3) };
            let a = if self.rng.chance(75) {
                AuthOp::SetFee(self.fee_val())
            } else {
                AuthOp::SetRecipient(self.any_addr(m))
            };
            return Op::Auth { who, a, funds: vec![] };
        }
        let mut who = match self.rng.below(10) {
            0..=3 => m.admin.clone().unwrap_or_else(|| user(0)),
            4 | 5 => m.moder.clone().unwrap_or_else(|| user(0)),
            6 => m.admin_offer.clone().unwrap_or_else(|| user(1)),
            7 => m.moder_offer.clone().unwrap_or_else(|| user(2)),
            8 => if self.rng.chance(50) { GOV.into() } else { SUBDAO.into() },
            _ => user(self.rng.usz(self.p.users)),
        };
        let a = match self.rng.below(14) {
            0 | 1 => AuthOp::TransferAdmin(self.any_addr(m)),
            2 => AuthOp::CancelAdminTransfer,
            3 => AuthOp::RejectAdminTransfer,
            4 => AuthOp::ClaimAdmin,
            5 if self.rng.chance(40) => AuthOp::Renounce,
            6 | 5 => AuthOp::OfferModerator(self.any_addr(m)),
            7 => AuthOp::RejectModerator,
            8 => AuthOp::ClaimModerator,
            9 | 10 => AuthOp::SetActive(if m.active { self.rng.chance(70) } else { self.rng.chance(80) }),
            11 | 12 => AuthOp::SetFee(self.fee_val()),
            _ => AuthOp::SetRecipient(self.any_addr(m)),
        };
        // make claims of an offer land often enough
        if matches!(a, AuthOp::ClaimAdmin | AuthOp::RejectAdminTransfer) && self.rng.chance(50) {
            if let Some(o) = &m.admin_offer {
                who = o.clone();
            }
        }
        if matches!(a, AuthOp::ClaimModerator | AuthOp::RejectModerator) && self.rng.chance(50) {
            if let Some(o) = &m.moder_offer {
                who = o.clone();
            }
        }
        Op::Auth { who, a, funds: vec![] }
    }
    pub fn fee_val(&mut self) -> u128 {
        match self.rng.below(9) {
            0 => 0,
            1 => MAX_FEE,
            2 => MAX_FEE - 1,
            3 => MAX_FEE + 1,
            4 => ONE18,
            5 => 1,
            6 => MAX_FEE + self.rng.below128(MAX_FEE * 30),
            _ => self.rng.below128(MAX_FEE + 1),
        }
    }
    fn sudo(&mut self, m: &Model) -> Op {
        let a = match self.rng.below(8) {
            0 => SudoOp::RemoveAdmin,
            1 | 2 | 3 => SudoOp::TransferAdmin(self.any_addr(m)),
            4 => SudoOp::SetActive(false),
            _ => SudoOp::SetActive(true),
        };
        Op::Sudo { a }
    }
    fn pause(&mut self, m: &Model) -> Op {
        let on = if m.active { self.rng.chance(20) } else { self.rng.chance(75) };
        if self.rng.chance(40) {
            return Op::Sudo { a: SudoOp::SetActive(on) };
        }
        let who = if self.rng.chance(50) { m.moder.clone() } else { m.admin.clone() };
        match who {
            Some(w) => Op::Auth { who: w, a: AuthOp::SetActive(on), funds: vec![] },
            None => Op::Sudo { a: SudoOp::SetActive(on) },
        }
    }
    fn fault(&mut self, m: &Model) -> Op {
        if !m.blocked.is_empty() && self.rng.chance(60) {
            let v: Vec<String> = m.blocked.iter().cloned().collect();
            return Op::Unblock { who: self.rng.pick(&v).clone() };
        }
        let who = match self.rng.below(6) {
            0 => m.recipient.clone(),
            1 => "*".to_string(),
            _ => user(self.rng.usz(self.p.users)),
        };
        Op::Block { who }
    }

    fn rnd_num(&mut self) -> String {
        match self.rng.below(9) {
            0 => "0".into(),
            1 => "1".into(),
            2 => u128::MAX.to_string(),
            3 => (u128::MAX as f64).to_string(),
            4 => "340282366920938463463374607431768211456".into(),
            5 => "-1".into(),
            6 => self.rng.logu(127).to_string(),
            7 => "".into(),
            _ => self.rng.below(1000).to_string(),
        }
    }
    fn rnd_dec(&mut self) -> String {
        match self.rng.below(8) {
            0 => "0".into(),
            1 => "0.01".into(),
            2 => "0.010000000000000001".into(),
            3 => "115792089237316195423570985008687907853269984665640564039457.584007913129639935".into(),
            4 => "-0.1".into(),
            5 => "1".into(),
            6 => "0.000000000000000001".into(),
            _ => "0.05".into(),
        }
    }
    fn rnd_tick(&mut self) -> i64 {
        match self.rng.below(8) {
            0 => i64::MAX,
            1 => i64::MIN,
            2 => MAX_TICK + 1,
            3 => MIN_TICK - 1,
            4 => MAX_TICK,
            5 => MIN_TICK,
            _ => *self.rng.pick(&self.ticks.clone()),
        }
    }
    fn opt<T: std::fmt::Display>(&mut self, x: T) -> String {
        if self.rng.chance(30) {
            "null".into()
        } else {
            x.to_string()
        }
    }
    pub fn query_json(&mut self, m: &Model) -> String {
        let t1 = self.rnd_tick();
        let t2 = self.rnd_tick();
        let id1 = *self.rng.pick(&[0u64, 1, 5, u64::MAX, 100]);
        let id2 = *self.rng.pick(&[0u64, 2, 7, u64::MAX, 1000]);
        let lim = *self.rng.pick(&[0u64, 1, 2, 100, 4294967295, u64::MAX]);
        let who = self.any_addr(m);
        let who = serde_json::to_string(&who).unwrap();
        let (d1, d2) = *self.rng.pick(&[(BASE, QUOTE), (QUOTE, BASE), (BASE, BASE), (OTHER, BASE), (QUOTE, OTHER), ("", "")]);
        let n = self.rnd_num();
        let f = self.rnd_dec();
        match self.rng.below(17) {
            0 => format!(r#"{{"spot_price":{{"quote_asset_denom":"{d1}","base_asset_denom":"{d2}"}}}}"#),
            1 => format!(r#"{{"calc_out_amount_given_in":{{"token_in":{{"denom":"{d1}","amount":"{n}"}},"token_out_denom":"{d2}","swap_fee":"{f}"}}}}"#),
            2 => format!(r#"{{"calc_out_amt_given_in":{{"token_in":{{"denom":"{d1}","amount":"{n}"}},"token_out_denom":"{d2}","swap_fee":"0"}}}}"#),
            3 => r#"{"get_total_pool_liquidity":{}}"#.into(),
            4 => r#"{"get_swap_fee":{}}"#.into(),
            5 => {
                let (a, b, c) = (self.opt(t1), self.opt(t2), self.opt(lim));
                format!(r#"{{"all_ticks":{{"start_from":{a},"end_at":{b},"limit":{c}}}}}"#)
            }
            6 => r#"{"get_maker_fee":{}}"#.into(),
            7 => format!(r#"{{"auth":{{"{}":{{}}}}}}"#, self.rng.pick(&["admin", "admin_offer", "moderator", "moderator_offer"])),
            8 => r#"{"is_active":{}}"#.into(),
            9 | 10 => {
                let a = self.opt(format!("[{t1},{id1}]"));
                let b = self.opt(format!("[{t2},{id2}]"));
                let c = self.opt(lim);
                format!(r#"{{"orders_by_owner":{{"owner":{who},"start_from":{a},"end_at":{b},"limit":{c}}}}}"#)
            }
            11 | 12 => {
                let (a, b, c) = (self.opt(id1), self.opt(id2), self.opt(lim));
                format!(r#"{{"orders_by_tick":{{"tick_id":{t1},"start_from":{a},"end_at":{b},"limit":{c}}}}}"#)
            }
            13 => r#"{"orderbook_state":{}}"#.into(),
            14 => r#"{"denoms":{}}"#.into(),
            15 => format!(r#"{{"ticks_by_id":{{"tick_ids":[{t1},{t2}]}}}}"#),
            _ => format!(r#"{{"get_unrealized_cancels":{{"tick_ids":[{t1}]}}}}"#),
        }
    }
    fn junk(&mut self, m: &Model) -> Op {
        let who = self.who();
        match self.rng.below(10) {
            0..=4 => {
                let msg = self.query_json(m);
                Op::Junk { kind: "query".into(), who, funds: vec![], msg }
            }
            5 | 6 => {
                let t = self.rnd_tick();
                let n = self.rnd_num();
                let d = self.rnd_dec();
                let id = *self.rng.pick(&[0u64, 1, u64::MAX, 77]);
                let dir = *self.rng.pick(&["bid", "ask", "Bid", ""]);
                let big = self.rng.pick(&[0usize, 1, 100, 101, 500]);
                let msg = match self.rng.below(6) {
                    0 | 1 => format!(r#"{{"place_limit":{{"tick_id":{t},"order_direction":"{dir}","quantity":"{n}","claim_bounty":"{d}"}}}}"#),
                    2 => format!(r#"{{"cancel_limit":{{"tick_id":{t},"order_id":{id}}}}}"#),
                    3 => format!(r#"{{"claim_limit":{{"tick_id":{t},"order_id":{id}}}}}"#),
                    4 => {
                        let v: Vec<String> = (0..*big).map(|_| format!("[{t},{id}]")).collect();
                        format!(r#"{{"batch_claim":{{"orders":[{}]}}}}"#, v.join(","))
                    }
                    _ => format!(r#"{{"auth":{{"set_maker_fee":{{"fee":"{d}"}}}}}}"#),
                };
                let nf: u128 = n.parse().unwrap_or(1);
                let funds = if nf > 0 && nf < (1u128 << 110) {
                    vec![(if dir == "bid" { QUOTE } else { BASE }.to_string(), A(nf))]
                } else {
                    vec![]
                };
                Op::Junk { kind: "exec".into(), who, funds, msg }
            }
            _ => {
                let t = self.rnd_tick();
                let n = self.rnd_num();
                let n2 = self.rnd_num();
                let (d1, d2) = *self.rng.pick(&[(BASE, QUOTE), (QUOTE, BASE), (BASE, BASE), (OTHER, BASE)]);
                let fee = *self.rng.pick(&["0", "0", "0.003", "-1"]);
                let msg = match self.rng.below(4) {
                    0 | 1 => format!(r#"{{"swap_exact_amount_in":{{"sender":"{who}","token_in":{{"denom":"{d1}","amount":"{n}"}},"token_out_denom":"{d2}","token_out_min_amount":"{n2}","swap_fee":"{fee}"}}}}"#),
                    2 => format!(r#"{{"swap_to_tick":{{"sender":"{who}","token_in":{{"denom":"{d1}","amount":"{n}"}},"token_out_denom":"{d2}","token_out_min_amount":"{n2}","swap_fee":"{fee}","target_tick":{t}}}}}"#),
                    _ => format!(r#"{{"transfer_admin":{{"new_admin":"{}"}}}}"#, self.rng.pick(&["", "x"])),
                };
                // funded by the chain when the amount is payable
                let nf: u128 = n.parse().unwrap_or(0);
                let funds = if nf > 0 && nf < (1u128 << 126) { vec![(d1.to_string(), A(nf))] } else { vec![] };
                Op::Junk { kind: "sudo".into(), who, funds, msg }
            }
        }
    }
}
