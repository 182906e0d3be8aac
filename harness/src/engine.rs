//! Runs operations on the real contract and on the reference model in lockstep and records every observed divergence.
use crate::chain::*;
use crate::ledger;
use crate::model::*;
use crate::obs::{self, BookObs};
use crate::ops::*;
use crate::price::*;
use crate::rng::{comb, hash_str};
use crate::store::Cost;
use cosmwasm_std::Uint256;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub type Cat = (&'static str, &'static str, &'static str);

#[derive(Clone, Debug)]
pub struct Div {
    pub cat: String,
    pub detail: String,
    pub step: usize,
}

#[derive(Default, Clone)]
pub struct Stats {
    /// oracle evaluations by category
    pub evals: BTreeMap<String, u64>,
    pub rel_evals: u64,
    pub distinct: HashSet<u64>,
    /// operations executed: kind -> (accepted, refused)
    pub ops: BTreeMap<&'static str, (u64, u64)>,
    pub refusals: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub max_orders: usize,
    pub max_levels: usize,
    pub max_queue: usize,
    pub extra: BTreeMap<&'static str, u64>,
    pub histories: u64,
    pub max_extra: BTreeMap<&'static str, u64>,
}
impl Stats {
    pub fn merge(&mut self, o: Stats) {
        for (k, v) in o.evals {
            *self.evals.entry(k).or_default() += v;
        }
        self.rel_evals += o.rel_evals;
        self.distinct.extend(o.distinct);
        self.states.extend(o.states);
        for (k, v) in o.ops {
            let e = self.ops.entry(k).or_default();
            e.0 += v.0;
            e.1 += v.1;
        }
        for (k, v) in o.refusals {
            *self.refusals.entry(k).or_default() += v;
        }
        for (k, v) in o.extra {
            *self.extra.entry(k).or_default() += v;
        }
        for (k, v) in o.max_extra {
            let e = self.max_extra.entry(k).or_default();
            *e = (*e).max(v);
        }
        self.max_orders = self.max_orders.max(o.max_orders);
        self.max_levels = self.max_levels.max(o.max_levels);
        self.max_queue = self.max_queue.max(o.max_queue);
        self.histories += o.histories;
    }
    pub fn bump(&mut self, k: &'static str, n: u64) {
        *self.extra.entry(k).or_default() += n;
    }
    pub fn maxi(&mut self, k: &'static str, n: u64) {
        let e = self.max_extra.entry(k).or_default();
        *e = (*e).max(n);
    }
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Flags {
    pub level: bool,
    pub pool: bool,
    pub ptr: bool,
    pub iso: bool,
    pub solv: bool,
    pub cost: bool,
    pub events: bool,
    pub roles: bool,
    pub fifo: bool,
    pub liqsum: bool,
    pub ledger: bool,
}

pub struct Engine {
    pub w: World,
    pub m: Model,
    pub st: Stats,
    pub divs: Vec<Div>,
    pub flags: Flags,
    pub cats: &'static [&'static str],
    pub labels: HashMap<u32, (i64, u64)>,
    pub rev: HashMap<(i64, u64), u32>,
    pub step_no: usize,
    pub stop: bool,
    resyncs: usize,
    resync_due: bool,
    /// the model has followed every placement and cancel since the book was empty
    pub exact: bool,
    touched: BTreeSet<i64>,
    catmemo: HashMap<Cat, (u64, bool)>,
    hist: u64,
    /// cost counters of the last call and the number of levels a swap walked
    pub last_cost: Cost,
}

/// most storage accesses seen, by the logarithm of the number of entries
macro_rules! by_log {
    ($k:literal) => {
        [
            concat!($k, "_log0"), concat!($k, "_log1"), concat!($k, "_log2"), concat!($k, "_log3"), concat!($k, "_log4"),
            concat!($k, "_log5"), concat!($k, "_log6"), concat!($k, "_log7"), concat!($k, "_log8"), concat!($k, "_log9"),
            concat!($k, "_log10"), concat!($k, "_log11"), concat!($k, "_log12"), concat!($k, "_log13"),
        ]
    };
}
static BY_CANCEL: [&str; 14] = by_log!("cancel_accesses");
static BY_CLAIM: [&str; 14] = by_log!("claim_accesses");

fn rel(cats: &[&str], c: &str) -> bool {
    cats.iter()
        .any(|p| c == *p || (c.starts_with(p) && c.as_bytes().get(p.len()) == Some(&b'.')))
}
pub fn cat_str(c: Cat) -> String {
    let mut s = c.0.to_string();
    for p in [c.1, c.2] {
        if !p.is_empty() {
            s.push('.');
            s.push_str(p);
        }
    }
    s
}

pub fn bits(x: u128) -> u64 {
    128 - x.leading_zeros() as u64
}
pub fn decade(t: i64) -> u64 {
    (t.div_euclid(9_000_000) + 40) as u64
}
#[macro_export]
macro_rules! sig {
    ($($x:expr),* $(,)?) => {{
        let mut h = 0x1234567u64;
        $( h = $crate::rng::comb(h, $x as u64); )*
        h
    }};
}

pub fn new_world() -> World {
    let mut w = World::default();
    for i in 0..10 {
        for d in [BASE, QUOTE] {
            w.bank.mint(&user(i), d, 1u128 << 124);
        }
        w.bank.mint(&user(i), OTHER, 1u128 << 60);
    }
    for d in [BASE, QUOTE] {
        w.bank.mint(WHALE, d, 1u128 << 126);
    }
    for a in [GOV, SUBDAO, FEE_RECIPIENT] {
        for d in [BASE, QUOTE, OTHER] {
            w.bank.mint(a, d, 1u128 << 60);
        }
    }
    w
}
pub fn inst_msg() -> String {
    format!(r#"{{"base_denom":"{BASE}","quote_denom":"{QUOTE}"}}"#)
}

impl Engine {
    pub fn new(flags: Flags, cats: &'static [&'static str], names: Option<Names>) -> Result<Self, String> {
        let mut w = new_world();
        w.names = names;
        let msg = inst_msg();
        let r = w.call(Call::Inst { sender: GOV, msg: &msg });
        if let Err(e) = r.r {
            return Err(format!("instantiate failed: {}", e.text()));
        }
        Ok(Self::with_world(w, flags, cats))
    }
    pub fn with_world(w: World, flags: Flags, cats: &'static [&'static str]) -> Self {
        Engine {
            w,
            m: Model::default(),
            st: Stats::default(),
            divs: vec![],
            flags,
            cats,
            labels: HashMap::new(),
            rev: HashMap::new(),
            step_no: 0,
            stop: false,
            resyncs: 0,
            resync_due: false,
            exact: true,
            touched: BTreeSet::new(),
            catmemo: HashMap::new(),
            hist: 7,
            last_cost: Cost::default(),
        }
    }

    /// One oracle evaluation. `nt`: signature when the case is non-trivial for its category.
    pub fn chk<F: FnOnce() -> String>(&mut self, c: Cat, ok: bool, nt: Option<u64>, d: F) -> bool {
        let cats = self.cats;
        let e = self
            .catmemo
            .entry(c)
            .or_insert_with(|| (0, rel(cats, &cat_str(c))));
        e.0 += 1;
        if e.1 {
            self.st.rel_evals += 1;
            if let Some(s) = nt {
                self.st
                    .distinct
                    .insert(comb(comb(hash_str(c.0), hash_str(c.1)), comb(hash_str(c.2), s)));
            }
        }
        if !ok {
            self.divs.push(Div {
                cat: cat_str(c),
                detail: d(),
                step: self.step_no,
            });
        }
        ok
    }
    pub fn relevant(&self, d: &Div) -> bool {
        rel(self.cats, &d.cat)
    }
    pub fn finish(&mut self) -> Stats {
        for (k, v) in self.catmemo.drain() {
            *self.st.evals.entry(cat_str(k)).or_default() += v.0;
        }
        self.st.histories = 1;
        std::mem::take(&mut self.st)
    }

    pub fn resolve(&self, r: &Ref) -> Option<(i64, u64)> {
        match r.label {
            Some(l) => {
                let (t, i) = self.labels.get(&l)?;
                Some((t.wrapping_add(r.tick), (*i as i64).wrapping_add(r.id) as u64))
            }
            None => Some((r.tick, r.id as u64)),
        }
    }

    /// Compare everything that is published with the model (used when starting from stored state).
    pub fn check_all(&mut self, _why: &'static str) {
        self.touched = self.m.levels.keys().copied().collect();
        let l = obs::all_ticks(&self.w).map(|v| v.iter().map(|t| t.tick_id).collect::<BTreeSet<_>>());
        let same = l.as_ref().map_or(false, |l| *l == self.touched);
        let n = self.touched.len();
        self.chk(("upgrade", "levels", ""), same, Some(n as u64), || format!("stored levels are {:?}", l));
        self.obs_levels();
        self.obs_pool();
        self.obs_ptr();
        self.check_roles();
        let ts: Vec<i64> = self.touched.iter().copied().collect();
        for t in ts {
            self.obs_fifo(t);
        }
        self.touched.clear();
    }

    fn tally(&mut self, kind: &'static str, r: &Result<TxOk, TxErr>) {
        let e = self.st.ops.entry(kind).or_default();
        match r {
            Ok(_) => e.0 += 1,
            Err(_) => e.1 += 1,
        }
    }

    /// Compare acceptance. Returns true when both accept.
    fn agree<T>(&mut self, kind: &'static str, exp: &Result<T, &'static str>, r: &Result<TxOk, TxErr>, sg: u64) -> bool {
        self.tally(kind, r);
        if let Err(TxErr::Panic(p)) = r {
            let p = p.clone();
            self.chk(("panic", kind, ""), false, None, || format!("{kind} panicked: {p}"));
        } else {
            self.chk(("panic", kind, ""), true, Some(sg), String::new);
        }
        if matches!(r, Err(TxErr::Gas)) {
            self.chk(("cost", kind, "runaway"), false, None, || format!("{kind} exhausted the storage budget"));
        }
        match (exp, r) {
            (Ok(_), Ok(_)) => {
                self.chk((kind, "reject", ""), true, Some(sg), String::new);
                true
            }
            (Ok(_), Err(e)) => {
                let t = e.text();
                self.chk((kind, "reject", ""), false, None, || format!("{kind} should succeed but was refused: {t}"));
                self.resync_due = true;
                false
            }
            (Err(reason), Ok(_)) => {
                let reason: &'static str = reason;
                self.chk((kind, "accept", reason), false, None, || {
                    format!("{kind} should be refused ({reason}) but was accepted")
                });
                self.resync_due = true;
                false
            }
            (Err(reason), Err(_)) => {
                *self.st.refusals.entry(format!("{kind}.{reason}")).or_default() += 1;
                self.chk((kind, "accept", reason), true, Some(sg), String::new);
                false
            }
        }
    }

    fn no_foreign(&mut self, kind: &'static str, ok: &TxOk) {
        let f = ok.foreign.clone();
        self.chk(("foreign", kind, ""), f.is_empty(), None, || format!("unexpected message: {:?}", f));
        let s = ok.swallowed;
        self.chk(("swallow", kind, ""), s == 0, None, || format!("{s} failed payout(s) were swallowed"));
    }

    pub fn step(&mut self, op: &Op) {
        self.touched.clear();
        let pre = if self.flags.iso || self.flags.solv {
            obs::snapshot(&self.w).ok()
        } else {
            None
        };
        let bank0 = if self.flags.iso || self.flags.solv { Some(self.w.bank.clone()) } else { None };
        let mut parties: BTreeSet<String> = BTreeSet::new();
        parties.insert(CONTRACT.into());
        let mut changed: BTreeSet<(i64, u64)> = BTreeSet::new();
        let mut committed = false;
        let mut swap_side: Option<(bool, i64)> = None;
        match op {
            Op::Place { who, tick, bid, qty, bounty, funds, label } => {
                parties.insert(who.clone());
                committed = self.do_place(who, *tick, *bid, qty.0, bounty.map(|b| b.0), &funds_raw(funds), *label);
                if committed {
                    if let Some(x) = self.labels.get(label) {
                        changed.insert(*x);
                    }
                }
            }
            Op::Cancel { who, r, funds } => {
                parties.insert(who.clone());
                if let Some((t, i)) = self.resolve(r) {
                    committed = self.do_cancel(who, t, i, &funds_raw(funds));
                    changed.insert((t, i));
                }
            }
            Op::Claim { who, r, funds } => {
                parties.insert(who.clone());
                parties.insert(self.m.recipient.clone());
                if let Some((t, i)) = self.resolve(r) {
                    if let Some(o) = self.m.order(t, i) {
                        parties.insert(o.owner.clone());
                    }
                    committed = self.do_claim(who, t, i, &funds_raw(funds));
                    changed.insert((t, i));
                }
            }
            Op::Batch { who, rs, funds } => {
                parties.insert(who.clone());
                parties.insert(self.m.recipient.clone());
                let v: Vec<(i64, u64)> = rs.iter().filter_map(|r| self.resolve(r)).collect();
                for x in &v {
                    if let Some(o) = self.m.order(x.0, x.1) {
                        parties.insert(o.owner.clone());
                    }
                    changed.insert(*x);
                }
                committed = self.do_batch(who, &v, &funds_raw(funds));
            }
            Op::Swap { sender, din, dout, amt, min_out, fee, target } => {
                parties.insert(sender.clone());
                let bid_side = din == BASE;
                swap_side = Some((bid_side, target.unwrap_or(if bid_side { MIN_TICK } else { MAX_TICK })));
                committed = self.do_swap(sender, din, dout, amt.0, min_out.0, fee.0, *target);
            }
            Op::Auth { who, a, funds } => {
                let mut m2 = self.m.clone();
                let exp = m2.auth(who, a);
                let r = self.w.exec(who, &funds_raw(funds), &a.json());
                self.last_cost = r.cost;
                if matches!(r.r, Err(TxErr::Unfunded)) {
                    return;
                }
                let sg = sig!(
                    hash_str(a.kind()),
                    hash_str(exp.as_ref().err().unwrap_or(&"")),
                    self.role_of(who),
                    self.m.active,
                    self.m.admin_offer.is_some(),
                    self.m.moder_offer.is_some(),
                    self.m.admin.is_some(),
                    matches!(a, AuthOp::SetFee(f) if *f > 0) as u64,
                );
                let kind: &'static str = "auth";
                if !self.m.active {
                    // liveness of role messages while paused is a property of its own
                    let ok = exp.is_err() || r.r.is_ok();
                    self.chk(("paused", "auth", ""), ok, Some(sg), || "role message refused while paused".into());
                }
                if self.agree(kind, &exp, &r.r, sg) {
                    self.m = m2;
                    let ok = r.r.as_ref().unwrap().clone();
                    let x = ok.agg();
                    self.chk(("xfer", "auth", ""), x.is_empty(), None, || format!("role message moved funds: {:?}", x));
                    self.no_foreign("auth", &ok);
                    if self.flags.events {
                        self.role_receipt(a.receipt(), &ok, sg);
                    }
                }
                committed = r.r.is_ok();
                self.check_roles();
            }
            Op::Sudo { a } => {
                let mut m2 = self.m.clone();
                let exp = m2.sudo(a);
                let r = self.w.sudo(None, &a.json());
                self.last_cost = r.cost;
                let sg = sig!(hash_str(a.kind()), exp.is_ok(), self.m.active, self.m.admin.is_some());
                if !self.m.active {
                    let ok = exp.is_err() || r.r.is_ok();
                    let t = r.r.as_ref().err().map(|e| e.text());
                    self.chk(("paused", "sudo", ""), ok, Some(sg), || {
                        format!("governance action {} refused while paused: {:?}", a.kind(), t)
                    });
                }
                if self.agree("sudo", &exp, &r.r, sg) {
                    self.m = m2;
                    if self.flags.events {
                        let ok = r.r.as_ref().unwrap().clone();
                        self.role_receipt(a.receipt(), &ok, sg);
                    }
                }
                committed = r.r.is_ok();
                self.check_roles();
            }
            Op::Block { who } => {
                self.w.blocked.insert(who.clone());
                self.m.blocked.insert(who.clone());
            }
            Op::Unblock { who } => {
                self.w.blocked.remove(who);
                self.m.blocked.remove(who);
            }
            Op::Time { dt } => {
                self.w.time = self.w.time.saturating_add(*dt).min(u64::MAX - 1_000_000_007 * 1_000_001);
                self.w.height += 1 + dt / 6_000_000_000;
            }
            Op::Age { orders, nodes } => self.age(*orders, *nodes),
            Op::Junk { kind, who, funds, msg } => self.do_junk(kind, who, funds, msg),
            Op::Migrate => {
                let r = self.w.call(Call::Migrate { msg: "{}" });
                self.last_cost = r.cost;
                self.agree::<()>("migrate", &Ok(()), &r.r, 1);
            }
            Op::Check { .. } => {}
        }
        // ---- observations after the step
        if self.flags.level && !self.touched.is_empty() {
            self.obs_levels();
        }
        if self.flags.pool {
            self.obs_pool();
        }
        if self.flags.ptr {
            self.obs_ptr();
        }
        if self.flags.fifo {
            let ts: Vec<i64> = self.touched.iter().copied().collect();
            for t in ts {
                self.obs_fifo(t);
            }
        }
        if self.flags.ledger {
            let ts: Vec<i64> = self.touched.iter().copied().collect();
            for t in ts {
                // long ledgers are judged now and then, and at the end
                let n = self.m.levels.get(&t).map_or(0, |l| l.ledger[0].len() + l.ledger[1].len());
                if n < 40 || self.step_no % (n / 10) == 0 {
                    self.obs_ledger(t);
                }
            }
        }
        if self.flags.iso || self.flags.solv {
            match (pre, obs::snapshot(&self.w)) {
                (Some(a), Ok(b)) => {
                    if self.flags.iso {
                        self.obs_iso(op, &a, &b, &changed, committed, swap_side);
                        self.obs_bank(bank0.as_ref().unwrap(), &parties, op);
                    }
                    if self.flags.solv {
                        self.obs_solv(&a, &b, bank0.as_ref().unwrap());
                    }
                }
                (Some(_), Err(e)) => {
                    self.chk(("obs", "snapshot", ""), false, None, || format!("book no longer readable: {e}"));
                }
                _ => {}
            }
        }
        if self.flags.liqsum {
            self.obs_liqsum();
        }
        if self.flags.roles && !matches!(op, Op::Auth { .. } | Op::Sudo { .. } | Op::Check { .. }) {
            self.check_roles();
        }
        // ---- bookkeeping for the evidence
        self.hist = comb(self.hist, hash_str(op.kind()));
        let lv = self.m.levels.values().filter(|l| !l.q[0].is_empty() || !l.q[1].is_empty()).count();
        self.st.max_orders = self.st.max_orders.max(self.m.n_orders);
        self.st.max_levels = self.st.max_levels.max(lv);
        if self.st.states.len() < 400_000 {
            let s = self.abstract_state();
            self.st.states.insert(s);
        }
        if self.resync_due {
            self.exact = false;
            self.resync();
        }
        self.step_no += 1;
    }

    /// Abstract book state: for every level the per-side pattern of open / partly / fully filled orders.
    fn abstract_state(&self) -> u64 {
        let mut h = sig!(self.m.active, self.m.fee > 0, self.m.admin.is_some());
        for (t, l) in &self.m.levels {
            for s in 0..2 {
                if l.q[s].is_empty() {
                    continue;
                }
                h = comb(h, sig!(decade(*t), s));
                for o in l.q[s].values() {
                    let k = if o.filled == 0 {
                        0
                    } else if o.filled < o.qty {
                        1
                    } else {
                        2
                    };
                    h = comb(h, sig!(k, (o.qty != o.placed)));
                }
            }
        }
        h
    }

    pub fn role_of(&self, who: &str) -> u64 {
        (self.m.admin.as_deref() == Some(who)) as u64
            | ((self.m.moder.as_deref() == Some(who)) as u64) << 1
            | ((self.m.admin_offer.as_deref() == Some(who)) as u64) << 2
            | ((self.m.moder_offer.as_deref() == Some(who)) as u64) << 3
            | ((self.m.recipient == who) as u64) << 4
    }

    // ------------------------------------------------------------------ place
    #[allow(clippy::too_many_arguments)]
    fn do_place(&mut self, who: &str, tick: i64, bid: bool, qty: u128, bounty: Option<u128>, funds: &[(String, u128)], label: u32) -> bool {
        let exp = self.m.check_place(tick, bid, qty, bounty, funds);
        let msg = serde_json::json!({"place_limit":{
            "tick_id":tick,"order_direction":if bid {"bid"} else {"ask"},
            "quantity":qty.to_string(),"claim_bounty":bounty.map(dec18)}})
        .to_string();
        let b0 = self.w.bank.get(CONTRACT, in_denom(bid));
        let r = self.w.exec(who, funds, &msg);
        self.last_cost = r.cost;
        if matches!(r.r, Err(TxErr::Unfunded)) {
            return false;
        }
        let sg = sig!(
            hash_str(exp.as_ref().err().unwrap_or(&"")),
            bid,
            decade(tick.clamp(MIN_TICK - 1, MAX_TICK + 1)),
            bits(qty),
            bounty.map_or(0, |b| 1 + bits(b)),
            funds.len(),
        );
        let live = self.m.levels.get(&tick).map_or(0, |l| l.q[bid as usize].len());
        let good = self.agree("place", &exp, &r.r, sg);
        if r.r.is_ok() {
            self.touched.insert(tick);
        }
        if !good {
            return r.r.is_ok();
        }
        let ok = r.r.unwrap();
        self.no_foreign("place", &ok);
        self.cost_check("place", r.cost, live, 0);
        let x = ok.agg();
        self.chk(("xfer", "place", ""), x.is_empty(), Some(sg), || format!("placing moved funds out: {:?}", x));
        let b1 = self.w.bank.get(CONTRACT, in_denom(bid));
        self.chk(("escrow", "place", ""), b1 - b0 == qty, Some(sg), || format!("escrowed {} for an order of {}", b1 - b0, qty));
        // find the new order through the queries
        let last = self.m.last_id;
        let attr_id: Option<u64> = ok.attr("order_id").and_then(|s| s.parse().ok());
        let mut found: Vec<obs::OrderRec> = vec![];
        match obs::orders_by_tick(&self.w, tick, last.map(|l| l + 1), None, None) {
            Ok(v) => found = v.orders,
            Err(e) => {
                self.chk(("obs", "order", ""), false, None, || format!("orders at {tick} not readable: {e}"));
            }
        }
        if found.len() != 1 {
            // fall back to a full listing
            if let Ok(v) = obs::orders_by_tick(&self.w, tick, None, None, None) {
                found = v
                    .orders
                    .into_iter()
                    .filter(|o| self.m.order(tick, o.order_id).is_none())
                    .collect();
            }
        }
        let n = found.len();
        if !self.chk(("id", "one", ""), n == 1, Some(sg), || {
            format!("placing at {tick} produced {n} new orders (reported id {:?})", attr_id)
        }) {
            self.resync_due = true;
            return true;
        }
        let rec = found.pop().unwrap();
        let id = rec.order_id;
        let fresh = last.map_or(true, |l| id > l);
        self.chk(("id", "fresh", ""), fresh, Some(sig!(live.min(20), decade(tick), bid)), || {
            format!("new order id {id} is not greater than every earlier id (last {:?})", last)
        });
        self.labels.insert(label, (tick, id));
        self.rev.insert((tick, id), label);
        let o = MOrder {
            tick,
            id,
            bid,
            owner: who.to_string(),
            qty,
            filled: 0,
            bounty,
            placed: qty,
            at: self.w.time,
        };
        self.cmp_rec(&o, &rec, "place");
        if self.flags.events {
            for (k, v) in [
                ("method", "placeLimit".to_string()),
                ("owner", who.to_string()),
                ("tick_id", tick.to_string()),
                ("order_id", id.to_string()),
                ("order_direction", if bid { "bid" } else { "ask" }.to_string()),
                ("quantity", qty.to_string()),
                ("order_denom", in_denom(bid).to_string()),
                ("output_denom", out_denom(bid).to_string()),
            ] {
                self.ev("place", &ok.attrs, k, &v, sg);
            }
        }
        self.m.apply_place(o);
        let ql = self.m.levels[&tick].q[bid as usize].len();
        self.st.max_queue = self.st.max_queue.max(ql);
        true
    }

    fn ev(&mut self, what: &'static str, attrs: &[(String, String)], k: &'static str, v: &str, sg: u64) {
        let got = attrs.iter().find(|(a, _)| a == k).map(|(_, v)| v.clone());
        let ok = got.as_deref() == Some(v);
        self.chk(("receipt", what, k), ok, Some(sg), || format!("receipt field {k} is {:?}, expected {v}", got));
    }

    fn role_receipt(&mut self, want: (&'static str, Option<(&'static str, String)>), ok: &TxOk, sg: u64) {
        self.ev("role", &ok.attrs, "method", want.0, sg);
        if let Some((k, v)) = want.1 {
            if k == "maker_fee" {
                let got = ok.attr(k).map(parse_dec);
                let ex = parse_dec(&v);
                self.chk(("receipt", "role", k), got == Some(ex) && ex.is_some(), Some(sg), || format!("receipt field {k} is {:?}, expected {v}", got));
            } else {
                self.ev("role", &ok.attrs, k, &v, sg);
            }
        }
    }

    /// Stored record against the model; immutable fields and remaining quantity are separate categories.
    fn cmp_rec(&mut self, o: &MOrder, r: &obs::OrderRec, whence: &'static str) {
        let sg = sig!(o.bid, bits(o.qty), o.qty != o.placed, o.bounty.is_some(), decade(o.tick), hash_str(whence));
        let b = r.claim_bounty.as_ref().map(|s| parse_dec(s));
        let eb = o.bounty.map(|b| Some(u(b)));
        let same = r.tick_id == o.tick
            && r.order_id == o.id
            && r.bid() == o.bid
            && r.owner == o.owner
            && b == eb
            && r.placed_quantity == o.placed.to_string()
            && r.placed_at == o.at.to_string();
        self.chk(("rec", "fixed", ""), same, Some(sg), || format!("order record {:?} differs from placed order {:?}", r, o));
        let q = r.quantity == o.qty.to_string();
        self.chk(("rec", "qty", ""), q, Some(sg), || {
            format!("order {}/{} shows quantity {} expected {}", o.tick, o.id, r.quantity, o.qty)
        });
    }

    // ------------------------------------------------------------------ cancel
    fn do_cancel(&mut self, who: &str, tick: i64, id: u64, funds: &[(String, u128)]) -> bool {
        let exp = self.m.check_cancel(who, tick, id, funds);
        let msg = serde_json::json!({"cancel_limit":{"tick_id":tick,"order_id":id}}).to_string();
        let r = self.w.exec(who, funds, &msg);
        self.last_cost = r.cost;
        if matches!(r.r, Err(TxErr::Unfunded)) {
            return false;
        }
        let mo = self.m.order(tick, id).cloned();
        let lv = self.m.levels.get(&tick).cloned().unwrap_or_default();
        let s = mo.as_ref().map_or(0, |o| o.bid as usize);
        let pos = lv.q[s].keys().position(|k| *k == id).unwrap_or(0);
        let sg = sig!(
            hash_str(exp.as_ref().err().unwrap_or(&"")),
            s,
            pos.min(30),
            lv.q[s].len().min(40),
            lv.cancels[s].min(40),
            lv.swaps[s].min(10),
            mo.as_ref().map_or(0, |o| (o.qty != o.placed) as u64),
        );
        let prior = lv.cancels[s] as usize + lv.q[s].len();
        let good = self.agree("cancel", &exp, &r.r, sg);
        if r.r.is_ok() {
            self.touched.insert(tick);
        }
        if !good {
            return r.r.is_ok();
        }
        let ok = r.r.unwrap();
        let o = exp.unwrap();
        self.no_foreign("cancel", &ok);
        self.cost_check("cancel", r.cost, prior, 0);
        let mut want = BTreeMap::new();
        want.insert((o.owner.clone(), in_denom(o.bid).to_string()), u(o.qty));
        let got = ok.agg();
        self.chk(("refund", "", ""), got == want, Some(sg), || {
            format!("cancel of {}/{} refunded {:?}, expected {:?}", tick, id, got, want)
        });
        let gone = matches!(obs::order(&self.w, tick, id), Ok(None));
        self.chk(("rec", "gone", "cancel"), gone, Some(sg), || format!("order {tick}/{id} still listed after cancel"));
        if self.flags.events {
            for (k, v) in [
                ("method", "cancelLimit".to_string()),
                ("owner", who.to_string()),
                ("tick_id", tick.to_string()),
                ("order_id", id.to_string()),
                ("quantity", o.qty.to_string()),
                ("order_direction", if o.bid { "bid" } else { "ask" }.to_string()),
                ("initial_quantity", o.placed.to_string()),
                ("order_denom", in_denom(o.bid).to_string()),
                ("output_denom", out_denom(o.bid).to_string()),
            ] {
                self.ev("cancel", &ok.attrs, k, &v, sg);
            }
        }
        self.m.apply_cancel(tick, id);
        if !gone {
            self.resync_due = true;
        }
        true
    }

    // ------------------------------------------------------------------ claim
    fn claim_sig(&self, o: &MOrder, who: &str) -> u64 {
        let lv = &self.m.levels[&o.tick];
        let s = o.bid as usize;
        let pos = lv.q[s].keys().position(|k| *k == o.id).unwrap_or(0);
        sig!(
            s,
            decade(o.tick),
            bits(o.filled) / 4,
            o.filled == o.qty,
            o.qty != o.placed,
            pos.min(10),
            lv.cancels[s].min(12),
            o.bounty.map_or(0, |b| 1 + (b > 0) as u64),
            (self.m.fee > 0) as u64,
            (who == o.owner) as u64,
            (who == self.m.recipient) as u64,
        )
    }

    /// Payout rules, judged on the quantity that actually left the order(s).
    fn check_payout(&mut self, who: &str, items: &[(MOrder, u128)], ok: &TxOk, sg: u64, kind: &'static str) {
        let fee = self.m.fee;
        let rcp = self.m.recipient.clone();
        let mut owner: BTreeMap<(String, String), Uint256> = BTreeMap::new();
        let mut bnt: BTreeMap<(String, String), Uint256> = BTreeMap::new();
        let mut feem: BTreeMap<(String, String), Uint256> = BTreeMap::new();
        let mut raws: BTreeMap<String, Uint256> = BTreeMap::new();
        for (o, d) in items {
            let raw = maker_value(o.bid, *d, o.tick);
            let (b, f, a) = split(raw, o.bounty, fee);
            let dn = out_denom(o.bid).to_string();
            *raws.entry(dn.clone()).or_default() += raw;
            *owner.entry((o.owner.clone(), dn.clone())).or_default() += a;
            *bnt.entry((who.to_string(), dn.clone())).or_default() += b;
            *feem.entry((rcp.clone(), dn)).or_default() += f;
        }
        let got = ok.agg();
        let mut tot: BTreeMap<String, Uint256> = BTreeMap::new();
        for ((_, d), v) in &got {
            *tot.entry(d.clone()).or_default() += *v;
        }
        raws.retain(|_, v| !v.is_zero());
        self.chk(("pay", "total", kind), tot == raws, Some(sg), || {
            format!("claim paid out {:?} in total, fills are worth {:?}", tot, raws)
        });
        let z = Uint256::zero();
        let mut keys: BTreeSet<(String, String)> = got.keys().cloned().collect();
        keys.extend(owner.keys().cloned());
        keys.extend(bnt.keys().cloned());
        keys.extend(feem.keys().cloned());
        for k in keys {
            let (o, b, f) = (
                owner.get(&k).copied().unwrap_or(z),
                bnt.get(&k).copied().unwrap_or(z),
                feem.get(&k).copied().unwrap_or(z),
            );
            let g = got.get(&k).copied().unwrap_or(z);
            let cat = if owner.contains_key(&k) {
                "owner"
            } else if !f.is_zero() {
                "fee"
            } else if !b.is_zero() {
                "bounty"
            } else {
                "stray"
            };
            self.chk(("pay", cat, kind), g == o + b + f, Some(sg), || {
                format!("{:?} received {g}, expected {o} (proceeds) + {b} (bounty) + {f} (maker fee)", k)
            });
        }
    }

    fn do_claim(&mut self, who: &str, tick: i64, id: u64, funds: &[(String, u128)]) -> bool {
        let exp = self.m.check_claim(who, tick, id, funds);
        let mo = self.m.order(tick, id).cloned();
        let pre = obs::order(&self.w, tick, id).ok().flatten();
        let msg = serde_json::json!({"claim_limit":{"tick_id":tick,"order_id":id}}).to_string();
        let r = self.w.exec(who, funds, &msg);
        self.last_cost = r.cost;
        if matches!(r.r, Err(TxErr::Unfunded)) {
            return false;
        }
        let sg = mo.as_ref().map_or(hash_str(exp.as_ref().err().unwrap_or(&"")), |o| {
            comb(self.claim_sig(o, who), hash_str(exp.as_ref().err().unwrap_or(&"")))
        });
        let prior = self.m.levels.get(&tick).map_or(0, |l| {
            (l.cancels[0].max(l.cancels[1])) as usize + l.q[0].len() + l.q[1].len()
        });
        let good = self.agree("claim", &exp, &r.r, sg);
        if r.r.is_ok() {
            self.touched.insert(tick);
        }
        let ok = match &r.r {
            Ok(ok) => ok.clone(),
            Err(_) => return false,
        };
        self.no_foreign("claim", &ok);
        let post = obs::order(&self.w, tick, id).ok().flatten();
        if let (Some(pre), Some(mo)) = (&pre, &mo) {
            // payout against what was observably taken from the order
            let d = pre.qty().saturating_sub(post.as_ref().map_or(0, |p| p.qty()));
            let grew = post.as_ref().map_or(false, |p| p.qty() > pre.qty());
            self.chk(("rec", "shrink", "claim"), !grew, None, || format!("claim increased the quantity of {tick}/{id}"));
            self.check_payout(who, &[(mo.clone(), d)], &ok, sg, "claim");
            if good {
                let p = exp.as_ref().unwrap();
                let f = p.fill;
                self.cost_check("claim", r.cost, prior, 0);
                if !self.chk(("fill", "claim", ""), d == f, Some(sg), || {
                    format!("claim of {tick}/{id} realised {d}, time priority gives it {f}")
                }) {
                    self.resync_due = true;
                }
                let left = pre.qty() - d.min(pre.qty());
                let right = (left == 0) == post.is_none();
                self.chk(("rec", "gone", "claim"), right, Some(sg), || {
                    format!("after claiming {d} of {}, order {tick}/{id} is {:?}", pre.qty(), post)
                });
                if let Some(p) = &post {
                    let mut o2 = mo.clone();
                    o2.qty -= d.min(o2.qty);
                    self.cmp_rec(&o2, p, "claim");
                }
                if self.flags.events {
                    let fully = mo.qty == f;
                    self.claim_event(&ok, who, mo, mo.qty - f, p.owner_amt, fully, sg);
                }
                self.m.apply_claim(tick, id);
            }
        }
        true
    }

    #[allow(clippy::too_many_arguments)]
    fn claim_event(&mut self, ok: &TxOk, who: &str, o: &MOrder, rem: u128, amt: Uint256, fully: bool, sg: u64) {
        let evs: Vec<Vec<(String, String)>> = ok
            .events
            .iter()
            .filter(|(ty, at)| {
                ty == "limitClaimed"
                    && at.iter().any(|(k, v)| k == "order_id" && *v == o.id.to_string())
                    && at.iter().any(|(k, v)| k == "tick_id" && *v == o.tick.to_string())
            })
            .map(|(_, a)| a.clone())
            .collect();
        let n = evs.len();
        self.chk(("receipt", "claim", "one"), n == 1, Some(sg), || {
            format!("{n} claim receipts for order {}/{}", o.tick, o.id)
        });
        if n != 1 {
            return;
        }
        for (k, v) in [
            ("sender", who.to_string()),
            ("owner", o.owner.clone()),
            ("quantity_remaining", rem.to_string()),
            ("order_direction", if o.bid { "bid" } else { "ask" }.to_string()),
            ("amount_claimed", amt.to_string()),
            ("placed_quantity", o.placed.to_string()),
            ("fully_claimed", fully.to_string()),
            ("order_denom", in_denom(o.bid).to_string()),
            ("output_denom", out_denom(o.bid).to_string()),
        ] {
            self.ev("claim", &evs[0], k, &v, sg);
        }
    }

    // ------------------------------------------------------------------ batch
    fn do_batch(&mut self, who: &str, v: &[(i64, u64)], funds: &[(String, u128)]) -> bool {
        // expected: process claims one after another, failing entries skipped
        let mut m2 = self.m.clone();
        let mut exp: Result<Vec<(MOrder, ClaimPlan)>, &'static str> = Ok(vec![]);
        if !self.m.active {
            exp = Err("inactive");
        } else if !funds.is_empty() {
            exp = Err("funds");
        } else if v.len() > MAX_BATCH {
            exp = Err("toolong");
        } else {
            let mut unpaid = false;
            let list = exp.as_mut().unwrap();
            let z = Uint256::zero();
            let mut seen = BTreeSet::new();
            for (t, i) in v {
                let o = match m2.order(*t, *i) {
                    Some(o) if o.filled > 0 => o.clone(),
                    _ => continue,
                };
                if !seen.insert((*t, *i)) {
                    continue;
                }
                let p = m2.claim_plan(&o, o.filled);
                if (p.owner_amt > z && !m2.can_receive(&o.owner))
                    || (p.bounty > z && !m2.can_receive(who))
                    || (p.fee > z && !m2.can_receive(&m2.recipient))
                {
                    unpaid = true;
                }
                m2.apply_claim(*t, *i);
                list.push((o, p));
            }
            if unpaid {
                exp = Err("payout");
            }
        }
        let uniq: BTreeSet<(i64, u64)> = v.iter().copied().collect();
        let pre: BTreeMap<(i64, u64), Option<obs::OrderRec>> = uniq
            .iter()
            .map(|k| (*k, obs::order(&self.w, k.0, k.1).ok().flatten()))
            .collect();
        let msg = serde_json::json!({"batch_claim":{"orders":v}}).to_string();
        let r = self.w.exec(who, funds, &msg);
        self.last_cost = r.cost;
        if matches!(r.r, Err(TxErr::Unfunded)) {
            return false;
        }
        let nclaim = exp.as_ref().map_or(0, |l| l.len());
        let sg = sig!(
            hash_str(exp.as_ref().err().unwrap_or(&"")),
            v.len().min(120),
            nclaim.min(40),
            uniq.len() != v.len(),
            self.m.fee > 0,
        );
        let good = self.agree("batch", &exp, &r.r, sg);
        let ok = match &r.r {
            Ok(ok) => ok.clone(),
            Err(_) => return false,
        };
        for (t, _) in &uniq {
            self.touched.insert(*t);
        }
        self.no_foreign("batch", &ok);
        let mut items = vec![];
        let mut obsd: BTreeMap<(i64, u64), u128> = BTreeMap::new();
        for (k, p) in &pre {
            if let Some(p) = p {
                let post = obs::order(&self.w, k.0, k.1).ok().flatten();
                let d = p.qty().saturating_sub(post.as_ref().map_or(0, |p| p.qty()));
                if d > 0 {
                    obsd.insert(*k, d);
                    if let Some(o) = self.m.order(k.0, k.1) {
                        items.push((o.clone(), d));
                    }
                }
            }
        }
        self.check_payout(who, &items, &ok, sg, "batch");
        if good {
            let list = exp.unwrap();
            let want: BTreeMap<(i64, u64), u128> = list.iter().map(|(o, p)| ((o.tick, o.id), p.fill)).collect();
            if !self.chk(("fill", "batch", ""), want == obsd, Some(sg), || {
                format!("batch realised {:?}, expected {:?}", obsd, want)
            }) {
                self.resync_due = true;
            }
            if self.flags.events {
                self.ev("batch", &ok.attrs, "method", "batchClaimLimit", sg);
                self.ev("batch", &ok.attrs, "sender", who, sg);
                for (o, p) in &list {
                    self.claim_event(&ok, who, o, o.qty - p.fill, p.owner_amt, o.qty == p.fill, sg);
                }
                let n = ok.events.iter().filter(|e| e.0 == "limitClaimed").count();
                self.chk(("receipt", "claim", "count"), n == list.len(), Some(sg), || {
                    format!("{n} claim receipts for {} claimed orders", list.len())
                });
            }
            self.m = m2;
        }
        true
    }

    // ------------------------------------------------------------------ swap
    #[allow(clippy::too_many_arguments)]
    fn do_swap(&mut self, sender: &str, din: &str, dout: &str, amt: u128, min_out: u128, fee: u128, target: Option<i64>) -> bool {
        let exp = self.m.check_swap(sender, din, dout, amt, min_out, fee == 0, target);
        let tok = serde_json::json!({"denom":din,"amount":amt.to_string()});
        let msg = match target {
            None => serde_json::json!({"swap_exact_amount_in":{"sender":sender,"token_in":tok,"token_out_denom":dout,
                "token_out_min_amount":min_out.to_string(),"swap_fee":dec18(fee)}}),
            Some(t) => serde_json::json!({"swap_to_tick":{"sender":sender,"token_in":tok,"token_out_denom":dout,
                "token_out_min_amount":min_out.to_string(),"swap_fee":dec18(fee),"target_tick":t}}),
        }
        .to_string();
        let pre = obs::all_ticks(&self.w).unwrap_or_default();
        // the chain moves the input first; an unusable sender is funded by somebody else
        let payer = if self.w.bank.get(sender, din) >= amt { sender } else { WHALE };
        let r = self.w.sudo(Some((payer, din, amt)), &msg);
        self.last_cost = r.cost;
        if matches!(r.r, Err(TxErr::Unfunded)) {
            return false;
        }
        let bid_side = din == BASE;
        let plan = exp.as_ref().ok();
        let sg = sig!(
            hash_str(exp.as_ref().err().unwrap_or(&"")),
            bid_side,
            target.is_some(),
            plan.map_or(0, |p| p.fills.len().min(12)),
            plan.map_or(0, |p| (p.dust > 0) as u64),
            plan.map_or(0, |p| (p.refund > 0) as u64),
            plan.map_or(0, |p| p.fills.last().map_or(0, |f| (self.m.levels[&f.0].liq[bid_side as usize] == f.1) as u64)),
            plan.and_then(|p| p.last).map_or(0, decade),
            bits(amt) / 6,
            (min_out > 0) as u64,
        );
        let good = self.agree("swap", &exp, &r.r, sg);
        let ok = match &r.r {
            Ok(ok) => ok.clone(),
            Err(_) => return false,
        };
        for t in self.m.levels.keys().copied().collect::<Vec<_>>() {
            self.touched.insert(t);
        }
        self.no_foreign("swap", &ok);
        let got = ok.agg();
        let z = Uint256::zero();
        let gout = got.get(&(sender.to_string(), dout.to_string())).copied().unwrap_or(z);
        let gref = got.get(&(sender.to_string(), din.to_string())).copied().unwrap_or(z);
        // facts that need no model
        self.chk(("swap", "minout", ""), gout >= u(min_out), Some(sg), || {
            format!("swap delivered {gout}, minimum was {min_out}")
        });
        self.chk(("swap", "nonzero", ""), gout > z, Some(sg), || "swap delivered nothing".to_string());
        let data: Option<Uint256> = ok.data.as_ref().and_then(|d| {
            let v: serde_json::Value = serde_json::from_slice(d).ok()?;
            v.get("token_out_amount")?.as_str()?.parse().ok()
        });
        self.chk(("swap", "data", ""), data == Some(gout), Some(sg), || {
            format!("swap reported {:?} but delivered {gout}", data)
        });
        let stray: Vec<_> = got.keys().filter(|(a, d)| a != sender || (d != din && d != dout)).cloned().collect();
        self.chk(("swap", "stray", ""), stray.is_empty(), Some(sg), || format!("swap also paid {:?}", stray));
        let over = gref > u(amt);
        self.chk(("swap", "refundcap", ""), !over, Some(sg), || format!("refund {gref} exceeds input {amt}"));
        let post = obs::all_ticks(&self.w).unwrap_or_default();
        let liq = |v: &Vec<obs::TickRec>| -> BTreeMap<i64, u128> {
            v.iter()
                .filter_map(|t| t.tick_state.liq(bid_side).map(|l| (t.tick_id, l)))
                .collect()
        };
        let (l0, l1) = (liq(&pre), liq(&post));
        let mut fills: BTreeMap<i64, u128> = BTreeMap::new();
        for (t, a) in &l0 {
            let b = l1.get(t).copied().unwrap_or(0);
            if b != *a {
                fills.insert(*t, a.wrapping_sub(b));
            }
        }
        if let Some(t) = target {
            let beyond = fills.keys().any(|k| if bid_side { *k < t } else { *k > t });
            self.chk(("swap", "beyond", ""), !beyond, Some(sg), || {
                format!("swap to tick {t} traded at {:?}", fills.keys().collect::<Vec<_>>())
            });
        }
        // model-free: output equals liquidity removed
        let sum: Uint256 = fills.values().fold(z, |a, b| a + u(*b));
        self.chk(("swap", "taken", ""), sum == gout, Some(sg), || {
            format!("swap delivered {gout} but removed {sum} of liquidity")
        });
        if !good {
            return true;
        }
        let p = exp.unwrap();
        self.cost_check("swap", r.cost, self.m.levels.len(), self.span(&p, target));
        let o = self.chk(("swap", "out", ""), gout == p.out, Some(sg), || {
            format!("swap of {amt}{din} delivered {gout}, price-priority execution delivers {}", p.out)
        });
        let want: BTreeMap<i64, u128> = p.fills.iter().map(|f| (f.0, f.1)).collect();
        let nt = if p.fills.len() > 1 { Some(sg) } else { None };
        let f = self.chk(("swap", "fills", ""), fills == want, nt, || {
            format!("swap filled {:?}, price priority fills {:?}", fills, want)
        });
        let paid = u(amt) - gref.min(u(amt));
        self.chk(("swap", "under", ""), paid >= u(p.cost), Some(sg), || {
            format!("taker paid {paid}, the fills cost {}", p.cost)
        });
        // unspent input comes back, except a remainder too small to buy one unit at the price reached
        let rest = p.dust + p.refund;
        let dusty = p
            .fills
            .last()
            .map_or(true, |f| taker_out(bid_side, rest, f.0).is_zero());
        let cap = if p.dust > 0 || dusty { p.cost + rest } else { p.cost };
        let need_refund = Some(sg).filter(|_| rest > 0);
        self.chk(("swap", "over", ""), paid <= u(cap), need_refund, || {
            format!("taker paid {paid} for fills costing {} (unspent {rest})", p.cost)
        });
        if self.flags.events {
            for (k, v) in [
                ("sender", sender.to_string()),
                ("token_in", format!("{amt}{din}")),
                ("token_out_denom", dout.to_string()),
                ("output_quantity", gout.to_string()),
            ] {
                self.ev("swap", &ok.attrs, k, &v, sg);
            }
        }
        if o && f {
            self.m.apply_swap(&p);
        } else {
            self.resync_due = true;
        }
        true
    }

    /// number of levels (with or without liquidity) the book holds between the best price and where the swap ends
    fn span(&self, p: &SwapPlan, target: Option<i64>) -> usize {
        let full = target.is_none();
        let _ = full;
        if p.bid_side {
            let end = p.last.unwrap_or(MIN_TICK);
            self.m.levels.keys().filter(|t| **t >= end && **t <= self.m.best_bid).count()
        } else {
            let end = p.last.unwrap_or(MAX_TICK);
            self.m.levels.keys().filter(|t| **t <= end && **t >= self.m.best_ask).count()
        }
    }

    // ------------------------------------------------------------------ cost
    fn cost_check(&mut self, kind: &'static str, c: Cost, n: usize, span: usize) {
        if !self.flags.cost {
            return;
        }
        let t = c.total();
        let lg = 64 - ((n + 2) as u64).leading_zeros() as u64;
        let (bound, key): (u64, &'static str) = match kind {
            "place" => (40, "max_place_accesses"),
            "cancel" => (80 + 24 * lg, "max_cancel_accesses"),
            "claim" => (45 + 10 * lg, "max_claim_accesses"),
            // two more levels than the ones traded at are touched at most (look-ahead), each in constant work;
            // levels without liquidity further on are only enumerated
            _ => (60 + 12 * (span as u64 + 2) + 3 * n as u64, "max_swap_accesses"),
        };
        self.st.maxi(key, t);
        let by = match kind {
            "cancel" => Some(&BY_CANCEL),
            "claim" => Some(&BY_CLAIM),
            _ => None,
        };
        if let Some(b) = by {
            self.st.maxi(b[(lg as usize).min(13)], t);
        }
        let nt = if n >= 8 || span >= 3 { Some(sig!(bits(n as u128), span.min(40), t / 4)) } else { None };
        self.chk(("cost", kind, ""), t <= bound, nt, || {
            format!("{kind} used {t} storage accesses ({:?}) with {n} orders/levels and span {span}; allowed {bound}", c)
        });
    }

    // ------------------------------------------------------------------ roles
    pub fn check_roles(&mut self) {
        if !self.flags.roles {
            return;
        }
        let sg = sig!(
            self.m.admin.is_some(),
            self.m.admin_offer.is_some(),
            self.m.moder_offer.is_some(),
            self.m.active,
            bits(self.m.fee)
        );
        for (k, exp) in [
            ("admin", self.m.admin.clone()),
            ("admin_offer", self.m.admin_offer.clone()),
            ("moderator", self.m.moder.clone()),
            ("moderator_offer", self.m.moder_offer.clone()),
        ] {
            let got = obs::auth(&self.w, k);
            self.chk(("roles", k, ""), got.as_ref().ok() == Some(&exp), Some(sg), || {
                format!("{k} is {:?}, expected {:?}", got, exp)
            });
        }
        let a = obs::active(&self.w);
        let ea = self.m.active;
        self.chk(("roles", "active", ""), a == Ok(ea), Some(sg), || format!("active is {:?}, expected {ea}", a));
        let f = obs::maker_fee(&self.w);
        let ef = u(self.m.fee);
        self.chk(("roles", "fee", ""), f == Ok(ef), Some(sg), || format!("maker fee is {:?}, expected {ef}", f));
        self.chk(("feecap", "", ""), f.as_ref().map_or(false, |f| *f <= u(MAX_FEE)), Some(sg), || {
            format!("maker fee {:?} above the cap", f)
        });
    }

    // ------------------------------------------------------------------ junk
    fn do_junk(&mut self, kind: &str, who: &str, funds: &Funds, msg: &str) {
        let sg = hash_str(msg);
        match kind {
            "query" => {
                let r = self.w.query(msg);
                let bad = match &r {
                    Err(TxErr::Panic(p)) => Some(p.clone()),
                    Err(TxErr::Gas) => Some("runaway".into()),
                    _ => None,
                };
                self.chk(("panic", "query", ""), bad.is_none(), Some(sg), || {
                    format!("query {msg} aborted: {:?}", bad)
                });
            }
            _ => {
                let mut w = self.w.fork();
                let f = funds_raw(funds);
                let r = if kind == "exec" {
                    w.exec(who, &f, msg)
                } else {
                    let pay = f.first().map(|x| (WHALE, x.0.as_str(), x.1));
                    w.sudo(pay, msg)
                };
                let bad = match &r.r {
                    Err(TxErr::Panic(p)) => Some(p.clone()),
                    Err(TxErr::Gas) => Some("runaway".into()),
                    _ => None,
                };
                let k: &'static str = if kind == "exec" { "exec" } else { "sudo" };
                self.chk(("panic", k, ""), bad.is_none(), Some(sg), || format!("{msg} aborted: {:?}", bad));
            }
        }
    }

    // ------------------------------------------------------------------ observations
    fn obs_levels(&mut self) {
        let ts: Vec<i64> = self.touched.iter().copied().filter(|t| self.m.levels.contains_key(t)).collect();
        let got = match obs::ticks_by_id(&self.w, &ts) {
            Ok(v) => v,
            Err(e) => {
                self.chk(("obs", "ticks", ""), false, None, || format!("levels {:?} not readable: {e}", ts));
                return;
            }
        };
        for t in got {
            let lv = self.m.levels[&t.tick_id].clone();
            for s in 0..2 {
                let g = t.tick_state.liq(s == 1);
                let e = lv.liq[s];
                let sg = sig!(s, lv.q[s].len().min(20), lv.cancels[s].min(20), lv.swaps[s].min(20), bits(e) / 4);
                self.chk(("lvl", "liq", ""), g == Some(e), Some(sg), || {
                    format!("level {} side {} shows liquidity {:?}, expected {e}", t.tick_id, ["ask", "bid"][s], g)
                });
            }
            match obs::orders_by_tick(&self.w, t.tick_id, None, None, None) {
                Ok(r) => {
                    let ids: BTreeSet<u64> = r.orders.iter().map(|o| o.order_id).collect();
                    let exp: BTreeSet<u64> = lv.q[0].keys().chain(lv.q[1].keys()).copied().collect();
                    let sg = sig!(ids.len().min(40));
                    let same = ids == exp && r.orders.len() == exp.len();
                    self.chk(("rec", "set", ""), same, Some(sg), || {
                        format!("level {} lists orders {:?}, expected {:?}", t.tick_id, ids, exp)
                    });
                    for rec in &r.orders {
                        if let Some(o) = lv.q[0].get(&rec.order_id).or_else(|| lv.q[1].get(&rec.order_id)) {
                            self.cmp_rec(&o.clone(), rec, "later");
                        }
                    }
                }
                Err(e) => {
                    self.chk(("obs", "order", ""), false, None, || format!("orders at {} not readable: {e}", t.tick_id));
                }
            }
        }
    }

    fn obs_pool(&mut self) {
        let g = obs::pool(&self.w);
        let e = (self.m.pool[0], self.m.pool[1]);
        let sg = sig!(bits(e.0), bits(e.1));
        self.chk(("pool", "", ""), g.as_ref().ok() == Some(&e), Some(sg), || {
            format!("total pool liquidity is {:?}, resting orders add up to {:?}", g, e)
        });
    }

    fn obs_ptr(&mut self) {
        let (eb, ea) = (self.m.best_bid, self.m.best_ask);
        let g = obs::book(&self.w);
        let sg = sig!(decade(eb), decade(ea), self.m.levels.len().min(20), hash_str(&format!("{}{}", eb, ea)) % 64);
        match g {
            Ok(b) => {
                let bd = b.next_bid_tick;
                let ak = b.next_ask_tick;
                self.chk(("ptr", "bid", ""), bd == eb, Some(sg), || format!("best bid tick {bd}, expected {eb}"));
                self.chk(("ptr", "ask", ""), ak == ea, Some(sg), || format!("best ask tick {ak}, expected {ea}"));
                // model-free: no resting liquidity is beyond the pointer
                if let Ok(ts) = obs::all_ticks(&self.w) {
                    let hid: Vec<i64> = ts
                        .iter()
                        .filter(|t| {
                            (t.tick_id > bd && t.tick_state.liq(true) != Some(0))
                                || (t.tick_id < ak && t.tick_state.liq(false) != Some(0))
                        })
                        .map(|t| t.tick_id)
                        .collect();
                    self.chk(("ptr", "hides", ""), hid.is_empty(), Some(sg), || {
                        format!("liquidity at {:?} lies outside the best prices {bd}/{ak}", hid)
                    });
                }
                let s1 = obs::spot(&self.w, QUOTE, BASE);
                let e1 = u(atomics(bd.clamp(MIN_TICK, MAX_TICK)));
                self.chk(("spot", "sell", ""), s1 == Ok(e1), Some(sg), || format!("spot price {:?}, tick {bd} is {e1}", s1));
                let s2 = obs::spot(&self.w, BASE, QUOTE);
                let e2 = u(ONE18) * u(ONE18) / u(atomics(ak.clamp(MIN_TICK, MAX_TICK)));
                self.chk(("spot", "buy", ""), s2 == Ok(e2), Some(sg), || format!("spot price {:?}, inverse of tick {ak} is {e2}", s2));
            }
            Err(e) => {
                self.chk(("obs", "book", ""), false, None, || format!("order book state not readable: {e}"));
            }
        }
    }

    /// Model-free time priority: among orders of one side of a level, in placement order, fills form a prefix.
    fn obs_fifo(&mut self, t: i64) {
        let tr = match obs::ticks_by_id(&self.w, &[t]) {
            Ok(mut v) if v.len() == 1 => v.pop().unwrap(),
            _ => return,
        };
        let lv = match obs::level(&self.w, &tr) {
            Ok(l) => l,
            Err(e) => {
                self.chk(("obs", "order", ""), false, None, || format!("level {t} not readable: {e}"));
                return;
            }
        };
        for s in [false, true] {
            let v: Vec<(u64, u128, u128, bool)> = lv
                .orders
                .iter()
                .filter(|(_, o)| o.rec.bid() == s)
                .map(|(i, o)| (*i, o.rec.qty(), o.claimable, o.rec.quantity != o.rec.placed_quantity))
                .collect();
            let mut open_seen: Option<u64> = None;
            let mut bad = None;
            let mut shape = 0u64;
            for (id, q, c, touched) in &v {
                let open = q - (*c).min(*q);
                if (*c > 0 || *touched) && open_seen.is_some() {
                    bad = Some((open_seen.unwrap(), *id));
                    break;
                }
                if open > 0 {
                    open_seen = open_seen.or(Some(*id));
                }
                shape = comb(shape, sig!((*c > 0), open > 0, *touched));
            }
            let nt = if v.len() > 1 && v.iter().any(|x| x.2 > 0) { Some(shape) } else { None };
            self.chk(("fifo", "prefix", ""), bad.is_none(), nt, || {
                format!("level {t}: order {:?} traded while an earlier order is still open (earlier, later): {:?}", bad.map(|b| b.1), bad)
            });
            // against the model queue
            if let Some(l) = self.m.levels.get(&t) {
                let e: Vec<(u64, u128)> = l.q[s as usize].values().map(|o| (o.id, o.filled)).collect();
                let g: Vec<(u64, u128)> = v.iter().map(|x| (x.0, x.2)).collect();
                self.chk(("fifo", "alloc", ""), e == g, nt, || {
                    format!("level {t} side {}: fills allocated {:?}, time priority gives {:?}", if s { "bid" } else { "ask" }, g, e)
                });
            }
        }
    }

    /// Counters as they stand after a long past. Nothing else is touched, and unknown layouts are left alone.
    fn age(&mut self, orders: u64, nodes: u64) {
        let mut set = vec![];
        let num = |v: &[u8]| std::str::from_utf8(v).ok().and_then(|s| s.parse::<u64>().ok());
        let mut p = vec![0u8, 7];
        p.extend_from_slice(b"node_id");
        for (k, v) in &self.w.store.data {
            let to = if k.as_slice() == b"order_id" {
                orders
            } else if k.starts_with(&p) && k.len() == p.len() + 8 {
                nodes
            } else {
                continue;
            };
            if num(v).map_or(false, |x| x < to) {
                set.push((k.clone(), to.to_string().into_bytes()));
            }
        }
        self.st.bump("aged_counters", set.len() as u64);
        for (k, v) in set {
            self.w.raw(k, v);
        }
    }

    /// The stored tree of cancelled queue positions of one level.
    pub fn obs_ledger(&mut self, t: i64) {
        let l = match ledger::read(&self.w.store.data, t) {
            None => {
                self.st.bump("ledger_unreadable", 1);
                return;
            }
            Some(Err(e)) => {
                self.chk(("ledger", "read", ""), false, None, || format!("level {t}: {e}"));
                return;
            }
            Some(Ok(l)) => l,
        };
        let mut seen = BTreeSet::new();
        for s in [false, true] {
            let want: Vec<(Uint256, Uint256)> = self
                .m
                .levels
                .get(&t)
                .map(|l| l.ledger[s as usize].iter().map(|(p, v)| (*p, Uint256::from(*v))).collect())
                .unwrap_or_default();
            match ledger::judge(&l, s, &mut seen) {
                Err((k, e)) => {
                    self.chk(("ledger", k, ""), false, None, || format!("level {t} {}: {e}", if s { "bids" } else { "asks" }));
                }
                Ok(sh) => {
                    let n = sh.leaves.len();
                    // the shape of the tree up to a few dozen entries, then its size and height
                    let mut sg = sig!(s, n, sh.height);
                    if n <= 24 {
                        for x in l.nodes.values().filter(|x| x.bid == s) {
                            sg = comb(sg, sig!(x.left.is_some(), x.right.is_some(), x.key));
                        }
                    }
                    let sg = (n >= 2).then_some(sg);
                    for k in ["order", "link", "sum", "height", "balance"] {
                        self.chk(("ledger", k, ""), true, sg, String::new);
                    }
                    self.st.maxi("ledger_entries", n as u64);
                    self.st.maxi("ledger_height", sh.height);
                    if !self.resync_due && self.exact {
                        let same = sh.leaves == want;
                        let d = sh.leaves.iter().find(|x| !want.contains(x)).or_else(|| want.iter().find(|x| !sh.leaves.contains(x))).copied();
                        self.chk(("ledger", "entries", ""), same, sg, || {
                            format!("level {t} {}: {n} entries recorded, {} cancels happened; first difference at {:?}", if s { "bids" } else { "asks" }, want.len(), d)
                        });
                    }
                }
            }
        }
        let lost: Vec<u64> = l.nodes.keys().filter(|k| !seen.contains(k)).copied().collect();
        let c = l.counter.unwrap_or(0);
        let over = l.nodes.keys().last().map_or(false, |k| *k > c);
        self.chk(("ledger", "reach", ""), lost.is_empty(), None, || format!("level {t}: nodes {:?} cannot be reached", lost));
        self.chk(("ledger", "numbers", ""), !over, None, || format!("level {t}: node numbers run past the counter {c}"));
    }

    fn obs_liqsum(&mut self) {
        let b = match obs::snapshot(&self.w) {
            Ok(b) => b,
            Err(e) => {
                self.chk(("obs", "snapshot", ""), false, None, || format!("book not readable: {e}"));
                return;
            }
        };
        let mut tot = [Uint256::zero(), Uint256::zero()];
        for (t, l) in &b.levels {
            for s in 0..2 {
                let open: Uint256 = l
                    .orders
                    .values()
                    .filter(|o| o.rec.bid() == (s == 1))
                    .fold(Uint256::zero(), |a, o| a + u(o.rec.qty() - o.claimable.min(o.rec.qty())));
                tot[s] += u(l.liq[s]);
                let n = l.orders.len();
                let lq = l.liq[s];
                self.chk(("liqsum", "level", ""), u(lq) == open, Some(sig!(n.min(30), s, bits(lq) / 3)), || {
                    format!("level {t}: liquidity {lq} but unfilled orders add up to {open}")
                });
            }
        }
        if let Ok(p) = obs::pool(&self.w) {
            self.chk(("liqsum", "pool", ""), u(p.0) == tot[0] && u(p.1) == tot[1], Some(sig!(bits(p.0), bits(p.1))), || {
                format!("pool liquidity {:?}, levels add up to {:?}", p, tot)
            });
        }
    }

    fn obs_iso(&mut self, op: &Op, a: &BookObs, b: &BookObs, changed: &BTreeSet<(i64, u64)>, committed: bool, swap: Option<(bool, i64)>) {
        let kind = op.kind();
        let sg0 = sig!(hash_str(kind), committed, a.levels.len().min(12));
        let is_swap = matches!(op, Op::Swap { .. });
        // orders
        let mut bad: Option<String> = None;
        let mut others = 0u64;
        for (t, l) in &a.levels {
            for (id, o) in &l.orders {
                let may = committed && changed.contains(&(*t, *id));
                if may {
                    continue;
                }
                others += 1;
                match b.levels.get(t).and_then(|l| l.orders.get(id)) {
                    None => bad = bad.or(Some(format!("order {t}/{id} of {} disappeared", o.rec.owner))),
                    Some(o2) => {
                        if o2.rec != o.rec {
                            bad = bad.or(Some(format!("record of {t}/{id} changed from {:?} to {:?}", o.rec, o2.rec)));
                        }
                        let traded = is_swap && committed && swap.map_or(false, |(s, bound)| s == o.rec.bid() && if s { *t >= bound } else { *t <= bound });
                        if traded {
                            if o2.claimable < o.claimable {
                                bad = bad.or(Some(format!("fill of {t}/{id} shrank from {} to {}", o.claimable, o2.claimable)));
                            }
                        } else if o2.claimable != o.claimable {
                            bad = bad.or(Some(format!("claimable of {t}/{id} changed from {} to {}", o.claimable, o2.claimable)));
                        }
                    }
                }
            }
        }
        for (t, l) in &b.levels {
            for id in l.orders.keys() {
                let had = a.levels.get(t).map_or(false, |l| l.orders.contains_key(id));
                if !had && !(committed && changed.contains(&(*t, *id))) {
                    bad = bad.or(Some(format!("order {t}/{id} appeared")));
                }
            }
        }
        let nt = if others > 0 { Some(comb(sg0, others.min(40))) } else { None };
        self.chk(("iso", "order", kind), bad.is_none(), nt, || format!("{kind}: {}", bad.unwrap_or_default()));
        // level liquidity
        let mut bad: Option<String> = None;
        let all: BTreeSet<i64> = a.levels.keys().chain(b.levels.keys()).copied().collect();
        for t in all {
            for s in 0..2 {
                let x = a.levels.get(&t).map_or(0, |l| l.liq[s]);
                let y = b.levels.get(&t).map_or(0, |l| l.liq[s]);
                if x == y {
                    continue;
                }
                let may = committed
                    && match op {
                        Op::Place { tick, bid, .. } => *tick == t && *bid as usize == s && y > x,
                        Op::Cancel { .. } => changed.iter().any(|c| c.0 == t) && y < x && {
                            let side = changed
                                .iter()
                                .filter_map(|c| a.levels.get(&c.0).and_then(|l| l.orders.get(&c.1)))
                                .any(|o| o.rec.bid() as usize == s);
                            side
                        },
                        Op::Swap { .. } => {
                            y < x
                                && swap.map_or(false, |(sd, bound)| sd as usize == s && if sd { t >= bound } else { t <= bound })
                        }
                        _ => false,
                    };
                if !may {
                    bad = bad.or(Some(format!("liquidity at {t} side {} went from {x} to {y}", ["ask", "bid"][s])));
                }
            }
        }
        let nt = if a.levels.len() > 1 { Some(sg0) } else { None };
        self.chk(("iso", "level", kind), bad.is_none(), nt, || format!("{kind}: {}", bad.unwrap_or_default()));
    }

    fn obs_bank(&mut self, b0: &Bank, parties: &BTreeSet<String>, op: &Op) {
        let kind = op.kind();
        let mut bad = None;
        let keys: BTreeSet<&String> = b0.bal.keys().chain(self.w.bank.bal.keys()).collect();
        for k in keys {
            if parties.contains(k) || k == WHALE {
                continue;
            }
            if b0.bal.get(k) != self.w.bank.bal.get(k) {
                bad = Some(k.clone());
            }
        }
        self.chk(("iso", "bank", kind), bad.is_none(), Some(sig!(hash_str(kind))), || {
            format!("{kind} changed the balance of bystander {:?}", bad)
        });
    }

    fn obs_solv(&mut self, a: &BookObs, b: &BookObs, b0: &Bank) {
        let (oa, ob) = (a.owed(), b.owed());
        for (i, d) in [BASE, QUOTE].iter().enumerate() {
            let h0 = u(b0.get(CONTRACT, d));
            let h1 = u(self.w.bank.get(CONTRACT, d));
            let nt = if ob[i] > Uint256::zero() {
                Some(sig!(bits(to_u128(ob[i]).unwrap_or(u128::MAX)), i, b.levels.len().min(16)))
            } else {
                None
            };
            self.chk(("solv", "cover", ""), h1 >= ob[i], nt, || format!("contract holds {h1}{d} but owes {}", ob[i]));
            // surplus never shrinks: rounding always stays in the contract
            let ok = h1 + oa[i] >= h0 + ob[i];
            self.chk(("solv", "drop", ""), ok, nt, || {
                format!("{d}: holdings went {h0} -> {h1} while obligations went {} -> {}", oa[i], ob[i])
            });
        }
    }

    // ------------------------------------------------------------------ resync after an irrelevant divergence
    pub fn resync(&mut self) {
        self.resync_due = false;
        self.resyncs += 1;
        if self.resyncs > 8 {
            self.stop = true;
            return;
        }
        let (b, bk, pl) = match (obs::snapshot(&self.w), obs::book(&self.w), obs::pool(&self.w)) {
            (Ok(b), Ok(k), Ok(p)) => (b, k, p),
            _ => {
                self.stop = true;
                return;
            }
        };
        let old = self.m.clone();
        self.m.levels.clear();
        self.m.n_orders = 0;
        for (t, l) in &b.levels {
            let mut lv = Level {
                liq: l.liq,
                ..Default::default()
            };
            if let Some(o) = old.levels.get(t) {
                lv.cancels = o.cancels;
                lv.swaps = o.swaps;
            }
            for (id, o) in &l.orders {
                self.m.n_orders += 1;
                self.m.last_id = Some(self.m.last_id.map_or(*id, |x| x.max(*id)));
                let mo = MOrder {
                    tick: *t,
                    id: *id,
                    bid: o.rec.bid(),
                    owner: o.rec.owner.clone(),
                    qty: o.rec.qty(),
                    filled: o.claimable,
                    bounty: o
                        .rec
                        .claim_bounty
                        .as_ref()
                        .and_then(|s| parse_dec(s))
                        .and_then(to_u128),
                    placed: o.rec.placed_quantity.parse().unwrap_or(0),
                    at: o.rec.placed_at.parse().unwrap_or(0),
                };
                lv.q[mo.bid as usize].insert(*id, mo);
            }
            self.m.levels.insert(*t, lv);
        }
        self.m.best_bid = bk.next_bid_tick;
        self.m.best_ask = bk.next_ask_tick;
        self.m.pool = [pl.0, pl.1];
        self.m.active = obs::active(&self.w).unwrap_or(self.m.active);
        if let Some(f) = obs::maker_fee(&self.w).ok().and_then(to_u128) {
            self.m.fee = f;
        }
        self.m.admin = obs::auth(&self.w, "admin").unwrap_or(None);
        self.m.admin_offer = obs::auth(&self.w, "admin_offer").unwrap_or(None);
        self.m.moder = obs::auth(&self.w, "moderator").unwrap_or(None);
        self.m.moder_offer = obs::auth(&self.w, "moderator_offer").unwrap_or(None);
    }
}
