//! Case runner: generation, execution, shrinking, replay files, evidence.
use crate::engine::{Div, Engine, Stats};
use crate::fixture;
use crate::ops::{Gen, Op, A};
use crate::props::{Mode, Prop};
use crate::rng::{comb, hash_str, mix, Rng};
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Everything needed to run one case again.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    pub property: String,
    pub seed: u64,
    #[serde(default)]
    pub fixture: Option<usize>,
    #[serde(default)]
    pub strip: bool,
    #[serde(default)]
    pub ops: Vec<Op>,
    /// for properties judged on single inputs
    #[serde(default)]
    pub input: Option<serde_json::Value>,
    #[serde(default)]
    pub violation: Option<String>,
    #[serde(default)]
    pub detail: Option<String>,
}

pub struct CaseOut {
    pub stats: Stats,
    pub bad: Option<Div>,
    pub ops: Vec<Op>,
}

fn start(p: &Prop, c: &Case) -> Result<Engine, String> {
    match c.fixture {
        Some(i) => fixture::engine(i, c.strip, p.flags, p.cats),
        None => {
            // most books trade the usual names, the others some that compare, contain or abbreviate differently
            let k = crate::rng::comb(c.seed, 0xde0) as usize % 8;
            Engine::new(p.flags, p.cats, crate::chain::NAMES.get(k).copied())
        }
    }
}

fn first_bad(e: &Engine, from: usize) -> Option<Div> {
    e.divs[from..].iter().find(|d| e.relevant(d)).cloned()
}

/// Execute a fixed operation list.
pub fn run_ops(p: &Prop, c: &Case) -> CaseOut {
    let mut e = match start(p, c) {
        Ok(e) => e,
        Err(m) => return start_failed(p, m, vec![]),
    };
    if p.trace {
        e.w.log = Some(vec![]);
    }
    let mut bad = first_bad(&e, 0);
    if bad.is_none() {
        for op in &c.ops {
            let n = e.divs.len();
            one(p, &mut e, op);
            bad = first_bad(&e, n);
            if bad.is_some() || e.stop {
                break;
            }
        }
    }
    if bad.is_none() {
        let n = e.divs.len();
        if let Some(f) = p.at_end {
            f(&mut e, c.seed);
        }
        bad = first_bad(&e, n);
    }
    CaseOut {
        stats: e.finish(),
        bad,
        ops: c.ops.clone(),
    }
}

fn start_failed(p: &Prop, m: String, ops: Vec<Op>) -> CaseOut {
    // a book that cannot be created (or read) at all is a violation of the properties that speak about creation or
    // upgrade; for every other property it is simply not observable
    let bad = if p.cats.contains(&"start") {
        Some(Div { cat: "start".into(), detail: m, step: 0 })
    } else {
        None
    };
    CaseOut { stats: Stats::default(), bad, ops }
}

/// set while a single case is re-run to find the operation that ends the process
pub static LOG_OPS: AtomicBool = AtomicBool::new(false);
fn log_line<T: Serialize>(x: &T) {
    if LOG_OPS.load(Ordering::Relaxed) {
        if let (Some(n), Ok(s)) = (crate::supervise::notes(), serde_json::to_string(x)) {
            n.op(&s);
        }
    }
}
/// Re-run one case, noting every operation before it is executed.
pub fn single(p: &'static Prop, seed: u64, idx: u64, tier: &str) {
    LOG_OPS.store(true, Ordering::Relaxed);
    std::thread::scope(|s| {
        let _ = std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(s, || {
            let _ = catch_unwind(AssertUnwindSafe(|| match p.mode {
                Mode::Input => {
                    run_input(p, seed, idx, tier);
                }
                _ => {
                    run_gen(p, seed);
                }
            }));
        });
    });
}

fn one(p: &Prop, e: &mut Engine, op: &Op) {
    log_line(op);
    e.step(op);
    if let Op::Check { seed } = op {
        if let Some(f) = p.check {
            f(e, *seed);
        }
    }
}

/// Generate and execute a history.
pub fn run_gen(p: &Prop, seed: u64) -> (CaseOut, Case) {
    let mut c = Case {
        property: p.id.to_string(),
        seed,
        fixture: None,
        strip: false,
        ops: vec![],
        input: None,
        violation: None,
        detail: None,
    };
    let mut r = Rng::new(mix(seed ^ 0xabcdef));
    if matches!(p.mode, Mode::Upgrade) {
        c.fixture = Some(r.usz(fixture::count().max(1)));
        c.strip = r.chance(60);
    }
    let pi = r.usz(p.profiles.len());
    let mut prof = (p.profiles[pi])();
    if !p.deep.is_empty() && r.below(90) == 0 {
        prof = (p.deep[r.usz(p.deep.len())])();
    } else if matches!(p.mode, Mode::History | Mode::Upgrade) && r.chance(12) {
        prof = crate::props::guest(p, &mut r);
    }
    // beyond a thousand levels, or orders of one owner
    if r.chance(30) {
        if prof.tick_modes.contains(&crate::ops::TickMode::GreatWall) {
            prof.ops = (1_350, 1_550);
            prof.max_orders = 1_400;
        } else if prof.w[0] >= 200 && prof.max_orders >= 800 {
            prof.ops = (1_350, 1_450);
            prof.max_orders = 1_250;
            if r.chance(60) {
                prof.users = 1;
            }
        }
    }
    let n = r.range(prof.ops.0 as i64, prof.ops.1 as i64) as usize;
    if r.chance(15) {
        prof.invalid = (prof.invalid * 4).min(60);
    }
    let fee = if r.chance(prof.fee) { Some(r.clone()) } else { None };
    let mut e = match start(p, &c) {
        Ok(e) => e,
        Err(m) => return (start_failed(p, m, vec![]), c),
    };
    if p.trace {
        e.w.log = Some(vec![]);
    }
    log_line(&c);
    let mut g = Gen::new(prof, seed);
    if let Some(_f) = fee {
        let mut v = g.fee_val();
        if v > crate::model::MAX_FEE {
            v %= crate::model::MAX_FEE + 1;
        }
        c.ops.push(Op::Auth {
            who: e.m.admin.clone().unwrap_or_else(|| crate::model::GOV.into()),
            a: crate::model::AuthOp::SetFee(v),
            funds: vec![],
        });
        one(p, &mut e, &c.ops[0].clone());
    }
    if c.fixture.is_some() {
        g.adopt(&e.m);
        if !e.m.active && !g.rng.chance(25) {
            // most books stored while paused are reopened at once, by governance or by their moderator
            let who = e.m.moder.clone().filter(|_| g.rng.chance(50));
            c.ops.push(match who {
                Some(who) => Op::Auth { who, a: crate::model::AuthOp::SetActive(true), funds: vec![] },
                None => Op::Sudo { a: crate::model::SudoOp::SetActive(true) },
            });
            let op = c.ops.last().unwrap().clone();
            one(p, &mut e, &op);
        }
    }
    let mut bad = first_bad(&e, 0);
    while bad.is_none() && c.ops.len() < n && !e.stop {
        let op = g.next(&e.m, &e.rev);
        let k = e.divs.len();
        c.ops.push(op.clone());
        one(p, &mut e, &op);
        bad = first_bad(&e, k);
    }
    if bad.is_none() && !e.stop {
        let k = e.divs.len();
        if p.check.is_some() {
            let op = Op::Check { seed: g.rng.next() };
            c.ops.push(op.clone());
            one(p, &mut e, &op);
        }
        if let Some(f) = p.at_end {
            f(&mut e, c.seed);
        }
        bad = first_bad(&e, k);
    }
    (
        CaseOut {
            stats: e.finish(),
            bad,
            ops: c.ops.clone(),
        },
        c,
    )
}

fn run_input(p: &Prop, seed: u64, idx: u64, tier: &str) -> (CaseOut, Case) {
    let mut st = Stats::default();
    let f = p.input.expect("input property without a generator");
    let (inp, bad) = f(seed, idx, tier, None, &mut st);
    st.histories = 1;
    let c = Case {
        property: p.id.to_string(),
        seed,
        fixture: None,
        strip: false,
        ops: vec![],
        input: Some(inp),
        violation: None,
        detail: None,
    };
    (CaseOut { stats: st, bad, ops: vec![] }, c)
}

/// Remove operations while some relevant divergence remains.
fn shrink(p: &Prop, mut c: Case, mut d: Div, limit: Duration) -> (Case, Div) {
    let t0 = Instant::now();
    let kind = |d: &Div| d.cat.split('.').next().unwrap_or("").to_string();
    let want = kind(&d);
    let try_ops = |ops: Vec<Op>| -> Option<Div> {
        let mut k = c.clone();
        k.ops = ops;
        catch_unwind(AssertUnwindSafe(|| run_ops(p, &k)))
            .ok()
            .and_then(|o| o.bad)
            .filter(|b| kind(b) == want)
    };
    let mut ops = c.ops.clone();
    let keep = (d.step + 1).min(ops.len());
    if let Some(b) = try_ops(ops[..keep].to_vec()) {
        ops.truncate(keep);
        d = b;
    } else {
        match try_ops(ops.clone()) {
            Some(b) => d = b,
            None => return (c, d),
        }
    }
    let mut chunk = (ops.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < ops.len() {
            if t0.elapsed() > limit {
                c.ops = ops;
                return (c, d);
            }
            let hi = (i + chunk).min(ops.len());
            let mut cand = ops[..i].to_vec();
            cand.extend_from_slice(&ops[hi..]);
            if let Some(b) = try_ops(cand.clone()) {
                ops = cand;
                d = b;
                any = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !any {
            break;
        }
        chunk = (chunk / 2).max(1);
    }
    c.ops = ops;
    (c, d)
}

pub struct Args {
    pub tier: String,
    pub seed: u64,
    pub wall: Option<u64>,
    pub count: Option<u64>,
    pub evidence: String,
    pub replay_dir: String,
    pub threads: usize,
}

/// 0 held, 1 violated, 3 inconclusive / harness error
pub fn check(p: &'static Prop, a: &Args) -> i32 {
    let t0 = Instant::now();
    let quick = a.tier != "thorough";
    let total = a.count.unwrap_or(if quick { p.quick } else { p.thorough });
    let cap = Duration::from_secs(a.wall.unwrap_or(if quick { 300 } else { 780 }));
    let next = AtomicU64::new(0);
    let done = AtomicBool::new(false);
    let stats = Mutex::new(Stats::default());
    let found: Mutex<Option<(u64, Case, Div)>> = Mutex::new(None);
    let broken: Mutex<Vec<String>> = Mutex::new(vec![]);
    let samples: Mutex<Vec<(u64, serde_json::Value)>> = Mutex::new(vec![]);
    let base = comb(comb(a.seed, hash_str(p.id)), hash_str("obmon"));
    std::thread::scope(|s| {
        for slot in 0..a.threads {
            let (next, done, stats, found, broken, samples) = (&next, &done, &stats, &found, &broken, &samples);
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(s, move || {
                    let notes = crate::supervise::notes();
                    let mut loc = Stats::default();
                    loop {
                        if done.load(Ordering::Relaxed) || t0.elapsed() > cap {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= total {
                            break;
                        }
                        let seed = comb(base, i);
                        if let Some(n) = notes {
                            n.begin(slot, i, seed);
                        }
                        let r = catch_unwind(AssertUnwindSafe(|| match p.mode {
                            Mode::Input => run_input(p, seed, i, &a.tier),
                            _ => run_gen(p, seed),
                        }));
                        if let Some(n) = notes {
                            n.end(slot);
                        }
                        match r {
                            Ok((o, c)) => {
                                loc.merge(o.stats);
                                if i < 3 {
                                    let v = match &c.input {
                                        Some(x) => x.clone(),
                                        None => serde_json::json!({
                                            "history": i,
                                            "seed": c.seed.to_string(),
                                            "fixture": c.fixture,
                                            "operations": c.ops.len(),
                                            "first_operations": c.ops.iter().take(12).collect::<Vec<_>>(),
                                        }),
                                    };
                                    samples.lock().unwrap().push((i, v));
                                }
                                if let Some(d) = o.bad {
                                    let mut f = found.lock().unwrap();
                                    if f.as_ref().map_or(true, |x| i < x.0) {
                                        *f = Some((i, c, d));
                                    }
                                    done.store(true, Ordering::Relaxed);
                                }
                            }
                            Err(e) => {
                                let t = e
                                    .downcast_ref::<String>()
                                    .cloned()
                                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                                    .unwrap_or_default();
                                let mut b = broken.lock().unwrap();
                                b.push(format!("case {i} (seed {seed}): {t}"));
                                if b.len() > 200 {
                                    done.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                    }
                    stats.lock().unwrap().merge(loc);
                })
                .expect("cannot start a worker");
        }
    });
    let st = stats.into_inner().unwrap();
    let broken = broken.into_inner().unwrap();
    let found = found.into_inner().unwrap();
    let mut code = 0;
    let mut violations = 0;
    if let Some((i, c, d)) = found {
        if let Some(n) = crate::supervise::notes() {
            let mut k = c.clone();
            k.violation = Some(d.cat.clone());
            k.detail = Some(d.detail.clone());
            n.found(&k);
        }
        let (mut c, d) = if matches!(p.mode, Mode::Input) {
            (c, d)
        } else {
            // shrink on a big stack as well
            std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(1 << 30)
                    .spawn_scoped(s, || shrink(p, c, d, Duration::from_secs(15)))
                    .unwrap()
                    .join()
                    .unwrap()
            })
        };
        c.violation = Some(d.cat.clone());
        c.detail = Some(d.detail.clone());
        let _ = std::fs::create_dir_all(&a.replay_dir);
        let path = format!("{}/{}.json", a.replay_dir, p.id);
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&c).unwrap());
        println!("case {i}: {} -- {}", d.cat, d.detail);
        println!("  {} operation(s) after shrinking", c.ops.len());
        println!("VIOLATION property={} replay={}", p.id, path);
        violations = 1;
        code = 1;
    } else if !broken.is_empty() {
        println!("INCONCLUSIVE property={}: {} case(s) could not be judged; first: {}", p.id, broken.len(), broken[0]);
        code = 3;
    } else if st.distinct.len() < p.min_distinct || st.rel_evals == 0 {
        println!(
            "INCONCLUSIVE property={}: only {} distinct non-trivial observations ({} needed)",
            p.id,
            st.distinct.len(),
            p.min_distinct
        );
        code = 3;
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut smp = samples.into_inner().unwrap();
    smp.sort_by_key(|x| x.0);
    let rel: std::collections::BTreeMap<&String, &u64> = st
        .evals
        .iter()
        .filter(|(k, _)| {
            p.cats
                .iter()
                .any(|c| k.as_str() == *c || (k.starts_with(c) && k.as_bytes().get(c.len()) == Some(&b'.')))
        })
        .collect();
    let ev = serde_json::json!({
        "property": p.id,
        "tier": if quick {"quick"} else {"thorough"},
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.rel_evals,
            "distinct_nontrivial": st.distinct.len(),
            "rule": p.rule,
            "samples": smp.into_iter().map(|x| x.1).collect::<Vec<_>>(),
            "cases_run": st.histories,
            "oracle_evaluations_by_kind": rel,
            "operations_accepted_refused": st.ops.iter().map(|(k, v)| (k.to_string(), serde_json::json!([v.0, v.1]))).collect::<serde_json::Map<_,_>>(),
            "refusals_by_reason": st.refusals,
            "distinct_abstract_book_states": st.states.len(),
            "most_live_orders": st.max_orders,
            "most_price_levels": st.max_levels,
            "longest_queue": st.max_queue,
            "counters": st.extra,
            "maxima": st.max_extra,
        },
        "assumptions": [
            "the bank, address validation and sub-message/reply semantics of the host chain are those of the harness's chain model",
            "held on the executions counted above; nothing is claimed about executions that were not produced"
        ],
        "wall_s": wall,
        "violations": violations,
    });
    if let Some(d) = std::path::Path::new(&a.evidence).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    if let Err(e) = std::fs::write(&a.evidence, serde_json::to_string_pretty(&ev).unwrap()) {
        println!("cannot write evidence: {e}");
        if code == 0 {
            code = 3;
        }
    }
    if code == 0 {
        println!(
            "OK property={} cases={} evaluations={} distinct={} wall={:.1}s",
            p.id,
            st.histories,
            st.rel_evals,
            st.distinct.len(),
            wall
        );
    }
    code
}

pub fn replay(p: &'static Prop, c: &Case) -> i32 {
    let out = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(1 << 30)
            .spawn_scoped(s, || match p.mode {
                Mode::Input => {
                    let mut st = Stats::default();
                    let (_, bad) = p.input.unwrap()(c.seed, 0, "quick", c.input.as_ref(), &mut st);
                    CaseOut { stats: st, bad, ops: vec![] }
                }
                _ => run_ops(p, c),
            })
            .unwrap()
            .join()
            .unwrap()
    });
    match out.bad {
        Some(d) => {
            println!("reproduced at operation {}: {} -- {}", d.step, d.cat, d.detail);
            1
        }
        None => {
            println!("not reproduced: the property held on this case");
            0
        }
    }
}

#[allow(dead_code)]
pub fn a(x: u128) -> A {
    A(x)
}

/// Produce a stored book with the build at hand. Kinds differ in what the book has been through.
pub fn make_fixture(seed: u64, kind: &str) -> Result<String, String> {
    use crate::model::{AuthOp, GOV};
    use crate::ops::{QtyMode, TickMode};
    let p = crate::props::by_id("C02").unwrap();
    let mut prof = crate::props::fixture_profile();
    prof.invalid = 0;
    let mut aged = None;
    match kind {
        "giant" => prof.qty_modes = &[QtyMode::Giant],
        "mixed" => prof.tick_modes = &[TickMode::Mixed],
        "ledger" => {
            prof.ops = (420, 460);
            prof.tick_modes = &[TickMode::Single];
            prof.w = [50, 46, 2, 0, 5, 0, 0, 0, 0, 0, 1, 0, 0, 0];
            prof.max_orders = 150;
        }
        "wall" => {
            prof.ops = (260, 300);
            prof.tick_modes = &[TickMode::Wall];
            prof.w = [90, 12, 0, 0, 3, 5, 0, 0, 0, 0, 1, 0, 0, 0];
            prof.max_orders = 200;
        }
        "great" => {
            prof.ops = (420, 440);
            prof.tick_modes = &[TickMode::GreatWall];
            prof.w = [180, 3, 1, 0, 2, 3, 0, 0, 0, 0, 1, 0, 0, 0];
            prof.max_orders = 430;
        }
        "aged" => aged = Some(Op::Age { orders: (1 << 53) - 9, nodes: (1 << 32) - 5 }),
        "aged-small" => aged = Some(Op::Age { orders: 250, nodes: 120 }),
        "fresh" => prof.ops = (0, 0),
        "drained" => prof.ops = (60, 90),
        _ => {}
    }
    let mut r = Rng::new(seed);
    let n = r.range(prof.ops.0 as i64, prof.ops.1 as i64) as usize;
    let mut e = Engine::new(p.flags, &[""], None)?;
    let mut g = Gen::new(prof, seed);
    let auth = |who: &str, a: AuthOp| Op::Auth { who: who.into(), a, funds: vec![] };
    let user = crate::ops::user;
    if kind != "fresh" {
        e.step(&auth(GOV, AuthOp::SetFee(1_000_000_000_000_000 * (1 + seed as u128 % 7))));
    }
    for i in 0..n {
        if i == n / 2 {
            if let Some(op) = aged.take() {
                e.step(&op);
            }
        }
        let op = g.next(&e.m, &e.rev);
        e.step(&op);
    }
    match kind {
        "paused" => {
            e.step(&auth(GOV, AuthOp::SetActive(false)));
        }
        "resumed" => {
            e.step(&auth(GOV, AuthOp::SetActive(false)));
            e.step(&auth(GOV, AuthOp::SetActive(true)));
        }
        "offers" => {
            e.step(&auth(GOV, AuthOp::TransferAdmin(user(1))));
            e.step(&auth(GOV, AuthOp::OfferModerator(user(4))));
            e.step(&auth(GOV, AuthOp::SetRecipient(user(2))));
        }
        "renounced" => {
            e.step(&auth(GOV, AuthOp::OfferModerator(user(4))));
            e.step(&auth(&user(4), AuthOp::ClaimModerator));
            e.step(&auth(GOV, AuthOp::SetFee(0)));
            e.step(&auth(GOV, AuthOp::Renounce));
        }
        "handed-over" => {
            e.step(&auth(GOV, AuthOp::TransferAdmin(user(3))));
            e.step(&auth(&user(3), AuthOp::ClaimAdmin));
            e.step(&auth(&user(3), AuthOp::SetFee(50_000_000_000_000_000)));
            e.step(&auth(&user(3), AuthOp::OfferModerator(user(5))));
            e.step(&auth(&user(3), AuthOp::SetActive(false)));
        }
        "drained" => {
            // everybody leaves; what stays is the levels, the pointers and the ledgers
            for _ in 0..2 {
                let v = crate::ops::leave_all(&e.m);
                for op in v {
                    e.step(&op);
                }
            }
        }
        _ => {}
    }
    if !e.divs.is_empty() {
        return Err(format!("{:?}", e.divs[0]));
    }
    let f = fixture::Fixture {
        name: if kind.is_empty() { format!("book-{seed}") } else { format!("{kind}-{seed}") },
        height: e.w.height,
        time: e.w.time,
        store: e.w.store.data.iter().map(|(k, v)| (fixture::hex(k), fixture::hex(v))).collect(),
        bank: e.w.bank.clone(),
        model: e.m.clone(),
    };
    serde_json::to_string(&f).map_err(|e| e.to_string())
}
