//! Monitors for the price grid (C10) and for amount conversion (C11): the library functions are
//! executed and every returned value is judged by independent integer arithmetic.
#[path = "../price.rs"]
#[allow(dead_code)]
mod price;
#[path = "../rng.rs"]
#[allow(dead_code)]
mod rng;

use cosmwasm_std::{Decimal256, Uint128, Uint256};
use price::*;
use rng::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use sumtree_orderbook::tick_math::{amount_to_value, divide_by_price, multiply_by_price, tick_to_price, RoundingDirection};
use sumtree_orderbook::types::OrderDirection;

#[derive(Default)]
struct Stats {
    evals: u64,
    distinct: u64,
    kinds: BTreeMap<&'static str, u64>,
    keys: HashSet<u64>,
}
impl Stats {
    fn bump(&mut self, k: &'static str) {
        *self.kinds.entry(k).or_default() += 1;
        self.evals += 1;
    }
    fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.distinct += o.distinct;
        for (k, v) in o.kinds {
            *self.kinds.entry(k).or_default() += v;
        }
        self.keys.extend(o.keys);
    }
}

/// Ok(Some(atomics)) / Ok(None) for an error / Err for a panic
fn lib_price(t: i64) -> Result<Option<Uint256>, String> {
    catch_unwind(|| tick_to_price(t).ok().map(|d| d.atomics())).map_err(|_| "panicked".to_string())
}

// ------------------------------------------------------------------------------------------ C10
fn judge_tick(t: i64, prev: &mut Option<Uint256>) -> Option<String> {
    let got = match lib_price(t) {
        Err(e) => return Some(format!("tick {t}: price computation {e}")),
        Ok(g) => g,
    };
    if !(MIN_TICK..=MAX_TICK).contains(&t) {
        *prev = None;
        return got.map(|g| format!("tick {t} is outside the valid range but has a price ({g} atomics)"));
    }
    let Some(g) = got else {
        return Some(format!("tick {t} is valid but has no price"));
    };
    let want = u(atomics(t));
    if g != want {
        return Some(format!("tick {t}: price {g} atomics, the grid defines {want}"));
    }
    if let Some(p) = prev {
        if g <= *p {
            return Some(format!("tick {t}: price {g} atomics is not above the previous tick's {p}"));
        }
    }
    *prev = Some(g);
    None
}

/// Inclusive, disjoint stretches covering every tick and a margin on both sides.
fn c10_ranges() -> Vec<(i64, i64)> {
    let mut v = vec![];
    let mut a = MIN_TICK - 5000;
    while a <= MAX_TICK + 5000 {
        let b = (a + 99_999).min(MAX_TICK + 5000);
        v.push((a, b));
        a = b + 1;
    }
    v
}

fn extremes(tier: &str, r: &mut Rng) -> Vec<i64> {
    let mut v = vec![i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1, i32::MAX as i64, i32::MIN as i64, u32::MAX as i64];
    for b in 27..63 {
        for s in [1i64, -1] {
            v.push(s * (1i64 << b));
            v.push(s * ((1i64 << b) + r.range(0, (1 << b) - 1)));
        }
    }
    for _ in 0..if tier == "quick" { 20_000 } else { 2_000_000 } {
        v.push(r.next() as i64);
        v.push(r.range(MAX_TICK + 1, 40 * MAX_TICK));
        v.push(r.range(40 * MIN_TICK, MIN_TICK - 1));
    }
    v
}

// ------------------------------------------------------------------------------------------ C11
#[derive(Clone, serde::Serialize, serde::Deserialize, Debug)]
struct Conv {
    /// tick whose price is used, or none for an off-grid price
    tick: Option<i64>,
    /// price in 1e-18 units
    atomics: String,
    amount: String,
    op: String,
    up: bool,
}

fn interesting_tick(r: &mut Rng) -> i64 {
    match r.below(10) {
        0 => r.range(-5, 5),
        1 => MIN_TICK + r.range(0, 20),
        2 => MAX_TICK - r.range(0, 20),
        3 | 4 => (9_000_000 * r.range(-12, 20) + r.range(-3, 3)).clamp(MIN_TICK, MAX_TICK),
        5 => r.range(162_000_000 - 10, MAX_TICK),
        _ => r.range(MIN_TICK, MAX_TICK),
    }
}

fn gen_conv(r: &mut Rng) -> Conv {
    let tick = if r.chance(92) { Some(interesting_tick(r)) } else { None };
    let at: Uint256 = match tick {
        Some(t) => u(atomics(t)),
        None => match r.below(5) {
            0 => Uint256::zero(),
            1 => u(r.logu(20)),
            2 => Uint256::MAX,
            3 => u(r.u128()) * u(r.u128()),
            _ => u(r.logu(128)),
        },
    };
    let op = *r.pick(&["mul", "div", "bid", "ask"]);
    let up = r.chance(50);
    let lim = |x: Uint256| to_u128(x).unwrap_or(u128::MAX);
    let amount = match r.below(10) {
        0 => r.below128(4),
        1 => u128::MAX - r.below128(4),
        2 | 3 if tick.is_some() => {
            // next to a whole result: amount ~ k * price or k / price
            let t = tick.unwrap();
            let k = r.logu(60);
            let a = if r.chance(50) { lim(to_quote_floor(k, t)) } else { lim(to_base_floor(k, t)) };
            match r.below(3) {
                0 => a,
                1 => a.saturating_add(1 + r.below128(2)),
                _ => a.saturating_sub(1 + r.below128(2)),
            }
        }
        4 if tick.is_some() => {
            // tiny fraction of the price
            let t = tick.unwrap();
            r.below128(lim(to_quote_floor(1, t)).max(1) + 1)
        }
        5 => 10u128.pow(r.below(39) as u32),
        6 => r.u128(),
        _ => r.logu(128),
    };
    Conv { tick, atomics: at.to_string(), amount: amount.to_string(), op: op.into(), up }
}

/// Some(what went wrong)
fn judge_conv(c: &Conv, st: &mut Stats) -> Option<String> {
    let at: Uint256 = c.atomics.parse().unwrap();
    let amount: u128 = c.amount.parse().unwrap();
    let price = match c.tick {
        // the price as the system itself derives it
        Some(t) => match catch_unwind(|| tick_to_price(t)) {
            Ok(Ok(p)) => p,
            _ => return Some(format!("tick {t} has no price")),
        },
        None => Decimal256::new(at),
    };
    let rd = || if c.up { RoundingDirection::Up } else { RoundingDirection::Down };
    let a = Uint128::new(amount);
    let got = catch_unwind(AssertUnwindSafe(|| match c.op.as_str() {
        "mul" => multiply_by_price(a, price, rd()).ok(),
        "div" => divide_by_price(a, price, rd()).ok(),
        "bid" => amount_to_value(OrderDirection::Bid, a, price, rd()).ok(),
        _ => amount_to_value(OrderDirection::Ask, a, price, rd()).ok(),
    }));
    let Ok(got) = got else {
        return Some(format!("{c:?}: panicked instead of reporting an error"));
    };
    let mul = matches!(c.op.as_str(), "mul" | "ask");
    // exact rational result, in 512 bits where needed
    let (num_hi, den): (cosmwasm_std::Uint512, cosmwasm_std::Uint512) = if mul {
        (u(amount).full_mul(at), cosmwasm_std::Uint512::from(u(ONE18)))
    } else {
        (u(amount).full_mul(u(ONE18)), cosmwasm_std::Uint512::from(at))
    };
    if den.is_zero() {
        st.bump("division by a zero price");
        // a zero amount is worth zero at any price
        return match got {
            None => None,
            Some(g) if g.is_zero() && amount == 0 => None,
            Some(g) => Some(format!("{c:?}: division by zero gave {g}")),
        };
    }
    let q = num_hi / den;
    let exact = q * den == num_hi;
    let want = if c.up && !exact { q + cosmwasm_std::Uint512::one() } else { q };
    let want256 = Uint256::try_from(want).ok();
    st.keys.insert(comb(comb(c.tick.unwrap_or(i64::MAX) as u64, amount as u64 ^ (amount >> 64) as u64), hash_str(&c.op) ^ c.up as u64));
    match (c.tick, got, want256) {
        (Some(_), None, _) => Some(format!("{c:?}: refused, the exact result is {want}")),
        (_, Some(g), Some(w)) => {
            st.bump(match (mul, c.up, exact) {
                (true, _, true) => "base to quote, exact",
                (true, false, false) => "base to quote, rounded down",
                (true, true, false) => "base to quote, rounded up",
                (false, _, true) => "quote to base, exact",
                (false, false, false) => "quote to base, rounded down",
                (false, true, false) => "quote to base, rounded up",
            });
            (g != w).then(|| format!("{c:?}: got {g}, exact arithmetic gives {w}"))
        }
        (_, Some(g), None) => Some(format!("{c:?}: got {g}, the exact result does not fit 256 bits")),
        (None, None, _) => {
            st.bump("off-grid price, result out of range: refused");
            None
        }
    }
}

// ------------------------------------------------------------------------------------------ driver
fn main() {
    if std::env::var("OBMON_TRACE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| -> Option<String> { args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned()) };
    if args.get(1).map(|s| s.as_str()) == Some("replay") {
        let v: Value = args
            .get(2)
            .and_then(|f| std::fs::read_to_string(f).ok())
            .and_then(|s| serde_json::from_str(&s).ok())
            .unwrap_or_default();
        let bad = if v["property"] == "C10" {
            let t = v["input"]["tick"].as_i64().unwrap_or(0);
            let mut prev = None;
            judge_tick(t.saturating_sub(1), &mut prev).or_else(|| judge_tick(t, &mut prev))
        } else {
            serde_json::from_value::<Conv>(v["input"].clone()).ok().and_then(|c| judge_conv(&c, &mut Stats::default()))
        };
        match bad {
            Some(d) => {
                println!("reproduced: {d}");
                std::process::exit(1)
            }
            None => {
                println!("not reproduced");
                return;
            }
        }
    }
    let id = opt("--prop").unwrap_or_default();
    let tier = opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed: u64 = opt("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let evidence = opt("--evidence").unwrap_or_else(|| format!("/verif/evidence/{id}.json"));
    let replays = opt("--replays").unwrap_or_else(|| "/verif/evidence/replays".into());
    let wall: u64 = opt("--wall").and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 240 } else { 780 });
    let threads = opt("--threads").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()));
    let t0 = Instant::now();
    let stop = AtomicBool::new(false);
    let next = AtomicU64::new(0);
    let all = Mutex::new(Stats::default());
    let found: Mutex<Option<(u64, Value, String)>> = Mutex::new(None);
    let base = comb(seed, hash_str(&id));
    let mut r0 = Rng::new(base);
    let ranges = if id == "C10" { c10_ranges() } else { vec![] };
    let ext = if id == "C10" { extremes(tier, &mut r0) } else { vec![] };
    let c11_blocks: u64 = if tier == "quick" { 12_000 } else { 500_000 };
    let jobs = match id.as_str() {
        "C10" => ranges.len() as u64 + 1,
        "C11" => c11_blocks,
        _ => {
            println!("unknown property {id}");
            std::process::exit(3)
        }
    };
    let report = |i: u64, v: Value, d: String| {
        let mut f = found.lock().unwrap();
        if f.as_ref().map_or(true, |x| i < x.0) {
            *f = Some((i, v, d));
        }
        stop.store(true, Ordering::Relaxed);
    };
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| {
                let mut st = Stats::default();
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= jobs || stop.load(Ordering::Relaxed) || t0.elapsed() > Duration::from_secs(wall) {
                        if i < jobs && t0.elapsed() > Duration::from_secs(wall) {
                            st.bump("jobs not started: wall clock");
                        }
                        break;
                    }
                    if id == "C10" {
                        if (i as usize) < ranges.len() {
                            let (a, b) = ranges[i as usize];
                            let mut prev = None;
                            // the predecessor of the stretch, for order across stretches
                            let _ = judge_tick(a - 1, &mut prev);
                            for t in a..=b {
                                st.evals += 1;
                                if let Some(d) = judge_tick(t, &mut prev) {
                                    report(i, json!({"tick": t}), d);
                                    break;
                                }
                                if (MIN_TICK..=MAX_TICK).contains(&t) {
                                    st.distinct += 1;
                                    *st.kinds.entry("ticks with a price").or_default() += 1;
                                } else {
                                    *st.kinds.entry("ticks refused").or_default() += 1;
                                }
                            }
                        } else {
                            for t in &ext {
                                let mut prev = None;
                                st.bump("ticks refused");
                                if (MIN_TICK..=MAX_TICK).contains(t) {
                                    continue;
                                }
                                if let Some(d) = judge_tick(*t, &mut prev) {
                                    report(i, json!({"tick": t}), d);
                                    break;
                                }
                            }
                        }
                    } else {
                        let mut r = Rng::new(comb(base, i));
                        for _ in 0..1000 {
                            let c = gen_conv(&mut r);
                            if let Some(d) = judge_conv(&c, &mut st) {
                                report(i, serde_json::to_value(&c).unwrap(), d);
                                break;
                            }
                        }
                        // keep the set of distinct cases bounded on deep runs
                        if st.keys.len() > 2_000_000 {
                            st.distinct += st.keys.len() as u64;
                            st.keys.clear();
                        }
                    }
                }
                all.lock().unwrap().merge(st);
            });
        }
    });
    let st = all.into_inner().unwrap();
    let distinct = st.distinct + st.keys.len() as u64;
    let mut code = 0;
    let mut violations = 0;
    let samples: Vec<Value> = if id == "C10" {
        let mut v = vec![];
        for _ in 0..4 {
            let t = interesting_tick(&mut r0);
            v.push(json!({"tick": t, "price_atomics": lib_price(t).ok().flatten().map(|x| x.to_string())}));
        }
        v
    } else {
        (0..4).map(|_| serde_json::to_value(gen_conv(&mut r0)).unwrap()).collect()
    };
    if let Some((_, v, d)) = found.into_inner().unwrap() {
        let _ = std::fs::create_dir_all(&replays);
        let path = format!("{replays}/{id}.json");
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&json!({"property": id, "input": v, "detail": d})).unwrap());
        println!("{d}");
        println!("VIOLATION property={id} replay={path}");
        code = 1;
        violations = 1;
    } else if distinct < 10_000 {
        println!("INCONCLUSIVE property={id}: only {distinct} distinct observations");
        code = 3;
    }
    let left = *st.kinds.get("jobs not started: wall clock").unwrap_or(&0);
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": st.evals,
            "distinct_nontrivial": distinct,
            "rule": if id == "C10" {
                "one evaluation: the price of one tick, computed by the library and compared with the closed-form grid and with its predecessor; non-trivial: the tick is in the valid range. every tick of the range is evaluated, plus ticks outside it up to the limits of the integer type"
            } else {
                "one evaluation: one conversion by the library compared with exact 512-bit arithmetic; distinct by (tick, amount, operation, rounding)"
            },
            "samples": samples,
            "by_kind": st.kinds,
            "exhaustive": id == "C10" && left == 0 && violations == 0,
        },
        "assumptions": ["only the values returned by the library functions are judged; their use in the book is the subject of the other properties"],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    if let Some(d) = std::path::Path::new(&evidence).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    if std::fs::write(&evidence, serde_json::to_string_pretty(&ev).unwrap()).is_err() {
        println!("cannot write evidence");
        if code == 0 {
            code = 3;
        }
    }
    if code == 0 {
        println!("OK property={id} evaluations={} distinct={distinct} wall={:.1}s", st.evals, t0.elapsed().as_secs_f64());
    }
    std::process::exit(code);
}
