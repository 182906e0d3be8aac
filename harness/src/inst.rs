//! Creation of a book: which requests are refused, and what a fresh book looks like.
use crate::chain::*;
use crate::engine::{Div, Stats};
use crate::model::*;
use crate::obs;
use crate::price::*;
use crate::rng::{comb, hash_str, Rng};
use cosmwasm_std::Uint256;
use serde_json::{json, Value};

const NAMES: &[&str] = &[
    "ubase",
    "uquote",
    "uosmo",
    "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2",
    "factory/osmo1abcdefabcdef/token",
    "u",
    "",
    "UOSMO",
    "uosmo2",
    "x/y/z",
];

struct C<'a> {
    st: &'a mut Stats,
    bad: Option<Div>,
    key: u64,
}
impl C<'_> {
    fn chk<F: FnOnce() -> String>(&mut self, what: &'static str, ok: bool, d: F) {
        self.st.rel_evals += 1;
        *self.st.evals.entry(format!("init.{what}")).or_default() += 1;
        self.st.distinct.insert(comb(self.key, hash_str(what)));
        if !ok && self.bad.is_none() {
            self.bad = Some(Div { cat: format!("init.{what}"), detail: d(), step: 0 });
        }
    }
}

pub fn run(seed: u64, _i: u64, _tier: &str, given: Option<&Value>, st: &mut Stats) -> (Value, Option<Div>) {
    let mut r = Rng::new(seed);
    let inp = match given {
        Some(v) => v.clone(),
        None => {
            // any name the chain's bank allows, besides the listed ones
            let rnd = |r: &mut Rng| -> String {
                const FIRST: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
                const REST: &[u8] = b"abcxyzABCXYZ0123456789/:._-";
                let n = *r.pick(&[2usize, 3, 5, 15, 16, 31, 43, 44, 63, 64, 67, 126, 127]);
                let mut s = String::new();
                s.push(FIRST[r.usz(FIRST.len())] as char);
                for _ in 0..n {
                    s.push(REST[r.usz(REST.len())] as char);
                }
                s
            };
            let name = |r: &mut Rng| if r.chance(50) { rnd(r) } else { r.pick(NAMES).to_string() };
            let a = name(&mut r);
            let b = match r.below(20) {
                0..=2 => a.clone(),
                // names that differ little
                3 => format!("{a}x"),
                4 => a.to_uppercase(),
                5 => a.chars().rev().collect(),
                6 => a.chars().skip(1).collect(),
                7 => format!("factory/osmo1abcdefabcdef/{a}"),
                _ => name(&mut r),
            };
            let s = |r: &mut Rng| -> String {
                match r.below(5) {
                    0 => "0".into(),
                    1 => "1".into(),
                    2 => r.pick(&[1u128 << 100, u128::MAX / 2, u128::MAX - (1 << 103), (1 << 64) - 1, 1 << 64]).to_string(),
                    _ => (1 + r.below128(1 << 70)).to_string(),
                }
            };
            let (sa, sb) = (s(&mut r), s(&mut r));
            json!({"base":a,"quote":b,"base_supply":sa,"quote_supply":sb,
                "sender": if r.chance(50) {GOV.to_string()} else {crate::ops::user(r.usz(5))},
                "fee": (r.below128(MAX_FEE) + 1).to_string(),
                "qty": (1000 + r.below128(1 << 40)).to_string(),
                "tick": r.range(-20_000_000, 20_000_000)})
        }
    };
    let g = |k: &str| inp[k].as_str().unwrap_or("").to_string();
    let n = |k: &str| g(k).parse::<u128>().unwrap_or(0);
    let (base, quote) = (g("base"), g("quote"));
    let (sb, sq) = (n("base_supply"), n("quote_supply"));
    let sender = g("sender");
    let mut w = World::default();
    if base == quote {
        w.bank.mint("osmo1holderholder", &base, sb.saturating_add(sq));
    } else {
        w.bank.mint("osmo1holderholder", &base, sb);
        w.bank.mint("osmo1holderholder", &quote, sq);
    }
    let msg = json!({"base_denom":base,"quote_denom":quote}).to_string();
    let res = w.call(Call::Inst { sender: &sender, msg: &msg }).r;
    let mut c = C {
        st,
        bad: None,
        key: comb(hash_str(&base), comb(hash_str(&quote), ((sb > 0) as u64) << 1 | (sq > 0) as u64)),
    };
    let err = res.as_ref().err().map(|e| e.text());
    c.chk("abort", !matches!(res, Err(TxErr::Panic(_)) | Err(TxErr::Gas)), || format!("creating a book aborted: {:?}", err));
    if base == quote {
        c.chk("same", res.is_err(), || format!("a book of {base} against itself was created"));
        return (inp.clone(), c.bad);
    }
    if sb == 0 || sq == 0 {
        c.chk("nosupply", res.is_err(), || format!("a book was created although a denom has no supply ({base}: {sb}, {quote}: {sq})"));
        return (inp.clone(), c.bad);
    }
    c.chk("create", res.is_ok(), || format!("a valid pair was refused: {:?}", err));
    if res.is_err() {
        return (inp.clone(), c.bad);
    }
    // the creation receipt names the pair the right way round
    if let Ok(ok) = &res {
        let (rb, rq) = (ok.attr("base_denom").map(String::from), ok.attr("quote_denom").map(String::from));
        c.chk("receipt", rb.as_deref() == Some(&base) && rq.as_deref() == Some(&quote), || {
            format!("the creation receipt says base {rb:?}, quote {rq:?}; created with base {base}, quote {quote}")
        });
    }
    // what a fresh book looks like
    let k = obs::book(&w);
    let den = w.query(r#"{"denoms":{}}"#).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok());
    c.chk("denoms", den == Some(json!({"quote_denom":quote,"base_denom":base})), || format!("denoms are {:?}", den));
    c.chk(
        "pointers",
        k.as_ref().map_or(false, |k| k.next_bid_tick == MIN_TICK && k.next_ask_tick == MAX_TICK && k.base_denom == base && k.quote_denom == quote),
        || format!("fresh book state {:?}", k),
    );
    for (q, e) in [
        ("admin", Some(GOV.to_string())),
        ("admin_offer", None),
        ("moderator", Some(SUBDAO.to_string())),
        ("moderator_offer", None),
    ] {
        let a = obs::auth(&w, q);
        c.chk("roles", a.as_ref().ok() == Some(&e), || format!("fresh book: {q} is {:?}", a));
    }
    let act = obs::active(&w);
    c.chk("active", act == Ok(true), || format!("fresh book active: {:?}", act));
    let f = obs::maker_fee(&w);
    c.chk("fee", f == Ok(Uint256::zero()), || format!("fresh book maker fee {:?}", f));
    let sf: Option<String> = w.query(r#"{"get_swap_fee":{}}"#).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok()).and_then(|v| v["swap_fee"].as_str().map(|s| s.to_string()));
    c.chk("swapfee", sf.as_deref() == Some("0"), || format!("swap fee {:?}", sf));
    let t = obs::all_ticks(&w);
    c.chk("empty", t.as_ref().map_or(false, |v| v.is_empty()), || "fresh book lists levels".into());
    let pl = w.query(r#"{"get_total_pool_liquidity":{}}"#).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok());
    let exp = json!({"total_pool_liquidity":[{"denom":base,"amount":"0"},{"denom":quote,"amount":"0"}]});
    let same_set = pl.as_ref().map_or(false, |v| {
        let mut a: Vec<String> = v["total_pool_liquidity"].as_array().map_or(vec![], |x| x.iter().map(|y| y.to_string()).collect());
        let mut b: Vec<String> = exp["total_pool_liquidity"].as_array().unwrap().iter().map(|y| y.to_string()).collect();
        a.sort();
        b.sort();
        a == b
    });
    c.chk("pool", same_set, || format!("fresh pool liquidity {:?}", pl));
    // the spot prices of an empty book are those of the extreme pointers; other pairs have none
    let like = if base.is_empty() { "zz".to_string() } else { base[..base.len() - 1].to_string() };
    for (x, y, good) in [(&quote, &base, true), (&base, &quote, true), (&base, &base, false), (&quote, &quote, false), (&like, &quote, false), (&quote, &like, false)] {
        let q = w.query(&json!({"spot_price":{"quote_asset_denom":x,"base_asset_denom":y}}).to_string());
        let q2 = w.query(&json!({"calc_out_amount_given_in":{"token_in":{"denom":x,"amount":"5"},"token_out_denom":y,"swap_fee":"0"}}).to_string());
        if !good {
            c.chk("pair", q.is_err(), || format!("spot price of {y:?} in {x:?} answered on the book of {base:?} against {quote:?}"));
            c.chk("pair", q2.is_err(), || format!("{x:?} quoted for {y:?} on the book of {base:?} against {quote:?}"));
        } else if *x == quote {
            c.chk("pair", q.is_ok(), || format!("spot price of the new book's own pair refused: {:?}", q));
        }
    }
    // the pair is really the pair: asks deposit base, bids deposit quote; first id; fee goes to the default recipient
    let mk = crate::ops::user(3);
    let tk = crate::ops::user(4);
    for d in [&base, &quote] {
        w.bank.mint(&mk, d, 1 << 100);
        w.bank.mint(&tk, d, 1 << 100);
    }
    let tick = inp["tick"].as_i64().unwrap_or(0);
    let qty = n("qty");
    let place = |dir: &str| format!(r#"{{"place_limit":{{"tick_id":{tick},"order_direction":"{dir}","quantity":"{qty}","claim_bounty":null}}}}"#);
    for (dir, good, wrong) in [("ask", &base, &quote), ("bid", &quote, &base)] {
        let mut x = w.fork();
        let a = x.exec(&mk, &[(wrong.clone(), qty)], &place(dir)).r;
        c.chk("deposit", a.is_err(), || format!("an {dir} accepted a deposit in {wrong}"));
        let a = x.exec(&mk, &[(base.clone(), qty), (quote.clone(), qty)], &place(dir)).r;
        c.chk("deposit", a.is_err(), || format!("an {dir} accepted deposits in both tokens"));
        x.bank.mint(&mk, OTHER, qty);
        if base != OTHER && quote != OTHER {
            let a = x.exec(&mk, &[(OTHER.to_string(), qty)], &place(dir)).r;
            c.chk("deposit", a.is_err(), || format!("an {dir} accepted a foreign deposit"));
        }
        let a = x.exec(&mk, &[(good.clone(), qty)], &place(dir)).r;
        let e = a.as_ref().err().map(|e| e.text());
        c.chk("deposit", a.is_ok(), || format!("an {dir} in {good} was refused: {:?}", e));
    }
    let fee = n("fee");
    let sfm = AuthOp::SetFee(fee).json();
    let no = w.exec(&sender, &[], &sfm).r.is_ok();
    c.chk("creator", no == (sender == GOV), || format!("creator {sender} setting the fee: accepted {no}"));
    let _ = w.exec(GOV, &[], &sfm);
    let ok = w.exec(&mk, &[(base.clone(), qty)], &place("ask")).r.is_ok();
    if ok {
        let id = obs::orders_by_tick(&w, tick, None, None, None).ok().and_then(|v| v.orders.first().map(|o| o.order_id)).unwrap_or(0);
        let cost = to_u128(taker_cost(false, qty, tick)).unwrap_or(0);
        let sw = format!(
            r#"{{"swap_exact_amount_in":{{"sender":"{tk}","token_in":{{"denom":"{quote}","amount":"{cost}"}},"token_out_denom":"{base}","token_out_min_amount":"{qty}","swap_fee":"0"}}}}"#
        );
        let s = w.sudo(Some((&tk, &quote, cost)), &sw).r;
        let e = s.as_ref().err().map(|e| e.text());
        c.chk("trade", s.is_ok(), || format!("buying the whole ask was refused: {:?}", e));
        if s.is_ok() {
            let b0 = w.bank.get(FEE_RECIPIENT, &quote);
            let cl = w.exec(&mk, &[], &format!(r#"{{"claim_limit":{{"tick_id":{tick},"order_id":{id}}}}}"#)).r;
            let raw = maker_value(false, qty, tick);
            let (_, f, _) = split(raw, None, fee);
            let got = w.bank.get(FEE_RECIPIENT, &quote) - b0;
            c.chk("recipient", cl.is_ok() && u(got) == f, || format!("default fee recipient received {got}, expected {f}"));
        }
    } else {
        c.chk("trade", false, || "the first ask was refused".into());
    }
    (inp.clone(), c.bad)
}
