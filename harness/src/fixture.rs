//! Books stored by an earlier build of the contract (raw key/value state), used as starting points.
use crate::chain::{Bank, World};
use crate::engine::{Cat, Engine, Flags};
use crate::model::Model;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize)]
pub struct Fixture {
    pub name: String,
    pub height: u64,
    pub time: u64,
    /// hex key -> hex value
    pub store: Vec<(String, String)>,
    pub bank: Bank,
    pub model: Model,
}

const DATA: &[&str] = &[
    include_str!("../fixtures/f0.json"),
    include_str!("../fixtures/f1.json"),
    include_str!("../fixtures/f2.json"),
    include_str!("../fixtures/f3.json"),
    include_str!("../fixtures/f4.json"),
    include_str!("../fixtures/f5.json"),
    include_str!("../fixtures/f6.json"),
    include_str!("../fixtures/f7.json"),
    include_str!("../fixtures/f8.json"),
    include_str!("../fixtures/f9.json"),
    include_str!("../fixtures/f10.json"),
    include_str!("../fixtures/f11.json"),
    include_str!("../fixtures/f12.json"),
    include_str!("../fixtures/f13.json"),
    include_str!("../fixtures/f14.json"),
    include_str!("../fixtures/f15.json"),
    include_str!("../fixtures/f16.json"),
    include_str!("../fixtures/f17.json"),
    include_str!("../fixtures/f18.json"),
    include_str!("../fixtures/f19.json"),
];

pub fn count() -> usize {
    DATA.len()
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// Remove `"placed_at":"…"` from a stored order, as in records written before that field existed.
fn strip_placed_at(v: &[u8]) -> Option<Vec<u8>> {
    let s = std::str::from_utf8(v).ok()?;
    let i = s.find(",\"placed_at\":\"")?;
    let j = s[i + 14..].find('"')? + i + 15;
    Some(format!("{}{}", &s[..i], &s[j..]).into_bytes())
}

pub fn engine(i: usize, strip: bool, flags: Flags, cats: &'static [&'static str]) -> Result<Engine, String> {
    thread_local! {
        static PARSED: std::cell::RefCell<std::collections::HashMap<usize, std::rc::Rc<Fixture>>> = Default::default();
    }
    let f = PARSED.with(|p| {
        p.borrow_mut()
            .entry(i)
            .or_insert_with(|| std::rc::Rc::new(serde_json::from_str(DATA[i % DATA.len()]).expect("fixture")))
            .clone()
    });
    let mut w = World {
        height: f.height + 1000,
        time: f.time + 86_400_000_000_000,
        bank: f.bank.clone(),
        ..World::default()
    };
    let mut m = f.model.clone();
    let mut n = 0u64;
    for (k, v) in &f.store {
        let mut v = unhex(v);
        if strip {
            if let Some(x) = strip_placed_at(&v) {
                v = x;
                n += 1;
            }
        }
        w.store.data.insert(unhex(k), v);
    }
    if strip {
        for l in m.levels.values_mut() {
            for q in l.q.iter_mut() {
                for o in q.values_mut() {
                    o.at = 0;
                }
            }
        }
    }
    let mut e = Engine::with_world(w, flags, cats);
    e.m = m;
    e.st.bump("records_without_placed_at", n);
    // the upgrade itself
    let r = e.w.call(crate::chain::Call::Migrate { msg: "{}" });
    let t = r.r.as_ref().err().map(|x| x.text());
    let c: Cat = ("upgrade", "migrate", "");
    e.chk(c, t.is_none(), Some(i as u64), || format!("migrate over stored state failed: {:?}", t));
    e.check_all("upgrade");
    crate::props::ck_upgrade(&mut e, 0);
    Ok(e)
}
