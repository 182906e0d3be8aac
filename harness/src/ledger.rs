//! The cancellation ledger: the stored tree of cancelled queue positions, judged against the cancels that happened.
use cosmwasm_std::Uint256;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

const D18: &str = "000000000000000000";

/// a stored decimal that must be a whole number
fn whole(v: &Value) -> Result<Uint256, String> {
    let s = v.as_str().ok_or("decimal is not text")?;
    let (i, f) = s.split_once('.').unwrap_or((s, ""));
    if f.bytes().any(|b| b != b'0') || f.len() > D18.len() {
        return Err(format!("fractional amount {s}"));
    }
    i.parse().map_err(|_| format!("bad amount {s}"))
}

#[derive(Clone, Debug)]
pub struct Node {
    pub key: u64,
    pub bid: bool,
    pub left: Option<u64>,
    pub right: Option<u64>,
    pub parent: Option<u64>,
    /// leaf: (position, amount)
    pub leaf: Option<(Uint256, Uint256)>,
    /// inner: (sum, from, to, height)
    pub inner: Option<(Uint256, Uint256, Uint256, u64)>,
}

pub struct Ledger {
    pub nodes: BTreeMap<u64, Node>,
    pub roots: [Option<u64>; 2],
    pub counter: Option<u64>,
}

fn pre(ns: &str, tick: i64) -> Vec<u8> {
    let mut k = vec![0, ns.len() as u8];
    k.extend_from_slice(ns.as_bytes());
    k.extend_from_slice(&[0, 8]);
    k.extend_from_slice(&((tick as u64) ^ (1u64 << 63)).to_be_bytes());
    k
}

/// None when the stored layout is not the known one
pub fn read(data: &BTreeMap<Vec<u8>, Vec<u8>>, tick: i64) -> Option<Result<Ledger, String>> {
    let scan = |p: Vec<u8>| -> Vec<(Vec<u8>, Value)> {
        data.range(p.clone()..)
            .take_while(|(k, _)| k.starts_with(&p))
            .filter_map(|(k, v)| serde_json::from_slice(v).ok().map(|v| (k[p.len()..].to_vec(), v)))
            .collect()
    };
    let mut l = Ledger { nodes: BTreeMap::new(), roots: [None, None], counter: None };
    for (k, v) in scan(pre("nodes", tick)) {
        let o = v.as_object()?;
        let id = |f: &str| o.get(f).and_then(|x| x.as_u64());
        let key = id("key")?;
        let bid = match o.get("direction")?.as_str()? {
            "bid" => true,
            "ask" => false,
            _ => return None,
        };
        let t = o.get("node_type")?.as_object()?;
        let mut n = Node { key, bid, left: id("left"), right: id("right"), parent: id("parent"), leaf: None, inner: None };
        let r: Result<(), String> = (|| {
            if let Some(x) = t.get("leaf") {
                n.leaf = Some((whole(&x["etas"])?, whole(&x["value"])?));
            } else if let Some(x) = t.get("internal") {
                let w = x["weight"].as_u64().ok_or("no height")?;
                n.inner = if n.left.is_none() && n.right.is_none() {
                    // the range of nothing says nothing
                    Some((whole(&x["accumulator"])?, Uint256::zero(), Uint256::zero(), w))
                } else {
                    Some((whole(&x["accumulator"])?, whole(&x["range"][0])?, whole(&x["range"][1])?, w))
                };
            }
            if k.len() == 8 && u64::from_be_bytes(k.clone().try_into().unwrap()) != key {
                return Err(format!("node {key} is stored under another number"));
            }
            if o.get("tick_id").and_then(|x| x.as_i64()) != Some(tick) {
                return Err(format!("node {key} names level {:?}", o.get("tick_id")));
            }
            Ok(())
        })();
        if let Err(e) = r {
            return Some(Err(format!("node {key}: {e}")));
        }
        if n.leaf.is_none() && n.inner.is_none() {
            return None;
        }
        l.nodes.insert(key, n);
    }
    for (k, v) in scan(pre("tree", tick)) {
        let s = match k.as_slice() {
            b"ask" => 0,
            b"bid" => 1,
            _ => return None,
        };
        l.roots[s] = Some(v.as_u64()?);
    }
    let p = {
        let mut k = vec![0, 7];
        k.extend_from_slice(b"node_id");
        k.extend_from_slice(&((tick as u64) ^ (1u64 << 63)).to_be_bytes());
        k
    };
    l.counter = data.get(&p).and_then(|v| serde_json::from_slice::<Value>(v).ok()).and_then(|v| v.as_u64());
    Some(Ok(l))
}

pub struct Shape {
    pub leaves: Vec<(Uint256, Uint256)>,
    pub height: u64,
}

/// every structural rule of one side's tree; the leaves in order
pub fn judge(l: &Ledger, bid: bool, seen: &mut BTreeSet<u64>) -> Result<Shape, (&'static str, String)> {
    let mut sh = Shape { leaves: vec![], height: 0 };
    let root = match l.roots[bid as usize] {
        None => return Ok(sh),
        Some(r) => r,
    };
    if !l.nodes.contains_key(&root) {
        // a root that was announced but never filled
        return Ok(sh);
    }
    let r = &l.nodes[&root];
    if r.bid == bid && r.parent.is_none() && r.left.is_none() && r.right.is_none() && r.inner.map_or(false, |x| x.0.is_zero()) {
        // stored, but nothing was cancelled yet
        seen.insert(root);
        return Ok(sh);
    }
    let h = walk(l, bid, root, None, &mut sh.leaves, seen, 0)?;
    sh.height = h.3;
    for w in sh.leaves.windows(2) {
        if w[0].0 + w[0].1 > w[1].0 {
            return Err(("order", format!("entries {:?} and {:?} overlap or are out of order", w[0], w[1])));
        }
    }
    Ok(sh)
}

type Sum = (Uint256, Uint256, Uint256, u64);
fn walk(
    l: &Ledger,
    bid: bool,
    key: u64,
    parent: Option<u64>,
    leaves: &mut Vec<(Uint256, Uint256)>,
    seen: &mut BTreeSet<u64>,
    depth: usize,
) -> Result<Sum, (&'static str, String)> {
    let n = l.nodes.get(&key).ok_or(("link", format!("node {key} is missing")))?;
    if !seen.insert(key) || depth > 4000 {
        return Err(("link", format!("node {key} is reached twice")));
    }
    if n.bid != bid {
        return Err(("link", format!("node {key} belongs to the other side")));
    }
    if n.parent != parent {
        return Err(("link", format!("node {key} names parent {:?}, but hangs below {:?}", n.parent, parent)));
    }
    if let Some((p, v)) = n.leaf {
        if n.left.is_some() || n.right.is_some() {
            return Err(("link", format!("leaf {key} has children")));
        }
        if v.is_zero() {
            return Err(("order", format!("leaf {key} is empty")));
        }
        leaves.push((p, v));
        return Ok((v, p, p + v, 1));
    }
    let st = n.inner.unwrap();
    let a = n.left.map(|c| walk(l, bid, c, Some(key), leaves, seen, depth + 1)).transpose()?;
    let b = n.right.map(|c| walk(l, bid, c, Some(key), leaves, seen, depth + 1)).transpose()?;
    let sum = match (a, b) {
        (None, None) => return Err(("link", format!("inner node {key} has no children"))),
        (Some(x), None) | (None, Some(x)) => (x.0, x.1, x.2, x.3 + 1),
        (Some(x), Some(y)) => (x.0 + y.0, x.1.min(y.1), x.2.max(y.2), x.3.max(y.3) + 1),
    };
    if (st.0, st.1, st.2) != (sum.0, sum.1, sum.2) {
        return Err(("sum", format!("inner node {key} records (sum, from, to) {:?}, its entries give {:?}", (st.0, st.1, st.2), (sum.0, sum.1, sum.2))));
    }
    if st.3 != sum.3 {
        return Err(("height", format!("inner node {key} records height {}, it is {}", st.3, sum.3)));
    }
    let (ha, hb) = (a.map_or(0, |x| x.3), b.map_or(0, |x| x.3));
    if ha.abs_diff(hb) > 1 {
        return Err(("balance", format!("below node {key} the heights are {ha} and {hb}")));
    }
    Ok(sum)
}
