//! Monitored key-value store: undo journal (transaction rollback) and access counters.
use cosmwasm_std::{Order, Record, Storage};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::ops::Bound;
use std::rc::Rc;

#[derive(Clone, Copy, Default, Debug)]
pub struct Cost {
    pub reads: u64,
    pub writes: u64,
    pub iters: u64,
}
impl Cost {
    pub fn total(&self) -> u64 {
        self.reads + self.writes + self.iters
    }
}

pub struct MonStorage {
    pub data: BTreeMap<Vec<u8>, Vec<u8>>,
    journal: Option<Vec<(Vec<u8>, Option<Vec<u8>>)>>,
    reads: Cell<u64>,
    writes: Cell<u64>,
    iters: Rc<Cell<u64>>,
    pub gas_limit: u64,
}

/// Marker panic payload text used when one call touches the store more often than the limit allows.
pub const OUT_OF_GAS: &str = "obmon: storage access budget exhausted";

impl Default for MonStorage {
    fn default() -> Self {
        MonStorage {
            data: BTreeMap::new(),
            journal: None,
            reads: Cell::new(0),
            writes: Cell::new(0),
            iters: Rc::new(Cell::new(0)),
            gas_limit: 150_000,
        }
    }
}
impl Clone for MonStorage {
    fn clone(&self) -> Self {
        MonStorage {
            data: self.data.clone(),
            journal: None,
            reads: Cell::new(0),
            writes: Cell::new(0),
            iters: Rc::new(Cell::new(0)),
            gas_limit: self.gas_limit,
        }
    }
}

impl MonStorage {
    pub fn begin(&mut self) {
        self.journal = Some(Vec::new());
        self.reset_cost();
    }
    pub fn reset_cost(&self) {
        self.reads.set(0);
        self.writes.set(0);
        self.iters.set(0);
    }
    pub fn cost(&self) -> Cost {
        Cost {
            reads: self.reads.get(),
            writes: self.writes.get(),
            iters: self.iters.get(),
        }
    }
    pub fn commit(&mut self) {
        self.journal = None;
    }
    pub fn rollback(&mut self) {
        if let Some(j) = self.journal.take() {
            for (k, old) in j.into_iter().rev() {
                match old {
                    Some(v) => {
                        self.data.insert(k, v);
                    }
                    None => {
                        self.data.remove(&k);
                    }
                }
            }
        }
    }
    fn gas(&self) {
        if self.reads.get() + self.writes.get() + self.iters.get() > self.gas_limit {
            panic!("{}", OUT_OF_GAS);
        }
    }
}

struct Counted<'a> {
    inner: Box<dyn Iterator<Item = Record> + 'a>,
    n: Rc<Cell<u64>>,
    limit: u64,
}
impl<'a> Iterator for Counted<'a> {
    type Item = Record;
    fn next(&mut self) -> Option<Record> {
        self.n.set(self.n.get() + 1);
        if self.n.get() > self.limit {
            panic!("{}", OUT_OF_GAS);
        }
        self.inner.next()
    }
}

impl Storage for MonStorage {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.reads.set(self.reads.get() + 1);
        self.gas();
        self.data.get(key).cloned()
    }
    fn range<'a>(
        &'a self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'a> {
        let inner: Box<dyn Iterator<Item = Record> + 'a> = match (start, end) {
            (Some(s), Some(e)) if s > e => Box::new(std::iter::empty()),
            _ => {
                let lo = start.map_or(Bound::Unbounded, |s| Bound::Included(s.to_vec()));
                let hi = end.map_or(Bound::Unbounded, |e| Bound::Excluded(e.to_vec()));
                let it = self
                    .data
                    .range((lo, hi))
                    .map(|(k, v)| (k.clone(), v.clone()));
                match order {
                    Order::Ascending => Box::new(it),
                    Order::Descending => Box::new(it.rev()),
                }
            }
        };
        Box::new(Counted {
            inner,
            n: self.iters.clone(),
            limit: self.gas_limit,
        })
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        if value.is_empty() {
            // the wasm VM refuses empty values
            panic!("empty value written to storage");
        }
        self.writes.set(self.writes.get() + 1);
        self.gas();
        let old = self.data.insert(key.to_vec(), value.to_vec());
        if let Some(j) = self.journal.as_mut() {
            j.push((key.to_vec(), old));
        }
    }
    fn remove(&mut self, key: &[u8]) {
        self.writes.set(self.writes.get() + 1);
        self.gas();
        let old = self.data.remove(key);
        if let Some(j) = self.journal.as_mut() {
            j.push((key.to_vec(), old));
        }
    }
}
