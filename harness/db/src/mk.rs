//! A merk on the in-memory store, and an independent account of what it must hold.
#![allow(dead_code)]
use crate::grove::Scratch;
use grovedb_merk::tree::kv::ValueDefinedCostType;
use grovedb_merk::tree::{AggregateData, Fetch, RefWalker};
use grovedb_merk::{Merk, Op, TreeFeatureType, TreeType};
use grovedb_path::SubtreePath;
use grovedb_storage::rocksdb_storage::{PrefixedRocksDbImmediateStorageContext, PrefixedRocksDbTransactionContext, RocksDbStorage};
use grovedb_storage::{Storage, StorageBatch, StorageContext};
use grovedb_version::version::GroveVersion;
use std::collections::BTreeMap;
use vp::*;

pub type Hash = [u8; 32];
pub type Key = Vec<u8>;

pub const KINDS: [TreeType; 7] = [TreeType::NormalTree, TreeType::SumTree, TreeType::BigSumTree, TreeType::CountTree, TreeType::CountSumTree, TreeType::ProvableCountTree, TreeType::ProvableCountSumTree];
pub fn provable(k: TreeType) -> bool {
    matches!(k, TreeType::ProvableCountTree | TreeType::ProvableCountSumTree)
}

// ---- hashes, written from their definition

fn varint(mut n: usize, out: &mut Vec<u8>) {
    while n >= 0x80 {
        out.push(n as u8 | 0x80);
        n >>= 7;
    }
    out.push(n as u8);
}
pub fn h(parts: &[&[u8]]) -> Hash {
    *blake3::hash(&parts.concat()).as_bytes()
}
pub fn h_value(v: &[u8]) -> Hash {
    let mut b = vec![];
    varint(v.len(), &mut b);
    h(&[&b, v])
}
pub fn h_kv(k: &[u8], value_hash: &Hash) -> Hash {
    let mut b = vec![];
    varint(k.len(), &mut b);
    h(&[&b, k, value_hash])
}
pub fn h_node(kv: &Hash, l: &Hash, r: &Hash, count: Option<u64>) -> Hash {
    match count {
        None => h(&[kv, l, r]),
        Some(c) => h(&[kv, l, r, &c.to_be_bytes()]),
    }
}

// ---- model

#[derive(Clone, PartialEq, Debug)]
pub struct E {
    pub value: Vec<u8>,
    /// Set for values whose hash takes in another one.
    pub below: Option<Hash>,
    pub feature: TreeFeatureType,
}
impl E {
    pub fn value_hash(&self) -> Hash {
        let v = h_value(&self.value);
        self.below.map_or(v, |b| h(&[&v, &b]))
    }
    pub fn count(&self) -> u64 {
        use TreeFeatureType::*;
        match self.feature {
            CountedMerkNode(c) | CountedSummedMerkNode(c, _) | ProvableCountedMerkNode(c) | ProvableCountedSummedMerkNode(c, _) => c,
            _ => 0,
        }
    }
    pub fn sum(&self) -> i128 {
        use TreeFeatureType::*;
        match self.feature {
            SummedMerkNode(s) | CountedSummedMerkNode(_, s) | ProvableCountedSummedMerkNode(_, s) => s as i128,
            BigSummedMerkNode(s) => s,
            _ => 0,
        }
    }
}
pub type Model = BTreeMap<Key, E>;
pub fn show(m: &Model) -> String {
    let v: Vec<String> = m.iter().map(|(k, e)| format!("{}:{}{}{}", vp::hex(k), vp::hex(&e.value), if e.below.is_some() { "^" } else { "" }, if e.feature == TreeFeatureType::BasicMerkNode { String::new() } else { format!(" {:?}", e.feature) })).collect();
    format!("{{{}}}", v.join(", "))
}
pub fn feature(kind: TreeType, count: u64, sum: i128) -> TreeFeatureType {
    use TreeFeatureType::*;
    match kind {
        TreeType::SumTree => SummedMerkNode(sum as i64),
        TreeType::BigSumTree => BigSummedMerkNode(sum),
        TreeType::CountTree => CountedMerkNode(count),
        TreeType::CountSumTree => CountedSummedMerkNode(count, sum as i64),
        TreeType::ProvableCountTree => ProvableCountedMerkNode(count),
        TreeType::ProvableCountSumTree => ProvableCountedSummedMerkNode(count, sum as i64),
        _ => BasicMerkNode,
    }
}
pub fn aggregate(kind: TreeType, count: u64, sum: i128) -> AggregateData {
    match kind {
        TreeType::SumTree => AggregateData::Sum(sum as i64),
        TreeType::BigSumTree => AggregateData::BigSum(sum),
        TreeType::CountTree => AggregateData::Count(count),
        TreeType::CountSumTree => AggregateData::CountAndSum(count, sum as i64),
        TreeType::ProvableCountTree => AggregateData::ProvableCount(count),
        TreeType::ProvableCountSumTree => AggregateData::ProvableCountAndSum(count, sum as i64),
        _ => AggregateData::NoAggregateData,
    }
}
pub fn gen_entry(g: &mut G, kind: TreeType) -> E {
    let count = match g.below(6) { 0 => 0, 1 => g.below(100), _ => 1 };
    let sum = match g.below(4) { 0 => 0, 1 => g.below(2000) as i128 - 1000, 2 => (g.u64b() >> 8) as i128, _ => -((g.u64b() >> 8) as i128) };
    let sum = if kind == TreeType::BigSumTree && g.bool() { sum << 56 } else { sum };
    // numbers in a column of the first byte keep clear of what elements start with, or not
    let value = if g.chance(1, 8) { g.blob(400) } else { g.bytes(0, 8) };
    E { value, below: if g.chance(1, 5) { Some(g.hash32()) } else { None }, feature: feature(kind, count, sum) }
}
pub fn put(e: &E) -> Op {
    match e.below {
        None => Op::Put(e.value.clone(), e.feature),
        Some(h) => Op::PutCombinedReference(e.value.clone(), h, e.feature),
    }
}

// ---- the store

pub type Mk<'a> = Merk<PrefixedRocksDbTransactionContext<'a>>;
pub struct Store {
    pub storage: RocksDbStorage,
    _scratch: Scratch,
}
pub const NO_COST: Option<fn(&[u8], &GroveVersion) -> Option<ValueDefinedCostType>> = None;
impl Store {
    pub fn new() -> Store {
        let scratch = Scratch::new();
        let p = scratch.dir("merk");
        Store { storage: RocksDbStorage::default_rocksdb_with_path(&p).expect("storage"), _scratch: scratch }
    }
    /// Opens the merk stored here, and writes what was done to it.
    pub fn session<T>(&self, kind: TreeType, v: &GroveVersion, f: impl FnOnce(&mut Mk) -> R<T>) -> R<T> {
        let batch = StorageBatch::new();
        let tx = self.storage.start_transaction();
        let out = {
            let ctx = self.storage.get_transactional_storage_context(SubtreePath::empty(), Some(&batch), &tx).unwrap();
            let mut m = Merk::open_base(ctx, kind, NO_COST, v).unwrap().map_err(|e| Fail::new("open", format!("merk does not open: {e}")))?;
            f(&mut m)?
        };
        self.storage.commit_multi_context_batch(batch, Some(&tx)).unwrap().map_err(|e| Fail::new("commit", format!("commit: {e}")))?;
        self.storage.commit_transaction(tx).unwrap().map_err(|e| Fail::new("commit", format!("commit: {e}")))?;
        Ok(out)
    }
    /// The same, writing at once, so that what was written can be written over.
    pub fn at_once<T>(&self, kind: TreeType, v: &GroveVersion, f: impl FnOnce(&mut Merk<PrefixedRocksDbImmediateStorageContext>) -> R<T>) -> R<T> {
        let tx = self.storage.start_transaction();
        let out = {
            let ctx = self.storage.get_immediate_storage_context(SubtreePath::empty(), &tx).unwrap();
            let mut m = Merk::open_base(ctx, kind, NO_COST, v).unwrap().map_err(|e| Fail::new("open", format!("merk does not open: {e}")))?;
            f(&mut m)?
        };
        self.storage.commit_transaction(tx).unwrap().map_err(|e| Fail::new("commit", format!("commit: {e}")))?;
        Ok(out)
    }
    pub fn filled(m: &Model, kind: TreeType, g: &mut G, v: &GroveVersion) -> R<Store> {
        let s = Store::new();
        let mut rest: Vec<(Key, Op)> = m.iter().map(|(k, e)| (k.clone(), put(e))).collect();
        s.at_once(kind, v, |mk| {
            // in some order, in some pieces
            while !rest.is_empty() {
                let n = if g.bool() { rest.len() } else { 1 + g.below(rest.len() as u64) as usize };
                let mut part = vec![];
                for _ in 0..n { let i = if n == rest.len() { 0 } else { g.below(rest.len() as u64) as usize }; part.push(rest.remove(i)); }
                part.sort_by(|a, b| a.0.cmp(&b.0));
                mk.apply::<_, Vec<u8>>(&part, &[], None, v).unwrap().map_err(|e| Fail::new("apply", format!("apply: {e}")))?;
            }
            Ok(())
        })?;
        Ok(s)
    }
}

// ---- shape

pub struct Shape {
    pub hash: Hash,
    pub height: u8,
    pub count: u64,
    pub sum: i128,
    pub keys: Vec<Key>,
}
pub const NULL: Shape = Shape { hash: [0; 32], height: 0, count: 0, sum: 0, keys: vec![] };
/// Walks a tree, checking all it keeps about itself.
pub fn shape<S: Fetch + Sized + Clone>(w: &mut RefWalker<S>, kind: TreeType, m: &Model, v: &GroveVersion) -> R<Shape> {
    let mut side = |left: bool| -> R<Shape> {
        let told = w.tree().link(left).map(|l| (*l.hash(), l.height(), l.aggregate_data(), l.key().to_vec()));
        let c = w.walk(left, None::<&fn(&[u8], &GroveVersion) -> Option<ValueDefinedCostType>>, v).unwrap();
        match c {
            Err(e) => fail!("child does not load: {e}"),
            Ok(None) => { ensure!(told.is_none(), "a link to nothing"); Ok(NULL) }
            Ok(Some(mut c)) => {
                let key = c.tree().key().to_vec();
                let s = shape(&mut c, kind, m, v)?;
                ensure_eq!(told, Some((s.hash, s.height, aggregate(kind, s.count, s.sum), key)), "link to a child");
                Ok(s)
            }
        }
    };
    let l = side(true)?;
    let r = side(false)?;
    let t = w.tree();
    let k = t.key().to_vec();
    let Some(e) = m.get(&k) else { fail!("the tree holds {}, which is not there", vp::hex(&k)) };
    ensure_eq!(t.value_as_slice(), e.value.as_slice(), "value of {}", vp::hex(&k));
    ensure_eq!(t.feature_type(), e.feature, "feature of {}", vp::hex(&k));
    ensure_eq!(*t.value_hash(), e.value_hash(), "value hash of {}", vp::hex(&k));
    let kv = h_kv(&k, &e.value_hash());
    ensure_eq!(*t.kv_hash(), kv, "key-value hash of {}", vp::hex(&k));
    ensure!(l.height.abs_diff(r.height) <= 1, "unbalanced: {} and {} below {}", l.height, r.height, vp::hex(&k));
    let (count, sum) = (l.count + r.count + e.count(), l.sum + r.sum + e.sum());
    let height = l.height.max(r.height) + 1;
    ensure_eq!((t.height(), t.child_heights()), (height, (l.height, r.height)), "height");
    ensure_eq!(t.aggregate_data().ok(), Some(aggregate(kind, count, sum)), "aggregate of {}", vp::hex(&k));
    let hash = h_node(&kv, &l.hash, &r.hash, provable(kind).then_some(count));
    ensure_eq!(t.hash_for_link(kind).unwrap(), hash, "hash of {}", vp::hex(&k));
    let mut keys = l.keys;
    keys.push(k);
    keys.extend(r.keys);
    Ok(Shape { hash, height, count, sum, keys })
}
/// Checks that the open merk holds exactly the model.
pub fn holds<'db, C: StorageContext<'db>>(mk: &Merk<C>, kind: TreeType, m: &Model, v: &GroveVersion) -> R<Shape> {
    let s = mk.walk(|w| match w { None => Ok(NULL), Some(mut w) => shape(&mut w, kind, m, v) })?;
    ensure!(s.keys.iter().eq(m.keys()), "keys in the tree\n  {:?}\n  {:?}", s.keys, m.keys());
    ensure_eq!(mk.root_hash().unwrap(), s.hash, "root hash");
    ensure_eq!(mk.height().unwrap_or(0), s.height, "height");
    let want = if m.is_empty() { AggregateData::NoAggregateData } else { aggregate(kind, s.count, s.sum) };
    ensure_eq!(mk.aggregate_data().ok(), Some(want), "aggregate");
    let (h, k, a) = mk.root_hash_key_and_aggregate_data().unwrap().map_err(|e| e.to_string())?;
    ensure_eq!((h, k, a), (s.hash, mk.root_key(), want), "root hash, key and aggregate");
    Ok(s)
}
