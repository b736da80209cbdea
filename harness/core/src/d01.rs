//! D01: fixed-capacity list commitments. D02: fixed-capacity list proofs.
use crate::m01::{b3, H};
use crate::mock::Mock;
use grovedb_dense_fixed_sized_merkle_tree::*;
use grovedb_query::{Query, QueryItem};
use std::collections::{BTreeMap, BTreeSet};
use std::ops::RangeFull;
use vp::*;

/// Reference hash of the subtree at a position.
fn rhash(vals: &[Vec<u8>], cap: usize, p: usize) -> H {
    if p >= vals.len() || p >= cap {
        return [0; 32];
    }
    b3(&[&b3(&[&vals[p]]), &rhash(vals, cap, 2 * p + 1), &rhash(vals, cap, 2 * p + 2)])
}
pub fn rroot(vals: &[Vec<u8>], h: u8) -> H {
    rhash(vals, (1 << h) - 1, 0)
}
pub fn value(g: &mut G) -> Vec<u8> {
    match g.below(6) {
        0 => vec![],
        1 => g.blob(32),
        2 => g.blob(96),
        3 => {
            let n = g.skewed(1, 200);
            g.blob(n)
        }
        _ => g.bytes(1, 3),
    }
}
fn height(g: &mut G) -> u8 {
    match g.below(8) {
        0 => 1,
        1 => 6,
        2 => 16,
        _ => g.range(1, 5) as u8,
    }
}

/// `Mock` behind a reference, so that a tree can be reopened over the same store.
mod byref {
    use super::Mock;
    use grovedb_costs::{storage_cost::key_value_cost::KeyValueStorageCost, ChildrenSizesWithIsSumTree, CostResult};
    use grovedb_storage::{Error, StorageContext};
    pub struct S<'a>(pub &'a Mock);
    macro_rules! fwd {
        ($($f:ident),*; $($d:ident),*; $($r:ident),*) => {
            $(fn $f<K: AsRef<[u8]>>(&self, k: K, v: &[u8], c: Option<KeyValueStorageCost>) -> CostResult<(), Error> { self.0.$f(k, v, c) })*
            $(fn $d<K: AsRef<[u8]>>(&self, k: K, c: Option<KeyValueStorageCost>) -> CostResult<(), Error> { self.0.$d(k, c) })*
            $(fn $r<K: AsRef<[u8]>>(&self, k: K) -> CostResult<Option<Vec<u8>>, Error> { self.0.$r(k) })*
        };
    }
    impl<'db> StorageContext<'db> for S<'_> {
        type Batch = crate::mock::NoBatch;
        type RawIterator = crate::mock::NoIter;
        fn put<K: AsRef<[u8]>>(&self, k: K, v: &[u8], s: ChildrenSizesWithIsSumTree, c: Option<KeyValueStorageCost>) -> CostResult<(), Error> {
            self.0.put(k, v, s, c)
        }
        fwd!(put_aux, put_root, put_meta; delete, delete_aux, delete_root, delete_meta; get, get_aux, get_root, get_meta);
        fn new_batch(&self) -> Self::Batch {
            crate::mock::NoBatch
        }
        fn commit_batch(&self, b: Self::Batch) -> CostResult<(), Error> {
            self.0.commit_batch(b)
        }
        fn raw_iter(&self) -> Self::RawIterator {
            crate::mock::NoIter
        }
    }
}
pub use byref::S;
type Tree<'a> = DenseFixedSizedMerkleTree<S<'a>>;

fn history(g: &mut G) -> R {
    let h = height(g);
    let cap = (1usize << h) - 1;
    let st = Mock::new();
    let mut t = Tree::new(h, S(&st)).map_err(|e| e.to_string())?;
    let mut vals: Vec<Vec<u8>> = vec![];
    let mut kinds = BTreeSet::new();
    g.note(|| format!("height {h}"));
    for _ in 0..g.size(1, 40) {
        let op = g.weighted(&[8, 8, 3, 2, 1, 4]);
        kinds.insert(op);
        match op {
            0 | 1 => {
                let v = value(g);
                g.note(|| format!("{} {}", ["insert", "try_insert"][op], hex(&v)));
                let room = vals.len() < cap;
                let got = if op == 0 {
                    match t.insert(&v).unwrap() {
                        Ok(x) => Some(x),
                        Err(DenseMerkleError::TreeFull { capacity, count }) => {
                            ensure_eq!((capacity as usize, count as usize), (cap, cap), "full report");
                            None
                        }
                        Err(e) => fail!("insert failed: {e}"),
                    }
                } else {
                    t.try_insert(&v).unwrap().map_err(|e| e.to_string())?
                };
                ensure_eq!(got.is_some(), room, "inserted into a list of {} of {cap}", vals.len());
                if let Some((root, p)) = got {
                    ensure_eq!(p as usize, vals.len(), "position");
                    vals.push(v);
                    ensure_eq!(root, rroot(&vals, h), "root after inserting #{p}");
                } else {
                    kinds.insert(10);
                }
            }
            2 => {
                let p = g.below((vals.len() + 3) as u64) as usize;
                let p = if g.chance(1, 10) { u16::MAX as usize } else { p };
                let got = t.get(p as u16).unwrap().map_err(|e| e.to_string())?;
                ensure_eq!(got, vals.get(p).cloned(), "value at {p} of {}", vals.len());
            }
            3 => {
                g.note(|| "reopen".into());
                t = Tree::from_state(h, vals.len() as u16, S(&st)).map_err(|e| e.to_string())?;
            }
            4 => {
                g.note(|| "reset".into());
                t.reset();
                vals.clear();
            }
            _ => {
                let r = t.root_hash();
                ensure_eq!(r.value.map_err(|e| e.to_string()), Ok(rroot(&vals, h)), "root of {}", vals.len());
                // the cost does not depend on what happens to be cached
                let fresh = Tree::from_state(h, vals.len() as u16, S(&st)).map_err(|e| e.to_string())?;
                let f = fresh.root_hash();
                ensure_eq!(f.value.map_err(|e| e.to_string()), Ok(rroot(&vals, h)), "root of a reopened list of {}", vals.len());
                ensure_eq!(f.cost, r.cost, "cost of the root, reopened and not");
                ensure_eq!(r.cost.hash_node_calls as usize, 2 * vals.len(), "hash calls for {} values", vals.len());
            }
        }
        ensure_eq!((t.count() as usize, t.capacity() as usize, t.height()), (vals.len(), cap, h), "count, capacity, height");
    }
    ensure_eq!(t.root_hash().unwrap().map_err(|e| e.to_string()), Ok(rroot(&vals, h)), "final root");
    for (p, v) in vals.iter().enumerate() {
        ensure_eq!(t.get(p as u16).unwrap().map_err(|e| e.to_string()), Ok(Some(v.clone())), "value {p}");
        let mut key = vec![b'd'];
        key.extend(position_key(p as u16));
        ensure_eq!(key[1..].to_vec(), (p as u16).to_be_bytes().to_vec(), "key of {p}");
        ensure!(st.data.borrow().get(&key) == Some(v), "stored value {p}");
    }
    // what is refused
    for bad in [0u8, 17, 32, 255] {
        ensure!(Tree::new(bad, S(&st)).is_err(), "height {bad} accepted");
        ensure!(Tree::from_state(bad, 0, S(&st)).is_err(), "height {bad} accepted");
    }
    if h < 16 {
        ensure!(Tree::from_state(h, cap as u16 + 1, S(&st)).is_err(), "count {} accepted for height {h}", cap + 1);
    }
    ensure!(Tree::from_state(h, cap as u16, S(&st)).is_ok(), "count {cap} refused for height {h}");
    g.label_if(kinds.contains(&10), "full");
    g.label_if(kinds.contains(&3), "reopened");
    g.label_if(kinds.contains(&4), "reset");
    g.nontrivial_if(vals.len() >= 3 && kinds.len() >= 3);
    Ok(())
}

fn build<'a>(st: &'a Mock, h: u8, vals: &[Vec<u8>]) -> R<Tree<'a>> {
    let mut d = st.data.borrow_mut();
    for (i, v) in vals.iter().enumerate() {
        let mut key = vec![b'd'];
        key.extend((i as u16).to_be_bytes());
        d.insert(key, v.clone());
    }
    Ok(Tree::from_state(h, vals.len() as u16, S(st)).map_err(|e| e.to_string())?)
}
fn filled(g: &mut G, h: u8, lo: usize) -> Vec<Vec<u8>> {
    let cap = ((1usize << h) - 1).min(70);
    let n = if g.chance(1, 4) { cap } else { g.size(lo.min(cap), cap) };
    (0..n).map(|_| value(g)).collect()
}

/// Failing and damaged stores.
fn faults(g: &mut G) -> R {
    let h = g.range(1, 5) as u8;
    let vals = filled(g, h, 0);
    let st = Mock::new();
    let mut t = build(&st, h, &vals)?;
    // a failed insert changes nothing, and succeeds when tried again
    let mut now = vals.clone();
    let mut injected = false;
    for _ in 0..g.size(1, 4) {
        let v = value(g);
        let room = now.len() < t.capacity() as usize;
        st.fail_at.set(Some(st.ops() + g.below(now.len() as u64 + 3)));
        st.failed.set(false);
        let r = if g.bool() { t.insert(&v).unwrap().map(Some) } else { t.try_insert(&v).unwrap() };
        st.fail_at.set(None);
        let hit = st.failed.get();
        injected |= hit;
        match r {
            Ok(Some((root, p))) => {
                ensure!(!hit, "an insert succeeded although the store failed");
                ensure_eq!(p as usize, now.len(), "position");
                now.push(v);
                ensure_eq!(root, rroot(&now, h), "root");
            }
            Ok(None) | Err(DenseMerkleError::TreeFull { .. }) => ensure!(!room && !hit, "full at {} values", now.len()),
            Err(e) => {
                ensure!(hit, "an insert failed although the store did not: {e}");
                ensure_eq!(t.count() as usize, now.len(), "count after a failed insert");
                ensure_eq!(t.root_hash().unwrap().map_err(|e| e.to_string()), Ok(rroot(&now, h)), "root after a failed insert");
                ensure_eq!(t.get(now.len() as u16).unwrap().map_err(|e| e.to_string()), Ok(None), "value after a failed insert");
                if g.bool() {
                    let (root, p) = t.insert(&v).unwrap().map_err(|e| format!("second try failed: {e}"))?;
                    ensure_eq!(p as usize, now.len(), "position at the second try");
                    now.push(v);
                    ensure_eq!(root, rroot(&now, h), "root after the second try");
                }
            }
        }
    }
    // a lost value is an error, never another root or an absent value
    if !now.is_empty() {
        let f = st.fork();
        let p = g.below(now.len() as u64) as u16;
        let mut key = vec![b'd'];
        key.extend(p.to_be_bytes());
        f.data.borrow_mut().remove(&key);
        let t = Tree::from_state(h, now.len() as u16, S(&f)).map_err(|e| e.to_string())?;
        ensure!(t.root_hash().unwrap().is_err(), "a root was computed without value {p}");
        ensure!(t.get(p).unwrap().is_err(), "lost value {p} reported as absent");
        let q = g.below(now.len() as u64) as u16;
        if let Ok(pr) = DenseTreeProof::generate(&t, &[q]).unwrap() {
            fail!("a proof of {q} was made without value {p}: {pr:?}");
        }
    }
    g.label_if(injected, "failure injected");
    g.nontrivial_if(injected && now.len() > 1);
    Ok(())
}

pub fn d01() -> Vec<Section> {
    vec![
        section("history", "inserts, reads, reopens, resets over heights 1-16 against a reference; non-trivial: 3+ values and 3 kinds of step", 30_000, 400_000, history),
        section("faults", "failing and lossy stores; non-trivial: a failure was injected and 2+ values", 60_000, 600_000, faults),
    ]
}

// ---------------------------------------------------------------- D02

fn pos_bytes(g: &mut G, n: u64) -> (u64, Vec<u8>) {
    let p = match g.below(6) {
        0 => g.below(4),
        1 => *g.pick(&[254, 255, 256, 257, 65534, 65535]),
        2 => n.saturating_sub(1) + g.below(3),
        _ => g.below(n + 2),
    };
    if p < 256 && g.bool() {
        (p, vec![p as u8])
    } else {
        (p, (p as u16).to_be_bytes().to_vec())
    }
}
/// A query item over positions, and which positions below `n` it selects.
fn pos_item(g: &mut G, n: u64, bytes: &mut dyn FnMut(&mut G, u64) -> (u64, Vec<u8>)) -> (QueryItem, Box<dyn Fn(u64) -> bool>) {
    let (a, ab) = bytes(g, n);
    let (b, bb) = bytes(g, n);
    match g.below(10) {
        0 | 1 => (QueryItem::Key(ab), Box::new(move |p| p == a)),
        2 => (QueryItem::Range(ab..bb), Box::new(move |p| a <= p && p < b)),
        3 => (QueryItem::RangeInclusive(ab..=bb), Box::new(move |p| a <= p && p <= b)),
        4 => (QueryItem::RangeFull(RangeFull), Box::new(|_| true)),
        5 => (QueryItem::RangeFrom(ab..), Box::new(move |p| a <= p)),
        6 => (QueryItem::RangeTo(..bb), Box::new(move |p| p < b)),
        7 => (QueryItem::RangeToInclusive(..=bb), Box::new(move |p| p <= b)),
        8 => (QueryItem::RangeAfter(ab..), Box::new(move |p| a < p)),
        _ => {
            if g.bool() {
                (QueryItem::RangeAfterTo(ab..bb), Box::new(move |p| a < p && p < b))
            } else {
                (QueryItem::RangeAfterToInclusive(ab..=bb), Box::new(move |p| a < p && p <= b))
            }
        }
    }
}
pub fn pos_query(g: &mut G, n: u64, bytes: &mut dyn FnMut(&mut G, u64) -> (u64, Vec<u8>)) -> (Query, BTreeSet<u64>) {
    let its = g.list(0, 4, |g| pos_item(g, n, bytes));
    let mut q = Query::new();
    let mut want = BTreeSet::new();
    for (it, f) in its {
        q.items.push(it);
        want.extend((0..n).filter(|p| f(*p)));
    }
    q.left_to_right = g.bool();
    (q, want)
}

fn complete(g: &mut G) -> R {
    let h = height(g);
    let vals = filled(g, h, 0);
    let n = vals.len();
    let root = rroot(&vals, h);
    let st = Mock::new();
    let t = build(&st, h, &vals)?;
    // by positions
    let pos: Vec<u16> = if n == 0 { vec![] } else { g.list(0, 6, |g| g.below(n as u64) as u16) };
    let set: BTreeSet<u16> = pos.iter().copied().collect();
    let want: Vec<(u16, Vec<u8>)> = set.iter().map(|p| (*p, vals[*p as usize].clone())).collect();
    g.note(|| format!("height {h}, {n} values, positions {pos:?}"));
    let p = DenseTreeProof::generate(&t, &pos).unwrap().map_err(|e| format!("proof refused: {e}"))?;
    ensure_eq!(p.entries, want, "entries");
    let got: Vec<(u16, Vec<u8>)> = p.verify_against_expected_root(&root, h, n as u16).map_err(|e| format!("honest proof of {pos:?} refused: {e}"))?;
    ensure_eq!(got, want, "verified");
    let bytes = p.encode_to_vec().map_err(|e| e.to_string())?;
    let d = DenseTreeProof::decode_from_slice(&bytes).map_err(|e| format!("own encoding refused: {e}"))?;
    ensure_eq!((&d.entries, &d.node_value_hashes, &d.node_hashes), (&p.entries, &p.node_value_hashes, &p.node_hashes), "decoded");
    ensure_eq!(d.encode_to_vec().ok(), Some(bytes), "re-encoded");
    let (r, m): (H, BTreeMap<u16, Vec<u8>>) = d.verify_and_get_root(h, n as u16).map_err(|e| format!("honest proof refused: {e}"))?;
    ensure_eq!((r, m.into_iter().collect::<Vec<_>>()), (root, want), "root and entries");
    let mut other = root;
    other[g.below(32) as usize] ^= 1 << g.below(8);
    ensure!(p.verify_against_expected_root::<Vec<_>>(&other, h, n as u16).is_err(), "verified against another root");
    ensure!(DenseTreeProof::generate(&t, &[n as u16]).unwrap().is_err(), "position {n} of {n} proved");
    // nothing goes into it besides
    if n > 0 {
        let mut d = DenseTreeProof { entries: p.entries.clone(), node_value_hashes: p.node_value_hashes.clone(), node_hashes: p.node_hashes.clone() };
        let vh = |x: u16| if (x as usize) < n { b3(&[&vals[x as usize]]) } else { [0; 32] };
        let e = g.below(p.entries.len().max(1) as u64) as usize;
        let cap = (1usize << h) - 1;
        let ok = match g.below(8) {
            0 if !p.entries.is_empty() => { let x = d.entries[e].clone(); d.entries.insert(g.below(d.entries.len() as u64 + 1) as usize, x); "an entry twice" }
            1 if !p.entries.is_empty() => { let x = &d.entries[e]; d.node_value_hashes.push((x.0, b3(&[&x.1]))); "an entry with its value hash" }
            2 if !p.entries.is_empty() => {
                let mut a = d.entries[e].0;
                while a > 0 && g.bool() { a = (a - 1) / 2 }
                d.node_value_hashes.retain(|x| x.0 != a);
                d.node_hashes.push((a, rhash(&vals, cap, a as usize)));
                "the hash of an entry's ancestor"
            }
            3 if !p.node_value_hashes.is_empty() => { let x = *g.pick(&d.node_value_hashes); d.node_value_hashes.push(x); "a value hash twice" }
            4 if !p.node_hashes.is_empty() => { let x = *g.pick(&d.node_hashes); d.node_hashes.push(x); "a hash twice" }
            5 if !p.node_value_hashes.is_empty() => { let x = g.pick(&d.node_value_hashes).0; d.node_hashes.push((x, rhash(&vals, cap, x as usize))); "a hash with a value hash" }
            6 if !p.node_hashes.is_empty() => { let x = g.pick(&d.node_hashes).0; d.node_value_hashes.push((x, vh(x))); "a value hash with a hash" }
            _ => { d.entries.push(((n as u64 + g.below(3)).min(u16::MAX as u64) as u16, value(g))); "an entry at a position not there" }
        };
        ensure!(d.verify_against_expected_root::<Vec<_>>(&root, h, n as u16).is_err() && d.verify_and_get_root::<Vec<_>>(h, n as u16).is_err(), "a proof of {pos:?} with {ok} verifies");
    }
    // by query
    let (q, want) = pos_query(g, n as u64, &mut |g, n| pos_bytes(g, n));
    let want: Vec<(u16, Vec<u8>)> = want.iter().map(|p| (*p as u16, vals[*p as usize].clone())).collect();
    g.note(|| format!("query {:?}", q.items));
    let p = DenseTreeProof::generate_for_query(&t, &q).unwrap().map_err(|e| format!("query {:?} over {n} values refused: {e}", q.items))?;
    let (r, got): (H, Vec<(u16, Vec<u8>)>) = p.verify_for_query(&q, h, n as u16).map_err(|e| format!("honest proof of query {:?} over {n} values refused: {e}", q.items))?;
    ensure_eq!(got, want, "query result");
    ensure_eq!(r, root, "root by query");
    // the proof of another query does not pass for this one
    let (q2, want2) = pos_query(g, n as u64, &mut |g, n| pos_bytes(g, n));
    let same = want2.iter().map(|p| *p as u16).eq(want.iter().map(|w| w.0));
    let v = p.verify_for_query::<Vec<_>>(&q2, h, n as u16);
    ensure!(v.is_ok() == same, "proof of {:?} checked against {:?} over {n} values: {:?}", q.items, q2.items, v.map(|x| x.1));
    // positions are one or two bytes, and only positions can be asked for
    let mut bad = q.clone();
    let l = *g.pick(&[0usize, 3, 4, 8]);
    let k = g.blob(l);
    bad.items.push(match g.below(3) {
        0 => QueryItem::Key(k),
        1 => QueryItem::RangeFrom(k..),
        _ => QueryItem::RangeToInclusive(..=k),
    });
    ensure!(DenseTreeProof::generate_for_query(&t, &bad).unwrap().is_err(), "a {l}-byte position was accepted");
    ensure!(p.verify_for_query::<Vec<_>>(&bad, h, n as u16).is_err(), "a {l}-byte position was accepted");
    let mut sub = q.clone();
    sub.set_subquery(Query::new_range_full());
    ensure!(DenseTreeProof::generate_for_query(&t, &sub).unwrap().is_err(), "a subquery was accepted");
    ensure!(p.verify_for_query::<Vec<_>>(&sub, h, n as u16).is_err(), "a subquery was accepted");
    g.label_if(n == 0, "empty list");
    g.label_if(want.is_empty(), "empty result");
    g.nontrivial_if(n >= 3 && !want.is_empty());
    Ok(())
}

fn sound(g: &mut G) -> R {
    let h = g.range(1, 6) as u8;
    let vals = filled(g, h, 1);
    let n = vals.len() as u64;
    let root = rroot(&vals, h);
    let st = Mock::new();
    let t = build(&st, h, &vals)?;
    let cap = (1usize << h) - 1;
    let pos: Vec<u16> = g.list(1, 5, |g| g.below(n) as u16);
    let honest = DenseTreeProof::generate(&t, &pos).unwrap().map_err(|e| e.to_string())?;
    let mut p = honest.clone();
    let any_pos = |g: &mut G| match g.below(4) {
        0 => g.below(cap as u64 + 2) as u16,
        1 => n as u16,
        _ => g.below(n) as u16,
    };
    let true_hash = |g: &mut G| rhash(&vals, cap, g.below(n) as usize);
    let mut what = vec![];
    for _ in 0..g.size(1, 3) {
        let op = g.below(13);
        what.push(op);
        let (ne, nv, nh) = (p.entries.len() as u64, p.node_value_hashes.len() as u64, p.node_hashes.len() as u64);
        match op {
            0 if ne > 0 => {
                let i = g.below(ne) as usize;
                p.entries[i].1 = value(g);
            }
            1 if ne > 0 => {
                let i = g.below(ne) as usize;
                p.entries[i].0 = any_pos(g);
            }
            2 if ne > 0 => {
                p.entries.remove(g.below(ne) as usize);
            }
            3 => {
                let e = (any_pos(g), if g.bool() { value(g) } else { vals[g.below(n) as usize].clone() });
                p.entries.insert(g.below(ne + 1) as usize, e);
            }
            4 if ne > 0 => {
                // entry to value hash
                let e = p.entries.remove(g.below(ne) as usize);
                p.node_value_hashes.push((e.0, b3(&[&e.1])));
            }
            5 if nv > 0 => {
                let i = g.below(nv) as usize;
                let e = p.node_value_hashes[i];
                match g.below(4) {
                    0 => p.node_value_hashes[i].1 = g.hash32(),
                    1 => p.node_value_hashes[i].0 = any_pos(g),
                    2 => {
                        p.node_value_hashes.remove(i);
                    }
                    _ => p.node_hashes.push((e.0, rhash(&vals, cap, e.0 as usize))),
                }
            }
            6 if nh > 0 => {
                let i = g.below(nh) as usize;
                match g.below(3) {
                    0 => p.node_hashes[i].1 = g.hash32(),
                    1 => p.node_hashes[i].0 = any_pos(g),
                    _ => {
                        p.node_hashes.remove(i);
                    }
                }
            }
            7 => {
                let x = any_pos(g);
                let hsh = if g.bool() { rhash(&vals, cap, x as usize) } else { true_hash(g) };
                p.node_hashes.insert(g.below(nh + 1) as usize, (x, hsh));
            }
            8 => {
                let x = any_pos(g);
                p.node_value_hashes.insert(g.below(nv + 1) as usize, (x, b3(&[&vals[(x as usize).min(vals.len() - 1)]])));
            }
            9 => {
                // cut off at an ancestor: its true hash, with the entries below left dangling
                let mut a = pos[0];
                while a > 0 && g.bool() {
                    a = (a - 1) / 2;
                }
                p.node_value_hashes.retain(|e| e.0 != a);
                p.node_hashes.push((a, rhash(&vals, cap, a as usize)));
            }
            10 => {
                // an entry that spells out a node's preimage
                let a = g.below(n) as usize;
                let mut v = b3(&[&vals[a]]).to_vec();
                v.extend(rhash(&vals, cap, 2 * a + 1));
                v.extend(rhash(&vals, cap, 2 * a + 2));
                let x = any_pos(g);
                p.entries.retain(|e| e.0 != x);
                p.entries.push((x, v));
            }
            11 if ne > 1 => {
                let (i, j) = (g.below(ne) as usize, g.below(ne) as usize);
                let v = p.entries[i].1.clone();
                p.entries[i].1 = std::mem::replace(&mut p.entries[j].1, v);
            }
            _ => {
                if !p.entries.is_empty() {
                    let e = p.entries[0].clone();
                    p.entries.push((e.0, value(g)));
                }
            }
        }
    }
    let changed = p.entries != honest.entries || p.node_value_hashes != honest.node_value_hashes || p.node_hashes != honest.node_hashes;
    g.note(|| format!("height {h}, {n} values, proof of {pos:?} changed by {what:?} to {:?} / {:?} / {:?}", p.entries.iter().map(|e| (e.0, hex(&e.1))).collect::<Vec<_>>(), p.node_value_hashes.iter().map(|e| e.0).collect::<Vec<_>>(), p.node_hashes.iter().map(|e| e.0).collect::<Vec<_>>()));
    let check = |out: &[(u16, Vec<u8>)], by: &str| -> R {
        let mut seen = BTreeSet::new();
        for (i, v) in out {
            ensure!(seen.insert(*i), "{by}: position {i} reported twice");
            ensure!(vals.get(*i as usize) == Some(v), "{by}: position {i} reported as {}", hex(v));
        }
        Ok(())
    };
    let mut ok = false;
    if let Ok(out) = p.verify_against_expected_root::<Vec<_>>(&root, h, n as u16) {
        check(&out, "verification")?;
        ok = true;
    }
    if let Ok((r, out)) = p.verify_and_get_root::<Vec<_>>(h, n as u16) {
        if r == root {
            check(&out, "root calculation")?;
            ensure!(ok, "the two ways of verifying disagree");
        }
    }
    let (q, want) = pos_query(g, n, &mut |g, n| pos_bytes(g, n));
    if let Ok((r, out)) = p.verify_for_query::<Vec<_>>(&q, h, n as u16) {
        if r == root {
            check(&out, "query verification")?;
            ensure_eq!(out.iter().map(|e| e.0 as u64).collect::<BTreeSet<_>>(), want, "positions accepted for {:?}", q.items);
        }
    }
    g.label_if(ok && changed, "changed and still verifies");
    g.nontrivial_if(changed);
    Ok(())
}

fn robust(g: &mut G) -> R {
    let bytes = if g.bool() {
        let h = g.range(1, 5) as u8;
        let vals = filled(g, h, 1);
        let st = Mock::new();
        let t = build(&st, h, &vals)?;
        let pos = g.list(1, 4, |g| g.below(vals.len() as u64) as u16);
        let mut b = DenseTreeProof::generate(&t, &pos).unwrap().map_err(|e| e.to_string())?.encode_to_vec().map_err(|e| e.to_string())?;
        for _ in 0..g.size(1, 4) {
            let i = g.below(b.len() as u64 + 1) as usize;
            match g.below(3) {
                0 if i < b.len() => b[i] = *g.pick(&[0, 1, 2, 127, 250, 251, 252, 253, 255]),
                1 => b.insert(i, *g.pick(&[0, 1, 250, 251, 252, 253])),
                _ => b.truncate(i),
            }
        }
        b
    } else {
        g.bytes(0, 30)
    };
    g.note(|| hex(&bytes));
    alloc_reset();
    let d = DenseTreeProof::decode_from_slice(&bytes);
    ensure!(alloc_peak() < 350 << 20, "decoding {} bytes allocated {}", bytes.len(), alloc_peak());
    let p = d.unwrap_or_else(|_| DenseTreeProof {
        entries: g.list(0, 4, |g| (g.below(65536) as u16, g.bytes(0, 2))),
        node_value_hashes: g.list(0, 4, |g| (g.below(8) as u16, g.hash32())),
        node_hashes: g.list(0, 4, |g| (g.below(16) as u16, g.hash32())),
    });
    let h = if g.bool() { g.range(1, 16) as u8 } else { *g.pick(&[0, 17, 31, 32, 64, 255]) };
    let n = match g.below(3) {
        0 => g.below(9) as u16,
        1 => ((1u64 << h.min(16)) - g.below(2)).min(65535) as u16,
        _ => g.below(65536) as u16,
    };
    let over = h == 0 || h > 16 || n as u32 > (1u32 << h) - 1;
    let r = p.verify_and_get_root::<Vec<_>>(h, n);
    ensure!(!(over && r.is_ok()), "height {h} with {n} values accepted");
    let root = g.hash32();
    ensure!(p.verify_against_expected_root::<Vec<_>>(&root, h, n).is_err(), "verified against a random root");
    let (q, _) = pos_query(g, 9, &mut |g, n| pos_bytes(g, n));
    let _ = p.verify_for_query::<Vec<_>>(&q, h, n);
    g.nontrivial_if(r.is_ok());
    Ok(())
}

pub fn d02() -> Vec<Section> {
    vec![
        section("complete", "proofs of position sets and queries over lists of height 1-16; non-trivial: 3+ values and a non-empty result", 30_000, 400_000, complete),
        section("sound", "proofs changed in 1-3 ways; non-trivial: the proof really differs", 80_000, 1_000_000, sound),
        section("robust", "damaged and arbitrary proofs, heights and counts; non-trivial: a root is computed", 80_000, 1_000_000, robust),
    ]
}
