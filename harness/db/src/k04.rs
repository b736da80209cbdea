//! K04: a merk is the map its operations describe: balanced, hashed, aggregated, and the same when reopened.
use crate::grove::version;
use crate::mk::*;
use crate::qgen::*;
use grovedb_merk::{KVIterator, Merk, Op, TreeType};
use grovedb_query::Query;
use grovedb_storage::{RawIterator, StorageContext};
use grovedb_version::version::GroveVersion;
use std::collections::{BTreeMap, BTreeSet};
use vp::*;

fn key(g: &mut G, m: &Model, wide: bool) -> Key {
    if !m.is_empty() && g.chance(2, 5) {
        let i = g.below(m.len() as u64) as usize;
        return m.keys().nth(i).unwrap().clone();
    }
    if wide { vec![g.byte(), g.below(4) as u8] } else { small_key(g, 1, 3) }
}
fn batch(g: &mut G, m: &Model, kind: TreeType, wide: bool) -> Vec<(Key, Op, Option<E>)> {
    let mut b: BTreeMap<Key, (Op, Option<E>)> = BTreeMap::new();
    let n = if wide { g.skewed(1, 40) } else { g.size(1, 6) };
    let deletes = *g.pick(&[1u64, 3, 7]);
    if g.chance(1, 12) {
        // everything, or all but one
        for k in m.keys().skip(g.below(2) as usize) { b.insert(k.clone(), (Op::Delete, None)); }
    }
    for _ in 0..n {
        let k = key(g, m, wide);
        if g.chance(deletes, 8) && m.contains_key(&k) {
            let op = match g.below(4) { 0 => Op::DeleteMaybeSpecialized, 1 => Op::DeleteLayered, 2 => Op::DeleteLayeredMaybeSpecialized, _ => Op::Delete };
            b.insert(k, (op, None));
        } else {
            let e = gen_entry(g, kind);
            let op = match (g.below(4), e.below) {
                (0, Some(h)) => Op::PutLayeredReference(e.value.clone(), 2 + e.value.len() as u32, h, e.feature),
                (1, Some(h)) if m.contains_key(&k) => Op::ReplaceLayeredReference(e.value.clone(), 2 + e.value.len() as u32, h, e.feature),
                (0, None) => Op::PutWithSpecializedCost(e.value.clone(), 8, e.feature),
                _ => put(&e),
            };
            b.insert(k, (op, Some(e)));
        }
    }
    b.into_iter().map(|(k, (o, e))| (k, o, e)).collect()
}
fn reads<'db, C: StorageContext<'db>>(g: &mut G, mk: &Merk<C>, m: &Model, stored: bool, v: &GroveVersion) -> R {
    for _ in 0..3 {
        let k = key(g, m, false);
        let want = m.get(&k);
        for cache in [true, false] {
            if !cache && !stored { continue }
            let c = if cache { "cached" } else { "direct" };
            ensure_eq!(mk.get(&k, cache, NO_COST, v).unwrap().map_err(|e| e.to_string())?, want.map(|e| e.value.clone()), "{c} get of {}", vp::hex(&k));
            ensure_eq!(mk.get_feature_type(&k, cache, NO_COST, v).unwrap().map_err(|e| e.to_string())?, want.map(|e| e.feature), "{c} feature of {}", vp::hex(&k));
            ensure_eq!(mk.get_value_hash(&k, cache, NO_COST, v).unwrap().map_err(|e| e.to_string())?, want.map(|e| e.value_hash()), "{c} value hash of {}", vp::hex(&k));
            ensure_eq!(mk.get_kv_hash(&k, cache, NO_COST, v).unwrap().map_err(|e| e.to_string())?, want.map(|e| h_kv(&k, &e.value_hash())), "{c} kv hash of {}", vp::hex(&k));
            ensure_eq!(mk.get_value_and_value_hash(&k, cache, NO_COST, v).unwrap().map_err(|e| e.to_string())?, want.map(|e| (e.value.clone(), e.value_hash())), "{c} value and hash of {}", vp::hex(&k));
        }
        ensure_eq!(mk.exists_by_traversing_tree(&k, NO_COST, v).unwrap().map_err(|e| e.to_string())?, want.is_some(), "exists {}", vp::hex(&k));
        if stored { ensure_eq!(mk.exists(&k, NO_COST, v).unwrap().map_err(|e| e.to_string())?, want.is_some(), "exists {}", vp::hex(&k)) }
    }
    Ok(())
}
/// What lies in the store, and what iterating over it gives.
fn stored<'db, C: StorageContext<'db>>(g: &mut G, mk: &Merk<C>, m: &Model) -> R {
    let mut keys = BTreeSet::new();
    let mut it = mk.storage.raw_iter();
    it.seek_to_first().unwrap();
    while it.valid().unwrap() {
        keys.insert(it.key().unwrap().unwrap().to_vec());
        it.next().unwrap();
    }
    ensure!(keys.iter().eq(m.keys()), "the store holds other nodes than the tree\n  {keys:?}\n  {:?}", m.keys());
    ensure_eq!(mk.is_empty_tree().unwrap(), m.is_empty(), "empty");
    let mut some = BTreeSet::new();
    for k in m.keys() { if !g.chance(1, 8) { some.insert(k.as_slice()); } }
    let other = key(g, m, true);
    some.insert(&other);
    ensure_eq!(mk.is_empty_tree_except(some.clone()).unwrap(), m.keys().all(|k| some.contains(k.as_slice())), "empty except");
    let mut q = Query::new_with_direction(g.bool());
    for _ in 0..g.size(1, 3) {
        let i = item(g);
        if !degenerate(&i) { q.insert_item(i) }
    }
    let mut it = KVIterator::new(mk.storage.raw_iter(), &q).unwrap();
    let mut got = vec![];
    while let Some((k, _)) = it.next_kv().unwrap() { got.push(k) }
    let mut want: Vec<Key> = m.keys().filter(|k| q.items.iter().any(|i| matches(i, k))).cloned().collect();
    if !q.left_to_right { want.reverse() }
    ensure_eq!(got, want, "iteration of {}", show_q(&q));
    Ok(())
}
fn show_q(q: &Query) -> String {
    crate::qgen::show(q)
}
/// Reads all there is, then applies batches.
fn steps<'db, C: StorageContext<'db>>(g: &mut G, mk: &mut Merk<C>, (kind, wide, n): (TreeType, bool, usize), m: &mut Model, aux: &mut BTreeMap<Key, Vec<u8>>, root: Hash, v: &GroveVersion) -> R<Hash> {
    ensure_eq!(mk.root_hash().unwrap(), root, "root hash of a reopened merk");
    holds(mk, kind, m, v)?;
    reads(g, mk, m, true, v)?;
    stored(g, mk, &m)?;
    let (bad, _) = mk.verify(false, v);
    ensure!(bad.is_empty(), "a sound merk does not verify: {bad:?}");
    for (k, a) in aux.iter() { ensure_eq!(mk.get_aux(k).unwrap().ok().flatten(), Some(a.clone()), "aux") }
    for _ in 0..n {
        let b = batch(g, m, kind, wide);
        let ops: Vec<(Key, Op)> = b.iter().map(|(k, o, _)| (k.clone(), o.clone())).collect();
        if ops.len() > 1 && g.chance(1, 10) {
            let mut bad = ops.clone();
            if g.bool() { bad.swap(0, 1) } else { bad[1].0 = bad[0].0.clone() }
            ensure!(mk.apply::<_, Vec<u8>>(&bad, &[], None, v).unwrap().is_err(), "an unsorted batch is applied");
            ensure_eq!(holds(mk, kind, m, v)?.keys.len(), m.len(), "after a refused batch");
        }
        let told: Vec<String> = ops.iter().map(|(k, o)| format!("{}{}", if std::matches!(o, Op::Delete | Op::DeleteMaybeSpecialized | Op::DeleteLayered | Op::DeleteLayeredMaybeSpecialized) { "-" } else { "+" }, vp::hex(k))).collect();
        let before = crate::mk::show(m);
        g.note(|| format!("{kind:?} {before} {}", told.join(" ")));
        let ctx = |f: Fail| Fail::new(f.sig, format!("{}\n  {kind:?} {before}\n  {}", f.msg, told.join(" ")));
        let mut a: Vec<(Key, Op, Option<grovedb_costs::storage_cost::key_value_cost::KeyValueStorageCost>)> = vec![];
        if g.chance(1, 6) {
            let (k, val) = (g.bytes(1, 3), g.bytes(0, 4));
            if aux.contains_key(&k) && g.bool() { aux.remove(&k); a.push((k, Op::Delete, None)) } else { aux.insert(k.clone(), val.clone()); a.push((k, Op::Put(val, grovedb_merk::TreeFeatureType::BasicMerkNode), None)) }
        }
        match no_panic(|| mk.apply(&ops, &a, None, v).unwrap()) {
            Err(p) => return Err(ctx(Fail::new("panic", format!("apply panicked: {p}")))),
            Ok(Err(e)) => return Err(ctx(Fail::new("apply", format!("apply refused: {e}")))),
            Ok(Ok(())) => {}
        }
        for (k, _, e) in b { match e { Some(e) => { m.insert(k, e); } None => { m.remove(&k); } } }
        holds(mk, kind, m, v).map_err(ctx)?;
        reads(g, mk, m, false, v).map_err(ctx)?;
    }
    Ok(mk.root_hash().unwrap())
}
fn history(g: &mut G) -> R {
    let v = version(g);
    let kind = *g.pick(&KINDS);
    let wide = g.chance(1, 3);
    let s = Store::new();
    let mut m = Model::new();
    let mut root = [0u8; 32];
    let mut aux: BTreeMap<Key, Vec<u8>> = BTreeMap::new();
    for _ in 0..g.size(1, 6) {
        root = if g.chance(1, 3) {
            let n = g.size(1, 3);
            s.at_once(kind, v, |mk| steps(g, mk, (kind, wide, n), &mut m, &mut aux, root, v))?
        } else {
            s.session(kind, v, |mk| steps(g, mk, (kind, wide, 1), &mut m, &mut aux, root, v))?
        };
    }
    let deep = s.session(kind, v, |mk| {
        ensure_eq!(mk.root_hash().unwrap(), root, "root hash of a reopened merk");
        let h = holds(mk, kind, &m, v)?.height;
        reads(g, mk, &m, true, v)?;
        stored(g, mk, &m)?;
        Ok(h)
    })?;
    g.nontrivial_if(deep > 2);
    g.label_if(deep > 4, "deep");
    if g.chance(1, 6) {
        s.session(kind, v, |mk| { mk.clear().unwrap().map_err(|e| e.to_string())?; Ok(()) })?;
        s.session(kind, v, |mk| { holds(mk, kind, &Model::new(), v)?; stored(g, mk, &Model::new()) })?;
    }
    Ok(())
}

pub fn sections() -> Vec<Section> {
    vec![section("histories", "a tree of three levels or more at the end", 60_000, 1_500_000, history)]
}
