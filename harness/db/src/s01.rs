//! S01: subtrees are separate ordered stores, written atomically.
use crate::grove::{refs, Scratch};
use grovedb_costs::storage_cost::key_value_cost::KeyValueStorageCost;
use grovedb_costs::storage_cost::removal::StorageRemovedBytes::{BasicStorageRemoval, NoStorageRemoval};
use grovedb_costs::storage_cost::StorageCost;
use grovedb_costs::OperationCost;
use grovedb_path::SubtreePath;
use grovedb_storage::rocksdb_storage::RocksDbStorage;
use grovedb_storage::worst_case_costs::WorstKeyLength;
use grovedb_storage::{Batch, RawIterator, Storage, StorageBatch, StorageContext};
use std::collections::{BTreeMap, BTreeSet};
use vp::*;

type Prefix = [u8; 32];
type Key = Vec<u8>;
/// Data, aux, roots, meta: raw keys (prefix and key) to values.
type State = [BTreeMap<Key, Vec<u8>>; 4];
const CF: [&str; 4] = ["default", "aux", "roots", "meta"];

fn varlen(n: usize) -> u32 {
    let (mut n, mut l) = (n, 1);
    while n >= 0x80 { n >>= 7; l += 1 }
    l
}
fn expected_prefix(path: &[Key]) -> Prefix {
    if path.is_empty() { return [0; 32] }
    *blake3::hash(&body(path)).as_bytes()
}
fn body(path: &[Key]) -> Vec<u8> {
    let mut b: Vec<u8> = path.iter().rev().flatten().copied().collect();
    b.extend((path.len() as u64).to_le_bytes());
    b.extend(path.iter().rev().map(|s| s.len() as u8));
    b
}
fn show_path(p: &[Key]) -> String { p.iter().map(|k| hex(k)).collect::<Vec<_>>().join("/") }

/// A subtree, by path or by prefix.
#[derive(Clone)]
struct Sub { path: Option<Vec<Key>>, prefix: Prefix }
fn gen_sub(g: &mut G, had: &[Sub]) -> Sub {
    if !had.is_empty() && g.chance(2, 5) {
        // the prefix right before or after another one
        let near = g.pick(had).prefix;
        let mut p = near;
        let up = g.bool();
        for i in (0..32).rev() {
            p[i] = if up { p[i].wrapping_add(1) } else { p[i].wrapping_sub(1) };
            if p[i] != if up { 0 } else { 0xff } { break }
        }
        if p != [0xff; 32] && !had.iter().any(|h| h.prefix == p) { return Sub { path: None, prefix: p } }
    }
    if g.chance(1, 6) {
        let mut p = [0xff; 32];
        p[g.size(0, 31)] = g.byte();
        if p != [0xff; 32] { return Sub { path: None, prefix: p } }
    }
    let path: Vec<Key> = if !had.is_empty() && g.bool() {
        let mut p = g.pick(had).path.clone().unwrap_or_default();
        if p.is_empty() || g.bool() { p.push(g.bytes(0, 2)) } else { p.pop(); }
        p
    } else { g.list(0, 3, |g| g.bytes(0, 3)) };
    let prefix = expected_prefix(&path);
    Sub { path: Some(path), prefix }
}
fn gen_key(g: &mut G, s: &Sub, subs: &[Sub]) -> Key {
    let k = match g.weighted(&[8, 1, 1]) { 0 => g.bytes(0, 2), 1 => g.bytes(1, 40), _ => vec![0xff; g.range(1, 3) as usize] };
    // an empty key of the prefix right after another one is no key a subtree of that one's neighbourhood can have
    let raw_next = k.is_empty() && s.path.is_none() || k.is_empty() && subs.iter().any(|o| o.path.is_none());
    if raw_next { vec![0] } else { k }
}
fn raw(s: &Sub, k: &[u8]) -> Key { [s.prefix.as_slice(), k].concat() }

macro_rules! tx_ctx {
    ($st:expr, $s:expr, $batch:expr, $tx:expr) => {
        match &$s.path {
            Some(p) => { let r = refs(p); $st.get_transactional_storage_context(SubtreePath::from(r.as_slice()), $batch, $tx).unwrap() }
            None => $st.get_transactional_storage_context_by_subtree_prefix($s.prefix, $batch, $tx).unwrap(),
        }
    };
}
macro_rules! now_ctx {
    ($st:expr, $s:expr, $tx:expr) => {
        match &$s.path {
            Some(p) => { let r = refs(p); $st.get_immediate_storage_context(SubtreePath::from(r.as_slice()), $tx).unwrap() }
            None => $st.get_immediate_storage_context_by_subtree_prefix($s.prefix, $tx).unwrap(),
        }
    };
}
fn put_on<'db, C: StorageContext<'db>>(c: &C, cf: usize, k: &[u8], v: &[u8]) -> Result<(), String> {
    match cf { 0 => c.put(k, v, None, None), 1 => c.put_aux(k, v, None), 2 => c.put_root(k, v, None), _ => c.put_meta(k, v, None) }.unwrap().map_err(|e| e.to_string())
}
fn delete_on<'db, C: StorageContext<'db>>(c: &C, cf: usize, k: &[u8], cost: Option<KeyValueStorageCost>) -> Result<(), String> {
    match cf { 0 => c.delete(k, cost), 1 => c.delete_aux(k, cost), 2 => c.delete_root(k, cost), _ => c.delete_meta(k, cost) }.unwrap().map_err(|e| e.to_string())
}
fn get_on<'db, C: StorageContext<'db>>(c: &C, cf: usize, k: &[u8]) -> Result<(Option<Vec<u8>>, OperationCost), Fail> {
    let r = match cf { 0 => c.get(k), 1 => c.get_aux(k), 2 => c.get_root(k), _ => c.get_meta(k) };
    Ok((r.value.map_err(|e| Fail::new("get", e.to_string()))?, r.cost))
}
/// Walks an iterator along with the sorted keys of the column.
fn walk<I: RawIterator>(g: &mut G, it: &mut I, s: &Sub, subs: &[Sub], data: &BTreeMap<Key, Vec<u8>>) -> R {
    let all: Vec<(&Key, &Vec<u8>)> = data.iter().collect();
    let inside = |i: &Option<usize>| i.filter(|i| all[*i].0.starts_with(&s.prefix));
    let mut at: Option<usize> = None;
    let steps = g.size(0, 14);
    let mut log = String::new();
    for n in 0..=steps {
        let how = if n == 0 || at.is_none() { g.below(4) as usize } else { g.weighted(&[1, 1, 1, 1, 6, 6]) };
        match how {
            0 => { it.seek_to_first().unwrap(); at = all.iter().position(|(k, _)| **k >= s.prefix.to_vec()); log += " first" }
            1 => { it.seek_to_last().unwrap(); at = all.iter().rposition(|(k, _)| k[..32] <= s.prefix[..]); log += " last" }
            2 => { let k = gen_key(g, s, subs); it.seek(&k).unwrap(); let r = raw(s, &k); at = all.iter().position(|(k, _)| **k >= r); log += &format!(" seek {}", hex(&k)) }
            3 => { let k = gen_key(g, s, subs); it.seek_for_prev(&k).unwrap(); let r = raw(s, &k); at = all.iter().rposition(|(k, _)| **k <= r); log += &format!(" back to {}", hex(&k)) }
            4 => { it.next().unwrap(); at = at.and_then(|i| (i + 1 < all.len()).then_some(i + 1)); log += " next" }
            _ => { it.prev().unwrap(); at = at.and_then(|i| i.checked_sub(1)); log += " prev" }
        }
        let want = inside(&at);
        g.label_if(at.is_some() && want.is_none(), "left the subtree");
        let v = it.valid();
        ensure_eq!(v.value, want.is_some(), "valid after{log}");
        let edge = 32 + 256;
        let klen = want.map_or(edge, |i| all[i].0.len() as u64);
        ensure_eq!(v.cost.storage_loaded_bytes, klen, "cost of valid after{log}");
        let k = it.key();
        ensure_eq!(k.value.map(<[u8]>::to_vec), want.map(|i| all[i].0[32..].to_vec()), "key after{log}");
        ensure_eq!(k.cost.storage_loaded_bytes, klen, "cost of key after{log}");
        let x = it.value();
        ensure_eq!(x.value.map(<[u8]>::to_vec), want.map(|i| all[i].1.clone()), "value after{log}");
        ensure_eq!(x.cost.storage_loaded_bytes, klen + want.map_or(0, |i| all[i].1.len() as u64), "cost of value after{log}");
    }
    Ok(())
}
fn compare(path: &std::path::Path, want: &State, what: &str) -> R {
    let d = rocksdb::control::dump(path);
    for (i, cf) in CF.iter().enumerate() {
        let have: BTreeMap<Key, Vec<u8>> = d.iter().find(|(n, _)| n == cf).map(|(_, l)| l.iter().cloned().collect()).unwrap_or_default();
        if have != want[i] {
            let line = |m: &BTreeMap<Key, Vec<u8>>| m.iter().map(|(k, v)| format!("{}…{}={}", hex(&k[..4]), hex(&k[32..]), hex(v))).collect::<Vec<_>>().join(" ");
            fail!("{what}: column {cf} holds [{}] instead of [{}]", line(&have), line(&want[i]))
        }
    }
    Ok(())
}
fn read_all(g: &mut G, st: &RocksDbStorage, tx: &<RocksDbStorage as Storage<'_>>::Transaction, subs: &[Sub], want: &State, what: &str) -> R {
    let s = g.pick(subs).clone();
    let c = now_ctx!(st, s, tx);
    let t = tx_ctx!(st, s, None, tx);
    for _ in 0..g.size(0, 4) {
        let (cf, k) = (g.below(4) as usize, gen_key(g, &s, subs));
        let w = want[cf].get(&raw(&s, &k)).cloned();
        let (v, _) = get_on(&c, cf, &k)?;
        ensure_eq!(v, w, "{what}: {} {}", CF[cf], hex(&k));
        let (v, cost) = get_on(&t, cf, &k)?;
        ensure_eq!(v, w, "{what} (transactional): {} {}", CF[cf], hex(&k));
        ensure_eq!(cost, OperationCost { seek_count: 1, storage_loaded_bytes: w.map_or(0, |v| v.len() as u64), ..Default::default() }, "cost of reading");
    }
    if g.bool() { walk(g, &mut c.raw_iter(), &s, subs, &want[0]) } else { walk(g, &mut t.raw_iter(), &s, subs, &want[0]) }
}
#[derive(Clone, Debug)]
enum Pending { Put(Vec<u8>, Option<u32>), Delete(Option<u32>) }
fn removal(n: u32) -> KeyValueStorageCost {
    let part = |n: u32| StorageCost { added_bytes: 0, replaced_bytes: 0, removed_bytes: if n == 0 { NoStorageRemoval } else { BasicStorageRemoval(n) } };
    KeyValueStorageCost { key_storage_cost: part(n / 2), value_storage_cost: part(n - n / 2), new_node: false, needs_value_verification: false }
}

fn history(g: &mut G) -> R {
    let scratch = Scratch::new();
    let path = scratch.dir("db");
    let mut st = Some(RocksDbStorage::default_rocksdb_with_path(&path).map_err(|e| Fail::new("open", e.to_string()))?);
    let mut subs: Vec<Sub> = vec![];
    for _ in 0..g.range(2, 5) { let s = gen_sub(g, &subs); if !subs.iter().any(|o| o.prefix == s.prefix) { subs.push(s) } }
    for s in &subs { g.note(|| format!("subtree {} {}", s.path.as_ref().map_or("-".into(), |p| format!("/{}", show_path(p))), hex(&s.prefix[..4]))) }
    let mut done: State = Default::default();
    let mut writes = 0;
    for _ in 0..g.range(1, 4) {
        let storage = st.as_ref().unwrap();
        let tx = storage.start_transaction();
        let mut now = done.clone();
        // whether the transaction has written, be it the same again
        let mut wrote = false;
        for _ in 0..g.range(1, 6) {
            match g.weighted(&[4, 8, 1, 2, 3]) {
                0 => {
                    // writes that are seen at once
                    let s = g.pick(&subs).clone();
                    let c = now_ctx!(storage, s, &tx);
                    for _ in 0..g.range(1, 4) {
                        let (cf, k) = (g.below(4) as usize, gen_key(g, &s, &subs));
                        if g.chance(2, 3) {
                            let v = g.bytes(0, 8);
                            g.note(|| format!("put {} {:?} {}={}", CF[cf], hex(&s.prefix[..2]), hex(&k), hex(&v)));
                            put_on(&c, cf, &k, &v).map_err(|e| Fail::new("put", e))?;
                            now[cf].insert(raw(&s, &k), v);
                        } else {
                            g.note(|| format!("delete {} {:?} {}", CF[cf], hex(&s.prefix[..2]), hex(&k)));
                            delete_on(&c, cf, &k, None).map_err(|e| Fail::new("delete", e))?;
                            now[cf].remove(&raw(&s, &k));
                        }
                        writes += 1;
                        wrote = true;
                    }
                }
                1 => {
                    let batch = StorageBatch::new();
                    let mut pend: [BTreeMap<Key, Pending>; 4] = Default::default();
                    let note = |pend: &mut [BTreeMap<Key, Pending>; 4], cf: usize, k: Key, p: Pending| match (&p, pend[cf].get(&k)) {
                        // a deletion never takes the place of what is pending already
                        (Pending::Delete(_), Some(_)) => {}
                        _ => { pend[cf].insert(k, p); }
                    };
                    for _ in 0..g.range(1, 4) {
                        let s = g.pick(&subs).clone();
                        let mut c = tx_ctx!(storage, s, Some(&batch), &tx);
                        let part = g.bool();
                        let mut b = c.new_batch();
                        let mut partial: [BTreeMap<Key, Pending>; 4] = Default::default();
                        if !part && g.chance(1, 5) {
                            g.note(|| format!("clear {}", hex(&s.prefix[..2])));
                            c.clear().unwrap().map_err(|e| Fail::new("clear", e.to_string()))?;
                            for k in now[0].keys().filter(|k| k.starts_with(&s.prefix)) { note(&mut pend, 0, k.clone(), Pending::Delete(None)) }
                            g.label("clear");
                            continue;
                        }
                        for _ in 0..g.range(1, 5) {
                            let cf = g.below(if part { 3 } else { 4 }) as usize;
                            let k = gen_key(g, &s, &subs);
                            let p = if g.chance(2, 3) { Pending::Put(g.bytes(0, 8), (part && cf == 0 && g.bool()).then(|| g.below(100) as u32)) } else { Pending::Delete(g.bool().then(|| g.below(100) as u32)) };
                            g.note(|| format!("batched{} {} {} {}: {}", if part { " part" } else { "" }, CF[cf], hex(&s.prefix[..2]), hex(&k), match &p { Pending::Put(v, c) => format!("put {} {c:?}", hex(v)), p => format!("{p:?}") }));
                            if part {
                                match &p {
                                    Pending::Put(v, cost) => match cf {
                                        0 => b.put(&k, v, None, cost.map(|n| KeyValueStorageCost { value_storage_cost: StorageCost { added_bytes: n, ..Default::default() }, new_node: true, needs_value_verification: false, ..Default::default() })),
                                        1 => b.put_aux(&k, v, None),
                                        _ => b.put_root(&k, v, None),
                                    }.map_err(|e| Fail::new("part", e.to_string()))?,
                                    Pending::Delete(n) => match cf { 0 => b.delete(&k, n.map(removal)), 1 => b.delete_aux(&k, n.map(removal)), _ => b.delete_root(&k, n.map(removal)) },
                                }
                                note(&mut partial, cf, raw(&s, &k), p);
                            } else {
                                match &p {
                                    Pending::Put(v, _) => put_on(&c, cf, &k, v),
                                    Pending::Delete(n) => delete_on(&c, cf, &k, n.map(removal)),
                                }.map_err(|e| Fail::new("batched", e))?;
                                note(&mut pend, cf, raw(&s, &k), p);
                            }
                        }
                        if part && g.chance(5, 6) {
                            c.commit_batch(b).unwrap().map_err(|e| Fail::new("merge", e.to_string()))?;
                            for (cf, m) in partial.into_iter().enumerate() { for (k, p) in m { note(&mut pend, cf, k, p) } }
                        }
                    }
                    ensure_eq!(batch.len(), pend.iter().map(|m| m.len()).sum::<usize>(), "length of the batch");
                    ensure_eq!(batch.is_empty(), pend.iter().all(|m| m.is_empty()), "emptiness of the batch");
                    read_all(g, storage, &tx, &subs, &now, "before the batch is applied")?;
                    if g.chance(1, 8) { g.note(|| "batch dropped".into()); continue }
                    // what applying it costs
                    let mut cost = OperationCost::default();
                    for (cf, m) in pend.iter().enumerate() {
                        for (k, p) in m {
                            cost.seek_count += 1;
                            let klen = k.len() as u32 + varlen(k.len());
                            match p {
                                Pending::Put(v, None) => if cf != 2 { cost.storage_cost.added_bytes += klen + v.len() as u32 + varlen(v.len()) },
                                Pending::Put(_, Some(n)) => cost.storage_cost.added_bytes += klen + n,
                                Pending::Delete(Some(n)) => cost.storage_cost.removed_bytes += removal(*n).combined_removed_bytes(),
                                Pending::Delete(None) => {
                                    cost.seek_count += 1;
                                    let l = if cf == 0 { done[0].get(k) } else { done[cf].get(k) }.map_or(0, |v| v.len());
                                    cost.storage_loaded_bytes += l as u64;
                                    cost.storage_cost.removed_bytes += BasicStorageRemoval(klen + l as u32 + varlen(l));
                                }
                            }
                        }
                    }
                    let apply = |to: &mut State| for (cf, m) in pend.iter().enumerate() {
                        for (k, p) in m { match p { Pending::Put(v, _) => { to[cf].insert(k.clone(), v.clone()); } Pending::Delete(_) => { to[cf].remove(k); } } }
                    };
                    writes += pend.iter().map(|m| m.len()).sum::<usize>();
                    if !wrote && g.chance(1, 4) {
                        // straight to the database
                        let fault = g.chance(1, 3) && pend.iter().any(|m| !m.is_empty());
                        if fault { rocksdb::control::fail_after(&path, Some(0)) }
                        let r = storage.commit_multi_context_batch(batch, None);
                        rocksdb::control::fail_after(&path, None);
                        if fault {
                            g.label("failed write");
                            ensure!(r.value.is_err(), "a failed write is reported as a success");
                            ensure_eq!(r.cost.storage_cost, StorageCost::default(), "storage cost of a failed write");
                            compare(&path, &done, "after a failed write")?;
                        } else {
                            r.value.map_err(|e| Fail::new("apply", e.to_string()))?;
                            ensure_eq!(r.cost, cost, "cost of the batch");
                            apply(&mut now);
                            apply(&mut done);
                            compare(&path, &done, "after a batch straight to the database")?;
                        }
                    } else {
                        let r = storage.commit_multi_context_batch(batch, Some(&tx));
                        r.value.map_err(|e| Fail::new("apply", e.to_string()))?;
                        ensure_eq!(r.cost, cost, "cost of the batch");
                        apply(&mut now);
                        wrote = true;
                    }
                    compare(&path, &done, "before the commit")?;
                    g.label("batch");
                }
                2 => {
                    // no batch, no writing
                    let s = g.pick(&subs).clone();
                    let mut c = tx_ctx!(storage, s, None, &tx);
                    let (cf, k) = (g.below(4) as usize, gen_key(g, &s, &subs));
                    ensure!(put_on(&c, cf, &k, b"x").is_err() && delete_on(&c, cf, &k, None).is_err(), "a context without a batch takes writes");
                    let b = c.new_batch();
                    ensure!(c.commit_batch(b).unwrap().is_err(), "a context without a batch takes a batch");
                    let any = now[0].keys().any(|k| k.starts_with(&s.prefix));
                    ensure!(c.clear().unwrap().is_err() == any, "clear without a batch");
                    read_all(g, storage, &tx, &subs, &now, "after refused writes")?;
                }
                3 => {
                    g.note(|| "rollback".into());
                    storage.rollback_transaction(&tx).map_err(|e| Fail::new("rollback", e.to_string()))?;
                    now = done.clone();
                    wrote = false;
                    g.label("rollback");
                    read_all(g, storage, &tx, &subs, &now, "after a rollback")?;
                }
                _ => read_all(g, storage, &tx, &subs, &now, "in the transaction")?,
            }
        }
        compare(&path, &done, "while a transaction is open")?;
        match g.weighted(&[6, 1, 1]) {
            0 => {
                g.note(|| "commit".into());
                storage.commit_transaction(tx).unwrap().map_err(|e| Fail::new("commit", e.to_string()))?;
                done = now;
                g.label("commit");
            }
            1 => {
                let any = now != done;
                rocksdb::control::fail_after(&path, Some(0));
                let r = storage.commit_transaction(tx).unwrap();
                rocksdb::control::fail_after(&path, None);
                ensure!(r.is_err() || !any, "a failed commit is reported as a success");
                g.label_if(any, "failed commit");
            }
            _ => drop(tx),
        }
        compare(&path, &done, "after the transaction")?;
        match g.weighted(&[4, 1, 1, 1]) {
            0 => {}
            1 => {
                storage.flush().map_err(|e| Fail::new("flush", e.to_string()))?;
                drop(st.take());
                st = Some(RocksDbStorage::default_rocksdb_with_path(&path).map_err(|e| Fail::new("reopen", e.to_string()))?);
                compare(&path, &done, "after reopening")?;
                g.label("reopened");
            }
            2 => {
                let to = scratch.dir(&format!("cp{writes}"));
                if !to.exists() {
                    storage.create_checkpoint(&to).map_err(|e| Fail::new("checkpoint", e.to_string()))?;
                    let cp = RocksDbStorage::checkpoint_rocksdb_with_path(&to).map_err(|e| Fail::new("checkpoint", e.to_string()))?;
                    compare(&to, &done, "a checkpoint")?;
                    let tx = cp.start_transaction();
                    read_all(g, &cp, &tx, &subs, &done, "in a checkpoint")?;
                    g.label("checkpoint");
                }
            }
            _ => {
                storage.wipe().map_err(|e| Fail::new("wipe", e.to_string()))?;
                done = Default::default();
                compare(&path, &done, "after a wipe")?;
                g.label("wiped");
            }
        }
    }
    g.nontrivial_if(writes >= 3 && subs.len() >= 2);
    Ok(())
}

struct W(u8);
impl WorstKeyLength for W { fn max_length(&self) -> u8 { self.0 } }

fn prefixes(g: &mut G) -> R {
    let mut seen: BTreeMap<Prefix, Vec<Key>> = BTreeMap::new();
    let mut distinct: BTreeSet<Vec<Key>> = BTreeSet::new();
    let base: Vec<u8> = { let l = g.size(0, 12); (0..l).map(|_| g.byte() & 3).collect() };
    for _ in 0..g.range(2, 8) {
        // the same bytes, cut in other places, in other orders, or other bytes altogether
        let mut path: Vec<Key> = vec![];
        if g.chance(1, 5) {
            path = g.list(0, 6, |g| { let l = g.skewed(0, 255); vec![g.byte(); l] });
        } else {
            let mut rest = base.clone();
            if g.chance(1, 4) { rest.reverse() }
            while !rest.is_empty() { let n = g.range(1, rest.len() as u64) as usize; path.push(rest.drain(..n).collect()); }
            if g.chance(1, 4) { let at = g.below(path.len() as u64 + 1) as usize; path.insert(at, if g.bool() { vec![] } else { vec![path.len() as u8] }) }
            if g.chance(1, 4) { path.reverse() }
        }
        let r = refs(&path);
        let c = RocksDbStorage::build_prefix(SubtreePath::from(r.as_slice()));
        ensure_eq!(c.value, expected_prefix(&path), "prefix of {}", show_path(&path));
        let blocks = if path.is_empty() { 0 } else { (body(&path).len() as u32).div_ceil(64) };
        ensure_eq!(c.cost, OperationCost { hash_node_calls: blocks, ..Default::default() }, "cost of the prefix of {}", show_path(&path));
        if let Some(p) = seen.get(&c.value) { ensure!(*p == path, "{} and {} have the same prefix", show_path(p), show_path(&path)) }
        seen.insert(c.value, path.clone());
        // the same path built up segment by segment
        if let Some((last, above)) = path.split_last() {
            let a = refs(above);
            let up = SubtreePath::from(a.as_slice());
            let down = up.derive_owned_with_child(last.as_slice());
            ensure_eq!(RocksDbStorage::build_prefix(SubtreePath::from(&down)).value, c.value, "prefix of a derived path");
        }
        // an estimate for the longest keys covers every path
        let longest: Vec<W> = path.iter().map(|s| W(s.len() as u8)).collect();
        let e = RocksDbStorage::get_storage_context_cost(&longest);
        ensure_eq!(e, c.cost, "estimated cost for {}", show_path(&path));
        let more: Vec<W> = path.iter().map(|s| W((s.len() as u64 + g.below(256 - s.len() as u64)) as u8)).collect();
        let e = RocksDbStorage::get_storage_context_cost(&more);
        ensure!(e.hash_node_calls >= c.cost.hash_node_calls, "a path costs more than the estimate for longer keys");
        distinct.insert(path);
    }
    g.nontrivial_if(distinct.len() >= 3);
    Ok(())
}

pub fn sections() -> Vec<Section> {
    vec![
        section("history", "three writes or more in two subtrees or more", 40_000, 1_000_000, history),
        section("prefixes", "three different paths", 100_000, 3_000_000, prefixes),
    ]
}
