//! Histories of operations on a grove, and what a model of nested maps makes of them.
#![allow(dead_code)]
use crate::grove::*;
use crate::rep01::{dump_in, want_raw};
use grovedb::operations::delete::{ClearOptions, DeleteOptions, DeleteUpTreeOptions};
use grovedb::operations::insert::InsertOptions;
use grovedb::{Element, GroveDb, TransactionArg};
use grovedb_version::version::GroveVersion;
use std::collections::{BTreeMap, BTreeSet};
use vp::*;

pub const HOPS: usize = 10;

#[derive(Clone, Debug)]
pub enum Op {
    /// Overriding is refused: of anything, of trees.
    Insert(Path, Key, Node, bool, bool),
    InsertIfNew(Path, Key, Node, bool),
    InsertIfChanged(Path, Key, Node),
    /// Non-empty trees may go; else that is an error.
    Delete(Path, Key, bool, bool),
    DeleteIfEmpty(Path, Key),
    DeleteUp(Path, Key, bool, bool, bool, Option<u16>),
    Clear(Path, bool, bool),
    /// What the operation is for: as `V`, without leaves.
    Append(Path, Key, V, Vec<u8>),
    PutAux(Key, Vec<u8>),
    DelAux(Key),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Unit,
    Bool(bool),
    Old(Option<Element>),
    Changed(bool, Option<Element>),
    Num(u64),
}
#[derive(Clone, Default, PartialEq)]
pub struct State {
    pub m: Map,
    pub aux: BTreeMap<Key, Vec<u8>>,
    /// What references resolved to when they were written; `None` where that was a tree.
    pub bound: BTreeMap<Path, Option<Element>>,
}

pub fn short(k: &[u8]) -> String {
    if k.len() > 8 && k.iter().all(|b| *b == k[0]) { format!("{}x{:02x}", k.len(), k[0]) } else { vp::hex(k) }
}
pub fn show_path(p: &[Key]) -> String {
    format!("/{}", p.iter().map(|k| short(k)).collect::<Vec<_>>().join("/"))
}
pub fn show_op(o: &Op) -> String {
    let at = |p: &Path, k: &Key| format!("{} [{}]", show_path(p), short(k));
    match o {
        Op::Insert(p, k, n, a, t) => format!("insert {} {}{}{}", at(p, k), show_node(n), if *a { " no-override" } else { "" }, if *t { "" } else { " over-trees" }),
        Op::InsertIfNew(p, k, n, r) => format!("insert-if-new{} {} {}", if *r { "-return" } else { "" }, at(p, k), show_node(n)),
        Op::InsertIfChanged(p, k, n) => format!("insert-if-changed {} {}", at(p, k), show_node(n)),
        Op::Delete(p, k, a, e) => format!("delete {}{}{}", at(p, k), if *a { " non-empty" } else { "" }, if *e { "" } else { " quiet" }),
        Op::DeleteIfEmpty(p, k) => format!("delete-if-empty {}", at(p, k)),
        Op::DeleteUp(p, k, a, e, v, s) => format!("delete-up {}{}{}{} stop {s:?}", at(p, k), if *a { " non-empty" } else { "" }, if *e { "" } else { " quiet" }, if *v { " validate" } else { "" }),
        Op::Clear(p, a, e) => format!("clear {}{}{}", show_path(p), if *a { " with-subtrees" } else { "" }, if *e { "" } else { " quiet" }),
        Op::Append(p, k, v, b) => format!("append {} as {} {}", at(p, k), show_node(&Node { v: v.clone(), flags: None }), vp::hex(b)),
        Op::PutAux(k, v) => format!("put-aux [{}] {}", vp::hex(k), vp::hex(v)),
        Op::DelAux(k) => format!("delete-aux [{}]", vp::hex(k)),
    }
}

/// What a chain of references starting at `p` ends at; `hops` elements may be read.
pub fn follow<'a>(m: &'a Map, p: &[Key], hops: usize) -> Option<&'a Node> {
    let mut p = p.to_vec();
    let mut seen = BTreeSet::new();
    for _ in 0..hops {
        if !seen.insert(p.clone()) { return None }
        let n = at(m, &p)?;
        match &n.v { V::Ref(t, _) => p = t.clone(), _ => return Some(n) }
    }
    None
}
/// What `get` gives.
pub fn read<'a>(m: &'a Map, p: &[Key]) -> Option<&'a Node> {
    let n = at(m, p)?;
    match &n.v { V::Ref(t, _) => follow(m, t, HOPS), _ => Some(n) }
}
pub fn join(p: &[Key], k: &[u8]) -> Path {
    let mut p = p.to_vec();
    p.push(k.to_vec());
    p
}
pub fn kind_at(m: &Map, p: &[Key]) -> Kind {
    match at(m, p) { Some(Node { v: V::Tree(k, _), .. }) => *k, _ => Kind::Plain }
}
impl State {
    pub fn tidy(&mut self) {
        let m = &self.m;
        self.bound.retain(|p, _| at(m, p).is_some_and(|n| matches!(n.v, V::Ref(..))));
    }
    fn insert(&mut self, p: &Path, k: &Key, n: &Node, any: bool, tree: bool) -> Option<()> {
        if k.len() > 255 { return None }
        let old = map_at(&self.m, p)?.get(k);
        if any && old.is_some() || tree && old.is_some_and(|o| o.is_tree()) { return None }
        if matches!(n.v, V::Sum(_) | V::ItemSum(..)) && !sums(kind_at(&self.m, p)) { return None }
        let at = join(p, k);
        if let V::Ref(t, _) = &n.v {
            let end = follow(&self.m, t, HOPS)?;
            self.bound.insert(at, (!end.is_tree()).then(|| end.element()));
        } else {
            self.bound.remove(&at);
        }
        map_at_mut(&mut self.m, p)?.insert(k.clone(), n.clone());
        Some(())
    }
    fn delete(&mut self, p: &Path, k: &Key, any: bool, err: bool) -> Option<bool> {
        let n = map_at(&self.m, p)?.get(k)?;
        if n.is_tree() && !n.empty_tree() && !any { return if err { None } else { Some(false) } }
        map_at_mut(&mut self.m, p)?.remove(k);
        Some(true)
    }
    /// What the operation does and gives; `None`: it is refused, and does nothing.
    pub fn apply(&mut self, o: &Op) -> Option<Out> {
        let mut s = self.clone();
        let r = s.go(o)?;
        s.tidy();
        *self = s;
        Some(r)
    }
    fn go(&mut self, o: &Op) -> Option<Out> {
        Some(match o {
            Op::Insert(p, k, n, any, tree) => { self.insert(p, k, n, *any, *tree)?; Out::Unit }
            Op::InsertIfNew(p, k, n, ret) => {
                if k.len() > 255 { return None }
                let old = map_at(&self.m, p).and_then(|m| m.get(k));
                match (old, ret) {
                    (Some(o), true) => Out::Old(Some(o.element())),
                    (Some(_), false) => Out::Bool(false),
                    (None, _) => { self.insert(p, k, n, false, true)?; if *ret { Out::Old(None) } else { Out::Bool(true) } }
                }
            }
            Op::InsertIfChanged(p, k, n) => {
                if k.len() > 255 { return None }
                let old = map_at(&self.m, p).and_then(|m| m.get(k)).map(|n| n.element());
                if old == Some(n.element()) { return Some(Out::Changed(false, None)) }
                self.insert(p, k, n, false, true)?;
                Out::Changed(true, old)
            }
            Op::Delete(p, k, any, err) => { self.delete(p, k, *any, *err)?; Out::Unit }
            Op::DeleteIfEmpty(p, k) => Out::Bool(self.delete(p, k, false, false)?),
            Op::DeleteUp(p, k, any, err, _, stop) => {
                let (mut p, mut k, mut n) = (p.clone(), k.clone(), 0);
                loop {
                    if *stop == Some(p.len() as u16) { break }
                    // subtrees of the root are not deleted this way
                    if p.is_empty() { return None }
                    let node = map_at(&self.m, &p)?.get(&k)?;
                    let full = node.is_tree() && !node.empty_tree();
                    if full {
                        if n > 0 || !*any && !*err { break }
                        return None;
                    }
                    map_at_mut(&mut self.m, &p)?.remove(&k);
                    n += 1;
                    k = p.pop().unwrap();
                }
                if n == 0 { return None }
                let _ = any;
                Out::Num(n)
            }
            Op::Clear(p, any, err) => {
                if !p.is_empty() {
                    let n = at_mut(&mut self.m, p)?;
                    match &mut n.v {
                        V::Mmr(l) | V::Bulk(_, l) | V::Dense(_, l) | V::Commit(_, l) => { l.clear(); return Some(Out::Bool(true)) }
                        _ => {}
                    }
                }
                let m = map_at_mut(&mut self.m, p)?;
                if m.values().any(|n| n.is_tree()) && !any { return if *err { None } else { Some(Out::Bool(false)) } }
                m.clear();
                Out::Bool(true)
            }
            Op::Append(p, k, v, b) => {
                let n = map_at_mut(&mut self.m, p)?.get_mut(k)?;
                let l = match (&mut n.v, v) {
                    (V::Mmr(l), V::Mmr(_)) | (V::Bulk(_, l), V::Bulk(..)) | (V::Commit(_, l), V::Commit(..)) => l,
                    (V::Dense(h, l), V::Dense(..)) => { if l.len() + 1 >= 1 << *h { return None } l }
                    _ => return None,
                };
                l.push(b.clone());
                Out::Num(l.len() as u64 - 1)
            }
            Op::PutAux(k, v) => { self.aux.insert(k.clone(), v.clone()); Out::Unit }
            Op::DelAux(k) => { self.aux.remove(k); Out::Unit }
        })
    }
    /// References still bind what they did when they were written, as far as the model tells.
    pub fn refs_fresh(&self) -> bool {
        self.bound.iter().all(|(p, b)| b.is_some() && read(&self.m, p).map(|n| n.element()) == *b)
    }
}

pub fn real(db: &GroveDb, o: &Op, tx: TransactionArg, v: &GroveVersion) -> Result<Out, String> {
    costly(db, o, tx, v).1
}
pub fn costly(db: &GroveDb, o: &Op, tx: TransactionArg, v: &GroveVersion) -> (grovedb_costs::OperationCost, Result<Out, String>) {
    let e = |e: grovedb::Error| e.to_string();
    macro_rules! c { ($x:expr, $f:expr) => {{ let r = $x; (r.cost, r.value.map($f).map_err(e)) }} }
    match o {
        Op::Insert(p, k, n, any, tree) => {
            let opts = if !*any && *tree { None } else {
                Some(InsertOptions { validate_insertion_does_not_override: *any, validate_insertion_does_not_override_tree: *tree, ..Default::default() })
            };
            c!(db.insert(refs(p).as_slice(), k, n.fresh(), opts, tx, v), |_| Out::Unit)
        }
        Op::InsertIfNew(p, k, n, true) => c!(db.insert_if_not_exists_return_existing_element(refs(p).as_slice(), k, n.fresh(), tx, v), |o| Out::Old(o.map(norm))),
        Op::InsertIfNew(p, k, n, false) => c!(db.insert_if_not_exists(refs(p).as_slice(), k, n.fresh(), tx, v), Out::Bool),
        Op::InsertIfChanged(p, k, n) => c!(db.insert_if_changed_value(refs(p).as_slice(), k, n.fresh(), tx, v), |(b, o)| Out::Changed(b, o.map(norm))),
        Op::Delete(p, k, any, err) => {
            let opts = if !*any && *err { None } else { Some(DeleteOptions { allow_deleting_non_empty_trees: *any, deleting_non_empty_trees_returns_error: *err, ..Default::default() }) };
            c!(db.delete(refs(p).as_slice(), k, opts, tx, v), |_| Out::Unit)
        }
        Op::DeleteIfEmpty(p, k) => c!(db.delete_if_empty_tree(refs(p).as_slice(), k, tx, v), Out::Bool),
        Op::DeleteUp(p, k, any, err, val, stop) => {
            let opts = DeleteUpTreeOptions { allow_deleting_non_empty_trees: *any, deleting_non_empty_trees_returns_error: *err, base_root_storage_is_free: true, validate_tree_at_path_exists: *val, stop_path_height: *stop };
            c!(db.delete_up_tree_while_empty(refs(p).as_slice(), k, &opts, tx, v), |n| Out::Num(n as u64))
        }
        Op::Clear(p, any, err) => (Default::default(), db.clear_subtree(refs(p).as_slice(), Some(ClearOptions { check_for_subtrees: true, allow_deleting_subtrees: *any, trying_to_clear_with_subtrees_returns_error: *err }), tx, v).map(Out::Bool).map_err(e)),
        Op::Append(p, k, n, b) => {
            let path = refs(p);
            match n {
                V::Mmr(_) => c!(db.mmr_tree_append(path.as_slice(), k, b.clone(), tx, v), |(_, i)| Out::Num(i)),
                V::Bulk(..) => c!(db.bulk_append(path.as_slice(), k, b.clone(), tx, v), |(_, i)| Out::Num(i)),
                V::Dense(..) => c!(db.dense_tree_insert(path.as_slice(), k, b.clone(), tx, v), |(_, i)| Out::Num(i as u64)),
                _ => {
                    let (cmx, rho) = (b[..32].try_into().unwrap(), b[32..64].try_into().unwrap());
                    let ct = grovedb_commitment_tree::deserialize_ciphertext::<grovedb_commitment_tree::DashMemo>(&b[64..]).expect("ciphertext");
                    c!(db.commitment_tree_insert(path.as_slice(), k, cmx, rho, ct, tx, v), |(_, i)| Out::Num(i))
                }
            }
        }
        Op::PutAux(k, x) => c!(db.put_aux(k, x, None, tx), |_| Out::Unit),
        Op::DelAux(k) => c!(db.delete_aux(k, None, tx), |_| Out::Unit),
    }
}

// ---- generation

pub struct Mix {
    pub o: Opts,
    pub odd: u64,
    pub clears: bool,
}
pub fn some_map(g: &mut G, m: &Map) -> Path {
    let mut p = vec![];
    let mut cur = m;
    loop {
        let sub: Vec<&Key> = cur.iter().filter(|(_, n)| n.map().is_some()).map(|(k, _)| k).collect();
        if sub.is_empty() || g.chance(1, 4) { return p }
        let k = (*g.pick(&sub)).clone();
        cur = cur[&k].map().unwrap();
        p.push(k);
    }
}
/// A place to act on: usually a map and a key that is there or could be.
pub fn place(g: &mut G, m: &Map, odd: u64) -> (Path, Key) {
    let p = if g.chance(1, odd) {
        let nodes = all(m);
        let mut p = if nodes.is_empty() { vec![] } else { g.pick(&nodes).0.clone() };
        if g.bool() { p.push(gen_key(g)) }
        p
    } else { some_map(g, m) };
    let keys: Vec<Key> = map_at(m, &p).map(|m| m.keys().cloned().collect()).unwrap_or_default();
    let k = if g.chance(1, odd * 8) { vec![7; 256] } else if g.chance(1, 24) { vec![] } else if !keys.is_empty() && g.bool() { g.pick(&keys).clone() } else { gen_key(g) };
    (p, k)
}
pub fn fresh_node(g: &mut G, s: &State, p: &[Key], k: &Key, o: &Opts) -> Node {
    let parent = if g.chance(1, 12) { Kind::Sum } else { kind_at(&s.m, p) };
    let flags = gen_flags(g);
    match g.weighted(&[6, 5, if o.flat_trees { 2 } else { 0 }, if o.refs { 3 } else { 0 }]) {
        0 => gen_leaf(g, o, parent),
        1 => Node { v: V::Tree(gen_kind(g), Map::new()), flags },
        2 => Node { v: match g.below(4) { 0 => V::Mmr(vec![]), 1 => V::Bulk(g.size(1, 3) as u8, vec![]), 2 => V::Dense(g.size(1, 4) as u8, vec![]), _ => V::Commit(g.size(1, 3) as u8, vec![]) }, flags },
        _ => {
            let nodes = all(&s.m);
            let refs: Vec<&Path> = nodes.iter().filter(|(_, n)| matches!(n.v, V::Ref(..))).map(|(p, _)| p).collect();
            let t = if !refs.is_empty() && g.chance(1, 3) { (*g.pick(&refs)).clone() }
                else if nodes.is_empty() || g.chance(1, 10) { join(&some_map(g, &s.m), &gen_key(g)) }
                else { g.pick(&nodes).0.clone() };
            let r = write_ref(g, &join(p, k), &t);
            Node { v: V::Ref(t, r), flags }
        }
    }
}
pub fn gen_op(g: &mut G, s: &State, mix: &Mix) -> Op {
    let (p, k) = place(g, &s.m, mix.odd);
    let flat = |p: &Path| at(&s.m, p).is_some_and(|n| n.leaves().is_some());
    match g.weighted(&[24, 3, 3, 7, 2, 3, if mix.clears { 2 } else { 0 }, if mix.o.flat_trees { 8 } else { 0 }, 1, 1]) {
        1 if !flat(&p) => { let n = fresh_node(g, s, &p, &k, &mix.o); Op::InsertIfNew(p, k, n, g.bool()) }
        2 => {
            let n = match at(&s.m, &join(&p, &k)) { Some(n) if g.bool() => { let n = n.clone(); if n.empty_tree() || !n.is_tree() { n } else { gen_leaf(g, &mix.o, Kind::Sum) } } _ => fresh_node(g, s, &p, &k, &mix.o) };
            Op::InsertIfChanged(p, k, n)
        }
        3 => Op::Delete(p, k, g.bool(), g.bool()),
        4 => Op::DeleteIfEmpty(p, k),
        5 => {
            let stop = if g.chance(3, 4) { Some(g.below(p.len() as u64 + 2) as u16) } else { None };
            // a stop below where it starts is never met
            let (any, err, val) = (g.chance(1, 4), g.bool(), g.bool());
            Op::DeleteUp(p, k, any, err, val, stop)
        }
        6 => {
            let p = if k.len() < 256 && g.chance(1, 3) { join(&p, &k) } else { p };
            Op::Clear(p, g.bool(), g.bool())
        }
        7 => {
            let nodes: Vec<(Path, &Node)> = all(&s.m).into_iter().filter(|(_, n)| n.leaves().is_some()).collect();
            let (p, k, like) = if nodes.is_empty() || g.chance(1, 16) { (p, k, g.below(4)) } else {
                let (p, n) = g.pick(&nodes);
                let (k, d) = p.split_last().unwrap();
                (d.to_vec(), k.clone(), if g.chance(1, 24) { g.below(4) } else { match n.v { V::Mmr(_) => 0, V::Bulk(..) => 1, V::Dense(..) => 2, _ => 3 } })
            };
            let v = match like { 0 => V::Mmr(vec![]), 1 => V::Bulk(0, vec![]), 2 => V::Dense(0, vec![]), _ => V::Commit(0, vec![]) };
            let b = if like == 3 { let mut v = vec![g.byte(); 280]; v[31] &= 0x3f; v[40] = g.byte(); v } else { g.bytes(0, 4) };
            Op::Append(p, k, v, b)
        }
        8 => { let k = small_key2(g); Op::PutAux(k, g.bytes(0, 5)) }
        9 => Op::DelAux(small_key2(g)),
        _ => {
            let n = fresh_node(g, s, &p, &k, &mix.o);
            // a tree that is replaced leaves what it held behind
            let full = at(&s.m, &join(&p, &k)).is_some_and(|n| n.is_tree() && !n.empty_tree());
            Op::Insert(p, k, n, g.chance(1, 6), full || g.chance(5, 6))
        }
    }
}
fn small_key2(g: &mut G) -> Key {
    crate::qgen::small_key(g, 1, 1)
}

// ---- comparison

/// The whole grove against the model.
pub fn compare(db: &GroveDb, s: &State, tx: TransactionArg, v: &GroveVersion) -> R {
    let got = match dump_in(db, tx, v) { Ok(d) => d, Err(e) => fail!("{e}") };
    ensure_eq!(got, want_raw(&s.m), "what the grove holds");
    for (p, n) in all(&s.m) {
        let (k, dir) = p.split_last().unwrap();
        if let Err(e) = crate::rep01::flat_leaves_in(db, dir, k, n, tx, v) { fail!("{e}") }
    }
    match db.verify_grovedb(tx, s.refs_fresh(), true, v) {
        Ok(i) if i.is_empty() => {}
        Ok(i) => fail!("verification finds issues at {:?} (references checked: {})", i.keys().collect::<Vec<_>>(), s.refs_fresh()),
        Err(e) => fail!("verification: {e}"),
    }
    Ok(())
}
/// Single reads against the model.
pub fn probe(g: &mut G, db: &GroveDb, s: &State, tx: TransactionArg, v: &GroveVersion) -> R {
    let (p, k) = place(g, &s.m, 6);
    probe_at(g, db, s, &p, &k, tx, v).map_err(|f| Fail::new(f.sig, format!("{} (reading {} [{}])", f.msg, show_path(&p), vp::hex(&k))))
}
fn probe_at(g: &mut G, db: &GroveDb, s: &State, p: &Path, k: &Key, tx: TransactionArg, v: &GroveVersion) -> R {
    let at_ = join(p, k);
    let path = refs(p);
    let there = map_at(&s.m, p).and_then(|m| m.get(k));
    let get = db.get(path.as_slice(), k, tx, v).unwrap().ok().map(norm);
    let wanted = there.and_then(|_| read(&s.m, &at_)).map(|n| n.element());
    ensure_eq!(get, wanted, "get");
    let get = db.get_caching_optional(path.as_slice().into(), k, g.bool(), tx, v).unwrap().ok().map(norm);
    ensure_eq!(get, wanted, "get, caching or not");
    let raw = there.map(|n| n.element());
    let get = db.get_raw(path.as_slice().into(), k, tx, v).unwrap().ok().map(norm);
    ensure_eq!(get, raw, "get_raw");
    let get = db.get_raw_caching_optional(path.as_slice().into(), k, g.bool(), tx, v).unwrap().ok().map(norm);
    ensure_eq!(get, raw, "get_raw, caching or not");
    match db.get_raw_optional(path.as_slice().into(), k, tx, v).unwrap() {
        Ok(o) => ensure_eq!(o.map(norm), raw, "get_raw_optional"),
        Err(e) => ensure!(map_at(&s.m, p).is_none(), "get_raw_optional where the subtree exists: {e}"),
    }
    if map_at(&s.m, p).is_some() {
        match db.has_raw(path.as_slice(), k, tx, v).unwrap() {
            Ok(b) => ensure_eq!(b, raw.is_some(), "has_raw"),
            Err(e) => fail!("has_raw: {e}"),
        }
    }
    let empty = db.is_empty_tree(path.as_slice(), tx, v).unwrap();
    let wanted = if p.is_empty() { Some(s.m.is_empty()) } else { at(&s.m, p).filter(|n| n.is_tree()).map(|n| n.empty_tree()) };
    ensure_eq!(empty.ok(), wanted, "is_empty_tree");
    let a = small_key2(g);
    match db.get_aux(&a, tx).unwrap() {
        Ok(x) => ensure_eq!(x.as_ref(), s.aux.get(&a), "aux value"),
        Err(e) => fail!("get_aux: {e}"),
    }
    Ok(())
}
