//! A reference model of a grove: nested maps, and what a path query selects from them.
#![allow(dead_code)]
use crate::qgen::*;
use grovedb::{Element, GroveDb, PathQuery};
use grovedb_element::reference_path::ReferencePathType;
use grovedb_query::{Query, QueryItem, SubqueryBranch};
use grovedb_version::version::{GroveVersion, GROVE_VERSIONS};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use vp::*;

pub type Key = Vec<u8>;
pub type Path = Vec<Key>;
pub type Map = BTreeMap<Key, Node>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Plain, Sum, BigSum, Count, CountSum, PCount, PCountSum }
pub const TREES: [Kind; 7] =
    [Kind::Plain, Kind::Sum, Kind::BigSum, Kind::Count, Kind::CountSum, Kind::PCount, Kind::PCountSum];

#[derive(Clone, PartialEq, Debug)]
pub enum V {
    Item(Vec<u8>),
    Sum(i64),
    ItemSum(Vec<u8>, i64),
    /// Absolute position of the target, and how the reference is written.
    Ref(Path, ReferencePathType),
    Tree(Kind, Map),
    Mmr(Vec<Vec<u8>>),
    Bulk(u8, Vec<Vec<u8>>),
    Dense(u8, Vec<Vec<u8>>),
    /// Leaves are commitment, rho and ciphertext, one after the other.
    Commit(u8, Vec<Vec<u8>>),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Node {
    pub v: V,
    pub flags: Option<Vec<u8>>,
}
impl Node {
    pub fn map(&self) -> Option<&Map> {
        match &self.v { V::Tree(_, m) => Some(m), _ => None }
    }
    pub fn leaves(&self) -> Option<(&[Vec<u8>], usize)> {
        match &self.v {
            V::Mmr(l) | V::Bulk(_, l) | V::Commit(_, l) => Some((l, 8)),
            V::Dense(_, l) => Some((l, 2)),
            _ => None,
        }
    }
    pub fn is_tree(&self) -> bool {
        self.map().is_some() || self.leaves().is_some()
    }
    pub fn is_item(&self) -> bool {
        matches!(self.v, V::Item(..) | V::Sum(..) | V::ItemSum(..))
    }
    /// The element stored for this node, with a present root key shown as empty bytes.
    pub fn element(&self) -> Element {
        let f = self.flags.clone();
        match &self.v {
            V::Item(v) => Element::Item(v.clone(), f),
            V::Sum(s) => Element::SumItem(*s, f),
            V::ItemSum(v, s) => Element::ItemWithSumItem(v.clone(), *s, f),
            V::Ref(_, r) => Element::Reference(r.clone(), None, f),
            V::Mmr(l) => Element::MmrTree(mmr_size(l.len() as u64), f),
            V::Bulk(h, l) => Element::BulkAppendTree(l.len() as u64, *h, f),
            V::Dense(h, l) => Element::DenseAppendOnlyFixedSizeTree(l.len() as u16, *h, f),
            V::Commit(h, l) => Element::CommitmentTree(l.len() as u64, *h, f),
            V::Tree(k, m) => {
                let (mut count, mut sum, mut big) = (0u64, 0i64, 0i128);
                for n in m.values() {
                    let e = n.element();
                    let (c, s) = e.count_sum_value_or_default();
                    count += c;
                    sum += s;
                    big += e.big_sum_value_or_default();
                }
                let r = (!m.is_empty()).then(Vec::new);
                match k {
                    Kind::Plain => Element::Tree(r, f),
                    Kind::Sum => Element::SumTree(r, sum, f),
                    Kind::BigSum => Element::BigSumTree(r, big, f),
                    Kind::Count => Element::CountTree(r, count, f),
                    Kind::CountSum => Element::CountSumTree(r, count, sum, f),
                    Kind::PCount => Element::ProvableCountTree(r, count, f),
                    Kind::PCountSum => Element::ProvableCountSumTree(r, count, sum, f),
                }
            }
        }
    }
    /// What is passed to `insert` to create the node (trees start empty).
    pub fn fresh(&self) -> Element {
        let f = self.flags.clone();
        match &self.v {
            V::Tree(k, _) => Node { v: V::Tree(*k, Map::new()), flags: f }.element(),
            V::Mmr(_) => Element::empty_mmr_tree_with_flags(f),
            V::Bulk(h, _) => Element::empty_bulk_append_tree_with_flags(*h, f).expect("height"),
            V::Dense(h, _) => Element::empty_dense_tree_with_flags(*h, f),
            V::Commit(h, _) => Element::empty_commitment_tree_with_flags(*h, f).expect("height"),
            _ => self.element(),
        }
    }
    pub fn empty_tree(&self) -> bool {
        match &self.v {
            V::Tree(_, m) => m.is_empty(),
            V::Mmr(l) | V::Bulk(_, l) | V::Dense(_, l) | V::Commit(_, l) => l.is_empty(),
            _ => false,
        }
    }
}
pub fn mmr_size(leaves: u64) -> u64 {
    2 * leaves - leaves.count_ones() as u64
}

/// Forgets which node is the root of a subtree.
pub fn norm(e: Element) -> Element {
    use Element::*;
    let z = |r: Option<Vec<u8>>| r.map(|_| vec![]);
    match e {
        Tree(r, f) => Tree(z(r), f),
        SumTree(r, s, f) => SumTree(z(r), s, f),
        BigSumTree(r, s, f) => BigSumTree(z(r), s, f),
        CountTree(r, c, f) => CountTree(z(r), c, f),
        CountSumTree(r, c, s, f) => CountSumTree(z(r), c, s, f),
        ProvableCountTree(r, c, f) => ProvableCountTree(z(r), c, f),
        ProvableCountSumTree(r, c, s, f) => ProvableCountSumTree(z(r), c, s, f),
        e => e,
    }
}

pub fn at<'a>(m: &'a Map, p: &[Key]) -> Option<&'a Node> {
    let (k, rest) = p.split_first()?;
    let n = m.get(k)?;
    if rest.is_empty() { Some(n) } else { at(n.map()?, rest) }
}
pub fn at_mut<'a>(m: &'a mut Map, p: &[Key]) -> Option<&'a mut Node> {
    let (k, rest) = p.split_first()?;
    let n = m.get_mut(k)?;
    if rest.is_empty() { return Some(n) }
    match &mut n.v { V::Tree(_, m) => at_mut(m, rest), _ => None }
}
pub fn map_at<'a>(m: &'a Map, p: &[Key]) -> Option<&'a Map> {
    if p.is_empty() { Some(m) } else { at(m, p)?.map() }
}
pub fn map_at_mut<'a>(m: &'a mut Map, p: &[Key]) -> Option<&'a mut Map> {
    if p.is_empty() { return Some(m) }
    match &mut at_mut(m, p)?.v { V::Tree(_, m) => Some(m), _ => None }
}
/// Every node with its path (the key last), parents before children.
pub fn all(m: &Map) -> Vec<(Path, &Node)> {
    fn go<'a>(m: &'a Map, at: &Path, out: &mut Vec<(Path, &'a Node)>) {
        for (k, n) in m {
            let mut p = at.clone();
            p.push(k.clone());
            out.push((p.clone(), n));
            if let Some(c) = n.map() { go(c, &p, out) }
        }
    }
    let mut out = vec![];
    go(m, &vec![], &mut out);
    out
}
/// The node a chain of references ends at.
pub fn resolve<'a>(root: &'a Map, n: &'a Node) -> &'a Node {
    let mut n = n;
    while let V::Ref(t, _) = &n.v {
        n = at(root, t).expect("model reference target exists");
    }
    n
}

// ---- generation

pub struct Opts {
    pub depth: usize,
    pub width: usize,
    pub refs: bool,
    pub flat_trees: bool,
    pub max_value: usize,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { depth: 3, width: 5, refs: true, flat_trees: true, max_value: 6 }
    }
}
pub fn gen_flags(g: &mut G) -> Option<Vec<u8>> {
    if g.chance(1, 6) { Some(g.bytes(0, 4)) } else { None }
}
pub fn gen_key(g: &mut G) -> Key {
    if g.chance(1, 24) {
        let n = *g.pick(&[255usize, 254, 33, 32]);
        return vec![*g.pick(&ALPHA); n];
    }
    small_key(g, 1, 2)
}
pub fn gen_value(g: &mut G, o: &Opts) -> Vec<u8> {
    if g.chance(1, 40) { let n = g.size(0, 300); return g.blob(n) }
    g.bytes(0, o.max_value)
}
pub fn sums(k: Kind) -> bool {
    matches!(k, Kind::Sum | Kind::BigSum | Kind::CountSum | Kind::PCountSum)
}
/// A non-tree node allowed in a tree of the given kind.
pub fn gen_leaf(g: &mut G, o: &Opts, parent: Kind) -> Node {
    let v = match if sums(parent) { g.below(5) } else { 4 } {
        0 => V::Sum(g.range(0, 200) as i64 - 100),
        1 => V::ItemSum(gen_value(g, o), g.range(0, 200) as i64 - 100),
        _ => V::Item(gen_value(g, o)),
    };
    Node { v, flags: gen_flags(g) }
}
pub fn gen_values(g: &mut G, max: usize) -> Vec<Vec<u8>> {
    let n = g.size(0, max);
    (0..n).map(|_| g.bytes(0, 4)).collect()
}
pub fn gen_notes(g: &mut G, max: usize) -> Vec<Vec<u8>> {
    let n = g.size(0, max);
    (0..n).map(|_| { let mut v = vec![g.byte(); 280]; v[31] &= 0x3f; v[0] = g.byte(); v[40] = g.byte(); v[279] = g.byte(); v }).collect()
}
pub fn gen_kind(g: &mut G) -> Kind {
    if g.bool() { Kind::Plain } else { *g.pick(&TREES) }
}
fn gen_map(g: &mut G, o: &Opts, depth: usize, parent: Kind, leaves_only: bool) -> Map {
    let mut m = Map::new();
    let n = if depth == 0 { g.size(1, o.width) } else if g.chance(1, 8) { 0 } else { g.size(1, o.width) };
    for _ in 0..n {
        let tree = !leaves_only && depth + 1 <= o.depth && g.chance(if depth == 0 { 3 } else { 1 }, if depth == 0 { 4 } else { 2 });
        let node = if tree {
            let v = if o.flat_trees && g.chance(1, 6) {
                match g.below(4) {
                    3 => { let h = g.size(1, 3) as u8; V::Commit(h, gen_notes(g, 6)) }
                    0 => V::Mmr(gen_values(g, 9)),
                    1 => { let h = g.size(1, 3) as u8; V::Bulk(h, gen_values(g, 14)) }
                    _ => { let h = g.size(1, 4) as u8; V::Dense(h, gen_values(g, (1 << h) - 1)) }
                }
            } else {
                let k = gen_kind(g);
                V::Tree(k, gen_map(g, o, depth + 1, k, depth + 1 >= o.depth))
            };
            Node { v, flags: gen_flags(g) }
        } else {
            gen_leaf(g, o, parent)
        };
        m.insert(gen_key(g), node);
    }
    m
}
/// Writes the absolute position `target` the way a reference at `from` (key last) could.
pub fn write_ref(g: &mut G, from: &[Key], target: &[Key]) -> ReferencePathType {
    use ReferencePathType::*;
    let d = from.len() - 1;
    let common = from[..d].iter().zip(target).take_while(|(a, b)| a == b).count().min(target.len() - 1);
    match g.below(4) {
        0 if target.len() == from.len() && target[..d] == from[..d] => SiblingReference(target[d].clone()),
        1 => UpstreamRootHeightReference(common as u8, target[common..].to_vec()),
        2 if common < d + 1 => UpstreamFromElementHeightReference((d - common) as u8, target[common..].to_vec()),
        3 if d > 0 && target.len() == from.len() && target[..d - 1] == from[..d - 1] && target[d] == from[d] && target[d - 1] != from[d - 1] =>
            CousinReference(target[d - 1].clone()),
        _ => AbsolutePathReference(target.to_vec()),
    }
}
pub fn gen_grove(g: &mut G, o: &Opts) -> Map {
    let mut m = gen_map(g, o, 0, Kind::Plain, false);
    if o.refs && g.bool() {
        for _ in 0..g.size(1, 4) {
            let nodes = all(&m);
            let targets: Vec<Path> = nodes.iter().filter(|(_, n)| !n.is_tree()).map(|(p, _)| p.clone()).collect();
            let mut parents: Vec<Path> = nodes.iter().filter(|(_, n)| n.map().is_some()).map(|(p, _)| p.clone()).collect();
            parents.push(vec![]);
            if targets.is_empty() { break }
            let t = g.pick(&targets).clone();
            let mut p = g.pick(&parents).clone();
            let k = gen_key(g);
            if map_at(&m, &p).unwrap().contains_key(&k) { continue }
            p.push(k.clone());
            let r = write_ref(g, &p, &t);
            let flags = gen_flags(g);
            map_at_mut(&mut m, &p[..p.len() - 1]).unwrap().insert(k, Node { v: V::Ref(t, r), flags });
        }
    }
    m
}

// ---- building

static NEXT: AtomicU64 = AtomicU64::new(0);
/// A private directory, removed on drop.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let base = if std::path::Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let p = base.join(format!("vp-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir(&p).expect("scratch directory");
        Scratch(p)
    }
    pub fn dir(&self, name: &str) -> PathBuf {
        self.0.join(name)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
pub struct Db {
    pub db: GroveDb,
    pub path: PathBuf,
    pub scratch: Scratch,
}
pub fn open() -> Db {
    let scratch = Scratch::new();
    let path = scratch.dir("db");
    Db { db: GroveDb::open(&path).expect("open"), path, scratch }
}
pub fn refs(p: &[Key]) -> Vec<&[u8]> {
    p.iter().map(|k| k.as_slice()).collect()
}
pub fn append(db: &GroveDb, p: &[Key], k: &[u8], n: &Node, i: usize, tx: grovedb::TransactionArg, v: &GroveVersion) -> R {
    let path = refs(p);
    match &n.v {
        V::Mmr(l) => {
            let (_, at) = db.mmr_tree_append(path.as_slice(), k, l[i].clone(), tx, v).unwrap().map_err(|e| Fail::new("append", format!("mmr append: {e}")))?;
            ensure_eq!(at, i as u64, "mmr position");
        }
        V::Bulk(_, l) => {
            let (_, at) = db.bulk_append(path.as_slice(), k, l[i].clone(), tx, v).unwrap().map_err(|e| Fail::new("append", format!("bulk append: {e}")))?;
            ensure_eq!(at, i as u64, "bulk position");
        }
        V::Dense(_, l) => {
            let (_, at) = db.dense_tree_insert(path.as_slice(), k, l[i].clone(), tx, v).unwrap().map_err(|e| Fail::new("append", format!("dense insert: {e}")))?;
            ensure_eq!(at as usize, i, "dense position");
        }
        V::Commit(_, l) => {
            let (cmx, rho) = (l[i][..32].try_into().unwrap(), l[i][32..64].try_into().unwrap());
            let ct = grovedb_commitment_tree::deserialize_ciphertext::<grovedb_commitment_tree::DashMemo>(&l[i][64..]).expect("ciphertext");
            let (_, at) = db.commitment_tree_insert(path.as_slice(), k, cmx, rho, ct, tx, v).unwrap().map_err(|e| Fail::new("append", format!("note insert: {e}")))?;
            ensure_eq!(at, i as u64, "note position");
        }
        _ => {}
    }
    Ok(())
}
/// Inserts the whole model, in a random order, with detours that cancel out.
pub fn build(g: &mut G, db: &GroveDb, m: &Map, v: &GroveVersion) -> R {
    let nodes = all(m);
    let mut todo: Vec<(Path, &Node)> = nodes.iter().filter(|(_, n)| !matches!(n.v, V::Ref(..))).map(|(p, n)| (p.clone(), *n)).collect();
    let mut refs_todo: Vec<(Path, &Node)> = nodes.iter().filter(|(_, n)| matches!(n.v, V::Ref(..))).map(|(p, n)| (p.clone(), *n)).collect();
    let detours = g.bool();
    let shuffled = g.bool();
    while !todo.is_empty() {
        // any node whose parent is already there (parents come first)
        let i = if shuffled {
            let i = g.below(todo.len() as u64) as usize;
            (0..=i).find(|j| todo[i].0.starts_with(&todo[*j].0)).unwrap_or(i)
        } else { 0 };
        let (p, n) = todo.remove(i);
        let (k, dir) = p.split_last().unwrap();
        let d = refs(dir);
        if detours && g.chance(1, 6) {
            let junk = gen_key(g);
            if !map_at(m, dir).unwrap().contains_key(&junk) {
                put(db, &d, &junk, Element::new_item(vec![7; 3]), v)?;
                if !n.is_tree() { put(db, &d, k, Element::new_item(vec![1]), v)? }
                put(db, &d, k, n.fresh(), v)?;
                if let Err(e) = db.delete(d.as_slice(), &junk, None, None, v).unwrap() { fail!("delete of a detour item: {e}") }
                leaves(db, dir, k, n, v)?;
                continue;
            }
        }
        put(db, &d, k, n.fresh(), v)?;
        leaves(db, dir, k, n, v)?;
    }
    // a reference may point at another reference
    while !refs_todo.is_empty() {
        let left: Vec<Path> = refs_todo.iter().map(|(p, _)| p.clone()).collect();
        let i = refs_todo.iter().position(|(_, n)| match &n.v { V::Ref(t, _) => !left.contains(t), _ => true }).expect("no reference cycles");
        let (p, n) = refs_todo.remove(i);
        let (k, dir) = p.split_last().unwrap();
        put(db, &refs(dir), k, n.element(), v)?;
    }
    Ok(())
}
fn leaves(db: &GroveDb, dir: &[Key], k: &[u8], n: &Node, v: &GroveVersion) -> R {
    if let Some((l, _)) = n.leaves() {
        for i in 0..l.len() { append(db, dir, k, n, i, None, v)? }
    }
    Ok(())
}
pub fn put(db: &GroveDb, path: &[&[u8]], k: &[u8], e: Element, v: &GroveVersion) -> R {
    let s = format!("{e:?}");
    match db.insert(path, k, e, None, None, v).unwrap() {
        Ok(()) => Ok(()),
        Err(e) => fail!("insert of {s} at {path:?} {k:?}: {e}"),
    }
}
pub fn version(g: &mut G) -> &'static GroveVersion {
    match g.below(6) {
        0 => &GROVE_VERSIONS[0],
        1 => &GROVE_VERSIONS[1],
        _ => GROVE_VERSIONS.last().unwrap(),
    }
}
pub fn latest() -> &'static GroveVersion {
    GROVE_VERSIONS.last().unwrap()
}
/// Whether proofs of this version are of the V1 kind.
pub fn v1_proofs(v: &GroveVersion) -> bool {
    v.grovedb_versions.operations.proof.prove_query_non_serialized != 0
}

// ---- queries

fn near(g: &mut G, keys: &[Key]) -> Key {
    if keys.is_empty() || g.chance(1, 4) { return small_key(g, 0, 2) }
    let mut k = g.pick(keys).clone();
    match g.below(8) {
        0 => k.push(0),
        1 => { k.pop(); }
        2 => { if let Some(l) = k.last_mut() { *l = l.wrapping_sub(1) } k.push(255) }
        3 => { if let Some(l) = k.last_mut() { *l = l.wrapping_add(1) } }
        _ => {}
    }
    k
}
fn position(g: &mut G, n: usize, w: usize) -> Key {
    let i = if g.chance(1, 16) { g.u64b() } else { g.below(n as u64 + 2) };
    i.to_be_bytes()[8 - w..].to_vec()
}
#[derive(Clone, Copy)]
enum Over<'a> { Keys(&'a Map), Leaves(usize, usize), Nothing }
fn over(n: &Node) -> Over<'_> {
    match (n.map(), n.leaves()) {
        (Some(m), _) => Over::Keys(m),
        (_, Some((l, w))) => Over::Leaves(l.len(), w),
        _ => Over::Nothing,
    }
}
fn gen_items(g: &mut G, o: Over, q: &mut Query) {
    for _ in 0..g.weighted(&[1, 20, 8, 4]) {
        let it = match o {
            Over::Keys(m) => {
                let keys: Vec<Key> = m.keys().cloned().collect();
                if g.chance(1, 4) { QueryItem::RangeFull(..) } else { item_over(g, |g| near(g, &keys)) }
            }
            Over::Leaves(n, w) => if g.chance(1, 4) { QueryItem::RangeFull(..) } else { item_over(g, |g| position(g, n, w)) },
            Over::Nothing => item(g),
        };
        if !degenerate(&it) { q.insert_item(it) }
    }
    if q.items.is_empty() { q.insert_all() }
}
fn gen_branch(g: &mut G, child: Option<&Node>, depth: usize) -> SubqueryBranch {
    let mut cur = child;
    let mut path = vec![];
    if g.chance(1, 3) {
        for _ in 0..g.weighted(&[1, 8, 3]) {
            match cur.and_then(|c| c.map()) {
                Some(m) if !m.is_empty() && g.chance(7, 8) => {
                    let keys: Vec<Key> = m.keys().cloned().collect();
                    let trees: Vec<Key> = m.iter().filter(|(_, n)| n.is_tree()).map(|(k, _)| k.clone()).collect();
                    let k = if !trees.is_empty() && g.chance(3, 4) { g.pick(&trees).clone() } else { g.pick(&keys).clone() };
                    cur = m.get(&k);
                    path.push(k);
                }
                _ => { path.push(small_key(g, 1, 2)); cur = None }
            }
        }
    }
    let sub = if path.is_empty() && !g.chance(1, 20) || g.chance(2, 3) { Some(Box::new(gen_query(g, cur.map(over).unwrap_or(Over::Nothing), depth + 1))) } else { None };
    SubqueryBranch { subquery_path: if path.is_empty() && !g.chance(1, 16) { None } else { Some(path) }, subquery: sub }
}
fn gen_query(g: &mut G, o: Over, depth: usize) -> Query {
    let mut q = Query::new_with_direction(g.chance(2, 3));
    gen_items(g, o, &mut q);
    if let Over::Keys(m) = o {
        let trees: Vec<&Node> = m.values().filter(|n| n.is_tree()).collect();
        if depth < 4 && g.chance(if trees.is_empty() { 1 } else { 6 }, 8) {
            let c = if trees.is_empty() { None } else { Some(*g.pick(&trees)) };
            q.default_subquery_branch = gen_branch(g, c, depth);
        }
        if depth < 4 && g.chance(1, 4) {
            for _ in 0..g.size(1, 2) {
                let keys: Vec<&Key> = m.keys().collect();
                if keys.is_empty() { break }
                let k = (*g.pick(&keys)).clone();
                let b = gen_branch(g, m.get(&k), depth);
                let it = if g.chance(3, 4) { QueryItem::Key(k) } else { item_over(g, |g| small_key(g, 1, 2)) };
                if g.chance(1, 8) {
                    q.add_conditional_subquery(it, None, None);
                } else {
                    q.add_conditional_subquery(it, b.subquery_path, b.subquery.map(|b| *b));
                }
            }
        }
        if g.chance(1, 8) { q.add_parent_tree_on_subquery = true }
    }
    q
}
pub fn gen_path_query(g: &mut G, m: &Map) -> PathQuery {
    let mut path: Path = vec![];
    let mut o = Over::Keys(m);
    while let Over::Keys(cur) = o {
        let trees: Vec<&Key> = cur.iter().filter(|(_, n)| n.is_tree()).map(|(k, _)| k).collect();
        if trees.is_empty() || g.chance(1, 2) { break }
        let k = (*g.pick(&trees)).clone();
        o = over(&cur[&k]);
        path.push(k);
    }
    if g.chance(1, 40) {
        path.push(small_key(g, 1, 2));
        o = Over::Nothing;
    }
    let q = gen_query(g, o, 0);
    let limit = if g.chance(1, 3) { Some(g.size(1, 8) as u16) } else { None };
    let mut pq = PathQuery::new_unsized(path, q);
    pq.query.limit = limit;
    pq
}
pub fn show_pq(p: &PathQuery) -> String {
    format!("/{} {}{}", p.path.iter().map(|k| vp::hex(k)).collect::<Vec<_>>().join("/"), show(&p.query.query),
        p.query.limit.map(|l| format!(" limit {l}")).unwrap_or_default())
}
pub fn show_map(m: &Map) -> String {
    let v: Vec<String> = m.iter().map(|(k, n)| format!("{}:{}", crate::hist::short(k), show_node(n))).collect();
    format!("{{{}}}", v.join(", "))
}
pub fn show_node(n: &Node) -> String {
    let s = match &n.v {
        V::Item(v) => format!("item {}", vp::hex(v)),
        V::Sum(s) => format!("sum {s}"),
        V::ItemSum(v, s) => format!("itemsum {} {s}", vp::hex(v)),
        V::Ref(t, r) => format!("ref->/{} ({})", t.iter().map(|k| crate::hist::short(k)).collect::<Vec<_>>().join("/"), format!("{r:?}").split('(').next().unwrap()),
        V::Tree(k, m) => format!("{k:?}{}", show_map(m)),
        V::Mmr(l) => format!("mmr{:?}", l),
        V::Bulk(h, l) => format!("bulk{h}{:?}", l),
        V::Dense(h, l) => format!("dense{h}{:?}", l),
        V::Commit(h, l) => format!("commit{h}{:?}", l.iter().map(|n| [n[0], n[40], n[279]]).collect::<Vec<_>>()),
    };
    match &n.flags { Some(f) => format!("{s}!{}", vp::hex(f)), None => s }
}

// ---- evaluation

pub type Row = (Path, Key, Element);
pub struct Ev<'a> {
    root: &'a Map,
    raw: bool,
    left: Option<u16>,
    done: bool,
    pub out: Vec<Row>,
    /// A query reached a flat tree with keys it cannot have.
    pub bad_width: bool,
    /// A flat tree query that selects no position of a non-empty tree.
    pub no_position: bool,
    /// A visited subtree gave no result (relevant with limits).
    pub dry: bool,
    pub parents: bool,
    pub descending_flat: bool,
    pub tree_refs: bool,
    pub flat: bool,
    pub layers: usize,
}
enum T<'a> { Here, Query(&'a Query), Path(&'a Key, &'a [Key], Option<&'a Query>) }
fn target<'a>(path: &'a [Key], q: Option<&'a Query>) -> T<'a> {
    match (path.split_first(), q) {
        (Some((k, rest)), q) => T::Path(k, rest, q),
        (None, Some(q)) => T::Query(q),
        (None, None) => T::Here,
    }
}
fn branch_target<'a>(b: &'a SubqueryBranch) -> T<'a> {
    target(b.subquery_path.as_deref().unwrap_or(&[]), b.subquery.as_deref())
}
impl<'a> Ev<'a> {
    fn push(&mut self, path: &[Key], k: &Key, e: Element) {
        self.out.push((path.to_vec(), k.clone(), e));
        self.spend();
    }
    fn spend(&mut self) {
        if let Some(l) = &mut self.left {
            *l = l.saturating_sub(1);
            if *l == 0 { self.done = true }
        }
    }
    fn tree(&mut self, n: Option<&'a Node>, m: Option<&'a Map>, path: &Path, t: T<'a>) {
        self.layers += 1;
        let before = self.out.len();
        if let Some((leaves, w)) = n.and_then(|n| n.leaves()) {
            self.flat = true;
            let T::Query(q) = t else { self.bad_width = true; return };
            self.descending_flat |= !q.left_to_right;
            let ok = |k: &Key| k.len() == w;
            for i in &q.items {
                self.bad_width |= !item_keys(i).iter().all(ok);
            }
            self.bad_width |= q.items.is_empty();
            if self.bad_width { return }
            let mut any = false;
            for (i, v) in leaves.iter().enumerate() {
                let k = (i as u64).to_be_bytes()[8 - w..].to_vec();
                if q.items.iter().any(|it| matches(it, &k)) {
                    any = true;
                    self.push(path, &k, Element::new_item(v.clone()));
                    if self.done { break }
                }
            }
            self.no_position |= !any && !leaves.is_empty();
            self.dry |= self.out.len() == before;
            return;
        }
        let m = m.unwrap_or_else(|| n.unwrap().map().expect("merk tree"));
        let (mut seen, quota) = (0u16, self.left);
        let mut step = |me: &mut Self, k: &'a Key, n: &'a Node, t: T<'a>, parents: bool| {
            if me.done || quota.is_some_and(|q| seen >= q) { return }
            seen += 1;
            me.child(path, k, n, t, parents);
        };
        match t {
            T::Here => unreachable!(),
            T::Path(k, rest, q) => {
                if let Some((k, n)) = m.get_key_value(k) { step(self, k, n, target(rest, q), false) }
            }
            T::Query(q) => {
                let mut keys: Vec<(&'a Key, &'a Node)> = m.iter().filter(|(k, _)| q.items.iter().any(|i| matches(i, k))).collect();
                if !q.left_to_right { keys.reverse() }
                for (k, n) in keys {
                    let b = crate::q02::branch(q, k);
                    step(self, k, n, branch_target(b), q.add_parent_tree_on_subquery);
                }
            }
        }
        if seen == 0 { self.spend() }
        self.dry |= self.out.len() == before;
    }
    fn child(&mut self, path: &Path, k: &'a Key, n: &'a Node, t: T<'a>, parents: bool) {
        let r = resolve(self.root, n);
        self.tree_refs |= r.is_tree() && !std::ptr::eq(r, n);
        if let T::Here = t {
            if self.raw || !matches!(r.element(), Element::Tree(None, _)) {
                self.push(path, k, r.element());
            } else {
                self.dry = true;
                self.spend();
            }
            return;
        }
        if r.is_item() {
            self.push(path, k, r.element());
            return;
        }
        if r.map().is_some_and(|m| m.is_empty()) { self.dry = true; self.spend(); return }
        let mut p = path.clone();
        p.push(k.clone());
        if parents {
            self.parents = true;
            self.out.push((p.clone(), k.clone(), r.element()));
        }
        self.tree(Some(r), None, &p, t);
    }
}
fn item_keys(i: &QueryItem) -> Vec<Key> {
    use QueryItem::*;
    match i {
        Key(a) => vec![a.clone()],
        Range(r) => vec![r.start.clone(), r.end.clone()],
        RangeInclusive(r) => vec![r.start().clone(), r.end().clone()],
        RangeFull(_) => vec![],
        RangeFrom(r) => vec![r.start.clone()],
        RangeTo(r) => vec![r.end.clone()],
        RangeToInclusive(r) => vec![r.end.clone()],
        RangeAfter(r) => vec![r.start.clone()],
        RangeAfterTo(r) => vec![r.start.clone(), r.end.clone()],
        RangeAfterToInclusive(r) => vec![r.start().clone(), r.end().clone()],
    }
}
/// What a path query selects. `raw` keeps empty plain trees.
pub fn eval<'a>(root: &'a Map, pq: &'a PathQuery, limit: Option<u16>, raw: bool) -> Ev<'a> {
    let mut e = Ev { root, raw, left: limit, done: limit == Some(0), out: vec![], bad_width: false, no_position: false, dry: false, parents: false, descending_flat: false, tree_refs: false, flat: false, layers: 0 };
    let t = target(&pq.path, Some(&pq.query.query));
    e.tree(None, Some(root), &vec![], t);
    e
}
