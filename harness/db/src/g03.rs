//! G03: trunk and branch chunk proofs of count trees reassemble exactly the tree.
use crate::forge::{self, Forge};
use crate::g02::{self, forged, ProofBytes};
use crate::grove::*;
use grovedb::operations::proof::GroveDBProof;
use grovedb::{LeafInfo, PathBranchChunkQuery, PathTrunkChunkQuery};
use grovedb::{Element, GroveDb};
use grovedb_merk::proofs::branch::{TrunkQueryResult, calculate_chunk_depths, calculate_chunk_depths_with_minimum, calculate_max_tree_depth_from_count};
use grovedb_merk::proofs::tree::Tree;
use grovedb_version::version::GroveVersion;
use std::collections::{BTreeMap, BTreeSet};
use vp::*;

const COUNTED: [Kind; 4] = [Kind::Count, Kind::CountSum, Kind::PCount, Kind::PCountSum];

struct Case {
    db: Db,
    root: Map,
    path: Path,
    kind: Kind,
    v: &'static GroveVersion,
}
impl Case {
    fn tree(&self) -> &Map {
        map_at(&self.root, &self.path).unwrap()
    }
    fn want(&self) -> BTreeMap<Key, Element> {
        self.tree().iter().map(|(k, n)| (k.clone(), norm(n.element()))).collect()
    }
    fn provable(&self) -> bool {
        matches!(self.kind, Kind::PCount | Kind::PCountSum)
    }
    fn ctx(&self) -> String {
        format!("grove {}\n  path {}\n  version {}", show_map(&self.root), self.path.iter().map(|k| vp::hex(k)).collect::<Vec<_>>().join("/"), self.v.protocol_version)
    }
}
fn grow(g: &mut G) -> R<Case> {
    let v = version(g);
    let kind = *g.pick(&COUNTED);
    let n = g.skewed(0, 40);
    let o = Opts { flat_trees: false, ..Opts::default() };
    let mut m = Map::new();
    for _ in 0..n {
        let node = if g.chance(1, 10) {
            let k = gen_kind(g);
            let mut c = Map::new();
            for _ in 0..g.size(0, 2) { c.insert(gen_key(g), gen_leaf(g, &o, k)); }
            Node { v: V::Tree(k, c), flags: gen_flags(g) }
        } else {
            gen_leaf(g, &o, kind)
        };
        let mut k = gen_key(g);
        if k.len() < 255 && g.bool() { k.push(g.byte()) }
        m.insert(k, node);
    }
    if !m.is_empty() && g.chance(1, 4) {
        // references, which chunks show raw
        let keys: Vec<Key> = m.iter().filter(|(_, n)| n.is_item()).map(|(k, _)| k.clone()).collect();
        for _ in 0..g.size(1, 2) {
            let k = gen_key(g);
            if keys.is_empty() || m.contains_key(&k) { continue }
            let t = g.pick(&keys).clone();
            m.insert(k, Node { v: V::Ref(vec![], grovedb_element::reference_path::ReferencePathType::SiblingReference(t)), flags: None });
        }
    }
    let mut path = vec![gen_key(g)];
    let mut node = Node { v: V::Tree(kind, m), flags: gen_flags(g) };
    let mut root = Map::new();
    for _ in 0..g.weighted(&[3, 2, 1]) {
        let pk = gen_kind(g);
        let mut up = Map::new();
        for _ in 0..g.size(0, 3) { up.insert(gen_key(g), gen_leaf(g, &o, pk)); }
        up.insert(path[0].clone(), node);
        node = Node { v: V::Tree(pk, up), flags: None };
        path.insert(0, gen_key(g));
    }
    for _ in 0..g.size(0, 3) { root.insert(gen_key(g), gen_leaf(g, &o, Kind::Plain)); }
    root.insert(path[0].clone(), node);
    let db = open();
    build(g, &db.db, &root, v)?;
    let c = Case { db, root, path, kind, v };
    g.note(|| c.ctx());
    Ok(c)
}
fn trunk_query(g: &mut G, c: &Case) -> PathTrunkChunkQuery {
    let max = 1 + g.skewed(0, 7) as u8;
    if g.chance(1, 3) { PathTrunkChunkQuery::new_with_min_depth(c.path.clone(), max, 1 + g.below(max as u64) as u8) } else { PathTrunkChunkQuery::new(c.path.clone(), max) }
}
fn depths(c: &Case, q: &PathTrunkChunkQuery, count: u64) -> R<Vec<u8>> {
    let d = calculate_max_tree_depth_from_count(count);
    let r = match q.min_depth {
        Some(min) if c.provable() => calculate_chunk_depths_with_minimum(d, q.max_depth, min),
        _ => calculate_chunk_depths(d, q.max_depth),
    };
    r.map_err(|e| Fail::new("depths", format!("chunk depths: {e}")))
}
fn count_of(c: &Case, keys: &BTreeSet<Key>) -> u64 {
    keys.iter().map(|k| c.tree()[k].element().count_value_or_default()).sum()
}
struct Part<'a> {
    elements: &'a BTreeMap<Key, Element>,
    leaf_keys: &'a BTreeMap<Key, LeafInfo>,
    tree: &'a Tree,
    trace: &'a dyn Fn(&[u8]) -> Option<(Key, LeafInfo)>,
    ancestor: &'a dyn Fn(&[u8], u64) -> Option<(u8, u64, Key, [u8; 32])>,
}
fn hash_at(c: &Case, k: &[u8]) -> R<[u8; 32]> {
    match c.db.db.prove_branch_chunk_non_serialized(&PathBranchChunkQuery::new(c.path.clone(), k.to_vec(), 1), c.v).unwrap() {
        Ok(b) => Ok(b.branch_root_hash),
        Err(e) => fail!("branch at an existing key {} refused: {e}\n  {}", vp::hex(k), c.ctx()),
    }
}
/// What lies at and below each key of the part, by the keys of the tree.
fn below(t: &Tree, keys: &BTreeSet<Key>, out: &mut BTreeMap<Key, BTreeSet<Key>>) {
    let Some(k) = t.key() else { return };
    out.insert(k.to_vec(), keys.clone());
    let (l, r) = keys.iter().cloned().partition::<BTreeSet<Key>, _>(|x| x.as_slice() < k);
    let r = r.into_iter().filter(|x| x.as_slice() != k).collect();
    if let Some(c) = &t.left { below(&c.tree, &l, out) }
    if let Some(c) = &t.right { below(&c.tree, &r, out) }
}
fn up(t: &Tree, k: &[u8], out: &mut Vec<Key>) -> bool {
    let Some(me) = t.key() else { return false };
    out.push(me.to_vec());
    if me == k { return true }
    let c = if k < me { &t.left } else { &t.right };
    c.as_ref().is_some_and(|c| up(&c.tree, k, out))
}
/// Everything a verified part says is so. `keys` are the real keys at and below its root.
fn check(g: &mut G, c: &Case, p: &Part, keys: &BTreeSet<Key>, sound_only: bool) -> R {
    let want = c.want();
    for (k, e) in p.elements {
        let known = if e.is_non_empty_tree() { "chunk-tree-bytes" } else { "element" };
        match want.get(k) {
            Some(w) if *w == norm(e.clone()) => {}
            Some(w) => return Err(Fail::new(known, format!("chunk gives {e:?} at {} where the tree holds {w:?}\n  {}", vp::hex(k), c.ctx()))),
            None => fail!("chunk gives {e:?} at {} which does not exist\n  {}", vp::hex(k), c.ctx()),
        }
        ensure!(keys.contains(k), "chunk gives {} outside its branch\n  {}", vp::hex(k), c.ctx());
    }
    let mut under = BTreeMap::new();
    below(p.tree, keys, &mut under);
    for (k, i) in p.leaf_keys {
        ensure!(p.elements.contains_key(k), "leaf key {} is not an element", vp::hex(k));
        ensure_eq!(i.hash, hash_at(c, k)?, "hash of leaf {}\n  {}", vp::hex(k), c.ctx());
        let real = count_of(c, &under[k]);
        match i.count {
            Some(n) => ensure_eq!(n, real, "count of leaf {}\n  {}", vp::hex(k), c.ctx()),
            None => ensure!(sound_only || !c.provable(), "no count for leaf {}", vp::hex(k)),
        }
        // privacy ancestors
        let mut path = vec![];
        ensure!(up(p.tree, k, &mut path), "leaf not in the tree");
        let min = g.below(keys.len() as u64 + 2);
        let want = if path.len() <= 2 { None } else {
            let n = |a: &Key| if c.provable() { count_of(c, &under[a]) } else { 0 };
            let i = (1..path.len() - 1).rev().find(|i| c.provable() && n(&path[*i]) >= min).unwrap_or(1);
            Some(((path.len() - 1 - i) as u8, n(&path[i]), path[i].clone(), hash_at(c, &path[i])?))
        };
        ensure_eq!((p.ancestor)(k, min), want, "ancestor of {} with count {min}\n  {}", vp::hex(k), c.ctx());
    }
    for k in keys {
        let t = (p.trace)(k);
        if p.elements.contains_key(k) {
            ensure!(t.is_none(), "a key of the chunk traces to {t:?}");
            continue;
        }
        let Some((l, i)) = t else { fail!("existing key {} is in no leaf\n  {}", vp::hex(k), c.ctx()) };
        ensure_eq!(Some(&i), p.leaf_keys.get(&l), "traced leaf");
        ensure!(under.get(&l).is_some_and(|u| u.contains(k)), "key {} traces to {} which is not above it\n  {}", vp::hex(k), vp::hex(&l), c.ctx());
    }
    let odd = gen_key(g);
    if let Some((l, i)) = (p.trace)(&odd) { ensure_eq!(p.leaf_keys.get(&l), Some(&i), "traced leaf of {}", vp::hex(&odd)) }
    Ok(())
}
fn branch(c: &Case, bytes: &[u8], q: &PathBranchChunkQuery, h: [u8; 32]) -> R<Result<grovedb::GroveBranchQueryResult, grovedb::Error>> {
    no_panic(|| GroveDb::verify_branch_chunk_proof(bytes, q, h, c.v)).map_err(|p| Fail::new("panic", format!("branch verification panicked: {p}")))
}
fn walk(g: &mut G, c: &Case, leaf: &Key, info: LeafInfo, keys: &BTreeSet<Key>, out: &mut BTreeMap<Key, Element>, fuel: &mut u32) -> R {
    if *fuel == 0 { return Ok(()) }
    *fuel -= 1;
    let q = PathBranchChunkQuery::new(c.path.clone(), leaf.clone(), g.size(1, 5) as u8 + 1);
    let proof = match c.db.db.prove_branch_chunk(&q, c.v).unwrap() { Ok(p) => p, Err(e) => fail!("branch chunk refused: {e}\n  {}", c.ctx()) };
    let r = match branch(c, &proof, &q, info.hash)? { Ok(r) => r, Err(e) => fail!("branch proof refused: {e}\n  leaf {}\n  {}", vp::hex(leaf), c.ctx()) };
    ensure_eq!(r.branch_root_hash, info.hash, "branch root hash");
    let mut other = info.hash;
    other[g.below(32) as usize] ^= 1 << g.below(8);
    ensure!(branch(c, &proof, &q, other)?.is_err(), "branch proof verified against another hash\n  leaf {}\n  {}", vp::hex(leaf), c.ctx());
    check(g, c, &Part { elements: &r.elements, leaf_keys: &r.leaf_keys, tree: &r.tree, trace: &|k| r.trace_key_to_leaf(k), ancestor: &|k, n| r.get_ancestor(k, n) }, keys, false)?;
    for (k, e) in &r.elements { out.insert(k.clone(), norm(e.clone())); }
    let mut under = BTreeMap::new();
    below(&r.tree, keys, &mut under);
    for (k, i) in &r.leaf_keys { walk(g, c, k, *i, &under[k], out, fuel)? }
    Ok(())
}
fn complete(g: &mut G) -> R {
    let c = grow(g)?;
    let root = c.db.db.root_hash(None, c.v).unwrap().expect("root");
    let q = trunk_query(g, &c);
    let proof = match c.db.db.prove_trunk_chunk(&q, c.v).unwrap() {
        Ok(p) => p,
        Err(e) => {
            // a tree whose elements count nothing cannot be split by count
            let zero = Node { v: V::Tree(c.kind, c.tree().clone()), flags: None }.element().count_value_or_default() == 0;
            ensure!(zero && !c.tree().is_empty(), "trunk chunk refused: {e}\n  {}", c.ctx());
            return Err(Fail::discard());
        }
    };
    let (h, r) = match GroveDb::verify_trunk_chunk_proof(&proof, &q, c.v) { Ok(r) => r, Err(e) => fail!("trunk proof refused: {e}\n  {q:?}\n  {}", c.ctx()) };
    ensure_eq!(h, root, "root hash");
    let keys: BTreeSet<Key> = c.tree().keys().cloned().collect();
    let count = count_of(&c, &keys);
    ensure_eq!(r.max_tree_depth, calculate_max_tree_depth_from_count(count), "tree depth of {count}");
    ensure_eq!(r.chunk_depths, if count == 0 { vec![] } else { depths(&c, &q, count)? }, "chunk depths for {count} {q:?}\n  {}", c.ctx());
    check(g, &c, &Part { elements: &r.elements, leaf_keys: &r.leaf_keys, tree: &r.tree, trace: &|k| r.trace_key_to_leaf(k), ancestor: &|k, n| r.get_ancestor(k, n) }, &keys, false)?;
    let mut got: BTreeMap<Key, Element> = r.elements.iter().map(|(k, e)| (k.clone(), norm(e.clone()))).collect();
    let mut under = BTreeMap::new();
    below(&r.tree, &keys, &mut under);
    let mut fuel = 60;
    for (k, i) in &r.leaf_keys { walk(g, &c, k, *i, &under[k], &mut got, &mut fuel)? }
    if fuel > 0 { ensure!(got == c.want(), "the chunks do not give the tree\n  got {got:?}\n  {}", c.ctx()) }
    terminals(g, &c, &q, &proof, &r, &keys)?;
    recut(g, &c, &q, &proof, count)?;
    if !r.leaf_keys.is_empty() { g.nontrivial() }
    g.label_if(q.min_depth.is_some(), "minimum depth");
    Ok(())
}

/// The same questions asked of the raw trunk and branch results.
fn terminals(g: &mut G, c: &Case, q: &PathTrunkChunkQuery, proof: &[u8], r: &grovedb::GroveTrunkQueryResult, keys: &BTreeSet<Key>) -> R {
    let mut l = &g02::layers(&g02::read(proof).unwrap());
    for k in &c.path { l = &l.lower[k] }
    let ProofBytes::Merk(b) = &l.proof else { fail!("chunk layer is no merk layer") };
    let ops = forge::decode(b).unwrap();
    let t = TrunkQueryResult { proof: ops.clone(), chunk_depths: r.chunk_depths.clone(), tree_depth: r.max_tree_depth };
    let mut got = t.terminal_node_keys();
    got.sort();
    ensure_eq!(got, r.leaf_keys.keys().cloned().collect::<Vec<_>>(), "terminal keys\n  {}", c.ctx());
    let below_hash = |k: &Key| if r.elements.contains_key(k) { None } else { r.trace_key_to_leaf(k).map(|x| x.0) };
    for k in keys { ensure_eq!(t.trace_key_to_terminal(k), below_hash(k), "terminal of {}\n  {}", vp::hex(k), c.ctx()) }
    if ops.is_empty() { return Ok(()) }
    if let Err(e) = t.verify_terminal_nodes_at_expected_depth() { fail!("terminals of an honest trunk refused: {e}\n  {q:?}\n  {}", c.ctx()) }
    // a trunk cut elsewhere is not one of the expected depth
    let mut tree = forge::parse(&ops).unwrap();
    let n = forge::size(&tree);
    let i = g.below(n as u64) as usize;
    let mut at = 0;
    let depth = depth_of(&tree, i, &mut at, 0).unwrap();
    let node = forge::nth(&mut tree, i);
    let already = matches!(node.node, grovedb_merk::proofs::Node::Hash(_));
    if let Some(h) = forge::root(node) {
        *node = forge::leaf(grovedb_merk::proofs::Node::Hash(h));
        let mut ops = vec![];
        forge::straight(&tree, false, &mut ops);
        let cut = TrunkQueryResult { proof: ops, ..t };
        let ok = already || depth == r.chunk_depths[0] as usize;
        ensure_eq!(cut.verify_terminal_nodes_at_expected_depth().is_ok(), ok, "a trunk cut at depth {depth} of {:?}", r.chunk_depths);
    }
    // and a branch
    let all: Vec<Key> = keys.iter().cloned().collect();
    let bq = PathBranchChunkQuery::new(c.path.clone(), g.pick(&all).clone(), g.size(1, 4) as u8);
    let b = match c.db.db.prove_branch_chunk_non_serialized(&bq, c.v).unwrap() { Ok(b) => b, Err(e) => fail!("branch refused: {e}") };
    ensure_eq!((b.branch_root_key.clone(), b.returned_depth), (bq.key.clone(), bq.depth), "branch root and depth");
    let mut bytes = vec![];
    grovedb_merk::proofs::encode_into(b.proof.iter(), &mut bytes);
    let v = match branch(c, &bytes, &bq, b.branch_root_hash)? { Ok(v) => v, Err(e) => fail!("branch proof refused: {e}\n  {}", c.ctx()) };
    for k in &under(c, &bq.key, b.branch_root_hash)? {
        let want = if v.elements.contains_key(k) { None } else { v.trace_key_to_leaf(k).map(|x| x.0) };
        ensure_eq!(b.trace_key_to_terminal(k), want, "terminal of {} in a branch\n  {}", vp::hex(k), c.ctx());
    }
    // below its root, down to the depth asked for
    fn deep(t: &Tree) -> u8 { 1 + t.left.as_ref().map_or(0, |c| deep(&c.tree)).max(t.right.as_ref().map_or(0, |c| deep(&c.tree))) }
    ensure!(deep(&v.tree) <= bq.depth + 1, "branch deeper than {}", bq.depth);
    Ok(())
}
/// A chunk cut unevenly or deeper than asked for is refused, and so is anything in place of an empty tree.
fn recut(g: &mut G, c: &Case, q: &PathTrunkChunkQuery, proof: &[u8], count: u64) -> R {
    let parsed: grovedb::operations::proof::GroveDBProof = g02::read(proof).unwrap();
    let put = |bytes: Vec<u8>| {
        let mut l = g02::layers(&parsed);
        let mut at = &mut l;
        for k in &c.path { at = at.lower.get_mut(k).unwrap() }
        at.proof = ProofBytes::Merk(bytes);
        g02::write(&g02::with_layers(&parsed, l))
    };
    let verify = |p: &[u8]| no_panic(|| GroveDb::verify_trunk_chunk_proof(p, q, c.v)).map_err(|p| Fail::new("panic", format!("trunk verification panicked: {p}")));
    let ops = {
        let l = g02::layers(&parsed);
        let mut at = &l;
        for k in &c.path { at = &at.lower[k] }
        let ProofBytes::Merk(b) = &at.proof else { fail!("chunk layer is no merk layer") };
        forge::decode(b).unwrap()
    };
    if ops.is_empty() {
        // V0 proofs do not say so of an empty tree
        if matches!(parsed, grovedb::operations::proof::GroveDBProof::V0(_)) { return Ok(()) }
        let (junk, k, v) = (g.bytes(1, 12), gen_key(g), g.bytes(0, 4));
        let mut one = vec![];
        grovedb_merk::proofs::encode_into([grovedb_merk::proofs::Op::Push(grovedb_merk::proofs::Node::KV(k, v))].iter(), &mut one);
        for b in [junk, one] {
            ensure!(verify(&put(b.clone()))?.is_err(), "an empty tree is accepted with the chunk {}\n  {}", vp::hex(&b), c.ctx());
        }
        return Ok(());
    }
    let first = depths(c, q, count)?[0];
    // one of two siblings is cut away
    let mut tree = forge::parse(&ops).unwrap();
    let mut pairs = vec![];
    uneven(&mut tree, &mut pairs);
    if !pairs.is_empty() {
        let at = *g.pick(&pairs);
        let right = g.bool();
        let t = forge::nth(&mut tree, at);
        let side = if right { &mut t.r } else { &mut t.l }.as_mut().unwrap();
        if let Some(h) = forge::root(side) {
            **side = forge::leaf(grovedb_merk::proofs::Node::Hash(h));
            let (mut ops, mut bytes) = (vec![], vec![]);
            forge::straight(&tree, false, &mut ops);
            grovedb_merk::proofs::encode_into(ops.iter(), &mut bytes);
            ensure!(verify(&put(bytes))?.is_err(), "a trunk that shows one child of node {at} and not the other is accepted\n  {q:?}\n  {}", c.ctx());
            g.label("cut unevenly");
        }
    }
    // a chunk for a greater depth
    let more = PathTrunkChunkQuery::new(c.path.clone(), first.saturating_add(2 + g.below(4) as u8));
    if let Ok(p) = c.db.db.prove_trunk_chunk(&more, c.v).unwrap() {
        let d = depths(c, &more, count)?[0];
        let l = g02::layers(&g02::read(&p).unwrap());
        let mut at = &l;
        for k in &c.path { at = &at.lower[k] }
        let ProofBytes::Merk(b) = &at.proof else { fail!("chunk layer is no merk layer") };
        fn deep(t: &forge::T) -> usize {
            match t.node { grovedb_merk::proofs::Node::Hash(_) => 0, _ => 1 + [&t.l, &t.r].into_iter().flatten().map(|c| deep(c)).max().unwrap_or(0) }
        }
        let shown = deep(&forge::parse(&forge::decode(b).unwrap()).unwrap());
        ensure!(shown <= d as usize, "a trunk {shown} deep where {d} is asked for");
        // levels 0 to `first` are within it
        if shown > first as usize + 1 {
            ensure!(verify(&p)?.is_err(), "a trunk {shown} deep is accepted where {first} is asked for\n  {q:?}\n  {}", c.ctx());
            g.label("cut deeper");
        }
    }
    Ok(())
}
/// The nodes that have two children with more than a hash known of each.
fn uneven(t: &mut forge::T, out: &mut Vec<usize>) {
    for i in 0..forge::size(t) {
        let n = forge::nth(t, i);
        if [&n.l, &n.r].into_iter().all(|c| matches!(c, Some(c) if !matches!(c.node, grovedb_merk::proofs::Node::Hash(_)))) { out.push(i) }
    }
}
fn depth_of(t: &forge::T, i: usize, at: &mut usize, d: usize) -> Option<usize> {
    if let Some(l) = &t.l { if let Some(x) = depth_of(l, i, at, d + 1) { return Some(x) } }
    if *at == i { return Some(d) }
    *at += 1;
    t.r.as_ref().and_then(|r| depth_of(r, i, at, d + 1))
}
/// The keys at and below one, from its whole branch.
fn under(c: &Case, k: &Key, h: [u8; 32]) -> R<BTreeSet<Key>> {
    let deep = PathBranchChunkQuery::new(c.path.clone(), k.clone(), 60);
    let whole = c.db.db.prove_branch_chunk(&deep, c.v).unwrap().expect("branch proof");
    match branch(c, &whole, &deep, h)? { Ok(r) => Ok(r.elements.into_keys().collect()), Err(e) => fail!("branch proof refused: {e}\n  {}", c.ctx()) }
}
/// The arithmetic of depths.
fn arithmetic(g: &mut G) -> R {
    // the fewest nodes a balanced tree of each height can have
    let mut fewest: Vec<u128> = vec![0, 1];
    while *fewest.last().unwrap() < 1 << 70 { let n = fewest.len(); fewest.push(fewest[n - 1] + fewest[n - 2] + 1) }
    let near = |g: &mut G| { let n = *g.pick(&fewest); if n > u64::MAX as u128 { u64::MAX } else { (n as u64).wrapping_add(g.below(3)).saturating_sub(1) } };
    let count = if g.bool() { near(g) } else if g.bool() { g.below(500) } else { g.u64b() };
    let want = (0..fewest.len()).rev().find(|h| fewest[*h] <= count as u128).unwrap();
    ensure_eq!(calculate_max_tree_depth_from_count(count) as usize, want.min(92), "depth of {count}");
    let d = if g.bool() { g.below(20) as u8 } else { g.byte() };
    let max = if g.bool() { g.below(12) as u8 } else { g.byte() };
    let min = if g.bool() { g.below(12) as u8 } else { g.byte() };
    let sum = |c: &[u8]| c.iter().map(|x| *x as u32).sum::<u32>();
    match no_panic(|| calculate_chunk_depths(d, max)) {
        Err(p) => fail!("chunk depths of {d} {max} panicked: {p}"),
        Ok(Err(_)) => ensure!(max == 0, "chunk depths of {d} {max} refused"),
        Ok(Ok(c)) => {
            ensure!(max > 0, "chunk depths without a maximum");
            ensure!(sum(&c) == d as u32 && c.iter().all(|x| *x <= max) && c.windows(2).all(|w| w[0] >= w[1]) && c[0] - c[c.len() - 1] <= 1
                && c.len() == (d as usize).div_ceil(max as usize).max(1), "chunk depths of {d} {max}: {c:?}");
            if c.len() > 1 { g.nontrivial() }
        }
    }
    match no_panic(|| calculate_chunk_depths_with_minimum(d, max, min)) {
        Err(p) => fail!("chunk depths of {d} {max} {min} panicked: {p}"),
        Ok(Err(_)) => ensure!(max == 0 || min == 0 || min > max, "chunk depths of {d} {max} {min} refused"),
        Ok(Ok(c)) => {
            ensure!(max > 0 && min > 0 && min <= max, "chunk depths of {d} {max} {min}");
            ensure!(sum(&c) == d as u32 && c.iter().all(|x| *x <= max) && c.len() == (d as usize).div_ceil(max as usize).max(1)
                && (c.len() == 1 || c[0] >= min), "chunk depths of {d} {max} {min}: {c:?}");
            if c.len() > 1 {
                // no larger than an even share or the minimum asks for
                let share = (d as u32).div_ceil(c.len() as u32) as u8;
                ensure!(c[0] == share.max(min) && c[1..].windows(2).all(|w| w[0] >= w[1]) && c[1] - c[c.len() - 1] <= 1, "uneven chunk depths of {d} {max} {min}: {c:?}");
                g.nontrivial();
            }
        }
    }
    Ok(())
}
/// A chunk proof that was changed, still verifying, says nothing false.
/// The chunk with a reference in it shown as what it leads to, the way query proofs do.
fn resolved(g: &mut G, c: &Case, b: &[u8]) -> Option<Vec<u8>> {
    use grovedb_merk::proofs::Node;
    let mut t = forge::parse(&forge::decode(b)?)?;
    let mut found = vec![];
    for i in 0..forge::size(&t) {
        let n = &forge::nth(&mut t, i).node;
        let (Some(k), Some(value)) = (forge::key_of(n), forge::value_of(n)) else { continue };
        let V::Ref(_, grovedb_element::reference_path::ReferencePathType::SiblingReference(to)) = &c.tree().get(k)?.v else { continue };
        let target = c.tree().get(to)?.element().serialize(c.v).ok()?;
        let h = grovedb_merk::tree::value_hash(value).unwrap();
        let counted = c.tree()[k].element().count_value_or_default();
        let total = match n {
            Node::KVValueHashFeatureType(_, _, _, f) | Node::KVValueHashFeatureTypeWithChildHash(_, _, _, f, _) => match f {
                grovedb_merk::TreeFeatureType::ProvableCountedMerkNode(n) | grovedb_merk::TreeFeatureType::ProvableCountedSummedMerkNode(n, _) => *n,
                _ => counted,
            },
            _ => counted,
        };
        found.push((i, if c.provable() { Node::KVRefValueHashCount(k.clone(), target, h, total) } else { Node::KVRefValueHash(k.clone(), target, h) }));
    }
    if found.is_empty() { return None }
    let (i, n) = g.pick(&found).clone();
    forge::nth(&mut t, i).node = n;
    let (mut ops, mut bytes) = (vec![], vec![]);
    forge::straight(&t, false, &mut ops);
    grovedb_merk::proofs::encode_into(ops.iter(), &mut bytes);
    Some(bytes)
}
fn sound(g: &mut G) -> R {
    let mut c = grow(g)?;
    c.v = latest();
    let root = c.db.db.root_hash(None, c.v).unwrap().expect("root");
    let keys: BTreeSet<Key> = c.tree().keys().cloned().collect();
    let q = trunk_query(g, &c);
    let Ok(proof) = c.db.db.prove_trunk_chunk(&q, c.v).unwrap() else { return Err(Fail::discard()) };
    for _ in 0..6 {
        let Some(parsed) = g02::read(&proof) else { fail!("proof does not decode") };
        let mut l = g02::layers(&parsed);
        for _ in 0..g.weighted(&[0, 5, 2]) {
            if g.chance(1, 2) { g02::tamper(g, &mut l, &[], true, c.v); continue }
            // aim at the chunk itself
            let mut at = &mut l;
            for k in &c.path { match at.lower.contains_key(k) { true => at = at.lower.get_mut(k).unwrap(), false => break } }
            let v = c.v;
            let mut value = |g: &mut G, old: Option<&Vec<u8>>| forged(g, old, v);
            if g.chance(1, 4) {
                if let ProofBytes::Merk(b) = &at.proof {
                    if let Some(b) = resolved(g, &c, b) { at.proof = ProofBytes::Merk(b); g.label("a reference shown as what it leads to"); continue }
                }
            }
            if let ProofBytes::Merk(b) = &at.proof {
                if let Some(b) = forge::merk(g, b, &mut Forge { value: &mut value, hashes: vec![[0; 32]], structure_only: false }) { at.proof = ProofBytes::Merk(b) }
            }
        }
        let bytes = g02::write(&g02::with_layers(&parsed, l));
        if bytes == proof { continue }
        let r = no_panic(|| GroveDb::verify_trunk_chunk_proof(&bytes, &q, c.v)).map_err(|p| Fail::new("panic", format!("trunk verification panicked: {p}")))?;
        let Ok((h, r)) = r else { g.label("refused"); continue };
        if h != root { g.label("other root"); continue }
        g.label("same root");
        g.nontrivial();
        let proof: Option<GroveDBProof> = g02::read(&bytes);
        let told = |f: Fail| Fail::new(f.sig, format!("{}\n  proof {}", f.msg, proof.map(|p| p.to_string()).unwrap_or_default()));
        let truth = count_of(&c, &keys);
        ensure_eq!(r.max_tree_depth, calculate_max_tree_depth_from_count(truth), "tree depth");
        check(g, &c, &Part { elements: &r.elements, leaf_keys: &r.leaf_keys, tree: &r.tree, trace: &|k| r.trace_key_to_leaf(k), ancestor: &|k, n| r.get_ancestor(k, n) }, &keys, true).map_err(told)?;
    }
    if keys.is_empty() { return Ok(()) }
    let all: Vec<Key> = keys.iter().cloned().collect();
    let bq = PathBranchChunkQuery::new(c.path.clone(), g.pick(&all).clone(), g.size(1, 5) as u8);
    let h = hash_at(&c, &bq.key)?;
    let honest = c.db.db.prove_branch_chunk(&bq, c.v).unwrap().expect("branch proof");
    let keys = under(&c, &bq.key, h)?;
    for _ in 0..6 {
        let mut hashes = vec![[0; 32]];
        if let Some(t) = forge::decode(&honest).and_then(|o| forge::parse(&o)) {
            let mut n = vec![];
            forge::nodes(&t, &mut n);
            hashes.extend(n.iter().filter_map(forge::committed));
        }
        let v = c.v;
        let mut value = |g: &mut G, old: Option<&Vec<u8>>| forged(g, old, v);
        let Some(bytes) = forge::merk(g, &honest, &mut Forge { value: &mut value, hashes, structure_only: false }) else { continue };
        if bytes == honest { continue }
        let Ok(r) = branch(&c, &bytes, &bq, h)? else { g.label("branch refused"); continue };
        g.label("branch verified");
        g.nontrivial();
        check(g, &c, &Part { elements: &r.elements, leaf_keys: &r.leaf_keys, tree: &r.tree, trace: &|k| r.trace_key_to_leaf(k), ancestor: &|k, n| r.get_ancestor(k, n) }, &keys, true)?;
    }
    Ok(())
}

pub fn sections() -> Vec<Section> {
    vec![
        section("depths", "a depth that has to be split", 20_000, 500_000, arithmetic),
        section("reassembled", "a tree that needs more than one chunk", 25_000, 150_000, complete),
        section("forged", "a changed chunk proof that still verifies", 25_000, 150_000, sound),
    ]
}
