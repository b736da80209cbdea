//! G05: whatever bytes come as a proof, every reader answers or refuses, and says only what the bytes say.
use crate::g02::{self, LAX, ProofBytes, L};
use crate::g01::{PLAIN, RAW};
use crate::grove::*;
use crate::mk::{h, h_value};
use crate::qgen::*;
use crate::{egen, forge};
use forge::T;
use grovedb::operations::proof::{GroveDBProof, GroveDBProofV0, GroveDBProofV1, LayerProof, MerkOnlyLayerProof, ProofBytes as Real, ProveOptions};
use grovedb::{Element, GroveDb, PathBranchChunkQuery, PathQuery, PathTrunkChunkQuery, SizedQuery};
use grovedb_merk::proofs::query::VerifyOptions;
use grovedb_merk::proofs::{Node, Op};
use grovedb_merk::TreeFeatureType;
use grovedb_query::{Query, QueryItem};
use grovedb_version::version::GroveVersion;
use std::collections::{BTreeMap, BTreeSet};
use vp::*;

/// The decoder's own limit, and room for what is computed from bytes that are there.
fn limit(len: usize) -> usize {
    (256 << 20) + 4096 * (len + 64)
}
fn guarded<T>(what: &str, len: usize, f: impl FnOnce() -> T) -> R<T> {
    alloc_reset();
    match no_panic(f) {
        Err(p) => fail!("{what} panicked: {p}"),
        Ok(r) => {
            let n = alloc_peak();
            ensure!(n <= limit(len), "{what} asked for {n} bytes at once, given {len}");
            Ok(r)
        }
    }
}
const OPTIONS: [VerifyOptions; 4] = [PLAIN, RAW, LAX, VerifyOptions { absence_proofs_for_non_existing_searched_keys: true, verify_proof_succinctness: true, include_empty_trees_in_result: false }];
/// Gives the bytes to every reader of query proofs. Answers of the readers of elements.
fn query_readers(g: &mut G, b: &[u8], pq: &PathQuery, v: &GroveVersion) -> R<Vec<([u8; 32], Vec<(Path, Key, Option<Element>)>)>> {
    let n = b.len();
    let mut out: Vec<_> = vec![];
    for o in OPTIONS {
        if let Ok(r) = guarded("verify_query_with_options", n, || GroveDb::verify_query_with_options(b, pq, o, v))? { out.push(r) }
    }
    for (name, r) in [
        ("verify_query", guarded("verify_query", n, || GroveDb::verify_query(b, pq, v))?),
        ("verify_subset_query", guarded("verify_subset_query", n, || GroveDb::verify_subset_query(b, pq, v))?),
        ("verify_query_with_absence_proof", guarded("verify_query_with_absence_proof", n, || GroveDb::verify_query_with_absence_proof(b, pq, v))?),
        ("verify_subset_query_with_absence_proof", guarded("verify_subset_query_with_absence_proof", n, || GroveDb::verify_subset_query_with_absence_proof(b, pq, v))?),
    ] {
        g.label_if(r.is_ok(), name);
        if let Ok(r) = r { out.push(r) }
    }
    for sub in [false, true] {
        let r = guarded("verify_query_get_parent_tree_info", n, || if sub { GroveDb::verify_subset_query_get_parent_tree_info(b, pq, v) } else { GroveDb::verify_query_get_parent_tree_info(b, pq, v) })?;
        if let Ok((h, _, r)) = r { out.push((h, r)) }
    }
    let raw = guarded("verify_query_raw", n, || GroveDb::verify_query_raw(b, pq, v))?;
    if let Ok((h, r)) = raw {
        guarded("printing raw results", n, || (format!("{r:?}"), r.iter().map(|x| x.to_string()).collect::<Vec<_>>()))?;
        if r.iter().all(|x| Element::deserialize(&x.value, v).is_ok()) {
            out.push((h, r.into_iter().map(|x| (x.path, x.key, Element::deserialize(&x.value, v).ok())).collect()))
        }
    }
    let chained = guarded("verify_query_with_chained_path_queries", n, || {
        let again = pq.clone();
        GroveDb::verify_query_with_chained_path_queries(b, pq, vec![move |_: Vec<(Path, Key, Option<Element>)>| Some(again.clone())], v)
    })?;
    if let Ok((h, r)) = chained { for r in r { out.push((h, r)) } }
    if skips(pq) { ensure!(out.is_empty(), "a proof is verified for a query with an offset, which no proof covers") }
    Ok(out)
}
/// an offset that skips nothing changes nothing, so readers are free to take it
fn skips(pq: &PathQuery) -> bool { pq.query.offset.is_some_and(|o| o > 0) }
fn decoded(g: &mut G, b: &[u8], path: &[&[u8]], pq: &PathQuery, v: &GroveVersion) -> R {
    let n = b.len();
    let Some(p) = guarded("decoding", n, || bincode::decode_from_slice::<GroveDBProof, _>(b, bincode::config::standard().with_big_endian().with_limit::<{ 256 << 20 }>()).ok())? else { return Ok(()) };
    g.label("decodes");
    let p = p.0;
    let back = g02::write(&p);
    let again = bincode::borrow_decode_from_slice::<GroveDBProof, _>(&back, bincode::config::standard().with_big_endian().with_no_limit());
    match again {
        Ok((q, used)) => ensure!(used == back.len() && g02::write(&q) == back, "a decoded proof changes when encoded and decoded"),
        Err(e) => fail!("a decoded proof does not decode again: {e}"),
    }
    guarded("printing a proof", n, || p.to_string())?;
    let key = small_key(g, 1, 2);
    let keys = guarded("boundaries", n, || p.boundaries(path))?;
    let there = guarded("key_exists_as_boundary", n, || p.key_exists_as_boundary(path, &key))?;
    if let (Ok(keys), Ok(there)) = (keys, there) { ensure_eq!(there, keys.contains(&key), "boundary {}", vp::hex(&key)) }
    for o in OPTIONS {
        let direct = guarded("GroveDBProof::verify_with_options", n, || p.verify_with_options(pq, o, v))?;
        let whole = GroveDb::verify_query_with_options(b, pq, o, v);
        // only the preconditions of the whole may tell them apart
        if let Ok(w) = whole { ensure!(direct.as_ref().ok() == Some(&w), "a decoded proof verifies otherwise than its bytes") }
        if skips(pq) { ensure!(direct.is_err(), "a decoded proof is verified for a query with an offset") }
    }
    for (name, r) in [
        ("verify", guarded("GroveDBProof::verify", n, || p.verify(pq, v))?),
        ("absence", guarded("GroveDBProof::verify_with_absence_proof", n, || p.verify_with_absence_proof(pq, v))?),
        ("subset", guarded("GroveDBProof::verify_subset", n, || p.verify_subset(pq, v))?),
        ("subset absence", guarded("GroveDBProof::verify_subset_with_absence_proof", n, || p.verify_subset_with_absence_proof(pq, v))?),
    ] {
        ensure!(!skips(pq) || r.is_err(), "{name}: verified for a query with an offset");
    }
    let raw = guarded("GroveDBProof::verify_raw", n, || p.verify_raw(pq, v))?;
    ensure!(!skips(pq) || raw.is_err(), "a decoded proof is verified for a query with an offset");
    Ok(())
}
fn chunk_readers(g: &mut G, b: &[u8], path: &[Key], v: &GroveVersion) -> R {
    let n = b.len();
    let q = PathTrunkChunkQuery::new(path.to_vec(), g.byte());
    if let Ok((_, r)) = guarded("verify_trunk_chunk_proof", n, || GroveDb::verify_trunk_chunk_proof(b, &q, v))? {
        g.label("trunk");
        let k = small_key(g, 1, 2);
        guarded("reading a trunk", n, || { format!("{r:?}"); r.get_ancestor(&k, 2); r.trace_key_to_leaf(&k); })?;
    }
    let q = PathBranchChunkQuery::new(path.to_vec(), small_key(g, 1, 2), g.byte());
    if let Ok(r) = guarded("verify_branch_chunk_proof", n, || GroveDb::verify_branch_chunk_proof(b, &q, [0; 32], v))? {
        let k = small_key(g, 1, 2);
        guarded("reading a branch", n, || { format!("{r:?}"); r.trace_key_to_leaf(&k); })?;
    }
    Ok(())
}

// ---- proofs of groves that never were

/// What a made-up proof shows: the elements, by place.
type Shown = BTreeMap<(Path, Key), Vec<Vec<u8>>>;
struct Made {
    shown: Shown,
    lopsided: bool,
    v0: bool,
}
fn extreme(g: &mut G) -> u128 {
    match g.below(4) { 0 | 1 => g.below(8) as u128, 2 => g.u64b() as u128, _ => *g.pick(&[65_534u128, 65_535, 65_536, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, u64::MAX as u128 - 1, u64::MAX as u128]) }
}
fn put_hashes(g: &mut G, o: &mut Vec<u8>) {
    let n = g.below(4);
    egen::put_uint(o, n as u128);
    for _ in 0..n { o.extend(g.hash32()) }
}
fn mmr(g: &mut G, o: &mut Vec<u8>, size: u64) {
    egen::put_uint(o, size as u128);
    let n = g.below(4);
    egen::put_uint(o, n as u128);
    for _ in 0..n { let i = extreme(g); egen::put_uint(o, i); let b = g.bytes(0, 3); egen::put_bytes(o, &b) }
    put_hashes(g, o);
}
fn dense(g: &mut G, o: &mut Vec<u8>) {
    let n = g.below(4);
    egen::put_uint(o, n as u128);
    for _ in 0..n { let i = extreme(g) as u16; egen::put_uint(o, i as u128); let b = g.bytes(0, 3); egen::put_bytes(o, &b) }
    for _ in 0..2 {
        let n = g.below(4);
        egen::put_uint(o, n as u128);
        for _ in 0..n { let i = extreme(g) as u16; egen::put_uint(o, i as u128); o.extend(g.hash32()) }
    }
}
/// A layer of a flat tree, and the element above it.
fn flat(g: &mut G) -> (ProofBytes, Element) {
    let f = g.chance(1, 6).then(|| g.bytes(0, 2));
    // counts so large that a whole range is refused, or so small that it is cheap to look at
    let count = match g.below(3) { 0 => g.below(9), 1 => g.below(40), _ => u64::MAX - g.below(3) };
    let h = if g.bool() { 1 + g.below(16) as u8 } else { g.byte() };
    let mut o = vec![];
    match g.below(4) {
        0 => {
            let size = if g.chance(2, 3) { mmr_size(g.below(20)) } else { count };
            mmr(g, &mut o, size);
            (ProofBytes::MMR(o), Element::MmrTree(size, f))
        }
        1 => {
            let size = if g.bool() { mmr_size(g.below(9)) } else { count };
            mmr(g, &mut o, size);
            dense(g, &mut o);
            (ProofBytes::BulkAppendTree(o), Element::BulkAppendTree(count, h, f))
        }
        2 => {
            o.extend(g.hash32());
            let size = if g.bool() { mmr_size(g.below(9)) } else { count };
            mmr(g, &mut o, size);
            dense(g, &mut o);
            (ProofBytes::CommitmentTree(o), Element::CommitmentTree(count, h, f))
        }
        _ => {
            dense(g, &mut o);
            (ProofBytes::DenseTree(o), Element::DenseAppendOnlyFixedSizeTree(extreme(g) as u16, h, f))
        }
    }
}
fn feature(g: &mut G) -> TreeFeatureType {
    use TreeFeatureType::*;
    let (c, s) = (if g.bool() { g.below(4) } else { g.u64b() }, g.i64b());
    match g.below(7) { 0 => BasicMerkNode, 1 => SummedMerkNode(s), 2 => BigSummedMerkNode(g.i128b()), 3 => CountedMerkNode(c), 4 => CountedSummedMerkNode(c, s), 5 => ProvableCountedMerkNode(c), _ => ProvableCountedSummedMerkNode(c, s) }
}
fn tree_element(g: &mut G, key: Option<Key>) -> Element {
    let (c, s, f) = (g.u64b(), g.i64b(), egen::flags(g));
    match g.below(7) {
        0 => Element::Tree(key, f),
        1 => Element::SumTree(key, s, f),
        2 => Element::BigSumTree(key, g.i128b(), f),
        3 => Element::CountTree(key, c, f),
        4 => Element::CountSumTree(key, c, s, f),
        5 => Element::ProvableCountTree(key, c, f),
        _ => Element::ProvableCountSumTree(key, c, s, f),
    }
}
/// A layer at `path`: its proof and root hash.
fn layer(g: &mut G, path: &mut Path, towards: &[Key], depth: usize, m: &mut Made, v: &GroveVersion) -> (L, [u8; 32]) {
    let mut keys: BTreeSet<Key> = (0..g.size(0, 4)).map(|_| small_key(g, 1, 2)).collect();
    if let Some(k) = towards.first() { keys.insert(k.clone()); }
    let mut lower = BTreeMap::new();
    let mut nodes: Vec<Node> = vec![];
    for k in keys {
        let on = towards.first() == Some(&k);
        let digest = |k: Key, h: [u8; 32], g: &mut G| if g.bool() { Node::KVDigest(k, h) } else { Node::KVDigestCount(k, h, g.u64b()) };
        if !on && g.chance(1, 6) { let x = g.hash32(); nodes.push(digest(k, x, g)); continue }
        if depth < 4 && (on || g.chance(1, 2)) {
            // a tree
            let is_flat = !m.v0 && g.chance(1, if on && towards.len() > 1 { 10 } else { 3 });
            let empty = g.chance(1, if on { 10 } else { 4 });
            let (e, below) = if is_flat {
                let (p, e) = flat(g);
                if g.chance(7, 8) { lower.insert(k.clone(), L { proof: p, lower: BTreeMap::new() }); }
                (e, None)
            } else if empty {
                (tree_element(g, None), Some([0; 32]))
            } else {
                let top = small_key(g, 1, 2);
                let e = tree_element(g, Some(top));
                path.push(k.clone());
                let (l, x) = layer(g, path, if on { &towards[1..] } else { &[] }, depth + 1, m, v);
                path.pop();
                let told = g.chance(7, 8);
                if told { lower.insert(k.clone(), l); }
                (e, Some(x))
            };
            let value = e.serialize(v).expect("serialize");
            m.shown.entry((path.clone(), k.clone())).or_default().push(value.clone());
            let child = match below { Some(x) => x, None => g.hash32() };
            let vh = h(&[&h_value(&value), &child]);
            let f = feature(g);
            nodes.push(match g.below(6) {
                0..=2 => Node::KVValueHash(k, value, vh),
                3 => Node::KVValueHashFeatureType(k, value, vh, f),
                4 => Node::KVValueHashFeatureTypeWithChildHash(k, value, vh, f, child),
                _ => Node::KV(k, value)
            });
            continue;
        }
        let value = if g.chance(1, 12) { g.bytes(0, 4) } else { egen::element(g).serialize(v).unwrap_or_default() };
        m.shown.entry((path.clone(), k.clone())).or_default().push(value.clone());
        let (vh, x, c) = (h_value(&value), g.hash32(), if g.bool() { g.below(5) } else { g.u64b() });
        nodes.push(match g.below(8) {
            0..=2 => Node::KV(k, value),
            3 => Node::KVCount(k, value, c),
            4 => Node::KVValueHash(k, value, vh),
            5 => Node::KVRefValueHash(k, value, x),
            6 => Node::KVRefValueHashCount(k, value, x, c),
            _ => Node::KVValueHashFeatureType(k, value, vh, feature(g)),
        });
    }
    fn tree(g: &mut G, n: &[Node]) -> Option<Box<T>> {
        if n.is_empty() { return g.chance(1, 20).then(|| Box::new(forge::leaf(if g.bool() { Node::Hash(g.hash32()) } else { Node::KVHash(g.hash32()) }))) }
        let i = if g.chance(3, 4) { n.len() / 2 } else { g.below(n.len() as u64) as usize };
        Some(Box::new(T { node: n[i].clone(), l: tree(g, &n[..i]), r: tree(g, &n[i + 1..]) }))
    }
    let mut ops: Vec<Op> = vec![];
    let mut root = [0; 32];
    if let Some(t) = tree(g, &nodes) {
        // (the code does not build an unbalanced tree, but may verify its proof)
        root = forge::root(&t).unwrap_or([0; 32]);
        m.lopsided |= forge::root(&t).is_none();
        forge::straight(&t, g.chance(1, 6), &mut ops);
    }
    (L { proof: ProofBytes::Merk(forge::encode(&ops)), lower }, root)
}
fn at_position(g: &mut G) -> Key {
    let x = extreme(g);
    match g.below(8) { 0 => (x as u16).to_be_bytes().to_vec(), 1 => small_key(g, 0, 2), _ => (x as u64).to_be_bytes().to_vec() }
}
fn any_path_query(g: &mut G, path: Path) -> PathQuery {
    let mut q = any_query(g, 2);
    fn positions(g: &mut G, q: &mut Query) {
        if g.chance(1, 3) {
            q.items.clear();
            for _ in 0..g.size(1, 2) { let i = item_over(g, at_position); q.insert_item(i) }
        }
        if let Some(s) = &mut q.default_subquery_branch.subquery { positions(g, s) }
    }
    if g.bool() { positions(g, &mut q) }
    if g.chance(1, 3) { q = Query::new_single_query_item(QueryItem::RangeFull(..)); if g.bool() { q.set_subquery(Query::new_single_query_item(QueryItem::RangeFull(..))) } }
    let limit = g.bool().then(|| if g.bool() { g.below(5) as u16 } else { g.u64b() as u16 });
    let offset = g.chance(1, 8).then(|| g.below(3) as u16);
    PathQuery::new(path, SizedQuery::new(q, limit, offset))
}
fn encode(g: &mut G, l: L, v0: bool) -> Vec<u8> {
    let empty = if v0 {
        GroveDBProof::V0(GroveDBProofV0 { root_layer: MerkOnlyLayerProof { merk_proof: vec![], lower_layers: BTreeMap::new() }, prove_options: ProveOptions { decrease_limit_on_empty_sub_query_result: g.bool() } })
    } else {
        GroveDBProof::V1(GroveDBProofV1 { root_layer: LayerProof { merk_proof: Real::Merk(vec![]), lower_layers: BTreeMap::new() } })
    };
    g02::write(&g02::with_layers(&empty, l))
}
fn made(g: &mut G) -> R {
    let v = version(g);
    let towards: Path = (0..g.size(0, 3)).map(|_| small_key(g, 1, 2)).collect();
    let mut m = Made { shown: BTreeMap::new(), lopsided: false, v0: g.chance(1, 4) };
    let (mut l, root) = layer(g, &mut vec![], &towards, 0, &mut m, v);
    let mut changed = false;
    if g.chance(1, 4) { g02::tamper(g, &mut l, &[], true, v); changed = true }
    let bytes = encode(g, l, m.v0);
    for _ in 0..2 {
        let n = g.below(towards.len() as u64 + 1) as usize;
        let path = if g.chance(1, 3) { towards[..n].to_vec() } else { towards.clone() };
        let pq = any_path_query(g, path.clone());
        if ill_formed(&pq.query.query) { continue }
        let at = path.iter().map(|k| k.as_slice()).collect::<Vec<_>>();
        g.note(|| format!("{} {}", show_pq(&pq), g02::read(&bytes).map(|p| no_panic(|| p.to_string()).unwrap_or_default()).unwrap_or_default()));
        let ctx = |f: Fail| Fail::new(f.sig.clone(), format!("{}\n  query {}\n  version {}\n  proof {}", f.msg, show_pq(&pq), v.protocol_version, vp::hex(&bytes)));
        let answers = query_readers(g, &bytes, &pq, v).map_err(ctx)?;
        g.label_if(!answers.is_empty(), "verified");
        g.label_if(answers.iter().any(|a| !a.1.is_empty()), "with results");
        let lopsided = m.lopsided;
        if !changed {
            for (x, rows) in &answers {
                ensure!(*x == root || lopsided, "verified with another root hash than the one the proof has\n  query {}\n  proof {}", show_pq(&pq), vp::hex(&bytes));
                for (p, k, e) in rows {
                    let Some(e) = e else { continue };
                    // a parent tree is told at its own path
                    let own = p.last() == Some(k) && p.len() > path.len() && has_parent(&pq.query.query) && e.is_any_tree() && m.shown.get(&(p[..p.len() - 1].to_vec(), k.clone())).is_some_and(|t| t.iter().any(|b| Element::deserialize(b, v).is_ok_and(|x| x == *e)));
                    if own { g.label("parent"); continue }
                    let told = m.shown.get(&(p.clone(), k.clone()));
                    let ok = told.is_some_and(|t| t.iter().any(|b| Element::deserialize(b, v).is_ok_and(|x| x == *e)));
                    let flat = k.len() == 8 || k.len() == 2;
                    ensure!(ok || flat, "a result that the proof does not show: /{} {} {e:?}\n  query {}\n  proof {}", p.iter().map(|k| vp::hex(k)).collect::<Vec<_>>().join("/"), vp::hex(k), show_pq(&pq), vp::hex(&bytes));
                    ensure!(touches(&pq.query.query, &p[path.len().min(p.len())..].iter().cloned().chain([k.clone()]).collect::<Vec<_>>()),
                        "a result that was not asked for: /{} {}\n  query {}", p.iter().map(|k| vp::hex(k)).collect::<Vec<_>>().join("/"), vp::hex(k), show_pq(&pq));
                    ensure!(p.starts_with(&path), "a result outside the path queried");
                }
            }
        }
        g.nontrivial_if(!answers.is_empty());
        decoded(g, &bytes, &at, &pq, v).map_err(ctx)?;
        chunk_readers(g, &bytes, &path, v).map_err(ctx)?;
    }
    Ok(())
}
/// Whether the query concerns the element at `p`: as a result, or on the way to one.
fn touches(q: &Query, p: &[Key]) -> bool {
    let [k, rest @ ..] = p else { return false };
    if !q.items.iter().any(|i| matches(i, k)) { return false }
    if rest.is_empty() { return true }
    let b = crate::q02::branch(q, k);
    let along = b.subquery_path.as_deref().unwrap_or_default();
    let n = along.len().min(rest.len());
    if along[..n] != rest[..n] { return false }
    rest.len() <= along.len() || b.subquery.as_ref().is_some_and(|s| touches(s, &rest[n..]))
}
fn has_parent(q: &Query) -> bool {
    let b = |b: &grovedb_query::SubqueryBranch| b.subquery.as_ref().is_some_and(|s| has_parent(s));
    q.add_parent_tree_on_subquery || b(&q.default_subquery_branch) || q.conditional_subquery_branches.iter().flatten().any(|(_, x)| b(x))
}
fn ill_formed(q: &Query) -> bool {
    let b = |b: &grovedb_query::SubqueryBranch| b.subquery_path.as_ref().is_some_and(|p| p.is_empty()) || b.subquery.as_ref().is_some_and(|s| ill_formed(s));
    b(&q.default_subquery_branch) || q.conditional_subquery_branches.iter().flatten().any(|(_, x)| b(x))
}

/// Bytes: any, or those of a made-up proof with some changed.
fn bytes(g: &mut G) -> R {
    let v = version(g);
    let mut b = if g.chance(1, 4) {
        let mut b = vec![g.below(3) as u8];
        let n = g.skewed(0, 300);
        b.extend(g.blob(n));
        b
    } else {
        let mut m = Made { shown: BTreeMap::new(), lopsided: false, v0: g.bool() };
        let (l, _) = layer(g, &mut vec![], &[], 1, &mut m, v);
        encode(g, l, m.v0)
    };
    for _ in 0..g.size(0, 3) {
        if b.is_empty() { break }
        let i = g.below(b.len() as u64) as usize;
        match g.below(6) {
            0 => b[i] ^= 1 << g.below(8),
            1 => b[i] = *g.pick(&[0, 1, 250, 251, 252, 253, 254, 255]),
            2 => { b.remove(i); }
            3 => b.truncate(i),
            4 => { let mut x = vec![]; let n = extreme(g); egen::put_uint(&mut x, n); b.splice(i..i, x); }
            _ => { let x = b[i..].to_vec(); b.extend(x) }
        }
    }
    g.note(|| vp::hex(&b));
    g.nontrivial_if(b.len() > 3);
    let pq = any_path_query(g, vec![]);
    if ill_formed(&pq.query.query) { return Err(Fail::discard()) }
    let ctx = |f: Fail| Fail::new(f.sig.clone(), format!("{}\n  query {}\n  proof {}", f.msg, show_pq(&pq), vp::hex(&b)));
    query_readers(g, &b, &pq, v).map_err(ctx)?;
    decoded(g, &b, &[], &pq, v).map_err(ctx)?;
    chunk_readers(g, &b, &[], v).map_err(ctx)?;
    Ok(())
}

/// Deeply nested and broad proofs and queries.
fn deep(g: &mut G) -> R {
    let v = version(g);
    let v0 = g.bool();
    let near = [0usize, 1, 2, 64, 127, 128, 129, 130, 131, 200, 400, 4000];
    let depth = if g.bool() { *g.pick(&near) } else { g.below(300) as usize };
    let breadth = if g.chance(2, 3) { 0 } else if g.bool() { *g.pick(&near[..11]) } else { g.below(300) as usize };
    g.note(|| format!("V{} depth {depth} breadth {breadth}", 1 - v0 as u8));
    g.nontrivial_if(depth > 100 || breadth > 100);
    // written out by hand: what the encoder of the code writes is not trusted with this depth
    let key = vec![1u8];
    let mut chain: Vec<Vec<u8>> = vec![];
    let mut below: Option<([u8; 32], usize)> = None;
    for _ in 0..=depth {
        let mut ops = vec![];
        let root = match below {
            None => { let n = Node::KV(key.clone(), Element::new_item(vec![7]).serialize(v).unwrap()); let t = forge::leaf(n); forge::straight(&t, false, &mut ops); forge::root(&t).unwrap() }
            Some((x, _)) => {
                let value = Element::new_tree(Some(key.clone())).serialize(v).unwrap();
                let t = forge::leaf(Node::KVValueHash(key.clone(), value.clone(), h(&[&h_value(&value), &x])));
                forge::straight(&t, false, &mut ops);
                forge::root(&t).unwrap()
            }
        };
        chain.push(forge::encode(&ops));
        below = Some((root, 0));
    }
    let root = below.unwrap().0;
    chain.reverse();
    let mut b = vec![!v0 as u8];
    for (i, p) in chain.iter().enumerate() {
        if !v0 { b.push(0) }
        egen::put_bytes(&mut b, p);
        let last = i == chain.len() - 1;
        if last {
            egen::put_uint(&mut b, breadth as u128);
            for j in 0..breadth {
                egen::put_bytes(&mut b, &(j as u16).to_be_bytes());
                if !v0 { b.push(0) }
                egen::put_bytes(&mut b, &[]);
                egen::put_uint(&mut b, 0);
            }
        } else {
            egen::put_uint(&mut b, 1);
            egen::put_bytes(&mut b, &key);
        }
    }
    if v0 { b.push(1) }
    let path: Path = (0..depth).map(|_| key.clone()).collect();
    let split = if depth > 300 { depth } else { g.below(depth as u64 + 1) as usize };
    let mut q = Query::new_single_key(key.clone());
    for _ in split..depth { let mut o = Query::new_single_key(key.clone()); o.set_subquery(q); q = o; }
    let pq = PathQuery::new(path[..split].to_vec(), SizedQuery::new(q, g.bool().then_some(5), None));
    let n = b.len();
    let fits = depth + (breadth > 0) as usize <= 128 && breadth <= 128;
    let got = bincode::decode_from_slice::<GroveDBProof, _>(&b, bincode::config::standard().with_big_endian().with_no_limit());
    ensure!(got.is_ok() == fits, "decoded: {} at depth {depth} breadth {breadth}", got.is_ok());
    let got = bincode::borrow_decode_from_slice::<GroveDBProof, _>(&b, bincode::config::standard().with_big_endian().with_no_limit());
    ensure!(got.is_ok() == fits, "borrow-decoded: {} at depth {depth} breadth {breadth}", got.is_ok());
    for o in [PLAIN, LAX] {
        let r = guarded("verify_query_with_options", n, || GroveDb::verify_query_with_options(&b, &pq, o, v))?;
        if !fits { ensure!(r.is_err(), "a proof beyond the limits is verified"); continue }
        if breadth > 0 && o.verify_proof_succinctness { continue }
        match r {
            Ok((x, rows)) => {
                ensure_eq!(x, root, "root hash");
                ensure!(rows == vec![(path.clone(), key.clone(), Some(Element::new_item(vec![7])))], "wrong results from depth {depth}");
                g.label("verified");
            }
            Err(e) => fail!("a proof within the limits (depth {depth} breadth {breadth} path {split}) is refused: {e}"),
        }
    }
    if let (true, Ok((p, _))) = (depth <= 64, got) {
        guarded("printing", n * (depth + 2) * 40, || p.to_string())?;
        let at: Vec<&[u8]> = path.iter().map(|k| k.as_slice()).collect();
        guarded("boundaries", n, || p.boundaries(&at))?.map_err(|e| format!("boundaries: {e}"))?;
    }
    chunk_readers(g, &b, &path[..depth.min(300)], v)
}

pub fn sections() -> Vec<Section> {
    vec![
        section("made up", "some reader verifies the made-up proof", 40_000, 600_000, made),
        section("bytes", "more than three bytes", 30_000, 600_000, bytes),
        section("deep", "nested or broad beyond 100", 1_500, 20_000, deep),
    ]
}
