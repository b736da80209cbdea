//! J01: what the debugger's messages look like as JSON.
use grovedbg_types::*;
use serde::{de::DeserializeOwned, Serialize};
use std::collections::BTreeMap;
use std::fmt::Debug;
use vp::*;

const ABC: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

/// Base64 with padding, between quotes.
fn b64(b: &[u8]) -> String {
    let mut s = String::from("\"");
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            s.push(if i <= c.len() { ABC[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' });
        }
    }
    s + "\""
}

fn opt(x: Option<String>) -> String {
    x.unwrap_or_else(|| "null".into())
}

fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

/// An object; its members may be written in any order.
fn obj(g: &mut G, f: Vec<(&str, String)>) -> String {
    let k = g.below(f.len() as u64) as usize;
    let m: Vec<String> = f.iter().cycle().skip(k).take(f.len()).map(|(k, v)| format!("\"{k}\":{v}")).collect();
    format!("{{{}}}", m.join(","))
}

fn tag(name: &str, v: String) -> String {
    format!("{{\"{name}\":{v}}}")
}

type J<T> = (T, String);

fn by(g: &mut G) -> J<Vec<u8>> {
    let b = g.bytes(0, 7);
    let j = b64(&b);
    (b, j)
}

fn maybe(g: &mut G) -> J<Option<Vec<u8>>> {
    if g.bool() { let (b, j) = by(g); (Some(b), j) } else { (None, "null".into()) }
}

fn hash(g: &mut G) -> J<[u8; 32]> {
    let h = g.hash32();
    (h, b64(&h))
}

fn path(g: &mut G) -> J<Path> {
    let (a, b): (Vec<_>, Vec<_>) = g.list(0, 3, by).into_iter().unzip();
    (a, arr(b))
}

fn reference(g: &mut G) -> J<Reference> {
    let (f, fj) = maybe(g);
    let fl = ("element_flags", fj);
    let n = g.u64b() as u32;
    match g.below(7) {
        0 => { let (p, j) = path(g); (Reference::AbsolutePathReference { path: p, element_flags: f }, tag("AbsolutePathReference", obj(g, vec![("path", j), fl]))) }
        1 => { let (p, j) = path(g); (Reference::UpstreamRootHeightReference { n_keep: n, path_append: p, element_flags: f }, tag("UpstreamRootHeightReference", obj(g, vec![("n_keep", n.to_string()), ("path_append", j), fl]))) }
        2 => { let (p, j) = path(g); (Reference::UpstreamRootHeightWithParentPathAdditionReference { n_keep: n, path_append: p, element_flags: f }, tag("UpstreamRootHeightWithParentPathAdditionReference", obj(g, vec![("n_keep", n.to_string()), ("path_append", j), fl]))) }
        3 => { let (p, j) = path(g); (Reference::UpstreamFromElementHeightReference { n_remove: n, path_append: p, element_flags: f }, tag("UpstreamFromElementHeightReference", obj(g, vec![("n_remove", n.to_string()), ("path_append", j), fl]))) }
        4 => { let (p, j) = by(g); (Reference::CousinReference { swap_parent: p, element_flags: f }, tag("CousinReference", obj(g, vec![("swap_parent", j), fl]))) }
        5 => { let (p, j) = path(g); (Reference::RemovedCousinReference { swap_parent: p, element_flags: f }, tag("RemovedCousinReference", obj(g, vec![("swap_parent", j), fl]))) }
        _ => { let (p, j) = by(g); (Reference::SiblingReference { sibling_key: p, element_flags: f }, tag("SiblingReference", obj(g, vec![("sibling_key", j), fl]))) }
    }
}

fn element(g: &mut G) -> J<Element> {
    let (root_key, rj) = maybe(g);
    let (element_flags, fj) = maybe(g);
    let (r, f) = (("root_key", rj), ("element_flags", fj));
    let (count, sum, big) = (g.u64b(), g.i64b(), g.i128b());
    let (c, s) = (("count", count.to_string()), ("sum", sum.to_string()));
    match g.below(11) {
        0 => (Element::Subtree { root_key, element_flags }, tag("Subtree", obj(g, vec![r, f]))),
        1 => (Element::Sumtree { root_key, sum, element_flags }, tag("Sumtree", obj(g, vec![r, s, f]))),
        2 => (Element::BigSumTree { root_key, sum: big, element_flags }, tag("BigSumTree", obj(g, vec![r, ("sum", big.to_string()), f]))),
        3 => (Element::CountTree { root_key, count, element_flags }, tag("CountTree", obj(g, vec![r, c, f]))),
        4 => (Element::CountSumTree { root_key, count, sum, element_flags }, tag("CountSumTree", obj(g, vec![r, c, s, f]))),
        5 => (Element::ProvableCountTree { root_key, count, element_flags }, tag("ProvableCountTree", obj(g, vec![r, c, f]))),
        6 => (Element::ProvableCountSumTree { root_key, count, sum, element_flags }, tag("ProvableCountSumTree", obj(g, vec![r, c, s, f]))),
        7 => { let (value, j) = by(g); (Element::Item { value, element_flags }, tag("Item", obj(g, vec![("value", j), f]))) }
        8 => (Element::SumItem { value: sum, element_flags }, tag("SumItem", obj(g, vec![("value", sum.to_string()), f]))),
        9 => { let (value, j) = by(g); (Element::ItemWithSumItem { value, sum_item_value: sum, element_flags }, tag("ItemWithSumItem", obj(g, vec![("value", j), ("sum_item_value", sum.to_string()), f]))) }
        _ => { let (x, j) = reference(g); (Element::Reference(x), tag("Reference", j)) }
    }
}

fn feature(g: &mut G) -> J<TreeFeatureType> {
    let (c, s, b) = (g.u64b(), g.i64b(), g.i128b());
    match g.below(7) {
        0 => (TreeFeatureType::BasicMerkNode, "\"BasicMerkNode\"".into()),
        1 => (TreeFeatureType::SummedMerkNode(s), tag("SummedMerkNode", s.to_string())),
        2 => (TreeFeatureType::BigSummedMerkNode(b), tag("BigSummedMerkNode", b.to_string())),
        3 => (TreeFeatureType::CountedMerkNode(c), tag("CountedMerkNode", c.to_string())),
        4 => (TreeFeatureType::CountedSummedMerkNode(c, s), tag("CountedSummedMerkNode", arr(vec![c.to_string(), s.to_string()]))),
        5 => (TreeFeatureType::ProvableCountedMerkNode(c), tag("ProvableCountedMerkNode", c.to_string())),
        _ => (TreeFeatureType::ProvableCountedSummedMerkNode(c, s), tag("ProvableCountedSummedMerkNode", arr(vec![c.to_string(), s.to_string()]))),
    }
}

fn update(g: &mut G) -> J<NodeUpdate> {
    let (left_child, lc) = maybe(g);
    let (right_child, rc) = maybe(g);
    let (left_merk_hash, lh) = if g.bool() { let (h, j) = hash(g); (Some(h), Some(j)) } else { (None, None) };
    let (right_merk_hash, rh) = if g.bool() { let (h, j) = hash(g); (Some(h), Some(j)) } else { (None, None) };
    let (path, pj) = path(g);
    let (key, kj) = by(g);
    let (element, ej) = element(g);
    let (feature_type, fj) = feature(g);
    let (value_hash, vj) = hash(g);
    let (kv_digest_hash, dj) = hash(g);
    let j = obj(g, vec![
        ("left_child", lc), ("left_merk_hash", opt(lh)), ("right_child", rc), ("right_merk_hash", opt(rh)), ("path", pj), ("key", kj),
        ("element", ej), ("feature_type", fj), ("value_hash", vj), ("kv_digest_hash", dj),
    ]);
    (NodeUpdate { left_child, left_merk_hash, right_child, right_merk_hash, path, key, element, feature_type, value_hash, kv_digest_hash }, j)
}

fn item(g: &mut G) -> J<QueryItem> {
    let ((a, x), (b, y)) = (by(g), by(g));
    match g.below(10) {
        0 => (QueryItem::Key(a), tag("Key", x)),
        1 => (QueryItem::Range { start: a, end: b }, tag("Range", obj(g, vec![("start", x), ("end", y)]))),
        2 => (QueryItem::RangeInclusive { start: a, end: b }, tag("RangeInclusive", obj(g, vec![("start", x), ("end", y)]))),
        3 => (QueryItem::RangeFull, "\"RangeFull\"".into()),
        4 => (QueryItem::RangeFrom(a), tag("RangeFrom", x)),
        5 => (QueryItem::RangeTo(a), tag("RangeTo", x)),
        6 => (QueryItem::RangeToInclusive(a), tag("RangeToInclusive", x)),
        7 => (QueryItem::RangeAfter(a), tag("RangeAfter", x)),
        8 => (QueryItem::RangeAfterTo { after: a, to: b }, tag("RangeAfterTo", obj(g, vec![("after", x), ("to", y)]))),
        _ => (QueryItem::RangeAfterToInclusive { after: a, to: b }, tag("RangeAfterToInclusive", obj(g, vec![("after", x), ("to", y)]))),
    }
}

fn branch(g: &mut G, depth: usize) -> J<SubqueryBranch> {
    let p = if g.bool() { Some(g.list(0, 3, |g| g.bytes(0, 4))) } else { None };
    // these segments are written as numbers
    let pj = p.as_ref().map(|p| arr(p.iter().map(|s| arr(s.iter().map(|b| b.to_string()).collect())).collect()));
    let (q, qj) = if depth > 0 && g.bool() { let (q, j) = query(g, depth - 1); (Some(Box::new(q)), Some(j)) } else { (None, None) };
    let j = obj(g, vec![("subquery_path", opt(pj)), ("subquery", opt(qj))]);
    (SubqueryBranch { subquery_path: p, subquery: q }, j)
}

fn query(g: &mut G, depth: usize) -> J<Query> {
    let (items, ij): (Vec<_>, Vec<_>) = g.list(0, 3, item).into_iter().unzip();
    let (d, dj) = branch(g, depth);
    let (cs, cj): (Vec<_>, Vec<_>) = g.list(0, 2, |g| {
        let (i, x) = item(g);
        let (b, y) = branch(g, depth);
        ((i, b), arr(vec![x, y]))
    }).into_iter().unzip();
    let l = g.bool();
    let j = obj(g, vec![("items", arr(ij)), ("default_subquery_branch", dj), ("conditional_subquery_branches", arr(cj)), ("left_to_right", l.to_string())]);
    (Query { items, default_subquery_branch: d, conditional_subquery_branches: cs, left_to_right: l }, j)
}

fn path_query(g: &mut G) -> J<PathQuery> {
    let (path, pj) = path(g);
    let (query, qj) = query(g, 2);
    let limit = if g.bool() { Some(g.u64b() as u16) } else { None };
    let offset = if g.bool() { Some(g.u64b() as u16) } else { None };
    let s = obj(g, vec![("query", qj), ("limit", opt(limit.map(|x| x.to_string()))), ("offset", opt(offset.map(|x| x.to_string())))]);
    let j = obj(g, vec![("path", pj), ("query", s)]);
    (PathQuery { path, query: SizedQuery { query, limit, offset } }, j)
}

fn node(g: &mut G) -> J<MerkProofNode> {
    let (h, hj) = hash(g);
    let (k, kj) = by(g);
    let (e, ej) = element(g);
    let (f, fj) = feature(g);
    match g.below(7) {
        0 => (MerkProofNode::Hash(h), tag("Hash", hj)),
        1 => (MerkProofNode::KVHash(h), tag("KVHash", hj)),
        2 => (MerkProofNode::KVDigest(k, h), tag("KVDigest", arr(vec![kj, hj]))),
        3 => (MerkProofNode::KV(k, e), tag("KV", arr(vec![kj, ej]))),
        4 => (MerkProofNode::KVValueHash(k, e, h), tag("KVValueHash", arr(vec![kj, ej, hj]))),
        5 => (MerkProofNode::KVValueHashFeatureType(k, e, h, f), tag("KVValueHashFeatureType", arr(vec![kj, ej, hj, fj]))),
        _ => (MerkProofNode::KVRefValueHash(k, e, h), tag("KVRefValueHash", arr(vec![kj, ej, hj]))),
    }
}

fn op(g: &mut G) -> J<MerkProofOp> {
    let unit = |v: MerkProofOp, s: &str| (v, format!("\"{s}\""));
    match g.below(6) {
        0 => { let (n, j) = node(g); (MerkProofOp::Push(n), tag("Push", j)) }
        1 => { let (n, j) = node(g); (MerkProofOp::PushInverted(n), tag("PushInverted", j)) }
        2 => unit(MerkProofOp::Parent, "Parent"),
        3 => unit(MerkProofOp::Child, "Child"),
        4 => unit(MerkProofOp::ParentInverted, "ParentInverted"),
        _ => unit(MerkProofOp::ChildInverted, "ChildInverted"),
    }
}

fn layer(g: &mut G, depth: usize) -> J<ProofLayer> {
    let (merk_proof, ops): (Vec<_>, Vec<_>) = g.list(0, 4, op).into_iter().unzip();
    let mut lower_layers = BTreeMap::new();
    let mut low = BTreeMap::new();
    if depth > 0 {
        for _ in 0..g.size(0, 2) {
            let (k, kj) = by(g);
            let (l, lj) = layer(g, depth - 1);
            lower_layers.insert(k, l);
            low.insert(kj, lj);
        }
    }
    let low = format!("{{{}}}", low.iter().map(|(k, v)| format!("{k}:{v}")).collect::<Vec<_>>().join(","));
    let j = obj(g, vec![("merk_proof", arr(ops)), ("lower_layers", low)]);
    (ProofLayer { merk_proof, lower_layers }, j)
}

fn proof(g: &mut G) -> J<Proof> {
    let (root_layer, lj) = layer(g, 2);
    let d = g.bool();
    let oj = obj(g, vec![("decrease_limit_on_empty_sub_query_result", d.to_string())]);
    let j = obj(g, vec![("root_layer", lj), ("prove_options", oj)]);
    (Proof { root_layer, prove_options: ProveOptions { decrease_limit_on_empty_sub_query_result: d } }, j)
}

/// The value is written as `j` (but for the order of members), and what is written and `j` itself read back as the value.
fn both<T: Serialize + DeserializeOwned + PartialEq + Debug>(g: &mut G, (v, j): J<T>) -> R {
    g.note(|| j.clone());
    g.nontrivial_if(j.len() > 60);
    let written = match serde_json::to_string(&v) { Ok(x) => x, Err(e) => fail!("writing {v:?}: {e}") };
    let parsed: serde_json::Value = match serde_json::from_str(&written) { Ok(x) => x, Err(e) => fail!("{written} is not JSON: {e}") };
    let want: serde_json::Value = serde_json::from_str(&j).expect("an expected text is JSON");
    ensure!(parsed == want, "{v:?} is written as {written} expected {j}");
    for t in [&written, &j] {
        match serde_json::from_str::<T>(t) {
            Ok(x) => ensure!(x == v, "{t} is read as {x:?} expected {v:?}"),
            Err(e) => fail!("{t} is refused: {e}"),
        }
    }
    Ok(())
}

fn messages(g: &mut G) -> R {
    let session = g.u64b();
    macro_rules! with { ($x:expr) => {{
        let (v, j) = $x;
        if g.chance(1, 3) {
            let j = obj(g, vec![("session_id", session.to_string()), ("request", j)]);
            both(g, (WithSession { session_id: session, request: v }, j))
        } else {
            both(g, (v, j))
        }
    }}; }
    match g.below(7) {
        0 => with!({ let ((path, pj), (key, kj)) = (path(g), by(g)); let j = obj(g, vec![("path", pj), ("key", kj)]); (NodeFetchRequest { path, key }, j) }),
        1 => with!((RootFetchRequest, "null".to_string())),
        2 => both(g, (NewSessionResponse { session_id: session }, format!("{{\"session_id\":{session}}}"))),
        3 => both(g, (DropSessionRequest { session_id: session }, format!("{{\"session_id\":{session}}}"))),
        4 => { let x = update(g); let n = g.size(0, 2); let mut all = vec![x]; for _ in 0..n { all.push(update(g)); } let (v, j): (Vec<_>, Vec<_>) = all.into_iter().unzip(); both(g, (v, arr(j))) }
        5 => with!(path_query(g)),
        _ => { let x = proof(g); both(g, x) }
    }
}

/// Keys and hashes that are not base64, or a hash of another length, are refused.
fn refused(g: &mut G) -> R {
    let n = g.size(0, 70);
    let b = g.blob(n);
    let j = b64(&b);
    g.note(|| format!("{n} bytes, {j}"));
    g.nontrivial();
    let text = format!("{{\"Push\":{{\"Hash\":{j}}}}}");
    let got = serde_json::from_str::<MerkProofOp>(&text);
    match &got {
        Ok(MerkProofOp::Push(MerkProofNode::Hash(h))) => ensure!(h[..] == b[..], "{text} is read as {got:?}"),
        Ok(_) => fail!("{text} is read as {got:?}"),
        Err(e) => ensure!(n != 32, "{text} is refused: {e}"),
    }
    let (_, k) = by(g);
    let at = 1 + g.below(k.len() as u64 - 1) as usize;
    let odd = *g.pick(&['!', '-', '_', ' ', '.']);
    let bad = format!("{}{odd}{}", &k[..at], &k[at..]);
    let got = serde_json::from_str::<QueryItem>(&format!("{{\"Key\":{bad}}}"));
    ensure!(got.is_err(), "key {bad} is read as {got:?}");
    Ok(())
}

pub fn sections() -> Vec<Section> {
    vec![
        section("messages", "text of more than 60 characters", 12_000, 200_000, messages),
        section("refused", "every case", 6_000, 60_000, refused),
    ]
}
