//! U02: proofs, queries and results are displayed whole.
use crate::{egen, g02, ogen, qgen};
use crate::g02::{ProofBytes, L};
use grovedb::operations::proof::util::{ProvedPathKeyOptionalValue, ProvedPathKeyValue};
use grovedb::operations::proof::{GroveDBProof, GroveDBProofV0, GroveDBProofV1, ProveOptions};
use grovedb::query_result_type::*;
use grovedb::{AggregateSumPathQuery, Element, PathQuery, Query, SizedQuery};
use grovedb_merk::proofs::query::{AggregateSumQuery, QueryItem, SubqueryBranch};
use grovedb_merk::proofs::query::{ProofVerificationResult, ProvedKeyOptionalValue, ProvedKeyValue};
use grovedb_merk::proofs::{Node, Op};
use grovedb_merkle_mountain_range::MmrTreeProof;
use std::fmt::Display;
use vp::*;

/// Bytes as the debug output shows them: text if all of it is plain, else hexadecimal.
fn text(b: &[u8]) -> String {
    if b.iter().all(|c| c.is_ascii_alphanumeric() || b"_-/\\[]@".contains(c)) { String::from_utf8_lossy(b).into_owned() } else { format!("0x{}", vp::hex(b)) }
}
fn path(p: &[Vec<u8>], o: &mut Vec<String>) {
    o.extend(p.iter().map(|s| text(s)))
}
fn value(v: &[u8]) -> String {
    match Element::deserialize(v, crate::grove::latest()) { Ok(e) => e.to_string(), Err(_) => vp::hex(v) }
}
fn display(what: &str, x: &impl Display) -> R<String> {
    use std::fmt::Write;
    let mut s = String::new();
    match no_panic(std::panic::AssertUnwindSafe(|| write!(s, "{x}"))) {
        Err(p) => fail!("displaying {what} panicked: {p}"),
        Ok(Err(_)) => fail!("{what} cannot be displayed"),
        Ok(Ok(())) => Ok(s),
    }
}
/// The parts are shown, in this order.
fn in_order(what: &str, shown: &str, parts: &[String]) -> R {
    let mut rest = shown;
    // each line of a part gets the indentation of where it is
    for p in parts.iter().flat_map(|p| p.lines()) {
        match rest.find(p.trim()) {
            Some(i) => rest = &rest[i + p.trim().len()..],
            None => fail!("{what} is shown without {p:?} (or not in its place)\n{shown}"),
        }
    }
    Ok(())
}
fn key(g: &mut G) -> Vec<u8> {
    if g.chance(1, 4) { return g.bytes(0, 6) }
    (0..g.size(2, 6)).map(|_| *g.pick(b"abcdefgh_-@XYZ")).collect()
}
fn val(g: &mut G) -> Vec<u8> {
    if g.chance(1, 4) { g.bytes(0, 8) } else { egen::element(g).serialize(crate::grove::latest()).unwrap_or_default() }
}
fn op_of(g: &mut G) -> Op {
    let mut op = ogen::op(g);
    if let Op::Push(n) | Op::PushInverted(n) = &mut op {
        let (k, v) = (key(g), val(g));
        if let Some(x) = crate::forge::key_mut(n) { *x = k }
        if let Some(x) = crate::forge::value_mut(n) { *x = v }
    }
    op
}
fn op_parts(op: &Op, o: &mut Vec<String>) {
    let h = |h: &[u8; 32]| vp::hex(h);
    let (name, n) = match op {
        Op::Push(n) => ("Push(", n),
        Op::PushInverted(n) => ("PushInverted(", n),
        Op::Parent => return o.push("Parent".into()),
        Op::Child => return o.push("Child".into()),
        Op::ParentInverted => return o.push("ParentInverted".into()),
        Op::ChildInverted => return o.push("ChildInverted".into()),
    };
    o.push(name.into());
    match n {
        Node::Hash(x) => o.extend(["Hash(".into(), h(x)]),
        Node::KVHash(x) => o.extend(["KVHash(".into(), h(x)]),
        Node::KVHashCount(x, c) => o.extend(["KVHashCount(".into(), h(x), c.to_string()]),
        Node::KV(k, v) => o.extend(["KV(".into(), text(k), value(v)]),
        Node::KVCount(k, v, c) => o.extend(["KVCount(".into(), text(k), value(v), c.to_string()]),
        Node::KVDigest(k, x) => o.extend(["KVDigest(".into(), text(k), h(x)]),
        Node::KVDigestCount(k, x, c) => o.extend(["KVDigestCount(".into(), text(k), h(x), c.to_string()]),
        Node::KVValueHash(k, v, x) => o.extend(["KVValueHash(".into(), text(k), value(v), h(x)]),
        Node::KVRefValueHash(k, v, x) => o.extend(["KVRefValueHash(".into(), text(k), value(v), h(x)]),
        Node::KVRefValueHashCount(k, v, x, c) => o.extend(["KVRefValueHashCount(".into(), text(k), value(v), h(x), c.to_string()]),
        Node::KVValueHashFeatureType(k, v, x, f) => o.extend(["KVValueHashFeatureType(".into(), text(k), value(v), h(x), format!("{f:?}")]),
        Node::KVValueHashFeatureTypeWithChildHash(k, v, x, f, c) => o.extend(["KVValueHashFeatureTypeWithChildHash(".into(), text(k), value(v), h(x), format!("{f:?}"), h(c)]),
    }
}
fn layer(g: &mut G, depth: usize, flat: bool) -> (L, Vec<String>) {
    let mut parts = vec![];
    let proof = match if flat { g.weighted(&[4, 1, 2]) } else { 0 } {
        0 => {
            let mut ops = vec![];
            for _ in 0..g.size(0, 5) { ops.push(op_of(g)) }
            let mut bytes = vec![];
            grovedb_query::proofs::encode_into(ops.iter(), &mut bytes);
            for o in &ops { op_parts(o, &mut parts) }
            if g.chance(1, 8) {
                // a part that is no operation ends the list
                bytes.push(0xff);
                parts.push("rror".into());
            }
            ProofBytes::Merk(bytes)
        }
        1 => {
            let (size, leaves, items) = (g.below(1000), g.list(0, 3, |g| (g.below(100), key(g))), g.list(0, 3, |g| g.hash32()));
            let p = MmrTreeProof::new(size, leaves.clone(), items.clone());
            match p.encode_to_vec() {
                Ok(b) => {
                    parts.extend(["MMR".into(), size.to_string(), leaves.len().to_string(), items.len().to_string()]);
                    for (i, v) in &leaves { parts.extend([i.to_string(), text(v)]) }
                    parts.extend(items.iter().map(|h| vp::hex(h)));
                    ProofBytes::MMR(b)
                }
                Err(_) => ProofBytes::MMR(vec![]),
            }
        }
        _ => {
            let c: Vec<_> = g02::catalogue().iter().filter(|c| !matches!(c.1.proof, ProofBytes::Merk(_))).collect();
            let p = g.pick(&c).1.proof.clone();
            match &p {
                ProofBytes::DenseTree(b) => if let Ok(d) = grovedb_dense_fixed_sized_merkle_tree::DenseTreeProof::decode_from_slice(b) {
                    parts.extend(["DenseTree".into(), d.entries.len().to_string(), d.node_value_hashes.len().to_string(), d.node_hashes.len().to_string()]);
                    for (i, v) in &d.entries { parts.extend([i.to_string(), text(v)]) }
                    for (i, h) in d.node_value_hashes.iter().chain(&d.node_hashes) { parts.extend([i.to_string(), vp::hex(h)]) }
                },
                ProofBytes::BulkAppendTree(_) => parts.push("BulkAppendTree".into()),
                ProofBytes::CommitmentTree(b) => parts.extend(["CommitmentTree".into(), vp::hex(&b[..32])]),
                ProofBytes::MMR(_) => parts.push("MMR".into()),
                ProofBytes::Merk(_) => {}
            }
            p
        }
    };
    let mut lower = std::collections::BTreeMap::new();
    if depth > 0 {
        for _ in 0..g.size(0, 3) {
            let k = key(g);
            lower.insert(k, layer(g, depth - 1, flat));
        }
    }
    let mut l = L { proof, lower: Default::default() };
    for (k, (b, p)) in lower {
        parts.push(text(&k));
        parts.extend(p);
        l.lower.insert(k, b);
    }
    (l, parts)
}

fn proofs(g: &mut G) -> R {
    let v1 = g.chance(2, 3);
    let (l, parts) = layer(g, 2, v1);
    let layers = !l.lower.is_empty();
    let proof = if v1 {
        GroveDBProof::V1(GroveDBProofV1 { root_layer: g02::to1(l) })
    } else {
        GroveDBProof::V0(GroveDBProofV0 { root_layer: g02::to0(l), prove_options: ProveOptions::default() })
    };
    g.label(if v1 { "v1" } else { "v0" });
    g.label_if(layers, "layers");
    g.nontrivial_if(parts.len() > 5);
    let what = if v1 { "a V1 proof" } else { "a V0 proof" };
    let shown = display(what, &proof)?;
    g.note(|| shown.clone());
    in_order(what, &shown, &parts)
}

fn branch_parts(b: &SubqueryBranch, o: &mut Vec<String>) {
    match &b.subquery_path {
        Some(p) => { o.push("subquery_path: [".into()); path(p, o); o.push("]".into()) }
        None => o.push("subquery_path: None".into()),
    }
    match &b.subquery {
        Some(q) => { o.push("subquery: ".into()); query_parts(q, o) }
        None => o.push("subquery: None".into()),
    }
}
/// An item of a query, as shown: the kind of range it is and its ends, in order.
fn one_item(i: &QueryItem) -> Vec<String> {
    let v = |kind: &str, ends: &[&Vec<u8>]| {
        let mut o = vec![if ends.is_empty() { kind.to_string() } else { format!("{kind}(") }];
        o.extend(ends.iter().map(|e| text(e)));
        o
    };
    match i {
        QueryItem::Key(k) => v("Key", &[k]),
        QueryItem::Range(r) => v("Range", &[&r.start, &r.end]),
        QueryItem::RangeInclusive(r) => v("RangeInclusive", &[r.start(), r.end()]),
        QueryItem::RangeFull(_) => v("RangeFull", &[]),
        QueryItem::RangeFrom(r) => v("RangeFrom", &[&r.start]),
        QueryItem::RangeTo(r) => v("RangeTo", &[&r.end]),
        QueryItem::RangeToInclusive(r) => v("RangeToInclusive", &[&r.end]),
        QueryItem::RangeAfter(r) => v("RangeAfter", &[&r.start]),
        QueryItem::RangeAfterTo(r) => v("RangeAfterTo", &[&r.start, &r.end]),
        QueryItem::RangeAfterToInclusive(r) => v("RangeAfterToInclusive", &[r.start(), r.end()]),
    }
}
fn query_parts(q: &Query, o: &mut Vec<String>) {
    for i in &q.items { o.extend(one_item(i)) }
    o.push("default_subquery_branch:".into());
    branch_parts(&q.default_subquery_branch, o);
    if let Some(c) = &q.conditional_subquery_branches {
        o.push("conditional_subquery_branches".into());
        for (i, b) in c { o.extend(one_item(i)); branch_parts(b, o) }
    }
    o.push(format!("left_to_right: {}", q.left_to_right));
    o.push(format!("add_parent_tree_on_subquery: {}", q.add_parent_tree_on_subquery));
}
fn pq_parts(q: &PathQuery) -> Vec<String> {
    let mut o = vec!["path: [".to_string()];
    path(&q.path, &mut o);
    o.push("]".into());
    query_parts(&q.query.query, &mut o);
    if let Some(l) = q.query.limit { o.push(format!("limit: {l}")) }
    if let Some(l) = q.query.offset { o.push(format!("offset: {l}")) }
    o
}
fn queries(g: &mut G) -> R {
    let (limit, offset) = (g.chance(1, 2).then(|| g.below(70000) as u16), g.chance(1, 2).then(|| g.below(70000) as u16));
    let q = PathQuery::new(g.list(0, 3, key), SizedQuery::new(qgen::any_query(g, 2), limit, offset));
    let shown = display("a query", &q)?;
    g.note(|| shown.clone());
    g.nontrivial_if(!q.query.query.items.is_empty());
    in_order("a query", &shown, &pq_parts(&q))?;
    ensure!(shown.contains("limit: ") == limit.is_some(), "a limit of {limit:?} is shown as {shown}");
    ensure!(shown.contains("offset: ") == offset.is_some(), "an offset of {offset:?} is shown as {shown}");
    in_order("a sized query", &display("a sized query", &q.query)?, &pq_parts(&PathQuery::new(vec![], q.query.clone()))[2..])?;
    // another query with one thing changed is shown as another
    let mut r = q.clone();
    let what = match g.below(6) {
        0 => { r.query.limit = limit.map_or(Some(0), |l| if l % 2 == 0 { None } else { Some(l - 1) }); "the limit" }
        1 => { r.query.offset = offset.map_or(Some(0), |l| if l % 2 == 0 { None } else { Some(l - 1) }); "the offset" }
        2 => { r.path.push([b"k".to_vec(), key(g)].concat()); "the path" }
        3 => { r.query.query.left_to_right ^= true; "the direction" }
        4 => { r.query.query.add_parent_tree_on_subquery ^= true; "whether parents are added" }
        _ => { r.query.query.items.push(qgen::item(g)); "the items" }
    };
    g.label(what);
    ensure!(display("a query", &r)? != shown, "queries that differ in {what} are shown alike: {shown}");
    // what a sum is asked over
    let items = g.list(0, 3, |g| qgen::item(g));
    let (sum_limit, ltr) = (g.u64b(), g.bool());
    let a = AggregateSumPathQuery::new(q.path.clone(), AggregateSumQuery { items: items.clone(), left_to_right: ltr, sum_limit, limit_of_items_to_check: None });
    let mut o = vec!["path: [".to_string()];
    path(&a.path, &mut o);
    o.extend(items.iter().flat_map(one_item));
    let shown = display("an aggregate sum query", &a)?;
    in_order("an aggregate sum query", &shown, &o)?;
    ensure!(shown.contains(&sum_limit.to_string()), "an aggregate sum query is shown without the limit {sum_limit}: {shown}");
    let mut back = a.clone();
    back.aggregate_sum_query.left_to_right ^= true;
    ensure!(display("an aggregate sum query", &back)? != shown, "aggregate sum queries of both directions are shown alike: {shown}");
    Ok(())
}

fn level(g: &mut G, depth: usize, o: &mut Vec<String>) -> BTreeMapLevelResult {
    let keys: std::collections::BTreeSet<_> = (0..g.size(0, 4)).map(|_| key(g)).collect();
    let mut m = std::collections::BTreeMap::new();
    for k in keys {
        o.push(format!("{}: ", text(&k)));
        let v = if depth > 0 && g.chance(1, 2) {
            o.push("BTreeMapLevelResult {".into());
            let x = level(g, depth - 1, o);
            o.push("}".into());
            BTreeMapLevelResultOrItem::BTreeMapLevelResult(x)
        } else {
            let e = egen::element(g);
            o.push(e.to_string());
            BTreeMapLevelResultOrItem::ResultItem(e)
        };
        m.insert(k, v);
    }
    BTreeMapLevelResult { key_values: m }
}
/// The keys the lower level shows as they are if they are UTF-8.
fn plain(k: &[u8], control: bool) -> String {
    if control && k.len() == 1 && k[0] < b'0' { return vp::hex(k) }
    String::from_utf8(k.to_vec()).unwrap_or_else(|_| vp::hex(k))
}
fn results(g: &mut G) -> R {
    let mut o = vec![];
    let elements = (0..g.size(0, 5)).map(|i| {
        o.push(format!("{i}: "));
        let (p, k, e) = (g.list(0, 3, key), key(g), egen::element(g));
        match g.below(3) {
            0 => { o.extend(["ElementResultItem(".into(), e.to_string()]); QueryResultElement::ElementResultItem(e) }
            1 => { o.extend(["KeyElementPairResultItem(".into(), text(&k), e.to_string()]); QueryResultElement::KeyElementPairResultItem((k, e)) }
            _ => {
                o.push("PathKeyElementTrioResultItem(".into());
                path(&p, &mut o);
                o.extend(["key: ".into(), text(&k), e.to_string()]);
                QueryResultElement::PathKeyElementTrioResultItem((p, k, e))
            }
        }
    }).collect::<Vec<_>>();
    g.nontrivial_if(elements.len() > 1);
    let x = QueryResultElements { elements };
    let shown = display("the results of a query", &x)?;
    g.note(|| shown.clone());
    in_order("the results of a query", &shown, &o)?;

    let mut o = vec!["BTreeMapLevelResult {".to_string()];
    let x = level(g, 2, &mut o);
    in_order("the results by key", &display("the results by key", &x)?, &o)?;

    let (p, k, v, proof) = (g.list(0, 3, key), key(g), val(g), g.hash32());
    let mut o = vec!["path: [".to_string()];
    path(&p, &mut o);
    o.extend(["key: ".into(), text(&k), "value: ".into(), value(&v), "proof: ".into(), vp::hex(&proof)]);
    in_order("a proved value", &display("a proved value", &ProvedPathKeyValue { path: p.clone(), key: k.clone(), value: v.clone(), proof })?, &o)?;
    let there = g.bool();
    if !there { let n = o.len(); o[n - 3] = "None".into() }
    let x = ProvedPathKeyOptionalValue { path: p, key: k.clone(), value: there.then(|| v.clone()), proof };
    in_order("a proved value or its absence", &display("a proved value or its absence", &x)?, &o)?;

    let o = [plain(&k, false), vp::hex(&v), vp::hex(&proof)];
    in_order("a value proved in one layer", &display("a value proved in one layer", &ProvedKeyValue { key: k.clone(), value: v.clone(), proof })?, &o)?;
    let mut o = vec![];
    let n = g.size(0, 3);
    let result_set = (0..n).map(|i| {
        let (k, v, proof, below) = (key(g), g.bool().then(|| val(g)), g.hash32(), g.bool());
        o.extend([format!("{i}: "), plain(&k, true), v.as_ref().map_or("None".into(), |v| vp::hex(v)), vp::hex(&proof), below.to_string()]);
        ProvedKeyOptionalValue { key: k, value: v, proof, child_hash_verified: below }
    }).collect();
    let limit = g.bool().then(|| g.below(65536) as u16);
    o.push(format!("limit: {limit:?}"));
    let x = ProofVerificationResult { result_set, limit };
    in_order("what one layer proves", &display("what one layer proves", &x)?, &o)?;
    for on in [false, true] {
        let x = ProveOptions { decrease_limit_on_empty_sub_query_result: on };
        in_order("options", &display("options", &x)?, &[on.to_string()])?;
    }
    Ok(())
}

/// Bytes in full, and what is proved in one layer put under its path.
fn parts(g: &mut G) -> R {
    use grovedb::operations::proof::util::*;
    let (p, v) = (g.list(0, 4, key), val(g));
    g.note(|| format!("{p:?} {}", vp::hex(&v)));
    g.nontrivial_if(p.len() > 1);
    for k in &p { ensure_eq!(hex_to_ascii(k), text(k), "bytes in full") }
    let joined = p.iter().map(|k| text(k)).collect::<Vec<_>>().join("/");
    ensure_eq!(path_hex_to_ascii(&p), joined, "path in full");
    ensure_eq!(path_as_slices_hex_to_ascii(&p.iter().map(|k| &k[..]).collect::<Vec<_>>()), joined, "path of slices in full");
    let e = Element::deserialize(&v, crate::grove::latest()).ok().map(|e| e.to_string());
    ensure_eq!(element_hex_to_ascii(&v).ok(), e, "element in full");
    ensure_eq!(optional_element_hex_to_ascii(Some(&v)).ok(), e, "element in full");
    ensure_eq!(optional_element_hex_to_ascii(None).ok(), Some("None".to_string()), "no element");

    let some = g.list(0, 4, |g| ProvedKeyValue { key: key(g), value: val(g), proof: g.hash32() });
    let maybe = g.list(0, 4, |g| ProvedKeyOptionalValue { key: key(g), value: g.bool().then(|| val(g)), proof: g.hash32(), child_hash_verified: g.bool() });
    let full_of = |x: &ProvedKeyValue| ProvedPathKeyValue { path: p.clone(), key: x.key.clone(), value: x.value.clone(), proof: x.proof };
    let open_of = |x: &ProvedKeyOptionalValue| ProvedPathKeyOptionalValue { path: p.clone(), key: x.key.clone(), value: x.value.clone(), proof: x.proof };
    let (full, open): (Vec<_>, Vec<_>) = (some.iter().map(full_of).collect(), maybe.iter().map(open_of).collect());
    ensure_eq!(ProvedPathKeyValue::from_proved_key_values(p.clone(), some.clone()), full, "values under a path");
    ensure_eq!(ProvedPathKeyOptionalValue::from_proved_key_values(p.clone(), maybe.clone()), open, "optional values under a path");
    for (x, y) in some.iter().zip(&full) {
        let y_owned = || full_of(x);
        ensure_eq!(ProvedPathKeyValue::from_proved_key_value(p.clone(), x.clone()), y_owned(), "value under a path");
        ensure_eq!(ProvedKeyOptionalValue::from(x.clone()).value, Some(x.value.clone()), "value as optional");
        let o = ProvedPathKeyOptionalValue::from(y_owned());
        ensure!(o.path == y.path && o.key == y.key && o.value.as_ref() == Some(&y.value) && o.proof == y.proof, "value under a path as optional");
        ensure_eq!(ProvedPathKeyValue::try_from(o).ok(), Some(y_owned()), "and back");
    }
    for (x, y) in maybe.iter().zip(&open) {
        let y_owned = || open_of(x);
        ensure_eq!(ProvedPathKeyOptionalValue::from_proved_key_value(p.clone(), x.clone()), y_owned(), "optional value under a path");
        let z = ProvedPathKeyValue::try_from(y_owned()).ok();
        ensure_eq!(z.as_ref().map(|z| (&z.path, &z.key, &z.value, &z.proof)), y.value.as_ref().map(|v| (&p, &x.key, v, &x.proof)), "an optional value as a value");
        let z = ProvedKeyValue::try_from(x.clone()).ok();
        ensure_eq!(z.as_ref().map(|z| (&z.key, &z.value, &z.proof)), x.value.as_ref().map(|v| (&x.key, v, &x.proof)), "an optional value as a value");
    }
    Ok(())
}

pub fn sections() -> Vec<Section> {
    vec![
        section("parts", "a path of several segments", 20_000, 400_000, parts),
        section("proofs", "more than five parts to be shown", 4000, 200_000, proofs),
        section("queries", "a query with items", 8000, 400_000, queries),
        section("results", "at least two results", 6000, 300_000, results),
    ]
}
