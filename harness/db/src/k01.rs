//! K01: a merk proof that verifies tells exactly what the tree holds, and honest proofs verify.
use crate::forge::{self, Forge, T};
use crate::grove::version;
use crate::mk::*;
use crate::qgen::{degenerate, item_over, matches, small_key};
use grovedb::Element;
use grovedb_element::reference_path::ReferencePathType;
use grovedb_merk::proofs::query::{boundaries_in_proof, key_exists_as_boundary_in_proof, MapBuilder, QueryProofVerify};
use grovedb_merk::proofs::{execute, Decoder, Node, Op};
use grovedb_merk::{TreeFeatureType, TreeType};
use grovedb_query::{Query, QueryItem};
use grovedb_version::version::GroveVersion;
use std::ops::Bound;
use vp::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class { Raw, Item, Tree, Ref }
#[derive(Clone, Debug)]
pub struct N {
    pub k: Key,
    pub e: E,
    pub class: Class,
    /// What a reference points to.
    pub target: Vec<u8>,
    pub l: Option<Box<N>>,
    pub r: Option<Box<N>>,
    pub hash: Hash,
    pub count: u64,
    /// Position in key order.
    pub at: usize,
}
type Entry = (Key, E, Class, Vec<u8>);

pub fn value(g: &mut G, class: Class, v: &GroveVersion) -> Vec<u8> {
    let flags = if g.chance(1, 4) { Some(g.bytes(0, 3)) } else { None };
    let e = match class {
        Class::Raw => return { let mut b = vec![200 + g.below(56) as u8]; b.extend(g.bytes(0, 4)); b },
        Class::Item => match g.below(3) {
            0 => Element::new_sum_item(g.below(9) as i64 - 4),
            1 => Element::new_item_with_sum_item_with_flags(g.bytes(0, 4), 3, flags),
            _ => if g.chance(1, 10) { Element::new_item(g.blob(300)) } else { Element::new_item_with_flags(g.bytes(0, 4), flags) },
        },
        Class::Tree => match g.below(5) {
            0 => Element::new_sum_tree_with_flags_and_sum_value(Some(small_key(g, 1, 2)), 5, flags),
            1 => Element::new_count_tree_with_flags_and_count_value(Some(small_key(g, 1, 2)), 2, flags),
            2 => Element::new_provable_count_tree_with_flags_and_count_value(Some(small_key(g, 1, 2)), 2, flags),
            3 => Element::empty_tree(),
            _ => Element::new_tree_with_flags(Some(small_key(g, 1, 2)), flags),
        },
        Class::Ref => Element::new_reference(ReferencePathType::AbsolutePathReference(vec![small_key(g, 1, 2), small_key(g, 1, 2)])),
    };
    e.serialize(v).expect("serialize")
}
pub fn entries(g: &mut G, kind: TreeType, max: usize, v: &GroveVersion) -> Vec<Entry> {
    let n = g.skewed(1, max);
    let mut m = std::collections::BTreeMap::new();
    for _ in 0..n {
        let k = small_key(g, 1, 3);
        let class = *g.pick(&[Class::Item, Class::Item, Class::Item, Class::Tree, Class::Ref, Class::Raw]);
        let mut e = gen_entry(g, kind);
        e.value = value(g, class, v);
        let mut target = vec![];
        e.below = match class {
            Class::Tree => Some(if g.chance(1, 3) { [0; 32] } else { g.hash32() }),
            Class::Ref => { target = value(g, Class::Item, v); Some(h_value(&target)) }
            _ => None,
        };
        m.insert(k, (e, class, target));
    }
    m.into_iter().map(|(k, (e, c, t))| (k, e, c, t)).collect()
}
fn height(t: &Option<Box<N>>) -> u8 {
    t.as_ref().map_or(0, |t| 1 + height(&t.l).max(height(&t.r)))
}
/// A balanced tree over the entries, of some shape.
pub fn tree(g: &mut G, es: &[Entry], kind: TreeType, base: usize) -> Option<Box<N>> {
    if es.is_empty() { return None }
    let mid = es.len() / 2;
    let mut i = mid;
    if es.len() > 1 && g.chance(1, 3) { i = if g.bool() { mid.saturating_sub(1) } else { (mid + 1).min(es.len() - 1) } }
    let (mut l, mut r) = (tree(g, &es[..i], kind, base), tree(g, &es[i + 1..], kind, base + i + 1));
    if height(&l).abs_diff(height(&r)) > 1 {
        i = mid;
        (l, r) = (tree(g, &es[..i], kind, base), tree(g, &es[i + 1..], kind, base + i + 1));
    }
    let (k, e, class, target) = es[i].clone();
    let of = |t: &Option<Box<N>>| t.as_ref().map_or(([0; 32], 0), |t| (t.hash, t.count));
    let ((lh, lc), (rh, rc)) = (of(&l), of(&r));
    let count = lc + rc + e.count();
    let hash = h_node(&h_kv(&k, &e.value_hash()), &lh, &rh, provable(kind).then_some(count));
    Some(Box::new(N { k, e, class, target, l, r, hash, count, at: base + i }))
}

/// What a proof has to disclose: nothing, the key, or key and value.
pub struct Needs {
    pub needs: Vec<u8>,
    /// The node the limit was reached at, in the direction walked.
    pub until: Option<usize>,
    pub results: Vec<usize>,
    pub left: Option<u16>,
}
pub fn near(i: &QueryItem, ltr: bool) -> Option<Key> {
    let (lo, up) = bounds(i);
    if ltr { lo } else { up }
}
pub fn bounds(i: &QueryItem) -> (Option<Key>, Option<Key>) {
    match i {
        QueryItem::Key(a) => (Some(a.clone()), Some(a.clone())),
        QueryItem::Range(r) | QueryItem::RangeAfterTo(r) => (Some(r.start.clone()), Some(r.end.clone())),
        QueryItem::RangeInclusive(r) | QueryItem::RangeAfterToInclusive(r) => (Some(r.start().clone()), Some(r.end().clone())),
        QueryItem::RangeFull(_) => (None, None),
        QueryItem::RangeFrom(r) | QueryItem::RangeAfter(r) => (Some(r.start.clone()), None),
        QueryItem::RangeTo(r) => (None, Some(r.end.clone())),
        QueryItem::RangeToInclusive(r) => (None, Some(r.end.clone())),
    }
}
/// Positions count in key order; `keys` likewise.
pub fn needs(keys: &[Key], q: &Query, limit: Option<u16>) -> Needs {
    let n = keys.len();
    let ltr = q.left_to_right;
    let order: Vec<usize> = if ltr { (0..n).collect() } else { (0..n).rev().collect() };
    let mut items = q.items.clone();
    if !ltr { items.reverse() }
    let mut out = Needs { needs: vec![0; n], until: None, results: vec![], left: limit };
    'items: for it in &items {
        let mine: Vec<usize> = (0..n).filter(|i| matches(it, &keys[order[*i]])).collect();
        let near_key = near(it, ltr);
        let far_key = near(it, !ltr);
        // the first node not before the item
        let before = |k: &Key| match &near_key {
            None => false,
            Some(b) => (if ltr { k < b } else { k > b }) || (k == b && !matches(it, k)),
        };
        let first = (0..n).find(|i| !before(&keys[order[*i]]));
        match first {
            None => out.needs[order[n - 1]] = out.needs[order[n - 1]].max(1),
            Some(f) => {
                if Some(&keys[order[f]]) != near_key.as_ref() && f > 0 { out.needs[order[f - 1]] = out.needs[order[f - 1]].max(1) }
                if mine.first() != Some(&f) { out.needs[order[f]] = out.needs[order[f]].max(1) }
            }
        }
        for i in &mine {
            if out.left == Some(0) { break 'items }
            out.needs[order[*i]] = 2;
            out.results.push(order[*i]);
            if let Some(l) = &mut out.left {
                *l -= 1;
                if *l == 0 { out.until = Some(order[*i]); break 'items }
            }
        }
        if let Some(last) = mine.last() {
            if Some(&keys[order[*last]]) != far_key.as_ref() {
                let next = if last + 1 < n { order[last + 1] } else { order[n - 1] };
                out.needs[next] = out.needs[next].max(1);
            }
        }
    }
    out
}
/// A node that tells key and value.
fn full(g: &mut G, n: &N, kind: TreeType, honest: bool, told: &mut Vec<(usize, Vec<u8>, Hash, bool)>) -> Node {
    use TreeFeatureType::*;
    let (k, v, h, p) = (n.k.clone(), n.e.value.clone(), n.e.value_hash(), provable(kind));
    let feature = if p { if kind == TreeType::ProvableCountTree { ProvableCountedMerkNode(n.count) } else { ProvableCountedSummedMerkNode(n.count, n.e.sum() as i64) } } else { n.e.feature };
    let node = match n.class {
        Class::Tree => match g.below(4) {
            0 | 1 => Node::KVValueHashFeatureTypeWithChildHash(k, v, h, feature, n.e.below.unwrap()),
            2 if !p => Node::KVValueHash(k, v, h),
            _ => Node::KVValueHashFeatureType(k, v, h, feature),
        },
        Class::Ref if honest || g.chance(3, 4) => {
            let own = h_value(&n.e.value);
            if p { Node::KVRefValueHashCount(k, n.target.clone(), own, n.count) } else { Node::KVRefValueHash(k, n.target.clone(), own) }
        }
        Class::Ref => if p { Node::KVValueHashFeatureType(k, v, h, feature) } else { Node::KVValueHash(k, v, h) },
        Class::Item if !honest && g.chance(1, 10) => if p || g.bool() { Node::KVValueHashFeatureType(k, v, h, feature) } else { Node::KVValueHash(k, v, h) },
        _ => if p { Node::KVCount(k, v, n.count) } else { Node::KV(k, v) },
    };
    let proof = match &node { Node::KVRefValueHash(_, _, h) | Node::KVRefValueHashCount(_, _, h, _) => *h, _ => h };
    told.push((n.at, forge::value_of(&node).unwrap().clone(), proof, std::matches!(node, Node::KVValueHashFeatureTypeWithChildHash(..))));
    node
}
pub struct Way<'a> {
    pub kind: TreeType,
    /// Disclose at least what is needed, or whatever comes.
    pub needs: Option<&'a Needs>,
    pub ltr: bool,
    pub honest: bool,
    /// Of 8, how much more is disclosed.
    pub more: u64,
}
fn any_need(n: &N, w: &Needs) -> bool {
    w.needs[n.at] > 0 || n.l.as_ref().is_some_and(|n| any_need(n, w)) || n.r.as_ref().is_some_and(|n| any_need(n, w))
}
pub fn disclose(g: &mut G, n: &N, w: &Way, told: &mut Vec<(usize, Vec<u8>, Hash, bool)>) -> T {
    let needed = w.needs.is_some_and(|x| any_need(n, x));
    if !needed && !g.chance(w.more, 8) { return forge::leaf(Node::Hash(n.hash)) }
    let need = w.needs.map_or(0, |x| x.needs[n.at]);
    // past the limit nothing is told
    let past = w.needs.is_some_and(|x| x.until.is_some_and(|u| if w.ltr { n.at > u } else { n.at < u }));
    let p = provable(w.kind);
    let how = if past { 0 } else { match need { 2 => 2, 1 => 1 + g.chance(w.more, 16) as u64, _ => if w.more >= 8 && w.needs.is_none() { g.weighted(&[1, 1, 12]) as u64 } else { g.below(3) } } };
    // a key inside a queried range is told with its value
    let how = if how == 1 && need < 1 && w.needs.is_some() { 2 } else { how };
    let kv = h_kv(&n.k, &n.e.value_hash());
    let node = match how {
        0 => if p { Node::KVHashCount(kv, n.count) } else { Node::KVHash(kv) },
        1 => if p { Node::KVDigestCount(n.k.clone(), n.e.value_hash(), n.count) } else { Node::KVDigest(n.k.clone(), n.e.value_hash()) },
        _ => full(g, n, w.kind, w.honest, told),
    };
    T { node, l: n.l.as_ref().map(|n| Box::new(disclose(g, n, w, told))), r: n.r.as_ref().map(|n| Box::new(disclose(g, n, w, told))) }
}
pub fn query(g: &mut G, keys: &[Key]) -> Query {
    let mut q = Query::new_with_direction(g.bool());
    for _ in 0..g.size(0, 4) {
        let i = item_over(g, |g| if !keys.is_empty() && g.chance(2, 3) { g.pick(keys).clone() } else { small_key(g, 1, 3) });
        if !degenerate(&i) { q.insert_item(i) }
    }
    q
}
pub fn show_tree(n: &N) -> String {
    let s = |c: &Option<Box<N>>| c.as_ref().map_or("-".to_string(), |c| show_tree(c));
    if n.l.is_none() && n.r.is_none() { format!("{}:{:?}", vp::hex(&n.k), n.class) } else { format!("({} {}:{:?} {})", s(&n.l), vp::hex(&n.k), n.class, s(&n.r)) }
}
fn all<'a>(n: &'a N, o: &mut Vec<&'a N>) {
    if let Some(l) = &n.l { all(l, o) }
    o.push(n);
    if let Some(r) = &n.r { all(r, o) }
}
fn item_in_value_hash(t: &T) -> bool {
    use Node::*;
    (match &t.node {
        KVValueHash(_, v, _) | KVValueHashFeatureType(_, v, ..) | KVValueHashFeatureTypeWithChildHash(_, v, ..) => grovedb_element::ElementType::from_serialized_value(v).map_or(true, |t| t.has_simple_value_hash()),
        _ => false,
    }) || t.l.as_ref().is_some_and(|t| item_in_value_hash(t)) || t.r.as_ref().is_some_and(|t| item_in_value_hash(t))
}
struct Case {
    kind: TreeType,
    top: Box<N>,
    keys: Vec<Key>,
    q: Query,
    limit: Option<u16>,
}
fn case(g: &mut G, max: usize) -> Case {
    let v = version(g);
    let kind = *g.pick(&KINDS);
    let es = entries(g, kind, max, v);
    let top = tree(g, &es, kind, 0).unwrap();
    let keys: Vec<Key> = es.iter().map(|e| e.0.clone()).collect();
    let q = query(g, &keys);
    let limit = if g.bool() { None } else { Some(g.size(1, 5) as u16) };
    Case { kind, top, keys, q, limit }
}
fn ops(t: &T, ltr: bool) -> Vec<u8> {
    let mut o = vec![];
    forge::straight(t, !ltr, &mut o);
    forge::encode(&o)
}
/// Disclosures of every extent: none leads to other results, and a sufficient one is accepted.
fn disclosed(g: &mut G) -> R {
    let c = case(g, 20);
    let n = needs(&c.keys, &c.q, c.limit);
    let enough = g.chance(2, 3);
    let honest = enough || g.bool();
    let ltr = c.q.left_to_right;
    let w = Way { kind: c.kind, needs: enough.then_some(&n), ltr, honest, more: *g.pick(&[0u64, 2, 6, 8]) };
    let mut told = vec![];
    let t = disclose(g, &c.top, &w, &mut told);
    let bytes = ops(&t, ltr);
    let strict = g.chance(3, 4);
    g.note(|| format!("{:?} {} limit {:?} {} disclosed {told:?}", c.kind, show_tree(&c.top), c.limit, crate::qgen::show(&c.q)));
    let ctx = |s: &str, m: String| Fail::new(s, format!("{m}\n  {:?} {} limit {:?} {}\n  disclosed as {}", c.kind, show_tree(&c.top), c.limit, crate::qgen::show(&c.q), { let mut v = vec![]; forge::nodes(&t, &mut v); v.iter().map(|n| n.to_string()).collect::<Vec<_>>().join("; ") }));
    let out = match no_panic(|| c.q.execute_proof(&bytes, c.limit, ltr, strict as u16).unwrap()) {
        Err(p) => return Err(ctx("panic", format!("verification panicked: {p}"))),
        Ok(r) => r,
    };
    let bad = item_in_value_hash(&t);
    match out {
        Err(e) => {
            let partial = enough && !(strict && bad);
            if partial { return Err(ctx("complete", format!("a sufficient proof is refused: {e}"))) }
        }
        Ok((root, res)) => {
            if strict && bad { return Err(ctx("kind", "an item passes for something whose value is not in its hash".into())) }
            if root != c.top.hash { return Err(ctx("hash", format!("root hash {} is given as {}", vp::hex(&c.top.hash), vp::hex(&root)))) }
            let mut want = vec![];
            for i in &n.results {
                match told.iter().find(|t| t.0 == *i) {
                    None => return Err(ctx("sound", format!("accepted, but {} is not told", vp::hex(&c.keys[*i])))),
                    Some(t) => want.push((c.keys[*i].clone(), t.1.clone(), t.2, t.3)),
                }
            }
            let got: Vec<_> = res.result_set.iter().map(|r| (r.key.clone(), r.value.clone().unwrap_or_default(), r.proof, r.child_hash_verified)).collect();
            if got != want || res.limit != n.left { return Err(ctx("sound", format!("results {got:?} left {:?}\n  instead of {want:?} left {:?}", res.limit, n.left))) }
            if g.chance(1, 4) {
                let mut other = c.top.hash;
                other[g.below(32) as usize] ^= 1 << g.below(8);
                if strict { 
                    ensure!(c.q.verify_proof(&bytes, c.limit, ltr, c.top.hash).unwrap().is_ok(), "verify_proof refuses what execute_proof accepts");
                    ensure!(c.q.verify_proof(&bytes, c.limit, ltr, other).unwrap().is_err(), "another root hash is accepted");
                }
            }
            g.nontrivial_if(want.len() > 1);
        }
    }
    // the keys told without value
    let mut o = vec![];
    forge::straight(&t, !ltr, &mut o);
    let digests: Vec<Key> = o.iter().filter_map(|o| match o { Op::Push(n) | Op::PushInverted(n) if std::matches!(n, Node::KVDigest(..) | Node::KVDigestCount(..)) => forge::key_of(n).cloned(), _ => None }).collect();
    ensure_eq!(boundaries_in_proof(&bytes).map_err(|e| e.to_string())?, digests.clone(), "boundaries");
    for k in &c.keys {
        ensure_eq!(key_exists_as_boundary_in_proof(&bytes, k).map_err(|e| e.to_string())?, digests.contains(k), "{} as a boundary", vp::hex(k));
    }
    Ok(())
}
/// What the tree and a forger's values are; anything accepted is true of it.
fn forged(g: &mut G) -> R {
    let v = version(g);
    let c = case(g, 12);
    let n = needs(&c.keys, &c.q, c.limit);
    let ltr = c.q.left_to_right;
    let enough = g.chance(2, 3);
    let w = Way { kind: c.kind, needs: enough.then_some(&n), ltr, honest: true, more: *g.pick(&[0u64, 2, 6, 8]) };
    let mut told = vec![];
    let t = disclose(g, &c.top, &w, &mut told);
    let honest = ops(&t, ltr);
    let mut flat = vec![];
    all(&c.top, &mut flat);
    let mut hashes = vec![];
    for n in &flat { hashes.extend([n.hash, h_kv(&n.k, &n.e.value_hash()), n.e.value_hash(), h_value(&n.e.value)]); hashes.extend(n.e.below) }
    let values: Vec<Vec<u8>> = flat.iter().flat_map(|n| [n.e.value.clone(), n.target.clone()]).collect();
    let mut value = |g: &mut G, old: Option<&Vec<u8>>| if g.chance(1, 4) { g.pick(&values).clone() } else { crate::g02::forged(g, old, v) };
    let mut f = Forge { value: &mut value, hashes, structure_only: false };
    let Some(bytes) = forge::merk(g, &honest, &mut f) else { return Err(Fail::discard()) };
    let q = if g.chance(1, 4) { query(g, &c.keys) } else { c.q.clone() };
    let limit = if g.chance(1, 6) { Some(g.below(4) as u16) } else { c.limit };
    let n = needs(&c.keys, &q, limit);
    let ctx = |m: String| Fail::new("forged", format!("{m}\n  {:?} {} limit {limit:?} {}\n  {:?}", c.kind, show_tree(&c.top), crate::qgen::show(&q), forge::decode(&bytes).map(|o| o.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>())));
    let out = match no_panic(|| q.execute_proof(&bytes, limit, q.left_to_right, 1).unwrap()) {
        Err(p) => return Err(ctx(format!("verification panicked: {p}"))),
        Ok(r) => r,
    };
    let Ok((root, res)) = out else { return Ok(()) };
    g.label("parsed");
    if root != c.top.hash { return Ok(()) }
    g.label_if(bytes != honest, "changed yet accepted");
    g.nontrivial_if(bytes != honest);
    let keys: Vec<&Key> = res.result_set.iter().map(|r| &r.key).collect();
    let want: Vec<&Key> = n.results.iter().map(|i| &c.keys[*i]).collect();
    if keys != want || res.limit != n.left && limit != Some(0) { return Err(ctx(format!("keys {keys:?} left {:?} instead of {want:?} left {:?}", res.limit, n.left))) }
    for (r, i) in res.result_set.iter().zip(&n.results) {
        let n = flat[*i];
        let Some(got) = &r.value else { return Err(ctx("no value".into())) };
        let simple = grovedb_element::ElementType::from_serialized_value(got).map_or(true, |t| t.has_simple_value_hash());
        let mine = *got == n.e.value && r.proof == n.e.value_hash();
        let target = n.class == Class::Ref && *got == n.target && r.proof == h_value(&n.e.value);
        // the value of a tree or reference is bound by what lies below, which is not shown here
        let unbound = !simple && !r.child_hash_verified && r.proof == n.e.value_hash();
        if r.child_hash_verified && !mine || !(mine || target || unbound) { return Err(ctx(format!("{} is told as {}", vp::hex(&r.key), vp::hex(got)))) }
    }
    Ok(())
}
/// Proofs of the real prover.
fn proved(g: &mut G) -> R {
    let v = version(g);
    let kind = *g.pick(&KINDS);
    let es = entries(g, kind, 25, v);
    let m: Model = es.iter().map(|e| (e.0.clone(), e.1.clone())).collect();
    let keys: Vec<Key> = m.keys().cloned().collect();
    let s = Store::filled(&m, kind, g, v)?;
    let qs: Vec<(Query, Option<u16>)> = (0..3).map(|_| (query(g, &keys), if g.bool() { None } else { Some(g.size(1, 6) as u16) })).collect();
    s.session(kind, v, |mk| {
        let root = mk.root_hash().unwrap();
        for (q, limit) in &qs {
            let ctx = |m: String| Fail::new("proved", format!("{m}\n  {kind:?} {} limit {limit:?} {}", es.iter().map(|e| format!("{}:{:?}", vp::hex(&e.0), e.2)).collect::<Vec<_>>().join(" "), crate::qgen::show(q)));
            let n = needs(&keys, q, *limit);
            let p = match no_panic(|| mk.prove(q.clone(), *limit, v).unwrap()) {
                Err(p) => return Err(ctx(format!("prover panicked: {p}"))),
                Ok(Err(e)) => return Err(ctx(format!("prover fails: {e}"))),
                Ok(Ok(p)) => p,
            };
            let res = match q.verify_proof(&p.proof, *limit, q.left_to_right, root).unwrap() {
                Err(e) => return Err(ctx(format!("an honest proof is refused: {e}"))),
                Ok(r) => r,
            };
            if (res.limit, p.limit) != (n.left, n.left) { return Err(ctx(format!("limit left {:?} and {:?} instead of {:?}", res.limit, p.limit, n.left))) }
            let keys_got: Vec<&Key> = res.result_set.iter().map(|r| &r.key).collect();
            let want: Vec<&Key> = n.results.iter().map(|i| &keys[*i]).collect();
            if keys_got != want { return Err(ctx(format!("keys {keys_got:?} instead of {want:?}"))) }
            for r in &res.result_set {
                let e = &m[&r.key];
                if r.value.as_ref() != Some(&e.value) || r.proof != e.value_hash() { return Err(ctx(format!("{} is told as {:?}", vp::hex(&r.key), r.value))) }
            }
            // no value is told that was not asked for
            let ops = forge::decode(&p.proof).ok_or("decode")?;
            let shown = ops.iter().filter(|o| std::matches!(o, Op::Push(n) | Op::PushInverted(n) if forge::value_of(n).is_some())).count();
            if shown != want.len() { return Err(ctx(format!("{shown} values are told for {} results", want.len()))) }
            g.nontrivial_if(want.len() > 1);
        }
        Ok(())
    })
}
/// The map read from a proof.
fn map(g: &mut G) -> R {
    let c = case(g, 16);
    let w = Way { kind: c.kind, needs: None, ltr: true, honest: true, more: *g.pick(&[4u64, 7, 8, 8]) };
    let mut told = vec![];
    let t = disclose(g, &c.top, &w, &mut told);
    let bytes = ops(&t, true);
    let mut b = MapBuilder::new();
    let root = execute(Decoder::new(&bytes), true, |n| b.insert(n)).unwrap().map_err(|e| Fail::new("map", format!("an honest proof is refused: {e}")))?;
    ensure_eq!(root.hash().unwrap(), c.top.hash, "root hash");
    let m = b.build();
    // references are not shown in a map
    let mut ns = vec![];
    forge::nodes(&t, &mut ns);
    let everything = ns.iter().all(|n| forge::value_of(n).is_some() && !std::matches!(n, Node::KVRefValueHash(..) | Node::KVRefValueHashCount(..)));
    let shown: Vec<(Key, Vec<u8>)> = ns.iter().filter(|n| !std::matches!(n, Node::KVRefValueHash(..) | Node::KVRefValueHashCount(..))).filter_map(|n| Some((forge::key_of(n)?.clone(), forge::value_of(n)?.clone()))).collect();
    ensure!(m.all().map(|(k, (_, v))| (k.clone(), v.clone())).eq(shown.iter().cloned()), "all entries of the map");
    for _ in 0..4 {
        let k = if g.bool() { g.pick(&c.keys).clone() } else { small_key(g, 0, 3) };
        let want = shown.iter().find(|s| s.0 == k).map(|s| s.1.as_slice());
        match m.get(&k) {
            Ok(got) => { ensure_eq!(got, want, "get of {}", vp::hex(&k)); ensure!(want.is_some() == c.keys.contains(&k), "{} is said to be absent", vp::hex(&k)) }
            Err(e) => ensure!(!everything && want.is_none(), "get of {} fails: {e}", vp::hex(&k)),
        }
        let (a, b) = (if g.chance(2, 3) { g.pick(&c.keys).clone() } else { small_key(g, 0, 3) }, if g.chance(2, 3) { g.pick(&c.keys).clone() } else { small_key(g, 0, 3) });
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        let lo = match g.below(3) { 0 => Bound::Unbounded, 1 => Bound::Included(a.as_slice()), _ => Bound::Excluded(a.as_slice()) };
        let up = match g.below(3) { 0 => Bound::Unbounded, 1 => Bound::Included(b.as_slice()), _ if a == b => Bound::Included(b.as_slice()), _ => Bound::Excluded(b.as_slice()) };
        if a == b && std::matches!((lo, up), (Bound::Excluded(_), Bound::Included(_))) { continue }
        let inside = |k: &Key| (match lo { Bound::Unbounded => true, Bound::Included(a) => k.as_slice() >= a, Bound::Excluded(a) => k.as_slice() > a }) && (match up { Bound::Unbounded => true, Bound::Included(b) => k.as_slice() <= b, Bound::Excluded(b) => k.as_slice() < b });
        let mut got = vec![];
        let mut failed = None;
        for r in m.range((lo, up)) {
            match r { Ok((k, v)) => got.push((k.to_vec(), v.to_vec())), Err(e) => { failed = Some(e.to_string()); break } }
        }
        let want: Vec<Key> = c.keys.iter().filter(|k| inside(k)).cloned().collect();
        let (ctx, got_keys): (_, Vec<Key>) = (format!("range {lo:?} to {up:?} of {}", show_tree(&c.top)), got.iter().map(|g| g.0.clone()).collect());
        match failed {
            None => { ensure_eq!(got_keys, want, "{ctx}"); g.nontrivial_if(!everything && !want.is_empty()) }
            Some(e) => { ensure!(!everything, "{ctx} fails on a whole tree: {e}"); ensure!(want.starts_with(&got_keys), "{ctx}: {got_keys:?}") }
        }
        for (k, v) in got { ensure_eq!(shown.iter().find(|s| s.0 == k).map(|s| &s.1), Some(&v), "value in a range") }
    }
    Ok(())
}

/// The map made from any nodes: refused as soon as a key does not grow, complete between neighbours only.
fn built(g: &mut G) -> R {
    let n = g.size(0, 7);
    let mut next = vec![];
    let nodes: Vec<Node> = (0..n).map(|_| {
        let k = match g.below(8) { 0 => small_key(g, 0, 2), 1 => next.clone(), _ => { let mut k: Key = next.clone(); if k.is_empty() || g.bool() { k.push(g.below(2) as u8) } else { let l = k.last_mut().unwrap(); *l = l.wrapping_add(1) } k } };
        next = k.clone();
        let (v, h) = (g.bytes(0, 2), [7; 32]);
        match g.below(13) {
            0 => Node::Hash(h),
            1 => Node::KVHash(h),
            2 => Node::KVDigest(k, h),
            3 => Node::KVRefValueHash(k, v, h),
            4 => Node::KVRefValueHashCount(k, v, h, 1),
            5 => Node::KVValueHash(k, v, h),
            6 => Node::KVValueHashFeatureType(k, v, h, grovedb_merk::TreeFeatureType::BasicMerkNode),
            7 => Node::KVValueHashFeatureTypeWithChildHash(k, v, h, grovedb_merk::TreeFeatureType::BasicMerkNode, h),
            8 => Node::KVCount(k, v, 1),
            _ => Node::KV(k, v),
        }
    }).collect();
    g.note(|| format!("{nodes:?}"));
    let mut b = MapBuilder::new();
    // keys, values, and whether what precedes them is known
    let mut want: Vec<(Key, Vec<u8>, bool)> = vec![];
    let mut known = true;
    for n in &nodes {
        let reference = std::matches!(n, Node::KVRefValueHash(..) | Node::KVRefValueHashCount(..));
        let told = if reference { None } else { forge::key_of(n).cloned().zip(forge::value_of(n).cloned()) };
        let r = b.insert(n);
        match told {
            None => { ensure!(r.is_ok(), "a node without a value is refused"); known = false }
            Some((k, v)) => {
                let grows = want.last().is_none_or(|l| l.0 < k);
                ensure!(r.is_ok() == grows, "key {} after {:?}: {r:?}", vp::hex(&k), want.last());
                if !grows { g.label("refused"); continue }
                want.push((k, v, known));
                known = true;
            }
        }
    }
    let m = b.build();
    ensure!(m.all().map(|(k, (c, v))| (k.clone(), v.clone(), *c)).eq(want.iter().cloned()), "all entries of the map");
    g.nontrivial_if(want.len() > 1 && want.iter().any(|w| !w.2));
    for k in (0..2).map(|_| small_key(g, 0, 3)).chain(want.iter().map(|w| w.0.clone())) {
        let i = want.partition_point(|w| w.0 < k);
        let w = match want.get(i) {
            Some(w) if w.0 == k => Ok(Some(w.1.as_slice())),
            Some(w) if w.2 => Ok(None),
            None if known => Ok(None),
            _ => Err(()),
        };
        ensure_eq!(m.get(&k).map_err(|_| ()), w, "get of {}", vp::hex(&k));
    }
    Ok(())
}

pub fn sections() -> Vec<Section> {
    vec![
        section("disclosed", "accepted with two results or more", 1_000_000, 30_000_000, disclosed),
        section("forged", "the proof was changed and still leads to the root", 1_000_000, 30_000_000, forged),
        section("proved", "two results or more", 40_000, 800_000, proved),
        section("built", "two keys or more and something left out", 60_000, 2_000_000, built),
        section("map", "a range read from a part of the tree", 150_000, 4_000_000, map),
    ]
}
