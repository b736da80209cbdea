//! E01: elements survive storage. E02: every view of an element agrees with what it is. R01: reference paths.
use crate::egen::{self, *};
use grovedb_element::{ElementType, ProofNodeType};
use grovedb_element::reference_path::*;
use grovedb_element::Element;
use grovedb_path::{SubtreePath, SubtreePathBuilder};
use grovedb_version::version::GroveVersion;
use vp::*;

fn gv() -> &'static GroveVersion {
    GroveVersion::latest()
}

// ------------------------------------------------------------------ E01

fn round_trip(g: &mut G) -> R {
    let e = egen::element(g);
    g.note(|| format!("{e:?}"));
    let b = match e.serialize(gv()) {
        Ok(b) => b,
        Err(x) => fail!("serializing {e}: {x}"),
    };
    g.nontrivial_if(b.len() > 4);
    ensure!(b == encode(&e), "stored bytes of {e}: {} expected {}", hex(&b), hex(&encode(&e)));
    ensure_eq!(e.serialized_size(gv()).ok(), Some(b.len()), "serialized size");
    ensure_eq!(Element::deserialize(&b, gv()).ok(), Some(e.clone()), "deserialized");
    ensure_eq!(ElementType::from_serialized_value(&b).ok(), Some(KINDS[b[0] as usize]), "kind of bytes");
    ensure_eq!(e.element_type(), KINDS[b[0] as usize], "kind");
    // a cut value is never accepted
    let n = g.below(b.len() as u64) as usize;
    ensure!(Element::deserialize(&b[..n], gv()).is_err(), "first {n} bytes of {}", hex(&b));
    // JSON, where numbers fit
    let big = matches!(&e, Element::BigSumTree(_, v, _) if i64::try_from(*v).is_err());
    if !big {
        let j = match serde_json::to_string(&e) { Ok(j) => j, Err(x) => fail!("to json: {x}") };
        match serde_json::from_str::<Element>(&j) {
            Ok(x) => ensure_eq!(x, e, "through json {j}"),
            Err(x) => fail!("from json {j}: {x}"),
        }
    }
    Ok(())
}

/// Values, flags and paths of up to some megabytes.
fn large(g: &mut G) -> R {
    let n = match g.below(4) { 0 => g.size(250, 260), 1 => g.size(65_000, 66_000), 2 => g.size(250_000, 1_200_000), _ => g.size(1 << 20, 9 << 20) };
    let (a, b) = (g.byte(), g.byte());
    let long: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(a) ^ b).collect();
    let e = match g.below(5) {
        0 => Element::Item(long, egen::flags(g)),
        1 => Element::Item(vec![a], Some(long)),
        2 => Element::ItemWithSumItem(long, g.i64b(), egen::flags(g)),
        3 => Element::SumTree(Some(long), g.i64b(), None),
        _ => Element::Reference(ReferencePathType::AbsolutePathReference(vec![vec![b], long]), Some(a), None),
    };
    g.note(|| format!("{n} bytes"));
    g.nontrivial_if(n > 1000);
    let b = match e.serialize(gv()) { Ok(b) => b, Err(x) => fail!("serializing: {x}") };
    ensure!(b == encode(&e), "stored bytes of an element with {n} bytes");
    ensure_eq!(e.serialized_size(gv()).ok(), Some(b.len()), "serialized size");
    ensure!(Element::deserialize(&b, gv()).ok().as_ref() == Some(&e), "an element with {n} bytes is not read back");
    ensure!(Element::deserialize(&b[..b.len() - 1], gv()).is_err(), "all but a byte of an element with {n} bytes");
    Ok(())
}

/// Any bytes: an error or an element whose encoding is what was read.
fn any_bytes(g: &mut G) -> R {
    let mut b = if g.bool() { let mut b = egen::encode(&egen::element(g)); mutate(g, &mut b); b } else { g.bytes(0, 30) };
    if g.chance(1, 4) && !b.is_empty() {
        b[0] %= 16;
    }
    g.note(|| hex(&b));
    alloc_reset();
    let r = no_panic(|| Element::deserialize(&b, gv()));
    let peak = alloc_peak();
    let r = match r { Ok(r) => r, Err(p) => fail!("panic on {}: {p}", hex(&b)) };
    ensure!(peak < (300 << 20) + 64 * b.len(), "{} bytes allocated {peak}: {}", b.len(), hex(&b));
    match r {
        Err(_) => g.label("rejected"),
        Ok(e) => {
            g.nontrivial();
            let c = egen::encode(&e);
            // integers may be stored wider than needed, which no writer does
            ensure!(c.len() <= b.len(), "{} decoded to longer {e}", hex(&b));
            ensure_eq!(Element::deserialize(&c, gv()).ok(), Some(e.clone()), "again {}", hex(&b));
            // so may the kind, which is then not known by its first byte
            if b[0] < 251 { ensure_eq!(ElementType::from_serialized_value(&b).ok(), Some(e.element_type()), "kind of {}", hex(&b)) }
        }
    }
    let t = b.first().and_then(|x| KINDS.get(*x as usize)).copied();
    ensure_eq!(ElementType::from_serialized_value(&b).ok(), t, "kind of {}", hex(&b));
    Ok(())
}

pub fn mutate(g: &mut G, b: &mut Vec<u8>) {
    for _ in 0..g.size(1, 4) {
        if b.is_empty() {
            b.push(g.byte());
            continue;
        }
        let i = g.below(b.len() as u64) as usize;
        match g.below(6) {
            0 => b[i] = g.byte(),
            1 => b[i] ^= 1 << g.below(8),
            2 => { b.remove(i); }
            3 => { let x = g.byte(); b.insert(i, x) }
            4 => b[i] = *g.pick(&[250, 251, 252, 253, 254, 255, 0, 1]),
            _ => { let x = g.raw64().to_be_bytes(); for y in x { b.insert(i, y) } }
        }
    }
}

/// Different elements never share bytes.
fn injective(g: &mut G) -> R {
    let a = egen::element(g);
    let b = if g.bool() { egen::element(g) } else {
        let mut b = a.clone();
        b.set_flags(flags(g));
        b
    };
    let (x, y) = (a.serialize(gv()).unwrap(), b.serialize(gv()).unwrap());
    g.nontrivial_if(a != b);
    ensure_eq!(x == y, a == b, "{a} {b}");
    ensure!(a == b || !(x.starts_with(&y) || y.starts_with(&x)), "one is a prefix of the other: {a} {b}");
    Ok(())
}

pub fn e01() -> Vec<Section> {
    vec![
        section("large", "more than 1000 bytes", 120, 4_000, large),
        section("round_trip", "an element of any kind; non-trivial: more than four bytes", 60_000, 2_000_000, round_trip),
        section("any_bytes", "random or mutated bytes; non-trivial: accepted", 60_000, 2_000_000, any_bytes),
        section("injective", "two elements; non-trivial: they differ", 60_000, 2_000_000, injective),
    ]
}

// ------------------------------------------------------------------ E02

struct View {
    sum: i64,
    big: i128,
    count: u64,
    count_sum: (u64, i64),
    root: Option<Option<Vec<u8>>>,
    item: Option<Vec<u8>>,
    sum_item: Option<i64>,
    entries: Option<u64>,
    kind: &'static str,
    proof: usize,
}

fn view(e: &Element) -> View {
    use Element::*;
    let mut v = View { sum: 0, big: 0, count: 1, count_sum: (1, 0), root: None, item: None, sum_item: None, entries: None, kind: "", proof: 2 };
    let (c, s): (u64, i128) = match e {
        Item(b, _) => { v.item = Some(b.clone()); v.kind = "item"; v.proof = 0; (1, 0) }
        Reference(..) => { v.kind = "reference"; v.proof = 1; (1, 0) }
        Tree(k, _) => { v.root = Some(k.clone()); v.kind = "tree"; (1, 0) }
        SumItem(s, _) => { v.sum_item = Some(*s); v.kind = "sum item"; v.proof = 0; (1, *s as i128) }
        SumTree(k, s, _) => { v.root = Some(k.clone()); v.kind = "sum tree"; (1, *s as i128) }
        BigSumTree(k, s, _) => { v.root = Some(k.clone()); v.kind = "big sum tree"; (1, *s) }
        CountTree(k, c, _) => { v.root = Some(k.clone()); v.kind = "count tree"; (*c, 0) }
        CountSumTree(k, c, s, _) => { v.root = Some(k.clone()); v.kind = "count sum tree"; (*c, *s as i128) }
        ProvableCountTree(k, c, _) => { v.root = Some(k.clone()); v.kind = "provable count tree"; (*c, 0) }
        ItemWithSumItem(b, s, _) => { v.item = Some(b.clone()); v.sum_item = Some(*s); v.kind = "item with sum item"; v.proof = 0; (1, *s as i128) }
        ProvableCountSumTree(k, c, s, _) => { v.root = Some(k.clone()); v.kind = "provable count sum tree"; (*c, *s as i128) }
        CommitmentTree(c, ..) => { v.entries = Some(*c); v.kind = "commitment tree"; (1, 0) }
        MmrTree(c, _) => { v.entries = Some(*c); v.kind = "mmr tree"; (1, 0) }
        BulkAppendTree(c, ..) => { v.entries = Some(*c); v.kind = "bulk_append_tree"; (1, 0) }
        DenseAppendOnlyFixedSizeTree(c, ..) => { v.entries = Some(*c as u64); v.kind = "dense_tree"; (1, 0) }
    };
    v.big = s;
    // a 128-bit sum is not visible to 64-bit readers
    v.sum = if matches!(e, BigSumTree(..)) { 0 } else { s as i64 };
    v.count = c;
    v.count_sum = (c, v.sum);
    v
}

fn views(g: &mut G) -> R {
    let e = egen::element(g);
    let v = view(&e);
    g.note(|| format!("{e:?}"));
    g.nontrivial_if(!matches!(e, Element::Item(..)));
    ensure_eq!(e.sum_value_or_default(), v.sum, "sum of {e}");
    ensure_eq!(e.big_sum_value_or_default(), v.big, "big sum of {e}");
    ensure_eq!(e.count_value_or_default(), v.count, "count of {e}");
    ensure_eq!(e.count_sum_value_or_default(), v.count_sum, "count and sum of {e}");
    ensure_eq!(e.as_sum_item_value().ok(), v.sum_item, "sum item value of {e}");
    ensure_eq!(e.clone().into_sum_item_value().ok(), v.sum_item, "into sum item value of {e}");
    let st = matches!(e, Element::SumTree(..)).then_some(v.sum);
    ensure_eq!(e.as_sum_tree_value().ok(), st, "sum tree value of {e}");
    ensure_eq!(e.clone().into_sum_tree_value().ok(), st, "into sum tree value of {e}");
    ensure_eq!(e.as_item_bytes().ok().map(|b| b.to_vec()), v.item, "bytes of {e}");
    ensure_eq!(e.clone().into_item_bytes().ok(), v.item, "into bytes of {e}");
    let r = match &e { Element::Reference(r, ..) => Some(r.clone()), _ => None };
    ensure_eq!(e.clone().into_reference_path_type().ok(), r, "reference of {e}");
    ensure_eq!(e.is_reference(), r.is_some(), "is_reference {e}");
    ensure_eq!(e.is_sum_tree(), v.kind == "sum tree", "is_sum_tree {e}");
    ensure_eq!(e.is_big_sum_tree(), v.kind == "big sum tree", "is_big_sum_tree {e}");
    ensure_eq!(e.is_basic_tree(), v.kind == "tree", "is_basic_tree {e}");
    let tree = v.root.is_some() || v.entries.is_some();
    ensure_eq!(e.is_any_tree(), tree, "is_any_tree {e}");
    ensure_eq!(e.non_merk_entry_count(), v.entries, "entries of {e}");
    ensure_eq!(e.uses_non_merk_data_storage(), v.entries.is_some(), "non merk storage {e}");
    ensure_eq!(e.is_commitment_tree(), v.kind == "commitment tree", "is_commitment_tree {e}");
    ensure_eq!(e.is_mmr_tree(), v.kind == "mmr tree", "is_mmr_tree {e}");
    ensure_eq!(e.is_bulk_append_tree(), v.kind == "bulk_append_tree", "is_bulk_append_tree {e}");
    ensure_eq!(e.is_dense_tree(), v.kind == "dense_tree", "is_dense_tree {e}");
    let full = matches!(v.root, Some(Some(_)));
    ensure_eq!(e.is_non_empty_merk_tree(), full, "non empty merk tree {e}");
    ensure_eq!(e.is_non_empty_tree(), full || v.entries.is_some(), "non empty tree {e}");
    let item = v.item.is_some() || v.sum_item.is_some();
    ensure_eq!(e.is_any_item(), item, "is_any_item {e}");
    ensure_eq!(e.is_basic_item(), v.kind == "item", "is_basic_item {e}");
    ensure_eq!(e.has_basic_item(), v.item.is_some(), "has_basic_item {e}");
    ensure_eq!(e.is_sum_item(), v.sum_item.is_some(), "is_sum_item {e}");
    ensure_eq!(e.is_item_with_sum_item(), v.item.is_some() && v.sum_item.is_some(), "is_item_with_sum_item {e}");
    ensure_eq!(e.type_str(), v.kind, "name of {e}");

    // flags
    let stored = encode(&e);
    let f = e.get_flags().clone();
    ensure_eq!(e.clone().get_flags_owned(), f, "owned flags of {e}");
    let mut bare = e.clone();
    bare.set_flags(None);
    let mut o = encode(&bare);
    o.pop();
    match &f {
        None => o.push(0),
        Some(f) => { o.push(1); put_bytes(&mut o, f) }
    }
    ensure!(o == stored, "only the flags change: {e}");
    let nf = flags(g);
    let mut x = e.clone();
    *x.get_flags_mut() = nf.clone();
    ensure_eq!(*x.get_flags(), nf, "flags written through get_flags_mut");
    let mut y = e.clone();
    y.set_flags(nf.clone());
    ensure_eq!(x, y, "set_flags");

    // the kind, without the element
    let t = e.element_type();
    ensure_eq!(t.as_str(), v.kind, "kind name");
    ensure_eq!(t.to_string(), v.kind, "kind display");
    ensure_eq!(t.is_tree(), tree, "kind {t} is tree");
    ensure_eq!(t.is_item(), item, "kind {t} is item");
    ensure_eq!(t.is_reference(), r.is_some(), "kind {t} is reference");
    ensure_eq!(t.has_simple_value_hash(), item, "kind {t} has a simple hash");
    ensure_eq!(t.has_combined_value_hash(), !item, "kind {t} has a combined hash");
    let parent = g.bool().then(|| *g.pick(&KINDS));
    let counted = matches!(parent, Some(ElementType::ProvableCountTree | ElementType::ProvableCountSumTree));
    use ProofNodeType::*;
    let want = [[Kv, KvCount], [KvRefValueHash, KvRefValueHashCount], [KvValueHash, KvValueHashFeatureType]][v.proof][counted as usize];
    ensure_eq!(t.proof_node_type(parent), want, "proof node of {t} under {parent:?}");

    // sizes
    if let Element::Item(b, f) = &e {
        let fl = f.as_ref().map_or(0, |f| f.len()) as u32;
        let n = Element::required_item_space(b.len() as u32, fl, gv()).unwrap();
        let vl = |n: u32| if n < 128 { 1 } else if n < 16384 { 2 } else { 3 };
        let l = b.len() as u32;
        ensure_eq!(n, l + vl(l) + fl + vl(fl) + 1, "space of {l} {fl}");
    }
    // distinct elements display differently when a number differs
    ensure!(!e.to_string().is_empty(), "display");
    Ok(())
}

fn constructors(g: &mut G) -> R {
    use Element as E;
    let (k, f) = (root_key(g), flags(g));
    let (v, s, b, c, p, h) = (bytes(g), g.i64b(), g.i128b(), g.u64b(), g.byte(), g.below(65536) as u16);
    let (r, m) = (egen::reference(g), g.bool().then(|| g.byte()));
    g.nontrivial_if(f.is_some() && k.is_some());
    let pairs: Vec<(E, E)> = vec![
        (E::empty_tree(), E::Tree(None, None)),
        (E::empty_tree_with_flags(f.clone()), E::Tree(None, f.clone())),
        (E::new_tree(k.clone()), E::Tree(k.clone(), None)),
        (E::new_tree_with_flags(k.clone(), f.clone()), E::Tree(k.clone(), f.clone())),
        (E::empty_sum_tree(), E::SumTree(None, 0, None)),
        (E::empty_sum_tree_with_flags(f.clone()), E::SumTree(None, 0, f.clone())),
        (E::new_sum_tree(k.clone()), E::SumTree(k.clone(), 0, None)),
        (E::new_sum_tree_with_flags(k.clone(), f.clone()), E::SumTree(k.clone(), 0, f.clone())),
        (E::new_sum_tree_with_flags_and_sum_value(k.clone(), s, f.clone()), E::SumTree(k.clone(), s, f.clone())),
        (E::empty_big_sum_tree(), E::BigSumTree(None, 0, None)),
        (E::empty_big_sum_tree_with_flags(f.clone()), E::BigSumTree(None, 0, f.clone())),
        (E::new_big_sum_tree(k.clone()), E::BigSumTree(k.clone(), 0, None)),
        (E::new_big_sum_tree_with_flags(k.clone(), f.clone()), E::BigSumTree(k.clone(), 0, f.clone())),
        (E::new_big_sum_tree_with_flags_and_sum_value(k.clone(), b, f.clone()), E::BigSumTree(k.clone(), b, f.clone())),
        (E::empty_count_tree(), E::CountTree(None, 0, None)),
        (E::empty_count_tree_with_flags(f.clone()), E::CountTree(None, 0, f.clone())),
        (E::new_count_tree(k.clone()), E::CountTree(k.clone(), 0, None)),
        (E::new_count_tree_with_flags(k.clone(), f.clone()), E::CountTree(k.clone(), 0, f.clone())),
        (E::new_count_tree_with_flags_and_count_value(k.clone(), c, f.clone()), E::CountTree(k.clone(), c, f.clone())),
        (E::empty_count_sum_tree(), E::CountSumTree(None, 0, 0, None)),
        (E::empty_count_sum_tree_with_flags(f.clone()), E::CountSumTree(None, 0, 0, f.clone())),
        (E::new_count_sum_tree(k.clone()), E::CountSumTree(k.clone(), 0, 0, None)),
        (E::new_count_sum_tree_with_flags(k.clone(), f.clone()), E::CountSumTree(k.clone(), 0, 0, f.clone())),
        (E::new_count_sum_tree_with_flags_and_sum_and_count_value(k.clone(), c, s, f.clone()), E::CountSumTree(k.clone(), c, s, f.clone())),
        (E::empty_provable_count_tree(), E::ProvableCountTree(None, 0, None)),
        (E::empty_provable_count_tree_with_flags(f.clone()), E::ProvableCountTree(None, 0, f.clone())),
        (E::new_provable_count_tree(k.clone()), E::ProvableCountTree(k.clone(), 0, None)),
        (E::new_provable_count_tree_with_flags(k.clone(), f.clone()), E::ProvableCountTree(k.clone(), 0, f.clone())),
        (E::new_provable_count_tree_with_flags_and_count_value(k.clone(), c, f.clone()), E::ProvableCountTree(k.clone(), c, f.clone())),
        (E::empty_provable_count_sum_tree(), E::ProvableCountSumTree(None, 0, 0, None)),
        (E::empty_provable_count_sum_tree_with_flags(f.clone()), E::ProvableCountSumTree(None, 0, 0, f.clone())),
        (E::new_provable_count_sum_tree(k.clone()), E::ProvableCountSumTree(k.clone(), 0, 0, None)),
        (E::new_provable_count_sum_tree_with_flags(k.clone(), f.clone()), E::ProvableCountSumTree(k.clone(), 0, 0, f.clone())),
        (E::new_provable_count_sum_tree_with_flags_and_sum_and_count_value(k.clone(), c, s, f.clone()), E::ProvableCountSumTree(k, c, s, f.clone())),
        (E::new_item(v.clone()), E::Item(v.clone(), None)),
        (E::new_item_with_flags(v.clone(), f.clone()), E::Item(v.clone(), f.clone())),
        (E::new_sum_item(s), E::SumItem(s, None)),
        (E::new_sum_item_with_flags(s, f.clone()), E::SumItem(s, f.clone())),
        (E::new_item_with_sum_item(v.clone(), s), E::ItemWithSumItem(v.clone(), s, None)),
        (E::new_item_with_sum_item_with_flags(v.clone(), s, f.clone()), E::ItemWithSumItem(v, s, f.clone())),
        (E::new_reference(r.clone()), E::Reference(r.clone(), None, None)),
        (E::new_reference_with_flags(r.clone(), f.clone()), E::Reference(r.clone(), None, f.clone())),
        (E::new_reference_with_hops(r.clone(), m), E::Reference(r.clone(), m, None)),
        (E::new_reference_with_max_hops_and_flags(r.clone(), m, f.clone()), E::Reference(r, m, f.clone())),
        (E::new_commitment_tree(c, p, f.clone()), E::CommitmentTree(c, p, f.clone())),
        (E::empty_mmr_tree(), E::MmrTree(0, None)),
        (E::empty_mmr_tree_with_flags(f.clone()), E::MmrTree(0, f.clone())),
        (E::new_mmr_tree(c, f.clone()), E::MmrTree(c, f.clone())),
        (E::new_bulk_append_tree(c, p, f.clone()), E::BulkAppendTree(c, p, f.clone())),
        (E::empty_dense_tree(p), E::DenseAppendOnlyFixedSizeTree(0, p, None)),
        (E::empty_dense_tree_with_flags(p, f.clone()), E::DenseAppendOnlyFixedSizeTree(0, p, f.clone())),
        (E::new_dense_tree(h, p, f.clone()), E::DenseAppendOnlyFixedSizeTree(h, p, f.clone())),
    ];
    for (i, (a, b)) in pairs.into_iter().enumerate() {
        ensure_eq!(a, b, "constructor {i}");
    }
    let ok = p <= 31;
    ensure_eq!(E::empty_commitment_tree(p).ok(), ok.then_some(E::CommitmentTree(0, p, None)), "commitment tree {p}");
    ensure_eq!(E::empty_commitment_tree_with_flags(p, f.clone()).ok(), ok.then_some(E::CommitmentTree(0, p, f.clone())), "commitment tree {p}");
    ensure_eq!(E::empty_bulk_append_tree(p).ok(), ok.then_some(E::BulkAppendTree(0, p, None)), "bulk append tree {p}");
    ensure_eq!(E::empty_bulk_append_tree_with_flags(p, f.clone()).ok(), ok.then_some(E::BulkAppendTree(0, p, f)), "bulk append tree {p}");
    Ok(())
}

pub fn e02() -> Vec<Section> {
    vec![
        section("views", "an element of any kind; non-trivial: not a plain item", 60_000, 2_000_000, views),
        section("constructors", "arguments for every constructor; non-trivial: with flags and a root key", 10_000, 100_000, constructors),
    ]
}

// ------------------------------------------------------------------ R01

type Path = Vec<Vec<u8>>;

/// Where a reference stored at `path`/`key` points.
pub fn target(r: &ReferencePathType, path: &Path, key: &[u8]) -> Option<Path> {
    use ReferencePathType::*;
    let join = |a: &[Vec<u8>], b: &[Vec<u8>], c: Option<Vec<u8>>| -> Path { a.iter().chain(b).cloned().chain(c).collect() };
    let n = path.len();
    Some(match r {
        AbsolutePathReference(p) => p.clone(),
        UpstreamRootHeightReference(k, p) => join(path.get(..*k as usize)?, p, None),
        UpstreamRootHeightWithParentPathAdditionReference(k, p) => join(path.get(..*k as usize)?, p, Some(path.last()?.clone())),
        UpstreamFromElementHeightReference(k, p) => join(&path[..n.checked_sub(*k as usize)?], p, None),
        CousinReference(c) => join(&path[..n.checked_sub(1)?], &[c.clone()], Some(key.to_vec())),
        RemovedCousinReference(c) => join(&path[..n.checked_sub(1)?], c, Some(key.to_vec())),
        SiblingReference(s) => join(path, &[s.clone()], None),
    })
}

fn append(r: &ReferencePathType) -> Option<&Path> {
    use ReferencePathType::*;
    match r {
        UpstreamRootHeightReference(_, p) | UpstreamFromElementHeightReference(_, p) => Some(p),
        _ => None,
    }
}

fn resolve(g: &mut G) -> R {
    let r = egen::reference(g);
    let (path, key) = (segs(g), bytes(g));
    resolve_at(g, r, path, key)
}

/// A path of many short segments.
fn long(g: &mut G) -> Path {
    let n = match g.below(4) { 0 => g.size(0, 12), 1 => g.size(4, 40), 2 => g.size(100, 300), _ => g.size(250, 260) };
    let (a, b) = (g.byte(), g.byte());
    (0..n).map(|i| vec![(i as u8).wrapping_mul(a) ^ b]).collect()
}

fn segment(g: &mut G) -> Vec<u8> {
    if g.bool() { bytes(g) } else { let n = g.size(100, 300); g.blob(n) }
}

fn resolve_deep(g: &mut G) -> R {
    use ReferencePathType::*;
    let (path, key) = (long(g), bytes(g));
    let few = |g: &mut G| if g.bool() { segs(g) } else { long(g) };
    let hops = if g.bool() { g.byte() } else { (path.len() as u64).saturating_sub(g.below(3)).min(255) as u8 };
    let r = match g.below(7) {
        0 => AbsolutePathReference(few(g)),
        1 => UpstreamRootHeightReference(hops, few(g)),
        2 => UpstreamRootHeightWithParentPathAdditionReference(hops, few(g)),
        3 => UpstreamFromElementHeightReference(hops, few(g)),
        4 => CousinReference(segment(g)),
        5 => RemovedCousinReference(few(g)),
        _ => SiblingReference(segment(g)),
    };
    resolve_at(g, r, path, key)
}

fn resolve_at(g: &mut G, r: ReferencePathType, path: Path, key: Vec<u8>) -> R {
    use ReferencePathType::*;
    g.note(|| format!("{r:?} at {path:?} {key:?}"));
    let want = target(&r, &path, &key);
    g.nontrivial_if(want.is_some() && !matches!(r, ReferencePathType::AbsolutePathReference(_)));
    let seg = |s: &Vec<u8>| s.len() + match s.len() { 0..=127 => 1, 128..=16_383 => 2, _ => 3 };
    let size = match &r {
        AbsolutePathReference(p) | RemovedCousinReference(p) => 1 + p.iter().map(seg).sum::<usize>(),
        UpstreamRootHeightReference(_, p) | UpstreamRootHeightWithParentPathAdditionReference(_, p) | UpstreamFromElementHeightReference(_, p) => 2 + p.iter().map(seg).sum::<usize>(),
        CousinReference(s) | SiblingReference(s) => 1 + seg(s),
    };
    ensure_eq!(r.serialized_size(), size, "size of {r:?}");
    let slices: Vec<&[u8]> = path.iter().map(|s| s.as_slice()).collect();
    ensure_eq!(path_from_reference_path_type(r.clone(), &path, Some(&key)).ok(), want, "{r:?} at {path:?}/{key:?}");
    ensure_eq!(r.clone().absolute_path(&slices, Some(&key)).ok(), want, "absolute_path {r:?}");
    let mut q = path.clone();
    q.push(key.clone());
    ensure_eq!(path_from_reference_qualified_path_type(r.clone(), &q).ok(), want, "qualified {r:?} at {q:?}");
    ensure_eq!(r.clone().absolute_path_using_current_qualified_path(&q).ok(), want, "current qualified {r:?}");
    ensure!(path_from_reference_qualified_path_type::<Vec<u8>>(r.clone(), &[]).is_err(), "resolved from nowhere");
    let keyless = match r {
        ReferencePathType::CousinReference(_) | ReferencePathType::RemovedCousinReference(_) => None,
        _ => want.clone(),
    };
    ensure_eq!(path_from_reference_path_type(r.clone(), &path, None).ok(), keyless, "{r:?} without a key");
    let b: SubtreePathBuilder<Vec<u8>> = match g.below(3) {
        0 => SubtreePath::from(path.as_slice()).derive_owned(),
        1 => SubtreePathBuilder::owned_from_iter(&path),
        _ => {
            let mut b = SubtreePath::from(&path[..path.len() / 2]).derive_owned();
            for s in &path[path.len() / 2..] { b.push_segment(s) }
            b
        }
    };
    match r.clone().absolute_qualified_path(b, &key) {
        Ok(p) => {
            ensure_eq!(Some(p.to_vec()), want, "absolute_qualified_path {r:?} at {path:?}/{key:?}");
            ensure_eq!(p.is_root(), p.to_vec().is_empty(), "root");
        }
        Err(_) => ensure!(want.is_none(), "absolute_qualified_path refused {r:?} at {path:?}"),
    }
    // inverting leads back from where it points
    if let Some(t) = want.clone() {
        if let (Some((tk, tp)), false) = (t.split_last(), append(&r).is_some_and(|a| a.is_empty())) {
            match r.invert(SubtreePath::from(path.as_slice()), &key) {
                // the way back would take more steps than can be written
                None => ensure!(
                    matches!(&r, UpstreamFromElementHeightReference(_, p) | RemovedCousinReference(p) if p.len() > 255),
                    "no inverse of {r:?} at {path:?}"
                ),
                Some(i) => ensure_eq!(target(&i, &tp.to_vec(), tk), Some(q.clone()), "{r:?} at {path:?}/{key:?} inverted to {i:?} at {t:?}"),
            }
        }
    }
    // the same reference made absolute points to the same place
    let hop = g.bool().then(|| g.byte());
    let e = Element::Reference(r.clone(), hop, flags(g));
    match e.clone().convert_if_reference_to_absolute_reference(&slices, Some(&key)) {
        Err(_) => ensure!(want.is_none(), "conversion refused {r:?}"),
        Ok(c) => {
            let Some(w) = want else { fail!("converted unresolvable {r:?} at {path:?}") };
            ensure_eq!(c, Element::Reference(ReferencePathType::AbsolutePathReference(w), hop, e.get_flags().clone()), "converted");
        }
    }
    let o = egen::element(g);
    if !o.is_reference() {
        ensure_eq!(o.clone().convert_if_reference_to_absolute_reference(&slices, Some(&key)).ok(), Some(o.clone()), "not a reference");
    }
    Ok(())
}

pub fn r01() -> Vec<Section> {
    vec![section(
        "resolve",
        "a reference of any kind stored at a path and key; non-trivial: relative, and it resolves",
        150_000,
        3_000_000,
        resolve,
    ),
    section("deep", "as above, where paths have up to 300 segments", 4_000, 60_000, resolve_deep)]
}
