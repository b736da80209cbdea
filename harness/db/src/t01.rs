//! T01: every view of what kind of tree an element is, and of what it counts for, agrees with the kind.
use crate::egen;
use crate::mk::h_value;
use grovedb_element::{Element, ElementType};
use grovedb_merk::element::costs::ElementCostExtensions;
use grovedb_merk::element::tree_type::ElementTreeTypeExtensions;
use grovedb_merk::element::ElementExt;
use grovedb_merk::merk::NodeType;
use grovedb_merk::tree::kv::{ValueDefinedCostType as Cost, KV};
use grovedb_merk::tree::AggregateData;
use grovedb_merk::tree_type::{CostSize, MaybeTree, TreeType};
use grovedb_merk::TreeFeatureType as F;
use grovedb_version::version::GroveVersion;
use vp::*;

/// One line per kind of tree: number, type, element type, sums, counts, provable, flat, bytes charged.
struct Row { t: TreeType, e: ElementType, n: NodeType, sum: u8, count: bool, provable: bool, flat: bool, size: u32, name: &'static str }
fn table(p: u8) -> [Row; 11] {
    let r = |t, e, n, sum, count, provable, flat, size, name| Row { t, e, n, sum, count, provable, flat, size, name };
    use NodeType::*;
    [
        r(TreeType::NormalTree, ElementType::Tree, NormalNode, 0, false, false, false, 3, "Normal Tree"),
        r(TreeType::SumTree, ElementType::SumTree, SumNode, 1, false, false, false, 12, "Sum Tree"),
        r(TreeType::BigSumTree, ElementType::BigSumTree, BigSumNode, 2, false, false, false, 19, "Big Sum Tree"),
        r(TreeType::CountTree, ElementType::CountTree, CountNode, 0, true, false, false, 12, "Count Tree"),
        r(TreeType::CountSumTree, ElementType::CountSumTree, CountSumNode, 1, true, false, false, 21, "Count Sum Tree"),
        r(TreeType::ProvableCountTree, ElementType::ProvableCountTree, ProvableCountNode, 0, true, true, false, 12, "Provable Count Tree"),
        r(TreeType::ProvableCountSumTree, ElementType::ProvableCountSumTree, ProvableCountSumNode, 1, true, true, false, 21, "Provable Count Sum Tree"),
        r(TreeType::CommitmentTree(p), ElementType::CommitmentTree, NormalNode, 0, false, false, true, 12, "Commitment Tree"),
        r(TreeType::MmrTree, ElementType::MmrTree, NormalNode, 0, false, false, true, 11, "MMR Tree"),
        r(TreeType::BulkAppendTree(p), ElementType::BulkAppendTree, NormalNode, 0, false, false, true, 12, "BulkAppendTree"),
        r(TreeType::DenseAppendOnlyFixedSizeTree(p), ElementType::DenseAppendOnlyFixedSizeTree, NormalNode, 0, false, false, true, 6, "Dense Tree"),
    ]
}
/// A node's feature in a tree of that row, for a count and a sum.
fn feature(r: &Row, count: u64, sum: i128) -> F {
    let s = sum as i64;
    match (r.sum, r.count, r.provable) {
        (0, false, _) => F::BasicMerkNode,
        (1, false, _) => F::SummedMerkNode(s),
        (2, _, _) => F::BigSummedMerkNode(sum),
        (0, true, false) => F::CountedMerkNode(count),
        (0, true, true) => F::ProvableCountedMerkNode(count),
        (_, _, false) => F::CountedSummedMerkNode(count, s),
        (_, _, true) => F::ProvableCountedSummedMerkNode(count, s),
    }
}
fn aggregate(f: &F) -> (AggregateData, usize, u64, i128) {
    match *f {
        F::BasicMerkNode => (AggregateData::NoAggregateData, 0, 0, 0),
        F::SummedMerkNode(s) => (AggregateData::Sum(s), 1, 0, s as i128),
        F::BigSummedMerkNode(s) => (AggregateData::BigSum(s), 2, 0, s),
        F::CountedMerkNode(c) => (AggregateData::Count(c), 3, c, 0),
        F::CountedSummedMerkNode(c, s) => (AggregateData::CountAndSum(c, s), 4, c, s as i128),
        F::ProvableCountedMerkNode(c) => (AggregateData::ProvableCount(c), 5, c, 0),
        F::ProvableCountedSummedMerkNode(c, s) => (AggregateData::ProvableCountAndSum(c, s), 6, c, s as i128),
    }
}
fn same<T: std::fmt::Debug>(a: T, b: T, what: &str) -> R {
    let (a, b) = (format!("{a:?}"), format!("{b:?}"));
    ensure!(a == b, "{what}: {a}, expected {b}");
    Ok(())
}

/// What the element says of itself.
struct Is { tree: Option<usize>, power: u8, root: Option<Vec<u8>>, flags: Option<Vec<u8>>, count: u64, sum: i128, own: (u64, i128), item: Option<Vec<u8>> }
fn is(e: &Element) -> Is {
    use Element::*;
    let none = Is { tree: None, power: 0, root: None, flags: None, count: 0, sum: 0, own: (1, 0), item: None };
    let tree = |i, r: &Option<Vec<u8>>, f: &Option<Vec<u8>>, c: Option<u64>, s: i128| Is {
        tree: Some(i), root: r.clone(), flags: f.clone(), count: c.unwrap_or(0), sum: s, own: (c.unwrap_or(1), s), power: 0, item: None,
    };
    match e {
        Item(v, f) => Is { flags: f.clone(), item: Some(v.clone()), ..none },
        Reference(_, _, f) => Is { flags: f.clone(), ..none },
        SumItem(s, f) => Is { flags: f.clone(), own: (1, *s as i128), ..none },
        ItemWithSumItem(v, s, f) => Is { flags: f.clone(), own: (1, *s as i128), item: Some(v.clone()), ..none },
        Tree(r, f) => tree(0, r, f, None, 0),
        SumTree(r, s, f) => tree(1, r, f, None, *s as i128),
        BigSumTree(r, s, f) => tree(2, r, f, None, *s),
        CountTree(r, c, f) => tree(3, r, f, Some(*c), 0),
        CountSumTree(r, c, s, f) => tree(4, r, f, Some(*c), *s as i128),
        ProvableCountTree(r, c, f) => tree(5, r, f, Some(*c), 0),
        ProvableCountSumTree(r, c, s, f) => tree(6, r, f, Some(*c), *s as i128),
        CommitmentTree(_, p, f) => Is { power: *p, ..tree(7, &None, f, None, 0) },
        MmrTree(_, f) => tree(8, &None, f, None, 0),
        BulkAppendTree(_, p, f) => Is { power: *p, ..tree(9, &None, f, None, 0) },
        DenseAppendOnlyFixedSizeTree(_, p, f) => Is { power: *p, ..tree(10, &None, f, None, 0) },
    }
}
fn varint(n: usize) -> u32 {
    let mut k = 1;
    let mut n = n >> 7;
    while n > 0 { k += 1; n >>= 7 }
    k
}
fn blob(n: usize) -> u32 {
    n as u32 + varint(n)
}

fn elements(g: &mut G) -> R {
    let v = GroveVersion::latest();
    let e = egen::element(g);
    g.note(|| format!("{e:?}"));
    let i = is(&e);
    let rows = table(i.power);
    let row = i.tree.map(|n| &rows[n]);
    let t = row.map(|r| r.t);
    g.nontrivial_if(row.is_some());
    if let Some(r) = row { g.label(r.name) }
    same(e.tree_type(), t, "tree type")?;
    same(e.maybe_tree_type(), t.map_or(MaybeTree::NotTree, MaybeTree::Tree), "maybe tree type")?;
    same(e.clone().root_key_and_tree_type_owned(), t.map(|t| (i.root.clone(), t)), "owned root key and type")?;
    same(e.root_key_and_tree_type(), t.map(|t| (&i.root, t)), "root key and type")?;
    same(e.tree_flags_and_type(), t.map(|t| (&i.flags, t)), "flags and type")?;
    same(e.tree_feature_type(), row.map(|r| feature(r, i.count, i.sum)), "what the tree holds")?;
    let big = i.tree == Some(2);
    for r in &table(g.byte()) {
        // a sum of 128 bits has no value in a tree of 64 bits
        let sum = if big && r.sum == 1 { 0 } else { i.own.1 };
        let want = feature(r, i.own.0, sum);
        match e.get_feature_type(r.t) {
            Ok(f) => same(f, want, &format!("{e} in a {}", r.name))?,
            Err(x) => fail!("{e} in a {}: {x}", r.name),
        }
    }
    // hash and charged sizes
    let bytes = egen::encode(&e);
    ensure_eq!(e.value_hash(v).unwrap().ok(), Some(h_value(&bytes)), "value hash");
    let flags = i.flags.as_ref().map_or(0, |f| blob(f.len()));
    let cost = match (&row, &i.item, e.element_type()) {
        (Some(r), ..) => Some(Cost::LayeredValueDefinedCost(r.size + flags)),
        (_, Some(b), ElementType::ItemWithSumItem) => Some(Cost::SpecializedValueDefinedCost(11 + flags + blob(b.len()))),
        (_, _, ElementType::SumItem) => Some(Cost::SpecializedValueDefinedCost(11 + flags)),
        _ => None,
    };
    same(e.value_defined_cost(v).as_ref(), cost.as_ref(), "value cost")?;
    same(Element::value_defined_cost_for_serialized_value(&bytes, v).as_ref(), cost.as_ref(), "value cost of the bytes")?;
    same(e.layered_value_defined_cost(v), match &cost { Some(Cost::LayeredValueDefinedCost(c)) => Some(*c), _ => None }, "layered cost")?;
    same(e.specialized_value_defined_cost(v), match &cost { Some(Cost::SpecializedValueDefinedCost(c)) => Some(*c), _ => None }, "specialized cost")?;
    let key = g.bytes(1, 40);
    let n = g.pick(&rows).n;
    let want = match cost {
        Some(Cost::LayeredValueDefinedCost(c)) => KV::layered_value_byte_cost_size_for_key_and_value_lengths(key.len() as u32, c, n),
        Some(Cost::SpecializedValueDefinedCost(c)) => KV::node_value_byte_cost_size(key.len() as u32, c, n),
        None => KV::node_value_byte_cost_size(key.len() as u32, bytes.len() as u32, n),
    };
    same(Element::specialized_costs_for_key_value(&key, &bytes, n, v).ok(), Some(want), "size charged for key and value")?;
    Ok(())
}

fn types(g: &mut G) -> R {
    let n = g.byte();
    let n = if g.bool() { n % 14 } else { n };
    let p = g.byte();
    g.note(|| format!("number {n} power {p}"));
    let rows = table(0);
    same(TreeType::try_from(n).ok(), rows.get(n as usize).map(|r| r.t), &format!("type of number {n}"))?;
    g.nontrivial_if((n as usize) < rows.len());
    let rows = table(p);
    for (i, r) in rows.iter().enumerate() {
        same(r.t.discriminant() as usize, i, r.name)?;
        same(r.t.to_string().as_str(), r.name, "name")?;
        same(r.t.to_element_type(), Some(r.e), r.name)?;
        same(r.t.uses_non_merk_data_storage(), r.flat, r.name)?;
        same(r.t.allows_sum_item(), r.sum > 0, r.name)?;
        same(r.t.inner_node_type(), r.n, r.name)?;
        same(r.t.cost_size(), r.size, r.name)?;
        same(r.t.empty_tree_feature_type(), feature(r, 0, 0), r.name)?;
        same(r.n.cost(), [0, 8, 16][r.sum as usize] + 8 * r.count as u32, r.name)?;
        same(r.n.feature_len(), 1 + r.n.cost(), r.name)?;
    }
    Ok(())
}

fn aggregates(g: &mut G) -> R {
    let rows = table(0);
    let i = g.below(7) as usize;
    let f = feature(&rows[i], g.u64b(), if g.bool() { g.i128b() } else { g.i64b() as i128 });
    g.note(|| format!("{f:?}"));
    let (a, parent, count, sum) = aggregate(&f);
    g.nontrivial_if(count != 0 || sum != 0);
    same(AggregateData::from(f), a, "aggregate")?;
    same(a.parent_tree_type(), rows[parent].t, "tree")?;
    ensure_eq!(f.node_type(), rows[parent].n, "node type");
    ensure_eq!(a.as_count_u64(), count, "count");
    ensure_eq!(a.as_summed_i128(), sum, "sum");
    ensure_eq!(a.as_sum_i64(), sum.clamp(i64::MIN as i128, i64::MAX as i128) as i64, "64-bit sum");
    Ok(())
}

pub fn sections() -> Vec<Section> {
    vec![
        section("elements", "the element is a tree", 30_000, 2_000_000, elements),
        section("types", "the number is one of a tree type", 3_000, 20_000, types),
        section("aggregates", "the count or the sum is not zero", 20_000, 500_000, aggregates),
    ]
}
