//! Q03: queries and proof operations survive encoding. U01: everything can be printed.
use crate::egen;
use crate::ogen::*;
use crate::qgen::*;
use ed::{Decode as _, Encode as _};
use grovedb_costs::TreeCostType;
use grovedb_path::{SubtreePath, SubtreePathBuilder};
use grovedb_query::proofs::{encode_into, Decoder};
use grovedb_query::proofs::{Node, NodeType, Op, TreeFeatureType};
use grovedb_query::*;
use grovedb_visualize::{to_hex, visualize_to_vec, DebugByteVectors, DebugBytes, Drawer};
use vp::*;

// ---- reference encoding of queries

fn put_item(o: &mut Vec<u8>, i: &QueryItem) {
    use egen::put_bytes as b;
    match i {
        QueryItem::Key(k) => { o.push(0); b(o, k) }
        QueryItem::Range(r) => { o.push(1); b(o, &r.start); b(o, &r.end) }
        QueryItem::RangeInclusive(r) => { o.push(2); b(o, r.start()); b(o, r.end()) }
        QueryItem::RangeFull(_) => o.push(3),
        QueryItem::RangeFrom(r) => { o.push(4); b(o, &r.start) }
        QueryItem::RangeTo(r) => { o.push(5); b(o, &r.end) }
        QueryItem::RangeToInclusive(r) => { o.push(6); b(o, &r.end) }
        QueryItem::RangeAfter(r) => { o.push(7); b(o, &r.start) }
        QueryItem::RangeAfterTo(r) => { o.push(8); b(o, &r.start); b(o, &r.end) }
        QueryItem::RangeAfterToInclusive(r) => { o.push(9); b(o, r.start()); b(o, r.end()) }
    }
}
fn put_branch(o: &mut Vec<u8>, b: &SubqueryBranch) {
    match &b.subquery_path {
        None => o.push(0),
        Some(p) => { o.push(1); egen::put_uint(o, p.len() as u128); for s in p { egen::put_bytes(o, s) } }
    }
    match &b.subquery {
        None => o.push(0),
        Some(q) => { o.push(1); put_query(o, q) }
    }
}
fn put_query(o: &mut Vec<u8>, q: &Query) {
    o.push(1);
    egen::put_uint(o, q.items.len() as u128);
    for i in &q.items { put_item(o, i) }
    put_branch(o, &q.default_subquery_branch);
    match &q.conditional_subquery_branches {
        None => o.push(0),
        Some(c) => {
            o.push(1);
            egen::put_uint(o, c.len() as u128);
            for (i, b) in c { put_item(o, i); put_branch(o, b) }
        }
    }
    o.push(q.left_to_right as u8);
    o.push(q.add_parent_tree_on_subquery as u8);
}
fn cfg() -> impl bincode::config::Config {
    bincode::config::standard().with_big_endian().with_limit::<{ 1 << 24 }>()
}
fn enc<T: bincode::Encode>(t: &T) -> Result<Vec<u8>, String> {
    bincode::encode_to_vec(t, cfg()).map_err(|e| e.to_string())
}
fn dec<T: bincode::Decode<()>>(b: &[u8]) -> Result<(T, usize), String> {
    bincode::decode_from_slice(b, cfg()).map_err(|e| e.to_string())
}
fn bdec<'a, T: bincode::BorrowDecode<'a, ()>>(b: &'a [u8]) -> Result<(T, usize), String> {
    bincode::borrow_decode_from_slice(b, cfg()).map_err(|e| e.to_string())
}
fn long_item(g: &mut G) -> QueryItem {
    item_over(g, |g| egen::bytes(g))
}
fn nested(g: &mut G) -> Query {
    // deep chains too, up to the documented 64 levels
    if g.chance(1, 10) {
        let n = g.range(3, 64);
        let mut q = any_query(g, 0);
        for _ in 0..n {
            let mut p = Query::new_with_direction(g.bool());
            if g.chance(1, 3) {
                p.add_conditional_subquery(item(g), None, Some(q));
            } else {
                p.set_subquery(q);
            }
            q = p;
        }
        return q;
    }
    let mut q = any_query(g, 3);
    if g.chance(1, 3) { let i = long_item(g); q.items.push(i) }
    q
}

fn queries(g: &mut G) -> R {
    let q = nested(g);
    g.note(|| show(&q));
    g.nontrivial_if(q.has_subquery() && !q.items.is_empty());
    let mut want = vec![];
    put_query(&mut want, &q);
    let b = enc(&q)?;
    ensure!(b == want, "{} encoded as {} expected {}", show(&q), hex(&b), hex(&want));
    ensure_eq!(dec::<Query>(&b), Ok((q.clone(), b.len())), "decoded {}", hex(&b));
    ensure_eq!(bdec::<Query>(&b), Ok((q.clone(), b.len())), "borrowed decode {}", hex(&b));
    // order of conditional branches matters, so it is kept
    let order = |q: &Query| q.conditional_subquery_branches.as_ref().map(|c| c.keys().cloned().collect::<Vec<_>>());
    ensure_eq!(order(&dec::<Query>(&b)?.0), order(&q), "order of conditional branches");
    let k = g.below(b.len() as u64) as usize;
    ensure!(dec::<Query>(&b[..k]).is_err(), "{k} bytes of {} decoded", hex(&b));
    ensure!(bdec::<Query>(&b[..k]).is_err(), "{k} bytes of {} decoded", hex(&b));
    let mut bad = b.clone();
    bad[0] = *g.pick(&[0, 2, 3, 255]);
    ensure!(dec::<Query>(&bad).is_err() && bdec::<Query>(&bad).is_err(), "version {} decoded", bad[0]);
    let br = any_branch(g, 2);
    let mut want = vec![];
    put_branch(&mut want, &br);
    let b = enc(&br)?;
    ensure!(b == want, "{} encoded as {} expected {}", show_branch(&br), hex(&b), hex(&want));
    ensure_eq!(dec::<SubqueryBranch>(&b), Ok((br.clone(), b.len())), "branch {}", hex(&b));
    ensure_eq!(bdec::<SubqueryBranch>(&b), Ok((br, b.len())), "branch {}", hex(&b));
    let i = long_item(g);
    let mut want = vec![];
    put_item(&mut want, &i);
    let b = enc(&i)?;
    ensure!(b == want, "{} encoded as {} expected {}", show_item(&i), hex(&b), hex(&want));
    ensure_eq!(dec::<QueryItem>(&b), Ok((i.clone(), b.len())), "item {}", hex(&b));
    ensure_eq!(bdec::<QueryItem>(&b), Ok((i.clone(), b.len())), "item {}", hex(&b));
    let mut s = AggregateSumQuery::new(g.u64b(), if g.bool() { Some(g.below(1 << 16) as u16) } else { None });
    s.left_to_right = g.bool();
    s.items = g.list(0, 3, long_item);
    let b = enc(&s)?;
    ensure_eq!(dec::<AggregateSumQuery>(&b), Ok((s.clone(), b.len())), "sum query {}", hex(&b));
    ensure_eq!(bdec::<AggregateSumQuery>(&b), Ok((s, b.len())), "sum query {}", hex(&b));
    Ok(())
}

fn has_map(q: &Query) -> bool {
    let sub = |b: &SubqueryBranch| b.subquery.as_ref().is_some_and(|q| has_map(q));
    q.conditional_subquery_branches.as_ref().is_some_and(|c| !c.is_empty())
        || sub(&q.default_subquery_branch)
}
fn json(g: &mut G) -> R {
    let i = long_item(g);
    g.note(|| show_item(&i));
    g.nontrivial();
    let j = serde_json::to_string(&i).map_err(|e| format!("to json: {e}"))?;
    let back: Result<QueryItem, _> = serde_json::from_str(&j);
    ensure_eq!(back.map_err(|e| e.to_string()), Ok(i.clone()), "through json {j}");
    let v = serde_json::to_value(&i).map_err(|e| format!("to json: {e}"))?;
    ensure_eq!(serde_json::from_value::<QueryItem>(v).map_err(|e| e.to_string()), Ok(i.clone()), "through a json value {j}");
    // JSON cannot hold conditional branches (their keys are not strings)
    let q = any_query(g, 2);
    if !has_map(&q) {
        let j = serde_json::to_string(&q).map_err(|e| format!("to json: {e}"))?;
        let back: Result<Query, _> = serde_json::from_str(&j);
        ensure_eq!(back.map_err(|e| e.to_string()), Ok(q), "through json {j}");
    }
    let mut s = AggregateSumQuery::new(g.u64b(), None);
    s.items.push(i);
    let j = serde_json::to_string(&s).map_err(|e| format!("to json: {e}"))?;
    let back: Result<AggregateSumQuery, _> = serde_json::from_str(&j);
    ensure_eq!(back.map_err(|e| e.to_string()), Ok(s), "through json {j}");
    Ok(())
}

fn mutate(g: &mut G, b: &mut Vec<u8>) {
    for _ in 0..g.size(0, 4) {
        if b.is_empty() { return }
        let i = g.below(b.len() as u64) as usize;
        match g.below(6) {
            0 => b[i] = g.byte(),
            1 => b[i] ^= 1 << g.below(8),
            2 => { b.remove(i); }
            3 => { let x = g.byte(); b.insert(i, x) }
            4 => b[i] = *g.pick(&[0, 1, 2, 3, 0x20, 0x2f, 250, 251, 252, 253, 254, 255]),
            _ => { let n = g.size(1, 9); let x = vec![*g.pick(&[255u8, 253, 1, 0]); n]; for y in x { b.insert(i, y) } }
        }
    }
}

fn any_query_bytes(g: &mut G) -> R {
    let mut b = if g.chance(3, 4) { let mut o = vec![]; put_query(&mut o, &nested(g)); o } else { g.bytes(0, 40) };
    if g.chance(1, 10) {
        // far deeper than allowed
        let n = g.range(60, 4000);
        b = vec![];
        for _ in 0..n { b.extend([1, 0, 0, 1]) }
        if g.bool() { put_query(&mut b, &Query::new()); for _ in 0..n { b.extend([0, 1, 0]) } }
    }
    mutate(g, &mut b);
    g.note(|| hex(&b));
    alloc_reset();
    let r = match no_panic(|| dec::<Query>(&b)) { Ok(r) => r, Err(p) => fail!("panic on {}: {p}", hex(&b)) };
    let s = match no_panic(|| bdec::<Query>(&b)) { Ok(r) => r, Err(p) => fail!("panic on {}: {p}", hex(&b)) };
    let peak = alloc_peak();
    ensure!(peak < (64 << 20) + 1024 * b.len(), "{} bytes made it allocate {peak}", b.len());
    ensure_eq!(r.is_ok(), s.is_ok(), "owned and borrowed decoding of {}", hex(&b));
    if let (Ok((q, n)), Ok((q2, n2))) = (r, s) {
        g.nontrivial();
        ensure_eq!((&q, n), (&q2, n2), "owned and borrowed decoding of {}", hex(&b));
        let mut o = vec![];
        put_query(&mut o, &q);
        ensure!(o.len() <= n, "{} decoded to more than it holds", hex(&b));
        ensure_eq!(dec::<Query>(&o), Ok((q, o.len())), "again {}", hex(&b));
    }
    for r in [no_panic(|| dec::<AggregateSumQuery>(&b).is_ok()), no_panic(|| bdec::<AggregateSumQuery>(&b).is_ok()),
        no_panic(|| dec::<QueryItem>(&b).is_ok()), no_panic(|| dec::<SubqueryBranch>(&b).is_ok())] {
        if let Err(p) = r { fail!("panic on {}: {p}", hex(&b)) }
    }
    Ok(())
}

/// Nesting beyond the limit is an error, never a crash; just below it decodes.
fn depth_limit(g: &mut G) -> R {
    let n = if g.bool() { g.range(62, 68) } else { g.range(0, 3000) };
    let cond = g.bool();
    let mut b = vec![];
    for _ in 0..n {
        // an empty query whose subquery follows, directly or under a condition, also below a path
        b.extend([1, 0]);
        if cond { b.extend([0, 0, 1, 1, 3]) }
        if g.bool() { b.extend([1, 1, 1, 7, 1]) } else { b.extend([0, 1]) }
    }
    b.extend([1, 0, 0, 0, 0, 1, 0]);
    for _ in 0..n { if cond { b.extend([1, 0]) } else { b.extend([0, 1, 0]) } }
    g.note(|| format!("{n} levels, conditional {cond}"));
    g.nontrivial_if(n > 40);
    let r = dec::<Query>(&b);
    ensure_eq!(r.is_ok(), n <= 64, "{n} levels: {:?}", r.as_ref().err());
    ensure_eq!(bdec::<Query>(&b).is_ok(), n <= 64, "{n} levels borrowed");
    Ok(())
}

fn ops(g: &mut G) -> R {
    let ops = g.list(0, 6, op);
    g.note(|| ops.iter().map(|o| match o { Op::Push(n) | Op::PushInverted(n) => n.to_string(), o => format!("{o:?}") }).collect::<Vec<_>>().join(" "));
    g.nontrivial_if(ops.len() > 1);
    let mut want = vec![];
    for o in &ops { put_op(&mut want, o) }
    let mut b = vec![];
    encode_into(ops.iter(), &mut b);
    ensure!(b == want, "{ops:?} encoded as {} expected {}", clip(hex(&b)), clip(hex(&want)));
    let mut d = Decoder::new(&b);
    let mut left = b.len();
    for o in &ops {
        ensure_eq!(d.remaining_bytes(), left, "bytes left");
        let mut one = vec![];
        put_op(&mut one, o);
        ensure_eq!(o.encoding_length(), one.len(), "length of {o:?}");
        match Op::decode(&one) { Ok(x) => ensure_eq!(&x, o, "alone"), Err(e) => fail!("{o:?}: {e}") }
        match d.next() { Some(Ok(x)) => ensure_eq!(&x, o, "in sequence"), x => fail!("{o:?} decoded as {x:?}") }
        left -= one.len();
        let k = g.below(one.len() as u64) as usize;
        ensure!(Op::decode(&one[..k]).is_err(), "{k} bytes of {o:?} decoded");
    }
    ensure!(d.next().is_none() && d.remaining_bytes() == 0, "bytes after the last operation");
    Ok(())
}
fn any_op_bytes(g: &mut G) -> R {
    let mut b = vec![];
    if g.chance(3, 4) { for o in g.list(1, 3, op) { if b.len() < 2000 { put_op(&mut b, &o) } } } else { b = g.bytes(0, 40) }
    mutate(g, &mut b);
    if !b.is_empty() && g.bool() { b[0] = g.below(0x32) as u8 }
    g.note(|| hex(&b));
    alloc_reset();
    let r = no_panic(|| {
        let mut v = vec![];
        for o in Decoder::new(&b) { match o { Ok(o) => v.push(o), Err(_) => return (v, false) } }
        (v, true)
    });
    let peak = alloc_peak();
    ensure!(peak < (80 << 20) + 1024 * b.len(), "{} bytes made it allocate {peak}", b.len());
    let (v, all) = match r { Ok(r) => r, Err(p) => fail!("panic on {}: {p}", hex(&b)) };
    let mut o = vec![];
    for x in &v { put_op(&mut o, x) }
    ensure!(o.len() <= b.len(), "{} decoded to more than it holds", hex(&b));
    if all { g.nontrivial_if(!v.is_empty()); }
    let again: Vec<Op> = Decoder::new(&o).map_while(|x| x.ok()).collect();
    ensure_eq!(again, v, "again {}", hex(&b));
    Ok(())
}

fn features(g: &mut G) -> R {
    use TreeFeatureType::*;
    let f = feature(g);
    g.note(|| format!("{f:?}"));
    g.nontrivial_if(f != BasicMerkNode);
    let mut want = vec![];
    put_feature(&mut want, &f);
    let b = f.encode().map_err(|e| e.to_string())?;
    ensure!(b == want, "{f:?} encoded as {} expected {}", hex(&b), hex(&want));
    ensure_eq!(f.encoding_length().ok(), Some(b.len()), "length");
    ensure_eq!(TreeFeatureType::decode(&b[..]).ok(), Some(f), "decoded");
    let k = g.below(b.len() as u64) as usize;
    ensure!(TreeFeatureType::decode(&b[..k]).is_err(), "{k} bytes of {f:?} decoded");
    let (ty, len, count, special) = match f {
        BasicMerkNode => (NodeType::NormalNode, 1, None, None),
        SummedMerkNode(_) => (NodeType::SumNode, 9, None, Some(TreeCostType::TreeFeatureUsesVarIntCostAs8Bytes)),
        BigSummedMerkNode(_) => (NodeType::BigSumNode, 17, None, Some(TreeCostType::TreeFeatureUses16Bytes)),
        CountedMerkNode(c) => (NodeType::CountNode, 9, Some(c), Some(TreeCostType::TreeFeatureUsesVarIntCostAs8Bytes)),
        CountedSummedMerkNode(c, _) => (NodeType::CountSumNode, 17, Some(c), Some(TreeCostType::TreeFeatureUsesTwoVarIntsCostAs16Bytes)),
        ProvableCountedMerkNode(c) => (NodeType::ProvableCountNode, 9, Some(c), Some(TreeCostType::TreeFeatureUsesVarIntCostAs8Bytes)),
        ProvableCountedSummedMerkNode(c, _) => (NodeType::ProvableCountSumNode, 17, Some(c), Some(TreeCostType::TreeFeatureUsesTwoVarIntsCostAs16Bytes)),
    };
    ensure_eq!(f.node_type(), ty, "node type");
    ensure_eq!((ty.feature_len(), ty.cost()), (len, len - 1), "fixed cost");
    ensure_eq!(f.encoding_cost(), len as usize, "encoding cost");
    ensure_eq!(f.count(), count, "count");
    let got = f.tree_feature_specialized_type_and_length();
    let kind = |t: &TreeCostType| std::mem::discriminant(t);
    ensure!(got.as_ref().map(|x| kind(&x.0)) == special.as_ref().map(kind), "cost type of {f:?}");
    let stored = if matches!(f, BigSummedMerkNode(_)) { 16 } else { b.len() as u32 - 1 };
    ensure_eq!(got.map(|x| x.1), special.map(|_| stored), "stored length of {f:?}");
    let mut any = g.bytes(0, 20);
    if !any.is_empty() { any[0] %= 9 }
    match no_panic(|| TreeFeatureType::decode(&any[..])) {
        Err(p) => fail!("panic on {}: {p}", hex(&any)),
        Ok(Ok(f)) => { let mut o = vec![]; put_feature(&mut o, &f); ensure_eq!(TreeFeatureType::decode(&o[..]).ok(), Some(f), "again") }
        Ok(Err(_)) => {}
    }
    Ok(())
}

/// A sum query holds what it was made with.
fn sum_queries(g: &mut G) -> R {
    type A = AggregateSumQuery;
    let items = g.list(0, 4, long_item);
    let keys = g.list(0, 4, |g| g.bytes(0, 6));
    let it = long_item(g);
    let key = g.bytes(0, 6);
    let (limit, check, up) = (g.u64b(), if g.bool() { Some(g.below(1 << 16) as u16) } else { None }, g.bool());
    g.note(|| format!("{items:?} {keys:?} {limit} {check:?}"));
    g.nontrivial_if(items.len() > 1 && keys.len() > 1);
    let of = |items: &[QueryItem], left_to_right, limit_of_items_to_check| A { items: items.to_vec(), left_to_right, sum_limit: limit, limit_of_items_to_check };
    let full = [QueryItem::RangeFull(std::ops::RangeFull)];
    let as_keys: Vec<_> = keys.iter().cloned().map(QueryItem::Key).collect();
    let one = std::slice::from_ref(&it);
    for (name, got, want) in [
        ("new", A::new(limit, check), of(&full, true, check)),
        ("new_descending", A::new_descending(limit, check), of(&full, false, check)),
        ("new_range_full", A::new_range_full(limit, check), of(&full, true, check)),
        ("new_range_full_descending", A::new_range_full_descending(limit, check), of(&full, false, check)),
        ("new_single_key", A::new_single_key(key.clone(), limit), of(&[QueryItem::Key(key)], true, Some(1))),
        ("new_single_query_item", A::new_single_query_item(it.clone(), limit, check), of(one, true, check)),
        ("new_single_query_item_with_direction", A::new_single_query_item_with_direction(it.clone(), up, limit, check), of(one, up, check)),
        ("new_with_query_items", A::new_with_query_items(items.clone(), limit, check), of(&items, true, check)),
        ("new_with_keys", A::new_with_keys(keys.clone(), limit, check), of(&as_keys, true, check)),
        ("new_with_keys_reversed", A::new_with_keys_reversed(keys.clone(), limit, check), of(&as_keys, false, check)),
    ] {
        ensure_eq!(got, want, "{name}");
        let there: Vec<_> = got.iter().cloned().collect();
        let back: Vec<_> = got.rev_iter().cloned().collect();
        ensure!(there == want.items && back.iter().rev().eq(&want.items), "items of {name}");
        ensure!(got.directional_iter(true).eq(&there) && got.directional_iter(false).eq(&back), "items of {name} in a direction");
        ensure_eq!(got.has_only_keys(), want.items.iter().all(|i| matches!(i, QueryItem::Key(_))), "{name}: only keys");
    }
    // what is left of a limit
    let s = ProofStatus::new_with_limit(check);
    ensure!(s.limit == check && s.hit_limit() == (check == Some(0)), "status {s:?}");
    let next = if g.bool() { Some(g.below(3) as u16) } else { None };
    ensure_eq!(s.update_limit(next).limit, next.or(check), "updated status");
    Ok(())
}

pub fn q03() -> Vec<Section> {
    vec![
        section("queries", "a query with items and subqueries", 40_000, 1_000_000, queries),
        section("any_query_bytes", "bytes that decode to a query", 60_000, 2_000_000, any_query_bytes),
        section("depth_limit", "more than 40 levels", 1_500, 20_000, depth_limit),
        section("json", "every case", 20_000, 300_000, json),
        section("ops", "more than one operation", 40_000, 1_000_000, ops),
        section("any_op_bytes", "bytes that decode completely", 60_000, 2_000_000, any_op_bytes),
        section("sum_queries", "several items and keys", 20_000, 300_000, sum_queries),
        section("features", "not the basic kind", 60_000, 1_000_000, features),
    ]
}

// ------------------------------------------------------------------ U01

fn text(g: &mut G) -> Vec<u8> {
    match g.below(4) {
        0 => g.bytes(0, 50),
        1 => { let n = g.size(0, 70); (0..n).map(|_| 32 + g.below(95) as u8).collect() }
        _ => {
            let mut s = String::new();
            for _ in 0..g.size(0, 40) { s.push(*g.pick(&['a', 'b', '\n', '\u{e9}', '\u{20ac}', '\u{1f600}', '/'])) }
            s.into_bytes()
        }
    }
}
fn ref_hex(b: &[u8]) -> String {
    let h: String = b.iter().map(|x| format!("{x:02x}")).collect();
    if b.len() >= 8 { format!("{}..{}", &h[..8], &h[h.len() - 8..]) } else { h }
}
fn ref_vis(b: &[u8]) -> String {
    let mut s = format!("[hex: {}", ref_hex(b));
    if let Ok(t) = std::str::from_utf8(b) {
        let mut n = 0;
        let cut = if t.len() <= 32 { t } else {
            for (i, c) in t.char_indices() { if i + c.len_utf8() <= 33 { n = i + c.len_utf8() } }
            &t[..n]
        };
        s += &format!(", str: {}", cut.replace(char::from(10), ""));
    }
    s + "]"
}
fn render(g: &mut G) -> R {
    let b = text(g);
    g.note(|| hex(&b));
    g.nontrivial_if(b.len() > 32);
    ensure_eq!(to_hex(&b), ref_hex(&b), "hex of {}", hex(&b));
    let mut out = vec![];
    let r = no_panic(|| { let mut o = vec![]; visualize_to_vec(&mut o, b.as_slice()); o });
    match r { Ok(o) => out = o, Err(p) => { let _ = &mut out; fail!("panic showing {}: {p}", hex(&b)) } }
    ensure_eq!(String::from_utf8_lossy(&out).into_owned(), ref_vis(&b), "shown");
    ensure_eq!(format!("{:?}", DebugBytes(b.clone())), ref_vis(&b), "debug");
    let two = vec![b.clone(), text(g)];
    let want = format!("[ {} ]", two.iter().map(|x| ref_vis(x) + ", ").collect::<String>());
    ensure_eq!(format!("{:?}", DebugByteVectors(two)), want, "several");
    let mut o = vec![];
    visualize_to_vec(&mut o, &if g.bool() { Some(b.clone()) } else { None });
    ensure!(o == b"None" || String::from_utf8_lossy(&o) == ref_vis(&b), "optional");
    // nesting only adds white space
    let mut o = vec![];
    let mut d = Drawer::new(&mut o);
    let n = g.below(4);
    for _ in 0..n { d.down() }
    d.write(&b).map_err(|e| e.to_string())?;
    for _ in 0..n { d.up() }
    let squeeze = |x: &[u8]| x.iter().copied().filter(|c| *c != b' ' && *c != b'\n').collect::<Vec<_>>();
    ensure!(squeeze(&o) == squeeze(&b), "drawn as {}", hex(&o));
    let lines = b.split(|c| *c == b'\n').count();
    ensure_eq!(o.iter().filter(|c| **c == b'\n').count(), if n > 0 { lines - 1 } else { 0 }, "lines drawn at depth {n}");
    Ok(())
}
fn has(s: &str, what: impl ToString) -> R {
    let w = what.to_string();
    ensure!(s.contains(&w), "{w} missing in {}", clip(s.to_string()));
    Ok(())
}
fn fulls(b: &[u8]) -> String {
    let ok = b.iter().all(|c| c.is_ascii_alphanumeric() || b"_-/\\[]@".contains(c));
    if ok { String::from_utf8(b.to_vec()).unwrap() } else { format!("0x{}", hex(b)) }
}
/// Elements, references, paths, queries and proof operations print without a panic and show what they hold.
fn print(g: &mut G) -> R {
    use grovedb_element::Element::*;
    let b = text(g);
    ensure!(grovedb_element::hex_to_ascii(&b) == fulls(&b) && grovedb_query::hex_to_ascii(&b) == fulls(&b), "{} in full", hex(&b));
    let e = egen::element(g);
    let mut e = e;
    if g.bool() { if let Item(v, _) | ItemWithSumItem(v, ..) = &mut e { *v = text(g) } }
    if g.chance(1, 3) { e.set_flags(Some(text(g))) }
    g.note(|| hex(&egen::encode(&e)));
    g.nontrivial();
    let (s, d) = match no_panic(|| (e.to_string(), format!("{e:?}"))) { Ok(x) => x, Err(p) => fail!("panic printing element {}: {p}", hex(&egen::encode(&e))) };
    match &e {
        Item(v, _) => { has(&s, fulls(v))?; has(&d, ref_vis(v))? }
        ItemWithSumItem(v, n, _) => { has(&s, fulls(v))?; has(&s, n)?; has(&d, n)? }
        SumItem(n, _) | SumTree(_, n, _) => { has(&s, n)?; has(&d, n)? }
        BigSumTree(_, n, _) => { has(&s, n)?; has(&d, n)? }
        CountTree(_, n, _) | ProvableCountTree(_, n, _) | MmrTree(n, _) | CommitmentTree(n, ..) | BulkAppendTree(n, ..) => { has(&s, n)?; has(&d, n)? }
        CountSumTree(_, n, m, _) | ProvableCountSumTree(_, n, m, _) => { has(&s, n)?; has(&s, m)?; has(&d, n)?; has(&d, m)? }
        DenseAppendOnlyFixedSizeTree(n, h, _) => { has(&s, n)?; has(&s, h)? }
        _ => {}
    }
    if let Some(f) = e.get_flags() { has(&s, format!("{f:?}"))? }
    if let Reference(r, _, _) = &e {
        if let Err(p) = no_panic(|| (r.to_string(), format!("{r:?}"))) { fail!("panic printing a reference: {p}") }
        has(&s, r)?;
    }
    let segs = g.list(0, 3, text);
    let want = segs.iter().map(|x| fulls(x)).collect::<Vec<_>>().join("/");
    let p = SubtreePath::from(segs.as_slice());
    ensure_eq!(p.to_string(), want, "path");
    let mut bld = SubtreePathBuilder::new();
    for x in &segs { bld.push_segment(x) }
    ensure_eq!(SubtreePath::from(&bld).to_string(), want, "built path");
    let q = any_query(g, 2);
    let s = match no_panic(|| q.to_string()) { Ok(x) => x, Err(p) => fail!("panic printing {}: {p}", show(&q)) };
    for i in &q.items { has(&s, i)? }
    has(&s, format!("left_to_right: {}", q.left_to_right))?;
    let _ = no_panic(|| format!("{q:?} {:?}", q.default_subquery_branch.to_string())).map_err(Fail::from)?;
    let k = item_over(g, text);
    let s = match no_panic(|| k.to_string()) { Ok(x) => x, Err(p) => fail!("panic printing an item: {p}") };
    if let QueryItem::Key(b) = &k { has(&s, fulls(b))? }
    let mut a = AggregateSumQuery::new(g.u64b(), None);
    a.items.push(k);
    has(&a.to_string(), a.sum_limit)?;
    has(&a.to_string(), &a.items[0])?;
    let n = node(g);
    let s = match no_panic(|| n.to_string()) { Ok(x) => x, Err(p) => fail!("panic printing a node: {p}") };
    match &n {
        Node::Hash(h) | Node::KVHash(h) => has(&s, hex(h))?,
        Node::KVHashCount(h, c) => { has(&s, hex(h))?; has(&s, c)? }
        Node::KV(k, v) => { has(&s, fulls(k))?; has(&s, fulls(v))? }
        Node::KVCount(k, v, c) => { has(&s, fulls(k))?; has(&s, fulls(v))?; has(&s, c)? }
        Node::KVDigest(k, h) => { has(&s, fulls(k))?; has(&s, hex(h))? }
        Node::KVDigestCount(k, h, c) => { has(&s, fulls(k))?; has(&s, hex(h))?; has(&s, c)? }
        Node::KVValueHash(k, v, h) | Node::KVRefValueHash(k, v, h) => { has(&s, fulls(k))?; has(&s, fulls(v))?; has(&s, hex(h))? }
        Node::KVRefValueHashCount(k, v, h, c) => { has(&s, fulls(k))?; has(&s, fulls(v))?; has(&s, hex(h))?; has(&s, c)? }
        Node::KVValueHashFeatureType(k, v, h, f) => { has(&s, fulls(k))?; has(&s, fulls(v))?; has(&s, hex(h))?; has(&s, format!("{f:?}"))? }
        Node::KVValueHashFeatureTypeWithChildHash(k, v, h, f, c) => { has(&s, fulls(k))?; has(&s, fulls(v))?; has(&s, hex(h))?; has(&s, format!("{f:?}"))?; has(&s, hex(c))? }
    }
    Ok(())
}

pub fn u01() -> Vec<Section> {
    vec![
        section("bytes", "more than 32 bytes", 80_000, 1_000_000, render),
        section("print", "every case", 60_000, 1_000_000, print),
    ]
}
