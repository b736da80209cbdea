//! K02: a proof program builds the tree it describes, with the hash its nodes have, or is refused.
use crate::forge::{self, T};
use crate::mk::{h, h_kv, h_node, h_value, Hash};
use crate::qgen::small_key;
use grovedb_merk::proofs::{execute, Node, Op, Tree};
use grovedb_merk::TreeFeatureType;
use vp::*;

// ---- reference

fn blocks(n: usize) -> u32 {
    1 + ((n - 1) / 64) as u32
}
fn varint_len(n: usize) -> usize {
    if n < 128 { 1 } else if n < 16384 { 2 } else { 3 }
}
/// Hash of a node with the given children, and how many blocks are hashed for it.
fn hash_of(n: &Node, l: Option<Hash>, r: Option<Hash>) -> (Hash, u32) {
    use Node::*;
    let v = |v: &Vec<u8>| (h_value(v), blocks(varint_len(v.len()) + v.len()));
    let kv = |k: &Vec<u8>, vh: &[u8; 32]| (h_kv(k, vh), blocks(varint_len(k.len()) + k.len() + 32));
    let key_value = |k: &Vec<u8>, x: &Vec<u8>| { let (vh, a) = v(x); let (kh, b) = kv(k, &vh); (kh, a + b) };
    let reference = |k: &Vec<u8>, x: &Vec<u8>, own: &[u8; 32]| { let (vh, a) = v(x); let (kh, b) = kv(k, &h(&[own, &vh])); (kh, a + 1 + b) };
    let (kvh, cost, count) = match n {
        Hash(x) if l.is_none() && r.is_none() => return (*x, 0),
        Hash(x) | KVHash(x) => (*x, 0, None),
        KVHashCount(x, c) => (*x, 0, Some(*c)),
        KV(k, x) => { let (h, c) = key_value(k, x); (h, c, None) }
        KVCount(k, x, n) => { let (h, c) = key_value(k, x); (h, c, Some(*n)) }
        KVValueHash(k, _, x) | KVDigest(k, x) => { let (h, c) = kv(k, x); (h, c, None) }
        KVDigestCount(k, x, n) => { let (h, c) = kv(k, x); (h, c, Some(*n)) }
        KVRefValueHash(k, x, own) => { let (h, c) = reference(k, x, own); (h, c, None) }
        KVRefValueHashCount(k, x, own, n) => { let (h, c) = reference(k, x, own); (h, c, Some(*n)) }
        KVValueHashFeatureType(k, _, x, f) | KVValueHashFeatureTypeWithChildHash(k, _, x, f, _) => {
            let (h, c) = kv(k, x);
            (h, c, match f { TreeFeatureType::ProvableCountedMerkNode(n) | TreeFeatureType::ProvableCountedSummedMerkNode(n, _) => Some(*n), _ => None })
        }
    };
    (h_node(&kvh, &l.unwrap_or_default(), &r.unwrap_or_default(), count), cost + 2)
}
#[derive(Clone)]
struct M {
    node: Node,
    l: Option<Box<M>>,
    r: Option<Box<M>>,
    height: usize,
}
fn hash(m: &M, cost: &mut u32) -> Hash {
    let (l, r) = (m.l.as_ref().map(|m| hash(m, &mut 0)), m.r.as_ref().map(|m| hash(m, &mut 0)));
    let (h, c) = hash_of(&m.node, l, r);
    *cost += c;
    h
}
fn side(m: &Option<Box<M>>) -> usize {
    m.as_ref().map_or(0, |m| m.height)
}
/// What a program does: nodes visited, and the tree with the hashing done, or why it is refused.
fn run(ops: &[Op], collapse: bool) -> (Vec<Node>, Result<(M, u32), &'static str>) {
    let mut seen = vec![];
    let mut stack: Vec<M> = vec![];
    let mut last: Option<&Vec<u8>> = None;
    let mut cost = 0;
    for (i, op) in ops.iter().enumerate() {
        if i >= 50_000 { return (seen, Err("operations")) }
        let (left, child_on_top) = match op {
            Op::Push(n) | Op::PushInverted(n) => {
                let up = std::matches!(op, Op::Push(_));
                if let Some(k) = forge::key_of(n) {
                    if last.is_some_and(|l| if up { k <= l } else { k >= l }) { return (seen, Err("order")) }
                    last = Some(k);
                }
                seen.push(n.clone());
                stack.push(M { node: n.clone(), l: None, r: None, height: 1 });
                if stack.len() > 10_000 { return (seen, Err("stack")) }
                continue;
            }
            Op::Parent => (true, false),
            Op::ParentInverted => (false, false),
            Op::Child => (false, true),
            Op::ChildInverted => (true, true),
        };
        let (Some(a), Some(b)) = (stack.pop(), stack.pop()) else { return (seen, Err("underflow")) };
        let (mut child, mut parent) = if child_on_top { (a, b) } else { (b, a) };
        let ch = hash(&child, &mut cost);
        if collapse { child = M { node: Node::Hash(ch), l: None, r: None, height: 1 } }
        let slot = if left { &mut parent.l } else { &mut parent.r };
        if slot.is_some() { return (seen, Err("taken")) }
        parent.height = parent.height.max(child.height + 1);
        if parent.height > 92 { return (seen, Err("height")) }
        *slot = Some(Box::new(child));
        stack.push(parent);
    }
    if stack.len() != 1 { return (seen, Err("left over")) }
    let m = stack.pop().unwrap();
    // hash nodes may stand for trees of any height
    fn open(m: &M) -> bool {
        std::matches!(m.node, Node::Hash(_)) || [&m.l, &m.r].into_iter().flatten().any(|c| open(c))
    }
    let low = if side(&m.l) < side(&m.r) { &m.l } else { &m.r };
    if side(&m.l).abs_diff(side(&m.r)) > 1 && !low.as_ref().is_some_and(|c| open(c)) { return (seen, Err("unbalanced")) }
    (seen, Ok((m, cost)))
}
fn same(t: &Tree, m: &M) -> R {
    ensure_eq!(t.node, m.node, "node");
    ensure_eq!(t.key(), forge::key_of(&m.node).map(|k| k.as_slice()), "key");
    ensure_eq!((t.height, t.child_heights), (m.height, (side(&m.l), side(&m.r))), "heights at {}", m.node);
    ensure_eq!(t.hash().unwrap(), hash(m, &mut 0), "hash of {}", m.node);
    for (left, mc) in [(true, &m.l), (false, &m.r)] {
        match (t.child(left), mc) {
            (None, None) => {}
            (Some(c), Some(mc)) => { ensure_eq!(c.hash, hash(mc, &mut 0), "hash kept of a child"); same(&c.tree, mc)? }
            _ => fail!("children differ"),
        }
    }
    Ok(())
}
fn in_order(m: &M, depth: usize, at: usize, all: &mut Vec<Node>, layer: &mut Vec<Node>) {
    if let Some(l) = &m.l { in_order(l, depth, at + 1, all, layer) }
    all.push(m.node.clone());
    if depth == at { layer.push(m.node.clone()) }
    if let Some(r) = &m.r { in_order(r, depth, at + 1, all, layer) }
}

// ---- programs

pub fn node(g: &mut G, key: Vec<u8>) -> Node {
    use Node::*;
    let v = if g.chance(1, 30) { g.blob(300) } else { g.bytes(0, 4) };
    let c = if g.chance(1, 4) { g.u64b() } else { g.below(4) };
    let f = {
        use TreeFeatureType::*;
        match g.below(7) { 0 => BasicMerkNode, 1 => SummedMerkNode(c as i64), 2 => BigSummedMerkNode(-(c as i128)), 3 => CountedMerkNode(c), 4 => CountedSummedMerkNode(c, 3), 5 => ProvableCountedMerkNode(c), _ => ProvableCountedSummedMerkNode(c, -1) }
    };
    let key = if g.chance(1, 40) { let mut k = key; k.extend(vec![7; 50 + g.below(100) as usize]); k } else { key };
    match g.below(15) {
        0 | 1 => KV(key, v),
        2 => KVValueHash(key, v, g.hash32()),
        3 => KVValueHashFeatureType(key, v, g.hash32(), f),
        4 => KVValueHashFeatureTypeWithChildHash(key, v, g.hash32(), f, g.hash32()),
        5 => KVDigest(key, g.hash32()),
        6 => KVDigestCount(key, g.hash32(), c),
        7 => KVRefValueHash(key, v, g.hash32()),
        8 => KVRefValueHashCount(key, v, g.hash32(), c),
        9 => KVCount(key, v, c),
        10 => KVHash(g.hash32()),
        11 => KVHashCount(g.hash32(), c),
        _ => Hash(g.hash32()),
    }
}
fn tree(g: &mut G, keys: &[Vec<u8>]) -> Option<Box<T>> {
    if keys.is_empty() { return None }
    let i = if g.chance(3, 4) { keys.len() / 2 } else { g.below(keys.len() as u64) as usize };
    Some(Box::new(T { node: node(g, keys[i].clone()), l: tree(g, &keys[..i]), r: tree(g, &keys[i + 1..]) }))
}
fn program(g: &mut G) -> Vec<Op> {
    if g.chance(1, 8) {
        return (0..g.size(0, 8)).map(|_| match g.below(8) { 0 => Op::Parent, 1 => Op::Child, 2 => Op::ParentInverted, 3 => Op::ChildInverted, x => { let k = small_key(g, 1, 2); let n = node(g, k); if x < 6 { Op::Push(n) } else { Op::PushInverted(n) } } }).collect();
    }
    let mut keys: Vec<Vec<u8>> = (0..g.size(1, 12)).map(|_| small_key(g, 1, 2)).collect();
    keys.sort();
    keys.dedup();
    let t = tree(g, &keys).unwrap();
    let mut ops = vec![];
    let (inv, rate) = (g.bool(), *g.pick(&[0u64, 0, 1, 3]));
    forge::scrambled(g, &t, inv, rate, &mut ops);
    if g.chance(1, 3) { for _ in 0..g.size(1, 2) { forge::edit(g, &mut ops) } }
    ops
}
fn show(ops: &[Op]) -> String {
    ops.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join("; ")
}
fn check(g: &mut G, ops: &[Op], collapse: bool, brief: bool) -> R {
    let ctx = |m: String| Fail::new("program", format!("{m}\n  collapse {collapse} program {}", if brief { format!("of {} operations", ops.len()) } else { show(ops) }));
    let (want_seen, want) = run(ops, collapse);
    let mut seen = vec![];
    let stop = if g.chance(1, 8) { g.below(1 + want_seen.len() as u64) as usize } else { usize::MAX };
    let r = match no_panic(std::panic::AssertUnwindSafe(|| execute(ops.iter().cloned().map(Ok), collapse, |n| { seen.push(n.clone()); if seen.len() > stop { Err(grovedb_merk::Error::InvalidProofError("stop here".into())) } else { Ok(()) } }))) {
        Err(p) => return Err(ctx(format!("panicked: {p}"))),
        Ok(r) => r,
    };
    let (out, cost) = (r.value, r.cost);
    if stop < want_seen.len() {
        if seen[..] != want_seen[..stop + 1] { return Err(ctx("nodes visited before a stop differ".into())) }
        if !std::matches!(&out, Err(e) if e.to_string().contains("stop here")) { return Err(ctx("a refusal of the visitor is lost".into())) }
        return Ok(());
    }
    if seen != want_seen { return Err(ctx(format!("visits {} nodes instead of {}", seen.len(), want_seen.len()))) }
    match (out, want) {
        (Err(_), Err(why)) => { g.label(why); }
        (Err(e), Ok(_)) => return Err(ctx(format!("a sound program is refused: {e}"))),
        (Ok(_), Err(why)) => return Err(ctx(format!("accepted in spite of {why}"))),
        (Ok(t), Ok((m, hashed))) => {
            same(&t, &m).map_err(|f| ctx(f.msg))?;
            if cost.hash_node_calls != hashed { return Err(ctx(format!("hashing is charged {} instead of {hashed}", cost.hash_node_calls))) }
            let d = g.below(4) as usize;
            let (mut all, mut layer) = (vec![], vec![]);
            in_order(&m, d, 0, &mut all, &mut layer);
            if !t.layer(d).map(|t| &t.node).eq(layer.iter()) { return Err(ctx(format!("layer {d}"))) }
            let mut refs = vec![];
            t.visit_refs(&mut |t| { refs.push(t.node.clone()); Ok(()) }).map_err(|e| e.to_string())?;
            let mut owned = vec![];
            t.clone().visit_nodes(&mut |n| owned.push(n));
            if refs != all || owned != all { return Err(ctx("nodes in order".into())) }
            g.nontrivial_if(ops.len() > 4);
        }
    }
    Ok(())
}
fn programs(g: &mut G) -> R {
    let ops = program(g);
    g.note(|| show(&ops));
    let collapse = g.bool();
    check(g, &ops, collapse, false)?;
    // both ways of running agree on the hash
    let (a, b) = (execute(ops.iter().cloned().map(Ok), true, |_| Ok(())).unwrap(), execute(ops.iter().cloned().map(Ok), false, |_| Ok(())).unwrap());
    if let (Ok(a), Ok(b)) = (&a, &b) { ensure_eq!(a.hash().unwrap(), b.hash().unwrap(), "hash with and without collapsing") }
    ensure!(a.is_ok() || b.is_err(), "collapsing refuses what is otherwise accepted");
    // an error among the operators ends it
    if !ops.is_empty() {
        let i = g.below(ops.len() as u64) as usize;
        let bad = ops.iter().cloned().enumerate().map(|(j, o)| if i == j { Err(grovedb_merk::Error::InvalidProofError("broken".into())) } else { Ok(o) });
        ensure!(execute(bad, collapse, |_| Ok(())).unwrap().is_err(), "an operator that does not decode is passed over");
    }
    Ok(())
}
/// Programs about as long, wide and deep as is allowed.
fn limits(g: &mut G) -> R {
    let hash = |i: usize| Node::Hash([i as u8; 32]);
    let near = |g: &mut G, n: usize| n - 2 + g.below(4) as usize;
    let kind = g.below(4);
    let collapse = g.bool() || kind == 1;
    let ops: Vec<Op> = match kind {
        // wide
        0 => { let n = near(g, 10_000); let mut o: Vec<Op> = (0..n).map(|i| Op::Push(hash(i))).collect(); o.extend((1..n).map(|i| if i + 1 < n { Op::Child } else { Op::Parent })); o }
        // long
        1 => { let n = near(g, 50_000); let mut o = vec![Op::Push(hash(1))]; while o.len() + 2 <= n { o.push(Op::Push(hash(2))); o.push(Op::Parent) } if o.len() < n { o.push(Op::Push(hash(3))) } if g.bool() { o.push(Op::Child) } o }
        // deep on both sides
        _ => {
            let mut o = vec![];
            let (a, b) = (near(g, 92), near(g, 92));
            let chain = |o: &mut Vec<Op>, n: usize| { o.push(Op::Push(Node::KVHash([0; 32]))); for i in 1..n { o.push(Op::Push(Node::KVHash([i as u8; 32]))); o.push(if i % 2 == 0 { Op::Parent } else { Op::ParentInverted }) } };
            if kind == 3 { chain(&mut o, a); return { g.nontrivial(); check(g, &o, collapse, true) } }
            chain(&mut o, a - 1);
            o.push(Op::Push(Node::KVHash([9; 32])));
            o.push(Op::Parent);
            chain(&mut o, b - 1);
            o.push(Op::Child);
            o
        }
    };
    g.nontrivial();
    check(g, &ops, collapse, true)
}

pub fn sections() -> Vec<Section> {
    vec![
        section("programs", "an accepted program of more than four operations", 1_500_000, 40_000_000, programs),
        section("limits", "every program", 200, 2_000, limits),
    ]
}
