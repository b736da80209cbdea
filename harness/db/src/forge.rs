//! Proof forgery: merk proofs as trees, changed in every way an attacker could, and written back.
#![allow(dead_code)]
use grovedb_merk::proofs::{encode_into, execute, Decoder, Node, Op};
use grovedb_merk::tree::{combine_hash, kv_digest_to_kv_hash, value_hash};
use grovedb_merk::{CryptoHash, TreeFeatureType};
use vp::*;

#[derive(Clone, Debug)]
pub struct T {
    pub node: Node,
    pub l: Option<Box<T>>,
    pub r: Option<Box<T>>,
}
pub fn leaf(node: Node) -> T {
    T { node, l: None, r: None }
}
pub fn decode(bytes: &[u8]) -> Option<Vec<Op>> {
    Decoder::new(bytes).collect::<Result<Vec<_>, _>>().ok()
}
pub fn encode(ops: &[Op]) -> Vec<u8> {
    let mut o = vec![];
    encode_into(ops.iter(), &mut o);
    o
}
pub fn parse(ops: &[Op]) -> Option<T> {
    let mut s: Vec<T> = vec![];
    for op in ops {
        match op {
            Op::Push(n) | Op::PushInverted(n) => s.push(leaf(n.clone())),
            Op::Parent | Op::ParentInverted => {
                let (mut p, c) = (s.pop()?, s.pop()?);
                if matches!(op, Op::Parent) { p.l = Some(Box::new(c)) } else { p.r = Some(Box::new(c)) }
                s.push(p)
            }
            Op::Child | Op::ChildInverted => {
                let (c, mut p) = (s.pop()?, s.pop()?);
                if matches!(op, Op::Child) { p.r = Some(Box::new(c)) } else { p.l = Some(Box::new(c)) }
                s.push(p)
            }
        }
    }
    if s.len() == 1 { s.pop() } else { None }
}
/// The root hash the code under test gives the tree.
pub fn root(t: &T) -> Option<CryptoHash> {
    let mut ops = vec![];
    straight(t, false, &mut ops);
    execute(ops.into_iter().map(Ok), false, |_| Ok(())).unwrap().ok().map(|t| t.hash().unwrap())
}
pub fn straight(t: &T, inverted: bool, o: &mut Vec<Op>) {
    let (a, b) = if inverted { (&t.r, &t.l) } else { (&t.l, &t.r) };
    if let Some(a) = a { straight(a, inverted, o) }
    o.push(if inverted { Op::PushInverted(t.node.clone()) } else { Op::Push(t.node.clone()) });
    if a.is_some() { o.push(if inverted { Op::ParentInverted } else { Op::Parent }) }
    if let Some(b) = b {
        straight(b, inverted, o);
        o.push(if inverted { Op::ChildInverted } else { Op::Child });
    }
}
/// Writes the tree with nodes visited in an arbitrary order.
pub fn scrambled(g: &mut G, t: &T, inverted: bool, rate: u64, o: &mut Vec<Op>) {
    let push = |g: &mut G, o: &mut Vec<Op>| {
        let inv = inverted ^ g.chance(rate, 16);
        o.push(if inv { Op::PushInverted(t.node.clone()) } else { Op::Push(t.node.clone()) });
    };
    // 0: left, 1: node, 2: right
    let mut order = if inverted { [2, 1, 0] } else { [0, 1, 2] };
    if g.chance(rate, 8) {
        for i in (1..3).rev() { let j = g.below(i as u64 + 1) as usize; order.swap(i, j) }
    }
    let node_at = order.iter().position(|x| *x == 1).unwrap();
    let sub = |g: &mut G, w: i32, o: &mut Vec<Op>| -> bool {
        match if w == 0 { &t.l } else { &t.r } { Some(s) => { scrambled(g, s, inverted, rate, o); true } None => false }
    };
    let mut before = vec![];
    for w in &order[..node_at] { if sub(g, *w, o) { before.push(*w) } }
    push(g, o);
    for w in before.iter().rev() { o.push(if *w == 0 { Op::Parent } else { Op::ParentInverted }) }
    for w in &order[node_at + 1..] {
        if sub(g, *w, o) { o.push(if *w == 0 { Op::ChildInverted } else { Op::Child }) }
    }
}
pub fn size(t: &T) -> usize {
    1 + t.l.as_ref().map_or(0, |t| size(t)) + t.r.as_ref().map_or(0, |t| size(t))
}
pub fn nth(t: &mut T, i: usize) -> &mut T {
    let l = t.l.as_ref().map_or(0, |t| size(t));
    if i < l { nth(t.l.as_mut().unwrap(), i) } else if i == l { t } else { nth(t.r.as_mut().unwrap(), i - l - 1) }
}
pub fn nodes(t: &T, o: &mut Vec<Node>) {
    if let Some(l) = &t.l { nodes(l, o) }
    o.push(t.node.clone());
    if let Some(r) = &t.r { nodes(r, o) }
}
pub fn key_of(n: &Node) -> Option<&Vec<u8>> {
    use Node::*;
    match n {
        KV(k, _) | KVValueHash(k, ..) | KVDigest(k, _) | KVRefValueHash(k, ..) | KVValueHashFeatureType(k, ..)
        | KVCount(k, ..) | KVRefValueHashCount(k, ..) | KVDigestCount(k, ..) | KVValueHashFeatureTypeWithChildHash(k, ..) => Some(k),
        Hash(_) | KVHash(_) | KVHashCount(..) => None,
    }
}
pub fn value_of(n: &Node) -> Option<&Vec<u8>> {
    use Node::*;
    match n {
        KV(_, v) | KVValueHash(_, v, _) | KVRefValueHash(_, v, _) | KVValueHashFeatureType(_, v, ..)
        | KVCount(_, v, _) | KVRefValueHashCount(_, v, ..) | KVValueHashFeatureTypeWithChildHash(_, v, ..) => Some(v),
        _ => None,
    }
}
pub fn value_mut(n: &mut Node) -> Option<&mut Vec<u8>> {
    use Node::*;
    match n {
        KV(_, v) | KVValueHash(_, v, _) | KVRefValueHash(_, v, _) | KVValueHashFeatureType(_, v, ..)
        | KVCount(_, v, _) | KVRefValueHashCount(_, v, ..) | KVValueHashFeatureTypeWithChildHash(_, v, ..) => Some(v),
        _ => None,
    }
}
pub fn key_mut(n: &mut Node) -> Option<&mut Vec<u8>> {
    use Node::*;
    match n {
        KV(k, _) | KVValueHash(k, ..) | KVDigest(k, _) | KVRefValueHash(k, ..) | KVValueHashFeatureType(k, ..)
        | KVCount(k, ..) | KVRefValueHashCount(k, ..) | KVDigestCount(k, ..) | KVValueHashFeatureTypeWithChildHash(k, ..) => Some(k),
        _ => None,
    }
}
/// The value hash a node with a key commits to.
pub fn committed(n: &Node) -> Option<CryptoHash> {
    use Node::*;
    Some(match n {
        KV(_, v) | KVCount(_, v, _) => value_hash(v).unwrap(),
        KVDigest(_, h) | KVDigestCount(_, h, _) | KVValueHash(_, _, h) | KVValueHashFeatureType(_, _, h, _) | KVValueHashFeatureTypeWithChildHash(_, _, h, ..) => *h,
        KVRefValueHash(_, v, h) | KVRefValueHashCount(_, v, h, _) => combine_hash(h, &value_hash(v).unwrap()).unwrap(),
        _ => return None,
    })
}
pub fn count_of(n: &Node) -> Option<u64> {
    use Node::*;
    match n {
        KVCount(_, _, c) | KVHashCount(_, c) | KVDigestCount(_, _, c) | KVRefValueHashCount(_, _, _, c) => Some(*c),
        KVValueHashFeatureType(_, _, _, f) | KVValueHashFeatureTypeWithChildHash(_, _, _, f, _) => match f {
            TreeFeatureType::ProvableCountedMerkNode(c) | TreeFeatureType::ProvableCountedSummedMerkNode(c, _) => Some(*c),
            _ => None,
        },
        _ => None,
    }
}
fn ft(g: &mut G, n: &Node) -> TreeFeatureType {
    match n {
        Node::KVValueHashFeatureType(_, _, _, f) | Node::KVValueHashFeatureTypeWithChildHash(_, _, _, f, _) if g.chance(7, 8) => *f,
        _ => match count_of(n) {
            Some(c) if g.bool() => TreeFeatureType::ProvableCountedSummedMerkNode(c, g.i64b()),
            Some(c) => TreeFeatureType::ProvableCountedMerkNode(c),
            None => match g.below(4) { 0 => TreeFeatureType::SummedMerkNode(g.i64b()), 1 => TreeFeatureType::CountedMerkNode(g.below(4)), _ => TreeFeatureType::BasicMerkNode },
        },
    }
}
/// Another kind of node that hashes the same, with `value` (forged or not) where one is free.
pub fn rekind(g: &mut G, n: &Node, value: Vec<u8>, child: CryptoHash) -> Option<Node> {
    use Node::*;
    let (k, h, c) = (key_of(n)?.clone(), committed(n)?, count_of(n));
    Some(match (g.below(6), c) {
        (0, None) => KVDigest(k, h),
        (0, Some(c)) => KVDigestCount(k, h, c),
        (1, None) => KVHash(kv_digest_to_kv_hash(&k, &h).unwrap()),
        (1, Some(c)) => KVHashCount(kv_digest_to_kv_hash(&k, &h).unwrap(), c),
        (2, None) => KVValueHash(k, value, h),
        (2 | 3, _) => KVValueHashFeatureType(k, value, h, ft(g, n)),
        (4, _) => KVValueHashFeatureTypeWithChildHash(k, value, h, ft(g, n), child),
        (_, None) => KVRefValueHash(k, value, child),
        (_, Some(c)) => KVRefValueHashCount(k, value, child, c),
    })
}
pub struct Forge<'a> {
    /// Values to put in place of others.
    pub value: &'a mut dyn FnMut(&mut G, Option<&Vec<u8>>) -> Vec<u8>,
    /// Hashes an attacker knows.
    pub hashes: Vec<CryptoHash>,
    /// Only change the structure, never what a node says.
    pub structure_only: bool,
}
fn any_hash(g: &mut G, known: &[CryptoHash]) -> CryptoHash {
    if known.is_empty() || g.chance(1, 6) { g.hash32() } else { *g.pick(known) }
}
/// One change to a proof tree.
pub fn change(g: &mut G, t: &mut T, f: &mut Forge) {
    let n = size(t);
    let i = g.below(n as u64) as usize;
    let whole = root(t);
    let at = nth(t, i);
    match g.below(if f.structure_only { 6 } else { 12 }) {
        0 => if let Some(h) = root(at) { *at = leaf(Node::Hash(h)) },
        1 => std::mem::swap(&mut at.l, &mut at.r),
        2 => if g.bool() { at.l = None } else { at.r = None },
        3 => {
            // what hangs below a known hash
            let h = if g.bool() { root(at) } else { whole };
            if let Some(h) = h {
                let mut below = at.clone();
                below.l = None;
                below.r = None;
                if !f.structure_only || matches!(below.node, Node::KV(..) | Node::KVCount(..)) {
                    let old = value_of(&below.node).cloned();
                    let forged = (f.value)(g, old.as_ref());
                    if let Some(v) = value_mut(&mut below.node) { *v = forged }
                }
                if g.chance(1, 4) { below = at.clone() }
                let mut top = leaf(if g.chance(3, 4) { Node::Hash(h) } else { Node::KVHash(h) });
                if g.bool() { top.l = Some(Box::new(below)) } else { top.r = Some(Box::new(below)) }
                *at = top;
            }
        }
        4 => {
            let d = leaf(at.node.clone());
            let side = if g.bool() { &mut at.l } else { &mut at.r };
            *side = Some(Box::new(d));
        }
        5 => {
            // rotate: another node becomes the parent
            let mut take = at.clone();
            if let Some(l) = take.l.take() {
                let mut l = *l;
                take.l = l.r.take();
                l.r = Some(Box::new(take));
                *at = l;
            }
        }
        6 | 7 => {
            let known = f.hashes.clone();
            let c = any_hash(g, &known);
            let v = value_of(&at.node).cloned();
            let v = if g.chance(1, 3) { v.unwrap_or_default() } else { (f.value)(g, v.as_ref()) };
            if let Some(n) = rekind(g, &at.node, v, c) { at.node = n }
        }
        8 | 9 => {
            let old = value_of(&at.node).cloned();
            if old.is_some() {
                let v = (f.value)(g, old.as_ref());
                if let Some(x) = value_mut(&mut at.node) { *x = v }
            }
        }
        10 => if let Some(k) = key_mut(&mut at.node) {
            match g.below(3) { 0 if k.len() < 255 => k.push(g.byte()), 1 => { k.pop(); } _ => if let Some(l) = k.last_mut() { *l = l.wrapping_add(g.byte()) } }
        },
        _ => {
            let h = any_hash(g, &f.hashes);
            use Node::*;
            match &mut at.node {
                Hash(x) | KVHash(x) | KVDigest(_, x) | KVValueHash(_, _, x) | KVRefValueHash(_, _, x) | KVValueHashFeatureType(_, _, x, _) | KVDigestCount(_, x, _) => *x = h,
                KVValueHashFeatureTypeWithChildHash(_, _, x, _, y) => if g.bool() { *x = h } else { *y = h },
                KVCount(_, _, c) | KVHashCount(_, c) | KVRefValueHashCount(_, _, _, c) => *c = g.below(9),
                KV(..) => {}
            }
        }
    }
}
/// Edits of the operation list.
pub fn edit(g: &mut G, ops: &mut Vec<Op>) {
    if ops.is_empty() { return }
    let i = g.below(ops.len() as u64) as usize;
    match g.below(6) {
        0 => { ops.remove(i); }
        1 => { let o = ops[i].clone(); ops.insert(i, o) }
        2 => { let j = g.below(ops.len() as u64) as usize; ops.swap(i, j) }
        3 => { let o = [Op::Parent, Op::Child, Op::ParentInverted, Op::ChildInverted][g.below(4) as usize].clone(); ops.insert(i, o) }
        4 => {
            ops[i] = match ops[i].clone() {
                Op::Push(n) => Op::PushInverted(n),
                Op::PushInverted(n) => Op::Push(n),
                Op::Parent => Op::ParentInverted,
                Op::ParentInverted => Op::Parent,
                Op::Child => Op::ChildInverted,
                Op::ChildInverted => Op::Child,
            }
        }
        _ => ops.truncate(i),
    }
}
/// Changes an encoded merk proof; `None` when it cannot be read.
pub fn merk(g: &mut G, bytes: &[u8], f: &mut Forge) -> Option<Vec<u8>> {
    let mut ops = decode(bytes)?;
    if g.chance(1, 6) {
        for _ in 0..g.size(1, 3) { edit(g, &mut ops) }
        return Some(encode(&ops));
    }
    let inverted = ops.iter().any(|o| matches!(o, Op::PushInverted(_)));
    let mut t = parse(&ops)?;
    for _ in 0..g.weighted(&[1, 6, 3, 1]) { change(g, &mut t, f) }
    let mut o = vec![];
    let rate = *g.pick(&[0u64, 0, 0, 1, 4]);
    let inverted = inverted ^ g.chance(1, 16);
    scrambled(g, &t, inverted, rate, &mut o);
    Some(encode(&o))
}
