//! Proof operations: generators and the reference wire format.
#![allow(dead_code)]
use grovedb_query::proofs::{Node, Op, TreeFeatureType};
use vp::G;

pub fn feature(g: &mut G) -> TreeFeatureType {
    use TreeFeatureType::*;
    match g.below(7) {
        0 => BasicMerkNode,
        1 => SummedMerkNode(g.i64b()),
        2 => BigSummedMerkNode(g.i128b()),
        3 => CountedMerkNode(g.u64b()),
        4 => CountedSummedMerkNode(g.u64b(), g.i64b()),
        5 => ProvableCountedMerkNode(g.u64b()),
        _ => ProvableCountedSummedMerkNode(g.u64b(), g.i64b()),
    }
}
pub fn key(g: &mut G) -> Vec<u8> {
    match g.below(8) {
        0 => vec![],
        1 => { let n = g.size(250, 255); g.blob(n) }
        _ => g.bytes(0, 8),
    }
}
pub fn value(g: &mut G) -> Vec<u8> {
    match g.below(12) {
        0 => { let n = g.size(65_530, 65_545); g.blob(n) }
        1 => { let n = g.size(0, 600); g.blob(n) }
        _ => g.bytes(0, 12),
    }
}
pub const NODES: usize = 12;
pub fn node(g: &mut G) -> Node {
    use Node::*;
    match g.below(NODES as u64) {
        0 => Hash(g.hash32()),
        1 => KVHash(g.hash32()),
        2 => KVDigest(key(g), g.hash32()),
        3 => KV(key(g), value(g)),
        4 => KVValueHash(key(g), value(g), g.hash32()),
        5 => KVValueHashFeatureType(key(g), value(g), g.hash32(), feature(g)),
        6 => KVRefValueHash(key(g), value(g), g.hash32()),
        7 => KVCount(key(g), value(g), g.u64b()),
        8 => KVHashCount(g.hash32(), g.u64b()),
        9 => KVRefValueHashCount(key(g), value(g), g.hash32(), g.u64b()),
        10 => KVDigestCount(key(g), g.hash32(), g.u64b()),
        _ => KVValueHashFeatureTypeWithChildHash(key(g), value(g), g.hash32(), feature(g), g.hash32()),
    }
}
pub fn op(g: &mut G) -> Op {
    match g.below(8) {
        0 => Op::Parent,
        1 => Op::Child,
        2 => Op::ParentInverted,
        3 => Op::ChildInverted,
        4 | 5 => Op::Push(node(g)),
        _ => Op::PushInverted(node(g)),
    }
}

fn put_var(o: &mut Vec<u8>, mut n: u64) {
    while n >= 128 { o.push(n as u8 | 128); n >>= 7 }
    o.push(n as u8)
}
fn put_zig(o: &mut Vec<u8>, n: i64) {
    put_var(o, ((n << 1) ^ (n >> 63)) as u64)
}
pub fn put_feature(o: &mut Vec<u8>, f: &TreeFeatureType) {
    use TreeFeatureType::*;
    match f {
        BasicMerkNode => o.push(0),
        SummedMerkNode(s) => { o.push(1); put_zig(o, *s) }
        BigSummedMerkNode(s) => { o.push(2); o.extend(s.to_be_bytes()) }
        CountedMerkNode(c) => { o.push(3); put_var(o, *c) }
        CountedSummedMerkNode(c, s) => { o.push(4); put_var(o, *c); put_zig(o, *s) }
        ProvableCountedMerkNode(c) => { o.push(5); put_var(o, *c) }
        ProvableCountedSummedMerkNode(c, s) => { o.push(6); put_var(o, *c); put_zig(o, *s) }
    }
}
/// Opcodes of (push, push of a long value, inverted push, inverted push of a long value).
fn opcode(n: &Node) -> [u8; 4] {
    match n {
        Node::Hash(..) => [0x01, 0, 0x08, 0],
        Node::KVHash(..) => [0x02, 0, 0x09, 0],
        Node::KV(..) => [0x03, 0x20, 0x0a, 0x28],
        Node::KVValueHash(..) => [0x04, 0x21, 0x0b, 0x29],
        Node::KVDigest(..) => [0x05, 0, 0x0c, 0],
        Node::KVRefValueHash(..) => [0x06, 0x22, 0x0d, 0x2a],
        Node::KVValueHashFeatureType(..) => [0x07, 0x23, 0x0e, 0x2b],
        Node::KVCount(..) => [0x14, 0x24, 0x16, 0x2c],
        Node::KVHashCount(..) => [0x15, 0, 0x17, 0],
        Node::KVRefValueHashCount(..) => [0x18, 0x25, 0x19, 0x2d],
        Node::KVDigestCount(..) => [0x1a, 0, 0x1b, 0],
        Node::KVValueHashFeatureTypeWithChildHash(..) => [0x1c, 0x2e, 0x1d, 0x2f],
    }
}
fn put_node(o: &mut Vec<u8>, n: &Node, inv: bool) {
    let c = opcode(n);
    let at = o.len();
    o.push(c[2 * inv as usize]);
    let mut kv = |o: &mut Vec<u8>, k: &[u8], v: &[u8]| {
        o.push(k.len() as u8);
        o.extend(k);
        if v.len() < 65536 { o.extend((v.len() as u16).to_be_bytes()) } else {
            o[at] = c[2 * inv as usize + 1];
            o.extend((v.len() as u32).to_be_bytes())
        }
        o.extend(v);
    };
    match n {
        Node::Hash(h) | Node::KVHash(h) => o.extend(h),
        Node::KV(k, v) => kv(o, k, v),
        Node::KVValueHash(k, v, h) | Node::KVRefValueHash(k, v, h) => { kv(o, k, v); o.extend(h) }
        Node::KVDigest(k, h) => { o.push(k.len() as u8); o.extend(k); o.extend(h) }
        Node::KVValueHashFeatureType(k, v, h, f) => { kv(o, k, v); o.extend(h); put_feature(o, f) }
        Node::KVCount(k, v, c) => { kv(o, k, v); o.extend(c.to_be_bytes()) }
        Node::KVHashCount(h, c) => { o.extend(h); o.extend(c.to_be_bytes()) }
        Node::KVRefValueHashCount(k, v, h, c) => { kv(o, k, v); o.extend(h); o.extend(c.to_be_bytes()) }
        Node::KVDigestCount(k, h, c) => { o.push(k.len() as u8); o.extend(k); o.extend(h); o.extend(c.to_be_bytes()) }
        Node::KVValueHashFeatureTypeWithChildHash(k, v, h, f, x) => { kv(o, k, v); o.extend(h); put_feature(o, f); o.extend(x) }
    }
}
pub fn put_op(o: &mut Vec<u8>, op: &Op) {
    match op {
        Op::Push(n) => put_node(o, n, false),
        Op::PushInverted(n) => put_node(o, n, true),
        Op::Parent => o.push(0x10),
        Op::Child => o.push(0x11),
        Op::ParentInverted => o.push(0x12),
        Op::ChildInverted => o.push(0x13),
    }
}
