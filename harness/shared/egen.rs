//! Element and reference generators, and the reference encoding of elements.
#![allow(dead_code)]
use grovedb_element::ElementType;
use grovedb_element::reference_path::ReferencePathType;
use grovedb_element::Element;
use vp::G;

pub fn bytes(g: &mut G) -> Vec<u8> {
    match g.below(8) {
        0 => vec![],
        1 => { let n = g.size(250, 252); g.blob(n) }
        2 if g.chance(1, 20) => { let n = g.size(65_535, 65_537); g.blob(n) }
        _ => g.bytes(0, 12),
    }
}
pub fn flags(g: &mut G) -> Option<Vec<u8>> {
    g.bool().then(|| bytes(g))
}
pub fn root_key(g: &mut G) -> Option<Vec<u8>> {
    g.bool().then(|| bytes(g))
}
pub fn segs(g: &mut G) -> Vec<Vec<u8>> {
    g.list(0, 4, |g| if g.chance(1, 8) { bytes(g) } else { vec![g.below(3) as u8; g.size(1, 2)] })
}
pub fn reference(g: &mut G) -> ReferencePathType {
    use ReferencePathType::*;
    match g.below(7) {
        0 => AbsolutePathReference(segs(g)),
        1 => UpstreamRootHeightReference(hops(g), segs(g)),
        2 => UpstreamRootHeightWithParentPathAdditionReference(hops(g), segs(g)),
        3 => UpstreamFromElementHeightReference(hops(g), segs(g)),
        4 => CousinReference(bytes(g)),
        5 => RemovedCousinReference(segs(g)),
        _ => SiblingReference(bytes(g)),
    }
}
fn hops(g: &mut G) -> u8 {
    if g.chance(1, 8) { g.byte() } else { g.below(5) as u8 }
}
pub fn element(g: &mut G) -> Element {
    use Element::*;
    match g.below(15) {
        0 => Item(bytes(g), flags(g)),
        1 => Reference(reference(g), g.bool().then(|| g.byte()), flags(g)),
        2 => Tree(root_key(g), flags(g)),
        3 => SumItem(g.i64b(), flags(g)),
        4 => SumTree(root_key(g), g.i64b(), flags(g)),
        5 => BigSumTree(root_key(g), g.i128b(), flags(g)),
        6 => CountTree(root_key(g), g.u64b(), flags(g)),
        7 => CountSumTree(root_key(g), g.u64b(), g.i64b(), flags(g)),
        8 => ProvableCountTree(root_key(g), g.u64b(), flags(g)),
        9 => ItemWithSumItem(bytes(g), g.i64b(), flags(g)),
        10 => ProvableCountSumTree(root_key(g), g.u64b(), g.i64b(), flags(g)),
        11 => CommitmentTree(g.u64b(), g.byte(), flags(g)),
        12 => MmrTree(g.u64b(), flags(g)),
        13 => BulkAppendTree(g.u64b(), g.byte(), flags(g)),
        _ => DenseAppendOnlyFixedSizeTree(g.u64b() as u16, g.byte(), flags(g)),
    }
}

pub const KINDS: [ElementType; 15] = {
    use ElementType::*;
    [
        Item, Reference, Tree, SumItem, SumTree, BigSumTree, CountTree, CountSumTree, ProvableCountTree, ItemWithSumItem,
        ProvableCountSumTree, CommitmentTree, MmrTree, BulkAppendTree, DenseAppendOnlyFixedSizeTree,
    ]
};

// ---- the stored format, written out

pub fn put_uint(out: &mut Vec<u8>, v: u128) {
    match v {
        0..=250 => out.push(v as u8),
        251..=0xffff => { out.push(251); out.extend((v as u16).to_be_bytes()) }
        0x1_0000..=0xffff_ffff => { out.push(252); out.extend((v as u32).to_be_bytes()) }
        0x1_0000_0000..=0xffff_ffff_ffff_ffff => { out.push(253); out.extend((v as u64).to_be_bytes()) }
        _ => { out.push(254); out.extend(v.to_be_bytes()) }
    }
}
pub fn put_int(out: &mut Vec<u8>, v: i128) {
    put_uint(out, if v < 0 { !(v as u128) * 2 + 1 } else { (v as u128) * 2 })
}
fn put_i64(out: &mut Vec<u8>, v: i64) {
    put_int(out, v as i128)
}
pub fn put_bytes(out: &mut Vec<u8>, b: &[u8]) {
    put_uint(out, b.len() as u128);
    out.extend_from_slice(b);
}
fn put_opt(out: &mut Vec<u8>, b: &Option<Vec<u8>>) {
    match b {
        None => out.push(0),
        Some(b) => { out.push(1); put_bytes(out, b) }
    }
}
fn put_segs(out: &mut Vec<u8>, s: &[Vec<u8>]) {
    put_uint(out, s.len() as u128);
    for x in s { put_bytes(out, x) }
}
pub fn put_ref(o: &mut Vec<u8>, r: &ReferencePathType) {
    use ReferencePathType::*;
    match r {
        AbsolutePathReference(p) => { o.push(0); put_segs(o, p) }
        UpstreamRootHeightReference(n, p) => { o.extend([1, *n]); put_segs(o, p) }
        UpstreamRootHeightWithParentPathAdditionReference(n, p) => { o.extend([2, *n]); put_segs(o, p) }
        UpstreamFromElementHeightReference(n, p) => { o.extend([3, *n]); put_segs(o, p) }
        CousinReference(k) => { o.push(4); put_bytes(o, k) }
        RemovedCousinReference(p) => { o.push(5); put_segs(o, p) }
        SiblingReference(k) => { o.push(6); put_bytes(o, k) }
    }
}
pub fn encode(e: &Element) -> Vec<u8> {
    use Element::*;
    let mut o = vec![];
    let f = match e {
        Item(v, f) => { o.push(0); put_bytes(&mut o, v); f }
        Reference(r, h, f) => {
            o.push(1);
            put_ref(&mut o, r);
            match h { None => o.push(0), Some(h) => o.extend([1, *h]) }
            f
        }
        Tree(k, f) => { o.push(2); put_opt(&mut o, k); f }
        SumItem(v, f) => { o.push(3); put_i64(&mut o, *v); f }
        SumTree(k, v, f) => { o.push(4); put_opt(&mut o, k); put_i64(&mut o, *v); f }
        BigSumTree(k, v, f) => { o.push(5); put_opt(&mut o, k); put_int(&mut o, *v); f }
        CountTree(k, c, f) => { o.push(6); put_opt(&mut o, k); put_uint(&mut o, *c as u128); f }
        CountSumTree(k, c, v, f) => { o.push(7); put_opt(&mut o, k); put_uint(&mut o, *c as u128); put_i64(&mut o, *v); f }
        ProvableCountTree(k, c, f) => { o.push(8); put_opt(&mut o, k); put_uint(&mut o, *c as u128); f }
        ItemWithSumItem(v, s, f) => { o.push(9); put_bytes(&mut o, v); put_i64(&mut o, *s); f }
        ProvableCountSumTree(k, c, v, f) => { o.push(10); put_opt(&mut o, k); put_uint(&mut o, *c as u128); put_i64(&mut o, *v); f }
        CommitmentTree(c, p, f) => { o.push(11); put_uint(&mut o, *c as u128); o.push(*p); f }
        MmrTree(c, f) => { o.push(12); put_uint(&mut o, *c as u128); f }
        BulkAppendTree(c, p, f) => { o.push(13); put_uint(&mut o, *c as u128); o.push(*p); f }
        DenseAppendOnlyFixedSizeTree(c, h, f) => { o.push(14); put_uint(&mut o, *c as u128); o.push(*h); f }
    };
    put_opt(&mut o, f);
    o
}
