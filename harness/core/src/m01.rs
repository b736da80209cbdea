//! M01: append-only log commitments. M02: append-only log proofs.
use crate::mock::Mock;
use grovedb_merkle_mountain_range::*;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use vp::*;

pub type H = [u8; 32];
pub fn b3(parts: &[&[u8]]) -> H {
    let mut h = blake3::Hasher::new();
    for p in parts {
        h.update(p);
    }
    *h.finalize().as_bytes()
}
pub fn rleaf(v: &[u8]) -> H {
    b3(&[&[0], v])
}
pub fn rmerge(l: &H, r: &H) -> H {
    b3(&[&[1], l, r])
}

/// The reference: every node of the log in storage order, and its peaks.
#[derive(Default, Clone)]
pub struct Ref {
    pub vals: Vec<Vec<u8>>,
    pub nodes: Vec<(H, Option<Vec<u8>>)>,
    pub pos: Vec<u64>,
    /// (number of leaves, hash, position) of each perfect subtree, largest first
    peaks: Vec<(u64, H, u64)>,
}
impl Ref {
    pub fn push(&mut self, v: Vec<u8>) {
        let h = rleaf(&v);
        self.pos.push(self.nodes.len() as u64);
        self.peaks.push((1, h, self.nodes.len() as u64));
        self.nodes.push((h, Some(v.clone())));
        self.vals.push(v);
        while self.peaks.len() >= 2 && self.peaks[self.peaks.len() - 1].0 == self.peaks[self.peaks.len() - 2].0 {
            let (n, r, _) = self.peaks.pop().unwrap();
            let (_, l, _) = self.peaks.pop().unwrap();
            let h = rmerge(&l, &r);
            self.peaks.push((2 * n, h, self.nodes.len() as u64));
            self.nodes.push((h, None));
        }
    }
    pub fn of(vals: &[Vec<u8>]) -> Self {
        let mut r = Ref::default();
        for v in vals {
            r.push(v.clone());
        }
        r
    }
    pub fn size(&self) -> u64 {
        self.nodes.len() as u64
    }
    pub fn root(&self) -> Option<H> {
        let mut it = self.peaks.iter().rev();
        let mut acc = it.next()?.1;
        for p in it {
            acc = rmerge(&acc, &p.1);
        }
        Some(acc)
    }
    pub fn node(&self, pos: u64) -> Option<MmrNode> {
        let (h, v) = self.nodes.get(pos as usize)?;
        Some(match v {
            Some(v) => MmrNode::leaf(v.clone()),
            None => MmrNode::internal(*h),
        })
    }
    /// number of reference nodes below a position's height is not needed; the height itself is
    fn is_leaf(&self, pos: u64) -> bool {
        self.nodes.get(pos as usize).is_some_and(|n| n.1.is_some())
    }
}

fn value(g: &mut G) -> Vec<u8> {
    match g.below(6) {
        0 => vec![],
        1 => vec![g.below(3) as u8],
        2 => g.blob(64),
        3 => {
            let n = g.skewed(1, 300);
            g.blob(n)
        }
        _ => g.bytes(1, 4),
    }
}
pub fn values(g: &mut G, lo: usize, hi: usize) -> Vec<Vec<u8>> {
    let n = match g.below(4) {
        0 => g.size(lo, hi.min(9)),
        1 => ((1usize << g.below(9)) + g.below(3) as usize).saturating_sub(1).clamp(lo, hi),
        _ => g.size(lo, hi),
    };
    if g.chance(1, 8) {
        let v = value(g);
        return vec![v; n];
    }
    let tag = g.below(2);
    (0..n).map(|i| if tag == 0 { vec![i as u8, (i >> 8) as u8] } else { value(g) }).collect()
}

// ---------------------------------------------------------------- M01

enum St<'a> {
    Mem(&'a MemStore),
    Ctx(MmrStore<'a, Mock>),
}
impl MMRStoreReadOps for &St<'_> {
    fn element_at_position(&self, pos: u64) -> CostResult<Option<MmrNode>, Error> {
        match self {
            St::Mem(m) => m.element_at_position(pos),
            St::Ctx(c) => (&c).element_at_position(pos),
        }
    }
}
impl MMRStoreWriteOps for &St<'_> {
    fn append(&mut self, pos: u64, elems: Vec<MmrNode>) -> CostResult<(), Error> {
        match self {
            St::Mem(m) => {
                let mut m = *m;
                m.append(pos, elems)
            }
            St::Ctx(c) => {
                let mut c = c;
                c.append(pos, elems)
            }
        }
    }
}

fn history(g: &mut G) -> R {
    let mem = MemStore::default();
    let ctx = Mock::new();
    let ks = if g.bool() { MmrKeySize::U64 } else { MmrKeySize::U32 };
    let use_ctx = g.bool();
    let st = if use_ctx { St::Ctx(MmrStore::with_key_size(&ctx, ks)) } else { St::Mem(&mem) };
    let mut r = Ref::default();
    let mut committed = 0u64;
    let mut mmr = MMR::new(0, &st);
    let steps = g.size(1, 14);
    let mut kinds = BTreeSet::new();
    for _ in 0..steps {
        let op = g.weighted(&[6, 3, 2, 2, 1]);
        kinds.insert(op);
        match op {
            0 => {
                for v in values(g, 1, 40) {
                    let before = r.size();
                    let lc = r.vals.len() as u64;
                    r.push(v.clone());
                    g.note(|| format!("append #{} ({} bytes)", lc, v.len()));
                    let p = mmr.push(MmrNode::leaf(v)).unwrap().map_err(|e| format!("append failed: {e}"))?;
                    ensure_eq!(p, before, "position returned for leaf {lc}");
                    ensure_eq!(mmr.mmr_size, r.size(), "size after leaf {lc}");
                    ensure_eq!(hash_count_for_push(lc) as u64, r.size() - before, "declared hash count for appending to {lc} leaves");
                }
            }
            1 => {
                g.note(|| "commit".into());
                mmr.commit().unwrap().map_err(|e| format!("commit failed: {e}"))?;
                committed = r.size();
            }
            2 => {
                g.note(|| "commit and reopen".into());
                mmr.commit().unwrap().map_err(|e| format!("commit failed: {e}"))?;
                committed = r.size();
                mmr = MMR::new(committed, &st);
            }
            3 => {
                g.note(|| "reopen with the uncommitted nodes carried over".into());
                let o = mmr.batch.take_overlay();
                mmr = MMR::new_with_overlay(r.size(), &st, o);
            }
            _ => {
                g.note(|| "drop uncommitted appends".into());
                mmr = MMR::new(committed, &st);
                let n = mmr_size_to_leaf_count(committed) as usize;
                r = Ref::of(&r.vals[..n]);
            }
        }
        ensure_eq!(mmr.is_empty(), r.vals.is_empty(), "emptiness");
        let root = mmr.get_root().unwrap();
        match r.root() {
            None => ensure!(root == Err(Error::GetRootOnEmpty), "root of an empty log: {root:?}"),
            Some(h) => ensure_eq!(root.map(|n| n.hash()).map_err(|e| e.to_string()), Ok(h), "root of {} leaves", r.vals.len()),
        }
    }
    // every node reads back, nothing else does
    for p in 0..r.size() {
        let n = mmr.batch.element_at_position(p).unwrap().map_err(|e| e.to_string())?;
        let Some(n) = n else { fail!("node {p} of {} lost", r.size()) };
        ensure_eq!((n.hash(), n.value().map(|v| v.to_vec())), r.nodes[p as usize].clone(), "node {p}");
    }
    let past = mmr.batch.element_at_position(r.size()).unwrap().map_err(|e| e.to_string())?;
    if committed <= r.size() && !kinds.contains(&4) {
        ensure!(past.is_none(), "a node exists past the end");
    }
    mmr.commit().unwrap().map_err(|e| e.to_string())?;
    if use_ctx {
        let d = ctx.dump();
        for p in 0..r.size() {
            let mut key = vec![b'd'];
            match ks {
                MmrKeySize::U64 => key.extend((p | 1 << 63).to_be_bytes()),
                MmrKeySize::U32 => key.extend((p as u32 | 1 << 31).to_be_bytes()),
            }
            let (h, v) = &r.nodes[p as usize];
            let mut want = vec![v.is_some() as u8];
            want.extend(h);
            if let Some(v) = v {
                want.extend((v.len() as u32).to_be_bytes());
                want.extend(v);
            }
            ensure!(d.get(&key) == Some(&want), "stored record of node {p}: {:?} instead of {}", d.get(&key).map(|v| hex(v)), hex(&want));
        }
    }
    g.nontrivial_if(kinds.len() >= 3 && r.vals.len() >= 5);
    for (k, l) in [(3, "overlay"), (4, "dropped"), (2, "reopened")] {
        g.label_if(kinds.contains(&k), l);
    }
    g.label_if(use_ctx, "storage context");
    Ok(())
}

/// A failing store is reported, and what was committed before is untouched.
fn faults(g: &mut G) -> R {
    let ctx = Mock::new();
    let st = MmrStore::new(&ctx);
    let a = values(g, 1, 40);
    let b = values(g, 1, 20);
    let mut mmr = MMR::new(0, &st);
    for v in &a {
        mmr.push(MmrNode::leaf(v.clone())).unwrap().map_err(|e| e.to_string())?;
    }
    mmr.commit().unwrap().map_err(|e| e.to_string())?;
    let ra = Ref::of(&a);
    // a missing node is an error, never a wrong root
    let fork = ctx.fork();
    let victim = g.below(ra.size());
    let mut key = vec![b'd'];
    key.extend((victim | 1 << 63).to_be_bytes());
    match g.below(3) {
        0 => {
            fork.data.borrow_mut().remove(&key);
        }
        1 => {
            let n = fork.data.borrow()[&key].len();
            let cut = g.below(n as u64) as usize;
            fork.data.borrow_mut().get_mut(&key).unwrap().truncate(cut);
        }
        _ => {
            fork.data.borrow_mut().get_mut(&key).unwrap()[0] = 3 + g.below(250) as u8;
        }
    }
    let fst = MmrStore::new(&fork);
    let m = MMR::new(ra.size(), &fst);
    if let Ok(n) = m.get_root().unwrap() {
        ensure_eq!(Some(n.hash()), ra.root(), "root over a store with node {victim} damaged");
    }
    let picks: Vec<u64> = g.list(1, 4, |g| ra.pos[g.below(a.len() as u64) as usize]);
    if let Ok(p) = m.gen_proof(picks.clone()).unwrap() {
        let lv: Vec<_> = picks.iter().collect::<BTreeSet<_>>().into_iter().map(|p| (*p, ra.node(*p).unwrap())).collect();
        let r = p.verify(MmrNode::internal(ra.root().unwrap()), lv);
        ensure!(r == Ok(true), "a proof made over a damaged store does not verify: {r:?}");
    }
    // failing reads and writes surface as errors
    let r2 = ctx.fork();
    let st2 = MmrStore::new(&r2);
    let mut m = MMR::new(ra.size(), &st2);
    let at = g.below(60);
    r2.fail_at.set(Some(at));
    let mut full = a.clone();
    let mut err = false;
    for v in &b {
        match m.push(MmrNode::leaf(v.clone())).unwrap() {
            Ok(_) => full.push(v.clone()),
            Err(_) => {
                err = true;
                break;
            }
        }
    }
    let rf = Ref::of(&full);
    ensure_eq!(m.mmr_size, rf.size(), "size after a failed append");
    let c = m.commit().unwrap();
    err |= c.is_err();
    ensure!(err == r2.failed.get(), "injected failure {} but operations {}", r2.failed.get(), if err { "failed" } else { "succeeded" });
    if !err {
        r2.fail_at.set(None);
        ensure_eq!(m.get_root().unwrap().map(|n| n.hash()).ok(), rf.root(), "root");
    }
    // the old prefix is never touched by appends
    for (k, v) in ctx.data.borrow().iter() {
        ensure!(r2.data.borrow().get(k) == Some(v), "an append changed node {}", hex(k));
    }
    g.label_if(r2.failed.get(), "failure injected");
    g.nontrivial_if(a.len() >= 3 && (r2.failed.get() || b.len() > 2));
    Ok(())
}

fn leaf_index(g: &mut G) -> u64 {
    match g.below(4) {
        0 => g.below(40),
        1 => {
            let k = g.below(62);
            ((1u64 << k) + g.below(4)).saturating_sub(2)
        }
        _ => {
            let k = g.range(1, 62);
            g.raw64() >> (64 - k)
        }
    }
}
fn numbers(g: &mut G) -> R {
    let i = leaf_index(g);
    g.note(|| format!("leaf {i}"));
    let n = i as u128 + 1;
    let size = (2 * n - n.count_ones() as u128) as u64;
    let pos = (2 * i as u128 - i.count_ones() as u128) as u64;
    ensure_eq!(leaf_index_to_mmr_size(i), size, "size after leaf {i}");
    ensure_eq!(leaf_index_to_pos(i), pos, "position of leaf {i}");
    ensure_eq!(mmr_size_to_leaf_count(size), i + 1, "leaves of size {size}");
    ensure_eq!(hash_count_for_push(i) as u64, size - pos, "hashes for leaf {i}");
    // sizes between two valid ones count as the last valid one
    let next = (2 * (n + 1) - (n + 1).count_ones() as u128) as u64;
    let mid = size + g.below(next - size);
    ensure_eq!(mmr_size_to_leaf_count(mid), i + 1, "leaves of (invalid) size {mid}");
    ensure_eq!(mmr_node_key(pos).to_vec(), pos.to_be_bytes().to_vec(), "plain key");
    // keys keep the order of positions and never collide
    let p = leaf_index(g);
    let q = leaf_index(g);
    for ks in [MmrKeySize::U64, MmrKeySize::U32] {
        let (a, b) = (mmr_node_key_sized(p, ks), mmr_node_key_sized(q, ks));
        for (x, r) in [(p, &a), (q, &b)] {
            ensure!(r.is_ok() == (ks == MmrKeySize::U64 || x < MAX_U32_MMR_POSITION), "key of position {x} with {ks:?}: {}", r.is_ok());
        }
        if let (Ok(a), Ok(b)) = (a, b) {
            ensure!(a.as_ref().cmp(b.as_ref()) == p.cmp(&q), "keys of {p} and {q} with {ks:?}");
            ensure!(a.as_ref()[0] & 0x80 != 0, "key of {p} is not tagged");
            ensure_eq!(a.as_ref().len(), if ks == MmrKeySize::U64 { 8 } else { 4 }, "key length");
        }
    }
    g.nontrivial_if(i > 2);
    Ok(())
}

fn record(g: &mut G) -> R {
    let v = value(g);
    let n = match g.below(3) {
        0 => MmrNode::internal(g.hash32()),
        1 => MmrNode::leaf(v.clone()),
        _ => {
            // a node with an external hash
            let mut b = vec![2];
            b.extend(g.hash32());
            b.extend((v.len() as u32).to_be_bytes());
            b.extend(&v);
            MmrNode::deserialize(&b).map_err(|e| format!("external-hash node refused: {e}"))?
        }
    };
    let bytes = n.serialize().map_err(|e| e.to_string())?;
    ensure_eq!(n.serialized_size(), bytes.len() as u64, "declared size");
    let back = MmrNode::deserialize(&bytes).map_err(|e| format!("own encoding refused: {e}"))?;
    ensure_eq!((back.hash(), back.value().map(|v| v.to_vec())), (n.hash(), n.value().map(|v| v.to_vec())), "decoded");
    ensure_eq!(back.serialize().ok(), Some(bytes.clone()), "re-encoded");
    // damaged records: refused, or they re-encode to exactly the damaged bytes
    let mut d = bytes.clone();
    for _ in 0..g.size(1, 3) {
        match g.below(5) {
            0 if !d.is_empty() => {
                let i = g.below(d.len() as u64) as usize;
                d[i] = g.byte();
            }
            1 => {
                let n = g.below(d.len() as u64 + 1) as usize;
                d.truncate(n);
            }
            2 => d.push(g.byte()),
            3 if d.len() >= 37 => {
                let k = 33 + g.below(4) as usize;
                d[k] = g.byte();
            }
            _ => {
                if !d.is_empty() {
                    d[0] = g.below(4) as u8;
                }
            }
        }
    }
    alloc_reset();
    if let Ok(m) = MmrNode::deserialize(&d) {
        ensure_eq!(m.serialize().ok(), Some(d.clone()), "accepted but not the canonical form of what it decodes to");
        if d[0] == 1 {
            ensure_eq!(m.hash(), rleaf(m.value().unwrap()), "a leaf whose hash is not the hash of its value was accepted");
        }
    }
    ensure!(alloc_peak() < 100_000, "decoding {} bytes allocated {}", d.len(), alloc_peak());
    g.nontrivial_if(d != bytes);
    // hashing
    let (a, b) = (g.hash32(), g.hash32());
    ensure_eq!(leaf_hash(&v), rleaf(&v), "leaf hash");
    ensure_eq!(blake3_merge(&a, &b), rmerge(&a, &b), "inner hash");
    ensure_eq!(MmrNode::merge(&MmrNode::internal(a), &MmrNode::internal(b)).hash(), rmerge(&a, &b), "inner node");
    Ok(())
}

pub fn m01() -> Vec<Section> {
    vec![
        section("history", "appends, commits, reopens and carried-over or dropped overlays against a reference log; non-trivial: three kinds of step and at least 5 leaves", 20_000, 300_000, history),
        section("faults", "damaged, failing and short-writing stores; non-trivial: at least 3 leaves and a failure injected or 3+ further appends", 20_000, 300_000, faults),
        section("numbers", "leaf indices up to 2^62; non-trivial: index > 2", 300_000, 5_000_000, numbers),
        section("record", "node records, intact and damaged; non-trivial: damaged differs from intact", 200_000, 3_000_000, record),
    ]
}

// ---------------------------------------------------------------- M02

fn subset(g: &mut G, n: usize) -> Vec<u64> {
    let n64 = n as u64;
    let mut s: Vec<u64> = match g.below(5) {
        0 => vec![g.below(n64)],
        1 => vec![n64 - 1],
        2 => (0..n64).collect(),
        3 => {
            let a = g.below(n64);
            let b = g.range(a, n64 - 1);
            (a..=b).collect()
        }
        _ => g.list(1, 6, |g| g.below(n64)),
    };
    let mut seen = BTreeSet::new();
    s.retain(|x| seen.insert(*x));
    if g.bool() {
        s.reverse();
    }
    s
}
fn generate(r: &Ref, size: u64, idx: &[u64]) -> Result<MmrTreeProof> {
    MmrTreeProof::generate(size, idx, |p| Ok(r.node(p)))
}

fn complete(g: &mut G) -> R {
    let vals = values(g, 1, 120);
    let r = Ref::of(&vals);
    let root = r.root().unwrap();
    let idx = subset(g, vals.len());
    g.note(|| format!("{} leaves, prove {idx:?}", vals.len()));
    let p = generate(&r, r.size(), &idx).map_err(|e| format!("proof refused: {e}"))?;
    let want: Vec<(u64, Vec<u8>)> = idx.iter().map(|i| (*i, vals[*i as usize].clone())).collect();
    ensure_eq!(p.leaves().to_vec(), want, "leaves of the proof");
    ensure_eq!(p.mmr_size(), r.size(), "size in the proof");
    ensure_eq!(p.verify(&root).map_err(|e| e.to_string()), Ok(want.clone()), "an honest proof");
    ensure_eq!(p.verify_and_get_root().map_err(|e| e.to_string()), Ok((root, want.clone())), "an honest proof's root");
    let bytes = p.encode_to_vec().map_err(|e| e.to_string())?;
    let q = MmrTreeProof::decode_from_slice(&bytes).map_err(|e| format!("own encoding refused: {e}"))?;
    ensure_eq!((q.mmr_size(), q.leaves(), q.proof_items()), (p.mmr_size(), p.leaves(), p.proof_items()), "decoded proof");
    ensure_eq!(q.verify(&root).map_err(|e| e.to_string()), Ok(want.clone()), "decoded proof");
    ensure_eq!(q.encode_to_vec().ok(), Some(bytes), "re-encoded proof");
    // not more than the classical bound
    let bound = 64 * idx.len();
    ensure!(p.proof_items().len() <= bound, "{} proof items for {} leaves", p.proof_items().len(), idx.len());
    // the same with positions, from a stored log
    let mem = MemStore::default();
    let mut m = MMR::new(0, &mem);
    for v in &vals {
        m.push(MmrNode::leaf(v.clone())).unwrap().map_err(|e| e.to_string())?;
    }
    if g.bool() {
        m.commit().unwrap().map_err(|e| e.to_string())?;
    }
    let pos: Vec<u64> = idx.iter().map(|i| r.pos[*i as usize]).collect();
    let mp = m.gen_proof(pos.clone()).unwrap().map_err(|e| format!("proof refused: {e}"))?;
    ensure_eq!(mp.proof_items().iter().map(|n| n.hash()).collect::<Vec<_>>(), p.proof_items().to_vec(), "items of the two proofs");
    let lv: Vec<_> = pos.iter().map(|p| (*p, r.node(*p).unwrap())).collect();
    ensure_eq!(mp.verify(MmrNode::internal(root), lv.clone()).map_err(|e| e.to_string()), Ok(true), "an honest proof");
    ensure_eq!(mp.calculate_root(lv).map(|n| n.hash()).map_err(|e| e.to_string()), Ok(root), "an honest proof");
    // the wrong root is refused
    let mut other = root;
    other[g.below(32) as usize] ^= 1 << g.below(8);
    ensure!(p.verify(&other).is_err(), "verified against another root");
    // nothing goes into it besides (in the proof of the only leaf, items are not looked at)
    let mut items = p.proof_items().to_vec();
    items.insert(g.below(items.len() as u64 + 1) as usize, g.hash32());
    ensure!(vals.len() == 1 || MmrTreeProof::new(p.mmr_size(), p.leaves().to_vec(), items).verify(&root).is_err(), "a proof with another item verifies");
    // refusals
    let bad = vals.len() as u64 + g.below(3);
    ensure!(generate(&r, r.size(), &[bad]).is_err(), "leaf {bad} of {} proved", vals.len());
    ensure!(generate(&r, r.size(), &[]).is_err(), "an empty proof was made");
    let mut dup = idx.clone();
    dup.push(idx[0]);
    ensure!(generate(&r, r.size(), &dup).is_err(), "a duplicate leaf was proved");
    let ip = g.below(r.size());
    if !r.is_leaf(ip) {
        ensure!(m.gen_proof(vec![ip]).unwrap().is_err(), "inner node {ip} proved as a leaf");
    }
    ensure!(m.gen_proof(vec![leaf_index_to_pos(bad)]).unwrap().is_err(), "leaf {bad} of {} proved", vals.len());
    g.nontrivial_if(vals.len() >= 3 && idx.len() >= 2);
    Ok(())
}

fn incremental(g: &mut G) -> R {
    let vals = values(g, 2, 120);
    let k = g.range(1, vals.len() as u64 - 1) as usize;
    let (old, new) = (Ref::of(&vals[..k]), Ref::of(&vals));
    g.note(|| format!("{k} leaves, then {}", vals.len()));
    let mem = MemStore::default();
    let mut m = MMR::new(0, &mem);
    for v in &vals {
        m.push(MmrNode::leaf(v.clone())).unwrap().map_err(|e| e.to_string())?;
    }
    let p = m.gen_proof(new.pos[k..].to_vec()).unwrap().map_err(|e| e.to_string())?;
    let added: Vec<MmrNode> = vals[k..].iter().map(|v| MmrNode::leaf(v.clone())).collect();
    let (ro, rn) = (MmrNode::internal(old.root().unwrap()), MmrNode::internal(new.root().unwrap()));
    ensure_eq!(p.verify_incremental(rn.clone(), ro.clone(), added.clone()).map_err(|e| e.to_string()), Ok(true), "growth from {k} to {} leaves", vals.len());
    // anything else is not accepted
    let mut items = p.proof_items().to_vec();
    let (mut a, mut o, mut n) = (added.clone(), ro.clone(), rn.clone());
    let what = match g.below(7) {
        0 => {
            let i = g.below(a.len() as u64) as usize;
            a[i] = MmrNode::leaf(b"forged".to_vec());
            "another appended leaf"
        }
        1 => {
            a.pop();
            "one appended leaf less"
        }
        2 => {
            a.push(added[0].clone());
            "one appended leaf more"
        }
        3 => {
            o = MmrNode::internal(g.hash32());
            "another old root"
        }
        4 => {
            n = MmrNode::internal(g.hash32());
            "another new root"
        }
        5 if k > 1 => {
            o = MmrNode::internal(Ref::of(&vals[..k - 1]).root().unwrap());
            "an older root"
        }
        _ => {
            let i = g.below(items.len() as u64) as usize;
            items[i] = MmrNode::internal(g.hash32());
            "another proof item"
        }
    };
    let same = a == added && o == ro && n == rn && items == p.proof_items();
    if !same {
        let q = MerkleProof::new(new.size(), items);
        let r = q.verify_incremental(n, o, a);
        ensure!(r != Ok(true), "growth accepted with {what}");
        g.label(what);
    }
    // the root with one more leaf, from a proof of the last leaf
    let last = vals.len() - 2;
    let rl = Ref::of(&vals[..=last]);
    let mut idx = if g.bool() { vec![last as u64] } else { subset(g, last + 1) };
    if !idx.contains(&(last as u64)) {
        idx.push(last as u64);
    }
    let m2 = MMR::new(rl.size(), MemView(&rl));
    let mp = m2.gen_proof(idx.iter().map(|i| rl.pos[*i as usize]).collect()).unwrap().map_err(|e| e.to_string())?;
    let lv: Vec<_> = idx.iter().map(|i| (rl.pos[*i as usize], rl.node(rl.pos[*i as usize]).unwrap())).collect();
    let got = mp.calculate_root_with_new_leaf(lv, new.pos[last + 1], MmrNode::leaf(vals[last + 1].clone()), new.size());
    ensure_eq!(got.map(|n| n.hash()).map_err(|e| e.to_string()), Ok(new.root().unwrap()), "root of {} leaves from a proof of {idx:?} among {}", vals.len(), last + 1);
    g.nontrivial_if(k >= 2 && vals.len() - k >= 2);
    Ok(())
}
struct MemView<'a>(&'a Ref);
impl MMRStoreReadOps for MemView<'_> {
    fn element_at_position(&self, pos: u64) -> CostResult<Option<MmrNode>, Error> {
        Ok(self.0.node(pos)).wrap_with_cost(OperationCost::default())
    }
}

/// Whatever verifies against the true root (for the true size) is true.
fn sound(g: &mut G) -> R {
    let vals = values(g, 1, 60);
    let r = Ref::of(&vals);
    let root = r.root().unwrap();
    let idx = subset(g, vals.len());
    let p = generate(&r, r.size(), &idx).map_err(|e| e.to_string())?;
    let (mut leaves, mut items) = (p.leaves().to_vec(), p.proof_items().to_vec());
    let other = |g: &mut G| vals[g.below(vals.len() as u64) as usize].clone();
    let mut what = vec![];
    for _ in 0..g.size(1, 3) {
        let nl = leaves.len() as u64;
        let op = g.below(12);
        what.push(op);
        match op {
            0 if nl > 0 => {
                let i = g.below(nl) as usize;
                leaves[i].1 = value(g);
            }
            1 if nl > 0 => {
                let i = g.below(nl) as usize;
                leaves[i].1 = other(g);
            }
            2 if nl > 0 => {
                let i = g.below(nl) as usize;
                leaves[i].0 = g.below(vals.len() as u64 + 2);
            }
            3 if nl > 0 => {
                leaves.remove(g.below(nl) as usize);
            }
            4 if nl > 0 => {
                // the same index again, with another value, before or after the real one
                let (i, _) = leaves[g.below(nl) as usize].clone();
                let e = (i, value(g));
                let at = g.below(nl + 1) as usize;
                leaves.insert(at, e);
            }
            5 => {
                let e = (g.below(vals.len() as u64 + 1), other(g));
                let at = g.below(nl + 1) as usize;
                leaves.insert(at, e);
            }
            6 if !items.is_empty() => {
                items.remove(g.below(items.len() as u64) as usize);
            }
            7 => {
                let e = if g.bool() { g.hash32() } else { r.nodes[g.below(r.size()) as usize].0 };
                let at = g.below(items.len() as u64 + 1) as usize;
                items.insert(at, e);
            }
            8 if !items.is_empty() => {
                let i = g.below(items.len() as u64) as usize;
                items[i] = if g.bool() { g.hash32() } else { r.nodes[g.below(r.size()) as usize].0 };
            }
            9 if items.len() > 1 => {
                let i = g.below(items.len() as u64) as usize;
                let j = g.below(items.len() as u64) as usize;
                items.swap(i, j);
            }
            10 if nl > 1 => {
                let i = g.below(nl) as usize;
                let j = g.below(nl) as usize;
                let t = leaves[i].1.clone();
                leaves[i].1 = std::mem::replace(&mut leaves[j].1, t);
            }
            _ => {
                // a leaf that claims to be an inner node's preimage
                let n = g.below(r.size()) as usize;
                let m = g.below(r.size()) as usize;
                let mut v = r.nodes[n].0.to_vec();
                v.extend(r.nodes[m].0);
                leaves.push((g.below(vals.len() as u64), v));
            }
        }
    }
    let changed = leaves != p.leaves() || items != p.proof_items();
    g.note(|| format!("{} leaves; proof of {idx:?} changed by {what:?}: leaves {:?}, {} items", vals.len(), leaves.iter().map(|l| (l.0, hex(&l.1))).collect::<Vec<_>>(), items.len()));
    let q = MmrTreeProof::new(r.size(), leaves.clone(), items.clone());
    let check = |out: VerifiedLeaves, by: &str| -> R {
        ensure!(!out.is_empty(), "{by}: nothing verified");
        let mut seen = BTreeSet::new();
        for (i, v) in &out {
            ensure!(seen.insert(*i), "{by}: leaf {i} reported twice");
            ensure!(vals.get(*i as usize) == Some(v), "{by}: leaf {i} reported as {}", hex(v));
        }
        Ok(())
    };
    let mut ok = false;
    if let Ok(out) = q.verify(&root) {
        check(out, "verify")?;
        ok = true;
    }
    if let Ok((h, out)) = q.verify_and_get_root() {
        if h == root {
            check(out, "root calculation")?;
            ok = true;
        }
    }
    let lv: Vec<(u64, MmrNode)> = leaves.iter().filter(|l| l.0 < vals.len() as u64).map(|(i, v)| (r.pos[*i as usize], MmrNode::leaf(v.clone()))).collect();
    let mp = MerkleProof::new(r.size(), items.iter().map(|h| MmrNode::internal(*h)).collect());
    if !lv.is_empty() && lv.iter().map(|l| l.0).collect::<BTreeSet<_>>().len() == lv.len() && mp.verify(MmrNode::internal(root), lv.clone()) == Ok(true) {
        for (p, n) in lv {
            ensure_eq!(n.hash(), r.nodes[p as usize].0, "position {p} verified with another leaf");
        }
    }
    g.nontrivial_if(changed);
    g.label_if(ok, "still verifies");
    Ok(())
}

/// Any bytes, any sizes: an error or an answer, in bounded memory.
fn robust(g: &mut G) -> R {
    let bytes = if g.bool() {
        let vals = values(g, 1, 12);
        let r = Ref::of(&vals);
        let idx = subset(g, vals.len());
        let mut b = generate(&r, r.size(), &idx).map_err(|e| e.to_string())?.encode_to_vec().map_err(|e| e.to_string())?;
        for _ in 0..g.size(1, 4) {
            let i = g.below(b.len() as u64 + 1) as usize;
            match g.below(3) {
                0 if i < b.len() => b[i] = *g.pick(&[0, 1, 127, 128, 250, 251, 252, 253, 254, 255]),
                1 => b.insert(i, *g.pick(&[0, 1, 250, 251, 252, 253, 255])),
                _ => b.truncate(i),
            }
        }
        b
    } else {
        g.bytes(0, 40)
    };
    g.note(|| format!("bytes {}", hex(&bytes)));
    alloc_reset();
    let d = MmrTreeProof::decode_from_slice(&bytes);
    ensure!(alloc_peak() < 220 << 20, "decoding {} bytes allocated {}", bytes.len(), alloc_peak());
    let root = g.hash32();
    if let Ok(p) = &d {
        let _ = p.verify(&root);
        let _ = p.verify_and_get_root();
        let q = p.encode_to_vec().and_then(|b| MmrTreeProof::decode_from_slice(&b)).map_err(|e| format!("decoded proof does not re-encode: {e}"))?;
        ensure_eq!((q.mmr_size(), q.leaves(), q.proof_items()), (p.mmr_size(), p.leaves(), p.proof_items()), "re-encoded");
    }
    let size = g.u64b();
    let leaves = g.list(0, 4, |g| {
        let i = match g.below(4) {
            0 => mmr_size_to_leaf_count(size).wrapping_sub(g.below(3)),
            1 => g.u64b(),
            _ => g.below(8),
        };
        (i, g.bytes(0, 3))
    });
    let items = g.list(0, 6, |g| g.hash32());
    g.note(|| format!("size {size}, leaves {leaves:?}, {} items", items.len()));
    let p = MmrTreeProof::new(size, leaves.clone(), items.clone());
    ensure!(p.verify(&root).is_err(), "verified against a random root");
    let any = p.verify_and_get_root();
    g.label_if(d.is_ok(), "decoded");
    g.label_if(any.is_ok(), "root calculated");
    g.nontrivial_if(d.is_ok() || any.is_ok());
    Ok(())
}

/// Proof making over a partial or failing node source.
fn sources(g: &mut G) -> R {
    let vals = values(g, 1, 60);
    let r = Ref::of(&vals);
    let idx = subset(g, vals.len());
    let missing: BTreeSet<u64> = g.list(0, 3, |g| g.below(r.size())).into_iter().collect();
    let mode = g.below(3);
    let asked = std::cell::RefCell::new(BTreeMap::new());
    let hit = Cell::new(false);
    let p = MmrTreeProof::generate(r.size(), &idx, |p| {
        *asked.borrow_mut().entry(p).or_insert(0) += 1;
        if missing.contains(&p) {
            hit.set(true);
            return match mode {
                0 => Ok(None),
                1 => Err(Error::StoreError("injected".into())),
                _ => Ok(Some(MmrNode::internal(r.nodes[p as usize].0))),
            };
        }
        Ok(r.node(p))
    });
    match p {
        Ok(p) => {
            ensure!(!hit.get() || mode == 2, "a proof was made although a needed node is missing");
            let want: Vec<(u64, Vec<u8>)> = idx.iter().map(|i| (*i, vals[*i as usize].clone())).collect();
            ensure_eq!(p.verify(&r.root().unwrap()).map_err(|e| e.to_string()), Ok(want), "proof over a partial source");
        }
        Err(e) => {
            ensure!(hit.get(), "refused although every node was available: {e}");
            if mode == 1 {
                ensure!(e.to_string().contains("injected"), "the cause of a failure is lost: {e}");
            }
        }
    }
    for p in asked.borrow().keys() {
        ensure!(*p < r.size(), "node {p} of {} was asked for", r.size());
    }
    g.nontrivial_if(!missing.is_empty());
    g.label_if(hit.get(), "needed node missing");
    Ok(())
}

pub fn m02() -> Vec<Section> {
    vec![
        section("complete", "proofs of leaf subsets of logs up to 120 leaves; non-trivial: 3+ leaves and 2+ proved", 20_000, 300_000, complete),
        section("incremental", "growth proofs and one-more-leaf roots; non-trivial: both parts have 2+ leaves", 20_000, 300_000, incremental),
        section("sound", "proofs changed in 1-3 ways; non-trivial: the proof really differs", 60_000, 1_000_000, sound),
        section("robust", "damaged and arbitrary encodings, extreme sizes and indices; non-trivial: decodes or computes a root", 100_000, 2_000_000, robust),
        section("sources", "missing, failing and wrong-kind nodes while proving; non-trivial: some node is missing", 30_000, 300_000, sources),
    ]
}
