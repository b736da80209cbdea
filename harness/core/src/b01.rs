//! B01: chunked log commitments. B02: chunked log proofs.
use crate::d01::{self, pos_query, rroot, S};
use crate::m01::{b3, Ref, H};
use crate::mock::Mock;
use grovedb_bulk_append_tree::*;
use grovedb_merkle_mountain_range::MmrTreeProof;
use grovedb_query::{Query, QueryItem};
use std::collections::BTreeSet;
use vp::*;

pub fn rblob(es: &[Vec<u8>]) -> Vec<u8> {
    if es.is_empty() {
        return vec![];
    }
    let l = es[0].len();
    let mut b = vec![];
    if es.iter().all(|e| e.len() == l) {
        b.push(1);
        b.extend((es.len() as u32).to_be_bytes());
        b.extend((l as u32).to_be_bytes());
        for e in es {
            b.extend(e);
        }
    } else {
        b.push(0);
        for e in es {
            b.extend((e.len() as u32).to_be_bytes());
            b.extend(e);
        }
    }
    b
}
struct Model {
    h: u8,
    vals: Vec<Vec<u8>>,
}
impl Model {
    fn epoch(&self) -> usize {
        1 << self.h
    }
    fn chunks(&self) -> Vec<&[Vec<u8>]> {
        self.vals.chunks_exact(self.epoch()).collect()
    }
    fn buffer(&self) -> &[Vec<u8>] {
        self.vals.chunks_exact(self.epoch()).remainder()
    }
    fn mmr(&self) -> Ref {
        Ref::of(&self.chunks().into_iter().map(rblob).collect::<Vec<_>>())
    }
    fn root(&self) -> H {
        b3(&[b"bulk_state", &self.mmr().root().unwrap_or([0; 32]), &rroot(self.buffer(), self.h)])
    }
}
fn value(g: &mut G, fixed: bool) -> Vec<u8> {
    if fixed {
        g.bytes(2, 2)
    } else {
        d01::value(g)
    }
}
type Tree<'a> = BulkAppendTree<S<'a>>;

fn history(g: &mut G) -> R {
    let h = if g.chance(1, 20) { 16 } else { g.range(1, 4) as u8 };
    let st = Mock::new();
    let mut t = Tree::new(h, S(&st)).map_err(|e| e.to_string())?;
    let mut m = Model { h, vals: vec![] };
    let fixed = g.chance(1, 3);
    let mut mixed = g.bool();
    let mut kinds = BTreeSet::new();
    g.note(|| format!("height {h}"));
    for _ in 0..g.size(1, 16) {
        let op = g.weighted(&[8, 2, 2, 2, 2, 2]);
        kinds.insert(op);
        match op {
            0 => {
                for _ in 0..g.size(1, 10) {
                    mixed ^= g.chance(1, 6);
                    let v = value(g, fixed || mixed);
                    g.note(|| format!("append {}", hex(&v)));
                    m.vals.push(v.clone());
                    let r = t.append(&v).map_err(|e| format!("append failed: {e}"))?;
                    let n = m.vals.len();
                    ensure_eq!(r.global_position as usize, n - 1, "position");
                    ensure_eq!(r.compacted, n % m.epoch() == 0, "compacted at {n}");
                    ensure_eq!(r.state_root, m.root(), "state root after {n} values");
                    let hashes = if r.compacted { 1 + (n / m.epoch() - 1).trailing_ones() as usize } else { 2 * m.buffer().len() };
                    ensure_eq!(r.hash_count as usize, hashes + 1, "hash count of append #{}", n - 1);
                }
            }
            1 => {
                g.note(|| "commit".into());
                t.commit_mmr().map_err(|e| e.to_string())?;
            }
            2 => {
                g.note(|| "commit and reopen".into());
                t.commit_mmr().map_err(|e| e.to_string())?;
                t = Tree::from_state(m.vals.len() as u64, h, S(&st)).map_err(|e| e.to_string())?;
            }
            3 => {
                let p = g.below(m.buffer().len() as u64 + 3);
                ensure_eq!(t.get_buffer_value(p as u16).map_err(|e| e.to_string()), Ok(m.buffer().get(p as usize).cloned()), "buffer value {p}");
                let (q, want) = pos_query(g, m.buffer().len() as u64, &mut |g, n| {
                    let p = g.below(n + 2);
                    (p, (p as u16).to_be_bytes().to_vec())
                });
                let r = t.query_buffer(&q).map_err(|e| format!("buffer query {:?}: {e}", q.items))?;
                let want: Vec<(u16, Vec<u8>)> = want.iter().map(|p| (*p as u16, m.buffer()[*p as usize].clone())).collect();
                ensure_eq!(r.entries, want, "buffer query {:?}", q.items);
                let got: Vec<(u16, Vec<u8>)> = r.proof.verify_against_expected_root(&rroot(m.buffer(), h), h, m.buffer().len() as u16).map_err(|e| format!("buffer proof refused: {e}"))?;
                ensure_eq!(got, want, "buffer proof");
            }
            4 => {
                let c = m.chunks();
                let i = g.below(c.len() as u64 + 2);
                ensure_eq!(t.get_chunk_value(i).map_err(|e| e.to_string()), Ok(c.get(i as usize).map(|c| rblob(c))), "chunk {i}");
                let idx = g.list(0, 4, |g| g.below(c.len() as u64 + 1));
                let r = t.query_chunks(&idx);
                if idx.iter().any(|i| *i >= c.len() as u64) {
                    ensure!(r.is_err(), "chunks {idx:?} of {} returned", c.len());
                } else {
                    let r = r.map_err(|e| format!("chunks {idx:?}: {e}"))?;
                    let want: Vec<(u64, Vec<Vec<u8>>)> = idx.iter().map(|i| (*i, c[*i as usize].to_vec())).collect();
                    ensure_eq!(r.chunks, want, "chunks {idx:?}");
                    if !idx.is_empty() {
                        let mr = m.mmr();
                        ensure_eq!(Some(r.mmr_root), mr.root(), "root returned with chunks");
                        let uniq: BTreeSet<u64> = idx.iter().copied().collect();
                        let p = MmrTreeProof::new(mr.size(), uniq.iter().map(|i| (*i, rblob(c[*i as usize]))).collect(), r.mmr_proof_items.clone());
                        ensure!(p.verify(&r.mmr_root).is_ok(), "the chunk proof items do not verify");
                    }
                }
            }
            _ => ensure_eq!(t.compute_current_state_root().map_err(|e| e.to_string()), Ok(m.root()), "state root of {} values", m.vals.len()),
        }
        let n = m.vals.len();
        ensure_eq!((t.total_count as usize, t.chunk_count() as usize, t.buffer_count() as usize), (n, n / m.epoch(), n % m.epoch()), "counts");
        ensure_eq!((t.height(), t.capacity() as usize, t.epoch_size() as usize), (h, m.epoch() - 1, m.epoch()), "shape");
        ensure_eq!(t.mmr_size(), m.mmr().size(), "size of the chunk log");
        ensure_eq!(leaf_count_to_mmr_size(t.chunk_count()), t.mmr_size(), "size by count");
    }
    t.commit_mmr().map_err(|e| e.to_string())?;
    let t = Tree::from_state(m.vals.len() as u64, h, S(&st)).map_err(|e| e.to_string())?;
    ensure_eq!(t.compute_current_state_root().map_err(|e| e.to_string()), Ok(m.root()), "state root after reopening {} values", m.vals.len());
    for (i, c) in m.chunks().iter().enumerate() {
        let b = t.get_chunk_value(i as u64).map_err(|e| e.to_string())?.ok_or("chunk lost")?;
        ensure_eq!(deserialize_chunk_blob(&b).map_err(|e| e.to_string()), Ok(c.to_vec()), "chunk {i}");
    }
    for bad in [0u8, 17, 255] {
        ensure!(Tree::new(bad, S(&st)).is_err() && Tree::from_state(0, bad, S(&st)).is_err(), "height {bad} accepted");
    }
    g.label_if(m.chunks().len() >= 2, "two chunks");
    g.label_if(kinds.contains(&2), "reopened");
    g.nontrivial_if(!m.chunks().is_empty() && kinds.len() >= 3);
    Ok(())
}

/// A failed flush loses nothing; a lost record is an error and never another root.
fn faults(g: &mut G) -> R {
    let h = g.range(1, 3) as u8;
    let st = Mock::new();
    let mut t = Tree::new(h, S(&st)).map_err(|e| e.to_string())?;
    let mut m = Model { h, vals: vec![] };
    let mut injected = false;
    for _ in 0..g.size(1, 4) {
        for _ in 0..g.size(1, 14) {
            let v = value(g, false);
            t.append(&v).map_err(|e| e.to_string())?;
            m.vals.push(v);
        }
        let at = g.below(8);
        st.fail_at.set(Some(st.ops() + at));
        st.failed.set(false);
        let r = t.commit_mmr();
        st.fail_at.set(None);
        ensure!(r.is_err() == st.failed.get(), "injected {} but the flush said {r:?}", st.failed.get());
        if r.is_err() {
            injected = true;
            g.note(|| format!("flush failed at write {at} after {} values", m.vals.len()));
            ensure_eq!(t.compute_current_state_root().map_err(|e| e.to_string()), Ok(m.root()), "state root after a failed flush");
        }
    }
    t.commit_mmr().map_err(|e| e.to_string())?;
    let t2 = Tree::from_state(m.vals.len() as u64, h, S(&st)).map_err(|e| e.to_string())?;
    ensure_eq!(t2.compute_current_state_root().map_err(|e| e.to_string()), Ok(m.root()), "state root reopened");
    // lose one stored record
    let f = st.fork();
    let keys: Vec<Vec<u8>> = f.dump().into_keys().collect();
    let k = g.pick(&keys).clone();
    let damage = g.bool();
    if damage {
        f.data.borrow_mut().remove(&k);
    } else {
        f.data.borrow_mut().get_mut(&k).unwrap().push(7);
    }
    let t3 = Tree::from_state(m.vals.len() as u64, h, S(&f)).map_err(|e| e.to_string())?;
    let node = k.len() == 5;
    if node || damage {
        if let Ok(r) = t3.compute_current_state_root() {
            ensure_eq!(r, m.root(), "state root over a store that lost {}", hex(&k));
        }
        for i in 0..m.chunks().len() {
            if let Ok(b) = t3.get_chunk_value(i as u64) {
                ensure_eq!(b, Some(rblob(m.chunks()[i])), "chunk {i} over a store that lost {}", hex(&k));
            }
        }
    }
    g.label_if(injected, "flush failed");
    g.nontrivial_if(injected);
    Ok(())
}

fn blobs(g: &mut G) -> R {
    let (x, y) = (g.hash32(), g.hash32());
    ensure_eq!(grovedb_bulk_append_tree::compute_state_root(&x, &y), b3(&[b"bulk_state", &x, &y]), "state root");
    let fixed = g.bool();
    let es: Vec<Vec<u8>> = if fixed {
        let l = g.skewed(0, 40);
        g.list(0, 20, |g| g.blob(l))
    } else {
        g.list(0, 20, |g| value(g, false))
    };
    let b = serialize_chunk_blob(&es).map_err(|e| e.to_string())?;
    ensure_eq!(b, rblob(&es), "serialized chunk");
    ensure_eq!(deserialize_chunk_blob(&b).map_err(|e| e.to_string()), Ok(es.clone()), "round trip");
    let mut d = b.clone();
    for _ in 0..g.size(1, 3) {
        let i = g.below(d.len() as u64 + 1) as usize;
        match g.below(4) {
            0 if i < d.len() => d[i] = g.byte(),
            1 => d.insert(i, g.byte()),
            2 => d.truncate(i),
            _ => {
                let i = g.below(9.min(d.len() as u64) + 1) as usize;
                if i < d.len() {
                    d[i] = *g.pick(&[0, 1, 15, 16, 127, 128, 255]);
                }
            }
        }
    }
    g.note(|| format!("damaged {}", hex(&d)));
    alloc_reset();
    let r = deserialize_chunk_blob(&d);
    let peak = alloc_peak();
    ensure!(peak < (33 << 20) + 100 * d.len(), "decoding {} bytes allocated {peak}", d.len());
    if let Ok(es) = r {
        // nothing is invented or dropped
        let total: usize = es.iter().map(|e| e.len()).sum();
        let overhead = match d.first() {
            None => 0,
            Some(1) => 9,
            _ => 1 + 4 * es.len(),
        };
        ensure_eq!(total + overhead, d.len(), "bytes accounted for in an accepted chunk");
    }
    g.nontrivial_if(es.len() > 1 && d != b);
    Ok(())
}

pub fn b01() -> Vec<Section> {
    vec![
        section("history", "appends, flushes, reopens and reads over heights 1-4 (and 16) against a reference; non-trivial: a chunk completed and 3 kinds of step", 20_000, 300_000, history),
        section("faults", "failing flushes and lost records; non-trivial: a flush failed", 40_000, 400_000, faults),
        section("blobs", "chunk encodings, intact and damaged; non-trivial: 2+ entries, damage applied", 100_000, 2_000_000, blobs),
    ]
}

// ---------------------------------------------------------------- B02

fn pos_bytes(g: &mut G, n: u64, epoch: u64) -> (u64, Vec<u8>) {
    let p = match g.below(8) {
        0 => g.below(4),
        1 => {
            let e = n / epoch * epoch;
            (e + g.below(3)).saturating_sub(1)
        }
        2 => g.below(n / epoch + 2) * epoch + g.below(2),
        3 => n.saturating_sub(1) + g.below(3),
        4 => *g.pick(&[255, 256, 65535, 65536, u64::MAX - 1, u64::MAX]),
        _ => g.below(n + 2),
    };
    let min = ((64 - p.leading_zeros() as usize) + 7) / 8;
    let len = if g.bool() { 8 } else { g.size(min.max(1), 8) };
    (p, p.to_be_bytes()[8 - len..].to_vec())
}
fn build<'a>(st: &'a Mock, m: &Model, commit: bool) -> R<Tree<'a>> {
    let mut t = Tree::new(m.h, S(st)).map_err(|e| e.to_string())?;
    for v in &m.vals {
        t.append(v).map_err(|e| e.to_string())?;
    }
    if commit {
        t.commit_mmr().map_err(|e| e.to_string())?;
        t = Tree::from_state(m.vals.len() as u64, m.h, S(st)).map_err(|e| e.to_string())?;
    }
    Ok(t)
}
fn model(g: &mut G, lo: usize) -> Model {
    let h = g.range(1, 4) as u8;
    let e = 1usize << h;
    let n = match g.below(4) {
        0 => e * g.size(0, 5),
        1 => g.size(lo, e),
        _ => g.size(lo, 5 * e + 3),
    }
    .max(lo);
    let fixed = g.bool();
    Model { h, vals: (0..n).map(|_| value(g, fixed)).collect() }
}

fn complete(g: &mut G) -> R {
    let m = model(g, 0);
    let n = m.vals.len() as u64;
    let root = m.root();
    let st = Mock::new();
    let commit = g.bool();
    let t = build(&st, &m, commit)?;
    let ep = m.epoch() as u64;
    let (q, want) = pos_query(g, n, &mut |g, n| pos_bytes(g, n, ep));
    g.note(|| format!("height {}, {n} values, query {:?}", m.h, q.items));
    let p = BulkAppendTreeProof::generate(&q, &t).map_err(|e| format!("proof refused: {e}"))?;
    let vals: Vec<(u64, Vec<u8>)> = want.iter().map(|i| (*i, m.vals[*i as usize].clone())).collect();
    let got: Vec<(u64, Vec<u8>)> = p.verify_against_query(&root, m.h, n, &q).map_err(|e| format!("honest proof refused: {e}"))?;
    ensure_eq!(got, vals, "verified values");
    let bytes = p.encode_to_vec().map_err(|e| e.to_string())?;
    let d = BulkAppendTreeProof::decode_from_slice(&bytes).map_err(|e| format!("own encoding refused: {e}"))?;
    ensure_eq!(d.encode_to_vec().ok(), Some(bytes), "re-encoded");
    let r = d.verify(&root, m.h, n).map_err(|e| format!("honest proof refused: {e}"))?;
    let (cr, r2) = d.verify_and_compute_root(m.h, n).map_err(|e| e.to_string())?;
    ensure_eq!(cr, root, "computed root");
    ensure_eq!((&r2.chunk_blobs, &r2.dense_entries, r2.total_count, r2.height), (&r.chunk_blobs, &r.dense_entries, n, m.h), "the two ways to verify");
    // only what is needed (or the anchors) is in the proof
    let need: BTreeSet<u64> = want.iter().map(|p| p / m.epoch() as u64).filter(|c| *c < m.chunks().len() as u64).collect();
    let have: BTreeSet<u64> = r.chunk_blobs.iter().map(|c| c.0).collect();
    ensure!(have == need || (need.is_empty() && have.iter().all(|c| *c == 0)), "chunks {have:?} proved, {need:?} needed");
    let (a, b) = (g.below(n + 2), g.below(n + 3));
    let vr = r.values_in_range(a, b).map_err(|e| e.to_string())?;
    for (i, v) in &vr {
        ensure!(m.vals.get(*i as usize) == Some(v) && *i >= a && *i < b, "value {i} in [{a}, {b})");
    }
    for i in &want {
        ensure!(!(a <= *i && *i < b) || vr.iter().any(|x| x.0 == *i), "value {i} missing from [{a}, {b})");
    }
    ensure!(vr.windows(2).all(|w| w[0].0 < w[1].0), "values out of order");
    // other roots, counts and heights
    let mut other = root;
    other[g.below(32) as usize] ^= 1 << g.below(8);
    ensure!(p.verify(&other, m.h, n).is_err() && p.verify_against_query::<Vec<_>>(&other, m.h, n, &q).is_err(), "verified against another root");
    // a proof for another query only passes when it shows everything
    let (q2, want2) = pos_query(g, n, &mut |g, n| pos_bytes(g, n, ep));
    let vals2: Vec<(u64, Vec<u8>)> = want2.iter().map(|i| (*i, m.vals[*i as usize].clone())).collect();
    if let Ok(got) = p.verify_against_query::<Vec<_>>(&root, m.h, n, &q2) {
        ensure_eq!(got, vals2, "values for {:?} from a proof of {:?}", q2.items, q.items);
    }
    let mut bad = q.clone();
    let l = *g.pick(&[0usize, 9, 16]);
    bad.items.push(if g.bool() { QueryItem::Key(g.blob(l)) } else { QueryItem::RangeTo(..g.blob(l)) });
    ensure!(BulkAppendTreeProof::generate(&bad, &t).is_err(), "a {l}-byte position was accepted");
    ensure!(p.verify_against_query::<Vec<_>>(&root, m.h, n, &bad).is_err(), "a {l}-byte position was accepted");
    let mut sub = q.clone();
    sub.set_subquery(Query::new_range_full());
    ensure!(BulkAppendTreeProof::generate(&sub, &t).is_err(), "a subquery was accepted");
    g.label_if(!m.chunks().is_empty() && !m.buffer().is_empty(), "chunks and buffer");
    g.label_if(want.is_empty(), "empty result");
    g.nontrivial_if(!m.chunks().is_empty() && want.len() >= 2);
    Ok(())
}

fn sound(g: &mut G) -> R {
    let m = model(g, 1);
    let n = m.vals.len() as u64;
    let root = m.root();
    let st = Mock::new();
    let t = build(&st, &m, false)?;
    let ep = m.epoch() as u64;
    let (q, want) = pos_query(g, n, &mut |g, n| pos_bytes(g, n, ep));
    let honest = BulkAppendTreeProof::generate(&q, &t).map_err(|e| e.to_string())?;
    let (mut size, mut leaves, mut items) = (honest.chunk_proof.mmr_size(), honest.chunk_proof.leaves().to_vec(), honest.chunk_proof.proof_items().to_vec());
    let mut buf = honest.buffer_proof.clone();
    let chunks: Vec<Vec<u8>> = m.chunks().into_iter().map(rblob).collect();
    let nodes = m.mmr();
    let mut what = vec![];
    for _ in 0..g.size(1, 3) {
        let op = g.below(13);
        what.push(op);
        let nl = leaves.len() as u64;
        match op {
            0 if nl > 0 => {
                let i = g.below(nl) as usize;
                leaves[i].0 = g.below(chunks.len() as u64 + 1);
            }
            1 if nl > 0 => {
                let i = g.below(nl) as usize;
                let b = &mut leaves[i].1;
                if !b.is_empty() {
                    let k = g.below(b.len() as u64) as usize;
                    b[k] ^= 1 << g.below(8);
                }
            }
            2 if nl > 0 => {
                // the same entries in another encoding, or other entries
                let i = g.below(nl) as usize;
                let es = deserialize_chunk_blob(&leaves[i].1).unwrap_or_default();
                let mut b = vec![0];
                for e in &es {
                    b.extend((e.len() as u32).to_be_bytes());
                    b.extend(e);
                }
                if g.bool() {
                    b.extend([0, 0, 0, 0]);
                }
                leaves[i].1 = b;
            }
            3 if nl > 0 => {
                leaves.remove(g.below(nl) as usize);
            }
            4 if !chunks.is_empty() => {
                let e = (g.below(chunks.len() as u64), g.pick(&chunks).clone());
                leaves.insert(g.below(nl + 1) as usize, e);
            }
            5 => {
                let e = if g.bool() || nodes.nodes.is_empty() { g.hash32() } else { nodes.nodes[g.below(nodes.size()) as usize].0 };
                items.insert(g.below(items.len() as u64 + 1) as usize, e);
            }
            6 if !items.is_empty() => {
                items.remove(g.below(items.len() as u64) as usize);
            }
            7 => size = leaf_count_to_mmr_size(g.below(chunks.len() as u64 + 3)),
            8 if !buf.entries.is_empty() => {
                let i = g.below(buf.entries.len() as u64) as usize;
                if g.bool() {
                    buf.entries[i].1 = value(g, false);
                } else {
                    buf.entries[i].0 = g.below(m.epoch() as u64) as u16;
                }
            }
            9 if !buf.entries.is_empty() => {
                buf.entries.remove(g.below(buf.entries.len() as u64) as usize);
            }
            10 => buf.entries.push((g.below(m.epoch() as u64) as u16, value(g, false))),
            11 => {
                let p = g.below(m.epoch() as u64) as u16;
                let hsh = if g.bool() { g.hash32() } else { rroot(m.buffer(), m.h) };
                buf.node_hashes.push((if g.bool() { 0 } else { p }, hsh));
                if g.bool() {
                    buf.entries.clear();
                    buf.node_value_hashes.clear();
                }
            }
            _ => {
                let e: H = g.hash32();
                buf.node_value_hashes.push((g.below(m.epoch() as u64) as u16, e));
            }
        }
    }
    let changed = size != honest.chunk_proof.mmr_size() || leaves != honest.chunk_proof.leaves() || items != honest.chunk_proof.proof_items() || buf.entries != honest.buffer_proof.entries || buf.node_hashes != honest.buffer_proof.node_hashes || buf.node_value_hashes != honest.buffer_proof.node_value_hashes;
    g.note(|| format!("height {}, {n} values, {:?} changed by {what:?}", m.h, q.items));
    let p = BulkAppendTreeProof { chunk_proof: MmrTreeProof::new(size, leaves, items), buffer_proof: buf };
    let mut ok = false;
    if let Ok(got) = p.verify_against_query::<Vec<_>>(&root, m.h, n, &q) {
        let vals: Vec<(u64, Vec<u8>)> = want.iter().map(|i| (*i, m.vals[*i as usize].clone())).collect();
        ensure_eq!(got, vals, "values accepted for {:?}", q.items);
        ok = true;
    }
    if let Ok(r) = p.verify(&root, m.h, n) {
        for (c, b) in &r.chunk_blobs {
            ensure!(chunks.get(*c as usize) == Some(b), "chunk {c} accepted as {}", hex(b));
        }
        for (i, v) in &r.dense_entries {
            ensure!(m.buffer().get(*i as usize) == Some(v), "buffer value {i} accepted as {}", hex(v));
        }
        let all = r.values_in_range(0, u64::MAX).map_err(|e| e.to_string())?;
        for (i, v) in &all {
            ensure!(m.vals.get(*i as usize) == Some(v), "value {i} accepted as {}", hex(v));
        }
    } else {
        ensure!(!ok, "the two ways to verify disagree");
    }
    g.label_if(ok && changed, "changed and still verifies");
    g.nontrivial_if(changed);
    Ok(())
}

fn robust(g: &mut G) -> R {
    let bytes = if g.bool() {
        let m = model(g, 1);
        let st = Mock::new();
        let t = build(&st, &m, false)?;
        let (q, _) = pos_query(g, m.vals.len() as u64, &mut |g, n| pos_bytes(g, n, 4));
        let mut b = BulkAppendTreeProof::generate(&q, &t).map_err(|e| e.to_string())?.encode_to_vec().map_err(|e| e.to_string())?;
        for _ in 0..g.size(1, 3) {
            let i = g.below(b.len() as u64 + 1) as usize;
            match g.below(3) {
                0 if i < b.len() => b[i] = *g.pick(&[0, 1, 2, 127, 250, 251, 252, 253, 255]),
                1 => b.insert(i, *g.pick(&[0, 1, 250, 251, 252, 253])),
                _ => b.truncate(i),
            }
        }
        b
    } else {
        g.bytes(0, 30)
    };
    g.note(|| hex(&bytes));
    alloc_reset();
    let d = BulkAppendTreeProof::decode_from_slice(&bytes);
    ensure!(alloc_peak() < 450 << 20, "decoding {} bytes allocated {}", bytes.len(), alloc_peak());
    let n = g.u64b();
    let h = if g.chance(1, 4) { *g.pick(&[0, 17, 32, 64, 255]) } else { g.range(1, 16) as u8 };
    let p = d.unwrap_or_else(|_| {
        let size = leaf_count_to_mmr_size(if (1..=16).contains(&h) { n >> h } else { 1 });
        BulkAppendTreeProof {
            chunk_proof: MmrTreeProof::new(size, g.list(0, 3, |g| (g.u64b(), g.bytes(0, 6))), g.list(0, 4, |g| g.hash32())),
            buffer_proof: grovedb_dense_fixed_sized_merkle_tree::DenseTreeProof { entries: g.list(0, 3, |g| (g.below(9) as u16, g.bytes(0, 3))), node_value_hashes: g.list(0, 3, |g| (g.below(9) as u16, g.hash32())), node_hashes: g.list(0, 3, |g| (g.below(20) as u16, g.hash32())) },
        }
    });
    let r = p.verify_and_compute_root(h, n);
    ensure!(r.is_err() || (1..=16).contains(&h), "height {h} accepted");
    let root = g.hash32();
    ensure!(p.verify(&root, h, n).is_err(), "verified against a random root");
    let (q, _) = pos_query(g, 9, &mut |g, n| pos_bytes(g, n, 4));
    let _ = p.verify_against_query::<Vec<_>>(&root, h, n, &q);
    if let Ok((root, out)) = &r {
        let _ = p.verify_against_query::<Vec<_>>(root, h, n, &q);
        let _ = out.values_in_range(g.u64b(), g.u64b());
    }
    g.nontrivial_if(r.is_ok());
    Ok(())
}

pub fn b02() -> Vec<Section> {
    vec![
        section("complete", "queries over chunked logs of height 1-4; non-trivial: a completed chunk and 2+ values proved", 30_000, 400_000, complete),
        section("sound", "proofs changed in 1-3 ways; non-trivial: the proof really differs", 60_000, 800_000, sound),
        section("robust", "damaged and arbitrary proofs, counts, heights; non-trivial: a root is computed", 60_000, 800_000, robust),
    ]
}
