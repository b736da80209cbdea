//! K03: the chunks of a merk restore exactly that merk.
use crate::egen;
use crate::grove::version;
use crate::mk::*;
use ed::{Decode, Encode};
use grovedb_element::Element;
use grovedb_merk::element::tree_type::ElementTreeTypeExtensions;
use grovedb_merk::proofs::chunk::chunk_op::ChunkOp;
use grovedb_merk::proofs::chunk::util::*;
use grovedb_merk::proofs::{Node, Op as P};
use grovedb_merk::{ChunkProducer, Merk, Restorer, TreeType};
use grovedb_path::SubtreePath;
use grovedb_storage::{Storage, StorageBatch, StorageContext};
use grovedb_version::version::GroveVersion;
use std::collections::BTreeSet;
use vp::*;

fn entry(g: &mut G, kind: TreeType, raw: bool, v: &GroveVersion) -> R<E> {
    if raw {
        let mut e = gen_entry(g, kind);
        // nothing that could be taken for an element
        if !e.value.is_empty() { e.value[0] |= 128 }
        return Ok(e);
    }
    let small = |g: &mut G| g.below(2_000_000) as i64 - 1_000_000;
    let key = |g: &mut G| g.bool().then(|| g.bytes(1, 3));
    let fl = |g: &mut G| g.chance(1, 4).then(|| g.bytes(0, 3));
    let x = g.below(5_000);
    use Element::*;
    let e = match g.below(18) {
        0..=3 => Item(g.bytes(0, 8), fl(g)),
        4 => Reference(egen::reference(g), None, fl(g)),
        5 => Tree(key(g), fl(g)),
        6 | 7 => SumItem(small(g), fl(g)),
        8 => SumTree(key(g), small(g), fl(g)),
        9 => BigSumTree(key(g), (small(g) as i128) << g.below(60), fl(g)),
        10 => CountTree(key(g), x, fl(g)),
        11 => CountSumTree(key(g), x, small(g), fl(g)),
        12 => ProvableCountTree(key(g), x, fl(g)),
        13 => ProvableCountSumTree(key(g), x, small(g), fl(g)),
        14 => ItemWithSumItem(g.bytes(0, 8), small(g), fl(g)),
        15 => MmrTree(x, fl(g)),
        16 => BulkAppendTree(x, 4, fl(g)),
        _ => DenseAppendOnlyFixedSizeTree(x as u16, 13, fl(g)),
    };
    let below = (!std::matches!(e, Item(..) | SumItem(..) | ItemWithSumItem(..))).then(|| g.hash32());
    Ok(E { value: e.serialize(v).map_err(|e| e.to_string())?, below, feature: e.get_feature_type(kind).map_err(|e| e.to_string())? })
}
fn gen_model(g: &mut G, kind: TreeType, raw: bool, n: usize, v: &GroveVersion) -> R<Model> {
    let mut m = Model::new();
    for _ in 0..n { let k = if g.chance(1, 6) { g.bytes(1, 3) } else { vec![g.byte(), g.byte()] }; m.insert(k, entry(g, kind, raw, v)?); }
    Ok(m)
}
/// A source of some shape: put at once, or in many steps, or with deletions.
fn source(g: &mut G, kind: TreeType, raw: bool, v: &GroveVersion) -> R<(Model, Store)> {
    let n = g.skewed(1, 70);
    let mut m = gen_model(g, kind, raw, n, v)?;
    let s = Store::filled(&m, kind, g, v)?;
    if g.bool() {
        let mut gone: Vec<(Key, grovedb_merk::Op)> = vec![];
        for k in m.keys().cloned().collect::<Vec<_>>() { if g.chance(2, 5) && m.len() > 1 { m.remove(&k); gone.push((k, grovedb_merk::Op::Delete)); } }
        s.session(kind, v, |mk| mk.apply::<_, Vec<u8>>(&gone, &[], None, v).unwrap().map_err(|e| Fail::new("apply", format!("apply: {e}"))))?;
    }
    Ok((m, s))
}
type Ids = Vec<Vec<u8>>;
fn e2s<T, X: std::fmt::Display>(what: &str, r: Result<T, X>) -> R<T> {
    r.map_err(|e| Fail::new(what, format!("{what}: {e}")))
}
/// Opens the source and a new store, restores the one into the other, and looks at the outcome.
fn restored(src: &Store, kind: TreeType, expect: Hash, parent: Option<Hash>, v: &GroveVersion, feed: impl FnOnce(&mut Mk, &mut dyn FnMut(Feed) -> Result<Ids, String>) -> R) -> R<(Store, Result<(), String>)> {
    let dst = Store::new();
    let out = src.session(kind, v, |mk| {
        let tx = dst.storage.start_transaction();
        let done = {
            let ctx = dst.storage.get_immediate_storage_context(SubtreePath::empty(), &tx).unwrap();
            let m = e2s("open", Merk::open_base(ctx, kind, NO_COST, v).unwrap())?;
            let mut r = Restorer::new(m, expect, parent);
            feed(mk, &mut |f| match f {
                Feed::One(id, ops) => no_panic(|| r.process_chunk(&id, ops, v)).map_err(|p| format!("PANIC {p}"))?.map_err(|e| e.to_string()),
                Feed::Many(ops) => no_panic(|| r.process_multi_chunk(ops, v)).map_err(|p| format!("PANIC {p}"))?.map_err(|e| e.to_string()),
            })?;
            match no_panic(|| r.finalize(v)) {
                Err(p) => Err(format!("PANIC {p}")),
                Ok(x) => x.map(|_| ()).map_err(|e| e.to_string()),
            }
        };
        e2s("commit", dst.storage.commit_transaction(tx).unwrap())?;
        Ok(done)
    })?;
    Ok((dst, out))
}
enum Feed {
    One(Vec<u8>, Vec<P>),
    Many(Vec<ChunkOp>),
}
fn through_bytes(g: &mut G, ops: Vec<ChunkOp>) -> R<Vec<ChunkOp>> {
    let mut b = vec![];
    for o in &ops {
        let at = b.len();
        e2s("encode", o.encode_into(&mut b).map_err(|e| format!("{e:?}")))?;
        ensure_eq!(o.encoding_length().ok(), Some(b.len() - at), "encoding length");
    }
    let mut r = &b[..];
    let mut back = vec![];
    for _ in 0..ops.len() { back.push(e2s("decode", ChunkOp::decode(&mut r).map_err(|e| format!("{e:?}")))?); }
    ensure!(r.is_empty() && back == ops, "chunk operations change in encoding");
    g.label("encoded");
    Ok(back)
}
fn round_trip(g: &mut G) -> R {
    let v = version(g);
    let kind = *g.pick(&KINDS);
    let raw = g.chance(1, 4);
    let (mut m, src) = source(g, kind, raw, v)?;
    let sh = src.session(kind, v, |mk| holds(mk, kind, &m, v))?;
    g.nontrivial_if(sh.height > 3);
    g.label_if(sh.height > 5, "deep");
    let before = show(&m);
    let parent = g.chance(1, 4).then(|| g.hash32());
    let expect = parent.map_or(sh.hash, |p| h(&[&p, &sh.hash]));
    let mode = g.below(4);
    g.note(|| format!("{kind:?} mode {mode} {before}"));
    let ctx = |f: Fail| Fail::new(f.sig, format!("{}\n  {kind:?} raw {raw} mode {mode} {before}", f.msg));
    let (dst, out) = restored(&src, kind, expect, parent, v, |mk, feed| {
        let mut p = e2s("producer", ChunkProducer::new(mk))?;
        ensure_eq!(p.len(), number_of_chunks(sh.height as usize), "number of chunks");
        let mut ids: Ids = vec![vec![]];
        let mut seen = BTreeSet::new();
        match mode {
            // each chunk on its own, in any order the restorer allows
            0 | 1 => while !ids.is_empty() {
                let i = g.below(ids.len() as u64) as usize;
                let id = ids.swap_remove(i);
                ensure!(seen.insert(id.clone()), "chunk {} asked for twice", vp::hex(&id));
                let (ops, _) = e2s("chunk", p.chunk(&id, v))?;
                let idx = e2s("index", chunk_index_from_traversal_instruction(&e2s("id", vec_bytes_as_traversal_instruction(&id))?, sh.height as usize))?;
                let (again, _) = e2s("chunk", p.chunk_with_index(idx, v))?;
                ensure_eq!(again, ops, "chunk by index");
                ids.extend(e2s("process", feed(Feed::One(id, ops)))?);
            },
            // several at once, within a limit
            2 | _ => while !ids.is_empty() {
                // the smallest by index is the first that is wanted
                let i = g.below(ids.len() as u64) as usize;
                let id = ids.swap_remove(i);
                if mode == 2 {
                    // unlimited: this chunk and all below or after it
                    let (first, _) = e2s("chunk", p.chunk(&id, v))?;
                    if id.is_empty() {
                        let mc = e2s("multi", p.multi_chunk_with_limit(&id, None, v))?;
                        ensure!(mc.next_index.is_none() && mc.remaining_limit.is_none(), "an unlimited multi chunk leaves more");
                        let left = e2s("process", feed(Feed::Many(through_bytes(g, mc.chunk)?)))?;
                        ensure!(left.is_empty(), "an unlimited multi chunk leaves {left:?}");
                        continue;
                    }
                    ids.extend(e2s("process", feed(Feed::One(id, first)))?);
                } else {
                    let mut at = Some(id);
                    let mut limit = g.size(40, 6_000);
                    while let Some(id) = at {
                        match p.multi_chunk_with_limit(&id, Some(limit), v) {
                            Err(grovedb_merk::Error::ChunkingError(e)) if format!("{e:?}").contains("LimitTooSmall") => { limit *= 2; at = Some(id); }
                            Err(e) => fail!("multi: {e}"),
                            Ok(mc) => {
                                let size: usize = mc.chunk.iter().map(|c| match c { ChunkOp::ChunkId(_) => c.encoding_length().unwrap(), ChunkOp::Chunk(o) => o.encoding_length().unwrap() }).sum();
                                ensure!(size <= limit, "a multi chunk of {size} bytes within {limit}");
                                ensure_eq!(mc.remaining_limit, Some(limit - size), "remaining limit");
                                e2s("process", feed(Feed::Many(through_bytes(g, mc.chunk)?)))?;
                                at = mc.next_index;
                            }
                        }
                    }
                }
            },
        }
        Ok(())
    }).map_err(ctx)?;
    let mut after = || -> R {
        e2s("finalize", out)?;
        let dst = &dst;
        dst.session(kind, v, |mk| { let s = holds(mk, kind, &m, v)?; ensure_eq!(s.hash, sh.hash, "root hash"); let (bad, _) = mk.verify(false, v); ensure!(bad.is_empty(), "a restored merk does not verify"); Ok(()) })?;
        // from here on, they go the same way
        let mut b: std::collections::BTreeMap<Key, Option<E>> = Default::default();
        for _ in 0..g.size(1, 8) {
            let k = if g.bool() { m.keys().nth(g.below(m.len() as u64) as usize).unwrap().clone() } else { g.bytes(1, 2) };
            let gone = m.contains_key(&k) && g.bool();
            b.insert(k, if gone { None } else { Some(entry(g, kind, raw, v)?) });
        }
        let ops: Vec<_> = b.iter().map(|(k, e)| (k.clone(), e.as_ref().map_or(grovedb_merk::Op::Delete, put))).collect();
        for (k, e) in b { match e { Some(e) => { m.insert(k, e); } None => { m.remove(&k); } } }
        let mut roots = vec![];
        for s in [&src, dst] {
            roots.push(s.session(kind, v, |mk| {
                e2s("apply", mk.apply::<_, Vec<u8>>(&ops, &[], None, v).unwrap())?;
                Ok(holds(mk, kind, &m, v)?.hash)
            })?);
        }
        ensure_eq!(roots[0], roots[1], "root hashes after the same batch");
        Ok(())
    };
    after().map_err(ctx)
}

// ---- numbering

/// Layers are of three levels, the last ones of two where that is needed to end at the height.
fn layers(height: usize) -> Vec<usize> {
    match (height, height % 3) {
        (0, _) => vec![],
        (1, _) => vec![2],
        (_, 0) => vec![3; height / 3],
        (_, 1) => [vec![3; height / 3 - 1], vec![2, 2]].concat(),
        _ => [vec![3; height / 3], vec![2]].concat(),
    }
}
fn walk(l: &[usize], at: Vec<bool>, layer: usize, out: &mut Vec<(Vec<bool>, usize)>) {
    out.push((at.clone(), layer));
    if layer + 1 == l.len() { return }
    for bits in 0..1usize << l[layer] {
        let mut p = at.clone();
        for i in (0..l[layer]).rev() { p.push(bits >> i & 1 == 0) }
        walk(l, p, layer + 1, out);
    }
}
fn numbering(g: &mut G) -> R {
    let height = g.size(0, 13);
    let l = layers(height);
    let mut all = vec![];
    if height > 0 { walk(&l, vec![], 0, &mut all) }
    ensure_eq!(no_panic(|| number_of_chunks(height)).ok(), Some(all.len().max(if height == 0 { number_of_chunks(0) } else { 0 })), "number of chunks at height {height}");
    if all.is_empty() {
        let _ = no_panic(|| generate_traversal_instruction(0, 1)).map_err(|p| format!("panic: {p}"))?;
        let id: Vec<bool> = g.list(0, 4, |g| g.bool());
        let _ = no_panic(|| chunk_index_from_traversal_instruction(&id, 0)).map_err(|p| format!("panic: {p}"))?;
        return Ok(());
    }
    g.nontrivial_if(all.len() > 1);
    let known: std::collections::BTreeMap<&[bool], usize> = all.iter().enumerate().map(|(i, (p, _))| (p.as_slice(), i + 1)).collect();
    for _ in 0..8 {
        let i = g.below(all.len() as u64) as usize;
        let (path, layer) = &all[i];
        ensure_eq!(generate_traversal_instruction(height, i + 1).ok(), Some(path.clone()), "place of chunk {} at height {height}", i + 1);
        ensure_eq!(generate_traversal_instruction_as_vec_bytes(height, i + 1).ok(), Some(path.iter().map(|b| *b as u8).collect()), "id of chunk {}", i + 1);
        ensure_eq!(chunk_index_from_traversal_instruction(path, height).ok(), Some(i + 1), "number of {path:?} at height {height}");
        ensure_eq!(chunk_index_from_traversal_instruction_with_recovery(path, height).ok(), Some(i + 1), "number of {path:?}");
        ensure_eq!(chunk_layer(height, i + 1).ok(), Some(*layer), "layer of chunk {} at height {height}", i + 1);
        ensure_eq!(chunk_height(height, i + 1).ok(), Some(l[*layer]), "height of chunk {} at height {height}", i + 1);
        let under = all.iter().filter(|(p, _)| p.starts_with(path)).count();
        ensure_eq!(number_of_chunks_under_chunk_id(height, i + 1).ok(), Some(under), "chunks under chunk {} at height {height}", i + 1);
        let bytes = traversal_instruction_as_vec_bytes(path);
        ensure_eq!(vec_bytes_as_traversal_instruction(&bytes).ok(), Some(path.clone()), "{path:?} read back");
    }
    for bad in [0, all.len() + 1, all.len() + 1 + g.below(1000) as usize] {
        ensure!(generate_traversal_instruction(height, bad).is_err() && chunk_layer(height, bad).is_err() && chunk_height(height, bad).is_err() && number_of_chunks_under_chunk_id(height, bad).is_err(), "chunk {bad} of {}", all.len());
    }
    let path: Vec<bool> = g.list(0, height + 2, |g| g.bool());
    let got = no_panic(|| chunk_index_from_traversal_instruction(&path, height)).map_err(|p| format!("panic: {p}"))?;
    ensure_eq!(got.ok(), known.get(path.as_slice()).copied(), "number of {path:?} at height {height}");
    let got = no_panic(|| chunk_index_from_traversal_instruction_with_recovery(&path, height)).map_err(|p| format!("panic: {p}"))?;
    let mut up = path.as_slice();
    while !known.contains_key(up) { up = &up[..up.len() - 1] }
    ensure_eq!(got.ok(), Some(known[up]), "nearest number of {path:?} at height {height}");
    let mut bytes = traversal_instruction_as_vec_bytes(&path);
    if !bytes.is_empty() {
        let i = g.below(bytes.len() as u64) as usize;
        bytes[i] = 2 + g.below(254) as u8;
        ensure!(vec_bytes_as_traversal_instruction(&bytes).is_err(), "bytes {bytes:?} as a path");
    }
    Ok(())
}

// ---- forged chunks

pub fn forge(g: &mut G, ops: &mut Vec<P>) {
    let n = ops.len() as u64;
    if n == 0 { return }
    let i = g.below(n) as usize;
    match g.below(8) {
        0 => { ops.remove(i); }
        1 => { let o = ops[i].clone(); ops.insert(i, o); }
        2 => { let j = g.below(n) as usize; ops.swap(i, j); }
        3 => ops[i] = match g.below(4) { 0 => P::Parent, 1 => P::Child, 2 => P::ParentInverted, _ => P::ChildInverted },
        _ => {
            // something about a node
            let Some(i) = (0..ops.len()).cycle().skip(i).take(ops.len()).find(|i| std::matches!(ops[*i], P::Push(_))) else { return };
            let P::Push(n) = &ops[i] else { return };
            let change = |g: &mut G, b: &Vec<u8>| { let mut b = b.clone(); if b.is_empty() || g.chance(1, 6) { b.push(g.byte()) } else { let j = g.below(b.len() as u64) as usize; b[j] ^= 1 << g.below(8) } b };
            let new = match n {
                Node::KV(k, x) => Node::KV(k.clone(), change(g, x)),
                Node::KVValueHash(k, x, h) => Node::KVValueHash(k.clone(), change(g, x), *h),
                Node::KVValueHashFeatureType(k, x, h, f) => Node::KVValueHashFeatureType(k.clone(), change(g, x), *h, *f),
                Node::KVCount(k, x, c) => Node::KVCount(k.clone(), change(g, x), *c),
                Node::Hash(h) => { let mut h = *h; h[g.below(32) as usize] ^= 1; Node::Hash(h) }
                o => o.clone(),
            };
            let new = match (g.below(5), new.clone(), n) {
                // the true hash with another value, in other words
                (0 | 1, Node::KV(k, x), Node::KV(_, old)) => Node::KVValueHash(k, x, h_value(old)),
                (2, Node::KV(k, x), Node::KV(_, old)) => Node::KVValueHashFeatureType(k, x, h_value(old), grovedb_merk::TreeFeatureType::BasicMerkNode),
                (0 | 1, Node::KVCount(k, x, c), Node::KVCount(_, old, _)) => Node::KVValueHashFeatureType(k, x, h_value(old), grovedb_merk::TreeFeatureType::ProvableCountedMerkNode(c)),
                (3, Node::KVValueHash(k, _, h), Node::KVValueHash(_, x, _)) => Node::KV(k, [x.clone(), h.to_vec()].concat()),
                (_, o, _) => o,
            };
            ops[i] = P::Push(new);
        }
    }
}
fn forged(g: &mut G) -> R {
    let v = version(g);
    let kind = *g.pick(&KINDS);
    let raw = kind == TreeType::NormalTree && g.chance(1, 4);
    let (m, src) = source(g, kind, raw, v)?;
    let sh = src.session(kind, v, |mk| holds(mk, kind, &m, v))?;
    let mut refused = false;
    let mut kept = String::new();
    let odds = 1 + g.below(6);
    let (dst, out) = restored(&src, kind, sh.hash, None, v, |mk, feed| {
        let mut p = e2s("producer", ChunkProducer::new(mk))?;
        let mut ids: Ids = vec![vec![]];
        let mut forged = false;
        while let Some(id) = ids.pop() {
            let (ops, _) = e2s("chunk", p.chunk(&id, v))?;
            let mut sent = ops.clone();
            if g.chance(1, odds) {
                for _ in 0..g.size(1, 2) { forge(g, &mut sent) }
            }
            let changed = sent != ops;
            forged |= changed;
            let note = if changed { format!("{sent:?}") } else { String::new() };
            let sent_id = if g.chance(1, 12) { let mut i = id.clone(); i.push(g.below(3) as u8); i } else { id.clone() };
            match feed(Feed::One(sent_id.clone(), sent)) {
                Err(e) if e.starts_with("PANIC") => fail!("restoring: {e}\n  chunk {note} for {}", vp::hex(&id)),
                Err(e) => {
                    // the true one is still taken
                    refused = true;
                    ensure!(changed || sent_id != id, "the true chunk {} is refused: {e}", vp::hex(&id));
                    ids.extend(e2s("process", feed(Feed::One(id, ops)))?);
                }
                Ok(next) => {
                    ensure!(sent_id == id, "a chunk for {} taken for {}", vp::hex(&id), vp::hex(&sent_id));
                    if changed { kept = note }
                    ids.extend(next);
                }
            }
        }
        g.nontrivial_if(forged);
        Ok(())
    })?;
    let said = kept.clone();
    let after = || -> R {
        g.label_if(refused, "refused");
        g.label_if(!kept.is_empty(), "taken");
        match out {
            Err(e) if e.starts_with("PANIC") => fail!("finalize: {e}"),
            Err(e) => { ensure!(!kept.is_empty(), "true chunks do not make a merk: {e}"); Ok(()) }
            Ok(()) => {
                // what the root hash vouches for is there; only what is below another tree's hash is not bound
                dst.session(kind, v, |mk| {
                    for (k, e) in &m {
                        let got = e2s("get", mk.get(k, true, NO_COST, v).unwrap())?;
                        let Some(got) = got else { fail!("{} is lost", vp::hex(k)) };
                        let simple = std::matches!(got.first(), Some(0 | 3 | 9));
                        if got != e.value && !simple { g.label("unbound value"); return Ok(()) }
                    }
                    ensure!(holds(mk, kind, &m, v)?.hash == sh.hash, "another root hash");
                    Ok(())
                })
            }
        }
    };
    after().map_err(|f| Fail::new(f.sig, format!("{}\n  {kind:?} {}\n  taken: {said}", f.msg, show(&m))))
}

// ---- operations in bytes

fn bytes(g: &mut G) -> R {
    let mut b = vec![];
    let op = if g.bool() { ChunkOp::ChunkId(g.list(0, 20, |g| g.bool())) } else { ChunkOp::Chunk(g.list(0, 6, |g| match g.below(4) { 0 => P::Parent, 1 => P::Child, 2 => P::Push(Node::Hash(g.hash32())), _ => P::Push(Node::KV(g.bytes(1, 4), g.bytes(0, 6))) })) };
    op.encode_into(&mut b).map_err(|e| format!("{e:?}"))?;
    ensure_eq!(op.encoding_length().ok(), Some(b.len()), "encoding length");
    let read = |b: &[u8]| -> R<(Option<ChunkOp>, usize)> {
        let mut r = b;
        alloc_reset();
        let o = no_panic(|| ChunkOp::decode(&mut r)).map_err(|p| format!("decoding {}: panic {p}", vp::hex(b)))?;
        let peak = alloc_peak();
        ensure!(peak < (80 << 20) + 1024 * b.len(), "decoding {} takes {peak} bytes of memory", vp::hex(b));
        Ok((o.ok(), b.len() - r.len()))
    };
    ensure_eq!(read(&b)?, (Some(op), b.len()), "read back");
    let bad = if g.bool() { let mut x = vec![g.below(3) as u8]; for _ in 0..g.below(12) { x.push(if g.chance(1, 3) { 0xff } else { g.byte() }) } x } else {
        let mut x = b.clone();
        let i = g.below(x.len() as u64) as usize;
        match g.below(3) { 0 => x.truncate(i), 1 => x[i] ^= 1 << g.below(8), _ => x.insert(i, 0xff) }
        x
    };
    let (got, used) = read(&bad)?;
    if let Some(o) = got {
        g.nontrivial();
        if let ChunkOp::ChunkId(path) = &o {
            // any byte but 1 is a step to the right
            let at = used - path.len();
            ensure!(bad[at..used].iter().zip(path).all(|(b, p)| (*b == 1) == *p), "path read from {}", vp::hex(&bad));
            return Ok(());
        }
        let mut again = vec![];
        o.encode_into(&mut again).map_err(|e| format!("{e:?}"))?;
        ensure_eq!(vp::hex(&again), vp::hex(&bad[..used]), "bytes read as an operation that is written otherwise");
    }
    Ok(())
}

pub fn sections() -> Vec<Section> {
    vec![
        section("restored", "a merk of four levels or more", 20_000, 400_000, round_trip),
        section("forged", "a changed chunk", 20_000, 400_000, forged),
        section("numbering", "more than one chunk", 20_000, 300_000, numbering),
        section("bytes", "damaged bytes that are read", 50_000, 800_000, bytes),
    ]
}
