//! REP01: a grove synchronised from another one is that grove.
use crate::grove::*;
use crate::k03::forge;
use grovedb::{Element, GroveDb};
use grovedb_merk::proofs::{encode_into, Decoder, Op as P};
use grovedb_version::version::GroveVersion;
use std::collections::BTreeMap;
use vp::*;

// ---- the wire format: lists of byte strings with big-endian counts and lengths

pub fn pack(v: &[Vec<u8>]) -> Vec<u8> {
    let mut o = (v.len() as u32).to_be_bytes().to_vec();
    for x in v {
        o.extend((x.len() as u32).to_be_bytes());
        o.extend(x);
    }
    o
}
pub fn unpack(b: &[u8]) -> Option<Vec<Vec<u8>>> {
    let word = |b: &mut &[u8]| -> Option<usize> { let (w, r) = b.split_at_checked(4)?; *b = r; Some(u32::from_be_bytes(w.try_into().unwrap()) as usize) };
    let mut b = b;
    let mut out = vec![];
    for _ in 0..word(&mut b)? {
        let n = word(&mut b)?;
        let (x, r) = b.split_at_checked(n)?;
        b = r;
        out.push(x.to_vec());
    }
    b.is_empty().then_some(out)
}
fn ops(b: &[u8]) -> Option<Vec<P>> {
    Decoder::new(b).collect::<Result<Vec<_>, _>>().ok()
}

/// Everything a grove holds, by position, root keys forgotten.
pub fn dump(db: &GroveDb, v: &GroveVersion) -> Result<BTreeMap<Path, Element>, String> {
    dump_in(db, None, v)
}
pub fn dump_in(db: &GroveDb, tx: grovedb::TransactionArg, v: &GroveVersion) -> Result<BTreeMap<Path, Element>, String> {
    let mut out = BTreeMap::new();
    let mut todo: Vec<Path> = vec![vec![]];
    while let Some(p) = todo.pop() {
        let pq = grovedb::PathQuery::new_unsized(p.clone(), { let mut q = grovedb_query::Query::new(); q.insert_all(); q });
        let (rows, _) = db
            .query_raw(&pq, true, true, true, grovedb::query_result_type::QueryResultType::QueryKeyElementPairResultType, tx, v)
            .unwrap().map_err(|e| format!("reading {p:?}: {e}"))?;
        for (k, e) in rows.to_key_elements() {
            let mut p = p.clone();
            p.push(k);
            if e.is_any_tree() && !e.uses_non_merk_data_storage() { todo.push(p.clone()) }
            out.insert(p, norm(e));
        }
    }
    Ok(out)
}
pub fn want(m: &Map) -> BTreeMap<Path, Element> {
    all(m).into_iter().map(|(p, n)| {
        // references are read as absolute ones
        let e = match &n.v { V::Ref(t, _) => Element::Reference(grovedb_element::reference_path::ReferencePathType::AbsolutePathReference(t.clone()), None, n.flags.clone()), _ => n.element() };
        (p, e)
    }).collect()
}
/// The same, as `get_raw` reads references.
pub fn want_raw(m: &Map) -> BTreeMap<Path, Element> {
    want(m)
}
pub fn root(db: &GroveDb, v: &GroveVersion) -> R<[u8; 32]> {
    db.root_hash(None, v).unwrap().map_err(|e| Fail::new("root", format!("root hash: {e}")))
}
/// Leaves of flat trees, read one by one.
pub fn flat_leaves(db: &GroveDb, dir: &[Key], k: &[u8], n: &Node, v: &GroveVersion) -> Result<(), String> {
    flat_leaves_in(db, dir, k, n, None, v)
}
pub fn flat_leaves_in(db: &GroveDb, dir: &[Key], k: &[u8], n: &Node, tx: grovedb::TransactionArg, v: &GroveVersion) -> Result<(), String> {
    let Some((l, _)) = n.leaves() else { return Ok(()) };
    let path = refs(dir);
    for (i, x) in l.iter().enumerate() {
        let got = match &n.v {
            V::Mmr(_) => db.mmr_tree_get_value(path.as_slice(), k, i as u64, tx, v).unwrap(),
            V::Bulk(..) => db.bulk_get_value(path.as_slice(), k, i as u64, tx, v).unwrap(),
            V::Dense(..) => db.dense_tree_get(path.as_slice(), k, i as u16, tx, v).unwrap(),
            _ => db.commitment_tree_get_value(path.as_slice(), k, i as u64, tx, v).unwrap(),
        };
        match got {
            Ok(Some(y)) if y == *x => {}
            o => return Err(format!("value {i} of {}: {:?} instead of {}", show_node(n), o.map(|o| o.map(|b| vp::hex(&b))).map_err(|e| e.to_string()), vp::hex(x))),
        }
    }
    Ok(())
}

/// Synchronises `dst` from `src`; `meddle` sees every response. Tells what went wrong, if anything.
fn sync(g: &mut G, src: &GroveDb, dst: &GroveDb, app: [u8; 32], v: &GroveVersion, mut meddle: impl FnMut(&mut G, &[u8], Vec<u8>) -> (Vec<u8>, Vec<u8>)) -> R<Result<(), String>> {
    let batch = if g.bool() { g.size(1, 4) } else { 64 };
    let mut s = match dst.start_snapshot_syncing(app, batch, 1, v) { Ok(s) => s, Err(e) => fail!("start: {e}") };
    let mut todo = vec![app.to_vec()];
    let mut rounds = 0;
    while !todo.is_empty() {
        rounds += 1;
        ensure!(rounds < 4000, "the session never ends");
        let id = todo.remove(g.below(todo.len() as u64) as usize);
        ensure!(!s.is_sync_completed(), "complete while chunks are missing");
        let chunk = match src.fetch_chunk(&id, None, 1, v) { Ok(c) => c, Err(e) => return Ok(Err(format!("fetching {}: {e}", vp::hex(&id)))) };
        let (as_id, sent) = meddle(g, &id, chunk);
        match no_panic(|| s.apply_chunk(&as_id, &sent, 1, v)) {
            Err(p) => fail!("applying {} for {}: panic {p}", vp::hex(&sent), vp::hex(&as_id)),
            Ok(Err(e)) => return Ok(Err(format!("applying: {e}"))),
            Ok(Ok(next)) => todo.extend(next),
        }
    }
    if !s.is_sync_completed() { return Ok(Err("not complete though nothing is asked for".into())) }
    g.label_if(rounds > 4, "more than four rounds");
    match dst.commit_session(s, v) { Ok(()) => Ok(Ok(())), Err(e) => Ok(Err(format!("commit: {e}"))) }
}
fn opts(g: &mut G, flat: bool) -> Opts {
    let wide = g.chance(1, 6);
    Opts { flat_trees: flat, depth: g.size(1, 4), width: if wide { 40 } else { g.size(1, 9) }, ..Opts::default() }
}
fn issues(db: &GroveDb, references: bool, v: &GroveVersion) -> Result<(), String> {
    match db.verify_grovedb(None, references, false, v) {
        Ok(i) if i.is_empty() => Ok(()),
        Ok(i) => Err(format!("issues at {:?}", i.keys().collect::<Vec<_>>())),
        Err(e) => Err(format!("verification: {e}")),
    }
}
fn synced(g: &mut G) -> R {
    let v = version(g);
    let flat = g.chance(1, 8);
    let o = opts(g, flat);
    let m = gen_grove(g, &o);
    let (a, b) = (open(), open());
    build(g, &a.db, &m, v)?;
    let ctx = |f: Fail| Fail::new(f.sig, format!("{}\n  {}", f.msg, show_map(&m)));
    let app = root(&a.db, v)?;
    let full_flat = all(&m).iter().any(|(_, n)| n.leaves().is_some() && !n.empty_tree());
    let out = sync(g, &a.db, &b.db, app, v, |_, id, c| (id.to_vec(), c)).map_err(ctx)?;
    let check = |g: &mut G| -> R {
        if let Err(e) = &out {
            if full_flat { return Err(Fail::new("flat-trees", format!("a grove with a filled flat tree is not synchronised: {e}"))) }
            fail!("{e}")
        }
        ensure_eq!(root(&b.db, v)?, app, "root hash of the copy");
        let got = match dump(&b.db, v) { Ok(d) => d, Err(e) => fail!("{e}") };
        ensure_eq!(got, want(&m), "what the copy holds");
        g.nontrivial_if(all(&m).iter().filter(|(_, n)| n.map().is_some_and(|m| !m.is_empty())).count() > 1);
        if full_flat {
            for (p, n) in all(&m) {
                let (k, dir) = p.split_last().unwrap();
                if let Err(e) = flat_leaves(&b.db, dir, k, n, v) { return Err(Fail::new("flat-trees", format!("values of a flat tree are not in the copy: {e}"))) }
            }
        }
        if let Err(e) = issues(&b.db, true, v) { fail!("the copy does not verify: {e}") }
        // both go on the same way
        let places: Vec<Path> = std::iter::once(vec![]).chain(all(&m).into_iter().filter(|(_, n)| n.map().is_some()).map(|(p, _)| p)).collect();
        for _ in 0..g.size(1, 4) {
            let p = g.pick(&places).clone();
            let k = gen_key(g);
            if map_at(&m, &p).unwrap().get(&k).is_some_and(|n| n.is_tree()) { continue }
            let gone = map_at(&m, &p).unwrap().contains_key(&k) && g.bool();
            let val = g.bytes(0, 4);
            let mut ends = vec![];
            for db in [&a.db, &b.db] {
                let r = if gone { db.delete(refs(&p).as_slice(), &k, None, None, v).unwrap().map_err(|e| e.to_string()) } else { db.insert(refs(&p).as_slice(), &k, Element::new_item(val.clone()), None, None, v).unwrap().map_err(|e| e.to_string()) };
                ends.push((r, root(db, v)?));
            }
            ensure_eq!(ends[0], ends[1], "original and copy after the same change at {p:?} {}", vp::hex(&k));
        }
        Ok(())
    };
    check(g).map_err(ctx)
}

fn disturb(g: &mut G, id: &[u8], chunk: &[u8], before: &[(Vec<u8>, Vec<u8>)]) -> (Vec<u8>, Vec<u8>) {
    let mut b = chunk.to_vec();
    match g.below(12) {
        0 => { let n = g.below(b.len() as u64 + 1) as usize; b.truncate(n) }
        1 => { let i = g.below(b.len() as u64) as usize; b[i] ^= 1 << g.below(8) }
        2 => { let i = g.below(b.len() as u64 + 1) as usize; b.insert(i, g.byte()) }
        3 => { if !before.is_empty() { return (id.to_vec(), g.pick(before).1.clone()) } }
        4 => {
            let mut i = id.to_vec();
            if !before.is_empty() && g.bool() { return g.pick(before).clone() }
            let j = g.below(i.len() as u64) as usize;
            i[j] ^= 1 << g.below(8);
            return (i, b);
        }
        _ => {
            let Some(mut outer) = unpack(&b) else { return (id.to_vec(), b) };
            if outer.is_empty() { return (id.to_vec(), b) }
            let i = g.below(outer.len() as u64) as usize;
            let Some(mut inner) = unpack(&outer[i]) else { return (id.to_vec(), b) };
            if inner.is_empty() { return (id.to_vec(), b) }
            let j = g.below(inner.len() as u64) as usize;
            match g.below(8) {
                0 => inner[j] = vec![],
                1 => { let x = inner[j].clone(); inner.push(x) }
                2 => { inner.remove(j); }
                3 => { let n = outer.len() as u64; outer.swap(i, g.below(n) as usize); return (id.to_vec(), pack(&outer)) }
                _ => {
                    if let Some(mut o) = ops(&inner[j]) {
                        for _ in 0..g.size(1, 2) { forge(g, &mut o) }
                        inner[j].clear();
                        encode_into(o.iter(), &mut inner[j]);
                    }
                }
            }
            outer[i] = pack(&inner);
            b = pack(&outer);
        }
    }
    (id.to_vec(), b)
}
fn forged(g: &mut G) -> R {
    let v = version(g);
    let o = opts(g, false);
    let m = gen_grove(g, &o);
    let (a, b) = (open(), open());
    build(g, &a.db, &m, v)?;
    let app = root(&a.db, v)?;
    let odds = 1 + g.below(6);
    let mut said = vec![];
    let mut before = vec![];
    let out = sync(g, &a.db, &b.db, app, v, |g, id, c| {
        let mut r = (id.to_vec(), c.clone());
        if g.chance(1, odds) {
            r = disturb(g, id, &c, &before);
            if r != (id.to_vec(), c.clone()) { said.push(format!("for {}: {}\n   instead of {}", vp::hex(&r.0), vp::hex(&r.1), vp::hex(&c))) }
        }
        before.push((id.to_vec(), c));
        r
    });
    let ctx = |f: Fail| Fail::new(f.sig, format!("{}\n  {}\n  sent {}", f.msg, show_map(&m), said.join("\n  and ")));
    let out = out.map_err(ctx)?;
    g.nontrivial_if(!said.is_empty());
    let check = |g: &mut G| -> R {
        match &out {
            Err(e) => { g.label("refused"); ensure!(!said.is_empty(), "true chunks are refused: {e}"); }
            Ok(()) => {
                ensure_eq!(root(&b.db, v)?, app, "root hash of the copy");
                // what a reference points at is not bound until it is followed
                if let Err(e) = issues(&b.db, false, v) { fail!("a changed response was taken, and the copy does not verify: {e}") }
                if let Err(e) = issues(&b.db, true, v) {
                    g.label("found by verification");
                    ensure!(!said.is_empty(), "the copy does not verify: {e}");
                    return Ok(());
                }
                g.label_if(!said.is_empty(), "harmless");
                let got = match dump(&b.db, v) { Ok(d) => d, Err(e) => fail!("{e}") };
                ensure_eq!(got, want(&m), "what the copy holds");
            }
        }
        Ok(())
    };
    check(g).map_err(ctx)
}

pub fn sections() -> Vec<Section> {
    vec![
        section("synced", "two subtrees with elements", 1_500, 30_000, synced),
        section("forged", "a changed response", 2_500, 50_000, forged),
    ]
}
