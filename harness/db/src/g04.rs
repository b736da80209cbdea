//! G04: the other ways to read a grove proof: absence, subset, chained, with the parent tree, raw, boundaries.
use crate::g01::{PLAIN, RAW, rows, show_rows};
use crate::g02::{self, LAX, ProofBytes};
use crate::grove::*;
use crate::qgen::*;
use grovedb::{Element, GroveDb, PathQuery};
use grovedb_merk::TreeFeatureType;
use grovedb_merk::element::tree_type::ElementTreeTypeExtensions;
use grovedb_merk::proofs::query::VerifyOptions;
use grovedb_query::{Query, QueryItem, SubqueryBranch};
use grovedb_version::version::GroveVersion;
use std::collections::{BTreeMap, BTreeSet};
use vp::*;

struct Grove {
    db: Db,
    m: Map,
    v: &'static GroveVersion,
    root: [u8; 32],
}
impl Grove {
    fn ctx(&self, pq: &PathQuery) -> String {
        format!("grove {}\n  query {}\n  version {}", show_map(&self.m), show_pq(pq), self.v.protocol_version)
    }
    fn prove(&self, pq: &PathQuery) -> R<Option<Vec<u8>>> {
        match no_panic(|| self.db.db.prove_query(pq, None, self.v).unwrap()) {
            Err(p) => fail!("prove panicked: {p}\n  {}", self.ctx(pq)),
            Ok(Ok(p)) => Ok(Some(p)),
            Ok(Err(e)) => {
                let full = eval(&self.m, pq, None, false);
                ensure!(full.bad_width || full.no_position || full.flat && !v1_proofs(self.v), "prove refused: {e}\n  {}", self.ctx(pq));
                Ok(None)
            }
        }
    }
}
fn grow(g: &mut G) -> R<Grove> {
    let v = version(g);
    let o = Opts { flat_trees: v1_proofs(v), ..Opts::default() };
    let m = gen_grove(g, &o);
    let db = open();
    build(g, &db.db, &m, v)?;
    g.note(|| show_map(&m));
    let root = db.db.root_hash(None, v).unwrap().expect("root hash");
    Ok(Grove { db, m, v, root })
}
fn normed(e: Ev) -> Vec<Row> {
    e.out.into_iter().map(|(p, k, e)| (p, k, norm(e))).collect()
}

// ---- absence

fn one_key(g: &mut G, n: Option<&Node>, m: Option<&Map>) -> Key {
    if let Some((l, w)) = n.and_then(|n| n.leaves()) { return g.below(l.len() as u64 + 2).to_be_bytes()[8 - w..].to_vec() }
    let keys: Vec<Key> = m.map(|m| m.keys().cloned().collect()).unwrap_or_default();
    if keys.is_empty() || g.chance(1, 3) { small_key(g, 1, 2) } else { g.pick(&keys).clone() }
}
fn key_items(g: &mut G, n: Option<&Node>, m: Option<&Map>, q: &mut Query) {
    for _ in 0..g.size(1, 3) {
        let flat = n.is_some_and(|n| n.leaves().is_some());
        let k = one_key(g, n, m);
        let it = if !flat && g.chance(1, 5) {
            let a = k.first().copied().unwrap_or(0);
            let b = a.saturating_add(g.below(3) as u8);
            if g.bool() { QueryItem::RangeInclusive(vec![a]..=vec![b]) } else if a < b { QueryItem::Range(vec![a]..vec![b]) } else { QueryItem::Key(vec![a]) }
        } else { QueryItem::Key(k) };
        q.insert_item(it);
    }
}
fn child<'a>(m: Option<&'a Map>, k: &[u8]) -> Option<&'a Node> {
    m.and_then(|m| m.get(k))
}
fn key_branch(g: &mut G, n: Option<&Node>, depth: usize) -> SubqueryBranch {
    let mut cur = n;
    let mut path = vec![];
    if g.chance(1, 3) {
        for _ in 0..g.size(1, 2) {
            let k = one_key(g, None, cur.and_then(|c| c.map()));
            cur = child(cur.and_then(|c| c.map()), &k);
            path.push(k);
        }
    }
    let sub = (path.is_empty() || g.chance(2, 3)).then(|| Box::new(key_query(g, cur, cur.and_then(|c| c.map()), depth + 1)));
    SubqueryBranch { subquery_path: (!path.is_empty()).then_some(path), subquery: sub }
}
/// A query of finitely many keys.
fn key_query(g: &mut G, n: Option<&Node>, m: Option<&Map>, depth: usize) -> Query {
    let mut q = Query::new_with_direction(g.chance(2, 3));
    key_items(g, n, m, &mut q);
    let keys: Vec<Key> = q.items.iter().flat_map(|i| i.keys().unwrap_or_default()).collect();
    if depth < 3 && n.is_none_or(|n| n.leaves().is_none()) {
        let there: Vec<&Key> = keys.iter().filter(|k| child(m, k).is_some_and(|n| n.is_tree())).collect();
        if g.chance(if there.is_empty() { 1 } else { 5 }, 7) {
            let c = if there.is_empty() { None } else { child(m, g.pick(&there)) };
            q.default_subquery_branch = key_branch(g, c, depth);
        }
        if g.chance(1, 3) {
            for _ in 0..g.size(1, 2) {
                let k = if g.chance(4, 5) { g.pick(&keys).clone() } else { one_key(g, n, m) };
                let it = if k.len() == 1 && g.chance(1, 5) { QueryItem::RangeInclusive(k.clone()..=vec![k[0].saturating_add(1)]) } else { QueryItem::Key(k.clone()) };
                let b = key_branch(g, child(m, &k), depth);
                if g.chance(1, 3) { q.add_conditional_subquery(it, None, None) } else { q.add_conditional_subquery(it, b.subquery_path, b.subquery.map(|b| *b)) }
            }
        }
        if g.chance(1, 10) { q.add_parent_tree_on_subquery = true }
    }
    q
}
/// The keys a query asks for, by its meaning.
fn asked(q: &Query, path: &[Key], out: &mut BTreeSet<(Path, Key)>) {
    let mut keys: BTreeSet<Key> = q.items.iter().flat_map(|i| i.keys().expect("finite")).collect();
    keys.extend(q.conditional_subquery_branches.iter().flatten().flat_map(|(i, _)| i.keys().expect("finite")).filter(|k| q.items.iter().any(|i| matches(i, k))));
    for k in keys {
        let b = crate::q02::branch(q, &k);
        let mut p = path.to_vec();
        p.push(k);
        p.extend(b.subquery_path.iter().flatten().cloned());
        match &b.subquery {
            Some(s) => asked(s, &p, out),
            None => { let k = p.pop().unwrap(); out.insert((p, k)); }
        }
    }
}
fn ranges(q: &Query) -> bool {
    let below = |b: &SubqueryBranch| b.subquery.as_ref().is_some_and(|s| ranges(s));
    q.items.iter().any(|i| !std::matches!(i, QueryItem::Key(_))) || below(&q.default_subquery_branch) || q.conditional_subquery_branches.iter().flatten().any(|(_, b)| below(b))
}
fn absence(g: &mut G) -> R {
    let c = grow(g)?;
    for _ in 0..4 {
        let mut path: Path = vec![];
        let (mut n, mut m) = (None, Some(&c.m));
        while let Some(cur) = m {
            let trees: Vec<&Key> = cur.iter().filter(|(_, n)| n.is_tree()).map(|(k, _)| k).collect();
            if trees.is_empty() || g.chance(1, 2) { break }
            let k = (*g.pick(&trees)).clone();
            n = cur.get(&k);
            m = n.and_then(|n| n.map());
            path.push(k);
        }
        let q = key_query(g, n, m, 0);
        let mut want = BTreeSet::new();
        asked(&q, &path, &mut want);
        let mut pq = PathQuery::new_unsized(path, q);
        // longer keys in a range take from the limit, too
        let enough = want.len() as u16 + g.below(3) as u16 + if ranges(&pq.query.query) { 200 } else { 0 };
        let limit = if want.len() > 1 && g.chance(1, 12) { g.range(1, want.len() as u64 - 1) as u16 } else { enough };
        if limit == 0 { continue }
        // proven without the limit, or with it
        let mut asked_of_prover = pq.clone();
        pq.query.limit = Some(limit);
        if g.chance(3, 4) { asked_of_prover = pq.clone() }
        let Some(proof) = c.prove(&asked_of_prover)? else { continue };
        let full = eval(&c.m, &pq, None, false);
        if full.bad_width { continue }
        let there: BTreeMap<(Path, Key), Element> = normed(full).into_iter().map(|(p, k, e)| ((p, k), e)).collect();
        let want: Vec<_> = want.into_iter().map(|(p, k)| { let e = there.get(&(p.clone(), k.clone())).cloned(); (p, k, e) }).collect();
        let all = |f: &dyn Fn() -> Result<([u8; 32], Vec<(Path, Key, Option<Element>)>), grovedb::Error>| no_panic(f);
        let parsed = g02::read(&proof).expect("decodes");
        let o = VerifyOptions { absence_proofs_for_non_existing_searched_keys: true, ..PLAIN };
        for (i, r) in [
            all(&|| GroveDb::verify_query_with_absence_proof(&proof, &pq, c.v)),
            all(&|| GroveDb::verify_subset_query_with_absence_proof(&proof, &pq, c.v)),
            all(&|| GroveDb::verify_query_with_options(&proof, &pq, o, c.v)),
            all(&|| parsed.verify_with_absence_proof(&pq, c.v)),
            all(&|| parsed.verify_subset_with_absence_proof(&pq, c.v)),
        ].into_iter().enumerate() {
            match r {
                Err(p) => fail!("absence verification panicked: {p}\n  {}", c.ctx(&pq)),
                Ok(Err(e)) => {
                    let why = format!("{e}");
                    ensure!((limit as usize) < want.len(), "absence verification {i} refused: {why}\n  {}", c.ctx(&pq));
                    g.label("limit too small");
                }
                Ok(Ok((h, mut got))) => {
                    ensure_eq!(h, c.root, "root hash");
                    ensure!(limit as usize >= want.len(), "absence with a limit of {limit} for {} keys\n  {}", want.len(), c.ctx(&pq));
                    got.sort_by(|a, b| (&a.0, &a.1).cmp(&(&b.0, &b.1)));
                    let got: Vec<_> = got.into_iter().map(|(p, k, e)| (p, k, e.map(norm))).collect();
                    ensure!(got == want, "wrong absence results ({i})\n  {}\n  got {got:?}\n  want {want:?}", c.ctx(&pq));
                }
            }
        }
        g.nontrivial_if(want.iter().any(|w| w.2.is_some()) && want.iter().any(|w| w.2.is_none()));
        let mut no_limit = pq.clone();
        no_limit.query.limit = None;
        ensure!(GroveDb::verify_query_with_absence_proof(&proof, &no_limit, c.v).is_err(), "absence without a limit");
    }
    Ok(())
}

// ---- subsets

/// An empty subquery path is no path (merging asks for at least one key in a path).
pub fn no_empty_paths(q: &mut Query) {
    for b in std::iter::once(&mut q.default_subquery_branch).chain(q.conditional_subquery_branches.iter_mut().flat_map(|c| c.values_mut())) {
        if b.subquery_path.as_ref().is_some_and(|p| p.is_empty()) { b.subquery_path = None }
        if let Some(s) = &mut b.subquery { no_empty_paths(s) }
    }
}
fn one_way(q: &Query, ascending: bool) -> bool {
    let below = |b: &SubqueryBranch| b.subquery.as_ref().is_none_or(|s| one_way(s, ascending));
    q.left_to_right == ascending && below(&q.default_subquery_branch) && q.conditional_subquery_branches.iter().flatten().all(|(_, b)| below(b))
}
fn subset(g: &mut G) -> R {
    let c = grow(g)?;
    let n = 2 + g.below(2) as usize;
    let mut qs: Vec<PathQuery> = (0..n).map(|_| gen_path_query(g, &c.m)).collect();
    for q in &mut qs {
        q.query.limit = None;
        no_empty_paths(&mut q.query.query);
    }
    if g.chance(1, 3) {
        // the first one asked for less
        let mut less = qs[0].clone();
        less.query.query.items.truncate(1);
        qs[1] = less;
    }
    let v = c.v;
    let Ok(merged) = PathQuery::merge(qs.iter().collect(), v) else { return Err(Fail::discard()) };
    let Some(proof) = c.prove(&merged)? else { return Err(Fail::discard()) };
    if qs.iter().chain([&merged]).any(|q| eval(&c.m, q, None, true).bad_width) { return Err(Fail::discard()) }
    let parsed = g02::read(&proof).expect("decodes");
    let mut expected: Vec<Option<Vec<Row>>> = vec![];
    for pq in &qs {
        let full = eval(&c.m, pq, None, false);
        let (flat, unordered) = (full.flat, full.descending_flat);
        let mut want = normed(full);
        let r = match no_panic(|| GroveDb::verify_subset_query(&proof, pq, v)) {
            Err(p) => fail!("subset verification panicked: {p}\n  {}", c.ctx(pq)),
            Ok(r) => r,
        };
        let other = parsed.verify_subset(pq, v);
        ensure_eq!(format!("{other:?}"), format!("{r:?}"), "verify_subset");
        decoded(&proof, &parsed, pq, v)?;
        match r {
            Ok((h, got)) => {
                ensure!(h == c.root, "root hash of a subset");
                let mut got = rows(got)?;
                if unordered { got.sort_by(cmp); want.sort_by(cmp) }
                ensure!(got == want, "wrong results of a subset\n  of {}\n  {}\n  got\n    {}\n  want\n    {}", show_pq(&merged), c.ctx(pq), show_rows(&got), show_rows(&want));
                g.label("subset verified");
                if !want.is_empty() && g02::write(&parsed) != c.prove(pq)?.unwrap_or_default() { g.nontrivial() }
                expected.push(Some(got));
            }
            Err(e) => {
                // a proof of more than was asked for always does when nothing but keys is added, and all are
                // walked in the same direction
                g.label("subset refused");
                let simple = qs.iter().all(|q| q.path == pq.path && one_way(&q.query.query, pq.query.query.left_to_right) && q.query.query.default_subquery_branch == pq.query.query.default_subquery_branch
                    && q.query.query.conditional_subquery_branches.is_none());
                ensure!(!simple || flat, "subset refused: {e}\n  of {}\n  {}", show_pq(&merged), c.ctx(pq));
                expected.push(None);
            }
        }
    }
    // one after the other
    let rest: Vec<_> = qs[1..].iter().map(|q| { let q = q.clone(); move |_: Vec<(Path, Key, Option<Element>)>| Some(q.clone()) }).collect();
    match no_panic(|| GroveDb::verify_query_with_chained_path_queries(&proof, &qs[0], rest, v)) {
        Err(p) => fail!("chained verification panicked: {p}"),
        Ok(Err(_)) => ensure!(expected.iter().any(|e| e.is_none()), "chained queries refused though each one alone is not\n  of {}\n  {}", show_pq(&merged), c.ctx(&qs[0])),
        Ok(Ok((h, all))) => {
            ensure!(h == c.root && all.len() == qs.len(), "chained queries");
            for (i, (got, want)) in all.into_iter().zip(&expected).enumerate() {
                let mut got = rows(got)?;
                if eval(&c.m, &qs[i], None, false).descending_flat { got.sort_by(cmp) }
                ensure!(Some(&got) == want.as_ref(), "wrong results of chained query {i}\n  of {}\n  {}", show_pq(&merged), c.ctx(&qs[i]));
            }
            g.label("chained");
            // the results of the one before are what the next one is made from
            let seen = std::cell::RefCell::new(None);
            let second = |r: Vec<(Path, Key, Option<Element>)>| { *seen.borrow_mut() = Some(r); if g.bool() { Some(qs[1].clone()) } else { None } };
            let choice = std::cell::RefCell::new(second);
            let r = GroveDb::verify_query_with_chained_path_queries(&proof, &qs[0], vec![|r: Vec<(Path, Key, Option<Element>)>| (choice.borrow_mut())(r)], v);
            drop(choice);
            // so along a whole chain of them
            let chain: Vec<usize> = (0..2 + g.below(5)).map(|_| g.below(qs.len() as u64) as usize).collect();
            let given = std::cell::RefCell::new(vec![]);
            let makers: Vec<_> = chain.iter().map(|i| { let (q, given) = (qs[*i].clone(), &given); move |r: Vec<(Path, Key, Option<Element>)>| { given.borrow_mut().push(r); Some(q.clone()) } }).collect();
            match GroveDb::verify_query_with_chained_path_queries(&proof, &qs[0], makers, v) {
                Err(e) => fail!("a chain of {} refused: {e}\n  of {}", chain.len(), show_pq(&merged)),
                Ok((_, all)) => {
                    ensure!(given.into_inner() == all[..chain.len()], "a chained query is made from other results than those before it ({chain:?})\n  of {}", show_pq(&merged));
                    for (i, got) in std::iter::once(&0).chain(&chain).zip(all) {
                        let mut got = rows(got)?;
                        if eval(&c.m, &qs[*i], None, false).descending_flat { got.sort_by(cmp) }
                        ensure!(Some(&got) == expected[*i].as_ref(), "wrong results in a chain {chain:?}\n  of {}", show_pq(&merged));
                    }
                    g.label_if(chain.len() > 3, "a long chain");
                }
            }
            let first = GroveDb::verify_subset_query(&proof, &qs[0], v).map(|r| r.1).unwrap_or_default();
            ensure!(seen.take() == Some(first), "the second query is made from other results");
            if let Ok((_, r)) = r { ensure!(r.len() == 2, "two chained queries") }
        }
    }
    Ok(())
}
/// A decoded proof answers as its bytes do, also when it proves more than is asked.
fn decoded(proof: &[u8], parsed: &grovedb::operations::proof::GroveDBProof, pq: &PathQuery, v: &GroveVersion) -> R {
    let raw = VerifyOptions { verify_proof_succinctness: false, ..RAW };
    let all = GroveDb::verify_query_with_options(proof, pq, raw, v);
    for (what, r) in [("bytes", no_panic(|| GroveDb::verify_query_raw(proof, pq, v))), ("a decoded proof", no_panic(|| parsed.verify_raw(pq, v)))] {
        match (r, &all) {
            (Err(p), _) => fail!("raw verification panicked: {p}"),
            (Ok(Ok((h, r))), Ok((h2, want))) => {
                let got: Vec<_> = r.iter().map(|r| (r.path.clone(), r.key.clone(), Element::deserialize(&r.value, v).ok())).collect();
                ensure!(h == *h2 && got == *want, "raw results of {what}: {got:?}, others {want:?}\n  {}", show_pq(pq));
            }
            (Ok(Err(_)), Err(_)) => (),
            (Ok(a), b) => fail!("raw verification of {what}: {:?}, with options {:?}\n  {}", a.map(|r| r.1.len()), b.as_ref().map(|r| r.1.len()), show_pq(pq)),
        }
    }
    ensure_eq!(format!("{:?}", parsed.verify(pq, v)), format!("{:?}", GroveDb::verify_query(proof, pq, v)), "verify of a decoded proof");
    for o in [PLAIN, LAX, RAW, raw] {
        ensure_eq!(format!("{:?}", parsed.verify_with_options(pq, o, v)), format!("{:?}", GroveDb::verify_query_with_options(proof, pq, o, v)), "verify_with_options of a decoded proof");
    }
    let mut limited = pq.clone();
    limited.query.limit = Some(40);
    ensure_eq!(format!("{:?}", parsed.verify_with_absence_proof(&limited, v)), format!("{:?}", GroveDb::verify_query_with_absence_proof(proof, &limited, v)), "absence shown by a decoded proof");
    ensure_eq!(format!("{:?}", parsed.verify_subset_with_absence_proof(&limited, v)), format!("{:?}", GroveDb::verify_subset_query_with_absence_proof(proof, &limited, v)), "absence shown by a larger decoded proof");
    Ok(())
}
fn cmp(a: &Row, b: &Row) -> std::cmp::Ordering {
    (&a.0, &a.1).cmp(&(&b.0, &b.1))
}

// ---- everything else told by one proof

fn views(g: &mut G) -> R {
    let c = grow(g)?;
    let v = c.v;
    for _ in 0..4 {
        let mut pq = gen_path_query(g, &c.m);
        if g.bool() {
            // one layer, which has a parent tree
            pq.query.query.default_subquery_branch = SubqueryBranch::default();
            pq.query.query.conditional_subquery_branches = None;
        }
        let Some(proof) = c.prove(&pq)? else { continue };
        if eval(&c.m, &pq, None, true).bad_width { continue }
        let parsed = g02::read(&proof).expect("decodes");
        // the same proof, decoded
        for (o, a) in [(PLAIN, no_panic(|| parsed.verify(&pq, v))), (LAX, no_panic(|| parsed.verify_subset(&pq, v))), (RAW, no_panic(|| parsed.verify_with_options(&pq, RAW, v)))] {
            let b = GroveDb::verify_query_with_options(&proof, &pq, o, v);
            ensure_eq!(format!("{a:?}"), format!("Ok({b:?})"), "verification of a decoded proof");
        }
        ensure_eq!(format!("{:?}", GroveDb::verify_query(&proof, &pq, v)), format!("{:?}", GroveDb::verify_query_with_options(&proof, &pq, PLAIN, v)), "verify_query");
        let mut offset = pq.clone();
        offset.query.offset = Some(1);
        ensure!(GroveDb::verify_query(&proof, &offset, v).is_err(), "an offset in a verified query");
        // raw results
        let (h, all) = match GroveDb::verify_query_with_options(&proof, &pq, VerifyOptions { verify_proof_succinctness: false, ..RAW }, v) { Ok(r) => r, Err(e) => fail!("honest proof refused: {e}\n  {}", c.ctx(&pq)) };
        for r in [GroveDb::verify_query_raw(&proof, &pq, v), parsed.verify_raw(&pq, v)] {
            let (h2, raw) = match r { Ok(r) => r, Err(e) => fail!("raw verification refused: {e}\n  {}", c.ctx(&pq)) };
            ensure_eq!(h2, h, "root hash of raw verification");
            let got: Vec<_> = raw.iter().map(|r| (r.path.clone(), r.key.clone(), Element::deserialize(&r.value, v).ok())).collect();
            ensure!(got == all, "raw results\n  {}\n  got {got:?}\n  want {all:?}", c.ctx(&pq));
        }
        parent(g, &c, &pq, &proof)?;
        // boundaries
        let l = g02::layers(&parsed);
        let mut paths = vec![];
        collect(&l, &mut vec![], &mut paths);
        for (p, merk) in paths {
            let p2 = refs(&p);
            let b = match no_panic(|| parsed.boundaries(&p2)) { Err(e) => fail!("boundaries panicked: {e}"), Ok(b) => b };
            if !merk {
                ensure!(b.is_err() && parsed.key_exists_as_boundary(&p2, &[1]).is_err(), "boundaries of a layer without keys");
                continue;
            }
            let b = match b { Ok(b) => b, Err(e) => fail!("boundaries refused: {e}\n  {}", c.ctx(&pq)) };
            let m = map_at(&c.m, &p).expect("layer");
            for k in &b { ensure!(m.contains_key(k), "boundary {} does not exist\n  {}", vp::hex(k), c.ctx(&pq)) }
            for k in m.keys() { ensure_eq!(parsed.key_exists_as_boundary(&p2, k).ok(), Some(b.contains(k)), "key_exists_as_boundary") }
            ensure_eq!(parsed.key_exists_as_boundary(&p2, &[9, 9, 9]).ok(), Some(false), "key_exists_as_boundary");
            if p == pq.path && pq.query.limit.is_none() {
                let q = &pq.query.query;
                for k in m.keys() {
                    let selected = q.items.iter().any(|i| matches(i, k));
                    ensure!(!(selected && b.contains(k)), "a selected key is a boundary\n  {}", c.ctx(&pq));
                    let after = q.items.iter().any(|i| match i { QueryItem::RangeAfter(r) => &r.start == k, QueryItem::RangeAfterTo(r) => &r.start == k, QueryItem::RangeAfterToInclusive(r) => r.start() == k, _ => false });
                    if after && !selected {
                        ensure!(b.contains(k), "the key {} a range starts after is no boundary: {b:?}\n  {}", vp::hex(k), c.ctx(&pq));
                        g.label("boundary");
                    }
                }
            }
        }
        ensure!(parsed.boundaries(&[&[77, 77, 77, 77]]).is_err(), "boundaries of a layer that is not there");
        g.nontrivial_if(!all.is_empty());
    }
    Ok(())
}
fn collect(l: &g02::L, p: &mut Path, out: &mut Vec<(Path, bool)>) {
    out.push((p.clone(), std::matches!(l.proof, ProofBytes::Merk(_))));
    for (k, c) in &l.lower {
        p.push(k.clone());
        collect(c, p, out);
        p.pop();
    }
}
fn parent(g: &mut G, c: &Grove, pq: &PathQuery, proof: &[u8]) -> R {
    let v = c.v;
    let subqueries = pq.query.query.default_subquery_branch.subquery.is_some() || pq.query.query.default_subquery_branch.subquery_path.is_some() || pq.query.query.conditional_subquery_branches.is_some();
    let tree = at(&c.m, &pq.path).filter(|n| n.is_tree());
    for (i, r) in [
        no_panic(|| GroveDb::verify_query_get_parent_tree_info(proof, pq, v)),
        no_panic(|| GroveDb::verify_subset_query_get_parent_tree_info(proof, pq, v)),
        no_panic(|| GroveDb::verify_query_get_parent_tree_info_with_options(proof, pq, PLAIN, v)),
    ].into_iter().enumerate() {
        match r {
            Err(p) => fail!("verification with the parent panicked: {p}\n  {}", c.ctx(pq)),
            Ok(Err(e)) => ensure!(subqueries || tree.is_none(), "verification with the parent refused ({i}): {e}\n  {}", c.ctx(pq)),
            Ok(Ok((h, t, got))) => {
                let plain = GroveDb::verify_query_with_options(proof, pq, if i == 1 { LAX } else { PLAIN }, v).ok();
                ensure!(Some((h, got)) == plain, "results with the parent\n  {}", c.ctx(pq));
                let Some(tree) = tree else { fail!("there is no parent tree, yet it is {t:?}\n  {}", c.ctx(pq)) };
                let want: Option<TreeFeatureType> = tree.element().tree_feature_type();
                ensure!(Some(t) == want, "parent tree {t:?} instead of {want:?}\n  {}", c.ctx(pq));
                g.label("parent");
            }
        }
    }
    Ok(())
}

// ---- layers nobody asked for

fn layer_at<'a>(l: &'a mut g02::L, p: &[Key]) -> &'a mut g02::L {
    p.iter().fold(l, |l, k| l.lower.get_mut(k).expect("layer"))
}
fn superfluous(g: &mut G) -> R {
    let c = grow(g)?;
    let v = c.v;
    for _ in 0..4 {
        let pq = gen_path_query(g, &c.m);
        let Some(proof) = c.prove(&pq)? else { continue };
        if eval(&c.m, &pq, None, true).bad_width { continue }
        let parsed = g02::read(&proof).expect("decodes");
        let l = g02::layers(&parsed);
        let mut places = vec![];
        collect(&l, &mut vec![], &mut places);
        places.retain(|p| p.1);
        for _ in 0..3 {
            let (p, _) = g.pick(&places).clone();
            let m = map_at(&c.m, &p).expect("layer");
            let mut l = l.clone();
            let at = layer_at(&mut l, &p);
            let others: Vec<&Key> = m.keys().filter(|k| !at.lower.contains_key(*k)).collect();
            let key = if others.is_empty() || g.chance(1, 3) { small_key(g, 1, 2) } else { (*g.pick(&others)).clone() };
            if at.lower.contains_key(&key) { continue }
            // the real layer below, or one of this proof
            let mut below = None;
            if m.get(&key).is_some_and(Node::is_tree) && g.chance(3, 4) {
                let path: Path = p.iter().chain([&key]).cloned().collect();
                let all = PathQuery::new_unsized(path.clone(), if g.bool() { Query::new_range_full() } else { Query::new_single_key(vec![1]) });
                if let Ok(Ok(b)) = no_panic(|| c.db.db.prove_query(&all, None, v).unwrap()) {
                    let mut l = g02::layers(&g02::read(&b).expect("decodes"));
                    let mut at = Some(&mut l);
                    for k in &path { at = at.and_then(|l| l.lower.get_mut(k)) }
                    below = at.map(|l| g02::L { proof: l.proof.clone(), lower: BTreeMap::new() });
                }
            }
            g.label_if(below.is_some(), "real");
            let kind = match m.get(&key) { None => "no such key", Some(n) if n.is_tree() => "tree", _ => "item" };
            let below = below.unwrap_or_else(|| g02::L { proof: g.pick(&[at.proof.clone(), ProofBytes::Merk(vec![]), ProofBytes::MMR(vec![1])]).clone(), lower: BTreeMap::new() });
            at.lower.insert(key.clone(), below);
            let bytes = g02::write(&g02::with_layers(&parsed, l));
            for o in [PLAIN, RAW] {
                match no_panic(|| GroveDb::verify_query_with_options(&bytes, &pq, o, v)) {
                    Err(e) => fail!("verification panicked: {e}"),
                    Ok(Ok(_)) => fail!("a proof with a layer under /{} {} ({kind}) that the query needs nothing from is not refused\n  {}", p.iter().map(|k| vp::hex(k)).collect::<Vec<_>>().join("/"), vp::hex(&key), c.ctx(&pq)),
                    Ok(Err(_)) => (),
                }
            }
            g.label(kind);
            g.nontrivial();
            // read as a subset it may be ignored
            if let Ok((h, r)) = GroveDb::verify_query_with_options(&bytes, &pq, LAX, v) {
                let want = GroveDb::verify_query_with_options(&proof, &pq, LAX, v).ok();
                ensure!(Some((h, r)) == want, "a superfluous layer changes the results\n  {}", c.ctx(&pq));
                g.label("ignored");
            }
        }
    }
    Ok(())
}

pub fn sections() -> Vec<Section> {
    vec![
        section("absence", "a query finding some of the keys it asks for and not others", 15_000, 500_000, absence),
        section("subsets", "a subset query with results, read from a larger proof", 14_000, 400_000, subset),
        section("superfluous", "a proof with a layer added that the query needs nothing from", 4_000, 100_000, superfluous),
        section("views", "a query with results", 10_000, 400_000, views),
    ]
}
