//! W01: a grove is the nested maps its history of operations makes it.
use crate::grove::*;
use crate::hist::*;
use crate::rep01::root;
use grovedb_query::Query;
use grovedb::{GroveDb, PathQuery};
use grovedb_version::version::GroveVersion;
use vp::*;

fn proved(db: &GroveDb, s: &State, v: &GroveVersion) -> R {
    let root = root(db, v)?;
    for p in std::iter::once(vec![]).chain(all(&s.m).into_iter().filter(|(_, n)| n.map().is_some_and(|m| !m.is_empty() && m.len() < 100)).map(|(p, _)| p)) {
        let m = map_at(&s.m, &p).unwrap();
        if m.is_empty() || m.values().any(|n| matches!(n.v, V::Ref(..))) { continue }
        let mut q = Query::new();
        q.insert_all();
        let pq = PathQuery::new_unsized(p.clone(), q);
        let proof = match db.prove_query(&pq, None, v).unwrap() { Ok(p) => p, Err(e) => fail!("proof of {}: {e}", show_path(&p)) };
        match GroveDb::verify_query_raw(&proof, &pq, v) {
            Ok((r, rows)) => {
                ensure_eq!(r, root, "root hash of the proof of {}", show_path(&p));
                ensure_eq!(rows.len(), m.len(), "proved elements of {}", show_path(&p));
            }
            Err(e) => fail!("verifying the proof of {}: {e}", show_path(&p)),
        }
    }
    Ok(())
}
fn history(g: &mut G) -> R {
    let v = version(g);
    let mix = Mix { o: Opts { flat_trees: g.chance(1, 2), refs: g.chance(2, 3), ..Opts::default() }, odd: *g.pick(&[12u64, 40, 400]), clears: true };
    let d = open();
    let db = &d.db;
    let mut log: Vec<String> = vec![];
    let mut run = |g: &mut G| -> R {
        let mut s = State::default();
        if g.bool() {
            let m = gen_grove(g, &mix.o);
            build(g, db, &m, v)?;
            log.push(format!("from {}", show_map(&m)));
            s.m = m;
            for (p, n) in all(&s.m.clone()) {
                if let V::Ref(t, _) = &n.v { let e = follow(&s.m, t, HOPS).map(|n| n.element()); s.bound.insert(p, e); }
            }
        }
        let mut tx = None;
        let mut before = s.clone();
        let (mut changes, mut refused) = (0, 0);
        for i in 0..40 {
            if i > 0 && g.below(16) == 0 { break }
            if g.chance(1, 8) {
                match tx.take() {
                    None => { before = s.clone(); tx = Some(db.start_transaction()); log.push("start".into()) }
                    Some(t) => match g.below(3) {
                        0 => {
                            log.push("rollback".into());
                            if let Err(e) = db.rollback_transaction(&t) { fail!("rollback: {e}") }
                            s = before.clone();
                            tx = Some(t);
                            g.label("rolled back");
                        }
                        1 => { log.push("drop".into()); drop(t); s = before.clone(); g.label("dropped"); compare(db, &s, None, v)? }
                        _ => {
                            log.push("commit".into());
                            if let Err(e) = db.commit_transaction(t).unwrap() { fail!("commit: {e}") }
                            g.label("committed");
                            compare(db, &s, None, v)?;
                        }
                    },
                }
                continue;
            }
            let o = gen_op(g, &s, &mix);
            log.push(show_op(&o));
            let hash = db.root_hash(tx.as_ref(), v).unwrap();
            let mut next = s.clone();
            let want = next.apply(&o);
            let got = match no_panic(|| real(db, &o, tx.as_ref(), v)) { Ok(r) => r, Err(p) => fail!("panic: {p}") };
            match (&want, &got) {
                (Some(a), Ok(b)) => ensure_eq!(b, a, "result"),
                (None, Err(_)) => {
                    refused += 1;
                    ensure_eq!(db.root_hash(tx.as_ref(), v).unwrap().ok(), hash.ok(), "root hash after a refused operation");
                }
                (Some(a), Err(e)) => fail!("refused: {e}; expected {a:?}"),
                (None, Ok(b)) => fail!("{b:?}, expected to be refused"),
            }
            if want.is_some() {
                changes += (next.m != s.m) as usize;
                s = next;
            }
            probe(g, db, &s, tx.as_ref(), v)?;
            if tx.is_some() && g.chance(1, 3) { probe(g, db, &before, None, v)? }
            if g.chance(1, 12) { compare(db, &s, tx.as_ref(), v)? }
        }
        compare(db, &s, tx.as_ref(), v)?;
        if let Some(t) = tx {
            drop(t);
            compare(db, &before, None, v)?;
            s = before;
        }
        if g.chance(1, 4) { proved(db, &s, v)? }
        g.nontrivial_if(changes > 2);
        g.label_if(refused > 0, "an operation refused");
        Ok(())
    };
    let r = run(g);
    r.map_err(|f| if f.discard { f } else { Fail::new(f.sig, format!("{}\n  {}", f.msg, log.join("\n  "))) })
}

pub fn sections() -> Vec<Section> {
    vec![section("history", "three changes or more", 40_000, 1_000_000, history)]
}
