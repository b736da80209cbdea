//! G01: honest proofs verify, and give exactly what the query selects.
use crate::grove::*;
use grovedb::{Element, GroveDb, PathQuery};
use grovedb_merk::proofs::query::VerifyOptions;
use grovedb_version::version::GroveVersion;
use vp::*;

pub fn rows(v: Vec<(Path, Key, Option<Element>)>) -> R<Vec<Row>> {
    v.into_iter().map(|(p, k, e)| match e {
        Some(e) => Ok((p, k, norm(e))),
        None => Err(Fail::new("none", format!("verified result without element at {p:?} {k:?}"))),
    }).collect()
}
pub const PLAIN: VerifyOptions = VerifyOptions {
    absence_proofs_for_non_existing_searched_keys: false,
    verify_proof_succinctness: true,
    include_empty_trees_in_result: false,
};
pub const RAW: VerifyOptions = VerifyOptions {
    absence_proofs_for_non_existing_searched_keys: false,
    verify_proof_succinctness: true,
    include_empty_trees_in_result: true,
};
pub fn show_rows(r: &[Row]) -> String {
    r.iter().map(|(p, k, e)| format!("/{} {} {e:?}", p.iter().map(|k| vp::hex(k)).collect::<Vec<_>>().join("/"), vp::hex(k))).collect::<Vec<_>>().join("\n    ")
}

fn one(g: &mut G, db: &Db, m: &Map, pq: &PathQuery, v: &GroveVersion) -> R<bool> {
    let ctx = || format!("grove {}\n  query {}\n  version {}", show_map(m), show_pq(pq), v.protocol_version);
    let full = eval(m, pq, None, false);
    let proof = match no_panic(|| db.db.prove_query(pq, None, v).unwrap()) {
        Err(p) => fail!("prove panicked: {p}\n  {}", ctx()),
        Ok(Ok(p)) => p,
        Ok(Err(e)) => {
            let ok = full.bad_width || full.no_position || full.flat && !v1_proofs(v);
            ensure!(ok, "prove refused: {e}\n  {}", ctx());
            g.label("refused");
            return Ok(false);
        }
    };
    if full.bad_width { g.label("bad width"); return Ok(false) }
    let root = db.db.root_hash(None, v).unwrap().expect("root hash");
    for (raw, o) in [(false, PLAIN), (true, RAW)] {
        let full = eval(m, pq, None, raw);
        let (hash, got) = match no_panic(|| GroveDb::verify_query_with_options(&proof, pq, o, v)) {
            Err(p) => fail!("verify panicked: {p}\n  {}", ctx()),
            Ok(Err(e)) => fail!("honest proof refused (raw {raw}): {e}\n  {}", ctx()),
            Ok(Ok(r)) => r,
        };
        ensure!(hash == root, "wrong root from an honest proof\n  {}", ctx());
        let mut got = rows(got)?;
        let mut want: Vec<Row> = full.out.iter().map(|(p, k, e)| (p.clone(), k.clone(), norm(e.clone()))).collect();
        if let Some(l) = pq.query.limit {
            let cut = eval(m, pq, Some(l), raw);
            want = cut.out.iter().map(|(p, k, e)| (p.clone(), k.clone(), norm(e.clone()))).collect();
        }
        if full.descending_flat && pq.query.limit.is_none() { got.sort_by(cmp); want.sort_by(cmp) }
        ensure!(got == want, "wrong results (raw {raw})\n  {}\n  got\n    {}\n  want\n    {}", ctx(), show_rows(&got), show_rows(&want));
        if raw { g.label_if(got.is_empty(), "no results") }
    }
    Ok(full.out.len() > 1 && full.layers > 1)
}
fn cmp(a: &Row, b: &Row) -> std::cmp::Ordering {
    (&a.0, &a.1).cmp(&(&b.0, &b.1))
}

fn honest(g: &mut G) -> R {
    let v = version(g);
    let o = Opts { flat_trees: v1_proofs(v), ..Opts::default() };
    let m = gen_grove(g, &o);
    let db = open();
    build(g, &db.db, &m, v)?;
    g.note(|| show_map(&m));
    for _ in 0..4 {
        let pq = gen_path_query(g, &m);
        let n = one(g, &db, &m, &pq, v)?;
        g.nontrivial_if(n);
    }
    Ok(())
}

pub fn sections() -> Vec<Section> {
    vec![section("honest", "a query giving two or more results over two or more layers", 30_000, 1_500_000, honest)]
}
