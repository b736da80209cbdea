//! V01: operations act only under feature versions they know.
use crate::grove::*;
use grovedb::operations::delete::{ClearOptions, DeleteUpTreeOptions};
use grovedb::query_result_type::{PathKeyOptionalElementTrio, QueryResultType::*};
use grovedb::{AggregateSumPathQuery, Element, Error, GroveDb, PathBranchChunkQuery, PathQuery, PathTrunkChunkQuery, Query, Transaction, TransactionArg};
use grovedb::batch::QualifiedGroveDbOp;
use grovedb::reference_path::ReferencePathType;
use grovedb_merk::proofs::query::VerifyOptions;
use grovedb_query::AggregateSumQuery;
use grovedb_version::version::{GroveVersion, GROVE_VERSIONS};
use std::collections::BTreeSet;
use vp::*;

struct Fixture {
    db: Db,
    items: PathQuery,
    /// Proofs of `items` by each version.
    proofs: Vec<Vec<u8>>,
}
type Out = Result<(), String>;
struct Gate {
    name: &'static str,
    set: fn(&mut GroveVersion, u16),
    known: &'static [u16],
    call: fn(&Fixture, usize, TransactionArg, &GroveVersion) -> Out,
}
fn ok<T, E: std::fmt::Display>(r: Result<T, E>) -> Out {
    r.map(|_| ()).map_err(|e| e.to_string())
}
const O: VerifyOptions = VerifyOptions {
    absence_proofs_for_non_existing_searched_keys: false,
    verify_proof_succinctness: true,
    include_empty_trees_in_result: false,
};
const ROOT: &[&[u8]] = &[];
const T: &[u8] = b"t";

fn fixture() -> Fixture {
    let v = latest();
    let db = open();
    let put = |p: &[&[u8]], k: &[u8], e: Element| db.db.insert(p, k, e, None, None, v).unwrap().expect("fixture");
    put(ROOT, b"t", Element::empty_tree());
    put(ROOT, b"s", Element::empty_sum_tree());
    put(ROOT, b"c", Element::empty_provable_count_tree());
    put(ROOT, b"e", Element::empty_tree());
    put(ROOT, b"r", Element::empty_tree());
    put(ROOT, b"x", Element::new_item(vec![1]));
    for i in 0..8u8 {
        put(&[b"t"], &[i], Element::new_item(vec![i]));
        put(&[b"r"], &[i], Element::new_reference(ReferencePathType::AbsolutePathReference(vec![b"t".to_vec(), vec![i]])));
        put(&[b"s"], &[i], Element::new_sum_item(i as i64));
        put(&[b"c"], &[i], Element::new_item(vec![i]));
    }
    let mut q = Query::new();
    q.insert_keys(vec![vec![1], vec![3]]);
    let items = PathQuery::new_unsized(vec![b"t".to_vec()], q);
    let proofs = GROVE_VERSIONS.iter().map(|v| db.db.prove_query(&items, None, v).unwrap().expect("fixture proof")).collect();
    Fixture { db, items, proofs }
}
thread_local!(static FIX: Fixture = fixture());

macro_rules! gate {
    ($name:expr, [$($f:ident).+], $known:expr, |$x:ident, $i:ident, $tx:ident, $v:ident| $call:expr) => {
        Gate { name: $name, set: |v, n| v.grovedb_versions.$($f).+ = n, known: &$known, call: |$x, $i, $tx, $v| { let _ = (&$x, $i, &$tx); $call } }
    };
}
fn path_query_in(f: &Fixture, k: &[u8]) -> PathQuery {
    PathQuery { path: vec![k.to_vec()], query: f.items.query.clone() }
}

fn verifying() -> Vec<Gate> {
    vec![
        gate!("PathQuery::terminal_keys", [path_query_methods.terminal_keys], [0], |f, i, tx, v| ok(f.items.terminal_keys(100, v))),
        gate!("PathQuery::merge", [path_query_methods.merge], [0], |f, i, tx, v| ok(PathQuery::merge(vec![&f.items, &f.items], v))),
        gate!("PathQuery::should_add_parent_tree_at_path", [path_query_methods.should_add_parent_tree_at_path], [0], |f, i, tx, v| ok(f.items.should_add_parent_tree_at_path(&[b"t"], v))),
        gate!("PathQuery::query_items_at_path", [path_query_methods.query_items_at_path], [0], |f, i, tx, v| ok(f.items.query_items_at_path(&[b"t"], v))),
        gate!("AggregateSumPathQuery::merge", [aggregate_sum_path_query_methods.merge], [0], |f, i, tx, v| {
            let q = AggregateSumPathQuery::new_single_key(vec![], vec![1], 3);
            ok(AggregateSumPathQuery::merge(vec![&q], v))
        }),
        gate!("verify_query_with_options", [operations.proof.verify_query_with_options], [0], |f, i, tx, v| ok(GroveDb::verify_query_with_options(&f.proofs[i], &f.items, O, v))),
        gate!("verify_query_get_parent_tree_info_with_options", [operations.proof.verify_query_get_parent_tree_info_with_options], [0], |f, i, tx, v| ok(GroveDb::verify_query_get_parent_tree_info_with_options(&f.proofs[i], &f.items, O, v))),
        gate!("verify_query_raw", [operations.proof.verify_query_raw], [0], |f, i, tx, v| ok(GroveDb::verify_query_raw(&f.proofs[i], &f.items, v))),
        gate!("verify_query", [operations.proof.verify_query], [0], |f, i, tx, v| ok(GroveDb::verify_query(&f.proofs[i], &f.items, v))),
        gate!("verify_subset_query", [operations.proof.verify_subset_query], [0], |f, i, tx, v| ok(GroveDb::verify_subset_query(&f.proofs[i], &f.items, v))),
        gate!("verify_query_get_parent_tree_info", [operations.proof.verify_query], [0], |f, i, tx, v| ok(GroveDb::verify_query_get_parent_tree_info(&f.proofs[i], &f.items, v))),
        gate!("verify_subset_query_get_parent_tree_info", [operations.proof.verify_query], [0], |f, i, tx, v| ok(GroveDb::verify_subset_query_get_parent_tree_info(&f.proofs[i], &f.items, v))),
        gate!("verify_query_with_absence_proof", [operations.proof.verify_query_with_absence_proof], [0], |f, i, tx, v| ok(GroveDb::verify_query_with_absence_proof(&f.proofs[i], &f.items.clone().limited(), v))),
        gate!("verify_subset_query_with_absence_proof", [operations.proof.verify_subset_query_with_absence_proof], [0], |f, i, tx, v| ok(GroveDb::verify_subset_query_with_absence_proof(&f.proofs[i], &f.items.clone().limited(), v))),
        gate!("verify_query_with_chained_path_queries", [operations.proof.verify_query_with_chained_path_queries], [0], |f, i, tx, v| {
            let next = f.items.clone();
            ok(GroveDb::verify_query_with_chained_path_queries(&f.proofs[i], &f.items, vec![move |_: Vec<PathKeyOptionalElementTrio>| Some(next.clone())], v))
        }),
        gate!("Element::serialize", [element.serialize], [0], |f, i, tx, v| ok(Element::new_item(vec![1]).serialize(v))),
        gate!("Element::serialized_size", [element.serialized_size], [0], |f, i, tx, v| ok(Element::new_item(vec![1]).serialized_size(v))),
        gate!("Element::deserialize", [element.deserialize], [0], |f, i, tx, v| ok(Element::deserialize(&[0, 1, 1, 0], v))),
        gate!("Element::required_item_space", [element.required_item_space], [0], |f, i, tx, v| ok(Element::required_item_space(1, 2, v))),
        // the checks within other operations
        gate!("verify_query through its layers", [operations.proof.verify_query_with_options], [0], |f, i, tx, v| ok(GroveDb::verify_query(&f.proofs[i], &f.items, v))),
        gate!("verify_subset_query through its options", [operations.proof.verify_query_with_options], [0], |f, i, tx, v| ok(GroveDb::verify_subset_query(&f.proofs[i], &f.items, v))),
        gate!("verify_query of elements", [element.deserialize], [0], |f, i, tx, v| ok(GroveDb::verify_query(&f.proofs[i], &f.items, v))),
    ]
}
trait Limited {
    fn limited(self) -> Self;
}
impl Limited for PathQuery {
    fn limited(mut self) -> Self {
        self.query.limit = Some(10);
        self
    }
}

fn storing() -> Vec<Gate> {
    vec![
        gate!("prove_query", [operations.proof.prove_query], [0], |f, i, tx, v| ok(f.db.db.prove_query(&f.items, None, v).unwrap())),
        gate!("prove_query_non_serialized", [operations.proof.prove_query_non_serialized], [0, 1], |f, i, tx, v| ok(f.db.db.prove_query_non_serialized(&f.items, None, v).unwrap())),
        gate!("prove_query_many", [operations.proof.prove_query_many], [0], |f, i, tx, v| ok(f.db.db.prove_query_many(vec![&f.items, &f.items], None, v).unwrap())),
        gate!("prove_trunk_chunk", [operations.proof.prove_trunk_chunk], [0, 1], |f, i, tx, v| ok(f.db.db.prove_trunk_chunk(&PathTrunkChunkQuery::new(vec![b"c".to_vec()], 2), v).unwrap())),
        gate!("prove_trunk_chunk_non_serialized", [operations.proof.prove_trunk_chunk_non_serialized], [0, 1], |f, i, tx, v| ok(f.db.db.prove_trunk_chunk_non_serialized(&PathTrunkChunkQuery::new(vec![b"c".to_vec()], 2), v).unwrap())),
        gate!("prove_branch_chunk", [operations.proof.prove_branch_chunk], [0], |f, i, tx, v| ok(f.db.db.prove_branch_chunk(&PathBranchChunkQuery::new(vec![b"c".to_vec()], vec![3], 2), v).unwrap())),
        gate!("prove_branch_chunk_non_serialized", [operations.proof.prove_branch_chunk_non_serialized], [0], |f, i, tx, v| ok(f.db.db.prove_branch_chunk_non_serialized(&PathBranchChunkQuery::new(vec![b"c".to_vec()], vec![3], 2), v).unwrap())),
        gate!("get", [operations.get.get], [0], |f, i, tx, v| ok(f.db.db.get(&[T], &[1], tx, v).unwrap())),
        gate!("get_raw", [operations.get.get_raw], [0], |f, i, tx, v| ok(f.db.db.get_raw((&[T]).into(), &[1], tx, v).unwrap())),
        gate!("get_raw_optional", [operations.get.get_raw_optional], [0], |f, i, tx, v| ok(f.db.db.get_raw_optional((&[T]).into(), &[1], tx, v).unwrap())),
        gate!("has_raw", [operations.get.has_raw], [0], |f, i, tx, v| ok(f.db.db.has_raw(&[T], &[1], tx, v).unwrap())),
        gate!("is_empty_tree", [operations.get.is_empty_tree], [0], |f, i, tx, v| ok(f.db.db.is_empty_tree(&[T], tx, v).unwrap())),
        gate!("query", [operations.query.query], [0], |f, i, tx, v| ok(f.db.db.query(&f.items, true, true, true, QueryKeyElementPairResultType, tx, v).unwrap())),
        gate!("query_raw", [operations.query.query_raw], [0], |f, i, tx, v| ok(f.db.db.query_raw(&f.items, true, true, true, QueryKeyElementPairResultType, tx, v).unwrap())),
        gate!("query_many_raw", [operations.query.query_many_raw], [0], |f, i, tx, v| ok(f.db.db.query_many_raw(&[&f.items], true, true, true, QueryElementResultType, tx, v).unwrap())),
        gate!("query_encoded_many", [operations.query.query_encoded_many], [0], |f, i, tx, v| ok(f.db.db.query_encoded_many(&[&path_query_in(f, b"r")], true, true, true, tx, v).unwrap())),
        gate!("query_item_value", [operations.query.query_item_value], [0], |f, i, tx, v| ok(f.db.db.query_item_value(&f.items, true, true, true, tx, v).unwrap())),
        gate!("query_item_value_or_sum", [operations.query.query_item_value_or_sum], [0], |f, i, tx, v| ok(f.db.db.query_item_value_or_sum(&f.items, true, true, true, tx, v).unwrap())),
        gate!("query_sums", [operations.query.query_sums], [0], |f, i, tx, v| ok(f.db.db.query_sums(&path_query_in(f, b"s"), true, true, true, tx, v).unwrap())),
        gate!("query_aggregate_sums", [operations.query.query_aggregate_sums], [0], |f, i, tx, v| {
            let q = AggregateSumPathQuery::new(vec![b"s".to_vec()], AggregateSumQuery::new_range_full(9, None));
            ok(f.db.db.query_aggregate_sums(&q, true, true, tx, v).unwrap())
        }),
        gate!("query_keys_optional", [operations.query.query_keys_optional], [0], |f, i, tx, v| ok(f.db.db.query_keys_optional(&f.items.clone().limited(), true, true, true, tx, v).unwrap())),
        gate!("query_raw_keys_optional", [operations.query.query_raw_keys_optional], [0], |f, i, tx, v| ok(f.db.db.query_raw_keys_optional(&f.items.clone().limited(), true, true, true, tx, v).unwrap())),
        gate!("insert", [operations.insert.insert], [0], |f, i, tx, v| ok(f.db.db.insert(&[T], &[77], Element::new_item(vec![1]), None, tx, v).unwrap())),
        gate!("insert_if_not_exists", [operations.insert.insert_if_not_exists], [0], |f, i, tx, v| ok(f.db.db.insert_if_not_exists(&[T], &[77], Element::new_item(vec![1]), tx, v).unwrap())),
        gate!("insert_if_not_exists_return_existing_element", [operations.insert.insert_if_not_exists_return_existing_element], [0], |f, i, tx, v| ok(f.db.db.insert_if_not_exists_return_existing_element(&[T], &[77], Element::new_item(vec![1]), tx, v).unwrap())),
        gate!("insert_if_changed_value", [operations.insert.insert_if_changed_value], [0], |f, i, tx, v| ok(f.db.db.insert_if_changed_value(&[T], &[1], Element::new_item(vec![9]), tx, v).unwrap())),
        gate!("delete", [operations.delete.delete], [0], |f, i, tx, v| ok(f.db.db.delete(&[T], &[1], None, tx, v).unwrap())),
        gate!("clear_subtree", [operations.delete.clear_subtree], [0], |f, i, tx, v| ok(f.db.db.clear_subtree(&[T], Some(ClearOptions::default()), tx, v))),
        gate!("delete_if_empty_tree", [operations.delete.delete_if_empty_tree], [0], |f, i, tx, v| ok(f.db.db.delete_if_empty_tree(ROOT, b"e", tx, v).unwrap())),
        gate!("delete_up_tree_while_empty", [operations.delete_up_tree.delete_up_tree_while_empty], [0], |f, i, tx, v| ok(f.db.db.delete_up_tree_while_empty(&[T], &[1], &DeleteUpTreeOptions { stop_path_height: Some(0), ..Default::default() }, tx, v).unwrap())),
        gate!("apply_batch", [apply_batch.apply_batch], [0], |f, i, tx, v| ok(f.db.db.apply_batch(vec![QualifiedGroveDbOp::insert_or_replace_op(vec![T.to_vec()], vec![78], Element::new_item(vec![3]))], None, tx, v).unwrap())),
        gate!("apply_operations_without_batching", [apply_batch.apply_operations_without_batching], [0], |f, i, tx, v| ok(f.db.db.apply_operations_without_batching(vec![QualifiedGroveDbOp::insert_or_replace_op(vec![T.to_vec()], vec![78], Element::new_item(vec![3]))], None, tx, v).unwrap())),
        gate!("fetch_chunk", [replication.fetch_chunk], [0], |f, i, tx, v| ok(f.db.db.fetch_chunk(&f.db.db.root_hash(tx, v).unwrap().unwrap(), tx, 1, v))),
        gate!("start_snapshot_syncing", [replication.start_snapshot_syncing], [0], |f, i, tx, v| ok(f.db.db.start_snapshot_syncing(f.db.db.root_hash(None, v).unwrap().unwrap(), 1, 1, v))),
    ]
}

fn check(g: &mut G, gates: &[Gate]) -> R {
    let gate = g.pick(gates);
    let base = g.below(3) as usize;
    let n = match g.below(6) {
        0 => gate.known[g.below(gate.known.len() as u64) as usize],
        1 | 2 => gate.known.last().unwrap() + 1,
        3 => *g.pick(&[2, 3, 255, 256, 257, 65_535]),
        _ => g.raw64() as u16,
    };
    g.note(|| format!("{} under version {} with feature version {n}", gate.name, base + 1));
    FIX.with(|f| {
        let mut v = GROVE_VERSIONS[base].clone();
        let tx: Transaction = f.db.db.start_transaction();
        let before = f.db.db.root_hash(Some(&tx), latest()).unwrap().expect("root");
        let r = no_panic(|| (gate.call)(f, base, Some(&tx), &v)).map_err(|p| format!("{} panicked: {p}", gate.name))?;
        ensure!(r.is_ok(), "{} under version {}: {r:?}", gate.name, base + 1);
        drop(tx);
        (gate.set)(&mut v, n);
        let tx: Transaction = f.db.db.start_transaction();
        let r = no_panic(|| (gate.call)(f, base, Some(&tx), &v)).map_err(|p| format!("{} panicked: {p}", gate.name))?;
        if gate.known.contains(&n) {
            ensure!(r.is_ok(), "{} under the known feature version {n} of version {}: {r:?}", gate.name, base + 1);
            return Ok(());
        }
        g.nontrivial();
        let Err(e) = r else { fail!("{} acts under the unknown feature version {n} (known: {:?})", gate.name, gate.known) };
        ensure!(e.contains(&format!("received: {n},")), "{} under the unknown feature version {n}: {e}", gate.name);
        let after = f.db.db.root_hash(Some(&tx), latest()).unwrap().expect("root");
        ensure!(before == after, "{} changed the grove under the unknown feature version {n}", gate.name);
        Ok(())
    })
}

fn list(g: &mut G) -> R {
    let all: Vec<u32> = GROVE_VERSIONS.iter().map(|v| v.protocol_version).collect();
    let n = g.below(3) as usize;
    g.nontrivial();
    ensure!(all.iter().collect::<BTreeSet<_>>().len() == all.len() && all.is_sorted(), "the versions are numbered {all:?}");
    ensure_eq!(GroveVersion::first().protocol_version, all[0], "the first version");
    ensure_eq!(GroveVersion::latest().protocol_version, *all.last().unwrap(), "the latest version");
    // Proofs of one version are verified by all versions
    FIX.with(|f| {
        for v in GROVE_VERSIONS {
            let r = GroveDb::verify_query(&f.proofs[n], &f.items, v).map_err(|e: Error| Fail::from(format!("a proof of version {} under version {}: {e}", n + 1, v.protocol_version)))?;
            ensure_eq!(r.1.len(), 2, "results");
        }
        Ok(())
    })
}

pub fn sections() -> Vec<Section> {
    vec![
        section("verifier", "an operation without a database, under an unknown version of its feature", 12_000, 100_000, |g| check(g, &verifying())),
        section("database", "an operation on a grove, under an unknown version of its feature", 4_000, 60_000, |g| check(g, &storing())),
        section("list", "every case", 30, 30, list),
    ]
}
