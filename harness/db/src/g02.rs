//! G02: a proof that verifies against the real root gives exactly the real results.
use crate::forge::{self, Forge};
use crate::g01::{PLAIN, RAW};
use crate::grove::*;
use grovedb::operations::proof::{GroveDBProof, GroveDBProofV1, LayerProof, MerkOnlyLayerProof, ProofBytes as Real};
use grovedb::{Element, GroveDb, PathQuery};
use grovedb_merk::proofs::query::VerifyOptions;
use grovedb_version::version::GroveVersion;
use std::collections::BTreeMap;
use vp::*;

macro_rules! forge_op { ($n:ident) => { grovedb_merk::proofs::Op::Push($n) | grovedb_merk::proofs::Op::PushInverted($n) } }

fn config() -> impl bincode::config::Config {
    bincode::config::standard().with_big_endian().with_no_limit()
}
pub fn read(bytes: &[u8]) -> Option<GroveDBProof> {
    bincode::decode_from_slice(bytes, config()).ok().map(|(p, _)| p)
}
pub fn write(p: &GroveDBProof) -> Vec<u8> {
    bincode::encode_to_vec(p, config()).expect("proof encodes")
}
#[derive(Clone)]
pub enum ProofBytes { Merk(Vec<u8>), MMR(Vec<u8>), BulkAppendTree(Vec<u8>), DenseTree(Vec<u8>), CommitmentTree(Vec<u8>) }
fn mine(p: &Real) -> ProofBytes {
    match p {
        Real::Merk(b) => ProofBytes::Merk(b.clone()),
        Real::MMR(b) => ProofBytes::MMR(b.clone()),
        Real::BulkAppendTree(b) => ProofBytes::BulkAppendTree(b.clone()),
        Real::DenseTree(b) => ProofBytes::DenseTree(b.clone()),
        Real::CommitmentTree(b) => ProofBytes::CommitmentTree(b.clone()),
    }
}
fn real(p: ProofBytes) -> Real {
    match p {
        ProofBytes::Merk(b) => Real::Merk(b),
        ProofBytes::MMR(b) => Real::MMR(b),
        ProofBytes::BulkAppendTree(b) => Real::BulkAppendTree(b),
        ProofBytes::DenseTree(b) => Real::DenseTree(b),
        ProofBytes::CommitmentTree(b) => Real::CommitmentTree(b),
    }
}
/// A layer of either proof version.
#[derive(Clone)]
pub struct L {
    pub proof: ProofBytes,
    pub lower: BTreeMap<Vec<u8>, L>,
}
fn of1(l: &LayerProof) -> L {
    L { proof: mine(&l.merk_proof), lower: l.lower_layers.iter().map(|(k, l)| (k.clone(), of1(l))).collect() }
}
fn of0(l: &MerkOnlyLayerProof) -> L {
    L { proof: ProofBytes::Merk(l.merk_proof.clone()), lower: l.lower_layers.iter().map(|(k, l)| (k.clone(), of0(l))).collect() }
}
pub fn to1(l: L) -> LayerProof {
    LayerProof { merk_proof: real(l.proof), lower_layers: l.lower.into_iter().map(|(k, l)| (k, to1(l))).collect() }
}
pub fn to0(l: L) -> MerkOnlyLayerProof {
    let merk_proof = match l.proof { ProofBytes::Merk(b) | ProofBytes::MMR(b) | ProofBytes::BulkAppendTree(b) | ProofBytes::DenseTree(b) | ProofBytes::CommitmentTree(b) => b };
    MerkOnlyLayerProof { merk_proof, lower_layers: l.lower.into_iter().map(|(k, l)| (k, to0(l))).collect() }
}
pub fn layers(p: &GroveDBProof) -> L {
    match p { GroveDBProof::V0(p) => of0(&p.root_layer), GroveDBProof::V1(p) => of1(&p.root_layer) }
}
pub fn with_layers(p: &GroveDBProof, l: L) -> GroveDBProof {
    match p {
        GroveDBProof::V0(p) => GroveDBProof::V0(grovedb::operations::proof::GroveDBProofV0 { root_layer: to0(l), prove_options: p.prove_options }),
        GroveDBProof::V1(_) => GroveDBProof::V1(GroveDBProofV1 { root_layer: to1(l) }),
    }
}
fn count(l: &L) -> usize {
    1 + l.lower.values().map(count).sum::<usize>()
}
fn nth(l: &mut L, mut i: usize) -> &mut L {
    if i == 0 { return l }
    i -= 1;
    for c in l.lower.values_mut() {
        let n = count(c);
        if i < n { return nth(c, i) }
        i -= n;
    }
    unreachable!()
}
pub fn bytes_mut(p: &mut ProofBytes) -> &mut Vec<u8> {
    match p { ProofBytes::Merk(b) | ProofBytes::MMR(b) | ProofBytes::BulkAppendTree(b) | ProofBytes::DenseTree(b) | ProofBytes::CommitmentTree(b) => b }
}
fn same(p: &ProofBytes, b: Vec<u8>, kind: u64) -> ProofBytes {
    let k = match p { ProofBytes::Merk(_) => 0, ProofBytes::MMR(_) => 1, ProofBytes::BulkAppendTree(_) => 2, ProofBytes::DenseTree(_) => 3, ProofBytes::CommitmentTree(_) => 4 };
    match (k + kind) % 5 { 0 => ProofBytes::Merk(b), 1 => ProofBytes::MMR(b), 2 => ProofBytes::BulkAppendTree(b), 3 => ProofBytes::DenseTree(b), _ => ProofBytes::CommitmentTree(b) }
}
/// An element of another kind or content than the one encoded in `old`.
pub fn forged(g: &mut G, old: Option<&Vec<u8>>, v: &GroveVersion) -> Vec<u8> {
    if let Some(old) = old {
        if g.chance(1, 6) {
            let mut o = old.clone();
            let i = g.below(o.len().max(1) as u64) as usize;
            if let Some(b) = o.get_mut(i) { *b ^= 1 << g.below(8) }
            return o;
        }
        if let (true, Ok(e)) = (g.chance(1, 3), Element::deserialize(old, v)) {
            // the same kind with other numbers or flags
            use Element::*;
            let n = g.below(5);
            let e = match e {
                Tree(r, _) => Tree(r, Some(vec![1])),
                SumTree(r, s, f) => SumTree(r, s.wrapping_add(1), f),
                BigSumTree(r, s, f) => BigSumTree(r, s.wrapping_add(1), f),
                CountTree(r, c, f) => CountTree(r, c.wrapping_add(1), f),
                CountSumTree(r, c, s, f) => CountSumTree(r, c, s.wrapping_add(1), f),
                ProvableCountTree(r, c, f) => ProvableCountTree(r, c.wrapping_add(1), f),
                ProvableCountSumTree(r, c, s, f) => ProvableCountSumTree(r, c, s.wrapping_add(1), f),
                MmrTree(_, f) => MmrTree(n, f),
                BulkAppendTree(_, h, f) => BulkAppendTree(n, h, f),
                DenseAppendOnlyFixedSizeTree(_, h, f) => DenseAppendOnlyFixedSizeTree(n as u16, h, f),
                CommitmentTree(_, h, f) => CommitmentTree(n, h, f),
                e => e,
            };
            return e.serialize(v).expect("serialize");
        }
    }
    let e = match g.below(12) {
        0 | 1 => Element::new_item(g.bytes(0, 3)),
        2 | 3 => Element::empty_tree(),
        4 => Element::new_tree(Some(small(g))),
        5 => Element::empty_sum_tree(),
        6 => Element::new_reference(grovedb_element::reference_path::ReferencePathType::AbsolutePathReference(vec![small(g), small(g)])),
        7 => Element::MmrTree(g.below(4), None),
        8 => Element::BulkAppendTree(g.below(4), 1, None),
        9 => Element::DenseAppendOnlyFixedSizeTree(g.below(3) as u16, 1, None),
        10 => Element::CommitmentTree(g.below(4), 1, None),
        _ => Element::new_sum_item(g.below(5) as i64),
    };
    e.serialize(v).expect("serialize")
}
fn small(g: &mut G) -> Vec<u8> {
    crate::qgen::small_key(g, 1, 2)
}
/// Hashes found in (or computed from) the proof.
fn known(l: &L, out: &mut Vec<[u8; 32]>) {
    if let ProofBytes::Merk(b) = &l.proof {
        if let Some(ops) = forge::decode(b) {
            if let Some(t) = forge::parse(&ops) {
                out.extend(forge::root(&t));
                let mut n = vec![];
                forge::nodes(&t, &mut n);
                out.extend(n.iter().filter_map(forge::committed));
                out.extend(n.iter().filter_map(|n| match n { grovedb_merk::proofs::Node::KVRefValueHash(_, _, h) | grovedb_merk::proofs::Node::KVRefValueHashCount(_, _, h, _) | grovedb_merk::proofs::Node::KVValueHashFeatureTypeWithChildHash(.., h) => Some(*h), _ => None }));
            }
        }
    }
    for c in l.lower.values() { known(c, out) }
}
/// Elements with the lower layer that goes with them.
fn pairs(l: &L, out: &mut Vec<(Vec<u8>, L)>) {
    if let ProofBytes::Merk(b) = &l.proof {
        for op in forge::decode(b).unwrap_or_default() {
            if let forge_op!(n) = op {
                if let (Some(k), Some(v)) = (forge::key_of(&n), forge::value_of(&n)) {
                    if let Some(below) = l.lower.get(k) { out.push((v.clone(), below.clone())) }
                }
            }
        }
    }
    for c in l.lower.values() { pairs(c, out) }
}
/// Such pairs of a few small trees of every kind, empty ones included.
pub fn catalogue() -> &'static Vec<(Vec<u8>, L)> {
    use std::sync::OnceLock;
    static ALL: OnceLock<Vec<(Vec<u8>, L)>> = OnceLock::new();
    ALL.get_or_init(|| {
        let v = latest();
        let mut out = vec![];
        for n in 0..4u8 {
            let db = open();
            let empty: &[&[u8]] = &[];
            let kinds = [
                Element::empty_tree(), Element::empty_sum_tree(), Element::empty_big_sum_tree(), Element::empty_count_tree(), Element::empty_count_sum_tree(),
                Element::empty_provable_count_tree(), Element::empty_provable_count_sum_tree(),
                Element::MmrTree(0, None), Element::BulkAppendTree(0, 1, None), Element::DenseAppendOnlyFixedSizeTree(0, 2, None), Element::CommitmentTree(0, 1, None),
            ];
            for (i, e) in kinds.into_iter().enumerate() {
                let k = [i as u8];
                db.db.insert(empty, &k, e.clone(), None, None, v).unwrap().expect("insert");
                for j in 0..n {
                    let val = vec![j, i as u8];
                    match e {
                        Element::MmrTree(..) => { db.db.mmr_tree_append(empty, &k, val, None, v).unwrap().expect("append"); }
                        Element::BulkAppendTree(..) => { db.db.bulk_append(empty, &k, val, None, v).unwrap().expect("append"); }
                        Element::DenseAppendOnlyFixedSizeTree(..) => { db.db.dense_tree_insert(empty, &k, val, None, v).unwrap().expect("append"); }
                        Element::CommitmentTree(..) => {}
                        _ => { db.db.insert(&[k.as_slice()], &[j], Element::new_item(val), None, None, v).unwrap().expect("insert"); }
                    }
                }
                let mut q = grovedb::Query::new_single_key(k.to_vec());
                q.set_subquery(grovedb::Query::new_range_full());
                if let Ok(p) = db.db.prove_query(&PathQuery::new_unsized(vec![], q), None, v).unwrap() {
                    if let Some(p) = read(&p) { pairs(&layers(&p), &mut out) }
                }
            }
        }
        out
    })
}
/// One change of a proof. With `strict`, every kind; otherwise only changes of the structure.
pub fn tamper(g: &mut G, l: &mut L, donors: &[L], strict: bool, v: &GroveVersion) -> &'static str {
    let mut hashes = vec![[0; 32]];
    known(l, &mut hashes);
    let n = count(l);
    let i = g.below(n as u64) as usize;
    let copy = l.clone();
    let at = nth(l, i);
    match g.below(if strict { 11 } else { 6 }) {
        0 => {
            let keys: Vec<_> = at.lower.keys().cloned().collect();
            if !keys.is_empty() { at.lower.remove(g.pick(&keys)); }
            "lower layer dropped"
        }
        1 => {
            let mut from = if donors.is_empty() || g.bool() { copy } else { g.pick(donors).clone() };
            let j = g.below(count(&from) as u64) as usize;
            *at = nth(&mut from, j).clone();
            "layer replaced"
        }
        2 => {
            let mut from = if donors.is_empty() || g.bool() { copy } else { g.pick(donors).clone() };
            let j = g.below(count(&from) as u64) as usize;
            let k = match &at.proof {
                ProofBytes::Merk(b) if g.chance(7, 8) => {
                    let keys: Vec<Vec<u8>> = forge::decode(b).unwrap_or_default().iter().filter_map(|o| match o { forge_op!(n) => forge::key_of(n).cloned(), _ => None }).collect();
                    if keys.is_empty() { small(g) } else { g.pick(&keys).clone() }
                }
                _ => small(g),
            };
            at.lower.insert(k, nth(&mut from, j).clone());
            "lower layer added"
        }
        3 => {
            let mut vals = vec![];
            if let ProofBytes::Merk(b) = &at.proof { vals.extend(forge::decode(b).unwrap_or_default().iter().filter_map(|o| match o { forge_op!(n) => forge::value_of(n).cloned(), _ => None })) }
            let mut value = |g: &mut G, old: Option<&Vec<u8>>| if !vals.is_empty() && g.chance(1, 6) { g.pick(&vals).clone() } else { forged(g, old, v) };
            if let ProofBytes::Merk(b) = &at.proof {
                if let Some(b) = forge::merk(g, b, &mut Forge { value: &mut value, hashes, structure_only: true }) { at.proof = ProofBytes::Merk(b) }
            }
            "structure changed"
        }
        4 => {
            let b = bytes_mut(&mut at.proof);
            match g.below(3) {
                0 => { let n = g.below(b.len() as u64 + 1) as usize; b.truncate(n) }
                1 => { let x = g.bytes(1, 4); b.extend(x) }
                _ => b.clear(),
            }
            "layer cut"
        }
        5 => {
            let n = at.lower.len();
            if n >= 2 {
                let keys: Vec<_> = at.lower.keys().cloned().collect();
                let (a, b) = (g.pick(&keys).clone(), g.pick(&keys).clone());
                let (x, y) = (at.lower[&a].clone(), at.lower[&b].clone());
                at.lower.insert(a, y);
                at.lower.insert(b, x);
            }
            "lower layers swapped"
        }
        6 => {
            let b = bytes_mut(&mut at.proof);
            for _ in 0..g.size(1, 2) {
                if b.is_empty() { break }
                let i = g.below(b.len() as u64) as usize;
                match g.below(4) { 0 => b[i] ^= 1 << g.below(8), 1 => b[i] = g.byte(), 2 => { b.remove(i); } _ => b.insert(i, g.byte()) }
            }
            "bytes changed"
        }
        7 if g.chance(1, 3) => {
            let b = bytes_mut(&mut at.proof).clone();
            at.proof = same(&at.proof, b, 1 + g.below(4));
            "layer kind changed"
        }
        10 => {
            // an element told to be another one, with what is below that one
            let mut from = catalogue().clone();
            if g.bool() { for d in donors { pairs(d, &mut from) } }
            let ProofBytes::Merk(b) = &at.proof else { return "" };
            let mut ops = forge::decode(b).unwrap_or_default();
            let at_keys: Vec<usize> = ops.iter().enumerate().filter(|(_, o)| match o { forge_op!(n) => forge::value_of(n).is_some(), _ => false }).map(|(i, _)| i).collect();
            if at_keys.is_empty() || from.is_empty() { return "" }
            let i = *g.pick(&at_keys);
            let (told, below) = g.pick(&from).clone();
            let forge_op!(n) = &mut ops[i] else { return "" };
            let (Some(k), Some(h)) = (forge::key_of(n).cloned(), forge::committed(n)) else { return "" };
            match n {
                grovedb_merk::proofs::Node::KV(..) => *n = grovedb_merk::proofs::Node::KVValueHash(k.clone(), told, h),
                n => if let Some(v) = forge::value_mut(n) { *v = told },
            }
            at.proof = ProofBytes::Merk(forge::encode(&ops));
            at.lower.insert(k, below);
            "told to be another element"
        }
        _ => {
            let mut vals = vec![];
            if let ProofBytes::Merk(b) = &at.proof { vals.extend(forge::decode(b).unwrap_or_default().iter().filter_map(|o| match o { forge_op!(n) => forge::value_of(n).cloned(), _ => None })) }
            let mut value = |g: &mut G, old: Option<&Vec<u8>>| if !vals.is_empty() && g.chance(1, 6) { g.pick(&vals).clone() } else { forged(g, old, v) };
            if let ProofBytes::Merk(b) = &at.proof {
                if let Some(b) = forge::merk(g, b, &mut Forge { value: &mut value, hashes, structure_only: false }) { at.proof = ProofBytes::Merk(b) }
            }
            if !at.lower.is_empty() && g.chance(1, 3) {
                let keys: Vec<_> = at.lower.keys().cloned().collect();
                at.lower.remove(g.pick(&keys));
            }
            "merk layer forged"
        }
    }
}
pub const LAX: VerifyOptions = VerifyOptions {
    absence_proofs_for_non_existing_searched_keys: false,
    verify_proof_succinctness: false,
    include_empty_trees_in_result: false,
};
type Out = Vec<(Path, Key, Option<Element>)>;
fn verify(proof: &[u8], pq: &PathQuery, o: VerifyOptions, v: &GroveVersion) -> R<Option<([u8; 32], Out)>> {
    match no_panic(|| GroveDb::verify_query_with_options(proof, pq, o, v)) {
        Err(p) => fail!("verify panicked: {p}"),
        Ok(r) => Ok(r.ok()),
    }
}
fn show_out(o: &Out) -> String {
    o.iter().map(|(p, k, e)| format!("/{} {} {e:?}", p.iter().map(|k| vp::hex(k)).collect::<Vec<_>>().join("/"), vp::hex(k))).collect::<Vec<_>>().join("\n    ")
}
struct Proven {
    pq: PathQuery,
    proof: Vec<u8>,
}
fn sound(g: &mut G, strict: bool) -> R {
    let v = if strict { latest() } else { version(g) };
    let o = Opts { flat_trees: v1_proofs(v), width: 4, ..Opts::default() };
    let m = gen_grove(g, &o);
    let db = open();
    build(g, &db.db, &m, v)?;
    g.note(|| show_map(&m));
    let root = db.db.root_hash(None, v).unwrap().expect("root hash");
    let mut all: Vec<Proven> = vec![];
    for _ in 0..3 {
        let pq = gen_path_query(g, &m);
        if eval(&m, &pq, None, true).bad_width { continue }
        if let Ok(proof) = db.db.prove_query(&pq, None, v).unwrap() { all.push(Proven { pq, proof }) }
    }
    // V0 proofs do not bind the values of the nodes they show for hashing only (a reference of
    // another query's proof passes for a result): only parts of the same proof are reused there
    let donors: Vec<L> = if strict { all.iter().filter_map(|p| read(&p.proof)).map(|p| layers(&p)).collect() } else { vec![] };
    for p in &all {
        let honest = |o| -> R<Out> {
            match verify(&p.proof, &p.pq, o, v)? {
                Some((h, r)) if h == root => Ok(r),
                _ => fail!("honest proof refused\n  grove {}\n  query {}\n  {:?}", show_map(&m), show_pq(&p.pq), GroveDb::verify_query_with_options(&p.proof, &p.pq, o, v).err()),
            }
        };
        let (plain, raw) = (honest(PLAIN)?, honest(RAW)?);
        // changed proofs of this query
        for _ in 0..6 {
            let Some(parsed) = read(&p.proof) else { fail!("proof does not decode") };
            let mut l = layers(&parsed);
            let mut what = vec![];
            for _ in 0..g.weighted(&[0, 6, 3, 1]) { what.push(tamper(g, &mut l, &donors, strict, v)) }
            let mut bytes = write(&with_layers(&parsed, l));
            if strict && g.chance(1, 20) && !bytes.is_empty() {
                let i = g.below(bytes.len() as u64) as usize;
                bytes[i] ^= 1 << g.below(8);
            }
            if bytes == p.proof { continue }
            let (opt, want) = match g.below(4) { 0 => (RAW, &raw), 1 => (LAX, &plain), _ => (PLAIN, &plain) };
            let got = verify(&bytes, &p.pq, opt, v)?;
            g.label_if(got.is_none(), "refused");
            if let Some((h, r)) = got {
                g.label_if(h != root, "other root");
                g.label_if(h == root, "same root");
                if h == root {
                    ensure!(&r == want, "a changed proof ({what:?}) verifies with other results\n  grove {}\n  query {}\n  version {} raw {} succinct {}\n  got\n    {}\n  want\n    {}\n  proof {}\n  honest {}",
                        show_map(&m), show_pq(&p.pq), v.protocol_version, opt.include_empty_trees_in_result, opt.verify_proof_succinctness, show_out(&r), show_out(want),
                        read(&bytes).map(|p| p.to_string()).unwrap_or_default(), read(&p.proof).map(|p| p.to_string()).unwrap_or_default());
                }
                g.nontrivial();
            }
        }
    }
    // a proof of one query is not a proof of another
    for a in &all {
        for b in &all {
            if std::ptr::eq(a, b) || !strict { continue }
            let mut pq = b.pq.clone();
            if g.chance(1, 4) { pq.query.limit = if g.bool() { None } else { Some(1 + g.below(4) as u16) } }
            let opt = *g.pick(&[PLAIN, RAW, LAX]);
            if let Some((h, r)) = verify(&a.proof, &pq, opt, v)? {
                ensure!(h == root, "the proof of another query gives another root");
                let want: Vec<Row> = eval(&m, &pq, pq.query.limit, opt.include_empty_trees_in_result).out.into_iter().map(|(p, k, e)| (p, k, norm(e))).collect();
                let got = crate::g01::rows(r)?;
                g.label("other query verified");
                let full = eval(&m, &pq, None, true);
                if full.descending_flat { continue }
                ensure!(got == want, "the proof of {} verifies for {} with wrong results (succinct {})\n  grove {}\n  got\n    {}\n  want\n    {}\n  proof {}", show_pq(&a.pq), show_pq(&pq), opt.verify_proof_succinctness, show_map(&m),
                    crate::g01::show_rows(&got), crate::g01::show_rows(&want), read(&a.proof).map(|p| p.to_string()).unwrap_or_default());
                g.nontrivial();
            }
        }
    }
    Ok(())
}
fn strict(g: &mut G) -> R {
    sound(g, true)
}
fn structure(g: &mut G) -> R {
    sound(g, false)
}

/// A subtree whose only node was searched for so that its hash is also the value hash of an item.
///
/// A node hashes key-value hash, left and right child hash: 96 bytes, which starting with 95 are
/// also the length and the bytes of a value of 95 bytes. That value encodes an item when the bytes
/// after it are 0 and 92, so the tree that holds the node can be told as a reference to this item.
fn confusable(g: &mut G) -> R {
    let v = latest();
    let ground = [0u64, 9_443_162][g.weighted(&[1, 3])];
    let db = open();
    let empty: &[&[u8]] = &[];
    let (tree, key) = (small(g), b"a".to_vec());
    let kind = g.below(3);
    let top = match kind { 0 => Element::empty_tree(), 1 => Element::empty_sum_tree(), _ => Element::empty_count_tree() };
    db.db.insert(empty, &tree, top, None, None, v).unwrap().map_err(|e| e.to_string())?;
    let item = Element::new_item(ground.to_be_bytes().to_vec());
    db.db.insert(&[tree.as_slice()], &key, item.clone(), None, None, v).unwrap().map_err(|e| e.to_string())?;
    let root = db.db.root_hash(None, v).unwrap().expect("root hash");
    let pq = PathQuery::new_unsized(vec![], grovedb::Query::new_single_key(tree.clone()));
    let proof = db.db.prove_query(&pq, None, v).unwrap().map_err(|e| e.to_string())?;
    let Some((h, honest)) = verify(&proof, &pq, PLAIN, v)? else { fail!("honest proof refused") };
    ensure_eq!(h, root, "root hash");
    let bytes = item.serialize(v).map_err(|e| e.to_string())?;
    let mut below = crate::mk::h_kv(&key, &crate::mk::h_value(&bytes)).to_vec();
    below.extend([0; 64]);
    let parsed = read(&proof).ok_or("decode")?;
    let mut l = layers(&parsed);
    let ProofBytes::Merk(b) = &l.proof else { fail!("no merk layer") };
    let mut ops = forge::decode(b).ok_or("decode")?;
    for op in &mut ops {
        if let forge_op!(n) = op {
            if forge::key_of(n) == Some(&tree) {
                let Some(told) = forge::value_of(n).cloned() else { fail!("no value") };
                *n = grovedb_merk::proofs::Node::KVRefValueHash(tree.clone(), below[1..].to_vec(), crate::mk::h_value(&told));
            }
        }
    }
    l.proof = ProofBytes::Merk(forge::encode(&ops));
    let forged = write(&with_layers(&parsed, l));
    g.nontrivial_if(ground != 0);
    g.note(|| format!("tree {} with an item of {ground}", vp::hex(&tree)));
    if let Some((h, r)) = verify(&forged, &pq, PLAIN, v)? {
        if h == root && r != honest {
            return Err(Fail::new("tree-as-reference", format!("a tree holding a: {ground:016x} is proved to be a reference to an item: {}", show_out(&r))));
        }
    }
    Ok(())
}

/// The first of the elements made by `f` whose value hash, read as bytes, begins an item of 63 bytes.
///
/// The value hash of an item takes in the length and the bytes; with a length of 63 these are 64 bytes,
/// which is also what combining two hashes takes in.
fn ground(f: impl Fn(u64) -> Element, v: &GroveVersion) -> (Element, [u8; 32]) {
    for n in 0.. {
        let e = f(n);
        let h = crate::mk::h_value(&e.serialize(v).expect("serialize"));
        if h[0] == 63 && h[1] == 0 && (29..=60).contains(&h[2]) { return (e, h) }
    }
    unreachable!()
}
/// An item whose bytes are those of two hashes put together is shown as something else.
fn dressed(g: &mut G) -> R {
    use grovedb_merk::proofs::Node;
    use std::sync::OnceLock;
    static ITEM: OnceLock<(Element, [u8; 32])> = OnceLock::new();
    static TREE: OnceLock<(Element, [u8; 32])> = OnceLock::new();
    let v = latest();
    let as_what = g.below(3);
    // what to show, the first hash
    let (shown, first) = match as_what {
        0 => (Element::new_item(g.bytes(1, 3)), None),
        1 => { let (e, h) = ITEM.get_or_init(|| ground(|n| Element::new_item(n.to_be_bytes().to_vec()), v)).clone(); (e, Some(h)) }
        _ => { let (e, h) = TREE.get_or_init(|| ground(|n| Element::new_tree_with_flags(Some(b"r".to_vec()), Some(n.to_be_bytes().to_vec())), v)).clone(); (e, Some(h)) }
    };
    let shown_bytes = shown.serialize(v).map_err(|e| e.to_string())?;
    let (value, flags, second) = match first {
        None => {
            // reference: any first hash, the second is that of what is shown, all of it in the flags
            let h = crate::mk::h_value(&shown_bytes);
            (vec![7; 27], Some(h.to_vec()), h)
        }
        Some(h) => {
            // item and tree: the second hash is free, so it completes the item
            let n = h[2] as usize;
            let mut second = [7u8; 32];
            let end = n + 2 - 31;
            if n == 60 { second[31] = 0 } else { second[end] = 1; second[end + 1] = (63 - n - 4) as u8 }
            let all: Vec<u8> = h[1..].iter().chain(&second).copied().collect();
            (all[2..2 + n].to_vec(), (n < 60).then(|| all[n + 4..].to_vec()), second)
        }
    };
    let item = Element::new_item_with_flags(value, flags);
    let bytes = item.serialize(v).map_err(|e| e.to_string())?;
    ensure_eq!(bytes.len(), 63, "length of the item");
    let db = open();
    let empty: &[&[u8]] = &[];
    let (tree, key) = (small(g), small(g));
    let (top, provable) = match g.below(5) { 0 => (Element::empty_tree(), false), 1 => (Element::empty_sum_tree(), false), 2 => (Element::empty_count_tree(), false), 3 => (Element::empty_provable_count_tree(), true), _ => (Element::empty_provable_count_sum_tree(), true) };
    db.db.insert(empty, &tree, top, None, None, v).unwrap().map_err(|e| e.to_string())?;
    db.db.insert(&[tree.as_slice()], &key, item, None, None, v).unwrap().map_err(|e| e.to_string())?;
    let root = db.db.root_hash(None, v).unwrap().expect("root hash");
    let pq = PathQuery::new_unsized(vec![tree.clone()], grovedb::Query::new_single_key(key.clone()));
    let proof = db.db.prove_query(&pq, None, v).unwrap().map_err(|e| e.to_string())?;
    let Some((h, honest)) = verify(&proof, &pq, PLAIN, v)? else { fail!("honest proof refused") };
    ensure_eq!(h, root, "root hash");
    let mut combined = first.unwrap_or_else(|| { let mut a = [0; 32]; a[0] = 63; a[1..].copy_from_slice(&bytes[..31]); a }).to_vec();
    combined.extend(second);
    ensure!(crate::mk::h(&[&combined]) == crate::mk::h_value(&bytes), "the item's bytes are not those of the hashes");
    let parsed = read(&proof).ok_or("decode")?;
    let mut top = layers(&parsed);
    let l = top.lower.get_mut(&tree).ok_or("lower layer")?;
    let ProofBytes::Merk(b) = &l.proof else { fail!("no merk layer") };
    let mut ops = forge::decode(b).ok_or("decode")?;
    let mut form = "";
    for op in &mut ops {
        if let forge_op!(n) = op {
            if forge::key_of(n) == Some(&key) {
                let hash = crate::mk::h_value(&bytes);
                let feature = if provable { grovedb_merk::TreeFeatureType::ProvableCountedMerkNode(1) } else { grovedb_merk::TreeFeatureType::BasicMerkNode };
                let (k, e) = (key.clone(), shown_bytes.clone());
                (form, *n) = match (as_what, g.below(2)) {
                    (0, _) if provable => ("item-as-reference", Node::KVRefValueHashCount(k, e, combined[..32].try_into().unwrap(), 1)),
                    (0, _) => ("item-as-reference", Node::KVRefValueHash(k, e, combined[..32].try_into().unwrap())),
                    (1, 0) => ("item-as-item", Node::KVValueHashFeatureTypeWithChildHash(k, e, hash, feature, second)),
                    (1, _) => ("item-as-item", if provable { Node::KVValueHashFeatureType(k, e, hash, feature) } else { Node::KVValueHash(k, e, hash) }),
                    _ => ("item-as-tree", Node::KVValueHashFeatureTypeWithChildHash(k, e, hash, feature, second)),
                };
            }
        }
    }
    l.proof = ProofBytes::Merk(forge::encode(&ops));
    let forged = write(&with_layers(&parsed, top));
    g.nontrivial();
    g.label(form);
    g.note(|| format!("{form}{}, item {}", if provable { " in a provable tree" } else { "" }, vp::hex(&bytes)));
    if let Some((h, r)) = verify(&forged, &pq, PLAIN, v)? {
        if h == root && r != honest {
            return Err(Fail::new(form, format!("an item of 63 bytes is proved to be something else: {}", show_out(&r))));
        }
    }
    Ok(())
}

/// How the root of a log is made: of two parts, or the value of one position.
#[derive(Clone)]
enum Tower { Leaf(Vec<u8>), Two(Box<Tower>, Box<Tower>) }
impl Tower {
    fn hash(&self) -> [u8; 32] {
        use grovedb_merkle_mountain_range::{blake3_merge, leaf_hash};
        match self { Tower::Leaf(v) => leaf_hash(v), Tower::Two(l, r) => blake3_merge(&l.hash(), &r.hash()) }
    }
    fn perfect(v: &[Vec<u8>]) -> Tower {
        if v.len() == 1 { return Tower::Leaf(v[0].clone()) }
        let (l, r) = v.split_at(v.len() / 2);
        Tower::Two(Box::new(Tower::perfect(l)), Box::new(Tower::perfect(r)))
    }
    fn of(v: &[Vec<u8>]) -> Tower {
        let peak = 1usize << v.len().ilog2();
        if peak == v.len() { return Tower::perfect(v) }
        Tower::Two(Box::new(Tower::of(&v[peak..])), Box::new(Tower::perfect(&v[..peak])))
    }
    /// Places what is at this node where the log of another size has it; the positions of nodes.
    fn place(&self, leaves: u64, first: u64, peak: bool, out: &mut std::collections::BTreeMap<u64, Tower>) -> Option<()> {
        // `first` is the number of nodes before this part
        let size = crate::grove::mmr_size(leaves);
        if leaves.is_power_of_two() {
            out.insert(first + size - 1, self.clone());
            if leaves > 1 {
                if let Tower::Two(l, r) = self {
                    l.place(leaves / 2, first, false, out);
                    r.place(leaves / 2, first + crate::grove::mmr_size(leaves / 2), false, out);
                }
            }
            return Some(());
        }
        debug_assert!(peak);
        let left = 1u64 << leaves.ilog2();
        let Tower::Two(rest, one) = self else { return None };
        one.place(left, first, false, out)?;
        rest.place(leaves - left, first + crate::grove::mmr_size(left), true, out)
    }
}
/// The log told to have another size: its root is made of the same parts, which are elsewhere then.
fn resized(g: &mut G) -> R {
    use grovedb_merkle_mountain_range::{MmrNode, MmrTreeProof};
    let v = latest();
    let n = g.range(1, 24);
    let values: Vec<Vec<u8>> = (0..n).map(|i| { let mut v = g.bytes(0, 2); v.push(i as u8); v }).collect();
    let db = open();
    let empty: &[&[u8]] = &[];
    let tree = small(g);
    db.db.insert(empty, &tree, Element::MmrTree(0, None), None, None, v).unwrap().map_err(|e| e.to_string())?;
    for val in &values { db.db.mmr_tree_append(empty, &tree, val.clone(), None, v).unwrap().map_err(|e| e.to_string())?; }
    let root = db.db.root_hash(None, v).unwrap().expect("root hash");
    let whole = Tower::of(&values);
    for other in 1..=40u64 {
        let mut nodes = std::collections::BTreeMap::new();
        if other == n || whole.place(other, 0, true, &mut nodes).is_none() { continue }
        let pos = |i: u64| crate::grove::mmr_size(i + 1) - (i + 1).trailing_zeros() as u64 - 1;
        let shown: Vec<u64> = (0..other).filter(|i| matches!(nodes.get(&pos(*i)), Some(Tower::Leaf(_)))).collect();
        if shown.is_empty() { continue }
        let ask = *g.pick(&shown);
        let proof = match no_panic(|| MmrTreeProof::generate(crate::grove::mmr_size(other), &[ask], |p| Ok(nodes.get(&p).map(|t| match t { Tower::Leaf(v) => MmrNode::leaf(v.clone()), t => MmrNode::internal(t.hash()) })))) {
            Ok(Ok(p)) => p,
            Ok(Err(_)) => continue,
            Err(p) => fail!("generate panicked: {p}"),
        };
        g.nontrivial();
        g.label_if(other > n, "told to be longer");
        g.label_if(other < n, "told to be shorter");
        let pq = PathQuery::new_unsized(vec![tree.clone()], grovedb::Query::new_single_key(ask.to_be_bytes().to_vec()));
        let real = match db.db.prove_query(&pq, None, v).unwrap() { Ok(p) => p, Err(_) => {
            // the position is beyond the end, so the proof of another one is changed
            let pq = PathQuery::new_unsized(vec![tree.clone()], grovedb::Query::new_single_key(0u64.to_be_bytes().to_vec()));
            db.db.prove_query(&pq, None, v).unwrap().map_err(|e| e.to_string())?
        } };
        let parsed = read(&real).ok_or("decode")?;
        let mut l = layers(&parsed);
        let at = l.lower.get_mut(&tree).ok_or("lower layer")?;
        let ProofBytes::MMR(b) = &mut at.proof else { fail!("no layer of a log") };
        *b = proof.encode_to_vec().map_err(|e| e.to_string())?;
        let forged = write(&with_layers(&parsed, l));
        if let Some((h, r)) = verify(&forged, &pq, PLAIN, v)? {
            let want: Vec<Vec<u8>> = values.get(ask as usize).cloned().into_iter().collect();
            let got: Vec<Vec<u8>> = r.iter().filter_map(|(_, _, e)| match e { Some(Element::Item(v, _)) => Some(v.clone()), _ => None }).collect();
            ensure!(h != root || got == want, "a log of {n} values told to have {other} is proved to hold {} at {ask}", show_out(&r));
        }
    }
    Ok(())
}

pub fn sections() -> Vec<Section> {
    vec![
        section("confusable", "the subtree's hash is one that can be taken for another", 40, 40, confusable),
        section("dressed", "every item shown as something else", 300, 3_000, dressed),
        section("resized", "a log whose root is also that of a log of another size", 400, 5_000, resized),
        section("forged", "a changed proof, or one of another query, that is not simply refused", 30_000, 500_000, strict),
        section("restructured", "a restructured proof of either version that is not simply refused", 15_000, 200_000, structure),
    ]
}
