//! Q05: query results regroup without loss.
use crate::egen;
use grovedb::operations::proof::util::{ProvedPathKeyOptionalValue, ProvedPathKeyValue};
use grovedb::query_result_type::*;
use grovedb::{Element, Error};
use grovedb_merk::proofs::query::{ProvedKeyOptionalValue, ProvedKeyValue};
use grovedb_version::{version::GroveVersion, TryFromVersioned};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use vp::*;

type Row = (Vec<Vec<u8>>, Vec<u8>, Element);

fn key(g: &mut G) -> Vec<u8> {
    match g.below(8) {
        0 => vec![],
        1 => g.bytes(1, 3),
        _ => vec![g.below(4) as u8 + b'a'],
    }
}
fn row(g: &mut G) -> Row {
    (g.list(0, 3, key), key(g), if g.chance(1, 3) { egen::element(g) } else { Element::new_item(vec![g.byte()]) })
}
/// The last of equal keys wins, as with any map built in order.
fn map<K: Ord, V>(it: impl IntoIterator<Item = (K, V)>) -> BTreeMap<K, V> {
    let mut m = BTreeMap::new();
    for (k, v) in it {
        m.insert(k, v);
    }
    m
}
fn grouped<K: Ord, V>(it: impl IntoIterator<Item = (K, V)>) -> BTreeMap<K, Vec<V>> {
    let mut m: BTreeMap<K, Vec<V>> = BTreeMap::new();
    for (k, v) in it {
        m.entry(k).or_default().push(v);
    }
    m
}

fn regroup(g: &mut G) -> R {
    let mode = g.below(4);
    let rows: Vec<(u64, Row)> = g.list(0, 12, |g| (if mode < 3 { mode } else { g.below(3) }, row(g)));
    g.note(|| format!("{rows:?}"));
    let q = QueryResultElements::from_elements(
        rows.iter()
            .cloned()
            .map(|(m, (p, k, e))| match m {
                0 => QueryResultElement::PathKeyElementTrioResultItem((p, k, e)),
                1 => QueryResultElement::KeyElementPairResultItem((k, e)),
                _ => QueryResultElement::ElementResultItem(e),
            })
            .collect(),
    );
    let keyed: Vec<(Vec<u8>, Element)> = rows.iter().filter(|r| r.0 < 2).map(|(_, (_, k, e))| (k.clone(), e.clone())).collect();
    let full: Vec<Row> = rows.iter().filter(|r| r.0 == 0).map(|r| r.1.clone()).collect();
    g.nontrivial_if(full.len() > 2);
    ensure_eq!((q.len(), q.is_empty()), (rows.len(), rows.is_empty()), "len");
    let c = || q.clone();
    ensure_eq!(c().into_iterator().collect::<Vec<_>>(), q.elements, "into_iterator");
    ensure_eq!(c().to_elements(), rows.iter().map(|r| r.1 .2.clone()).collect::<Vec<_>>(), "to_elements");
    ensure_eq!(c().to_key_elements(), keyed, "to_key_elements");
    ensure_eq!(c().to_keys(), keyed.iter().map(|r| r.0.clone()).collect::<Vec<_>>(), "to_keys");
    ensure_eq!(c().to_key_elements_btree_map(), map(keyed.clone()), "to_key_elements_btree_map");
    ensure_eq!(c().to_key_elements_hash_map(), map(keyed.clone()).into_iter().collect::<HashMap<_, _>>(), "to_key_elements_hash_map");
    ensure_eq!(c().to_path_key_elements(), full, "to_path_key_elements");
    let f = || full.iter().cloned();
    ensure_eq!(c().to_path_key_elements_btree_map(), map(f().map(|(p, k, e)| ((p, k), e))), "to_path_key_elements_btree_map");
    let last = |n: usize| f().filter(move |r| r.0.len() > n).map(move |(p, k, e)| (p[p.len() - 1 - n].clone(), (k, e)));
    ensure_eq!(c().to_last_path_to_keys_btree_map(), grouped(last(0).map(|(l, (k, _))| (l, k))), "to_last_path_to_keys_btree_map");
    ensure_eq!(c().to_last_path_to_elements_btree_map(), grouped(last(0).map(|(l, (_, e))| (l, e))), "to_last_path_to_elements_btree_map");
    ensure_eq!(
        c().to_last_path_to_key_elements_btree_map(),
        grouped(last(0)).into_iter().map(|(l, v)| (l, map(v))).collect::<BTreeMap<_, _>>(),
        "to_last_path_to_key_elements_btree_map"
    );
    ensure_eq!(
        c().to_path_to_key_elements_btree_map(),
        grouped(f().map(|(p, k, e)| (p, (k, e)))).into_iter().map(|(l, v)| (l, map(v))).collect::<BTreeMap<_, _>>(),
        "to_path_to_key_elements_btree_map"
    );
    ensure_eq!(
        c().to_previous_of_last_path_to_keys_btree_map(),
        grouped(last(1).map(|(l, (k, _))| (l, k))),
        "to_previous_of_last_path_to_keys_btree_map"
    );
    no_panic(|| q.to_string()).map_err(|e| format!("printing {q:?}: {e}"))?;

    // every element mapped, or the error given back
    for e in c().elements {
        let (new, fails) = (egen::element(g), g.chance(1, 5));
        let r = e.clone().map_element(|_| if fails { Err(Error::InvalidInput("no")) } else { Ok(new.clone()) });
        if fails {
            ensure!(r.is_err(), "map_element drops an error");
            continue;
        }
        let want = match e {
            QueryResultElement::ElementResultItem(_) => QueryResultElement::ElementResultItem(new),
            QueryResultElement::KeyElementPairResultItem((k, _)) => QueryResultElement::KeyElementPairResultItem((k, new)),
            QueryResultElement::PathKeyElementTrioResultItem((p, k, _)) => QueryResultElement::PathKeyElementTrioResultItem((p, k, new)),
        };
        ensure_eq!(r.map_err(|e| Fail::from(e.to_string()))?, want, "map_element");
    }
    Ok(())
}

/// The results within one grove: what is above other results is not itself a result.
fn levels(g: &mut G) -> R {
    let mut rows: Vec<Row> = g.list(0, 12, row);
    let mut above: BTreeSet<Vec<Vec<u8>>> = BTreeSet::new();
    let mut leaves: BTreeSet<Vec<Vec<u8>>> = BTreeSet::new();
    rows.retain(|(p, k, _)| {
        let mut full = p.clone();
        full.push(k.clone());
        let prefixes: Vec<_> = (1..full.len()).map(|n| full[..n].to_vec()).collect();
        if above.contains(&full) || prefixes.iter().any(|q| leaves.contains(q)) {
            return false;
        }
        above.extend(prefixes);
        leaves.insert(full);
        true
    });
    g.note(|| format!("{rows:?}"));
    g.nontrivial_if(above.len() > 1 && leaves.len() > 2);
    let q = QueryResultElements::from_elements(rows.iter().cloned().map(QueryResultElement::PathKeyElementTrioResultItem).collect());
    let r = q.to_btree_map_level_results();
    let mut got = BTreeMap::new();
    fn walk(l: &BTreeMapLevelResult, at: &[Vec<u8>], out: &mut BTreeMap<(Vec<Vec<u8>>, Vec<u8>), Element>) {
        for (k, v) in &l.key_values {
            match v {
                BTreeMapLevelResultOrItem::ResultItem(e) => {
                    out.insert((at.to_vec(), k.clone()), e.clone());
                }
                BTreeMapLevelResultOrItem::BTreeMapLevelResult(n) => {
                    let mut p = at.to_vec();
                    p.push(k.clone());
                    walk(n, &p, out)
                }
            }
        }
    }
    walk(&r, &[], &mut got);
    ensure_eq!(got, map(rows.iter().cloned().map(|(p, k, e)| ((p, k), e))), "results by level");
    for _ in 0..4 {
        let p: Vec<Vec<u8>> = if rows.is_empty() || g.chance(1, 4) { g.list(0, 3, key) } else {
            let r = g.pick(&rows).clone();
            let mut p = r.0;
            p.push(r.1);
            p.truncate(g.size(0, p.len()));
            p
        };
        // keys directly below the path
        let below: BTreeSet<&Vec<u8>> = leaves.iter().filter(|l| l.len() > p.len() && l.starts_with(&p)).map(|l| &l[p.len()]).collect();
        let s: Vec<&[u8]> = p.iter().map(|k| k.as_slice()).collect();
        ensure_eq!(r.len_of_values_at_path(&s), below.len(), "len_of_values_at_path {p:?} of {rows:?}");
    }
    no_panic(|| r.to_string()).map_err(|e| format!("printing {r:?}: {e}"))?;
    Ok(())
}

fn proved(g: &mut G) -> R {
    let v = GroveVersion::latest();
    let path = g.list(0, 3, key);
    let rows: Vec<(Vec<u8>, Option<Vec<u8>>, [u8; 32])> = g.list(0, 4, |g| {
        let value = match g.below(4) {
            0 => None,
            1 => Some(g.bytes(0, 6)),
            _ => Some(egen::element(g).serialize(v).expect("element")),
        };
        (key(g), value, g.hash32())
    });
    g.nontrivial_if(rows.len() > 1);
    g.note(|| format!("{path:?} {rows:?}"));
    let opt = ProvedPathKeyOptionalValue::from_proved_key_values(
        path.clone(),
        rows.iter().map(|(k, v, h)| ProvedKeyOptionalValue { key: k.clone(), value: v.clone(), proof: *h, child_hash_verified: g.bool() }).collect(),
    );
    ensure_eq!(opt.len(), rows.len(), "from_proved_key_values");
    for (o, (k, val, h)) in opt.into_iter().zip(rows) {
        ensure_eq!((&o.path, &o.key, &o.value, &o.proof), (&path, &k, &val, &h), "a proved key value with its path");
        let good = val.as_ref().map(|x| Element::deserialize(x, v));
        let _ = no_panic(|| { use std::fmt::Write; let mut s = String::new(); let _ = write!(s, "{o}"); }).map_err(|e| format!("printing: {e}"))?;
        let copy = || ProvedPathKeyOptionalValue { path: path.clone(), key: k.clone(), value: val.clone(), proof: h };
        let plain = ProvedPathKeyValue::try_from(copy());
        let trio = PathKeyOptionalElementTrio::try_from_versioned(copy(), v);
        let Some(value) = val.clone() else {
            ensure!(plain.is_err(), "an absent value is turned into one");
            ensure_eq!(trio.map_err(|e| Fail::from(e.to_string()))?, (path.clone(), k.clone(), None), "an absent value");
            continue;
        };
        let plain = plain.map_err(|e| Fail::from(e.to_string()))?;
        let same = ProvedPathKeyValue::from_proved_key_value(path.clone(), ProvedKeyValue { key: k.clone(), value: value.clone(), proof: h });
        ensure_eq!(plain, same, "a proved key value");
        ensure_eq!(ProvedPathKeyOptionalValue::from(same), copy(), "a proved optional key value");
        let trio2 = PathKeyOptionalElementTrio::try_from_versioned(plain, v);
        match good.expect("a value") {
            Ok(e) => {
                ensure_eq!(trio.map_err(|e| Fail::from(e.to_string()))?, (path.clone(), k.clone(), Some(e.clone())), "the element of a proved value");
                ensure_eq!(trio2.map_err(|e| Fail::from(e.to_string()))?, (path.clone(), k.clone(), Some(e)), "the element of a proved value");
            }
            Err(_) => {
                g.label("no element");
                ensure!(trio.is_err() && trio2.is_err(), "bytes {} that are no element give one", hex(&value));
            }
        }
    }
    Ok(())
}

pub fn sections() -> Vec<Section> {
    vec![
        section("regroup", "more than two results with their paths", 60_000, 1_000_000, regroup),
        section("levels", "results over several levels", 50_000, 1_000_000, levels),
        section("proved", "more than one proved value", 30_000, 500_000, proved),
    ]
}
