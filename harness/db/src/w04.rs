//! W04: reading a query gives what it selects, in order, after the offset and within the limit.
use crate::grove::*;
use crate::hist::{follow, HOPS};
use crate::qgen::*;
use grovedb::element::aggregate_sum_query::AggregateSumQueryOptions;
use grovedb::operations::QueryItemOrSumReturnType as Val;
use grovedb::query_result_type::{QueryResultElement, QueryResultType};
use grovedb::{AggregateSumPathQuery, Element, GroveDb, PathQuery, TransactionArg};
use grovedb_element::reference_path::ReferencePathType;
use grovedb_query::{AggregateSumQuery, Query};
use grovedb_version::version::GroveVersion;
use vp::*;

/// What a query selects, and what it meets on its way.
#[derive(Default)]
struct Found<'a> {
    rows: Vec<(Path, Key, &'a Node)>,
    /// A subtree is not there.
    missing: bool,
    /// A way leads through something that is no tree of elements.
    odd: bool,
    flat: bool,
    /// Subtrees that gave nothing, keys at the end of a path that are not there.
    dry: usize,
    dry_path: usize,
}
impl<'a> Found<'a> {
    fn way(&mut self, root: &'a Map, p: &Path) -> Option<&'a Map> {
        let m = map_at(root, p);
        if m.is_none() {
            self.missing = true;
            for i in 1..=p.len() {
                if let Some(n) = at(root, &p[..i]) {
                    self.odd |= n.map().is_none();
                    self.flat |= n.leaves().is_some();
                }
            }
        }
        m
    }
    fn query(&mut self, root: &'a Map, p: &Path, q: &Query) {
        let Some(m) = self.way(root, p) else { return };
        let mut keys: Vec<(&Key, &'a Node)> = m.iter().filter(|(k, _)| q.items.iter().any(|i| matches(i, k))).collect();
        if !q.left_to_right { keys.reverse() }
        for (k, n) in keys {
            let b = crate::q02::branch(q, k);
            let below = b.subquery_path.as_deref().unwrap_or(&[]);
            if !n.is_tree() || b.subquery.is_none() && below.is_empty() {
                self.rows.push((p.clone(), k.clone(), n));
                continue;
            }
            let mut p: Path = p.iter().chain([k]).chain(below).cloned().collect();
            if let Some(q) = &b.subquery {
                let before = self.rows.len();
                self.query(root, &p, q);
                self.dry += (self.rows.len() == before) as usize;
            } else {
                let last = p.pop().unwrap();
                match self.way(root, &p).and_then(|m| m.get(&last)) {
                    Some(n) => self.rows.push((p, last, n)),
                    None => self.dry_path += 1,
                }
            }
        }
    }
}
fn raw(n: &Node) -> Element {
    match &n.v { V::Ref(t, _) => Element::Reference(ReferencePathType::AbsolutePathReference(t.clone()), None, n.flags.clone()), _ => n.element() }
}
/// A sum as a reading of values tells it: zigzag, seven bits at a time.
fn value(v: i64) -> Vec<u8> {
    let mut z = ((v << 1) ^ (v >> 63)) as u64;
    let mut out = vec![];
    while z >= 128 { out.push(z as u8 | 128); z >>= 7 }
    out.push(z as u8);
    out
}
/// What the element stands for in the reading named; `None`: it has no place there.
fn followed(root: &Map, n: &Node) -> Option<Element> {
    match &n.v {
        V::Ref(t, _) => follow(root, t, HOPS).filter(|n| n.is_item()).map(|n| n.element()),
        V::Tree(Kind::Plain, _) | V::Mmr(_) | V::Bulk(..) | V::Dense(..) | V::Commit(..) => None,
        _ => Some(n.element()),
    }
}
fn item_value(root: &Map, n: &Node) -> Option<Vec<u8>> {
    let n = if let V::Ref(t, _) = &n.v { follow(root, t, HOPS)? } else { n };
    match &n.v { V::Item(v) | V::ItemSum(v, _) => Some(v.clone()), V::Sum(s) => Some(value(*s)), _ => None }
}
fn item_or_sum(root: &Map, n: &Node) -> Option<Val> {
    let n = if let V::Ref(t, _) = &n.v { follow(root, t, HOPS)? } else { n };
    Some(match n.element() {
        Element::Item(v, _) => Val::ItemData(v),
        Element::SumItem(s, _) => Val::SumValue(s),
        Element::ItemWithSumItem(v, s, _) => Val::ItemDataWithSumValue(v, s),
        Element::SumTree(_, s, _) => Val::SumValue(s),
        Element::BigSumTree(_, s, _) => Val::BigSumValue(s),
        Element::CountTree(_, c, _) | Element::ProvableCountTree(_, c, _) => Val::CountValue(c),
        Element::CountSumTree(_, c, s, _) | Element::ProvableCountSumTree(_, c, s, _) => Val::CountSumValue(c, s),
        _ => return None,
    })
}
/// The sum, and whether it is one that a reference does not lead to.
fn sum(root: &Map, n: &Node) -> Option<(i64, bool)> {
    let (n, far) = if let V::Ref(t, _) = &n.v { (follow(root, t, HOPS)?, true) } else { (n, false) };
    match &n.v { V::Sum(s) => Some((*s, false)), V::ItemSum(_, s) => Some((*s, far)), _ => None }
}
/// The rows wanted of those found, if that is certain; else they are checked for being some of them.
fn cut<'a, 'b>(f: &'b Found<'a>, limit: Option<u16>, offset: Option<u16>, decrease: bool) -> Option<&'b [(Path, Key, &'a Node)]> {
    let certain = f.dry_path == 0 && (limit.is_none() || f.dry == 0 || !decrease) || limit.is_none() && offset.is_none();
    let from = (offset.unwrap_or(0) as usize).min(f.rows.len());
    let to = limit.map_or(f.rows.len(), |l| (from + l as usize).min(f.rows.len()));
    certain.then_some(&f.rows[from..to])
}
struct Read<'a> {
    db: &'a GroveDb,
    m: &'a Map,
    tx: TransactionArg<'a, 'a>,
    v: &'a GroveVersion,
}
fn reads(g: &mut G, r: &Read, pq: &PathQuery) -> R {
    let (db, v, tx) = (r.db, r.v, r.tx);
    let (cache, decrease, strict) = (g.bool(), g.chance(2, 3), g.bool());
    let (limit, offset) = (pq.query.limit, pq.query.offset);
    let mut f = Found::default();
    f.query(r.m, &pq.path, &pq.query.query);
    let ctx = || format!("grove {}\n  query {} offset {offset:?}\n  cache {cache} decrease {decrease} strict {strict}", show_map(r.m), show_pq(pq));
    let wrap = |x: R| x.map_err(|e| if e.discard { e } else { Fail::new(e.sig, format!("{}\n  {}", e.msg, ctx())) });
    let got = match no_panic(|| db.query_raw(pq, cache, decrease, strict, QueryResultType::QueryPathKeyElementTrioResultType, tx, v).unwrap()) { Ok(r) => r, Err(p) => fail!("panic: {p}\n  {}", ctx()) };
    if f.flat { g.label("flat"); return Ok(()) }
    let (got, skipped) = match got {
        Ok((e, s)) => (e.to_path_key_elements(), s),
        Err(e) => {
            ensure!(f.odd || f.missing && strict, "refused: {e}\n  {}", ctx());
            g.label("refused");
            return Ok(());
        }
    };
    let row = |(p, k, n): &(Path, Key, &Node)| (p.clone(), k.clone(), norm(raw(n)));
    let got: Vec<_> = got.into_iter().map(|(p, k, e)| (p, k, norm(e))).collect();
    let full: Vec<_> = f.rows.iter().map(row).collect();
    let show = |r: &[(Path, Key, Element)]| crate::g01::show_rows(r);
    if let Some(l) = limit { ensure!(got.len() <= l as usize, "{} results for a limit of {l}\n  {}", got.len(), ctx()) }
    let Some(rows) = cut(&f, limit, offset, decrease) else {
        // what gave nothing takes from the limit or the offset
        let mut rest = full.iter();
        for r in &got { ensure!(rest.any(|x| x == r), "the results are not those selected, in order: {}\n  {}\n  all {}", show(&got), ctx(), show(&full)) }
        let avail = full.len().saturating_sub(offset.unwrap_or(0) as usize);
        let least = limit.map_or(avail, |l| avail.min(l as usize)).saturating_sub(f.dry + f.dry_path);
        ensure!(got.len() >= least, "{} results of {}\n  {}", got.len(), full.len(), ctx());
        ensure!(skipped <= offset.unwrap_or(0), "skipped {skipped}\n  {}", ctx());
        g.label("some of them");
        return Ok(());
    };
    let want: Vec<_> = rows.iter().map(row).collect();
    ensure!(got == want, "results\n    {}\n  instead of\n    {}\n  {}", show(&got), show(&want), ctx());
    let passed = offset.map_or(0, |o| (o as usize).min(full.len()) as u16);
    ensure!(skipped == passed || limit == Some(0) && skipped < passed, "skipped {skipped} of {}\n  {}", full.len(), ctx());
    g.nontrivial_if(want.len() > 1);
    g.label_if(offset.is_some() && !want.is_empty(), "offset");
    g.label_if(limit.is_some_and(|l| full.len() > l as usize), "limited");
    // the other forms
    let elements = match db.query_raw(pq, cache, decrease, strict, QueryResultType::QueryElementResultType, tx, v).unwrap() { Ok((e, s)) => { ensure_eq!(s, skipped, "skipped"); e.elements } Err(e) => fail!("elements only: {e}\n  {}", ctx()) };
    let elements: Vec<_> = elements.into_iter().map(|e| match e { QueryResultElement::ElementResultItem(e) => Some(norm(e)), _ => None }).collect();
    ensure!(elements == want.iter().map(|r| Some(r.2.clone())).collect::<Vec<_>>(), "elements {elements:?}\n  {}", ctx());
    let pairs = match db.query_raw(pq, cache, decrease, strict, QueryResultType::QueryKeyElementPairResultType, tx, v).unwrap() { Ok((e, _)) => e.elements, Err(e) => fail!("pairs: {e}\n  {}", ctx()) };
    let pairs: Vec<_> = pairs.into_iter().map(|e| match e { QueryResultElement::KeyElementPairResultItem((k, e)) => Some((k, norm(e))), _ => None }).collect();
    ensure!(pairs == want.iter().map(|r| Some((r.1.clone(), r.2.clone()))).collect::<Vec<_>>(), "pairs {pairs:?}\n  {}", ctx());
    // with references followed
    let all: Option<Vec<_>> = rows.iter().map(|(p, k, n)| followed(r.m, n).map(|e| (p.clone(), k.clone(), norm(e)))).collect();
    let got = db.query(pq, cache, decrease, strict, QueryResultType::QueryPathKeyElementTrioResultType, tx, v).unwrap();
    wrap(match (got, &all) {
        (Ok((e, s)), Some(w)) => {
            let e: Vec<_> = e.to_path_key_elements().into_iter().map(|(p, k, e)| (p, k, norm(e))).collect();
            if &e != w || s != skipped { Err(Fail::new("query", format!("query {}", show(&e)))) } else { Ok(()) }
        }
        (Err(_), None) => Ok(()),
        (Ok(_), None) => Err(Fail::new("query", "query is not refused")),
        (Err(e), Some(_)) => Err(Fail::new("query", format!("query: {e}"))),
    })?;
    macro_rules! same { ($what:expr, $got:expr, $want:expr) => {
        match ($got, $want) {
            (Ok((a, s)), Some(b)) => ensure!(a == b && s == skipped, "{}: {a:?} (skipped {s}) instead of {b:?}\n  {}", $what, ctx()),
            (Err(_), None) => {}
            (Ok(a), None) => fail!("{} is not refused: {a:?}\n  {}", $what, ctx()),
            (Err(e), Some(b)) => fail!("{}: {e} instead of {b:?}\n  {}", $what, ctx()),
        }
    } }
    same!("item values", db.query_item_value(pq, cache, decrease, strict, tx, v).unwrap(), rows.iter().map(|r2| item_value(r.m, r2.2)).collect::<Option<Vec<_>>>());
    same!("items or sums", db.query_item_value_or_sum(pq, cache, decrease, strict, tx, v).unwrap(), rows.iter().map(|r2| item_or_sum(r.m, r2.2)).collect::<Option<Vec<_>>>());
    let sums: Option<Vec<_>> = rows.iter().map(|r2| sum(r.m, r2.2)).collect();
    if !sums.as_ref().is_some_and(|s| s.iter().any(|s| s.1)) {
        same!("sums", db.query_sums(pq, cache, decrease, strict, tx, v).unwrap(), sums.map(|s| s.into_iter().map(|s| s.0).collect::<Vec<_>>()));
    }
    // every key asked for
    if limit.is_none() || offset.is_some() {
        ensure!(db.query_raw_keys_optional(pq, cache, decrease, strict, tx, v).unwrap().is_err(), "keys without a limit or with an offset\n  {}", ctx());
        ensure!(db.query_keys_optional(pq, cache, decrease, strict, tx, v).unwrap().is_err(), "keys without a limit or with an offset\n  {}", ctx());
    } else {
        let keys = pq.terminal_keys(limit.unwrap() as usize, v).ok();
        let find = |w: &Vec<(Path, Key, Element)>| keys.as_ref().map(|keys| keys.iter().map(|(p, k)| (p.clone(), k.clone(), w.iter().find(|r| &r.0 == p && &r.1 == k).map(|r| r.2.clone()))).collect::<Vec<_>>());
        let normed = |r: Vec<(Path, Key, Option<Element>)>| r.into_iter().map(|(p, k, e)| (p, k, e.map(norm))).collect::<Vec<_>>();
        for (what, got, want) in [
            ("raw keys", db.query_raw_keys_optional(pq, cache, decrease, strict, tx, v).unwrap(), find(&want)),
            ("keys", db.query_keys_optional(pq, cache, decrease, strict, tx, v).unwrap(), all.as_ref().and_then(|a| find(a))),
        ] {
            match (got, want) {
                (Ok(a), Some(b)) => { let a = normed(a); ensure!(a == b, "{what}: {a:?} instead of {b:?}\n  {}", ctx()); g.label("keys") }
                (Err(_), None) => {}
                (Ok(a), None) => fail!("{what}: {a:?}, expected to be refused\n  {}", ctx()),
                (Err(e), Some(_)) => fail!("{what}: {e}\n  {}", ctx()),
            }
        }
    }
    Ok(())
}
fn queries(g: &mut G) -> R {
    let v = version(g);
    let o = Opts { flat_trees: g.chance(1, 4), width: 4, ..Opts::default() };
    let m = gen_grove(g, &o);
    let d = open();
    build(g, &d.db, &m, v)?;
    g.note(|| show_map(&m));
    let tx = g.bool().then(|| d.db.start_transaction());
    let r = Read { db: &d.db, m: &m, tx: tx.as_ref(), v };
    let mut asked = vec![];
    for _ in 0..4 {
        let mut pq = gen_path_query(g, &m);
        crate::g04::no_empty_paths(&mut pq.query.query);
        if g.chance(1, 20) { pq.query.limit = Some(0) }
        if g.chance(1, 3) { pq.query.offset = Some(g.skewed(0, 6) as u16) }
        g.note(|| show_pq(&pq));
        reads(g, &r, &pq)?;
        pq.query = grovedb::SizedQuery::new(pq.query.query, None, None);
        asked.push(pq);
    }
    // several at once
    let both: Vec<&PathQuery> = asked[..2].iter().collect();
    if let Ok(Ok(merged)) = no_panic(|| PathQuery::merge(both.clone(), v)) {
        let t = QueryResultType::QueryPathKeyElementTrioResultType;
        let one = d.db.query_raw(&merged, true, true, false, t, tx.as_ref(), v).unwrap().ok().map(|r| r.0.to_path_key_elements());
        let many = d.db.query_many_raw(&both, true, true, false, t, tx.as_ref(), v).unwrap().ok().map(|r| r.to_path_key_elements());
        ensure_eq!(many, one, "several queries and their merge");
    }
    Ok(())
}

// ---- sums up to a limit

fn aggregate(g: &mut G) -> R {
    let v = version(g);
    let m = gen_grove(g, &Opts { flat_trees: false, width: 6, ..Opts::default() });
    let d = open();
    build(g, &d.db, &m, v)?;
    let tx = g.bool().then(|| d.db.start_transaction());
    for _ in 0..5 {
        let summed: Vec<Path> = all(&m).into_iter().filter(|(_, n)| std::matches!(n.v, V::Tree(k, _) if sums(k))).map(|(p, _)| p).collect();
        let path = if summed.is_empty() || g.chance(1, 6) { crate::hist::some_map(g, &m) } else { g.pick(&summed).clone() };
        let here = map_at(&m, &path).unwrap();
        let mut q = AggregateSumQuery::new([0, 3, 20, 1000, i64::MAX as u64, u64::MAX][g.weighted(&[1, 4, 4, 4, 4, 1])], if g.bool() { None } else { Some(g.skewed(0, 6) as u16) });
        for _ in 0..g.size(1, 3) { let i = item(g); if !degenerate(&i) { q.insert_item(i) } }
        if g.chance(1, 3) { q.insert_all() }
        q.left_to_right = g.bool();
        let o = AggregateSumQueryOptions { allow_cache: g.bool(), error_if_intermediate_path_tree_not_present: g.bool(), error_if_non_sum_item_found: g.bool(), ignore_references: g.chance(1, 3) };
        let pq = AggregateSumPathQuery { path: path.clone(), aggregate_sum_query: q.clone() };
        // the reference
        let want = (|| {
            let Ok(mut left) = i64::try_from(q.sum_limit) else { return None };
            let mut out = vec![];
            let mut n = q.limit_of_items_to_check;
            let mut keys: Vec<(&Key, &Node)> = here.iter().filter(|(k, _)| q.items.iter().any(|i| matches(i, k))).collect();
            if !q.left_to_right { keys.reverse() }
            for (k, e) in keys {
                if left <= 0 || n == Some(0) { break }
                if std::matches!(e.v, V::Ref(..)) && o.ignore_references { continue }
                let e = if let V::Ref(t, _) = &e.v { follow(&m, t, 4)? } else { e };
                let (V::Sum(s) | V::ItemSum(_, s)) = &e.v else { if o.error_if_non_sum_item_found { return None } else { continue } };
                out.push((k.clone(), *s));
                n = n.map(|n| n - 1);
                left = left.saturating_sub(*s);
            }
            Some(out)
        })();
        let got = match no_panic(|| d.db.query_aggregate_sums_with_options(&pq, o, tx.as_ref(), v).unwrap()) { Ok(r) => r, Err(p) => fail!("panic: {p}") };
        let ctx = || format!("{} {}{} sum limit {} limit {:?} errors {} ignore references {}\n  grove {}", crate::hist::show_path(&path), q.items.iter().map(|i| show_item(i)).collect::<Vec<_>>().join(" "), if q.left_to_right { "" } else { " reversed" }, q.sum_limit, q.limit_of_items_to_check, o.error_if_non_sum_item_found, o.ignore_references, show_map(&m));
        g.note(ctx);
        match (got, want) {
            (Ok(a), Some(b)) => {
                ensure!(a.results == b && !a.hard_limit_reached, "sums {:?} instead of {b:?}\n  {}", a.results, ctx());
                g.nontrivial_if(b.len() > 1);
            }
            (Err(_), None) => g.label("refused"),
            (Ok(a), None) => fail!("sums {:?}, expected to be refused\n  {}", a.results, ctx()),
            (Err(e), Some(b)) => fail!("{e} instead of sums {b:?}\n  {}", ctx()),
        }
        if o.error_if_non_sum_item_found && !o.ignore_references {
            let a = d.db.query_aggregate_sums(&pq, o.allow_cache, o.error_if_intermediate_path_tree_not_present, tx.as_ref(), v).unwrap().ok();
            let b = d.db.query_aggregate_sums_with_options(&pq, o, tx.as_ref(), v).unwrap().ok();
            ensure_eq!(a, b, "sums with the default options");
        }
    }
    Ok(())
}

pub fn sections() -> Vec<Section> {
    vec![
        section("queries", "two results or more", 8_000, 600_000, queries),
        section("aggregate", "two sums or more", 2_500, 200_000, aggregate),
    ]
}
