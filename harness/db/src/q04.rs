//! Q04: the structure of a path query is read off right at every path.
use crate::q02::branch;
use crate::qgen::*;
use bincode::config;
use grovedb::{PathBranchChunkQuery, PathQuery, PathTrunkChunkQuery, SizedQuery};
use grovedb_query::{AggregateSumQuery, Query, QueryItem, SubqueryBranch};
use grovedb_version::version::GroveVersion;
use std::collections::BTreeSet;
use vp::*;

/// Where a path leads to in a path query.
enum At<'a> {
    /// Nothing is asked about this layer.
    Off,
    /// One key of this layer is on the way; whether the way ends with it.
    In(&'a Vec<u8>, bool),
    /// A query applies to this layer.
    Query(&'a Query),
}

fn at<'a>(pq: &'a PathQuery, p: &[Vec<u8>]) -> At<'a> {
    let own = &pq.path;
    if p.len() < own.len() {
        return if own.starts_with(p) { At::In(&own[p.len()], false) } else { At::Off };
    }
    if !p.starts_with(own) {
        return At::Off;
    }
    at_query(&pq.query.query, &p[own.len()..])
}
fn at_query<'a>(q: &'a Query, p: &[Vec<u8>]) -> At<'a> {
    let Some((k, rest)) = p.split_first() else { return At::Query(q) };
    let b = branch(q, k);
    let none = &[][..];
    let sp = b.subquery_path.as_deref().unwrap_or(none);
    if rest.len() < sp.len() {
        if !sp.starts_with(rest) {
            return At::Off;
        }
        return At::In(&sp[rest.len()], rest.len() + 1 == sp.len() && b.subquery.is_none());
    }
    match (&b.subquery, rest.starts_with(sp)) {
        (Some(s), true) => at_query(s, &rest[sp.len()..]),
        _ => At::Off,
    }
}
fn leads(b: &SubqueryBranch) -> bool {
    b.subquery.is_some() || b.subquery_path.as_ref().is_some_and(|p| !p.is_empty())
}

/// A path that follows the query for a while, and may leave it.
fn follow(g: &mut G, pq: &PathQuery) -> Vec<Vec<u8>> {
    let mut p = vec![];
    let n = g.below(7) as usize;
    for _ in 0..n {
        if g.chance(1, 9) {
            p.push(small_key(g, 0, 2));
            continue;
        }
        match at(pq, &p) {
            At::Off => break,
            At::In(k, _) => p.push(k.clone()),
            At::Query(q) => {
                let mut ks = vec![];
                for i in q.items.iter().chain(q.conditional_subquery_branches.iter().flatten().map(|(i, _)| i)) {
                    if let QueryItem::Key(k) = i {
                        ks.push(k.clone());
                    }
                }
                if ks.is_empty() || g.chance(1, 3) {
                    p.push(small_key(g, 0, 2));
                } else {
                    let k = g.pick(&ks).clone();
                    p.push(k);
                }
            }
        }
    }
    p
}

fn path_query(g: &mut G) -> PathQuery {
    let path = g.list(0, 2, |g| small_key(g, 0, 2));
    let q = any_query(g, 3);
    PathQuery::new(path, SizedQuery::new(q, g.bool().then(|| g.below(9) as u16), g.chance(1, 4).then(|| g.below(9) as u16)))
}

fn hexes(p: &[Vec<u8>]) -> String {
    p.iter().map(|k| hex(k)).collect::<Vec<_>>().join("/")
}
fn show_pq(pq: &PathQuery) -> String {
    format!("[{}] {}", hexes(&pq.path), show(&pq.query.query))
}

fn layers(g: &mut G) -> R {
    let v = GroveVersion::latest();
    let pq = path_query(g);
    let p = follow(g, &pq);
    let refs: Vec<&[u8]> = p.iter().map(|k| k.as_slice()).collect();
    g.note(|| format!("{} at {}", show_pq(&pq), hexes(&p)));
    let here = || format!("{} at [{}]", show_pq(&pq), hexes(&p));
    let got = pq.query_items_at_path(&refs, v).map_err(|e| Fail::from(format!("query_items_at_path of {}: {e}", here())))?;
    let parent =
        pq.should_add_parent_tree_at_path(&refs, v).map_err(|e| Fail::from(format!("should_add_parent of {}: {e}", here())))?;
    match at(&pq, &p) {
        At::Off => {
            g.label("off");
            ensure!(got.is_none(), "{}: nothing is asked here, but query_items_at_path gives {}", here(), got.unwrap());
            ensure!(!parent, "{}: nothing is asked here, but the parent tree is added", here());
        }
        At::In(k, last) => {
            g.label("in a path");
            g.nontrivial_if(p.len() > pq.path.len());
            let Some(s) = got else { fail!("{}: key {} is on the way, but query_items_at_path gives nothing", here(), hex(k)) };
            ensure_eq!(s.items.as_ref(), &vec![QueryItem::Key(k.clone())], "items of {}", here());
            ensure!(s.left_to_right, "{}: a layer within a path has a direction", here());
            ensure!(!s.has_subquery.has_subquery_on_key(k), "{}: a layer within a path has subqueries", here());
            ensure_eq!(s.in_path.as_ref().map(|k| k.to_vec()), (!last).then(|| k.clone()), "in_path of {}", here());
            for other in [k.clone(), small_key(g, 0, 2)] {
                ensure_eq!(
                    s.has_subquery_or_matching_in_path_on_key(&other),
                    !last && other == *k,
                    "whether {} leads on below {}", hex(&other), here()
                );
            }
            ensure!(!parent, "{}: within a path, but the parent tree is added", here());
            no_panic(|| s.to_string()).map_err(|e| format!("printing {}: {e}", here()))?;
        }
        At::Query(q) => {
            g.label("a query");
            g.nontrivial_if(p.len() > pq.path.len());
            let Some(s) = got else { fail!("{}: a query applies, but query_items_at_path gives nothing", here()) };
            ensure_eq!(s.items.as_ref(), &q.items, "items of {}", here());
            ensure_eq!(s.left_to_right, q.left_to_right, "direction of {}", here());
            ensure_eq!(s.in_path, None, "in_path of {}", here());
            let mut keys: Vec<Vec<u8>> = (0..4).map(|_| small_key(g, 0, 2)).collect();
            for i in q.items.iter().chain(q.conditional_subquery_branches.iter().flatten().map(|(i, _)| i)) {
                if let (Some(k), _) = i.lower_bound() {
                    keys.push(k.to_vec());
                }
                if let (Some(k), _) = i.upper_bound() {
                    keys.push(k.to_vec());
                }
            }
            for k in keys {
                let want = leads(branch(q, &k));
                g.label_if(want, "leads below");
                ensure_eq!(s.has_subquery.has_subquery_on_key(&k), want, "has_subquery_on_key({}) of {}", hex(&k), here());
                ensure_eq!(
                    s.has_subquery_or_matching_in_path_on_key(&k), want,
                    "has_subquery_or_matching_in_path_on_key({}) of {}", hex(&k), here()
                );
            }
            ensure_eq!(parent, q.add_parent_tree_on_subquery, "should_add_parent_tree_at_path of {}", here());
            no_panic(|| s.to_string()).map_err(|e| format!("printing {}: {e}", here()))?;
        }
    }
    no_panic(|| pq.to_string()).map_err(|e| format!("printing {}: {e}", here()))?;
    Ok(())
}

// ---------------------------------------------------------------- depth

/// The number of layers, and the number of nested subqueries.
fn depth_of(q: &Query) -> (u32, u32) {
    let mut deepest = 0;
    let mut nested = 0;
    for b in q.conditional_subquery_branches.iter().flatten().map(|(_, b)| b).chain([&q.default_subquery_branch]) {
        let (d, n) = b.subquery.as_ref().map_or((0, 0), |s| {
            let (d, n) = depth_of(s);
            (d, n + 1)
        });
        deepest = deepest.max(d + b.subquery_path.as_ref().map_or(0, |p| p.len()) as u32);
        nested = nested.max(n);
    }
    (1 + deepest, nested)
}

fn depth(g: &mut G) -> R {
    let mut q = any_query(g, 3);
    let extra = if g.chance(1, 12) { g.range(230, 260) } else { g.below(40) };
    let long = g.chance(1, 60);
    for i in 0..extra {
        let mut outer = Query::new_single_key(vec![i as u8]);
        let path = if long && i == 0 {
            Some(vec![vec![]; g.range(65_400, 65_540) as usize])
        } else {
            g.chance(1, 4).then(|| g.list(0, 3, |g| small_key(g, 0, 1)))
        };
        let b = SubqueryBranch { subquery_path: path, subquery: Some(Box::new(q)) };
        if g.chance(1, 4) {
            outer.add_conditional_subquery(item(g), b.subquery_path, b.subquery.map(|s| *s));
        } else {
            outer.default_subquery_branch = b;
            if g.chance(1, 4) {
                let it = item(g);
                outer.add_conditional_subquery(it, Some(vec![vec![]; g.size(0, 4)]), None);
            }
        }
        q = outer;
    }
    let (d, n) = depth_of(&q);
    g.note(|| format!("depth {d} with {n} nested subqueries"));
    let got = PathQuery::new_unsized(vec![vec![1]], q.clone()).max_depth();
    ensure_eq!(got, q.max_depth(), "max_depth of a path query and its query");
    if d > u16::MAX as u32 {
        g.label("too long");
        ensure!(got.is_none(), "a query {d} layers deep has max_depth {got:?}");
    } else if n < 255 {
        g.nontrivial_if(d > 3);
        ensure_eq!(got, Some(d as u16), "max_depth of a query with {n} nested subqueries");
    } else {
        g.label("at the recursion limit");
        ensure_eq!(got, None, "max_depth of a query with {n} nested subqueries");
    }
    Ok(())
}

// ---------------------------------------------------------------- terminal keys

fn short(g: &mut G) -> Vec<u8> {
    vec![g.below(5) as u8 + 1]
}
fn bounded(g: &mut G, depth: usize) -> Query {
    let mut q = Query::new_with_direction(g.bool());
    for _ in 0..g.size(0, 3) {
        q.items.push(bounded_item(g));
    }
    if depth > 0 {
        if g.chance(1, 2) {
            q.default_subquery_branch = bounded_branch(g, depth);
        }
        for _ in 0..g.below(3) {
            let b = bounded_branch(g, depth);
            let it = bounded_item(g);
            q.add_conditional_subquery(it, b.subquery_path, b.subquery.map(|s| *s));
        }
    }
    q
}
fn bounded_item(g: &mut G) -> QueryItem {
    let a = short(g);
    match g.below(3) {
        0 => QueryItem::Key(a),
        1 => {
            let b = short(g);
            QueryItem::RangeInclusive(a.clone().min(b.clone())..=a.max(b))
        }
        _ => {
            let b = short(g);
            QueryItem::Range(a.clone().min(b.clone())..a.max(b))
        }
    }
}
fn bounded_branch(g: &mut G, depth: usize) -> SubqueryBranch {
    let subquery_path = g.chance(1, 2).then(|| g.list(1, 2, short));
    let subquery = g.chance(2, 3).then(|| Box::new(bounded(g, depth - 1)));
    SubqueryBranch { subquery_path, subquery }
}

fn terminals(q: &Query, at: &[Vec<u8>], out: &mut BTreeSet<Vec<Vec<u8>>>) {
    for k in 0..=8u8 {
        let k = vec![k];
        if !q.items.iter().any(|i| matches(i, &k)) {
            continue;
        }
        let b = branch(q, &k);
        let mut p = at.to_vec();
        p.push(k);
        p.extend(b.subquery_path.iter().flatten().cloned());
        match &b.subquery {
            Some(s) => terminals(s, &p, out),
            None => {
                out.insert(p);
            }
        }
    }
}

fn terminal_keys(g: &mut G) -> R {
    let v = GroveVersion::latest();
    if g.chance(1, 40) {
        // up to 64 levels of subqueries are followed
        let n = if g.bool() { g.range(60, 67) } else { g.below(200) };
        let mut q = Query::new_single_key(vec![1]);
        for _ in 0..n {
            let mut outer = Query::new_single_key(vec![1]);
            let path = g.bool().then(|| g.list(1, 2, short));
            if g.bool() { outer.add_conditional_subquery(QueryItem::Key(vec![1]), path, Some(q)) } else { outer.default_subquery_branch = SubqueryBranch { subquery_path: path, subquery: Some(Box::new(q)) } }
            q = outer;
        }
        g.note(|| format!("{n} levels of subqueries"));
        g.label("deep");
        let got = PathQuery::new_unsized(vec![], q).terminal_keys(3, v);
        ensure_eq!(got.as_ref().ok().map(|k| k.len()), (n < 64).then_some(1), "terminal keys below {n} levels");
        return Ok(());
    }
    let path = g.list(0, 2, short);
    let q = bounded(g, 3);
    let mut want = BTreeSet::new();
    terminals(&q, &path, &mut want);
    let pq = PathQuery::new(path, SizedQuery::new(q, None, None));
    g.note(|| format!("{}: {} terminal keys", show_pq(&pq), want.len()));
    let max = match g.below(4) {
        0 => want.len(),
        1 => want.len().saturating_sub(1),
        2 => g.below(1 + want.len() as u64 * 2) as usize,
        _ => 1000,
    };
    let got = pq.terminal_keys(max, v);
    if want.len() > max {
        g.label("over the limit");
        ensure!(got.is_err(), "{}: {} terminal keys found where {max} are the limit", show_pq(&pq), want.len());
        return Ok(());
    }
    g.nontrivial_if(want.len() > 1);
    let got = got.map_err(|e| Fail::from(format!("terminal_keys({max}) of {} ({} of them): {e}", show_pq(&pq), want.len())))?;
    let mut seen = BTreeSet::new();
    for (mut p, k) in got {
        p.push(k);
        ensure!(seen.insert(p.clone()), "{}: terminal key {} found twice", show_pq(&pq), hexes(&p));
    }
    let show = |s: &BTreeSet<Vec<Vec<u8>>>| s.iter().map(|p| hexes(p)).collect::<Vec<_>>().join(" ");
    ensure!(seen == want, "terminal keys of {}: {} instead of {}", show_pq(&pq), show(&seen), show(&want));
    Ok(())
}

// ---------------------------------------------------------------- forms and helpers

fn sum_query(g: &mut G) -> AggregateSumQuery {
    let mut q = AggregateSumQuery::new(g.u64b(), g.bool().then(|| g.u64b() as u16));
    q.items = g.list(0, 3, item);
    q.left_to_right = g.bool();
    q
}

fn round<T: bincode::Encode + bincode::Decode<()> + PartialEq + std::fmt::Debug>(what: &str, x: &T) -> R {
    let c = config::standard().with_big_endian().with_no_limit();
    let bytes = bincode::encode_to_vec(x, c).map_err(|e| Fail::from(format!("encoding {what}: {e}")))?;
    let (y, n): (T, usize) = bincode::decode_from_slice(&bytes, c).map_err(|e| Fail::from(format!("decoding {what} {x:?}: {e}")))?;
    ensure!(y == *x, "{what} {x:?} decodes to {y:?}");
    ensure_eq!(n, bytes.len(), "bytes read of {what} {x:?}");
    for cut in [bytes.len() - 1, bytes.len() / 2] {
        let r: Result<(T, usize), _> = bincode::decode_from_slice(&bytes[..cut], c);
        ensure!(r.is_err(), "{cut} of the {} bytes of {what} {x:?} decode", bytes.len());
    }
    Ok(())
}

fn forms(g: &mut G) -> R {
    let pq = path_query(g);
    g.nontrivial_if(!pq.query.query.items.is_empty());
    g.note(|| show_pq(&pq));
    round("the path query", &pq)?;
    round("the sized query", &pq.query)?;
    let asq = sum_query(g);
    let apq = grovedb::AggregateSumPathQuery::new(pq.path.clone(), asq.clone());
    round("the aggregate sum path query", &apq)?;
    no_panic(|| apq.to_string()).map_err(|e| format!("printing {apq:?}: {e}"))?;
    ensure_eq!((&apq.path, &apq.aggregate_sum_query), (&pq.path, &asq), "AggregateSumPathQuery::new");

    let k = small_key(g, 0, 2);
    let it = item(g);
    let (lim, sum) = (g.bool().then(|| g.u64b() as u16), g.u64b());
    let one = grovedb::AggregateSumPathQuery::new_single_key(pq.path.clone(), k.clone(), sum);
    ensure!(
        one.path == pq.path && one.aggregate_sum_query.items == vec![QueryItem::Key(k.clone())] && one.aggregate_sum_query.sum_limit == sum,
        "AggregateSumPathQuery::new_single_key gives {one:?}"
    );
    let one = grovedb::AggregateSumPathQuery::new_single_query_item(pq.path.clone(), it.clone(), sum, lim);
    ensure!(
        one.path == pq.path
            && one.aggregate_sum_query.items == vec![it.clone()]
            && one.aggregate_sum_query.sum_limit == sum
            && one.aggregate_sum_query.limit_of_items_to_check == lim
            && one.aggregate_sum_query.left_to_right,
        "AggregateSumPathQuery::new_single_query_item gives {one:?}"
    );

    let (max, min) = (g.below(4) as u8 * 80, g.byte());
    let slices: Vec<&[u8]> = pq.path.iter().map(|s| s.as_slice()).collect();
    for t in [
        PathTrunkChunkQuery::new_with_min_depth(pq.path.clone(), max, min),
        PathTrunkChunkQuery::new_from_slice_path_with_min_depth(&slices, max, min),
    ] {
        ensure_eq!((&t.path, t.max_depth, t.min_depth), (&pq.path, max.max(1), Some(min)), "a trunk chunk query");
        ensure_eq!(t.path_slices(), slices, "path of a trunk chunk query");
        round("the trunk chunk query", &t)?;
    }
    for t in [PathTrunkChunkQuery::new(pq.path.clone(), max), PathTrunkChunkQuery::new_from_slice_path(&slices, max)] {
        ensure_eq!((&t.path, t.max_depth, t.min_depth), (&pq.path, max.max(1), None), "a trunk chunk query without minimum");
        round("the trunk chunk query", &t)?;
    }
    for b in [
        PathBranchChunkQuery::new(pq.path.clone(), k.clone(), max),
        PathBranchChunkQuery::new_from_slice_path(&slices, &k, max),
    ] {
        ensure_eq!((&b.path, &b.key, b.depth), (&pq.path, &k, max.max(1)), "a branch chunk query");
        ensure_eq!(b.path_slices(), slices, "path of a branch chunk query");
        round("the branch chunk query", &b)?;
    }

    let q = &pq.query.query;
    ensure_eq!(PathQuery::new_unsized(pq.path.clone(), q.clone()).query, SizedQuery::new(q.clone(), None, None), "PathQuery::new_unsized");
    let want = SizedQuery::new(Query { items: vec![QueryItem::Key(k.clone())], ..Query::new() }, None, None);
    ensure_eq!(PathQuery::new_single_key(pq.path.clone(), k.clone()).query, want, "PathQuery::new_single_key");
    ensure_eq!(SizedQuery::new_single_key(k.clone()), want, "SizedQuery::new_single_key");
    let want = SizedQuery::new(Query { items: vec![it.clone()], ..Query::new() }, None, None);
    ensure_eq!(PathQuery::new_single_query_item(pq.path.clone(), it.clone()).query, want, "PathQuery::new_single_query_item");
    ensure_eq!(SizedQuery::new_single_query_item(it.clone()), want, "SizedQuery::new_single_query_item");
    Ok(())
}

fn helpers(g: &mut G) -> R {
    let mut q = any_query(g, 2);
    g.note(|| show(&q));
    ensure_eq!(q.len(), q.items.len(), "len");
    ensure_eq!(q.is_empty(), q.items.is_empty(), "is_empty");
    ensure_eq!(q.has_only_keys(), q.items.iter().all(|i| matches!(i, QueryItem::Key(_))), "has_only_keys of {}", show(&q));
    ensure!(q.iter().eq(q.items.iter()), "iter");
    ensure!(q.rev_iter().eq(q.items.iter().rev()), "rev_iter");
    ensure!(q.directional_iter(true).eq(q.items.iter()), "directional_iter(true)");
    ensure!(q.directional_iter(false).eq(q.items.iter().rev()), "directional_iter(false)");
    ensure_eq!(q.clone().into_iter().collect::<Vec<_>>(), q.items, "into_iter");
    ensure_eq!(Vec::<QueryItem>::from(q.clone()), q.items, "into a vector");
    let below = q.default_subquery_branch.subquery.is_some()
        || q.default_subquery_branch.subquery_path.is_some()
        || q.conditional_subquery_branches.is_some();
    ensure_eq!(q.has_subquery(), below, "has_subquery of {}", show(&q));
    for _ in 0..3 {
        let k = small_key(g, 0, 2);
        ensure!(q.has_subquery_on_key(&k, true) && q.has_subquery_or_subquery_path_on_key(&k, true), "a key in the path leads on");
        let b = branch(&q, &k);
        let d = &q.default_subquery_branch;
        // a key with a branch of its own in a query with a default one is left open
        if std::ptr::eq(b, d) || (d.subquery.is_none() && d.subquery_path.is_none()) {
            g.nontrivial_if(b.subquery.is_some());
            ensure_eq!(q.has_subquery_on_key(&k, false), b.subquery.is_some(), "has_subquery_on_key({}) of {}", hex(&k), show(&q));
            if b.subquery.is_some() || b.subquery_path.is_some() || std::ptr::eq(b, d) {
                ensure_eq!(
                    q.has_subquery_or_subquery_path_on_key(&k, false),
                    b.subquery.is_some() || b.subquery_path.is_some(),
                    "has_subquery_or_subquery_path_on_key({}) of {}", hex(&k), show(&q)
                );
            }
        }
    }
    // building
    let want = q.clone();
    let mut built = Query::new_with_direction(want.left_to_right);
    built.items = want.items.clone();
    built.add_parent_tree_on_subquery = want.add_parent_tree_on_subquery;
    match &want.default_subquery_branch.subquery_path {
        Some(p) if p.len() == 1 && g.bool() => built.set_subquery_key(p[0].clone()),
        Some(p) => built.set_subquery_path(p.clone()),
        None => {}
    }
    if let Some(s) = &want.default_subquery_branch.subquery {
        built.set_subquery((**s).clone());
    }
    if let Some(c) = &want.conditional_subquery_branches {
        for (i, b) in c {
            built.add_conditional_subquery(i.clone(), b.subquery_path.clone(), b.subquery.clone().map(|s| *s));
        }
        if c.is_empty() {
            q.conditional_subquery_branches = None;
        }
    }
    ensure!(built == q, "a query built step by step is {} instead of {}", show(&built), show(&q));
    let it = item(g);
    let l = g.bool();
    let one = Query::new_single_query_item_with_direction(it.clone(), l);
    ensure!(one.items == vec![it.clone()] && one.left_to_right == l && !one.has_subquery(), "new_single_query_item_with_direction");
    ensure!(Query::new_single_query_item(it.clone()) == Query { items: vec![it], ..Query::new() }, "new_single_query_item");
    ensure!(Query::new_range_full().items == vec![QueryItem::RangeFull(..)], "new_range_full");

    Ok(())
}

// ---------------------------------------------------------------- merging aggregate sum path queries

fn merge_sum_paths(g: &mut G) -> R {
    let v = GroveVersion::latest();
    let path = g.list(0, 2, short);
    let qs: Vec<grovedb::AggregateSumPathQuery> = g.list(0, 3, |g| {
        let p = if g.chance(1, 8) { g.list(0, 2, short) } else { path.clone() };
        let mut q = AggregateSumQuery::new(g.below(100), g.bool().then(|| g.below(20) as u16));
        for _ in 0..g.size(0, 3) {
            let it = item_over(g, short);
            if !degenerate(&it) {
                q.insert_item(it);
            }
        }
        grovedb::AggregateSumPathQuery::new(p, q)
    });
    g.note(|| format!("{qs:?}"));
    let r = grovedb::AggregateSumPathQuery::merge(qs.iter().collect(), v);
    if qs.is_empty() {
        ensure!(r.is_err(), "no queries merge");
        return Ok(());
    }
    if qs.iter().any(|q| q.path != qs[0].path) {
        g.label("different paths");
        ensure!(r.is_err(), "queries of different paths {qs:?} merge to {r:?}");
        return Ok(());
    }
    let one = AggregateSumQuery::merge_multiple(qs.iter().map(|q| q.aggregate_sum_query.clone()).collect());
    match (r, one) {
        (Ok(m), one) => {
            g.nontrivial_if(qs.len() > 1);
            ensure_eq!(m.path, qs[0].path, "path of the merge of {qs:?}");
            for k in 0..=8u8 {
                ensure_eq!(
                    m.aggregate_sum_query.items.iter().any(|i| matches(i, &[k])),
                    qs.iter().any(|q| q.aggregate_sum_query.items.iter().any(|i| matches(i, &[k]))),
                    "whether key {k} is in the merge of {qs:?}"
                );
            }
            if qs.len() > 1 {
                ensure_eq!(Some(&m.aggregate_sum_query), one.as_ref().ok(), "merge of {qs:?}");
            } else {
                ensure_eq!(m, qs[0], "merge of one query");
            }
        }
        (Err(e), Ok(o)) => ensure!(qs.len() > 1 && false, "{qs:?} do not merge ({e}), but their queries do: {o:?}"),
        (Err(_), Err(_)) => g.label("refused"),
    }
    Ok(())
}

pub fn sections() -> Vec<Section> {
    vec![
        section("layers", "a path query with up to four query layers, asked about a path that follows it; non-trivial: below its own path", 250_000, 6_000_000, layers),
        section("depth", "nested queries; non-trivial: more than three layers", 6_000, 100_000, depth),
        section("terminal_keys", "a query of bounded items with subqueries; non-trivial: more than one terminal key within the limit", 60_000, 2_000_000, terminal_keys),
        section("forms", "encodings and constructors; non-trivial: the query has items", 25_000, 500_000, forms),
        section("helpers", "builders and accessors; non-trivial: a key with a subquery", 60_000, 1_000_000, helpers),
        section("merge_sum_paths", "merging aggregate sum path queries; non-trivial: two or more merged", 30_000, 500_000, merge_sum_paths),
    ]
}
