//! Q02: merging queries selects exactly the union.
use crate::qgen::*;
use grovedb::PathQuery;
use grovedb_query::{AggregateSumQuery, Query, QueryItem, SubqueryBranch};
use grovedb_version::version::GroveVersion;
use vp::*;

/// Whether `q` selects the element at the relative path `p` as a result.
pub fn selects(q: &Query, p: &[Vec<u8>]) -> bool {
    let Some((k, rest)) = p.split_first() else { return false };
    if !q.items.iter().any(|i| matches(i, k)) {
        return false;
    }
    let b = branch(q, k);
    if b.subquery.is_none() && b.subquery_path.is_none() {
        return rest.is_empty();
    }
    below(b, rest)
}
pub fn below(b: &SubqueryBranch, rest: &[Vec<u8>]) -> bool {
    let empty = vec![];
    let sp = b.subquery_path.as_ref().unwrap_or(&empty);
    match &b.subquery {
        None => rest == sp.as_slice(),
        Some(s) => rest.len() > sp.len() && rest.starts_with(sp) && selects(s, &rest[sp.len()..]),
    }
}
pub fn branch<'a>(q: &'a Query, k: &[u8]) -> &'a SubqueryBranch {
    if let Some(c) = &q.conditional_subquery_branches {
        for (i, b) in c {
            if matches(i, k) {
                return b;
            }
        }
    }
    &q.default_subquery_branch
}

// how many keys there are, so that all of a deep layering can be looked at
thread_local! { static KEYS: std::cell::Cell<u8> = const { std::cell::Cell::new(4) } }
fn gk(g: &mut G) -> Vec<u8> {
    vec![g.below(KEYS.get() as u64) as u8 + 1]
}

fn flat(g: &mut G, n: usize) -> Query {
    let mut q = Query::new();
    for _ in 0..g.size(1, n) {
        let it = item_over(g, gk);
        if !degenerate(&it) {
            q.insert_item(it);
        }
    }
    q
}

/// A query that always has results exactly `depth` levels down.
fn leveled(g: &mut G, depth: usize, cond: bool) -> Query {
    let mut q = flat(g, 2);
    if depth == 1 {
        return q;
    }
    q.default_subquery_branch = lbranch(g, depth, cond);
    if cond && g.chance(1, 3) {
        for _ in 0..g.size(1, 2) {
            let it = item_over(g, gk);
            // within the query's own items, and not over an earlier conditional
            let own = q.items.clone();
            let Some(it) = own.iter().find_map(|o| o.intersect(&it).in_both) else { continue };
            if degenerate(&it) || it.is_key() && !own.iter().any(|o| it_in(o, &it)) { continue }
            if q.conditional_subquery_branches.iter().flatten().any(|(c, _)| c.intersect(&it).in_both.is_some()) {
                continue;
            }
            let b = lbranch(g, depth, cond);
            q.add_conditional_subquery(it, b.subquery_path, b.subquery.map(|b| *b));
        }
    }
    q
}
fn it_in(o: &QueryItem, i: &QueryItem) -> bool {
    o.intersect(i).in_both.as_ref() == Some(i)
}
fn lbranch(g: &mut G, depth: usize, cond: bool) -> SubqueryBranch {
    let skip = g.size(0, depth - 1);
    let path: Vec<Vec<u8>> = (0..skip).map(|_| gk(g)).collect();
    let left = depth - 1 - skip;
    SubqueryBranch {
        subquery_path: (!path.is_empty()).then_some(path),
        subquery: (left > 0).then(|| Box::new(leveled(g, left, cond))),
    }
}

fn paths(n: usize) -> Vec<Vec<Vec<u8>>> {
    let mut out = vec![];
    let mut layer: Vec<Vec<Vec<u8>>> = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for p in &layer {
            for k in 1..=KEYS.get() {
                let mut x = p.clone();
                x.push(vec![k]);
                next.push(x);
            }
        }
        out.extend(next.iter().cloned());
        layer = next;
    }
    out
}

/// A subquery path of no segments is refused by every reader of queries.
fn usable(q: &Query) -> bool {
    let ok = |b: &SubqueryBranch| b.subquery_path.as_ref().is_none_or(|p| !p.is_empty()) && b.subquery.as_ref().is_none_or(|s| usable(s));
    ok(&q.default_subquery_branch) && q.conditional_subquery_branches.iter().flatten().all(|(_, b)| ok(b))
}
fn check_union(a: &[Query], m: &Query, depth: usize, exact: bool) -> R<usize> {
    let mut n = 0;
    ensure!(usable(m), "merge gives an empty subquery path, which no reader takes: {:?} -> {}", a.iter().map(show).collect::<Vec<_>>(), show(m));
    for p in paths(depth) {
        let want = a.iter().any(|q| selects(q, &p));
        let got = selects(m, &p);
        n += want as usize;
        ensure!(got || !want, "merge lost {p:?}: {:?} -> {}", a.iter().map(show).collect::<Vec<_>>(), show(m));
        if exact {
            ensure!(!got || want, "merge gained {p:?}: {:?} -> {}", a.iter().map(show).collect::<Vec<_>>(), show(m));
        }
    }
    Ok(n)
}

fn merge_flat(g: &mut G) -> R {
    KEYS.set(4);
    let qs: Vec<Query> = g.list(1, 4, |g| flat(g, 3));
    let m = if g.bool() { Query::merge_multiple(qs.clone()) } else {
        let mut m = qs[0].clone();
        for q in &qs[1..] { m.merge_with(q.clone()); }
        m
    };
    g.note(|| format!("{:?} -> {}", qs.iter().map(show).collect::<Vec<_>>(), show(&m)));
    let n = check_union(&qs, &m, 1, true)?;
    g.nontrivial_if(qs.len() > 1 && n > 0 && n < 4);
    Ok(())
}

fn merge_deep(g: &mut G) -> R {
    KEYS.set(4);
    let depth = g.size(2, 3);
    merge_layers(g, depth)
}
/// Deeper, over two keys only.
fn merge_long(g: &mut G) -> R {
    KEYS.set(2);
    let depth = g.size(3, 7);
    merge_layers(g, depth)
}
fn merge_layers(g: &mut G, depth: usize) -> R {
    let cond = g.bool();
    let qs: Vec<Query> = g.list(2, 3, |g| leveled(g, depth, cond));
    let m = Query::merge_multiple(qs.clone());
    g.note(|| format!("{:?} -> {}", qs.iter().map(show).collect::<Vec<_>>(), show(&m)));
    let n = check_union(&qs, &m, depth, true)?;
    g.nontrivial_if(qs.len() > 1 && n > 0);
    Ok(())
}

/// Path queries from different roots, all with results at the same level.
fn merge_paths(g: &mut G) -> R {
    let (depth, keys) = if g.chance(1, 3) { (g.size(2, 6), 2) } else { (g.size(2, 4), 4) };
    KEYS.set(keys);
    let cond = g.chance(1, 3);
    let pqs: Vec<PathQuery> = g.list(1, 4, |g| {
        let n = g.below(depth as u64) as usize;
        let path = (0..n).map(|_| gk(g)).collect();
        PathQuery::new_unsized(path, leveled(g, depth - n, cond))
    });
    let show_pq = |p: &PathQuery| format!("/{:?} {}", p.path, show(&p.query.query));
    let m = match PathQuery::merge(pqs.iter().collect(), GroveVersion::latest()) {
        Ok(m) => m,
        Err(e) => fail!("merge of unlimited path queries refused: {e}"),
    };
    g.note(|| format!("{:?} -> {}", pqs.iter().map(show_pq).collect::<Vec<_>>(), show_pq(&m)));
    ensure!(usable(&m.query.query), "merge gives an empty subquery path, which no reader takes: {:?} -> {}", pqs.iter().map(show_pq).collect::<Vec<_>>(), show_pq(&m));
    let sel = |p: &PathQuery, k: &[Vec<u8>]| k.starts_with(&p.path) && selects(&p.query.query, &k[p.path.len()..]);
    let mut n = 0;
    for p in paths(depth) {
        let want = pqs.iter().any(|q| sel(q, &p));
        n += want as usize;
        ensure!(
            want == sel(&m, &p),
            "merge {} {p:?}: {:?} -> {}",
            if want { "lost" } else { "gained" },
            pqs.iter().map(show_pq).collect::<Vec<_>>(),
            show_pq(&m)
        );
    }
    g.nontrivial_if(pqs.len() > 1 && n > 0);
    Ok(())
}

/// One query whose default branch takes in another branch.
fn merge_default(g: &mut G) -> R {
    KEYS.set(2);
    let depth = g.size(2, 4);
    let mut q = flat(g, 2);
    q.default_subquery_branch = lbranch(g, depth, false);
    let mut o = q.clone();
    o.default_subquery_branch = lbranch(g, depth, false);
    if g.bool() { o.default_subquery_branch.subquery_path = q.default_subquery_branch.subquery_path.clone(); o.default_subquery_branch.subquery = lbranch_like(g, &q.default_subquery_branch) }
    let mut m = q.clone();
    m.merge_default_subquery_branch(o.default_subquery_branch.clone());
    let same = q.default_subquery_branch.subquery_path == o.default_subquery_branch.subquery_path;
    let qs = [q, o];
    g.note(|| format!("{:?} -> {}", qs.iter().map(show).collect::<Vec<_>>(), show(&m)));
    let n = match check_union(&qs, &m, depth, true) {
        Err(f) if !same => return Err(Fail::new("default-branch-paths", f.msg)),
        r => r?,
    };
    g.nontrivial_if(n > 0);
    Ok(())
}
/// Another subquery that goes as deep.
fn lbranch_like(g: &mut G, b: &SubqueryBranch) -> Option<Box<Query>> {
    fn deep(q: &Query) -> usize {
        let b = &q.default_subquery_branch;
        if b.subquery.is_none() && b.subquery_path.is_none() { return 1 }
        1 + b.subquery_path.as_ref().map_or(0, |p| p.len()) + b.subquery.as_ref().map_or(0, |s| deep(s))
    }
    b.subquery.as_ref().map(|s| { let d = deep(s); Box::new(leveled(g, d, false)) })
}

/// A path query with a limit or an offset cannot be merged.
fn merge_sized(g: &mut G) -> R {
    let mut pqs: Vec<PathQuery> =
        g.list(2, 4, |g| PathQuery::new_unsized((0..g.size(0, 2)).map(|_| gk(g)).collect(), flat(g, 2)));
    let i = g.below(pqs.len() as u64) as usize;
    if g.bool() { pqs[i].query.limit = Some(g.below(9) as u16) } else { pqs[i].query.offset = Some(g.below(9) as u16) }
    g.nontrivial();
    ensure!(PathQuery::merge(pqs.iter().collect(), GroveVersion::latest()).is_err(), "merged a sized query {pqs:?}");
    ensure!(PathQuery::merge(vec![], GroveVersion::latest()).is_err(), "merged nothing");
    Ok(())
}

/// Aggregate sum queries: union of the items, sum of the limits.
fn merge_sums(g: &mut G) -> R {
    let qs: Vec<AggregateSumQuery> = g.list(1, 4, |g| {
        let mut q = if g.chance(1, 4) { AggregateSumQuery::new_descending(0, None) } else { AggregateSumQuery::new(0, None) };
        q.sum_limit = if g.chance(1, 6) { g.u64b() } else { g.below(1000) };
        q.limit_of_items_to_check = match g.below(4) {
            0 => None,
            1 => Some(g.u64b() as u16),
            _ => Some(g.below(100) as u16),
        };
        for _ in 0..g.size(0, 3) {
            let it = item_over(g, gk);
            if !degenerate(&it) { q.insert_item(it); }
        }
        q
    });
    let got = if g.bool() { AggregateSumQuery::merge_multiple(qs.clone()) } else {
        let mut m = qs[0].clone();
        qs[1..].iter().try_for_each(|q| m.merge_with(q.clone())).map(|_| m)
    };
    let dir = qs.iter().all(|q| q.left_to_right == qs[0].left_to_right);
    let sum = qs.iter().map(|q| q.sum_limit as u128).sum::<u128>();
    let lim = qs.iter().map(|q| q.limit_of_items_to_check.map(|l| l as u64)).sum::<Option<u64>>();
    let ok = dir && sum <= u64::MAX as u128;
    match got {
        Err(e) => {
            // an unlimited query makes the order in which limits add up irrelevant
            let partial: u64 = qs.iter().filter_map(|q| q.limit_of_items_to_check).map(|l| l as u64).sum();
            ensure!(!ok || partial > u16::MAX as u64, "refused {qs:?}: {e}");
        }
        Ok(m) => {
            ensure!(ok && lim.is_none_or(|l| l <= u16::MAX as u64), "accepted {qs:?}");
            ensure_eq!(m.sum_limit as u128, sum, "sum limit of {qs:?}");
            ensure_eq!(m.limit_of_items_to_check.map(|l| l as u64), lim, "item limit of {qs:?}");
            ensure_eq!(m.left_to_right, qs[0].left_to_right, "direction of {qs:?}");
            for k in 0..=5u8 {
                let want = qs.iter().any(|q| q.items.iter().any(|i| matches(i, &[k])));
                let got = m.items.iter().filter(|i| matches(i, &[k])).count();
                ensure_eq!(got, want as usize, "items covering {k} of {qs:?} -> {m:?}");
            }
            g.nontrivial_if(qs.len() > 1);
        }
    }
    Ok(())
}

pub fn sections() -> Vec<Section> {
    vec![
        section("flat", "two or more queries selecting some but not all of the keys", 40_000, 2_000_000, merge_flat),
        section("deep", "two or more layered queries with at least one result", 60_000, 3_000_000, merge_deep),
        section("long", "two or more deeply layered queries with at least one result", 40_000, 2_000_000, merge_long),
        section("default", "at least one result", 10_000, 200_000, merge_default),
        section("paths", "two or more path queries with at least one result", 60_000, 3_000_000, merge_paths),
        section("sized", "every case", 2_000, 20_000, merge_sized),
        section("sums", "two or more aggregate sum queries merged", 20_000, 500_000, merge_sums),
    ]
}
