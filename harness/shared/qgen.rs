//! Generators for keys and queries, shared by the check crates.
#![allow(dead_code)]
use grovedb_query::{Query, QueryItem, SubqueryBranch};
use std::ops::{RangeFull, RangeInclusive};
use vp::G;

/// Every byte string the key generator can produce, in order (see `small_key`).
pub const ALPHA: [u8; 4] = [0, 1, 2, 255];

pub fn small_key(g: &mut G, min: usize, max: usize) -> Vec<u8> {
    let n = g.size(min, max);
    (0..n).map(|_| *g.pick(&ALPHA)).collect()
}

/// All strings over `ALPHA` of length 0..=3 (85 of them), sorted.
pub fn universe() -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![vec![]];
    let mut layer = vec![vec![]];
    for _ in 0..3 {
        let mut next = vec![];
        for p in &layer {
            for a in ALPHA {
                let mut k: Vec<u8> = p.clone();
                k.push(a);
                next.push(k);
            }
        }
        out.extend(next.iter().cloned());
        layer = next;
    }
    out.sort();
    out
}

/// Any of the ten kinds over the given key source, with start <= end.
pub fn item_over(g: &mut G, mut k: impl FnMut(&mut G) -> Vec<u8>) -> QueryItem {
    let kind = g.below(10);
    let a = k(g);
    match kind {
        0 => return QueryItem::Key(a),
        3 => return QueryItem::RangeFull(RangeFull),
        4 => return QueryItem::RangeFrom(a..),
        5 => return QueryItem::RangeTo(..a),
        6 => return QueryItem::RangeToInclusive(..=a),
        7 => return QueryItem::RangeAfter(a..),
        _ => {}
    }
    let b = k(g);
    let (a, b) = if a <= b { (a, b) } else { (b, a) };
    match kind {
        1 => QueryItem::Range(a..b),
        2 => QueryItem::RangeInclusive(RangeInclusive::new(a, b)),
        8 => QueryItem::RangeAfterTo(a..b),
        _ => QueryItem::RangeAfterToInclusive(RangeInclusive::new(a, b)),
    }
}

pub fn item(g: &mut G) -> QueryItem {
    item_over(g, |g| small_key(g, 0, 2))
}

/// Membership, from the documented meaning of the ten kinds.
pub fn matches(q: &QueryItem, k: &[u8]) -> bool {
    match q {
        QueryItem::Key(a) => k == a.as_slice(),
        QueryItem::Range(r) => k >= r.start.as_slice() && k < r.end.as_slice(),
        QueryItem::RangeInclusive(r) => k >= r.start().as_slice() && k <= r.end().as_slice(),
        QueryItem::RangeFull(_) => true,
        QueryItem::RangeFrom(r) => k >= r.start.as_slice(),
        QueryItem::RangeTo(r) => k < r.end.as_slice(),
        QueryItem::RangeToInclusive(r) => k <= r.end.as_slice(),
        QueryItem::RangeAfter(r) => k > r.start.as_slice(),
        QueryItem::RangeAfterTo(r) => k > r.start.as_slice() && k < r.end.as_slice(),
        QueryItem::RangeAfterToInclusive(r) => k > r.start().as_slice() && k <= r.end().as_slice(),
    }
}

/// True when the item selects nothing by its own bounds.
pub fn degenerate(q: &QueryItem) -> bool {
    match q {
        QueryItem::Range(r) => r.start >= r.end,
        QueryItem::RangeInclusive(r) => r.start() > r.end(),
        QueryItem::RangeTo(r) => r.end.is_empty(),
        QueryItem::RangeAfterTo(r) => {
            let mut s = r.start.clone();
            s.push(0);
            s >= r.end
        }
        QueryItem::RangeAfterToInclusive(r) => r.start() >= r.end(),
        _ => false,
    }
}

/// A full query of bounded depth with arbitrary shape.
pub fn any_query(g: &mut G, depth: usize) -> Query {
    let mut q = Query::new_with_direction(g.bool());
    let n = g.size(0, 3);
    for _ in 0..n {
        q.items.push(item(g));
    }
    if depth > 0 {
        if g.chance(1, 2) {
            q.default_subquery_branch = any_branch(g, depth);
        }
        if g.chance(1, 3) {
            let mut m = indexmap::IndexMap::new();
            for _ in 0..g.size(0, 2) {
                let it = item(g);
                m.insert(it, any_branch(g, depth));
            }
            q.conditional_subquery_branches = Some(m);
        }
    }
    q.add_parent_tree_on_subquery = g.chance(1, 4);
    q
}

pub fn any_branch(g: &mut G, depth: usize) -> SubqueryBranch {
    SubqueryBranch {
        subquery_path: if g.chance(1, 3) {
            let n = g.size(0, 2);
            Some((0..n).map(|_| small_key(g, 0, 2)).collect())
        } else {
            None
        },
        subquery: if g.chance(2, 3) { Some(Box::new(any_query(g, depth - 1))) } else { None },
    }
}

/// Compact rendering of a query, for messages.
pub fn show(q: &Query) -> String {
    let items: Vec<String> = q.items.iter().map(show_item).collect();
    let mut s = format!("{{{}", items.join(", "));
    if let Some(c) = &q.conditional_subquery_branches {
        for (i, b) in c {
            s += &format!("; {} => {}", show_item(i), show_branch(b));
        }
    }
    let d = show_branch(&q.default_subquery_branch);
    if d != "-" {
        s += &format!("; * => {d}");
    }
    if !q.left_to_right {
        s += "; desc";
    }
    if q.add_parent_tree_on_subquery {
        s += "; parent";
    }
    s + "}"
}
pub fn show_branch(b: &SubqueryBranch) -> String {
    match (&b.subquery_path, &b.subquery) {
        (None, None) => "-".into(),
        (p, s) => format!(
            "{}{}",
            p.as_ref().map(|p| format!("/{}", p.iter().map(hex).collect::<Vec<_>>().join("/"))).unwrap_or_default(),
            s.as_ref().map(|s| show(s)).unwrap_or_default()
        ),
    }
}
fn hex(k: &Vec<u8>) -> String {
    k.iter().map(|b| format!("{b:02x}")).collect()
}
pub fn show_item(i: &QueryItem) -> String {
    match i {
        QueryItem::Key(a) => hex(a),
        QueryItem::Range(r) => format!("[{}..{})", hex(&r.start), hex(&r.end)),
        QueryItem::RangeInclusive(r) => format!("[{}..{}]", hex(r.start()), hex(r.end())),
        QueryItem::RangeFull(_) => "(..)".into(),
        QueryItem::RangeFrom(r) => format!("[{}..)", hex(&r.start)),
        QueryItem::RangeTo(r) => format!("(..{})", hex(&r.end)),
        QueryItem::RangeToInclusive(r) => format!("(..{}]", hex(&r.end)),
        QueryItem::RangeAfter(r) => format!("({}..)", hex(&r.start)),
        QueryItem::RangeAfterTo(r) => format!("({}..{})", hex(&r.start), hex(&r.end)),
        QueryItem::RangeAfterToInclusive(r) => format!("({}..{}]", hex(r.start()), hex(r.end())),
    }
}
