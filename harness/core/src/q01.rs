//! Q01: a query item denotes exactly one set of keys, and every operation on
//! items agrees with that set.
use crate::qgen::*;
use grovedb_costs::{CostContext, CostsExt, OperationCost};
use grovedb_query::query_item::intersect::Direction;
use grovedb_query::{ProofItems, Query, QueryItem};
use grovedb_storage::RawIterator;
use std::cmp::Ordering;
use vp::*;

fn set(q: &QueryItem, u: &[Vec<u8>]) -> Vec<bool> {
    u.iter().map(|k| matches(q, k)).collect()
}
fn oset(q: &Option<QueryItem>, u: &[Vec<u8>]) -> Vec<bool> {
    q.as_ref().map(|q| set(q, u)).unwrap_or_else(|| vec![false; u.len()])
}

fn contains(g: &mut G) -> R {
    let it = if g.chance(1, 3) { item_over(g, |g| g.bytes(0, 4)) } else { item(g) };
    let mut keys: Vec<Vec<u8>> = g.list(1, 8, |g| small_key(g, 0, 3));
    for b in [it.lower_bound().0, it.upper_bound().0].into_iter().flatten() {
        keys.push(b.to_vec());
        let mut x = b.to_vec();
        x.push(0);
        keys.push(x);
        if let Some((l, r)) = b.split_last() {
            keys.push(r.to_vec());
            if *l > 0 {
                let mut y = r.to_vec();
                y.push(l - 1);
                keys.push(y);
            }
        }
    }
    g.note(|| format!("item {it:?} keys {keys:?}"));
    g.nontrivial_if(keys.iter().any(|k| matches(&it, k)) && keys.iter().any(|k| !matches(&it, k)));
    let b = it.to_range_set_borrowed().ok_or("no borrowed range set")?;
    let back = it.to_range_set().to_query_item();
    for k in &keys {
        let m = matches(&it, k);
        ensure_eq!(it.contains(k), m, "{it:?} contains {k:?}");
        ensure_eq!(b.could_contain_key(k).included, m, "{it:?} could_contain_key {k:?}");
        if let Some(x) = &back {
            ensure_eq!(matches(x, k), m, "{it:?} through its range set is {x:?}, at {k:?}");
        }
        // whether the range can hold anything on one side of the key, over dense keys
        if !degenerate(&it) {
            let u = universe();
            let left = u.iter().any(|x| x < k && matches(&it, x));
            let right = u.iter().any(|x| x > k && matches(&it, x));
            if left {
                ensure!(b.could_have_items_in_direction(k, Direction::LeftOf), "{it:?} has keys left of {k:?}");
            }
            if right {
                ensure!(b.could_have_items_in_direction(k, Direction::RightOf), "{it:?} has keys right of {k:?}");
            }
        }
    }
    if !degenerate(&it) {
        ensure!(back.is_some(), "{it:?} lost through its range set");
    }
    // flags agree with the bounds
    ensure_eq!(it.is_range(), !it.is_key(), "{it:?} is_range");
    ensure_eq!(it.is_single(), it.is_key(), "{it:?} is_single");
    ensure_eq!(it.lower_unbounded(), it.lower_bound().0.is_none(), "{it:?} lower");
    ensure_eq!(it.upper_unbounded(), it.upper_bound().0.is_none(), "{it:?} upper");
    let two_open = matches!(it, QueryItem::RangeAfterTo(_) | QueryItem::RangeAfterToInclusive(_));
    ensure!(two_open || it.is_unbounded_range() == (it.lower_bound().0.is_none() || it.upper_bound().0.is_none()), "{it:?} unbounded");
    // what it takes to walk it is measured by its bounds, a key being one of both
    let both = [it.lower_bound().0, it.upper_bound().0].map(|b| b.map_or(0, |b| b.len()));
    ensure_eq!(it.processing_footprint() as usize, if it.is_key() { both[0] } else { both[0] + both[1] }, "{it:?} footprint");
    let kind = match &it {
        QueryItem::Key(_) => 0,
        QueryItem::Range(_) => 1,
        QueryItem::RangeInclusive(_) => 2,
        QueryItem::RangeFull(_) => 3,
        QueryItem::RangeFrom(_) => 4,
        QueryItem::RangeTo(_) => 5,
        QueryItem::RangeToInclusive(_) => 6,
        QueryItem::RangeAfter(_) => 7,
        QueryItem::RangeAfterTo(_) => 8,
        QueryItem::RangeAfterToInclusive(_) => 9,
    };
    ensure_eq!(it.enum_value(), kind, "{it:?} kind");
    Ok(())
}

fn pairs(g: &mut G) -> R {
    let (a, b) = (item(g), item(g));
    if degenerate(&a) || degenerate(&b) {
        return Err(Fail::discard());
    }
    let u = universe();
    let (sa, sb) = (set(&a, &u), set(&b, &u));
    g.note(|| format!("{a:?} with {b:?}"));
    let both: Vec<bool> = sa.iter().zip(&sb).map(|(x, y)| *x && *y).collect();
    let any = both.iter().any(|x| *x);
    g.nontrivial_if(any && sa != sb);
    g.label_if(!any, "disjoint");
    let r = a.intersect(&b);
    ensure_eq!(oset(&r.in_both, &u), both, "{a:?} ∩ {b:?} = {:?}", r.in_both);
    for (who, whole, l, rr) in [("ours", &sa, &r.ours_left, &r.ours_right), ("theirs", &sb, &r.theirs_left, &r.theirs_right)] {
        let (sl, sr) = (oset(l, &u), oset(rr, &u));
        for i in 0..u.len() {
            let parts = sl[i] as u8 + sr[i] as u8 + both[i] as u8;
            ensure_eq!(parts, whole[i] as u8, "{who}: key {:?} in {} parts: left {l:?} both {:?} right {rr:?} of {a:?}, {b:?}", u[i], parts, r.in_both);
        }
        // ordered left to right
        if let Some(fb) = both.iter().position(|x| *x) {
            ensure!(sl.iter().rposition(|x| *x).is_none_or(|i| i < fb), "{who} left part not left: {l:?}");
            let lb = both.iter().rposition(|x| *x).unwrap();
            ensure!(sr.iter().position(|x| *x).is_none_or(|i| i > lb), "{who} right part not right: {rr:?}");
        }
    }
    if any {
        ensure!(a.collides_with(&b) && b.collides_with(&a), "{a:?} and {b:?} share keys but do not collide");
    }
    let m = a.merge(&b);
    let sm = set(&m, &u);
    let hull_lo = sa.iter().zip(&sb).position(|(x, y)| *x || *y);
    let hull_hi = sa.iter().zip(&sb).rposition(|(x, y)| *x || *y);
    for i in 0..u.len() {
        if sa[i] || sb[i] {
            ensure!(sm[i], "merge of {a:?} and {b:?} = {m:?} lost {:?}", u[i]);
        } else if any {
            ensure!(!sm[i], "merge of overlapping {a:?} and {b:?} = {m:?} gained {:?}", u[i]);
        } else if hull_lo.is_some_and(|l| i < l) || hull_hi.is_some_and(|h| i > h) {
            ensure!(!sm[i], "merge of {a:?} and {b:?} = {m:?} reaches {:?}", u[i]);
        }
    }
    let mut c = a.clone();
    c.merge_assign(&b);
    ensure_eq!(c, m, "merge_assign");
    // order: total, antisymmetric, and left-of means less
    ensure_eq!(a.cmp(&b), b.cmp(&a).reverse(), "order of {a:?}, {b:?}");
    if let (Some(ah), Some(bl)) = (sa.iter().rposition(|x| *x), sb.iter().position(|x| *x)) {
        if ah < bl {
            ensure_eq!(a.cmp(&b), Ordering::Less, "{a:?} lies left of {b:?}");
        }
    }
    let c3 = item(g);
    if a <= b && b <= c3 {
        ensure!(a <= c3, "order not transitive: {a:?} {b:?} {c3:?}");
    }
    Ok(())
}

fn many(g: &mut G) -> R {
    // two ordered lists of disjoint items, as the merging code builds them
    let mk = |g: &mut G| {
        let mut q = Query::new();
        for _ in 0..g.size(1, 4) {
            let it = item(g);
            if !degenerate(&it) {
                q.insert_item(it);
            }
        }
        q.items
    };
    let ours = mk(g);
    let theirs = mk(g);
    let u = universe();
    let un = |v: &[QueryItem], k: &[u8]| v.iter().any(|i| matches(i, k));
    g.note(|| format!("ours {ours:?} theirs {theirs:?}"));
    g.nontrivial_if(ours.len() + theirs.len() > 2 && u.iter().any(|k| un(&ours, k) && un(&theirs, k)));
    let r = QueryItem::intersect_many_ordered(&mut ours.clone(), theirs.clone());
    let (ib, o) = (r.in_both.unwrap_or_default(), r.ours.unwrap_or_default());
    for k in &u {
        let (x, y) = (un(&ours, k), un(&theirs, k));
        ensure_eq!(ib.iter().filter(|i| matches(i, k)).count(), (x && y) as usize, "in_both at {k:?}: {ib:?}");
        ensure_eq!(o.iter().filter(|i| matches(i, k)).count(), (x && !y) as usize, "ours at {k:?}: {o:?}");
    }
    Ok(())
}

fn insertion(g: &mut G) -> R {
    let items: Vec<QueryItem> = g.list(1, 8, |g| item(g)).into_iter().filter(|i| !degenerate(i)).collect();
    let how = g.below(3);
    let mut q = Query::new_with_direction(g.bool());
    for it in &items {
        if how == 0 {
            q.insert_item(it.clone());
        } else {
            // the per-kind entry points
            match it.clone() {
                QueryItem::Key(k) => q.insert_key(k),
                QueryItem::Range(r) => q.insert_range(r),
                QueryItem::RangeInclusive(r) => q.insert_range_inclusive(r),
                QueryItem::RangeFull(_) => q.insert_all(),
                QueryItem::RangeFrom(r) => q.insert_range_from(r),
                QueryItem::RangeTo(r) => q.insert_range_to(r),
                QueryItem::RangeToInclusive(r) => q.insert_range_to_inclusive(r),
                QueryItem::RangeAfter(r) => q.insert_range_after(r),
                QueryItem::RangeAfterTo(r) => q.insert_range_after_to(r),
                QueryItem::RangeAfterToInclusive(r) => q.insert_range_after_to_inclusive(r),
            }
        }
    }
    if how == 2 {
        let mut q2 = Query::new_with_direction(q.left_to_right);
        q2.insert_items(items.clone());
        ensure_eq!(q2.items, q.items, "insert_items");
    }
    g.note(|| format!("{items:?} -> {:?}", q.items));
    let live: Vec<&QueryItem> = items.iter().filter(|i| !degenerate(i)).collect();
    g.nontrivial_if(live.len() > 1 && q.items.len() < items.len() && q.items.len() > 1);
    let u = universe();
    for k in &u {
        let want = live.iter().any(|i| matches(i, k));
        let n = q.items.iter().filter(|i| matches(i, k)).count();
        ensure_eq!(n, want as usize, "key {k:?} of {items:?} is selected by {n} items of {:?}", q.items);
    }
    // sorted
    for w in q.items.windows(2) {
        ensure!(w[0] < w[1], "unsorted {:?}", q.items);
        let a = u.iter().rposition(|k| matches(&w[0], k));
        let b = u.iter().position(|k| matches(&w[1], k));
        if let (Some(a), Some(b)) = (a, b) {
            ensure!(a < b, "overlap in {:?}", q.items);
        }
    }
    let d: Vec<&QueryItem> = q.directional_iter(true).collect();
    let mut e: Vec<&QueryItem> = q.directional_iter(false).collect();
    e.reverse();
    ensure_eq!(d, e, "directional_iter");
    Ok(())
}

fn enumerate(g: &mut G) -> R {
    let it = item_over(g, |g| g.bytes(0, 2));
    g.note(|| format!("{it:?}"));
    match it.keys() {
        Ok(ks) => {
            ensure_eq!(it.clone().keys_consume().ok(), Some(ks.clone()), "keys_consume of {it:?}");
            ensure!(ks.windows(2).all(|w| w[0] < w[1]), "keys of {it:?} not strictly ascending: {ks:?}");
            g.nontrivial_if(ks.len() > 1);
            if let QueryItem::Key(k) = &it {
                ensure_eq!(ks, vec![k.clone()], "keys of a key");
                return Ok(());
            }
            let want: Vec<Vec<u8>> = std::iter::once(vec![]).chain((0..=255u8).map(|b| vec![b])).filter(|k| matches(&it, k)).collect();
            ensure_eq!(ks, want, "keys of {it:?}");
        }
        Err(_) => {
            ensure!(it.clone().keys_consume().is_err(), "keys_consume of {it:?}");
            let bounded = match &it {
                QueryItem::Key(_) => true,
                QueryItem::Range(r) => r.start.len() <= 1 && r.end.len() == 1,
                QueryItem::RangeInclusive(r) => r.start().len() <= 1 && r.end().len() == 1,
                _ => false,
            };
            ensure!(!bounded, "{it:?} must be enumerable");
        }
    }
    Ok(())
}

/// In-memory iterator with the store's semantics (moving an exhausted iterator does nothing).
struct Mem<'a> {
    keys: &'a [Vec<u8>],
    at: Option<usize>,
}
fn free<T>(t: T) -> CostContext<T> {
    t.wrap_with_cost(OperationCost::default())
}
impl RawIterator for Mem<'_> {
    fn seek_to_first(&mut self) -> CostContext<()> {
        self.at = (!self.keys.is_empty()).then_some(0);
        free(())
    }
    fn seek_to_last(&mut self) -> CostContext<()> {
        self.at = self.keys.len().checked_sub(1);
        free(())
    }
    fn seek<K: AsRef<[u8]>>(&mut self, key: K) -> CostContext<()> {
        self.at = self.keys.iter().position(|k| k.as_slice() >= key.as_ref());
        free(())
    }
    fn seek_for_prev<K: AsRef<[u8]>>(&mut self, key: K) -> CostContext<()> {
        self.at = self.keys.iter().rposition(|k| k.as_slice() <= key.as_ref());
        free(())
    }
    fn next(&mut self) -> CostContext<()> {
        self.at = self.at.and_then(|i| (i + 1 < self.keys.len()).then_some(i + 1));
        free(())
    }
    fn prev(&mut self) -> CostContext<()> {
        self.at = self.at.and_then(|i| i.checked_sub(1));
        free(())
    }
    fn value(&self) -> CostContext<Option<&[u8]>> {
        self.key()
    }
    fn key(&self) -> CostContext<Option<&[u8]>> {
        free(self.at.map(|i| self.keys[i].as_slice()))
    }
    fn valid(&self) -> CostContext<bool> {
        free(self.at.is_some())
    }
}

fn iteration(g: &mut G) -> R {
    let it = item(g);
    let mut keys = g.list(0, 8, |g| small_key(g, 0, 3));
    keys.sort();
    keys.dedup();
    let ltr = g.bool();
    let limit: Option<u16> = if g.chance(1, 3) { Some(g.below(5) as u16) } else { None };
    g.note(|| format!("{it:?} ltr={ltr} limit={limit:?} over {keys:?}"));
    let mut want: Vec<Vec<u8>> = keys.iter().filter(|k| matches(&it, k)).cloned().collect();
    g.nontrivial_if(!want.is_empty() && want.len() < keys.len());
    if !ltr {
        want.reverse();
    }
    want.truncate(limit.unwrap_or(u16::MAX) as usize);
    let mut m = Mem { keys: &keys, at: None };
    let mut got = vec![];
    let mut left = limit;
    it.seek_for_iter(&mut m, ltr).unwrap();
    while it.iter_is_valid_for_type(&m, left, None, ltr).unwrap() {
        got.push(m.key().unwrap().unwrap().to_vec());
        left = left.map(|l| l - 1);
        if ltr {
            m.next().unwrap()
        } else {
            m.prev().unwrap()
        }
        ensure!(got.len() <= keys.len(), "iteration of {it:?} runs away");
    }
    ensure_eq!(got, want, "walking {keys:?} by {it:?} ltr={ltr}");
    ensure!(!it.iter_is_valid_for_type(&m, Some(0), None, ltr).unwrap(), "valid at limit 0");
    ensure!(!it.iter_is_valid_for_type(&m, None, Some(0), ltr).unwrap(), "valid at aggregate limit 0");
    Ok(())
}

fn splitting(g: &mut G) -> R {
    let items: Vec<QueryItem> = g.list(1, 5, |g| item(g)).into_iter().filter(|i| !degenerate(i)).collect();
    let key = small_key(g, 0, 3);
    let (p, params) = ProofItems::new_with_query_items(&items, true);
    ensure!(params.left_to_right, "direction");
    g.note(|| format!("{items:?} at {key:?}"));
    let (found, boundary, left, right) = p.process_key(&key);
    let u = universe();
    let has = items.iter().any(|i| matches(i, &key));
    g.nontrivial_if(!left.has_no_query_items() && !right.has_no_query_items());
    ensure_eq!(found, has, "{items:?} at {key:?}");
    let on_excl = items.iter().any(|i| {
        !i.is_key()
            && ((i.lower_bound().1 && i.lower_bound().0 == Some(key.as_slice()))
                || (!i.upper_bound().1 && i.upper_bound().0 == Some(key.as_slice())))
    });
    if !found {
        ensure_eq!(boundary, on_excl, "boundary flag of {items:?} at {key:?}");
    }
    // walking down: each side must still find every key it can hold
    for k in &u {
        let want = items.iter().any(|i| matches(i, k));
        let side = match k.cmp(&key) {
            Ordering::Less => &left,
            Ordering::Greater => &right,
            Ordering::Equal => continue,
        };
        let got = side.process_key(k).0;
        ensure_eq!(got, want, "{items:?} split at {key:?}: {k:?}");
        if want {
            ensure!(!side.has_no_query_items(), "side empty but {k:?} wanted");
        }
    }
    Ok(())
}

pub fn sections() -> Vec<Section> {
    vec![
        section("contains", "one item of any of the ten kinds and keys around its bounds; non-trivial: some keys in, some out", 100_000, 2_000_000, contains),
        section("pairs", "two non-empty items, compared over 85 keys; non-trivial: they overlap and differ", 200_000, 3_000_000, pairs),
        section("many", "two ordered lists of disjoint items; non-trivial: more than two items with common keys", 150_000, 2_000_000, many),
        section("insertion", "a sequence of item insertions; non-trivial: some merged and more than one left", 200_000, 3_000_000, insertion),
        section("enumerate", "enumeration of distinct keys; non-trivial: more than one key", 40_000, 300_000, enumerate),
        section("iteration", "an item walked over an ordered store in either direction; non-trivial: part of the keys match", 300_000, 4_000_000, iteration),
        section("splitting", "proof items split at a key; non-trivial: both sides keep items", 150_000, 2_000_000, splitting),
    ]
}
