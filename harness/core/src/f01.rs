//! F01: storage flags survive storage. F02: storage flags account for every byte.
use grovedb_costs::storage_cost::removal::StorageRemovedBytes::{self, *};
use grovedb_costs::storage_cost::StorageCost;
use grovedb_epoch_based_storage_flags::{MergingOwnersStrategy as Strat, StorageFlags};
use std::borrow::Cow;
use std::collections::BTreeMap;
use vp::*;

type Owner = [u8; 32];
/// What flags say: the owner, the first epoch, and the bytes added in later epochs.
#[derive(Clone, Debug, PartialEq, Eq)]
struct M {
    owner: Option<Owner>,
    base: u16,
    map: Option<BTreeMap<u16, u32>>,
}
impl M {
    fn real(&self) -> StorageFlags {
        match (self.owner, self.map.clone()) {
            (None, None) => StorageFlags::SingleEpoch(self.base),
            (None, Some(m)) => StorageFlags::MultiEpoch(self.base, m),
            (Some(o), None) => StorageFlags::SingleEpochOwned(self.base, o),
            (Some(o), Some(m)) => StorageFlags::MultiEpochOwned(self.base, m, o),
        }
    }
    fn of(f: &StorageFlags) -> M {
        match f {
            StorageFlags::SingleEpoch(b) => M { owner: None, base: *b, map: None },
            StorageFlags::MultiEpoch(b, m) => M { owner: None, base: *b, map: Some(m.clone()) },
            StorageFlags::SingleEpochOwned(b, o) => M { owner: Some(*o), base: *b, map: None },
            StorageFlags::MultiEpochOwned(b, m, o) => M { owner: Some(*o), base: *b, map: Some(m.clone()) },
        }
    }
    fn type_byte(&self) -> u8 {
        self.map.is_some() as u8 + 2 * self.owner.is_some() as u8
    }
    fn bytes(&self) -> Vec<u8> {
        let mut b = vec![self.type_byte()];
        b.extend(self.owner.iter().flatten());
        b.extend(self.base.to_be_bytes());
        for (e, n) in self.map.iter().flatten() {
            b.extend(e.to_be_bytes());
            let mut n = *n;
            while n >= 128 {
                b.push(n as u8 | 128);
                n >>= 7;
            }
            b.push(n as u8);
        }
        b
    }
}
fn epoch(g: &mut G) -> u16 {
    match g.below(5) {
        0 => *g.pick(&[0, 1, 255, 256, u16::MAX - 1, u16::MAX]),
        1 => g.below(65536) as u16,
        _ => g.below(6) as u16,
    }
}
fn amount(g: &mut G) -> u32 {
    match g.below(5) {
        0 => *g.pick(&[0, 1, 2, 3, 4, 5, 127, 128, 16383, 16384, 2097151, 2097152, 268435455, 268435456, u32::MAX, u32::MAX - 3]),
        1 => g.below(1 << 32) as u32,
        2 => g.below(10) as u32,
        _ => g.below(400) as u32,
    }
}
fn owner(g: &mut G) -> Option<Owner> {
    match g.below(4) {
        0 | 1 => None,
        2 => Some([g.below(3) as u8; 32]),
        _ => Some(g.hash32()),
    }
}
fn model(g: &mut G) -> M {
    let owner = owner(g);
    let base = epoch(g);
    let map = g.bool().then(|| {
        let mut m = BTreeMap::new();
        for _ in 0..g.size(1, 4) {
            let e = if g.bool() { base.wrapping_add(1 + g.below(4) as u16) } else { epoch(g) };
            m.insert(e, amount(g));
        }
        m
    });
    M { owner, base, map }
}

fn round_trip(g: &mut G) -> R {
    let m = model(g);
    let f = m.real();
    g.note(|| format!("{f:?}"));
    g.nontrivial_if(m.map.is_some() || m.owner.is_some());
    let b = m.bytes();
    ensure!(f.serialize() == b, "stored as {} expected {}", hex(&f.serialize()), hex(&b));
    ensure_eq!(f.serialized_size() as usize, b.len(), "serialized size");
    ensure_eq!(StorageFlags::deserialize(&b).ok().flatten(), Some(f.clone()), "read back");
    ensure_eq!(StorageFlags::from_slice(&b).ok().flatten(), Some(f.clone()), "from_slice");
    ensure_eq!(StorageFlags::from_element_flags_ref(&b).ok().flatten(), Some(f.clone()), "from_element_flags_ref");
    ensure_eq!(StorageFlags::map_some_element_flags_ref(&Some(b.clone())).ok().flatten(), Some(f.clone()), "map_some_element_flags_ref");
    ensure_eq!(StorageFlags::map_cow_some_element_flags_ref(&Some(b.clone())).ok().flatten().map(|c| c.into_owned()), Some(f.clone()), "map_cow_some");
    ensure!(matches!(StorageFlags::map_some_element_flags_ref(&None), Ok(None)), "no flags");
    ensure!(matches!(StorageFlags::map_cow_some_element_flags_ref(&None), Ok(None)), "no flags");
    ensure!(f.to_element_flags() == b && f.to_some_element_flags() == Some(b.clone()), "to_element_flags");
    ensure!(StorageFlags::map_owned_to_element_flags(Some(f.clone())) == b, "map_owned");
    ensure!(StorageFlags::map_owned_to_element_flags(None).is_empty(), "map_owned none");
    ensure!(StorageFlags::map_to_some_element_flags(Some(&f)) == Some(b.clone()), "map_to_some");
    ensure!(StorageFlags::map_to_some_element_flags(None).is_none(), "map_to_some none");
    ensure!(StorageFlags::map_cow_to_some_element_flags(Some(Cow::Borrowed(&f))) == Some(b.clone()), "map_cow_to_some");
    ensure!(StorageFlags::map_borrowed_cow_to_some_element_flags(&Some(Cow::Borrowed(&f))) == Some(b.clone()), "map_borrowed_cow");
    let typed = match m.type_byte() {
        0 => StorageFlags::deserialize_single_epoch(&b),
        1 => StorageFlags::deserialize_multi_epoch(&b),
        2 => StorageFlags::deserialize_single_epoch_owned(&b),
        _ => StorageFlags::deserialize_multi_epoch_owned(&b),
    };
    ensure_eq!(typed.ok(), Some(f.clone()), "read as the kind it is");
    ensure_eq!(f.clone().into_optional_cow().map(|c| c.into_owned()), Some(f.clone()), "into_optional_cow");
    ensure!(StorageFlags::optional_default().is_none() && StorageFlags::optional_default_as_ref().is_none() && StorageFlags::optional_default_as_cow().is_none(), "no flags by default");
    ensure_eq!(f.type_byte(), m.type_byte(), "type byte");
    ensure_eq!(*f.base_epoch(), m.base, "base epoch");
    ensure_eq!(f.owner_id().copied(), m.owner, "owner");
    ensure_eq!(f.epoch_index_map().cloned(), m.map, "epoch map");
    let n = m.map.as_ref().map_or(0, |m| m.len()) as u16;
    let approx = StorageFlags::approximate_size(m.owner.is_some(), m.map.is_some().then_some((n, 5)));
    ensure!(approx >= f.serialized_size(), "approximate size {approx} below {}", b.len());
    ensure_eq!(approx, 3 + 32 * m.owner.is_some() as u32 + 7 * n as u32, "approximate size");
    // changing the owner
    let o = g.hash32();
    let mut f2 = f.clone();
    f2.set_owner_id(o);
    let mut m2 = m.clone();
    if m.owner.is_some() { m2.owner = Some(o) }
    ensure_eq!(M::of(&f2), m2, "set_owner_id");
    ensure_eq!(StorageFlags::new_single_epoch(m.base, m.owner), M { map: None, ..m.clone() }.real(), "new_single_epoch");
    // headers that are cut are refused
    let min = 3 + 32 * m.owner.is_some() as usize + 3 * m.map.is_some() as usize;
    let k = g.range(1, min as u64 - 1) as usize;
    ensure!(StorageFlags::deserialize(&b[..k]).is_err(), "{k} bytes of {}", hex(&b));
    if m.map.is_none() {
        let mut c = b.clone();
        c.push(g.byte());
        ensure!(StorageFlags::deserialize(&c).is_err(), "one byte too many: {}", hex(&c));
    }
    // different flags are stored differently
    let other = model(g);
    ensure_eq!(other.real().serialize() == b, other == m, "{other:?}");
    Ok(())
}

fn any_bytes(g: &mut G) -> R {
    let mut b = if g.bool() { model(g).bytes() } else { g.bytes(0, 50) };
    for _ in 0..g.below(4) {
        if b.is_empty() { break }
        let i = g.below(b.len() as u64) as usize;
        match g.below(4) { 0 => b[i] = g.byte(), 1 => b.truncate(i), 2 => b.insert(i, *g.pick(&[255, 128, 0])), _ => { b.remove(i); } }
    }
    if g.bool() && !b.is_empty() { b[0] %= 5 }
    g.note(|| hex(&b));
    let r = match no_panic(|| StorageFlags::deserialize(&b)) { Ok(r) => r, Err(p) => fail!("panic on {}: {p}", hex(&b)) };
    match r {
        Err(_) => ensure!(!b.is_empty(), "empty flags refused"),
        Ok(None) => ensure!(b.is_empty(), "no flags in {}", hex(&b)),
        Ok(Some(f)) => {
            g.nontrivial();
            let m = M::of(&f);
            ensure_eq!(m.type_byte(), b[0], "type of {}", hex(&b));
            let at = if let Some(o) = m.owner { ensure!(o == b[1..33], "owner of {}", hex(&b)); 33 } else { 1 };
            ensure_eq!(m.base.to_be_bytes(), [b[at], b[at + 1]], "base of {}", hex(&b));
            ensure_eq!(StorageFlags::deserialize(&f.serialize()).ok().flatten(), Some(f.clone()), "again {}", hex(&b));
        }
    }
    for r in [no_panic(|| StorageFlags::deserialize_single_epoch(&b)), no_panic(|| StorageFlags::deserialize_multi_epoch(&b)), no_panic(|| StorageFlags::deserialize_single_epoch_owned(&b)), no_panic(|| StorageFlags::deserialize_multi_epoch_owned(&b))] {
        if let Err(p) = r { fail!("panic on {} read as one kind: {p}", hex(&b)) }
    }
    // anything given as flags during an update is an error, not a panic
    let good = model(g).bytes();
    let cost = StorageCost { added_bytes: g.below(2) as u32 * 5, replaced_bytes: g.below(2) as u32 * 9, removed_bytes: removal(g) };
    let (old, mut new) = if g.bool() { (b, good) } else { (good, b) };
    let _ = match no_panic(|| StorageFlags::update_element_flags(&cost, Some(old.clone()), &mut new)) { Ok(r) => r, Err(p) => fail!("panic updating {}: {p}", hex(&old)) };
    Ok(())
}

// ------------------------------------------------------------------ F02

type Ledger = BTreeMap<(Owner, u16), u64>;
fn ledger(r: &StorageRemovedBytes) -> Result<Ledger, String> {
    let mut l = Ledger::new();
    match r {
        NoStorageRemoval => {}
        BasicStorageRemoval(n) if *n == 0 => {}
        BasicStorageRemoval(_) => return Err(format!("unattributed removal {r:?}")),
        SectionedStorageRemoval(m) => for (o, es) in m { for (e, n) in es.iter() { l.insert((*o, e), *n as u64); } },
    }
    l.retain(|_, n| *n > 0);
    Ok(l)
}
/// Last in, first out; a later epoch keeps its 3 bytes of bookkeeping, the rest is the first epoch's.
fn lifo(m: &M, n: u32) -> Ledger {
    let mut l = Ledger::new();
    let o = m.owner.unwrap_or_default();
    let mut left = n as u64;
    for (e, have) in m.map.iter().flatten().rev() {
        let take = left.min((*have as u64).saturating_sub(3));
        *l.entry((o, *e)).or_default() += take;
        left -= take;
    }
    *l.entry((o, m.base)).or_default() += left;
    l.retain(|_, n| *n > 0);
    l
}
fn split(g: &mut G) -> R {
    let mut m = model(g);
    if let Some(x) = &mut m.map { x.remove(&m.base); if x.is_empty() { m.map = None } }
    let k = if g.bool() { 0 } else { amount(g) };
    let v = amount(g).min(u32::MAX - 3);
    g.note(|| format!("{m:?} remove {k} {v}"));
    g.nontrivial_if(m.map.is_some() && v > 0);
    let f = m.real();
    let want_k: Ledger = if k == 0 { Ledger::new() } else { [((m.owner.unwrap_or_default(), m.base), k as u64)].into() };
    let (rk, rv) = f.split_storage_removed_bytes(k, v);
    ensure_eq!(ledger(&rk), Ok(want_k.clone()), "key removal {rk:?}");
    ensure_eq!(ledger(&rv), Ok(lifo(&m, v)), "value removal of {v}");
    ensure_eq!(rv.total_removed_bytes(), v, "total removed {rv:?}");
    ensure_eq!(rk.total_removed_bytes(), k, "total removed {rk:?}");
    let (sk, sv) = match StorageFlags::split_removal_bytes(&mut m.bytes(), k, v) { Ok(x) => x, Err(e) => fail!("{e}") };
    ensure_eq!((&sk, &sv), (&rk, &rv), "from stored flags");
    let none = StorageFlags::split_removal_bytes(&mut vec![], k, v);
    match none { Ok(x) => ensure_eq!(x, (BasicStorageRemoval(k), BasicStorageRemoval(v)), "no flags"), Err(e) => fail!("no flags: {e}") }
    Ok(())
}

fn removal(g: &mut G) -> StorageRemovedBytes {
    match g.below(4) {
        0 => NoStorageRemoval,
        1 => BasicStorageRemoval(amount(g)),
        _ => {
            let mut m = grovedb_costs::storage_cost::removal::StorageRemovalPerEpochByIdentifier::new();
            for _ in 0..g.size(1, 2) {
                let o = owner(g).unwrap_or_default();
                for _ in 0..g.size(0, 3) { let e = epoch(g); let n = amount(g); m.entry(o).or_default().insert(e, n); }
            }
            SectionedStorageRemoval(m)
        }
    }
}

// reference semantics of combining; None is an error
fn owners(a: &M, b: &M, s: Strat) -> Option<Option<Owner>> {
    match (a.owner, b.owner) {
        (Some(x), Some(y)) if x != y => match s { Strat::RaiseIssue => None, Strat::UseOurs => Some(Some(x)), Strat::UseTheirs => Some(Some(y)) },
        (x, y) => Some(x.or(y)),
    }
}
fn union(a: &M, b: &M) -> Option<BTreeMap<u16, u32>> {
    match (&a.map, &b.map) {
        (None, None) => None,
        (x, y) => { let mut m = x.clone().unwrap_or_default(); m.extend(y.clone().unwrap_or_default()); Some(m) }
    }
}
fn added(a: &M, b: &M, n: u32, s: Strat) -> Option<M> {
    if a.base > b.base { return None }
    let owner = owners(a, b, s)?;
    let mut map = union(a, b);
    if a.base < b.base {
        let e = map.get_or_insert_with(Default::default).entry(b.base).or_insert(0);
        *e = e.checked_add(n)?;
    }
    Some(M { owner, base: a.base, map })
}
fn removed(a: &M, b: &M, r: &StorageRemovedBytes, s: Strat) -> Option<M> {
    if a.base > b.base { return None }
    if a.base == b.base { return Some(M { owner: owners(a, b, s)?, base: a.base, map: union(a, b) }) }
    if a.map.is_none() { return Some(a.clone()) }
    let owner = owners(a, b, s)?;
    let mut map = union(a, b).unwrap();
    if let SectionedStorageRemoval(by) = r {
        if by.len() > 1 { return None }
        for (e, n) in by.get(&a.owner.unwrap_or_default())?.iter() {
            if e == a.base { continue }
            let left = map.get(&e)?.checked_sub(*n)?;
            if left <= 3 { map.remove(&e); } else { map.insert(e, left); }
        }
    }
    Some(M { owner, base: a.base, map: if map.is_empty() { None } else { Some(map) } })
}

fn combine(g: &mut G) -> R {
    let a = model(g);
    let mut b = model(g);
    if g.bool() { b.base = a.base.saturating_add(g.below(3) as u16) }
    if g.bool() { b.owner = a.owner }
    // owners can be alike but for a bit
    if let (Some(o), true) = (&mut b.owner, g.chance(1, 4)) { o[g.below(32) as usize] ^= 1 << g.below(8) }
    let s = *g.pick(&[Strat::RaiseIssue, Strat::UseOurs, Strat::UseTheirs]);
    let n = amount(g);
    let mut r = removal(g);
    if g.bool() { r = a.real().split_storage_removed_bytes(0, n.min(1 << 30)).1; }
    g.note(|| format!("{a:?} with {b:?} {s:?} +{n} -{r:?}"));
    g.nontrivial_if(a.base <= b.base && (a.map.is_some() || b.map.is_some()));
    let x = a.real().combine_added_bytes(b.real(), n, s);
    ensure_eq!(x.as_ref().ok().map(M::of), added(&a, &b, n, s), "after adding {n}: {x:?}");
    let x = StorageFlags::optional_combine_added_bytes(Some(a.real()), b.real(), n, s);
    ensure_eq!(x.as_ref().ok().map(M::of), added(&a, &b, n, s), "optionally, after adding {n}: {x:?}");
    let y = a.real().combine_removed_bytes(b.real(), &r, s);
    ensure_eq!(y.as_ref().ok().map(M::of), removed(&a, &b, &r, s), "after removing {r:?}: {y:?}");
    let y = StorageFlags::optional_combine_removed_bytes(Some(a.real()), b.real(), &r, s);
    ensure_eq!(y.as_ref().ok().map(M::of), removed(&a, &b, &r, s), "optionally, after removing {r:?}: {y:?}");
    ensure_eq!(StorageFlags::optional_combine_added_bytes(None, b.real(), n, s).ok(), Some(b.real()), "added to nothing");
    ensure_eq!(StorageFlags::optional_combine_removed_bytes(None, b.real(), &r, s).ok(), Some(b.real()), "removed from nothing");
    // through the update callback
    let mut new = b.bytes();
    let cost = StorageCost {
        added_bytes: if g.bool() { n } else { 0 },
        replaced_bytes: g.below(2) as u32 * 40,
        removed_bytes: if g.bool() { r.clone() } else { NoStorageRemoval },
    };
    let rem = cost.removed_bytes.has_removal();
    let want: Option<M> = match (cost.added_bytes > 0, rem, cost.replaced_bytes > 0) {
        (true, false, true) => added(&a, &b, n, Strat::UseTheirs),
        (false, true, true) => removed(&a, &b, &r, Strat::UseTheirs),
        (false, false, true) => Some(a.clone()),
        _ => Some(b.clone()),
    };
    let before = new.clone();
    let got = StorageFlags::update_element_flags(&cost, Some(a.bytes()), &mut new);
    match (&got, &want) {
        (Ok(changed), Some(w)) => {
            ensure!(new == w.bytes(), "updated flags {} expected {} for {cost:?}", hex(&new), hex(&w.bytes()));
            ensure!(*changed || new == before, "flags changed silently");
            let same = !rem && cost.added_bytes == 0 && cost.replaced_bytes > 0;
            ensure!(same || *changed == (new != before), "reported {changed}");
        }
        (Err(_), None) => {}
        (x, w) => fail!("update gave {x:?} expected {w:?} for {cost:?}"),
    }
    let mut new = b.bytes();
    ensure!(matches!(StorageFlags::update_element_flags(&cost, None, &mut new), Ok(false)) && new == b.bytes(), "no flags before");
    let mut empty = vec![];
    ensure!(StorageFlags::update_element_flags(&cost, Some(a.bytes()), &mut empty).is_err(), "dropping flags was allowed");
    ensure!(StorageFlags::update_element_flags(&cost, Some(vec![]), &mut new).is_err(), "empty old flags were accepted");
    Ok(())
}

/// A value grows and shrinks over the epochs, and is deleted: every byte paid in a later epoch is refunded at most once,
/// from the epoch it was paid in, newest first.
fn history(g: &mut G) -> R {
    let own = owner(g);
    let mut ep = g.below(5) as u16;
    let mut m = M { owner: own, base: ep, map: None };
    let mut flags = m.bytes();
    let mut size = g.range(50, 2000) as u32;
    let mut log = format!("{m:?} {size}");
    let mut multi = 0;
    for _ in 0..g.size(1, 12) {
        if g.chance(2, 3) { ep += g.below(3) as u16 }
        let now = M { owner: own, base: ep, map: None };
        let mut new = now.bytes();
        let d = g.below(300) as u32;
        match g.below(3) {
            0 => {
                log += &format!("; +{d}@{ep}");
                let cost = StorageCost { added_bytes: d, replaced_bytes: size, removed_bytes: NoStorageRemoval };
                if let Err(e) = StorageFlags::update_element_flags(&cost, Some(flags.clone()), &mut new) { fail!("{log}: {e}") }
                size += d;
                if d > 0 && ep > m.base { *m.map.get_or_insert_with(Default::default).entry(ep).or_insert(0) += d; }
            }
            _ => {
                let d = d.min(size - 1);
                log += &format!("; -{d}@{ep}");
                let r = match StorageFlags::split_removal_bytes(&mut flags.clone(), 0, d) { Ok(r) => r, Err(e) => fail!("{log}: {e}") };
                let l = lifo(&m, d);
                ensure_eq!(ledger(&r.1), Ok(l.clone()), "{log}: refund");
                let cost = StorageCost { added_bytes: 0, replaced_bytes: size - d, removed_bytes: r.1 };
                if let Err(e) = StorageFlags::update_element_flags(&cost, Some(flags.clone()), &mut new) { fail!("{log}: {e}") }
                size -= d;
                if ep > m.base {
                    if let Some(map) = &mut m.map {
                        for ((_, e), n) in l { if e != m.base { *map.get_mut(&e).unwrap() -= n as u32; } }


                    }
                    // compared below up to epochs that hold only bookkeeping bytes
                }
            }
        }
        let f = match StorageFlags::deserialize(&new) { Ok(Some(f)) => f, x => fail!("{log}: flags became {x:?}") };
        let (mut x, mut y) = (M::of(&f), m.clone());
        for z in [&mut x, &mut y] {
            if let Some(p) = &mut z.map { p.retain(|_, n| *n > 3); if p.is_empty() { z.map = None } }
        }
        ensure_eq!(x, y, "{log}: flags");
        m = M::of(&f);
        multi += m.map.is_some() as u32;
        flags = new;
    }
    g.nontrivial_if(multi > 1);
    g.note(|| log.clone());
    let (k, v) = match StorageFlags::split_removal_bytes(&mut flags.clone(), 37, size) { Ok(r) => r, Err(e) => fail!("{log}: {e}") };
    ensure_eq!(k.total_removed_bytes() + v.total_removed_bytes(), 37 + size, "{log}: refund on deletion");
    ensure_eq!(ledger(&v), Ok(lifo(&m, size)), "{log}: deletion");
    Ok(())
}

pub fn f01() -> Vec<Section> {
    vec![
        section("round_trip", "several epochs or an owner", 80_000, 2_000_000, round_trip),
        section("any_bytes", "bytes that decode to flags", 80_000, 2_000_000, any_bytes),
    ]
}
pub fn f02() -> Vec<Section> {
    vec![
        section("split", "a removal from flags with several epochs", 80_000, 2_000_000, split),
        section("combine", "a legal combination with several epochs", 80_000, 2_000_000, combine),
        section("history", "at least two states with several epochs", 40_000, 1_000_000, history),
    ]
}
