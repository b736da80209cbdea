//! C01: cost accounting adds up.
use grovedb_costs::storage_cost::key_value_cost::KeyValueStorageCost;
use grovedb_costs::storage_cost::removal::StorageRemovedBytes::*;
use grovedb_costs::storage_cost::removal::{StorageRemovedBytes, UNKNOWN_EPOCH};
use grovedb_costs::storage_cost::transition::OperationStorageTransitionType as T;
use grovedb_costs::storage_cost::StorageCost;
use grovedb_costs::{CostContext, CostResult, CostsExt, OperationCost, TreeCostType};
use std::collections::BTreeMap;
use vp::*;

type Ledger = BTreeMap<([u8; 32], u16), u32>;

fn bytes(g: &mut G) -> u32 {
    match g.below(6) {
        0 => 0,
        1 => u32::MAX - g.below(3) as u32,
        2 => g.below(u32::MAX as u64) as u32,
        _ => g.below(300) as u32,
    }
}
fn id(g: &mut G) -> [u8; 32] {
    *g.pick(&[[0u8; 32], [1; 32], [255; 32]])
}
fn epoch(g: &mut G) -> u16 {
    *g.pick(&[0, 1, 2, 300, u16::MAX - 1, UNKNOWN_EPOCH])
}
fn removal(g: &mut G, b: fn(&mut G) -> u32) -> StorageRemovedBytes {
    match g.below(4) {
        0 => NoStorageRemoval,
        1 => BasicStorageRemoval(b(g)),
        _ => {
            let mut m = grovedb_costs::storage_cost::removal::StorageRemovalPerEpochByIdentifier::new();
            for _ in 0..g.size(0, 4) {
                let (i, e, v) = (id(g), epoch(g), b(g));
                m.entry(i).or_default().insert(e, v);
            }
            SectionedStorageRemoval(m)
        }
    }
}
fn ledger(r: &StorageRemovedBytes) -> Ledger {
    let mut l = Ledger::new();
    match r {
        NoStorageRemoval => {}
        BasicStorageRemoval(b) => { l.insert(([0; 32], UNKNOWN_EPOCH), *b); }
        SectionedStorageRemoval(m) => {
            for (i, es) in m {
                for (e, v) in es.iter() { l.insert((*i, e), *v); }
            }
        }
    }
    l.retain(|_, v| *v != 0);
    l
}
fn sum(a: &Ledger, b: &Ledger) -> Ledger {
    let mut l = a.clone();
    for (k, v) in b { let e = l.entry(*k).or_insert(0); *e = e.saturating_add(*v); }
    l
}
fn rank(r: &StorageRemovedBytes) -> u8 {
    match r { NoStorageRemoval => 0, BasicStorageRemoval(_) => 1, SectionedStorageRemoval(_) => 2 }
}

fn removals(g: &mut G) -> R {
    let (a, b) = (removal(g, bytes), removal(g, bytes));
    g.note(|| format!("{a:?} + {b:?}"));
    let want = sum(&ledger(&a), &ledger(&b));
    let s = a.clone() + b.clone();
    let mut t = a.clone();
    t += b.clone();
    ensure_eq!(ledger(&s), want, "{a:?} + {b:?}");
    ensure_eq!(ledger(&t), want, "{a:?} += {b:?}");
    ensure_eq!(rank(&s), rank(&a).max(rank(&b)), "kind of {a:?} + {b:?}");
    ensure_eq!(rank(&t), rank(&s), "kind of {a:?} += {b:?}");
    ensure_eq!(s.has_removal(), !want.is_empty(), "has_removal of {s:?}");
    ensure_eq!(ledger(&(b.clone() + a.clone())), want, "{b:?} + {a:?}");
    g.nontrivial_if(rank(&a) > 0 && rank(&b) > 0 && !want.is_empty());
    let total: u64 = want.values().map(|v| *v as u64).sum();
    if total <= u32::MAX as u64 {
        ensure_eq!(s.total_removed_bytes() as u64, total, "total of {s:?}");
        let (ta, tb) = (a.total_removed_bytes(), b.total_removed_bytes());
        ensure_eq!(a.partial_cmp(&b), Some(ta.cmp(&tb)), "order of {a:?} {b:?}");
    }
    Ok(())
}

fn storage_cost(g: &mut G, b: fn(&mut G) -> u32) -> StorageCost {
    StorageCost { added_bytes: b(g), replaced_bytes: b(g), removed_bytes: removal(g, b) }
}
fn op_cost(g: &mut G, b: fn(&mut G) -> u32) -> OperationCost {
    OperationCost {
        seek_count: b(g),
        storage_cost: storage_cost(g, b),
        storage_loaded_bytes: if g.bool() { b(g) as u64 } else { g.u64b() },
        hash_node_calls: b(g),
        sinsemilla_hash_calls: b(g),
    }
}
fn small(g: &mut G) -> u32 { g.below(4) as u32 }
#[derive(PartialEq, Debug, Clone)]
struct Flat([u64; 6], Ledger);
fn flat(c: &OperationCost) -> Flat {
    Flat(
        [
            c.seek_count as u64,
            c.storage_cost.added_bytes as u64,
            c.storage_cost.replaced_bytes as u64,
            c.storage_loaded_bytes,
            c.hash_node_calls as u64,
            c.sinsemilla_hash_calls as u64,
        ],
        ledger(&c.storage_cost.removed_bytes),
    )
}
fn add(a: &Flat, b: &Flat) -> Flat {
    let mut v = [0; 6];
    for i in 0..6 {
        v[i] = a.0[i].saturating_add(b.0[i]);
        if i != 3 { v[i] = v[i].min(u32::MAX as u64) }
    }
    Flat(v, sum(&a.1, &b.1))
}

fn addition(g: &mut G) -> R {
    let (a, b) = (op_cost(g, bytes), op_cost(g, bytes));
    g.note(|| format!("{a:?} + {b:?}"));
    let want = add(&flat(&a), &flat(&b));
    ensure_eq!(flat(&(a.clone() + b.clone())), want, "{a:?} + {b:?}");
    let mut t = a.clone();
    t += b.clone();
    ensure_eq!(flat(&t), want, "{a:?} += {b:?}");
    g.nontrivial_if(!a.is_nothing() && !b.is_nothing());
    ensure!(OperationCost::default().is_nothing(), "default");
    ensure_eq!(flat(&(a.clone() + OperationCost::default())), flat(&a), "{a:?} + 0");
    let k = KeyValueStorageCost {
        key_storage_cost: a.storage_cost.clone(),
        value_storage_cost: b.storage_cost.clone(),
        new_node: g.bool(),
        needs_value_verification: g.bool(),
    };
    let l = KeyValueStorageCost {
        key_storage_cost: b.storage_cost.clone(),
        value_storage_cost: a.storage_cost.clone(),
        new_node: g.bool(),
        needs_value_verification: g.bool(),
    };
    let s = k.clone() + l.clone();
    let mut t = k.clone();
    t += l.clone();
    for (x, how) in [(s, "+"), (t, "+=")] {
        for (part, w) in [(&x.key_storage_cost, &want), (&x.value_storage_cost, &want)] {
            ensure_eq!(part.added_bytes as u64, w.0[1], "added, key value {how}");
            ensure_eq!(part.replaced_bytes as u64, w.0[2], "replaced, key value {how}");
            ensure_eq!(ledger(&part.removed_bytes), w.1, "removed, key value {how}");
        }
        ensure_eq!(x.new_node, k.new_node && l.new_node, "new_node {how}");
        ensure_eq!(x.needs_value_verification, k.needs_value_verification && l.needs_value_verification, "verification {how}");
    }
    ensure_eq!(ledger(&k.combined_removed_bytes()), want.1, "combined removal");
    // costs of one kind alone
    let (n, m) = (bytes(g), g.u64b());
    let none = OperationCost::default;
    for (c, want) in [
        (OperationCost::with_seek_count(n), OperationCost { seek_count: n, ..none() }),
        (OperationCost::with_hash_node_calls(n), OperationCost { hash_node_calls: n, ..none() }),
        (OperationCost::with_storage_loaded_bytes(m), OperationCost { storage_loaded_bytes: m, ..none() }),
        (OperationCost::with_storage_written_bytes(n), OperationCost { storage_cost: StorageCost { added_bytes: n, ..Default::default() }, ..none() }),
        (OperationCost::with_storage_freed_bytes(n), OperationCost { storage_cost: StorageCost { removed_bytes: BasicStorageRemoval(n), ..Default::default() }, ..none() }),
    ] {
        ensure_eq!(c, want, "a cost of one kind");
    }
    Ok(())
}

fn comparing(g: &mut G) -> R {
    let a = op_cost(g, small);
    // mostly comparable pairs
    let mut b = a.clone();
    for _ in 0..g.size(0, 3) {
        match g.below(6) {
            0 => b.seek_count = small(g),
            1 => b.storage_cost.added_bytes = small(g),
            2 => b.storage_cost.replaced_bytes = small(g),
            3 => b.storage_cost.removed_bytes = removal(g, small),
            4 => b.hash_node_calls = small(g),
            _ => b.sinsemilla_hash_calls = small(g),
        }
    }
    if g.chance(1, 4) { b.storage_loaded_bytes = b.storage_loaded_bytes.saturating_add(1) }
    let (fa, fb) = (flat(&a), flat(&b));
    let t = |f: &Flat| f.1.values().sum::<u32>();
    // removing fewer bytes is worse
    let want = (0..6).all(|i| fa.0[i] >= fb.0[i]) && t(&fa) <= t(&fb);
    ensure_eq!(a.worse_or_eq_than(&b), want, "{a:?} worse than {b:?}");
    g.nontrivial_if(fa != fb);
    let s = &a.storage_cost;
    let (add, rep, rem) = (s.added_bytes > 0, s.replaced_bytes > 0, !fa.1.is_empty());
    ensure_eq!(s.has_storage_change(), add || rem, "has_storage_change of {s:?}");
    let got = match s.transition_type() {
        T::OperationInsertNew => "new",
        T::OperationUpdateBiggerSize => "bigger",
        T::OperationUpdateSmallerSize => "smaller",
        T::OperationUpdateSameSize => "same",
        T::OperationReplace => "replace",
        T::OperationDelete => "delete",
        T::OperationNone => "none",
    };
    let want = match (add, rep, rem) {
        (true, _, true) => "replace",
        (true, true, false) => "bigger",
        (true, false, false) => "new",
        (false, true, true) => "smaller",
        (false, false, true) => "delete",
        (false, true, false) => "same",
        (false, false, false) => "none",
    };
    ensure_eq!(got, want, "transition of {s:?}");
    Ok(())
}

/// A pipeline of combinators costs the sum of the steps that ran.
fn pipeline(g: &mut G) -> R {
    let first = op_cost(g, bytes);
    let mut want = flat(&first);
    let mut model: Result<u64, u64> = if g.chance(1, 5) { Err(1) } else { Ok(1) };
    let mut ctx: CostResult<u64, u64> = model.wrap_with_cost(first);
    let n = g.size(1, 6);
    let mut steps = vec![];
    for _ in 0..n {
        let c = op_cost(g, bytes);
        let ok = !g.chance(1, 5);
        let v = g.below(100);
        let out = if ok { Ok(v) } else { Err(v) };
        let op = g.below(12);
        steps.push((op, ok));
        match op {
            0 => { ctx = ctx.map(|r| r.map(|x| x ^ v)); model = model.map(|x| x ^ v); }
            1 => { ctx = ctx.flat_map(|_| out.wrap_with_cost(c.clone())); want = add(&want, &flat(&c)); model = out; }
            2 => { ctx = ctx.map_ok(|x| x + v); model = model.map(|x| x + v); }
            3 => { ctx = ctx.map_err(|x| x + v); model = model.map_err(|x| x + v); }
            4 | 5 => {
                let mut ran = false;
                ctx = ctx.flat_map_ok(|_| { ran = true; out.wrap_with_cost(c.clone()) });
                ensure_eq!(ran, model.is_ok(), "flat_map_ok ran");
                if model.is_ok() { want = add(&want, &flat(&c)); model = out; }
            }
            6 => { ctx = ctx.add_cost(c.clone()); want = add(&want, &flat(&c)); }
            7 => {
                let mut seen = None;
                ctx = ctx.for_ok(|x| seen = Some(*x));
                ensure_eq!(seen, model.ok(), "for_ok");
            }
            8 => {
                let mut acc = c.clone();
                let r = ctx.unwrap_add_cost(&mut acc);
                ensure_eq!(r, model, "unwrap_add_cost");
                want = add(&flat(&c), &want);
                ctx = r.wrap_with_cost(acc);
            }
            9 => {
                let inner: CostResult<Result<u64, u64>, u64> = ctx.map(|r| r.map(|_| out));
                ctx = inner.flatten();
                if model.is_ok() { model = out; }
            }
            10 => {
                let outer: CostContext<CostResult<u64, u64>> = ctx.map(|r| r.wrap_with_cost(c.clone()));
                ctx = outer.flatten();
                want = add(&want, &flat(&c));
            }
            _ => {
                let prev = want.clone();
                ctx = macros(ctx, out, &c, v);
                let m = model;
                want = match m {
                    Err(_) => prev,
                    Ok(_) => add(&prev, &flat(&c)),
                };
                if m.is_ok() { model = out; }
            }
        }
        ensure_eq!(flat(ctx.cost()), want, "cost after {steps:?}");
        ensure_eq!(*ctx.value(), model, "value after {steps:?}");
    }
    g.note(|| format!("{steps:?}"));
    g.nontrivial_if(n > 1 && steps.iter().any(|s| !s.1));
    let r = ctx.cost_as_result();
    match (r, model) {
        (Ok(c), Ok(_)) => ensure_eq!(flat(&c), want, "cost_as_result"),
        (Err(e), Err(f)) => ensure_eq!(e, f, "cost_as_result error"),
        x => fail!("cost_as_result {x:?}"),
    }
    Ok(())
}

fn macros(ctx: CostResult<u64, u64>, out: Result<u64, u64>, c: &OperationCost, v: u64) -> CostResult<u64, u64> {
    let mut cost = OperationCost::default();
    if v % 2 == 0 {
        grovedb_costs::cost_return_on_error!(&mut cost, ctx);
        cost += c.clone();
        let x = grovedb_costs::cost_return_on_error_no_add!(cost, out);
        Ok(x).wrap_with_cost(cost)
    } else {
        grovedb_costs::cost_return_on_error_into!(&mut cost, ctx);
        let x: u64 = grovedb_costs::cost_return_on_error_into!(&mut cost, out.wrap_with_cost(c.clone()));
        Ok(x).wrap_with_cost(cost)
    }
}

fn varint(n: u32) -> u32 {
    match n { 0..=127 => 1, 128..=16383 => 2, 16384..=2097151 => 3, 2097152..=268435455 => 4, _ => 5 }
}

/// The paid size of a node: its key and value with their length prefixes, and the parent's link to it,
/// whatever children it has at the moment.
fn node_cost(g: &mut G) -> R {
    let key = *g.pick(&[33u32, 34, 64, 95, 96, 160, 287]);
    let inner = match g.below(4) { 0 => g.below(20), 1 => 100 + g.below(60), 2 => 16_200 + g.below(300), _ => g.below(70_000) } as u32;
    let l = g.bool().then(|| (g.below(256) as u32, g.below(20) as u32));
    let r = g.bool().then(|| (g.below(256) as u32, g.below(20) as u32));
    let ft = g.below(4);
    let flen = g.range(1, 17) as u32;
    let feature = |t| match t {
        0 => None,
        1 => Some((TreeCostType::TreeFeatureUsesVarIntCostAs8Bytes, flen)),
        2 => Some((TreeCostType::TreeFeatureUsesTwoVarIntsCostAs16Bytes, flen)),
        _ => Some((TreeCostType::TreeFeatureUses16Bytes, flen)),
    };
    let fcost = [0, 8, 16, 16][ft as usize];
    // encoded length with children and the feature as stored
    let kids = |x: Option<(u32, u32)>| x.map_or(0, |(a, b)| a + b);
    let stored = inner + 2 + kids(l) + kids(r) + if ft > 0 { flen } else { 0 };
    let paid_key = key + varint(key);
    let body = inner + fcost;
    let paid = body + varint(body) + key + 4 + fcost;
    g.note(|| format!("key {key} inner {inner} children {l:?} {r:?} feature {ft}"));
    g.nontrivial_if(ft > 0 && (l.is_some() || r.is_some()));

    // no information: all of it is new
    let mut c = OperationCost::default();
    let base = op_cost(g, small);
    c += base.clone();
    if let Err(e) = c.add_key_value_storage_costs(key, stored, Some((feature(ft), l, r)), None) {
        fail!("refused: {e}");
    }
    let mut want = flat(&base);
    want.0[1] += (paid_key + paid) as u64;
    ensure_eq!(flat(&c), want, "node of key {key} inner {inner}");

    // plain value
    let mut c = OperationCost::default();
    let _ = c.add_key_value_storage_costs(key, stored, None, None);
    ensure_eq!(c.storage_cost.added_bytes, paid_key + stored + varint(stored), "plain value");

    // with information: verified against the true size and charged as stated
    let off = if g.chance(1, 3) { 1 + g.below(3) as u32 } else { 0 };
    let koff = if g.chance(1, 4) { 1 } else { 0 };
    let (new, verify) = (g.bool(), g.chance(2, 3));
    let cut = g.below(paid as u64 + 1) as u32;
    let info = KeyValueStorageCost {
        key_storage_cost: if new {
            StorageCost { added_bytes: paid_key + koff, replaced_bytes: 0, removed_bytes: NoStorageRemoval }
        } else {
            StorageCost { added_bytes: 0, replaced_bytes: paid_key + koff, removed_bytes: NoStorageRemoval }
        },
        value_storage_cost: StorageCost { added_bytes: cut, replaced_bytes: paid - cut + off, removed_bytes: removal(g, small) },
        new_node: new,
        needs_value_verification: verify,
    };
    let mut c = OperationCost::default();
    let r = c.add_key_value_storage_costs(key, stored, Some((feature(ft), l, r)), Some(info.clone()));
    let bad = (new && koff > 0) || (verify && off > 0);
    ensure_eq!(r.is_err(), bad, "key {key} inner {inner} info {new} {verify} {koff} {off}");
    if !bad {
        ensure_eq!(c.storage_cost.added_bytes, info.key_storage_cost.added_bytes + cut, "added");
        ensure_eq!(c.storage_cost.replaced_bytes, info.key_storage_cost.replaced_bytes + paid - cut + off, "replaced");
        ensure_eq!(ledger(&c.storage_cost.removed_bytes), ledger(&info.value_storage_cost.removed_bytes), "removed");
    }
    Ok(())
}

/// Moving the root key: bytes before + added - removed = bytes after.
fn root_cost(g: &mut G) -> R {
    let new = match g.below(3) { 0 => g.below(260), 1 => g.range(120, 132), _ => g.range(16_370, 16_390) } as u32;
    let old = match g.below(4) { 0 => None, 1 => Some(new), 2 => Some(g.range(120, 132) as u32), _ => Some(g.below(20_000) as u32) };
    let c = KeyValueStorageCost::for_updated_root_cost(old, new);
    let size = |n: u32| n + varint(n);
    let v = &c.value_storage_cost;
    let rem = v.removed_bytes.total_removed_bytes();
    g.note(|| format!("{old:?} -> {new}"));
    ensure_eq!(c.new_node, old.is_none(), "new_node");
    ensure!(!c.needs_value_verification, "verification");
    ensure_eq!(v.added_bytes + v.replaced_bytes, size(new), "bytes after, {old:?} -> {new}");
    ensure_eq!(v.replaced_bytes + rem, old.map_or(0, size), "bytes before, {old:?} -> {new}");
    ensure!(v.added_bytes == 0 || rem == 0, "added and removed");
    let k = &c.key_storage_cost;
    ensure_eq!((k.added_bytes, k.replaced_bytes), if old.is_none() { (34, 0) } else { (0, 34) }, "key");
    g.nontrivial_if(old.is_some_and(|o| o != new));
    Ok(())
}

pub fn sections() -> Vec<Section> {
    vec![
        section("removals", "two removals of any kind; non-trivial: both remove something", 100_000, 2_000_000, removals),
        section("addition", "two operation costs; non-trivial: neither is empty", 60_000, 1_000_000, addition),
        section("comparing", "two operation costs; non-trivial: they differ", 100_000, 1_000_000, comparing),
        section("pipeline", "a chain of cost combinators; non-trivial: several steps, one failing", 60_000, 1_000_000, pipeline),
        section("node_cost", "key, value, children and feature sizes of a node; non-trivial: a feature and a child", 100_000, 1_000_000, node_cost),
        section("root_cost", "old and new root key lengths; non-trivial: an update that changes the length", 30_000, 100_000, root_cost),
    ]
}
