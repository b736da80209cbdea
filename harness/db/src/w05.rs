//! W05: the bytes charged for a grove are those of what it holds, whatever its history.
use crate::grove::*;
use crate::hist::*;
use crate::w02::{self, mix_up, B};
use grovedb::GroveDb;
use grovedb_costs::OperationCost;
use grovedb_version::version::GroveVersion;
use vp::*;

fn net(c: &OperationCost) -> i64 {
    c.storage_cost.added_bytes as i64 - c.storage_cost.removed_bytes.total_removed_bytes() as i64
}
/// What it takes to insert all of it, each element once.
fn fresh_build(m: &Map, v: &GroveVersion) -> R<i64> {
    let d = open();
    let db: &GroveDb = &d.db;
    let mut s = State::default();
    let mut total = 0;
    let nodes = all(m);
    let mut todo: Vec<(Path, &Node)> = nodes.iter().map(|(p, n)| (p.clone(), *n)).collect();
    let mut stuck = 0;
    while !todo.is_empty() {
        let (p, n) = todo.remove(0);
        let (k, dir) = p.split_last().unwrap();
        let tree = Node { v: n.v.clone(), flags: None };
        let n0 = Node { v: match &n.v { V::Tree(k, _) => V::Tree(*k, Map::new()), V::Mmr(_) => V::Mmr(vec![]), V::Bulk(h, _) => V::Bulk(*h, vec![]), V::Dense(h, _) => V::Dense(*h, vec![]), V::Commit(h, _) => V::Commit(*h, vec![]), x => x.clone() }, flags: n.flags.clone() };
        let o = Op::Insert(dir.to_vec(), k.clone(), n0, true, true);
        let mut next = s.clone();
        if next.apply(&o).is_none() {
            stuck += 1;
            if stuck > todo.len() + 1 { return Err(Fail::discard()) }
            todo.push((p, n));
            continue;
        }
        stuck = 0;
        let (c, r) = costly(db, &o, None, v);
        if let Err(e) = r { fail!("rebuild: {e}") }
        total += net(&c);
        s = next;
        if let Some((l, _)) = tree.leaves() {
            for b in l {
                let kind = match &n.v { V::Mmr(_) => V::Mmr(vec![]), V::Bulk(..) => V::Bulk(0, vec![]), V::Dense(..) => V::Dense(0, vec![]), _ => V::Commit(0, vec![]) };
                let o = Op::Append(dir.to_vec(), k.clone(), kind, b.clone());
                let (c, r) = costly(db, &o, None, v);
                if let Err(e) = r { fail!("rebuild: {e}") }
                total += net(&c);
                s.apply(&o);
            }
        }
    }
    Ok(total)
}
/// With `filled`, trees are deleted with all they hold too.
fn history(g: &mut G, filled: bool) -> R {
    let v = version(g);
    let mix = Mix { o: Opts { flat_trees: g.bool(), refs: g.bool(), ..Opts::default() }, odd: 100, clears: false };
    let d = open();
    let db = &d.db;
    let mut log: Vec<String> = vec![];
    let mut run = |g: &mut G| -> R {
        let mut s = State::default();
        let (mut charged, mut changes) = (0i64, 0);
        let tx = g.bool().then(|| db.start_transaction());
        for i in 0..30 {
            if i > 0 && g.below(12) == 0 { break }
            if g.chance(1, 4) {
                let mut p = w02::plan(g, &s, &mix.o, true);
                p.opts.base_root_storage_is_free = true;
                if p.bad.is_some() || p.ops.is_empty() || !filled && p.ops.iter().any(|b| matches!(b, B::DeleteTree(p, k, ..) if at(&s.m, &join(p, k)).is_some_and(|n| n.is_tree() && !n.empty_tree()))) { continue }
                // a plain delete is for what is no tree, and appends are charged by the writes they take
                if p.ops.iter().any(|b| matches!(b, B::Append(..))) || p.ops.iter().any(|b| matches!(b, B::Delete(d, k) if at(&s.m, &join(d, k)).is_some_and(|n| n.is_tree()))) { continue }
                let ops = mix_up(g, &p.ops);
                let r = db.apply_batch(ops.iter().map(w02::op).collect(), Some(p.opts.clone()), tx.as_ref(), v);
                let c = r.cost;
                log.push(format!("batch: +{} ={} -{}\n    {}", c.storage_cost.added_bytes, c.storage_cost.replaced_bytes, c.storage_cost.removed_bytes.total_removed_bytes(), ops.iter().map(w02::show).collect::<Vec<_>>().join("\n    ")));
                match r.value { Ok(()) => {} Err(_) if p.vague => continue, Err(e) => fail!("batch refused: {e}") }
                changes += p.ops.len();
                s = p.end;
                charged += net(&c);
                continue;
            }
            let o = gen_op(g, &s, &mix);
            match &o {
                Op::Clear(..) | Op::PutAux(..) | Op::DelAux(..) => continue,
                Op::Delete(p, k, true, _) if !filled && at(&s.m, &join(p, k)).is_some_and(|n| n.is_tree() && !n.empty_tree()) => continue,
                _ => {}
            }
            let mut next = s.clone();
            let want = next.apply(&o);
            let (c, r) = costly(db, &o, tx.as_ref(), v);
            ensure_eq!(r.is_ok(), want.is_some(), "outcome of {}", show_op(&o));
            log.push(format!("{}: +{} ={} -{}", show_op(&o), c.storage_cost.added_bytes, c.storage_cost.replaced_bytes, c.storage_cost.removed_bytes.total_removed_bytes()));
            if want.is_none() { ensure_eq!(net(&c), 0, "a refused operation is charged"); continue }
            changes += (next.m != s.m) as usize;
            s = next;
            charged += net(&c);
        }
        let all = fresh_build(&s.m, v)?;
        // what a deleted tree held goes by its size as stored, not by what was charged for it
        if filled && charged != all { return Err(Fail::new("filled-tree", format!("{charged} bytes charged and not refunded, {all} are due for {}", show_map(&s.m)))) }
        ensure_eq!(charged, all, "charged for a grove of {}", show_map(&s.m));
        g.nontrivial_if(changes > 2);
        Ok(())
    };
    let r = run(g);
    r.map_err(|f| if f.discard { f } else { Fail::new(f.sig, format!("{}\n  {}", f.msg, log.join("\n  "))) })
}
pub fn sections() -> Vec<Section> {
    vec![
        section("history", "three changes or more", 10_000, 1_000_000, |g| history(g, false)),
        section("filled", "three changes or more", 100, 10_000, |g| history(g, true)),
    ]
}
