//! W02: a batch does what its operations do, all of it or nothing.
use crate::grove::*;
use crate::hist::*;
use grovedb::batch::{BatchApplyOptions, QualifiedGroveDbOp, SubelementsDeletionBehavior as Sub};
use grovedb::GroveDb;
use grovedb_element::reference_path::ReferencePathType;
use grovedb_merk::tree_type::TreeType;
use grovedb_version::version::GroveVersion;
use std::collections::BTreeSet;
use vp::*;

pub const FLAT: &str = "no tree of elements there, but one of leaves that the batch inserts";
#[derive(Clone, Debug, PartialEq)]
pub enum How { Any, Replace, New, IfNew, IfNewSkip, Patch(i32) }
#[derive(Clone, Debug)]
pub enum B {
    Put(How, Path, Key, Node),
    Refresh(Path, Key, ReferencePathType, Option<Vec<u8>>, bool),
    Delete(Path, Key),
    DeleteTree(Path, Key, TreeType, Sub),
    Append(Path, V, Vec<u8>),
}
pub fn show(b: &B) -> String {
    let at = |p: &Path, k: &Key| format!("{} [{}]", show_path(p), short(k));
    match b {
        B::Put(h, p, k, n) => format!("{h:?} {} {}", at(p, k), show_node(n)),
        B::Refresh(p, k, r, f, t) => format!("refresh {} {r} {f:?}{}", at(p, k), if *t { " trusted" } else { "" }),
        B::Delete(p, k) => format!("delete {}", at(p, k)),
        B::DeleteTree(p, k, t, s) => format!("delete-tree {} {t:?} {s:?}", at(p, k)),
        B::Append(p, v, b) => format!("append {} as {} {}", show_path(p), show_node(&Node { v: v.clone(), flags: None }), vp::hex(b)),
    }
}
pub fn op(b: &B) -> QualifiedGroveDbOp {
    type Q = QualifiedGroveDbOp;
    match b.clone() {
        B::Put(h, p, k, n) => {
            let e = n.fresh();
            match h {
                How::Any => Q::insert_or_replace_op(p, k, e),
                How::Replace => Q::replace_op(p, k, e),
                How::New => Q::insert_only_known_to_not_already_exist_op(p, k, e),
                How::IfNew => Q::insert_if_not_exists_op(p, k, e),
                How::IfNewSkip => Q::insert_if_not_exists_or_skip_op(p, k, e),
                How::Patch(d) => Q::patch_op(p, k, e, d),
            }
        }
        B::Refresh(p, k, r, f, t) => Q::refresh_reference_op(p, k, r, None, f, t),
        B::Delete(p, k) => Q::delete_op(p, k),
        B::DeleteTree(p, k, t, s) => Q::delete_tree_op(p, k, t, s),
        B::Append(p, v, b) => match v {
            V::Mmr(_) => Q::mmr_tree_append_op(p, b),
            V::Bulk(..) => Q::bulk_append_op(p, b),
            V::Dense(..) => Q::dense_tree_insert_op(p, b),
            _ => Q::commitment_tree_insert_op(p, b[..32].try_into().unwrap(), b[32..64].try_into().unwrap(), b[64..].to_vec()),
        },
    }
}
fn tree_type(n: &Node) -> TreeType {
    match n.v {
        V::Tree(Kind::Plain, _) => TreeType::NormalTree,
        V::Tree(Kind::Sum, _) => TreeType::SumTree,
        V::Tree(Kind::BigSum, _) => TreeType::BigSumTree,
        V::Tree(Kind::Count, _) => TreeType::CountTree,
        V::Tree(Kind::CountSum, _) => TreeType::CountSumTree,
        V::Tree(Kind::PCount, _) => TreeType::ProvableCountTree,
        V::Tree(Kind::PCountSum, _) => TreeType::ProvableCountSumTree,
        V::Mmr(_) => TreeType::MmrTree,
        V::Bulk(h, _) => TreeType::BulkAppendTree(h),
        V::Dense(h, _) => TreeType::DenseAppendOnlyFixedSizeTree(h),
        V::Commit(h, _) => TreeType::CommitmentTree(h),
        _ => TreeType::NormalTree,
    }
}
/// A batch being put together: what was, what will be, and whether it stands.
pub struct Plan<'a> {
    pub start: &'a State,
    pub end: State,
    pub ops: Vec<B>,
    /// Positions the batch says something about.
    used: BTreeSet<Path>,
    gone: BTreeSet<Path>,
    /// Trees that a delete leaves as they are not empty.
    kept: BTreeSet<Path>,
    appended: BTreeSet<Path>,
    refs: Vec<Path>,
    /// Why it is refused.
    pub bad: Option<&'static str>,
    /// An item starts or ends to be one with a sum: with references that is not supported.
    pub vague: bool,
    pub opts: BatchApplyOptions,
}
impl Plan<'_> {
    fn under(&self, p: &[Key], of: &BTreeSet<Path>) -> bool {
        (1..=p.len()).any(|i| of.contains(&p[..i]))
    }
    fn spoil(&mut self, why: &'static str) {
        self.bad.get_or_insert(why);
    }
    fn put(&mut self, g: &mut G, o: &Opts) {
        let (p, k) = place(g, &self.end.m, 60);
        let at_ = join(&p, &k);
        // a tree in the way that holds something would be left behind
        let full = |m: &Map| at(m, &at_).is_some_and(|n| n.is_tree() && !n.empty_tree());
        let keep = self.opts.validate_insertion_does_not_override_tree;
        let node = {
            let parent = kind_at(&self.end.m, &p);
            let n = fresh_node(g, &self.end, &p, &k, o);
            if matches!(n.v, V::Sum(_) | V::ItemSum(..)) && !sums(parent) { return }
            n
        };
        let isref = matches!(node.v, V::Ref(..));
        let there = map_at(&self.start.m, &p).and_then(|m| m.get(&k));
        let how = match g.weighted(&[8, 3, 3, 3, 3, 2]) {
            0 => How::Any, 1 => How::Replace, 2 if there.is_none() => How::New, 3 => How::IfNew, 4 => How::IfNewSkip,
            5 if there.is_some_and(|n| n.is_item()) && node.is_item() => How::Patch(size(&node) - size(there.unwrap())),
            _ => How::Any,
        };
        let cond = matches!(how, How::IfNew | How::IfNewSkip);
        if (full(&self.start.m) || full(&self.end.m)) && (isref || !keep) && !cond { return }
        if self.used.iter().any(|u| u.len() > at_.len() && u.starts_with(&at_)) { return }
        if self.appended.contains(&at_) { return }
        if self.used.contains(&at_) { self.spoil("twice") }
        if k.len() > 255 { self.spoil("long key") }
        if self.under(&p, &self.gone) || self.under(&p, &self.kept) { self.spoil("under a deleted tree") }
        self.ops.push(B::Put(how.clone(), p.clone(), k.clone(), node.clone()));
        self.used.insert(at_.clone());
        let flat = at(&self.end.m, &p).is_some_and(|n| n.leaves().is_some());
        let Some(m) = map_at_mut(&mut self.end.m, &p) else { return self.spoil(if flat && self.used.contains(&p) { FLAT } else { "no tree there" }) };
        if k.len() > 255 { return }
        if there.is_some() {
            if how == How::IfNew || self.opts.validate_insertion_does_not_override { return self.spoil("exists") }
            if keep && !isref && there.unwrap().is_tree() { return self.spoil("a tree exists") }
            if how == How::IfNewSkip { return }
        }
        let sum = |n: &Node| matches!(n.v, V::Sum(_) | V::ItemSum(..));
        if there.is_some_and(|t| sum(t) != sum(&node)) { self.vague = true }
        self.end.bound.remove(&at_);
        m.insert(k, node);
        if isref { self.refs.push(at_) }
    }
    fn remove(&mut self, g: &mut G) {
        let (p, k) = place(g, &self.end.m, 60);
        let at_ = join(&p, &k);
        if k.len() > 255 || self.under(&at_, &self.kept) { return }
        let Some(n) = map_at(&self.end.m, &p).and_then(|m| m.get(&k)).cloned() else {
            if g.chance(7, 8) || self.under(&at_, &self.gone) { return }
            // nothing to delete is no error
            if self.used.contains(&at_) { return }
            self.ops.push(B::Delete(p.clone(), k));
            self.used.insert(at_);
            let flat = at(&self.end.m, &p).is_some_and(|n| n.leaves().is_some());
            if map_at(&self.end.m, &p).is_none() { self.spoil(if flat && self.used.contains(&p) { FLAT } else { "no tree there" }) }
            return;
        };
        if self.used.contains(&at_) || self.appended.contains(&at_) { return }
        // only deletes that empty it may be under a deleted tree
        let below = self.used.iter().chain(&self.appended).filter(|u| u.len() > at_.len() && u.starts_with(&at_));
        if below.clone().any(|u| !self.gone.contains(u)) { return }
        let below = below.count();
        if below > 0 && !n.empty_tree() { return }
        if !n.is_tree() || n.empty_tree() && g.chance(1, 3) {
            self.ops.push(B::Delete(p.clone(), k.clone()));
        } else {
            let how = match g.below(if n.empty_tree() { 4 } else { 3 }) { 0 => Sub::DeleteChildren, 1 => Sub::Error, 2 => Sub::Skip, _ => Sub::DontCheckWithNoCleanup };
            // what was skipped is not told apart from what goes
            if below > 0 && how == Sub::Skip { return }
            self.ops.push(B::DeleteTree(p.clone(), k.clone(), tree_type(&n), how));
            if !n.empty_tree() {
                if how == Sub::Error { self.spoil("not empty") }
                if how == Sub::Skip { self.used.insert(at_.clone()); self.kept.insert(at_); return }
            }
        }
        map_at_mut(&mut self.end.m, &p).unwrap().remove(&k);
        self.used.insert(at_.clone());
        self.gone.insert(at_);
    }
    fn append(&mut self, g: &mut G) {
        let nodes: Vec<(Path, Node)> = all(&self.end.m).into_iter().filter(|(_, n)| n.leaves().is_some()).map(|(p, n)| (p, n.clone())).collect();
        if nodes.is_empty() { return }
        let (p, n) = g.pick(&nodes).clone();
        let like = if g.chance(1, 40) { g.below(4) } else { match n.v { V::Mmr(_) => 0, V::Bulk(..) => 1, V::Dense(..) => 2, _ => 3 } };
        let v = match like { 0 => V::Mmr(vec![]), 1 => V::Bulk(0, vec![]), 2 => V::Dense(0, vec![]), _ => V::Commit(0, vec![]) };
        let b = if like == 3 { let mut v = vec![g.byte(); 280]; v[31] &= 0x3f; v[40] = g.byte(); v } else { g.bytes(0, 4) };
        if self.used.contains(&p) { return }
        if at(&self.start.m, &p).is_none() { return }
        // the same operation twice is taken for a mistake
        if self.ops.iter().any(|o| matches!(o, B::Append(q, w, c) if (q, w, c) == (&p, &v, &b))) { self.spoil("repeated") }
        self.ops.push(B::Append(p.clone(), v.clone(), b.clone()));
        self.appended.insert(p.clone());
        let (k, d) = p.split_last().unwrap();
        if self.end.apply(&Op::Append(d.to_vec(), k.clone(), v, b)).is_none() { self.spoil("not appended") }
    }
    fn refresh(&mut self, g: &mut G) {
        let nodes: Vec<(Path, Path)> = all(&self.start.m).into_iter().filter_map(|(p, n)| match &n.v { V::Ref(t, _) => Some((p, t.clone())), _ => None }).collect();
        if nodes.is_empty() { return }
        let (p, t) = g.pick(&nodes).clone();
        if self.used.contains(&p) || self.under(&p, &self.used) || self.under(&p, &self.gone) { return }
        let Some(n) = at_mut(&mut self.end.m, &p) else { return };
        let V::Ref(..) = n.v else { return };
        let trust = g.bool();
        let (r, f) = (write_ref(g, &p, &t), gen_flags(g));
        let (k, d) = p.split_last().unwrap();
        self.ops.push(B::Refresh(d.to_vec(), k.clone(), r.clone(), f.clone(), trust));
        if trust { *n = Node { v: V::Ref(t, r), flags: f } }
        self.used.insert(p.clone());
        self.refs.push(p);
    }
    /// What references of the batch bind.
    fn settle(&mut self) {
        for p in std::mem::take(&mut self.refs) {
            let Some(Node { v: V::Ref(t, _), .. }) = at(&self.end.m, &p) else { continue };
            match follow(&self.end.m, t, HOPS) {
                Some(n) if !n.is_tree() => { let e = n.element(); self.end.bound.insert(p, Some(e)); }
                _ => self.spoil("a reference to nothing, or to a tree"),
            }
        }
        self.end.tidy();
    }
}
fn size(n: &Node) -> i32 {
    n.element().serialize(latest()).expect("serialized").len() as i32
}
pub fn plan<'a>(g: &mut G, s: &'a State, o: &Opts, refresh: bool) -> Plan<'a> {
    let opts = BatchApplyOptions {
        validate_insertion_does_not_override: g.chance(1, 12),
        validate_insertion_does_not_override_tree: g.bool(),
        base_root_storage_is_free: g.bool(),
        ..Default::default()
    };
    let mut p = Plan { start: s, end: s.clone(), ops: vec![], used: BTreeSet::new(), gone: BTreeSet::new(), kept: BTreeSet::new(), appended: BTreeSet::new(), refs: vec![], bad: None, vague: false, opts };
    for i in 0..24 {
        if i > 0 && g.below(8) == 0 { break }
        match g.weighted(&[10, 4, if o.flat_trees { 3 } else { 0 }, if refresh { 2 } else { 0 }]) {
            0 => p.put(g, o),
            1 => p.remove(g),
            2 => p.append(g),
            _ => p.refresh(g),
        }
    }
    p.settle();
    p
}
/// Any order, but appends to one tree as they come.
pub fn mix_up(g: &mut G, ops: &[B]) -> Vec<B> {
    let mut v: Vec<(usize, B)> = ops.iter().cloned().enumerate().collect();
    for i in (1..v.len()).rev() { let j = g.below(i as u64 + 1) as usize; v.swap(i, i - j) }
    let tree = |b: &B| match b { B::Append(p, ..) => Some(p.clone()), _ => None };
    let places: Vec<usize> = (0..v.len()).filter(|i| tree(&v[*i].1).is_some()).collect();
    let mut a: Vec<(usize, B)> = places.iter().map(|i| v[*i].clone()).collect();
    a.sort_by_key(|x| x.0);
    for (i, x) in places.into_iter().zip(a) { v[i] = x }
    v.into_iter().map(|x| x.1).collect()
}
fn start(g: &mut G, db: &GroveDb, o: &Opts, v: &GroveVersion) -> R<State> {
    let mut s = State::default();
    let m = gen_grove(g, o);
    build(g, db, &m, v)?;
    s.m = m;
    for (p, n) in all(&s.m.clone()) {
        if let V::Ref(t, _) = &n.v { let e = follow(&s.m, t, HOPS).map(|n| n.element()); s.bound.insert(p, e); }
    }
    Ok(s)
}
fn batches(g: &mut G) -> R {
    let v = version(g);
    let o = Opts { flat_trees: g.chance(1, 2), refs: g.chance(2, 3), ..Opts::default() };
    let d = open();
    let db = &d.db;
    let mut log: Vec<String> = vec![];
    let mut run = |g: &mut G| -> R {
        let mut s = start(g, db, &o, v)?;
        log.push(format!("from {}", show_map(&s.m)));
        let mut tx = None;
        let mut before = s.clone();
        let mut done = 0;
        for i in 0..6 {
            if i > 0 && g.below(4) == 0 { break }
            if tx.is_none() && g.chance(1, 4) {
                before = s.clone();
                tx = Some(db.start_transaction());
                log.push("start".into());
            }
            let p = plan(g, &s, &o, true);
            if p.ops.is_empty() { continue }
            let ops = mix_up(g, &p.ops);
            log.push(format!("batch over {} over trees {}{}\n    {}", !p.opts.validate_insertion_does_not_override, !p.opts.validate_insertion_does_not_override_tree,
                p.bad.map(|b| format!(" (refused: {b})")).unwrap_or_default(), ops.iter().map(show).collect::<Vec<_>>().join("\n    ")));
            let hash = db.root_hash(tx.as_ref(), v).unwrap().ok();
            let got = match no_panic(|| db.apply_batch(ops.iter().map(op).collect(), Some(p.opts.clone()), tx.as_ref(), v).unwrap()) { Ok(r) => r, Err(p) => fail!("panic: {p}") };
            match (&p.bad, got) {
                (None, Ok(())) => { if p.ops.len() > 2 { done += 1 } s = p.end }
                (Some(_), Err(_)) => {
                    ensure_eq!(db.root_hash(tx.as_ref(), v).unwrap().ok(), hash, "root hash after a refused batch");
                    g.label("a batch refused");
                }
                (None, Err(e)) if p.vague && e.to_string().starts_with("not supported: going from ") => g.label("not supported"),
                (None, Err(e)) => fail!("refused: {e}"),
                (Some(FLAT), Ok(())) => return Err(Fail::new("flat-tree-of-the-batch", format!("accepted; expected to be refused: {FLAT}"))),
                (Some(b), Ok(())) => fail!("accepted; expected to be refused: {b}"),
            }
            if tx.is_some() && g.chance(1, 3) {
                if g.bool() {
                    log.push("commit".into());
                    if let Err(e) = db.commit_transaction(tx.take().unwrap()).unwrap() { fail!("commit: {e}") }
                } else {
                    log.push("drop".into());
                    tx = None;
                    s = before.clone();
                }
            }
            compare(db, &s, tx.as_ref(), v)?;
            probe(g, db, &s, tx.as_ref(), v)?;
        }
        if let Some(t) = tx { drop(t); compare(db, &before, None, v)? }
        g.nontrivial_if(done > 0);
        Ok(())
    };
    let r = run(g);
    r.map_err(|f| if f.discard { f } else { Fail::new(f.sig, format!("{}\n  {}", f.msg, log.join("\n  "))) })
}

pub fn sections() -> Vec<Section> {
    vec![section("batch", "a batch of three operations or more is applied", 12_000, 400_000, batches)]
}
