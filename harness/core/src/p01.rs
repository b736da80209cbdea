//! P01: every representation of a subtree path behaves as the same list of segments.
use grovedb_path::{SubtreePath, SubtreePathBuilder};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use vp::*;

type Model = Vec<Vec<u8>>;

fn seg(g: &mut G) -> Vec<u8> {
    match g.below(8) {
        0 => vec![],
        1 => g.bytes(1, 12),
        2 => { let n = g.size(200, 300); g.blob(n) }
        3 => b"a_B-9/".to_vec(),
        _ => vec![b'a' + g.below(3) as u8; g.size(1, 2)],
    }
}

struct H(Vec<u8>);
impl Hasher for H {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
}
fn hash(x: &impl Hash) -> Vec<u8> {
    let mut h = H(vec![]);
    x.hash(&mut h);
    h.0
}

fn shown(m: &Model) -> String {
    m.iter()
        .map(|s| {
            if s.iter().all(|c| c.is_ascii_alphanumeric() || b"_-/\\[]@".contains(c)) {
                String::from_utf8(s.clone()).unwrap()
            } else {
                format!("0x{}", hex(s))
            }
        })
        .collect::<Vec<_>>()
        .join("/")
}

/// The same list in its plainest representation.
fn check_path(p: &SubtreePath<Vec<u8>>, m: &Model, how: &str) -> R {
    ensure_eq!(p.to_vec(), *m, "to_vec, {how}");
    ensure_eq!(p.len(), m.len(), "len, {how}");
    ensure_eq!(p.is_empty(), m.is_empty(), "is_empty, {how}");
    ensure_eq!(p.is_root(), m.is_empty(), "is_root, {how}");
    // an iterator that never ends must not hang the check
    let rev: Model = p.clone().into_reverse_iter().take(m.len() + 2).map(|s| s.to_vec()).collect();
    ensure!(rev.iter().eq(m.iter().rev()), "reverse iteration {rev:?} of {m:?}, {how}");
    ensure_eq!(p.to_string(), shown(m), "display, {how}");
    let plain = SubtreePath::from(m.as_slice());
    ensure!(*p == plain && plain == *p, "equality with the plain path, {how}");
    ensure_eq!(p.cmp(&plain), Ordering::Equal, "order, {how}");
    ensure!(hash(p) == hash(&plain), "hash of {m:?}, {how}");
    let mut other = m.clone();
    other.push(vec![]);
    ensure!(*p != SubtreePath::from(other.as_slice()), "equal to a child, {how}");
    ensure!(hash(p) != hash(&SubtreePath::from(other.as_slice())), "hash of a child, {how}");
    match p.derive_parent() {
        None => ensure!(m.is_empty(), "no parent for {m:?}, {how}"),
        Some((q, k)) => {
            ensure_eq!(Some(k), m.last().map(|s| s.as_slice()), "last segment, {how}");
            ensure_eq!(q.to_vec(), m[..m.len() - 1], "parent, {how}");
            ensure_eq!(q.is_root(), m.len() == 1, "parent is root, {how}");
            ensure_eq!(q.len(), m.len() - 1, "parent length, {how}");
            ensure!(*p < q && q > *p, "deeper paths come first, {how}");
        }
    }
    Ok(())
}

fn check_builder(b: &SubtreePathBuilder<Vec<u8>>, m: &Model, how: &str) -> R {
    ensure_eq!(b.to_vec(), *m, "builder to_vec, {how}");
    ensure_eq!(b.len(), m.len(), "builder len, {how}");
    ensure_eq!(b.is_empty(), m.is_empty(), "builder is_empty, {how}");
    ensure_eq!(b.is_root(), m.is_empty(), "builder is_root, {how}");
    let rev: Model = b.reverse_iter().take(m.len() + 2).map(|s| s.to_vec()).collect();
    ensure!(rev.iter().eq(m.iter().rev()), "builder reverse iteration of {m:?}, {how}");
    let plain = SubtreePath::from(m.as_slice());
    ensure!(*b == plain && plain == *b && *b == plain.derive_owned(), "builder equality, {how}");
    ensure_eq!(b.cmp(&plain.derive_owned()), Ordering::Equal, "builder order, {how}");
    ensure!(hash(b) == hash(&plain), "builder hash, {how}");
    match b.derive_parent_owned() {
        None => ensure!(m.is_empty(), "no owned parent, {how}"),
        Some((q, k)) => {
            ensure_eq!(Some(&k), m.last(), "owned parent's segment, {how}");
            ensure_eq!(q.to_vec(), m[..m.len() - 1], "owned parent, {how}");
            ensure_eq!(q.is_root(), m.len() == 1, "owned parent is root, {how}");
            ensure_eq!(q.is_empty(), m.len() == 1, "owned parent is empty, {how}");
        }
    }
    match b.derive_parent() {
        None => ensure!(m.is_empty(), "no parent, {how}"),
        Some((q, k)) => {
            ensure_eq!(Some(k), m.last().map(|s| s.as_slice()), "parent's segment, {how}");
            ensure_eq!(q.to_vec(), m[..m.len() - 1], "builder's parent, {how}");
        }
    }
    check_path(&SubtreePath::from(b), m, how)
}

/// Derives further representations, checking each.
fn walk(g: &mut G, p: SubtreePath<Vec<u8>>, m: &Model, left: u32, how: &str) -> R {
    check_path(&p, m, how)?;
    if left == 0 {
        return Ok(());
    }
    let mut m = m.clone();
    let op = g.below(6);
    let how = format!("{how}.{}", ["parent", "owned", "child", "childref", "copy", "parent_owned"][op as usize]);
    match op {
        0 => {
            let Some((q, _)) = p.derive_parent() else { return Ok(()) };
            m.pop();
            walk(g, q, &m, left - 1, &how)
        }
        1..=3 => {
            let s = seg(g);
            let mut b = match op {
                1 => p.derive_owned(),
                2 => { m.push(s.clone()); p.derive_owned_with_child(s.clone()) }
                _ => { m.push(s.clone()); p.derive_owned_with_child(s.as_slice()) }
            };
            check_builder(&b, &m, &how)?;
            builder_ops(g, &mut b, &mut m, &how)?;
            if g.bool() {
                let c = b.derive_owned();
                check_builder(&c, &m, &how)?;
                let s = seg(g);
                let c = b.derive_owned_with_child(s.clone());
                m.push(s);
                check_builder(&c, &m, &how)?;
                return walk(g, SubtreePath::from(&c), &m, left - 1, &how);
            }
            walk(g, SubtreePath::from(&b), &m, left - 1, &how)
        }
        4 => {
            let mut b: SubtreePathBuilder<Vec<u8>> =
                if g.bool() { SubtreePathBuilder::owned_from_path(p) } else { SubtreePathBuilder::owned_from_iter(m.iter()) };
            check_builder(&b, &m, &how)?;
            builder_ops(g, &mut b, &mut m, &how)?;
            walk(g, SubtreePath::from(&b), &m, left - 1, &how)
        }
        _ => {
            let b = p.derive_owned();
            let Some((mut b, _)) = b.derive_parent_owned() else { return Ok(()) };
            m.pop();
            check_builder(&b, &m, &how)?;
            builder_ops(g, &mut b, &mut m, &how)?;
            walk(g, SubtreePath::from(&b), &m, left - 1, &how)
        }
    }
}

fn builder_ops<'a>(g: &mut G, b: &mut SubtreePathBuilder<'a, Vec<u8>>, m: &mut Model, how: &str) -> R {
    for _ in 0..g.size(0, 3) {
        if g.chance(1, 3) {
            let Some((q, _)) = b.derive_parent_owned() else { continue };
            m.pop();
            *b = q;
        } else {
            let s = seg(g);
            b.push_segment(&s);
            m.push(s);
        }
        check_builder(b, m, how)?;
    }
    check_builder(&b.clone(), m, how)
}

fn representations(g: &mut G) -> R {
    let start: Model = g.list(0, 4, seg);
    let n = g.size(1, 6) as u32;
    g.note(|| format!("from {start:?}"));
    g.nontrivial_if(!start.is_empty() && n > 1);
    walk(g, SubtreePath::from(start.as_slice()), &start, n, "slice")
}

/// Order and equality over triples of paths.
fn order(g: &mut G) -> R {
    let ms: Vec<Model> = (0..3).map(|_| g.list(0, 3, |g| vec![g.below(2) as u8; g.size(0, 2)])).collect();
    g.note(|| format!("{ms:?}"));
    let bs: Vec<SubtreePathBuilder<Vec<u8>>> = ms.iter().map(SubtreePathBuilder::owned_from_iter).collect();
    let ps: Vec<SubtreePath<Vec<u8>>> =
        (0..3).map(|i| if g.bool() { SubtreePath::from(&bs[i]) } else { SubtreePath::from(ms[i].as_slice()) }).collect();
    for i in 0..3 {
        for j in 0..3 {
            let c = ps[i].cmp(&ps[j]);
            ensure_eq!(c == Ordering::Equal, ms[i] == ms[j], "equal order of {:?} {:?}", ms[i], ms[j]);
            ensure_eq!(ps[i] == ps[j], ms[i] == ms[j], "equality of {:?} {:?}", ms[i], ms[j]);
            ensure_eq!(hash(&ps[i]) == hash(&ps[j]), ms[i] == ms[j], "hash of {:?} {:?}", ms[i], ms[j]);
            ensure_eq!(bs[i] == bs[j], ms[i] == ms[j], "builder equality");
            ensure_eq!(bs[i].cmp(&bs[j]), c, "builder order");
            ensure_eq!(ps[j].cmp(&ps[i]), c.reverse(), "antisymmetry of {:?} {:?}", ms[i], ms[j]);
            if ms[i].len() > ms[j].len() {
                ensure_eq!(c, Ordering::Less, "the deeper of {:?} {:?} comes first", ms[i], ms[j]);
            }
            for k in 0..3 {
                if c != Ordering::Greater && ps[j].cmp(&ps[k]) != Ordering::Greater {
                    ensure!(ps[i].cmp(&ps[k]) != Ordering::Greater, "transitivity of {ms:?}");
                }
            }
        }
    }
    g.nontrivial_if(ms[0].len() == ms[1].len() && ms[0] != ms[1]);
    Ok(())
}

pub fn sections() -> Vec<Section> {
    vec![
        section("representations", "a chain of derivations from a path; non-trivial: not from the root and more than one step", 60_000, 3_000_000, representations),
        section("order", "three paths compared; non-trivial: two of the same length that differ", 60_000, 1_000_000, order),
    ]
}
