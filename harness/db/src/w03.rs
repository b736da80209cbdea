//! W03: whatever fails and whenever it stops, a grove is as before or as after an operation.
use crate::grove::*;
use crate::hist::*;
use crate::w02;
use grovedb::GroveDb;
use grovedb_version::version::GroveVersion;
use rocksdb::control;
use vp::*;

/// The grove at `dir` is one of `states`.
fn opened(dir: &std::path::Path, states: &[&State], what: &str, v: &GroveVersion) -> R<GroveDb> {
    let db = match no_panic(|| GroveDb::open(dir)) { Ok(Ok(db)) => db, Ok(Err(e)) => fail!("{what}: opening: {e}"), Err(p) => fail!("{what}: opening panicked: {p}") };
    let mut first = None;
    for s in states {
        match compare(&db, s, None, v) { Ok(()) => { first = None; break } Err(f) => { first.get_or_insert(f); } }
    }
    match first { None => Ok(db), Some(f) => fail!("{what}: {}", f.msg) }
}
fn run(db: &GroveDb, o: &Op, tx: grovedb::TransactionArg, v: &GroveVersion) -> R<Result<Out, String>> {
    no_panic(|| real(db, o, tx, v)).map_err(|p| Fail::new("panic", format!("panic: {p}")))
}
fn history(g: &mut G) -> R {
    let v = version(g);
    let mix = Mix { o: Opts { flat_trees: g.chance(1, 2), refs: g.chance(1, 2), ..Opts::default() }, odd: 40, clears: true };
    let mut log: Vec<String> = vec![];
    let r = steps(g, &mix, &mut log, v);
    r.map_err(|f| if f.discard { f } else { Fail::new(f.sig, format!("{}\n  {}", f.msg, log.join("\n  "))) })
}
fn steps(g: &mut G, mix: &Mix, log: &mut Vec<String>, v: &GroveVersion) -> R {
    let mut d = open();
    let mut s = State::default();
    if g.bool() {
        let m = gen_grove(g, &mix.o);
        build(g, &d.db, &m, v)?;
        log.push(format!("from {}", show_map(&m)));
        s.m = m;
        for (p, n) in all(&s.m.clone()) {
            if let V::Ref(t, _) = &n.v { let e = follow(&s.m, t, HOPS).map(|n| n.element()); s.bound.insert(p, e); }
        }
    }
    control::record(&d.path);
    let mut marks = vec![(0, s.clone())];
    let mut checkpoints: Vec<(std::path::PathBuf, GroveDb, State)> = vec![];
    let (mut failed, mut several, mut dirs) = (0, 0, 0);
    for i in 0..24 {
        if i > 0 && g.below(10) == 0 { break }
        match g.weighted(&[8, 3, 1, 1, 4]) {
            // several operations in a transaction
            1 => {
                let tx = d.db.start_transaction();
                log.push("start".into());
                let mut next = s.clone();
                let w = control::writes(&d.path);
                for _ in 0..g.size(1, 5) {
                    let o = gen_op(g, &next, mix);
                    log.push(format!("  {}", show_op(&o)));
                    let want = next.apply(&o);
                    let got = run(&d.db, &o, Some(&tx), v)?;
                    ensure!(want.is_some() == got.is_ok(), "{got:?} instead of {want:?}");
                }
                ensure_eq!(control::writes(&d.path), w, "writes before the commit");
                match g.below(4) {
                    0 => { log.push("drop".into()); drop(tx) }
                    1 => {
                        log.push("commit fails".into());
                        control::fail_after(&d.path, Some(0));
                        let r = no_panic(|| d.db.commit_transaction(tx).unwrap());
                        control::fail_after(&d.path, None);
                        match r { Err(p) => fail!("panic: {p}"), Ok(Ok(())) => ensure!(next == s, "the commit succeeds though its write fails"), Ok(Err(_)) => { failed += 1; g.label("commit failed") } }
                        compare(&d.db, &s, None, v)?;
                    }
                    _ => {
                        log.push("commit".into());
                        if let Err(e) = d.db.commit_transaction(tx).unwrap() { fail!("commit: {e}") }
                        several += (next.m != s.m) as usize;
                        s = next;
                        ensure!(control::writes(&d.path) <= w + 1, "{} writes for one commit", control::writes(&d.path) - w);
                    }
                }
            }
            2 => {
                log.push("checkpoint".into());
                let dir = { let c = d.scratch.dir("checkpoints"); std::fs::create_dir_all(&c).expect("scratch"); c.join(format!("{dirs}")) };
                dirs += 1;
                match no_panic(|| d.db.create_checkpoint(&dir)) { Ok(Ok(())) => {} Ok(Err(e)) => fail!("checkpoint: {e}"), Err(p) => fail!("checkpoint panicked: {p}") }
                let db = match GroveDb::open_checkpoint(&dir) { Ok(db) => db, Err(e) => fail!("opening the checkpoint: {e}") };
                compare(&db, &s, None, v)?;
                checkpoints.push((dir, db, s.clone()));
                g.label("checkpoint");
            }
            3 => {
                // a crash and a restart from what is on disk
                log.push("restart".into());
                let dir = d.scratch.dir(&format!("restart{dirs}"));
                dirs += 1;
                let last = control::recorded(&d.path) - 1;
                control::fork(&d.path, last, &dir);
                let db = opened(&dir, &[&s], "after a restart", v)?;
                // earlier ones can be checked here only
                crashes(g, &d, &marks, v)?;
                d.db = db;
                d.path = dir;
                control::record(&d.path);
                marks = vec![];
                g.label("restart");
            }
            4 => {
                let p = w02::plan(g, &s, &mix.o, true);
                if p.ops.is_empty() || p.bad == Some(w02::FLAT) || p.vague { continue }
                let ops = w02::mix_up(g, &p.ops);
                log.push(format!("batch{}\n    {}", p.bad.map(|b| format!(" (refused: {b})")).unwrap_or_default(), ops.iter().map(w02::show).collect::<Vec<_>>().join("\n    ")));
                let apply = || no_panic(|| d.db.apply_batch(ops.iter().map(w02::op).collect(), Some(p.opts.clone()), None, v).unwrap()).map_err(|p| Fail::new("panic", format!("panic: {p}")));
                if g.chance(1, 3) {
                    control::fail_after(&d.path, Some(0));
                    let r = apply();
                    control::fail_after(&d.path, None);
                    match r? {
                        Ok(()) => ensure!(p.bad.is_none() && p.end == s, "the batch succeeds though its write fails"),
                        Err(_) => { log.push("  (its write failed)".into()); failed += 1; g.label_if(p.bad.is_none(), "write of a batch failed") }
                    }
                    compare(&d.db, &s, None, v)?;
                }
                let w = control::writes(&d.path);
                match (p.bad, apply()?) {
                    (None, Ok(())) => { several += (p.ops.len() > 1) as usize; s = p.end }
                    (Some(_), Err(_)) => {}
                    (None, Err(e)) => fail!("refused: {e}"),
                    (Some(b), Ok(())) => fail!("accepted; expected to be refused: {b}"),
                }
                ensure!(control::writes(&d.path) <= w + 1, "{} writes for one batch", control::writes(&d.path) - w);
            }
            _ => {
                let o = gen_op(g, &s, mix);
                log.push(show_op(&o));
                let mut next = s.clone();
                let want = next.apply(&o);
                if g.chance(1, 3) {
                    control::fail_after(&d.path, Some(0));
                    let r = run(&d.db, &o, None, v);
                    control::fail_after(&d.path, None);
                    match (r?, &want) {
                        (Ok(b), Some(a)) => { ensure_eq!(&b, a, "result"); ensure!(next == s, "the operation succeeds though its write fails") }
                        (Ok(b), None) => fail!("{b:?}, expected to be refused"),
                        (Err(_), _) => { log.push("  (its write failed)".into()); failed += 1; g.label_if(want.is_some(), "write failed") }
                    }
                    compare(&d.db, &s, None, v)?;
                }
                let w = control::writes(&d.path);
                let got = run(&d.db, &o, None, v)?;
                match (&want, &got) {
                    (Some(a), Ok(b)) => ensure_eq!(b, a, "result"),
                    (None, Err(_)) => {}
                    (a, b) => fail!("{b:?} instead of {a:?}"),
                }
                ensure!(control::writes(&d.path) <= w + 1, "{} writes for one operation", control::writes(&d.path) - w);
                if want.is_some() { s = next }
            }
        }
        marks.push((control::recorded(&d.path) - 1, s.clone()));
    }
    compare(&d.db, &s, None, v)?;
    crashes(g, &d, &marks, v)?;
    for (dir, db, s) in checkpoints {
        if let Err(f) = compare(&db, &s, None, v) { fail!("a checkpoint no longer holds what it did: {}", f.msg) }
        drop(db);
        if g.bool() {
            if let Err(e) = GroveDb::delete_checkpoint(&dir) { fail!("deleting a checkpoint: {e}") }
            ensure!(!dir.exists(), "a deleted checkpoint is still there");
        } else {
            // it is a grove of its own
            let db = opened(&dir, &[&s], "a checkpoint opened again", v)?;
            let mut s = s;
            let o = gen_op(g, &s, mix);
            let want = s.apply(&o);
            let got = run(&db, &o, None, v)?;
            ensure!(want.is_some() == got.is_ok(), "on a checkpoint {}: {got:?} instead of {want:?}", show_op(&o));
            compare(&db, &s, None, v)?;
        }
    }
    compare(&d.db, &s, None, v)?;
    g.nontrivial_if(failed > 0 && several > 0);
    Ok(())
}
/// Every write may have been the last: what is on disk then is what was there after some step.
fn crashes(g: &mut G, d: &Db, marks: &[(usize, State)], v: &GroveVersion) -> R {
    let n = control::recorded(&d.path);
    for _ in 0..3 {
        let i = g.below(n as u64) as usize;
        let Some(at) = marks.iter().position(|(m, _)| *m >= i) else { continue };
        let states: Vec<&State> = marks[at.saturating_sub(1)..].iter().take_while(|(m, _)| *m == marks[at].0 || *m <= i).map(|(_, s)| s).collect();
        let dir = d.scratch.dir(&format!("crash{}", g.raw64()));
        if dir.exists() { continue }
        control::fork(&d.path, i, &dir);
        opened(&dir, &states, &format!("after a crash (write {i} of {n})"), v)?;
        g.label("crash");
    }
    Ok(())
}

pub fn sections() -> Vec<Section> {
    vec![section("history", "a write failed, and a transaction or a batch changed something", 7_000, 300_000, history)]
}
