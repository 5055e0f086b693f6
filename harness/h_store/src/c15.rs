//! Key-value stores.

use crate::simdisk;
use pbt::*;
use std::{
    collections::BTreeMap,
    path::PathBuf,
    sync::atomic::{AtomicU64, Ordering},
};
use storage_core::{
    backend::{BackendImpl, ReadOps, SharedBackendImpl, TxRw as _, WriteOps},
    types::construct::db_desc,
    util::{MapPrefixIter, SliceRange},
    Backend, Data, DbDesc, DbMapDesc, DbMapId,
};
use storage_inmemory::InMemory;
use storage_sqlite::{Options, Sqlite};

pub const P: Property = Property {
    id: "C15",
    rule: "a case is non-trivial when at least two write transactions ran, one of them committed, and something was read afterwards that an earlier transaction had written, overwritten or deleted (or, for the helper types, when the structure had at least two entries)",
    facets: &[
        facet("inmemory_history", 60000, inmemory_history),
        facet("sqlite_memory_history", 2000, sqlite_memory_history),
        facet("sqlite_file_history", 350, sqlite_file_history),
        facet("sqlite_named", 900, sqlite_named),
        facet("crash_points", 500, crash_points),
        facet("io_errors", 600, io_errors),
        facet("schedules", 4000, schedules).threads(2),
        facet("parallel_reads", 500, parallel_reads).threads(2),
        facet("typed_maps", 2500, crate::c15::typed::typed_maps),
        facet("order_preserving", 20000, crate::c15::typed::order_preserving),
        facet("helpers", 60000, helpers),
    ],
    assumptions: &[
        "a panic in the middle of a write transaction of the in-memory store (which poisons its lock) is not judged; on sqlite it has to act as an abort",
        "map names are identifiers that differ in more than case, as in every schema of the repository",
        "after a power loss, the deletion of a file is taken to have reached the disk at once, 512-byte sectors are taken to be written whole or not at all, and sqlite itself is trusted beyond that",
        "a store whose transaction reported an I/O error is judged after being reopened",
        "the lmdb backend cannot be built in this sandbox and is not covered",
    ],
};

pub mod typed;

// ---- the model: named maps

pub type Map = BTreeMap<Data, Data>;
pub type Model = BTreeMap<String, Map>;

fn desc(names: &[String]) -> DbDesc {
    db_desc(names.iter().map(|n| DbMapDesc::new(n.clone())))
}

const NAMES: [&str; 6] = ["DBAlpha", "DBBeta", "DBGamma", "DBDelta", "DBEps", "DBZeta"];

fn key(g: &mut Gen) -> Data {
    match g.weighted(&[12, 3, 1]) {
        0 => {
            let n = g.weighted(&[1, 4, 5, 3]);
            (0..n).map(|_| *g.pick(&[0u8, 0x61, 0xff, 0xfe, 1])).collect()
        }
        1 => g.bytes(0, 6),
        _ => g.bytes(20, 300),
    }
}
fn value(g: &mut Gen) -> Data {
    match g.weighted(&[10, 3, 1]) {
        0 => vec![g.byte(); g.clone_len()],
        1 => g.bytes(0, 40),
        _ => g.bytes(1000, 6000),
    }
}
trait CloneLen {
    fn clone_len(&mut self) -> usize;
}
impl CloneLen for Gen {
    fn clone_len(&mut self) -> usize {
        self.usize(4)
    }
}

/// All reads about one map agree with the model.
fn dump<T: ReadOps>(t: &T, names: &[String], m: &Model, what: &str) -> Res {
    for (i, n) in names.iter().enumerate() {
        let want: Vec<(Data, Data)> = m[n].clone().into_iter().collect();
        let got: Vec<_> = t.prefix_iter(DbMapId::new(i), vec![]).map_err(|e| format!("{what}: {e}"))?.collect();
        check_eq!(got, want, "{what}: all entries of {n}");
        let got: Vec<_> = t.greater_equal_iter(DbMapId::new(i), vec![]).map_err(|e| format!("{what}: {e}"))?.collect();
        check_eq!(got, want, "{what}: all entries from the empty key of {n}");
    }
    Ok(())
}

/// One read, drawn at random.
fn read<T: ReadOps>(g: &mut Gen, t: &T, names: &[String], m: &Model, what: &str) -> Res {
    let i = g.usize(names.len());
    let (id, n) = (DbMapId::new(i), &names[i]);
    let map = &m[n];
    // often a key that is there
    let k = if !map.is_empty() && g.chance(1, 2) {
        let mut k = map.keys().nth(g.usize(map.len())).unwrap().clone();
        if g.chance(1, 3) && !k.is_empty() {
            k.truncate(g.usize(k.len()));
        }
        k
    } else {
        key(g)
    };
    match g.below(3) {
        0 => {
            let got = t.get(id, &k).map_err(|e| format!("{what}: get: {e}"))?.map(|x| x.to_vec());
            check_eq!(got, map.get(&k).cloned(), "{what}: get {k:x?} in {n}");
        }
        1 => {
            let got: Vec<_> = t.prefix_iter(id, k.clone()).map_err(|e| format!("{what}: prefix: {e}"))?.collect();
            let want: Vec<_> = map.iter().filter(|(x, _)| x.starts_with(&k)).map(|(a, b)| (a.clone(), b.clone())).collect();
            check_eq!(got, want, "{what}: prefix {k:x?} in {n}");
        }
        _ => {
            let got: Vec<_> = t.greater_equal_iter(id, k.clone()).map_err(|e| format!("{what}: from: {e}"))?.collect();
            let want: Vec<_> = map.iter().filter(|(x, _)| **x >= k).map(|(a, b)| (a.clone(), b.clone())).collect();
            check_eq!(got, want, "{what}: from {k:x?} in {n}");
        }
    }
    Ok(())
}

/// Writes drawn at random, with reads between them.
fn write<T: ReadOps + WriteOps>(g: &mut Gen, t: &mut T, names: &[String], m: &mut Model, n_ops: usize, reads: bool) -> Result<usize, String> {
    let mut touched = 0;
    for _ in 0..n_ops {
        if g.exhausted() {
            break;
        }
        let i = g.usize(names.len());
        let (id, n) = (DbMapId::new(i), &names[i]);
        match g.weighted(&[5, 3, 4, 1]) {
            0 => {
                let (k, v) = (key(g), value(g));
                note!(g, "  put {n} {k:x?} = {} bytes", v.len());
                t.put(id, k.clone(), v.clone()).map_err(|e| format!("put: {e}"))?;
                if m.get_mut(n).unwrap().insert(k, v).is_some() {
                    touched += 1;
                }
            }
            1 => {
                let map = &m[n];
                let k = if !map.is_empty() && g.chance(2, 3) { map.keys().nth(g.usize(map.len())).unwrap().clone() } else { key(g) };
                note!(g, "  del {n} {k:x?}");
                t.del(id, &k).map_err(|e| format!("del: {e}"))?;
                if m.get_mut(n).unwrap().remove(&k).is_some() {
                    touched += 1;
                }
            }
            2 if reads => read(g, t, names, m, "in the writing transaction")?,
            _ if reads => dump(t, names, m, "in the writing transaction")?,
            _ => (),
        }
    }
    Ok(touched)
}

fn names(g: &mut Gen) -> Vec<String> {
    let mut all: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
    g.shuffle(&mut all);
    all.truncate(g.urange(1, 4));
    all
}

fn empty(names: &[String]) -> Model {
    names.iter().map(|n| (n.clone(), Map::new())).collect()
}

fn err<E: std::fmt::Display>(what: &'static str) -> impl Fn(E) -> String {
    move |e| format!("{what}: {e}")
}

enum End {
    Commit,
    Drop,
    Panic,
}

/// A write transaction from begin to end.
fn write_tx<I: BackendImpl>(g: &mut Gen, db: &mut I, names: &[String], m: &mut Model, panics: bool) -> Result<(usize, bool), String> {
    let n_ops = g.len(0, 25);
    let size = if g.chance(1, 4) { Some(g.usize(10_000)) } else { None };
    let end = match g.weighted(&[6, 3, 1]) {
        0 => End::Commit,
        1 => End::Drop,
        _ => {
            if panics {
                End::Panic
            } else {
                End::Drop
            }
        }
    };
    note!(g, "write transaction, {}", match end { End::Commit => "committed", End::Drop => "dropped", End::Panic => "dropped by a panic" });
    let mut m1 = m.clone();
    let mut tx = db.transaction_rw(size).map_err(err("begin write"))?;
    let touched = write(g, &mut tx, names, &mut m1, n_ops, true)?;
    match end {
        End::Commit => {
            tx.commit().map_err(err("commit"))?;
            *m = m1;
            Ok((touched, true))
        }
        End::Drop => {
            drop(tx);
            g.tag("aborted");
            Ok((0, false))
        }
        End::Panic => {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                let _tx = tx;
                std::panic::resume_unwind(Box::new(()));
            }));
            assert!(r.is_err());
            g.tag("panicked");
            Ok((0, false))
        }
    }
}

/// Several read transactions at once, in any order of opening and closing.
fn read_txs<I: BackendImpl>(g: &mut Gen, db: &I, names: &[String], m: &Model) -> Res {
    let mut open = vec![];
    for _ in 0..g.urange(1, 8) {
        match g.weighted(&[2, 4, 2]) {
            0 => open.push(db.transaction_ro().map_err(err("begin read"))?),
            1 if !open.is_empty() => {
                let i = g.usize(open.len());
                read(g, &open[i], names, m, "in a reading transaction")?;
            }
            _ if !open.is_empty() => {
                let i = g.usize(open.len());
                if g.bool() {
                    dump(&open[i], names, m, "in a reading transaction")?;
                }
                drop(open.remove(i));
            }
            _ => (),
        }
        g.tag_if(open.len() > 1, "several readers");
    }
    // iterators of two transactions advancing in turns
    if open.len() > 1 {
        let i = g.usize(names.len());
        let (a, b) = (open.pop().unwrap(), open.pop().unwrap());
        let mut x = a.prefix_iter(DbMapId::new(i), vec![]).map_err(err("prefix"))?;
        let mut y = b.greater_equal_iter(DbMapId::new(i), vec![]).map_err(err("from"))?;
        for want in m[&names[i]].iter() {
            check_eq!(x.next(), Some((want.0.clone(), want.1.clone())), "first iterator");
            check_eq!(y.next(), Some((want.0.clone(), want.1.clone())), "second iterator");
        }
        check!(x.next().is_none() && y.next().is_none(), "an iterator goes on after the last entry");
    }
    Ok(())
}

fn history<I: BackendImpl>(
    g: &mut Gen,
    db: &mut Option<I>,
    names: &mut Vec<String>,
    m: &mut Model,
    panics: bool,
    reopen: Option<&dyn Fn(&[String]) -> storage_core::Result<I>>,
) -> Res {
    let mut txs = 0;
    let mut commits = 0;
    let mut touched = 0;
    let mut read_after = false;
    for _ in 0..g.len(2, 14) {
        let d = db.as_mut().unwrap();
        match g.weighted(&[5, 3, 1, if reopen.is_some() { 2 } else { 0 }]) {
            0 => {
                let (t, c) = write_tx(g, d, names, m, panics)?;
                txs += 1;
                commits += usize::from(c);
                touched += t;
            }
            1 => {
                note!(g, "read transactions");
                read_txs(g, d, names, m)?;
                read_after |= touched > 0 && txs > 1;
            }
            2 => dump(&d.transaction_ro().map_err(err("begin read"))?, names, m, "after the last transaction")?,
            _ => {
                // maps keep their contents when the description lists them in another order, and new ones start empty
                drop(db.take());
                g.shuffle(names);
                if g.chance(1, 3) {
                    if let Some(n) = NAMES.iter().find(|n| !names.iter().any(|x| x == *n)) {
                        let at = g.usize(names.len() + 1);
                        names.insert(at, n.to_string());
                        m.entry(n.to_string()).or_default();
                        g.tag("map added");
                    }
                }
                note!(g, "reopen with {names:?}");
                g.tag("reopened");
                *db = Some(reopen.unwrap()(names).map_err(err("reopen"))?);
            }
        }
    }
    let d = db.as_mut().unwrap();
    dump(&d.transaction_ro().map_err(err("begin read"))?, names, m, "at the end")?;
    g.nontrivial_if(txs > 1 && commits > 0 && (read_after || touched > 0));
    g.tag_if(touched > 0, "overwritten or deleted");
    Ok(())
}

fn inmemory_history(g: &mut Gen) -> Res {
    let mut names = names(g);
    let mut m = empty(&names);
    let db = InMemory::new().open(desc(&names)).map_err(err("open"))?;
    let copy = db.clone();
    let mut db = Some(db);
    history(g, &mut db, &mut names, &mut m, false, None)?;
    // a handle cloned at the start sees the same store
    dump(&copy.transaction_ro().map_err(err("begin read"))?, &names, &m, "through a cloned handle")?;
    // and a store opened anew is another store
    let other = InMemory::new().open(desc(&names)).map_err(err("open"))?;
    let t = other.transaction_ro().map_err(err("begin read"))?;
    dump(&t, &names, &empty(&names), "in a new store")
}

fn sqlite_memory_history(g: &mut Gen) -> Res {
    let mut names = names(g);
    let mut m = empty(&names);
    let mut db = Some(Sqlite::new_in_memory().open(desc(&names)).map_err(err("open"))?);
    history(g, &mut db, &mut names, &mut m, true, None)?;
    let other = Sqlite::new_in_memory().open(desc(&names)).map_err(err("open"))?;
    let t = other.transaction_ro().map_err(err("begin read"))?;
    dump(&t, &names, &empty(&names), "in a new store")
}

fn unique() -> u64 {
    static N: AtomicU64 = AtomicU64::new(0);
    N.fetch_add(1, Ordering::Relaxed)
}

fn sqlite_file_history(g: &mut Gen) -> Res {
    let dir = tempfile::tempdir().map_err(err("scratch directory"))?;
    // the directory of the store may not exist yet
    let mut path = dir.path().to_path_buf();
    for _ in 0..g.usize(3) {
        path = path.join("sub");
    }
    let path = path.join("store.db");
    let no_sync = g.chance(4, 5);
    let mut names = names(g);
    let mut m = empty(&names);
    let open = |names: &[String]| {
        let b = Sqlite::new(&path);
        let b = if no_sync { b.with_options(Options { disable_fsync: true }) } else { b };
        b.open(desc(names))
    };
    let mut db = Some(open(&names).map_err(err("open"))?);
    history(g, &mut db, &mut names, &mut m, true, Some(&open))?;
    if g.chance(1, 60) {
        // nobody else gets at the file while it is open
        g.tag("second opening");
        check!(open(&names).is_err(), "a second handle to an open store was given out");
        dump(&db.as_ref().unwrap().transaction_ro().map_err(err("begin read"))?, &names, &m, "after a refused opening")?;
    }
    // copies of the files taken in the middle of a transaction hold what was committed
    if g.chance(1, 3) {
        let mut m1 = m.clone();
        let d = db.as_mut().unwrap();
        let mut tx = d.transaction_rw(None).map_err(err("begin write"))?;
        write(g, &mut tx, &names, &mut m1, 20, false)?;
        let to = dir.path().join("copy");
        std::fs::create_dir_all(&to).map_err(err("copy"))?;
        for e in std::fs::read_dir(path.parent().unwrap()).map_err(err("copy"))? {
            let e = e.map_err(err("copy"))?;
            if e.file_type().map_err(err("copy"))?.is_file() {
                std::fs::copy(e.path(), to.join(e.file_name())).map_err(err("copy"))?;
            }
        }
        drop(tx);
        let copy = Sqlite::new(to.join("store.db")).open(desc(&names)).map_err(err("open the copy"))?;
        let t = copy.transaction_ro().map_err(err("begin read"))?;
        dump(&t, &names, &m, "in a copy taken during a transaction")?;
        g.tag("copied");
    }
    drop(db.take());
    let db = open(&names).map_err(err("reopen"))?;
    let t = db.transaction_ro().map_err(err("begin read"))?;
    dump(&t, &names, &m, "after reopening")
}

/// Named in-memory stores: one store per name while a handle to it lives, gone with the last one.
fn sqlite_named(g: &mut Gen) -> Res {
    let base = unique();
    let pid = std::process::id();
    let labels: Vec<String> = (0..2).map(|i| format!("verif_{pid}_{base}_{i}")).collect();
    let names = names(g);
    let mut models: Vec<Model> = vec![empty(&names); 2];
    let mut handles: Vec<(usize, <Sqlite as Backend>::Impl)> = vec![];
    for _ in 0..g.len(3, 20) {
        match g.weighted(&[3, 3, 3, 2]) {
            0 if handles.len() < 5 => {
                let w = g.usize(2);
                note!(g, "open {w}");
                let h = Sqlite::new_named_in_memory(&labels[w]).open(desc(&names)).map_err(err("open"))?;
                handles.push((w, h));
            }
            1 if !handles.is_empty() => {
                let i = g.usize(handles.len());
                let w = handles[i].0;
                note!(g, "write through handle {i} of {w}");
                let n = g.len(0, 10);
                let mut m1 = models[w].clone();
                let mut tx = handles[i].1.transaction_rw(None).map_err(err("begin write"))?;
                write(g, &mut tx, &names, &mut m1, n, true)?;
                if g.chance(3, 4) {
                    tx.commit().map_err(err("commit"))?;
                    models[w] = m1;
                    g.nontrivial_if(handles.iter().filter(|h| h.0 == w).count() > 1);
                }
            }
            2 if !handles.is_empty() => {
                let i = g.usize(handles.len());
                let (w, h) = &handles[i];
                let t = h.transaction_ro().map_err(err("begin read"))?;
                dump(&t, &names, &models[*w], "through one of several handles")?;
            }
            _ if !handles.is_empty() => {
                let i = g.usize(handles.len());
                let (w, h) = handles.remove(i);
                note!(g, "drop handle {i} of {w}");
                drop(h);
                if !handles.iter().any(|h| h.0 == w) {
                    models[w] = empty(&names);
                    g.tag("last handle gone");
                }
            }
            _ => (),
        }
    }
    for (w, h) in &handles {
        let t = h.transaction_ro().map_err(err("begin read"))?;
        dump(&t, &names, &models[*w], "through one of several handles, at the end")?;
    }
    Ok(())
}

// ---- crashes and I/O errors

struct DiskName(String);
impl DiskName {
    fn new() -> Self {
        DiskName(format!("simdisk-{}-{}", std::process::id(), unique()))
    }
    fn path(&self, root: &std::path::Path) -> PathBuf {
        root.join(&self.0).join("store.db")
    }
}
impl Drop for DiskName {
    fn drop(&mut self) {
        simdisk::remove(&self.0);
    }
}

/// Transactions with, at times, more data than the page cache holds.
fn bulk<T: ReadOps + WriteOps>(g: &mut Gen, t: &mut T, names: &[String], m: &mut Model) -> Result<bool, String> {
    let n_ops = g.len(0, 12);
    write(g, t, names, m, n_ops, false)?;
    if g.chance(1, 12) {
        let b = g.byte();
        let i = g.usize(names.len());
        for k in 0..8u8 {
            let v = vec![b; 400_000];
            t.put(DbMapId::new(i), vec![0xb0, k], v.clone()).map_err(|e| format!("put: {e}"))?;
            m.get_mut(&names[i]).unwrap().insert(vec![0xb0, k], v);
        }
        return Ok(true);
    }
    Ok(false)
}

/// Whatever the moment of a crash, the store holds exactly the transactions committed until then.
fn crash_points(g: &mut Gen) -> Res {
    let root = tempfile::tempdir().map_err(err("scratch directory"))?;
    let name = DiskName::new();
    let disk = simdisk::insert(&name.0, Default::default());
    let names = names(g);
    let no_sync = g.chance(1, 5);
    let open = |p: PathBuf| {
        let b = Sqlite::new(p);
        let b = if no_sync { b.with_options(Options { disable_fsync: true }) } else { b };
        b.open(desc(&names))
    };
    let now = || disk.lock().unwrap().log.len();
    // states of the store: since which event it may hold, from which event it must, and the contents
    let mut states: Vec<(usize, usize, Model)> = vec![(0, 0, empty(&names))];
    let mut m = empty(&names);
    let mut db = open(name.path(root.path())).map_err(err("open"))?;
    let mut commits = 0;
    for _ in 0..g.urange(1, 5) {
        let mut m1 = m.clone();
        let mut tx = db.transaction_rw(None).map_err(err("begin write"))?;
        if bulk(g, &mut tx, &names, &mut m1)? {
            g.tag("more than the cache holds");
        }
        if g.chance(4, 5) {
            let from = now();
            tx.commit().map_err(err("commit"))?;
            let to = now();
            m = m1;
            states.push((from, to, m.clone()));
            commits += 1;
        } else {
            drop(tx);
        }
        if g.chance(1, 8) {
            drop(db);
            db = open(name.path(root.path())).map_err(err("reopen"))?;
        }
    }
    let leave_open = g.bool();
    if leave_open {
        std::mem::forget(db.transaction_ro());
    } else {
        drop(db);
    }
    let log = disk.lock().unwrap().log.clone();
    note!(g, "{commits} commits, {} disk operations, syncs {}", log.len(), if no_sync { "off" } else { "on" });
    g.nontrivial_if(commits > 1);
    for _ in 0..6 {
        let at = match g.below(3) {
            0 if states.len() > 1 => {
                // around a commit
                let i = g.urange(1, states.len() - 1);
                g.urange(states[i].0, states[i].1)
            }
            1 => log.len(),
            _ => g.urange(0, log.len()),
        };
        let power = !no_sync && g.chance(2, 3);
        let files = if power {
            simdisk::after_power_loss(g, &Default::default(), &log[..at])
        } else {
            simdisk::after_process_crash(&Default::default(), &log[..at])
        };
        let what = if power { "a power loss" } else { "a process crash" };
        note!(g, "{what} after {at} disk operations");
        let must = states.iter().rposition(|s| s.1 <= at).unwrap();
        let may = states.iter().rposition(|s| s.0 <= at).unwrap();
        let n2 = DiskName::new();
        simdisk::insert(&n2.0, files);
        let mut db = open(n2.path(root.path())).map_err(|e| format!("opening after {what} at {at}: {e}"))?;
        let mut state = None;
        {
            let t = db.transaction_ro().map_err(err("begin read"))?;
            let mut msgs = vec![];
            for i in must..=may.max(must) {
                match dump(&t, &names, &states[i].2, "after the crash") {
                    Ok(()) => state = Some(i),
                    Err(e) => msgs.push(e.chars().take(300).collect::<String>()),
                }
            }
            check!(
                state.is_some(),
                "after {what} at disk operation {at} of {}, with {must} transactions committed (and {may} begun to commit), the store holds something else: {}",
                log.len(), msgs.join(" / ")
            );
        }
        g.tag_if(at < log.len() && may > must, "crash in a commit");
        // and the store goes on working
        let mut m2 = states[state.unwrap()].2.clone();
        let mut tx = db.transaction_rw(None).map_err(err("begin write after the crash"))?;
        write(g, &mut tx, &names, &mut m2, 3, false)?;
        tx.commit().map_err(err("commit after the crash"))?;
        drop(db);
        let db = open(n2.path(root.path())).map_err(err("reopen after the crash"))?;
        let t = db.transaction_ro().map_err(err("begin read"))?;
        dump(&t, &names, &m2, "after the crash and another transaction")?;
    }
    Ok(())
}

/// An I/O error in a transaction is reported, and the store holds either nothing or (if the commit failed) all of it.
fn io_errors(g: &mut Gen) -> Res {
    let root = tempfile::tempdir().map_err(err("scratch directory"))?;
    let name = DiskName::new();
    let disk = simdisk::insert(&name.0, Default::default());
    let names = names(g);
    let open = || Sqlite::new(name.path(root.path())).open(desc(&names));
    let mut m = empty(&names);
    let mut db = open().map_err(err("open"))?;
    for _ in 0..g.urange(1, 6) {
        let mut m1 = m.clone();
        let faulty = g.chance(2, 3);
        if faulty {
            let mut d = disk.lock().unwrap();
            let at = d.log.len() + g.below(14) as usize;
            let code = *g.pick(&[rusqlite::ffi::SQLITE_IOERR, rusqlite::ffi::SQLITE_FULL]);
            let times = *g.pick(&[1usize, 1, 2, 1000]);
            d.fault = Some((at, code, times));
            d.faults_hit = 0;
        }
        let mut tx = db.transaction_rw(None).map_err(err("begin write"))?;
        let written = bulk(g, &mut tx, &names, &mut m1);
        let (res, committing) = match written {
            Ok(_) if g.chance(5, 6) => (tx.commit().map_err(|e| e.to_string()), true),
            Ok(_) => {
                drop(tx);
                (Err("dropped".into()), false)
            }
            Err(e) => {
                drop(tx);
                (Err(e), false)
            }
        };
        let hit = {
            let mut d = disk.lock().unwrap();
            d.fault = None;
            std::mem::take(&mut d.faults_hit)
        };
        note!(g, "transaction: {res:?}, {hit} disk operations failed");
        g.tag_if(hit > 0, "fault hit");
        g.nontrivial_if(hit > 0);
        match res {
            Ok(()) => m = m1,
            Err(e) => {
                check!(hit > 0 || e == "dropped", "an error without a failed disk operation: {e}");
                if hit > 0 {
                    drop(db);
                    db = open().map_err(err("reopen after an error"))?;
                }
                let t = db.transaction_ro().map_err(err("begin read after an error"))?;
                let old = dump(&t, &names, &m, "after a failed transaction");
                if old.is_err() {
                    check!(committing, "{}", old.unwrap_err());
                    dump(&t, &names, &m1, "after a failed commit")?;
                    m = m1;
                    g.tag("failed commit took effect");
                }
            }
        }
        let t = db.transaction_ro().map_err(err("begin read"))?;
        dump(&t, &names, &m, "after a transaction")?;
        drop(t);
        if g.chance(1, 4) {
            drop(db);
            db = open().map_err(err("reopen"))?;
        }
    }
    drop(db);
    let db = open().map_err(err("reopen"))?;
    let t = db.transaction_ro().map_err(err("begin read"))?;
    dump(&t, &names, &m, "at the end")
}

// ---- schedules

/// Writers and readers on several threads: a reader sees all entries at one and the same version, a dropped transaction
/// is never seen, versions do not go back, and no increment is lost.
fn schedules(g: &mut Gen) -> Res {
    let n_maps = g.urange(1, 3);
    let names: Vec<String> = NAMES[..n_maps].iter().map(|s| s.to_string()).collect();
    let db = InMemory::new().open(desc(&names)).map_err(err("open"))?;
    let n_keys = g.range(1, 4) as u8;
    let writers = g.urange(1, 3);
    let readers = g.urange(1, 3);
    let rounds = g.urange(5, 60);
    let plans: Vec<Vec<(bool, u64)>> = (0..writers).map(|_| (0..rounds).map(|_| (g.chance(3, 4), g.below(30))).collect()).collect();
    let commits: usize = plans.iter().flatten().filter(|p| p.0).count();
    note!(g, "{writers} writers, {readers} readers, {rounds} rounds, {commits} commits");
    g.nontrivial_if(writers > 1 && commits > 1);
    let version = |t: &dyn Fn(DbMapId, &[u8]) -> Option<Data>| -> Result<u32, String> {
        let mut seen: Option<u32> = None;
        for i in 0..n_maps {
            for k in 0..n_keys {
                let v = t(DbMapId::new(i), &[k]).map_or(0, |v| u32::from_le_bytes(v.try_into().unwrap()));
                match seen {
                    None => seen = Some(v),
                    Some(s) => check_eq!(v, s, "map {i} key {k} is at another version than map 0 key 0"),
                }
            }
        }
        Ok(seen.unwrap())
    };
    fn getter<T: ReadOps>(t: &T) -> impl Fn(DbMapId, &[u8]) -> Option<Data> + '_ {
        |i, k| t.get(i, k).unwrap().map(|v| v.to_vec())
    }
    let stop = std::sync::atomic::AtomicBool::new(false);
    let results: Vec<Res> = std::thread::scope(|s| {
        let mut hs = vec![];
        for plan in &plans {
            let db = db.clone();
            let version = &version;
            hs.push(s.spawn(move || -> Res {
                let mut last = 0;
                for (commit, pause) in plan {
                    let mut tx = SharedBackendImpl::transaction_rw(&db, None).map_err(err("begin write"))?;
                    let v = version(&getter(&tx)).map_err(|e| format!("a writer at its start: {e}"))?;
                    check!(v >= last, "a writer saw version {v} after {last}");
                    let new = if *commit { v + 1 } else { 1_000_000 };
                    for i in 0..n_maps {
                        for k in 0..n_keys {
                            tx.put(DbMapId::new(i), vec![k], new.to_le_bytes().to_vec()).map_err(err("put"))?;
                            for _ in 0..*pause {
                                std::hint::spin_loop();
                            }
                        }
                    }
                    check_eq!(version(&getter(&tx)).map_err(|e| format!("a writer: {e}"))?, new, "a writer's own writes");
                    last = v;
                    if *commit {
                        tx.commit().map_err(err("commit"))?;
                        last = new;
                    }
                }
                Ok(())
            }));
        }
        let mut rs = vec![];
        for r in 0..readers {
            let db = db.clone();
            let (version, stop) = (&version, &stop);
            rs.push(s.spawn(move || -> Res {
                let mut last = 0;
                let mut n = 0u32;
                while !stop.load(Ordering::Relaxed) || n == 0 {
                    let tx = db.transaction_ro().map_err(err("begin read"))?;
                    let v = version(&getter(&tx)).map_err(|e| format!("reader {r}: {e}"))?;
                    check!(v >= last, "reader {r} saw version {v} after {last}");
                    check!(v < 1_000_000, "reader {r} saw a transaction that was never committed");
                    std::thread::yield_now();
                    check_eq!(version(&getter(&tx)).map_err(|e| format!("reader {r}: {e}"))?, v, "a second look in the same transaction");
                    drop(tx);
                    last = v;
                    n += 1;
                    std::thread::yield_now();
                }
                Ok(())
            }));
        }
        let mut out: Vec<Res> = hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a writer panicked".into()))).collect();
        stop.store(true, Ordering::Relaxed);
        out.extend(rs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a reader panicked".into()))));
        out
    });
    for r in results {
        r?;
    }
    let tx = db.transaction_ro().map_err(err("begin read"))?;
    check_eq!(version(&getter(&tx))? as usize, commits, "committed increments");
    Ok(())
}

/// Sqlite: read transactions on several threads at once, handed between threads, then writes again.
fn parallel_reads(g: &mut Gen) -> Res {
    let names = names(g);
    let mut m = empty(&names);
    let mut db = Sqlite::new_in_memory().open(desc(&names)).map_err(err("open"))?;
    for _ in 0..g.urange(1, 3) {
        let mut tx = db.transaction_rw(None).map_err(err("begin write"))?;
        let mut m1 = m.clone();
        let n = g.len(1, 30);
        write(g, &mut tx, &names, &mut m1, n, false)?;
        // the transaction moves to another thread
        let (n1, m2) = (&names, &m1);
        std::thread::scope(|s| {
            s.spawn(move || -> Res {
                dump(&tx, n1, m2, "on another thread")?;
                tx.commit().map_err(err("commit"))
            })
            .join()
            .unwrap_or_else(|_| Err("panicked".into()))
        })?;
        m = m1;
        g.nontrivial_if(m.values().map(|x| x.len()).sum::<usize>() > 1);
        let threads = g.urange(2, 4);
        let seeds: Vec<u64> = (0..threads).map(|_| g.seed()).collect();
        let rounds = g.urange(2, 20);
        let (db_ref, names, m) = (&db, &names, &m);
        let rs: Vec<Res> = std::thread::scope(|s| {
            let hs: Vec<_> = seeds
                .iter()
                .map(|seed| {
                    s.spawn(move || -> Res {
                        let mut r = *seed;
                        let mut held = vec![];
                        for _ in 0..rounds {
                            r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                            if held.len() < 3 {
                                held.push(db_ref.transaction_ro().map_err(err("begin read"))?);
                            }
                            let t = &held[(r >> 33) as usize % held.len()];
                            dump(t, names, m, "on one of several threads")?;
                            if r >> 63 == 1 {
                                let i = (r >> 40) as usize % held.len();
                                drop(held.swap_remove(i));
                            }
                        }
                        Ok(())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a reader panicked".into()))).collect()
        });
        for r in rs {
            r?;
        }
    }
    Ok(())
}

// ---- helper types

fn helpers(g: &mut Gen) -> Res {
    let entries = g.vec(0, 20, |g| (key(g), g.byte()));
    let map: BTreeMap<Data, u8> = entries.into_iter().collect();
    g.nontrivial_if(map.len() > 1);
    let p = key(g);
    let got: Vec<_> = MapPrefixIter::new(&map, p.clone()).collect();
    let want: Vec<_> = map.iter().filter(|(k, _)| k.starts_with(&p)).collect();
    check_eq!(got, want, "entries with prefix {p:x?}");
    let (mut a, mut b) = (key(g), key(g));
    if a > b {
        std::mem::swap(&mut a, &mut b);
    }
    use std::ops::Bound::*;
    let bound = |n: u64, x: &'_ [u8]| -> std::ops::Bound<Vec<u8>> {
        match n {
            0 => Unbounded,
            1 => Included(x.to_vec()),
            _ => Excluded(x.to_vec()),
        }
    };
    let (lo, hi) = (bound(g.below(3), &a), bound(g.below(3), &b));
    if !(a == b && matches!(lo, Excluded(_)) && matches!(hi, Excluded(_))) {
        let got: Vec<_> = map
            .range::<[u8], _>(SliceRange { start: lo.as_ref().map(|x| x.as_slice()), end: hi.as_ref().map(|x| x.as_slice()) })
            .collect();
        let want: Vec<_> = map
            .iter()
            .filter(|(k, _)| match &lo {
                Unbounded => true,
                Included(x) => *k >= x,
                Excluded(x) => *k > x,
            } && match &hi {
                Unbounded => true,
                Included(x) => *k <= x,
                Excluded(x) => *k < x,
            })
            .collect();
        check_eq!(got, want, "entries in the range {lo:x?} {hi:x?}");
    }
    // descriptions and per-map data
    let n = g.usize(6);
    let hints: Vec<std::ops::Range<usize>> = (0..n).map(|_| { let a = g.usize(100); a..a + g.usize(100) }).collect();
    let d = db_desc((0..n).map(|i| DbMapDesc::new_with_details(format!("m{i}"), hints[i].clone())));
    check_eq!(d.db_map_count().as_usize(), n, "number of maps");
    let ids: Vec<usize> = d.db_map_count().indices().map(|i| i.as_usize()).collect();
    check_eq!(ids, (0..n).collect::<Vec<_>>(), "map ids");
    let mut data = d.db_maps().transform(|x| x.name().to_owned());
    for i in 0..n {
        check_eq!(data[DbMapId::new(i)], format!("m{i}"), "name of map {i}");
        check_eq!(d.db_maps()[DbMapId::new(i)].value_size_hint().clone(), hints[i], "size hint of map {i}");
    }
    check_eq!(DbMapDesc::new("x").value_size_hint().clone(), 0..usize::MAX, "size hint");
    if n > 0 {
        let i = g.usize(n);
        data[DbMapId::new(i)].push('!');
        let all: Vec<(usize, String)> = data.clone().into_iter_with_id().map(|(i, s)| (i.as_usize(), s)).collect();
        let want: Vec<(usize, String)> = (0..n).map(|k| (k, format!("m{k}{}", if k == i { "!" } else { "" }))).collect();
        check_eq!(all, want, "per-map data after a change of map {i}");
        let bad = g.usize(n + 1);
        let mut calls = 0;
        let r = data.try_transform(|s| {
            calls += 1;
            if calls > bad {
                Err(calls)
            } else {
                Ok(s.len())
            }
        });
        match r {
            Ok(t) => {
                check!(bad >= n, "a failing transformation succeeded");
                for k in 0..n {
                    check_eq!(t[DbMapId::new(k)], data[DbMapId::new(k)].len(), "transformed");
                }
            }
            Err(e) => check_eq!(e, bad + 1, "first error"),
        }
        let fresh = storage_core::DbMapsData::new(d.db_map_count(), |i| i.as_usize() * 3);
        for k in 0..n {
            check_eq!(fresh[DbMapId::new(k)], k * 3, "constructed");
        }
        // names are unique
        let dup = no_panic(|| db_desc((0..n).map(|k| DbMapDesc::new(if k == i { "m0".to_owned() } else { format!("m{k}") }))));
        check_eq!(dup.is_err(), i != 0, "a repeated map name is refused");
    }
    Ok(())
}
