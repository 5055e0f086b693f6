//! Errors on their way through the logging helpers.

use logging::log;
use pbt::*;
use std::{cell::RefCell, fmt, sync::Once};
use utils::{
    log_error,
    tap_log::TapLog,
    workspace_path::{relative_src_file_path, workspace_path},
};

pub const P: Property = Property {
    id: "C45",
    rule: "a case is non-trivial when at least one call failed",
    facets: &[
        facet("functions", 40000, functions),
        facet("nested", 30000, nested),
        facet("futures", 30000, futures_facet),
        facet("results", 40000, results),
        facet("paths", 40000, paths),
    ],
    assumptions: &["lines are those of the call expressions in this program; columns are only required to be positive"],
};

type Res = Result<(), String>;

#[derive(Debug, Clone, PartialEq)]
struct Fault(u64, String);

impl fmt::Display for Fault {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "fault {} <{}>", self.0, self.1)
    }
}

#[derive(Debug, Clone)]
struct Rec {
    level: log::Level,
    target: String,
    text: String,
}

thread_local! {
    static LOG: RefCell<Vec<Rec>> = const { RefCell::new(vec![]) };
}

struct Capture;

impl log::Log for Capture {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        LOG.with(|l| l.borrow_mut().push(Rec { level: r.level(), target: r.target().to_owned(), text: r.args().to_string() }));
    }
    fn flush(&self) {}
}

fn fresh() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        log::set_boxed_logger(Box::new(Capture)).expect("no logger yet");
        log::set_max_level(log::LevelFilter::Trace);
    });
    LOG.with(|l| l.borrow_mut().clear());
}

fn taken() -> Vec<Rec> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut())).into_iter().filter(|r| r.target == "log_error" || r.target == "TapLog").collect()
}

/// The next record is the given one.
fn expect(recs: &mut std::vec::IntoIter<Rec>, target: &str, level: log::Level, text: &str, line: u32) -> Res {
    let r = recs.next().ok_or_else(|| format!("no record of {text:?}"))?;
    check!(r.target == target && r.level == level, "record {r:?}, expected {level} of {target}");
    let rest = r.text.strip_prefix(text).ok_or_else(|| format!("record {r:?} does not begin with {text:?}"))?;
    let place = rest.strip_prefix(" (").and_then(|s| s.strip_suffix(')')).ok_or_else(|| format!("no place in {r:?}"))?;
    let mut parts = place.rsplitn(3, ':');
    let (col, ln, file) = (parts.next(), parts.next(), parts.next());
    check!(col.and_then(|c| c.parse::<u32>().ok()).is_some_and(|c| c > 0), "column in {r:?}");
    check_eq!(ln.and_then(|l| l.parse::<u32>().ok()), Some(line), "line in {r:?}");
    check_eq!(file, Some(relative_src_file_path(file!())), "file in {r:?}");
    check!(!file.unwrap_or("").starts_with('/'), "the file is not relative to the workspace: {r:?}");
    Ok(())
}

fn done(mut recs: std::vec::IntoIter<Rec>) -> Res {
    match recs.next() {
        None => Ok(()),
        Some(r) => Err(format!("a record too many: {r:?}")),
    }
}

// ---------------------------------------------------------------- functions under the attribute

type R<T> = Result<T, Fault>;

/// Counts its calls; fails as asked.
fn work(count: &mut u32, fail: &Option<Fault>, v: u64) -> R<u64> {
    *count += 1;
    match fail {
        Some(f) => Err(f.clone()),
        None => Ok(v),
    }
}

#[log_error]
fn by_default(count: &mut u32, fail: &Option<Fault>, v: u64) -> R<u64> {
    work(count, fail, v)
}

#[log_error(level = "trace")]
fn with_question(count: &mut u32, fail: &Option<Fault>, v: u64) -> R<u64> {
    let x = work(count, fail, v)?;
    Ok(x)
}

#[log_error(level = "Debug")]
fn early_return(count: &mut u32, fail: &Option<Fault>, v: u64) -> R<u64> {
    if fail.is_some() {
        return work(count, fail, v);
    }
    for i in 0..2 {
        if i == 1 {
            return work(count, fail, v);
        }
    }
    unreachable!()
}

#[log_error(level = "INFO")]
fn owned<T: Clone>(mut x: Vec<T>, y: T, fail: Option<Fault>) -> Result<Vec<T>, Fault> {
    x.push(y);
    match fail {
        Some(f) => Err(f),
        None => Ok(x),
    }
}

#[log_error(level = "warn",)]
#[must_use]
#[inline(never)]
fn boxed(fail: &Option<Fault>) -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
    match fail {
        Some(f) => Err(f.to_string().into()),
        None => Ok(()),
    }
}

struct Holder {
    value: u64,
}

impl Holder {
    #[log_error(level = "error")]
    pub fn method(&mut self, fail: &Option<Fault>, v: u64) -> R<&mut u64> {
        let this = self;
        this.value = v;
        if let Some(f) = fail {
            Err(f.clone())?;
        }
        Ok(&mut this.value)
    }
}

trait Doing {
    fn act(&self, fail: &Option<Fault>) -> R<u64>;
}

impl Doing for Holder {
    #[log_error]
    fn act(&self, fail: &Option<Fault>) -> R<u64> {
        match fail {
            Some(f) => Err(f.clone()),
            None => Ok(self.value),
        }
    }
}

fn fault(g: &mut Gen) -> Option<Fault> {
    g.bool().then(|| Fault(g.u64(), g.text(6)))
}

fn functions(g: &mut Gen) -> Res {
    fresh();
    let mut want: Vec<(log::Level, String, u32)> = vec![];
    for _ in 0..g.range(1, 4) {
        let fail = fault(g);
        let v = g.u64();
        let expected: R<u64> = fail.clone().map_or(Ok(v), Err);
        let text = fail.as_ref().map(|f| f.to_string());
        let mut count = 0;
        let k = g.below(7);
        note!(g, "function {k}, {fail:?}");
        let (got, line, level) = match k {
            0 => (by_default(&mut count, &fail, v), line!(), log::Level::Error),
            1 => (with_question(&mut count, &fail, v), line!(), log::Level::Trace),
            2 => (early_return(&mut count, &fail, v), line!(), log::Level::Debug),
            3 => {
                let (r, line) = (owned(vec![1, 2], v, fail.clone()), line!());
                count = 1;
                if let Ok(r) = &r {
                    check_eq!(r, &vec![1, 2, v], "list returned");
                }
                (r.map(|r| r[2]), line, log::Level::Info)
            }
            4 => {
                let (r, line) = (boxed(&fail), line!());
                count = 1;
                check_eq!(r.as_ref().err().map(|e| e.to_string()), text, "boxed error");
                (r.map(|_| v).map_err(|_| fail.clone().expect("failed")), line, log::Level::Warn)
            }
            5 => {
                let mut h = Holder { value: 0 };
                let (r, line) = (h.method(&fail, v).map(|x| *x), line!());
                count = (h.value == v) as u32;
                (r, line, log::Level::Error)
            }
            _ => {
                let h = Holder { value: v };
                count = 1;
                let d: &dyn Doing = &h;
                // called through a trait object the place is that of the shim: not checked
                if g.bool() {
                    let r = d.act(&fail);
                    check_eq!(r, expected, "through a trait object");
                    let recs = taken();
                    let mut it = recs.into_iter();
                    for (l, t, line) in want.drain(..) {
                        expect(&mut it, "log_error", l, &t, line)?;
                    }
                    let last: Vec<Rec> = it.collect();
                    check_eq!(last.len(), fail.is_some() as usize, "records of a call through a trait object");
                    if let (Some(r), Some(t)) = (last.first(), &text) {
                        check!(r.level == log::Level::Error && r.text.starts_with(t), "record {r:?}");
                    }
                    g.nontrivial_if(fail.is_some());
                    continue;
                }
                (h.act(&fail), line!(), log::Level::Error)
            }
        };
        check_eq!(got, expected, "result");
        check_eq!(count, 1, "times the body ran");
        if let Some(t) = text {
            g.nontrivial();
            want.push((level, t, line));
        }
    }
    let mut it = taken().into_iter();
    for (l, t, line) in want {
        expect(&mut it, "log_error", l, &t, line)?;
    }
    done(it)
}

const INNER_LINE: u32 = line!() + 4;
#[log_error(level = "info")]
fn outer(count: &mut u32, fail: &Option<Fault>, v: u64, swallow: bool) -> R<u64> {
    #[rustfmt::skip]
    let r = by_default(count, fail, v);
    if swallow {
        return Ok(r.unwrap_or(0));
    }
    r
}

#[track_caller]
fn passing_through(count: &mut u32, fail: &Option<Fault>, v: u64) -> R<u64> {
    by_default(count, fail, v)
}

/// Each function logs the place of its own immediate caller.
fn nested(g: &mut Gen) -> Res {
    fresh();
    let fail = fault(g);
    let v = g.u64();
    let swallow = g.bool();
    g.nontrivial_if(fail.is_some());
    let mut count = 0;
    let (got, line) = (outer(&mut count, &fail, v, swallow), line!());
    let mut it = taken().into_iter();
    note!(g, "{fail:?}, swallowed {swallow}");
    if let Some(f) = &fail {
        expect(&mut it, "log_error", log::Level::Error, &f.to_string(), INNER_LINE)?;
        if !swallow {
            expect(&mut it, "log_error", log::Level::Info, &f.to_string(), line)?;
        }
    }
    done(it)?;
    let expected = match &fail {
        None => Ok(v),
        Some(_) if swallow => Ok(0),
        Some(f) => Err(f.clone()),
    };
    check_eq!(got, expected, "result");
    check_eq!(count, 1, "times the body ran");
    // a caller that passes its own caller's place on
    let (got, line) = (passing_through(&mut count, &fail, v), line!());
    check_eq!(got.is_err(), fail.is_some(), "result passed through");
    let mut it = taken().into_iter();
    if let Some(f) = &fail {
        expect(&mut it, "log_error", log::Level::Error, &f.to_string(), line)?;
    }
    done(it)
}

// ---------------------------------------------------------------- futures

#[log_error]
async fn soon(fail: &Option<Fault>, v: &u64, steps: u32) -> R<u64> {
    for _ in 0..steps {
        tokio::task::yield_now().await;
    }
    match fail {
        Some(f) => Err(f.clone()),
        None => Ok(*v),
    }
}

#[log_error(level = "warn")]
async fn later(fail: Option<Fault>, v: u64, steps: u32) -> R<u64> {
    soon(&fail, &v, steps).await?;
    if v == u64::MAX {
        return Ok(1);
    }
    Ok(v)
}
const SOON_LINE: u32 = line!() - 6;

struct Borrowing<'a>(&'a u64);

impl<'a> Borrowing<'a> {
    #[log_error(level = "debug", async_fn_captures_lifetimes('a))]
    async fn value(&mut self, fail: &Option<Fault>) -> Result<u64, Fault> {
        let v = *self.0;
        tokio::task::yield_now().await;
        match fail {
            Some(f) => Err(f.clone()),
            None => Ok(v),
        }
    }
}

fn futures_facet(g: &mut Gen) -> Res {
    fresh();
    let fail = fault(g);
    let v = g.u64();
    let steps = g.below(3) as u32;
    g.nontrivial_if(fail.is_some());
    let rt = tokio::runtime::Builder::new_current_thread().build().map_err(|e| e.to_string())?;
    let k = g.below(4);
    note!(g, "future {k}, {fail:?}, {steps} steps");
    let expected: R<u64> = fail.clone().map_or(Ok(v), Err);
    let text = fail.as_ref().map(|f| f.to_string());
    let mut want: Vec<(log::Level, u32)> = vec![];
    match k {
        0 => {
            let (fut, line) = (soon(&fail, &v, steps), line!());
            check!(taken().is_empty(), "logged before the future ran");
            check_eq!(rt.block_on(fut), expected, "result");
            want.push((log::Level::Error, line));
        }
        1 => {
            let (fut, line) = (later(fail.clone(), v, steps), line!());
            let expected = if v == u64::MAX && fail.is_none() { Ok(1) } else { expected };
            check_eq!(rt.block_on(async { tokio::spawn(fut).await.expect("no panic") }), expected, "result");
            want.push((log::Level::Error, SOON_LINE));
            want.push((log::Level::Warn, line));
        }
        2 => {
            let mut b = Borrowing(&v);
            let (fut, line) = (b.value(&fail), line!());
            check_eq!(rt.block_on(fut), expected, "result");
            want.push((log::Level::Debug, line));
        }
        _ => {
            // never run to its end: nothing to log
            let mut fut = Box::pin(soon(&fail, &v, 3));
            let polls = g.below(3);
            let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
            for _ in 0..polls {
                let _enter = rt.enter();
                let _ = std::future::Future::poll(fut.as_mut(), &mut cx);
            }
            drop(fut);
        }
    }
    let mut it = taken().into_iter();
    if let Some(t) = text {
        for (l, line) in want {
            expect(&mut it, "log_error", l, &t, line)?;
        }
    }
    done(it)
}

// ---------------------------------------------------------------- results

const LEVELS: [log::Level; 5] = [log::Level::Error, log::Level::Warn, log::Level::Info, log::Level::Debug, log::Level::Trace];

fn results(g: &mut Gen) -> Res {
    fresh();
    let fail = fault(g);
    let v = g.u64();
    g.nontrivial_if(fail.is_some());
    let r: R<u64> = fail.clone().map_or(Ok(v), Err);
    let level = *g.pick(&LEVELS);
    let prefix = g.text(5);
    let k = g.below(6);
    note!(g, "way {k}, {level}, prefix {prefix:?}, {r:?}");
    let i = r.clone();
    let (got, line, level, prefixed) = match k {
        0 => (i.log_err(), line!(), log::Level::Error, false),
        1 => (i.log_err_pfx(&prefix), line!(), log::Level::Error, true),
        2 => (i.log_warn(), line!(), log::Level::Warn, false),
        3 => (i.log_warn_pfx(&prefix), line!(), log::Level::Warn, true),
        4 => (i.log_lvl(level), line!(), level, false),
        _ => (i.log_lvl_pfx(level, &prefix), line!(), level, true),
    };
    check_eq!(got, r, "result");
    let mut it = taken().into_iter();
    if let Err(f) = &r {
        let text = if prefixed { format!("{prefix}: {f}") } else { f.to_string() };
        expect(&mut it, "TapLog", level, &text, line)?;
    }
    done(it)
}

fn paths(g: &mut Gen) -> Res {
    let root = workspace_path();
    check!(root.ends_with('/') && root.len() > 1, "workspace path {root:?}");
    let tail = g.string(&['a', '/', '.', 'é', ' '], 0, 12);
    let (path, want) = match g.below(4) {
        0 => (format!("{root}{tail}"), tail.clone()),
        1 => (tail.clone(), tail.clone()),
        2 => (format!("/x{root}{tail}"), format!("/x{root}{tail}")),
        _ => {
            let cut = g.usize(root.len());
            let s = if root.is_char_boundary(cut) { &root[..cut] } else { "" };
            (s.to_owned(), s.to_owned())
        }
    };
    g.nontrivial_if(path != want);
    check_eq!(relative_src_file_path(&path), want, "{path:?}");
    Ok(())
}
