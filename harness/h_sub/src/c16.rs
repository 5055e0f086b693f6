//! Subsystems: clients, calls and shutdown, judged on the history of what happened.

use futures::future::BoxFuture;
use pbt::*;
use std::{
    collections::BTreeMap,
    sync::{
        atomic::{AtomicBool, AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::Duration,
};
use subsystem::{
    blocking::BlockingHandle, CallResult, error::{CallError, ResponseError, SubmissionError}, Handle, Manager, ManagerConfig, ShutdownTrigger, Subsystem,
};

pub const P: Property = Property {
    id: "C16",
    rule: "a case is non-trivial when at least two clients (or one client and a shutdown) made calls to the same subsystem and at least one mutable and one shared call were executed",
    facets: &[
        facet("one_thread", 12000, one_thread),
        facet("many_threads", 8000, many_threads).threads(4),
        facet("failures", 3000, failures),
        facet("background", 3000, background),
        facet("timeouts", 60, timeouts).threads(4),
        facet("signals", 16, signals).threads(1),
        facet("join_handle", 200, join_handle),
    ],
    assumptions: &[
        "a shared call may run after mutable calls that were submitted later (shared calls are served by worker tasks); it is judged that it sees every mutable call submitted before it and never overlaps a mutable call",
        "calls that are still queued when the shutdown of their subsystem begins may be dropped; then their callers have to get an error",
        "after a panic inside a subsystem the manager ends by passing the panic on, and the order of the shutdown of the others is not judged",
    ],
};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
struct Id {
    client: usize,
    seq: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ev {
    /// Submitted to a subsystem; `true`: mutable.
    Submit(usize, Id, bool),
    Refused(usize, Id),
    Start(usize, Id, bool),
    End(usize, Id, bool),
    /// Ended by a panic.
    Died(usize, Id),
    Unit(usize),
    /// Something that makes the manager shut down.
    Cause,
    ShutStart(usize),
    ShutEnd(usize),
    FlagSeen(usize, bool),
    ManagerEnd,
}

#[derive(Default)]
struct Obs {
    events: Mutex<Vec<Ev>>,
    errors: Mutex<Vec<String>>,
}
impl Obs {
    fn ev(&self, e: Ev) {
        self.events.lock().unwrap().push(e);
    }
    fn error(&self, e: String) {
        self.errors.lock().unwrap().push(e);
    }
}
type O = Arc<Obs>;

struct State {
    me: usize,
    obs: O,
    log: Vec<Id>,
    units: usize,
    unit_panics_at: usize,
    below: Vec<Handle<State>>,
    shut_yields: usize,
    hang: bool,
    flag: Option<tokio::sync::watch::Receiver<utils::set_flag::SetFlag>>,
    /// For calls from within units of background work.
    own: Option<subsystem::SubmitOnlyHandle<State>>,
    own_n: usize,
}

/// The client number of calls made by background work.
const OWN: usize = 77;

struct Sub(State);

#[async_trait::async_trait]
impl Subsystem for Sub {
    type Interface = State;
    fn interface_ref(&self) -> &State {
        &self.0
    }
    fn interface_mut(&mut self) -> &mut State {
        &mut self.0
    }
    fn perform_background_work_unit(&mut self) {
        let s = &mut self.0;
        s.obs.ev(Ev::Unit(s.me));
        if s.units == 0 {
            s.obs.error(format!("subsystem {} was given a unit of background work without having any", s.me));
        } else {
            s.units -= 1;
            if let Some(own) = &s.own {
                s.own_n += 1;
                let id = Id { client: OWN, seq: s.own_n };
                s.obs.ev(Ev::Submit(s.me, id, true));
                let r = own.submit_mut(move |s| {
                    start(s, id, true);
                    end(s, id, true);
                });
                if r.is_err() {
                    s.obs.ev(Ev::Refused(s.me, id));
                }
            }
            if s.unit_panics_at == s.units + 1 {
                s.obs.ev(Ev::Cause);
                panic!("planned panic in a unit of background work");
            }
        }
    }
    fn has_background_work(&self) -> bool {
        self.0.units > 0
    }
    async fn shutdown(self) {
        let s = self.0;
        s.obs.ev(Ev::ShutStart(s.me));
        if let Some(f) = &s.flag {
            s.obs.ev(Ev::FlagSeen(s.me, f.borrow().test()));
        }
        for _ in 0..s.shut_yields {
            tokio::task::yield_now().await;
        }
        // the subsystems below are still there
        for (i, h) in s.below.iter().enumerate() {
            match h.call(|b| b.me).await {
                Ok(n) if n == i => (),
                Ok(n) => s.obs.error(format!("a call to subsystem {i} was answered by {n}")),
                Err(e) => s.obs.error(format!("subsystem {} could not call {i} in its shutdown: {e}", s.me)),
            }
        }
        if s.hang {
            std::future::pending::<()>().await;
        }
        s.obs.ev(Ev::ShutEnd(s.me));
    }
}

async fn yields(n: usize) {
    for _ in 0..n {
        tokio::task::yield_now().await;
    }
}

fn start(s: &State, id: Id, m: bool) -> usize {
    s.obs.ev(Ev::Start(s.me, id, m));
    s.log.len()
}

/// What a call returns: who answered and what it saw.
type Ret = (usize, Id, Vec<Id>);

fn end(s: &State, id: Id, m: bool) -> Ret {
    s.obs.ev(Ev::End(s.me, id, m));
    (s.me, id, s.log.clone())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Call,
    Async(usize),
    /// Async, with a call to a lower subsystem in it.
    Nested(usize),
    Submit,
    SubmitAsync(usize),
    Panic,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Then {
    Wait,
    Later,
    Forget,
    Blocking,
    Response,
}

#[derive(Clone, Debug)]
enum Op {
    Call { sub: usize, mutable: bool, how: How, then: Then },
    AddUnits { sub: usize, n: usize },
    Yield(usize),
    Trigger,
}

struct Env {
    obs: O,
    handles: Vec<Handle<State>>,
    trigger: ShutdownTrigger,
}

async fn settle(env: &Env, sub: usize, id: Id, r: Result<Ret, CallError>, panics: bool, results: &mut BTreeMap<Id, (usize, bool)>) {
    match r {
        Ok((by, of, _)) => {
            if (by, of) != (sub, id) {
                env.obs.error(format!("call {id:?} to subsystem {sub} got the result of call {of:?} to subsystem {by}"));
            }
            if panics {
                env.obs.error("a call that panicked returned".into());
            }
            results.insert(id, (sub, true));
        }
        Err(e) => {
            if !matches!(e, CallError::Response(ResponseError::NoResponse) | CallError::Submission(SubmissionError::ChannelClosed)) {
                env.obs.error(format!("{e}"));
            }
            results.insert(id, (sub, false));
        }
    }
}

enum Outcome {
    Blocked(Result<Ret, CallError>),
    Submitted,
    Call(CallResult<Ret>),
}

/// A call of a lower subsystem from within a call.
fn nested(below: Option<(usize, Handle<State>)>, obs: O, n: usize) -> BoxFuture<'static, ()> {
    Box::pin(async move {
        yields(n).await;
        if let Some((i, b)) = below {
            match b.call(|b| b.me).await {
                Ok(x) if x == i => (),
                Ok(x) => obs.error(format!("a nested call to subsystem {i} was answered by {x}")),
                // the lower one may have gone down by a panic of its own
                Err(_) => (),
            }
        }
    })
}

fn submit(env: &Env, sub: usize, id: Id, mutable: bool, how: How, then: Then, block_ok: bool) -> Outcome {
    let h = env.handles[sub].clone();
    let below = if sub > 0 { Some((sub - 1, env.handles[sub - 1].clone())) } else { None };
    let obs = Arc::clone(&env.obs);
    // Submission and its record are one step, so that the record is in the order of the queue.
    let mut events = env.obs.events.lock().unwrap();
    events.push(Ev::Submit(sub, id, mutable));
    let block = then == Then::Blocking && block_ok && !matches!(how, How::Submit | How::SubmitAsync(_));
    if block {
        // a blocking call cannot be recorded in one step with its submission: the record comes first, and the
        // order is judged against this client's own calls only (see `judge`)
        drop(events);
        let b = BlockingHandle::new(h);
        return Outcome::Blocked(match (mutable, how) {
            (true, How::Async(n)) => b.call_async_mut(move |s| Box::pin(async move { start(s, id, true); s.log.push(id); yields(n).await; end(s, id, true) })),
            (true, How::Panic) => b.call_mut(move |s| { s.obs.ev(Ev::Cause); start(s, id, true); s.obs.ev(Ev::Died(s.me, id)); panic!("planned panic in a mutable call") }),
            (true, _) => b.call_mut(move |s| { start(s, id, true); s.log.push(id); end(s, id, true) }),
            (false, How::Async(n)) => b.call_async(move |s| Box::pin(async move { start(s, id, false); yields(n).await; end(s, id, false) })),
            (false, How::Panic) => b.call(move |s| { s.obs.ev(Ev::Cause); start(s, id, false); s.obs.ev(Ev::Died(s.me, id)); panic!("planned panic in a shared call") }),
            (false, _) => b.call(move |s| { start(s, id, false); end(s, id, false) }),
        });
    }
    let sh = h.as_submit_only();
    let submitted = match (mutable, how) {
        (true, How::Submit) => Some(sh.submit_mut(move |s| { start(s, id, true); s.log.push(id); end(s, id, true); })),
        (true, How::SubmitAsync(n)) => Some(sh.submit_async_mut(move |s| Box::pin(async move { start(s, id, true); s.log.push(id); yields(n).await; end(s, id, true); }))),
        (false, How::Submit) => Some(sh.submit(move |s| { start(s, id, false); end(s, id, false); })),
        (false, How::SubmitAsync(n)) => Some(sh.submit_async(move |s| Box::pin(async move { start(s, id, false); yields(n).await; end(s, id, false); }))),
        _ => None,
    };
    if let Some(r) = submitted {
        if r.is_err() {
            events.push(Ev::Refused(sub, id));
        }
        return Outcome::Submitted;
    }
    Outcome::Call(match (mutable, how) {
        (true, How::Async(n)) => h.call_async_mut(move |s| Box::pin(async move { start(s, id, true); s.log.push(id); yields(n).await; end(s, id, true) })),
        (true, How::Nested(n)) => h.call_async_mut(move |s| Box::pin(async move { start(s, id, true); s.log.push(id); nested(below, obs, n).await; end(s, id, true) })),
        (true, How::Panic) => h.call_mut(move |s| { s.obs.ev(Ev::Cause); start(s, id, true); s.obs.ev(Ev::Died(s.me, id)); panic!("planned panic in a mutable call") }),
        (true, _) => h.call_mut(move |s| { start(s, id, true); s.log.push(id); end(s, id, true) }),
        (false, How::Async(n)) => h.call_async(move |s| Box::pin(async move { start(s, id, false); yields(n).await; end(s, id, false) })),
        (false, How::Nested(n)) => h.call_async(move |s| Box::pin(async move { start(s, id, false); nested(below, obs, n).await; end(s, id, false) })),
        (false, How::Panic) => h.call(move |s| { s.obs.ev(Ev::Cause); start(s, id, false); s.obs.ev(Ev::Died(s.me, id)); panic!("planned panic in a shared call") }),
        (false, _) => h.call(move |s| { start(s, id, false); end(s, id, false) }),
    })
}

/// A client: its operations one after the other.
async fn client(env: Arc<Env>, me: usize, ops: Vec<Op>, block_ok: bool) -> BTreeMap<Id, (usize, bool)> {
    let mut results = BTreeMap::new();
    let mut later: Vec<(usize, Id, BoxFuture<'static, Result<Ret, CallError>>)> = vec![];
    for (seq, op) in ops.into_iter().enumerate() {
        let id = Id { client: me, seq };
        match op {
            Op::Yield(n) => yields(n).await,
            Op::Trigger => {
                env.obs.ev(Ev::Cause);
                env.trigger.clone().initiate();
            }
            Op::AddUnits { sub, n } => {
                let _ = env.handles[sub].call_mut(move |s| s.units += n).response().map(drop);
            }
            Op::Call { sub, mutable, how, then } => {
                let panics = how == How::Panic;
                match submit(&env, sub, id, mutable, how, then, block_ok) {
                    Outcome::Blocked(r) => settle(&env, sub, id, r, panics, &mut results).await,
                    Outcome::Submitted => (),
                    Outcome::Call(call) => match then {
                        Then::Wait | Then::Blocking => {
                            let r = call.await;
                            settle(&env, sub, id, r, panics, &mut results).await;
                        }
                        Then::Later => later.push((sub, id, Box::pin(call))),
                        Then::Response => match call.response() {
                            Ok(resp) => later.push((sub, id, Box::pin(async move { Ok(resp.await?) }))),
                            Err(e) => {
                                env.obs.ev(Ev::Refused(sub, id));
                                settle(&env, sub, id, Err(e.into()), panics, &mut results).await
                            }
                        },
                        Then::Forget => drop(call),
                    },
                }
            }
        }
        if seq % 5 == 4 && !later.is_empty() {
            let (sub, id, f) = later.remove(0);
            let r = f.await;
            settle(&env, sub, id, r, false, &mut results).await;
        }
    }
    for (sub, id, f) in later {
        let r = f.await;
        settle(&env, sub, id, r, false, &mut results).await;
    }
    results
}

/// The history obeys the rules.
fn judge(events: &[Ev], n_subs: usize, results: &BTreeMap<Id, (usize, bool)>, panics: bool, blocking: &dyn Fn(Id) -> bool, no_init: &[usize], hangs: &[usize]) -> Res {
    let cause = events.iter().position(|e| *e == Ev::Cause);
    let mut executed: BTreeMap<Id, usize> = BTreeMap::new();
    let mut ended: BTreeMap<Id, usize> = BTreeMap::new();
    for s in 0..n_subs {
        let mut queue: Vec<(Id, bool)> = vec![];
        let mut running: Vec<(Id, bool)> = vec![];
        let mut started_muts: Vec<Id> = vec![];
        let mut done_muts: Vec<Id> = vec![];
        let mut shut = 0;
        let mut shut_end = 0;
        for (at, e) in events.iter().enumerate() {
            match *e {
                Ev::Submit(x, id, m) if x == s => queue.push((id, m)),
                Ev::Refused(x, id) if x == s => queue.retain(|q| q.0 != id),
                Ev::Start(x, id, m) if x == s => {
                    check!(executed.insert(id, s).is_none(), "call {id:?} was executed twice");
                    check!(shut == 0, "call {id:?} to subsystem {s} started after its shutdown began");
                    let Some(pos) = queue.iter().position(|q| q.0 == id) else {
                        return Err(format!("call {id:?} started before it was submitted"));
                    };
                    if m {
                        check!(running.is_empty(), "mutable call {id:?} to subsystem {s} started while {running:?} was running");
                        // in the order of submission
                        for (q, qm) in &queue[..pos] {
                            let comparable = q.client == id.client || !(blocking(*q) || blocking(id));
                            check!(!qm || started_muts.contains(q) || !comparable, "mutable call {id:?} to subsystem {s} overtook {q:?}");
                        }
                        started_muts.push(id);
                    } else {
                        check!(running.iter().all(|r| !r.1), "shared call {id:?} to subsystem {s} started while {running:?} was running");
                        for (q, qm) in &queue[..pos] {
                            let comparable = q.client == id.client || !(blocking(*q) || blocking(id));
                            check!(!qm || done_muts.contains(q) || !comparable, "shared call {id:?} to subsystem {s} did not see {q:?}, submitted before it");
                        }
                    }
                    running.push((id, m));
                }
                Ev::End(x, id, m) if x == s => {
                    let n = running.len();
                    running.retain(|r| r.0 != id);
                    check!(running.len() + 1 == n, "call {id:?} ended but was not running");
                    ended.insert(id, s);
                    if m {
                        done_muts.push(id);
                    }
                }
                Ev::Died(x, id) if x == s => running.retain(|r| r.0 != id),
                Ev::Unit(x) if x == s => {
                    check!(running.is_empty(), "background work of subsystem {s} ran during {running:?}");
                    check!(shut == 0, "background work of subsystem {s} after its shutdown");
                    if let Some((id, _)) = queue.iter().find(|q| q.0.client == OWN && !executed.contains_key(&q.0)) {
                        return Err(format!("the next unit of background work of subsystem {s} came before the waiting call {id:?}"));
                    }
                }
                Ev::ShutStart(x) if x == s => {
                    shut += 1;
                    check!(running.is_empty() || panics, "subsystem {s} shut down during {running:?}");
                    check!(cause.is_some_and(|c| c < at), "subsystem {s} shut down without a cause");
                }
                Ev::ShutEnd(x) if x == s => shut_end += 1,
                Ev::FlagSeen(x, set) if x == s => {
                    check!(set || panics, "the shutdown flag was not set when subsystem {s} was shut down");
                }
                _ => (),
            }
        }
        let expect = if no_init.contains(&s) { 0 } else { 1 };
        if panics {
            check!(shut <= 1, "subsystem {s} was shut down {shut} times");
        } else {
            check_eq!(shut, expect, "shutdowns of subsystem {s}");
            check_eq!(shut_end, if hangs.contains(&s) { 0 } else { expect }, "completed shutdowns of subsystem {s}");
            check!(running.is_empty(), "calls {running:?} to subsystem {s} never ended");
        }
    }
    if !panics {
        // in reverse order of registration, one after the other, and all before the manager ends
        let order: Vec<Ev> = events.iter().copied().filter(|e| matches!(e, Ev::ShutStart(_) | Ev::ShutEnd(_) | Ev::ManagerEnd)).collect();
        let mut want = vec![];
        for s in (0..n_subs).rev().filter(|s| !no_init.contains(s)) {
            want.push(Ev::ShutStart(s));
            if !hangs.contains(&s) {
                want.push(Ev::ShutEnd(s));
            }
        }
        want.push(Ev::ManagerEnd);
        check_eq!(order, want, "order of the shutdown");
    }
    for (id, (sub, ok)) in results {
        check_eq!(ended.get(id) == Some(sub), *ok, "call {id:?} to subsystem {sub}: executed, as the caller was told");
    }
    Ok(())
}

struct Plan {
    n_subs: usize,
    clients: Vec<Vec<Op>>,
    shut_yields: Vec<usize>,
    units: Vec<usize>,
    late_trigger: bool,
    threads: usize,
    no_init: Vec<usize>,
    unit_panics: usize,
    init_yields: Vec<usize>,
}

fn ops(g: &mut Gen, n_subs: usize, n: usize, triggers: bool, panics: bool) -> Vec<Op> {
    (0..n)
        .map(|_| match g.weighted(&[12, 2, 1, u64::from(triggers)]) {
            0 => {
                let how = match g.weighted(&[4, 4, 2, 1, 1, if panics { 1 } else { 0 }]) {
                    0 => How::Call,
                    1 => How::Async(g.usize(4)),
                    2 => How::Nested(g.usize(3)),
                    3 => How::Submit,
                    4 => How::SubmitAsync(g.usize(3)),
                    _ => How::Panic,
                };
                let then = *g.pick(&[Then::Wait, Then::Later, Then::Later, Then::Response, Then::Forget, Then::Blocking]);
                Op::Call { sub: g.usize(n_subs), mutable: g.bool(), how, then }
            }
            1 => Op::Yield(g.usize(4)),
            2 => Op::AddUnits { sub: g.usize(n_subs), n: g.usize(3) },
            _ => Op::Trigger,
        })
        .collect()
}

fn with_runtime<T>(threads: usize, f: impl std::future::Future<Output = T>) -> T {
    let rt = if threads == 0 {
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
    } else {
        tokio::runtime::Builder::new_multi_thread().worker_threads(threads).enable_all().build().unwrap()
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.block_on(f)));
    // in any case: a task may be stuck in a blocking call
    rt.shutdown_background();
    r.unwrap_or_else(|p| std::panic::resume_unwind(p))
}

const HANG: Duration = Duration::from_secs(20);

fn execute(g: &mut Gen, p: Plan) -> Res {
    let obs: O = Default::default();
    let n_subs = p.n_subs;
    let has_panics = p.unit_panics > 0
        || p.clients.iter().flatten().any(|o| matches!(o, Op::Call { how: How::Panic, .. }));
    let clients = p.clients.clone();
    note!(g, "{n_subs} subsystems, {} threads, clients {clients:?}", p.threads);
    let block_ok = p.threads > 0;
    let blocking = {
        let clients = clients.clone();
        move |id: Id| {
            block_ok
                && matches!(&clients[id.client][id.seq], Op::Call { then: Then::Blocking, how, .. } if !matches!(how, How::Submit | How::SubmitAsync(_)))
        }
    };
    let o = Arc::clone(&obs);
    let (late_trigger, no_init) = (p.late_trigger, p.no_init.clone());
    let results = with_runtime(p.threads, async move {
        let mut mgr = Manager::new_with_config(ManagerConfig::new("verif"));
        let mut handles: Vec<Handle<State>> = vec![];
        for i in 0..n_subs {
            let below = handles.clone();
            let (obs, shut_yields, units, iy) = (Arc::clone(&o), p.shut_yields[i], p.units[i], p.init_yields[i]);
            let fail = p.no_init.contains(&i);
            let unit_panics_at = if i == 0 { p.unit_panics } else { 0 };
            let h = mgr.add_custom_subsystem("sub", move |_submit, flag| async move {
                yields(iy).await;
                if fail {
                    obs.ev(Ev::Cause);
                    return Err(std::io::Error::other("planned failure"));
                }
                if has_panics {
                    // then the lower ones may be gone
                    return Ok(Sub(State { me: i, obs, log: vec![], units, unit_panics_at, below: vec![], shut_yields, hang: false, flag: Some(flag), own: None, own_n: 0 }));
                }
                Ok(Sub(State { me: i, obs, log: vec![], units, unit_panics_at, below, shut_yields, hang: false, flag: Some(flag), own: None, own_n: 0 }))
            });
            handles.push(h);
        }
        let trigger = mgr.make_shutdown_trigger();
        let env = Arc::new(Env { obs: Arc::clone(&o), handles, trigger: trigger.clone() });
        let tasks: Vec<_> = p.clients.into_iter().enumerate().map(|(i, c)| tokio::spawn(client(Arc::clone(&env), i, c, block_ok))).collect();
        let main = {
            let o = Arc::clone(&o);
            mgr.main_in_task_with(o)
        };
        let all = async {
            let mut out = BTreeMap::new();
            for t in tasks {
                out.extend(t.await.map_err(|e| format!("a client failed: {e}"))?);
            }
            if p.late_trigger {
                o.ev(Ev::Cause);
            }
            if p.late_trigger {
                trigger.clone().initiate();
            }
            Ok::<_, String>(out)
        };
        let out = tokio::time::timeout(HANG, all).await.map_err(|_| "the clients hang".to_string())??;
        tokio::time::timeout(HANG, main).await.map_err(|_| "the manager does not end".to_string())?;
        // everything is down now: calls are refused
        if !has_panics {
            for (i, h) in env.handles.iter().enumerate() {
                match tokio::time::timeout(HANG, h.call(|s| s.me)).await.map_err(|_| format!("a call to subsystem {i}, which is down, hangs"))? {
                    Err(CallError::Submission(SubmissionError::ChannelClosed)) => (),
                    r => return Err(format!("a call to subsystem {i}, which is down, gave {r:?}")),
                }
                if h.as_submit_only().submit(|_| ()).is_ok() {
                    return Err("a submission to a subsystem that is down succeeded".into());
                }
            }
            // one more trigger does nothing
            trigger.initiate();
        }
        Ok(out)
    })?;
    if let Some(e) = obs.errors.lock().unwrap().first() {
        return Err(e.clone());
    }
    let events = obs.events.lock().unwrap().clone();
    if g.recording {
        note!(g, "history {events:?}");
    }
    let muts = events.iter().filter(|e| matches!(e, Ev::End(_, _, true))).count();
    let refs = events.iter().filter(|e| matches!(e, Ev::End(_, _, false))).count();
    g.nontrivial_if(muts > 0 && refs > 0 && (clients.len() > 1 || !late_trigger));
    g.tag_if(results.values().any(|r| !r.1), "a call failed");
    g.tag_if(events.iter().any(|e| matches!(e, Ev::Unit(_))), "background work");
    judge(&events, n_subs, &results, has_panics, &blocking, &no_init, &[])?;
    if late_trigger && no_init.is_empty() && !has_panics && !clients.iter().flatten().any(|o| matches!(o, Op::Trigger)) {
        // nothing fails before the shutdown
        if let Some((id, _)) = results.iter().find(|r| !r.1 .1) {
            return Err(format!("call {id:?} failed without a shutdown"));
        }
    }
    Ok(())
}

trait MainIn {
    fn main_in_task_with(self, o: O) -> BoxFuture<'static, ()>;
}
impl MainIn for Manager {
    fn main_in_task_with(self, o: O) -> BoxFuture<'static, ()> {
        let h = self.main_in_task();
        let t = tokio::spawn(async move {
            h.join().await;
            o.ev(Ev::ManagerEnd);
        });
        Box::pin(async move {
            t.await.expect("joining the manager");
        })
    }
}

fn plan(g: &mut Gen, threads: usize) -> Plan {
    let n_subs = g.urange(1, 4);
    let n_clients = g.urange(1, 4);
    let triggers = g.chance(1, 3);
    let clients = (0..n_clients)
        .map(|_| {
            let n = g.len(1, 14);
            ops(g, n_subs, n, triggers, false)
        })
        .collect();
    Plan {
        n_subs,
        clients,
        shut_yields: (0..n_subs).map(|_| g.usize(4)).collect(),
        units: (0..n_subs).map(|_| if g.chance(1, 3) { g.usize(4) } else { 0 }).collect(),
        late_trigger: true,
        threads,
        no_init: vec![],
        unit_panics: 0,
        init_yields: (0..n_subs).map(|_| if g.chance(1, 3) { g.usize(4) } else { 0 }).collect(),
    }
}

fn one_thread(g: &mut Gen) -> Res {
    let p = plan(g, 0);
    execute(g, p)
}

fn many_threads(g: &mut Gen) -> Res {
    let t = g.urange(2, 4);
    let p = plan(g, t);
    execute(g, p)
}

/// A subsystem that fails to start, or panics, takes the others down with it; nobody hangs.
fn failures(g: &mut Gen) -> Res {
    // only one thread with panics: the calls that race with a panic need not be answered
    let kind = g.below(3);
    let threads = if kind == 0 && g.chance(1, 2) { 2 } else { 0 };
    let mut p = plan(g, threads);
    match kind {
        0 => {
            p.no_init = vec![g.usize(p.n_subs)];
            // nothing is below a subsystem that failed, so that shutdown procedures need not call it
            let bad = p.no_init[0];
            if bad + 1 != p.n_subs {
                p.n_subs = bad + 1;
                p.shut_yields.truncate(p.n_subs);
                p.units.truncate(p.n_subs);
                p.init_yields.truncate(p.n_subs);
                let n = p.n_subs;
                p.clients.iter_mut().flatten().for_each(|o| match o {
                    Op::Call { sub, .. } | Op::AddUnits { sub, .. } => *sub %= n,
                    _ => (),
                });
            }
            g.tag("failed to start");
        }
        1 => {
            let n = g.len(1, 6);
            let more = ops(g, p.n_subs, n, false, true);
            let at = g.usize(p.clients.len());
            p.clients[at].extend(more);
            let k = p.clients[at].len();
            p.clients[at].insert(
                g.usize(k + 1),
                Op::Call { sub: g.usize(p.n_subs), mutable: g.bool(), how: How::Panic, then: Then::Wait },
            );
            g.tag("panicking call");
        }
        _ => {
            p.units[0] = g.urange(1, 4);
            p.unit_panics = g.urange(1, p.units[0]);
            g.tag("panicking background work");
        }
    }
    p.late_trigger = g.bool();
    execute(g, p)
}

/// Background work is done when there is nothing else to do, and all of it.
fn background(g: &mut Gen) -> Res {
    let threads = if g.chance(1, 6) { 2 } else { 0 };
    let units = g.urange(0, 12);
    // with several threads a call that is being sent by a client can keep the later ones from being seen at once
    let own_calls = threads == 0 && g.bool();
    let adds: Vec<(usize, bool, usize)> = g.vec(0, 5, |g| (g.usize(4), g.bool(), g.usize(3)));
    let obs: O = Default::default();
    let o = Arc::clone(&obs);
    note!(g, "{units} units at first, then {adds:?}");
    let total = units + adds.iter().map(|a| a.0).sum::<usize>();
    g.nontrivial_if(total > 1 && !adds.is_empty());
    let left = with_runtime(threads, async move {
        let mut mgr = Manager::new("verif");
        let oo = Arc::clone(&o);
        let h = mgr.add_custom_subsystem("sub", move |own, _| async move {
            let own = own_calls.then_some(own);
            Ok::<_, std::convert::Infallible>(Sub(State { me: 0, obs: oo, log: vec![], units, unit_panics_at: 0, below: vec![], shut_yields: 0, hang: false, flag: None, own, own_n: 0 }))
        });
        let trigger = mgr.make_shutdown_trigger();
        // calls waiting at the start come before any background work
        let first = Id { client: 9, seq: 0 };
        let pending = h.call_mut(move |s| {
            let units = s.obs.events.lock().unwrap().iter().filter(|e| matches!(e, Ev::Unit(_))).count();
            s.log.push(first);
            units
        });
        let main = mgr.main_in_task_with(Arc::clone(&o));
        let work = async {
            let n = pending.await.map_err(|e| e.to_string())?;
            if n != 0 {
                return Err(format!("{n} units of background work were done before a waiting call"));
            }
            for (n, wait, y) in adds {
                let c = h.call_mut(move |s| s.units += n);
                if wait {
                    c.await.map_err(|e| e.to_string())?;
                } else {
                    drop(c);
                }
                yields(y).await;
            }
            loop {
                let left = h.call(|s| s.units).await.map_err(|e| e.to_string())?;
                if left == 0 {
                    break;
                }
                tokio::task::yield_now().await;
            }
            o.ev(Ev::Cause);
            trigger.initiate();
            Ok(h.clone())
        };
        tokio::time::timeout(HANG, work).await.map_err(|_| "background work does not get done".to_string())??;
        tokio::time::timeout(HANG, main).await.map_err(|_| "the manager does not end".to_string())?;
        Ok::<_, String>(0)
    })?;
    assert_eq!(left, 0);
    if let Some(e) = obs.errors.lock().unwrap().first() {
        return Err(e.clone());
    }
    let events = obs.events.lock().unwrap().clone();
    check_eq!(events.iter().filter(|e| matches!(e, Ev::Unit(_))).count(), total, "units of background work done");
    judge(&events, 1, &Default::default(), false, &|_| false, &[], &[])
}

/// Subsystems that never finish their shutdown hold the others up for no longer than the timeout.
fn timeouts(g: &mut Gen) -> Res {
    let n_subs = g.urange(1, 4);
    let hangs: Vec<usize> = (0..n_subs).filter(|_| g.chance(1, 2)).collect();
    let limit = Duration::from_millis(g.range(150, 250));
    let use_default = hangs.is_empty() && g.bool();
    note!(g, "{n_subs} subsystems, {hangs:?} hang, limit {limit:?}");
    g.nontrivial_if(!hangs.is_empty() && n_subs > 1);
    let obs: O = Default::default();
    let o = Arc::clone(&obs);
    let h2 = hangs.clone();
    let took = with_runtime(0, async move {
        let c = ManagerConfig::new("verif");
        let c = if use_default { c.disable_shutdown_timeout() } else { c.with_shutdown_timeout_per_subsystem(limit) };
        let mut mgr = Manager::new_with_config(c);
        for i in 0..n_subs {
            let _ = mgr.add_subsystem(
                "sub",
                Sub(State { me: i, obs: Arc::clone(&o), log: vec![], units: 0, unit_panics_at: 0, below: vec![], shut_yields: 0, hang: h2.contains(&i), flag: None, own: None, own_n: 0 }),
            );
        }
        o.ev(Ev::Cause);
        mgr.make_shutdown_trigger().initiate();
        let t = std::time::Instant::now();
        tokio::time::timeout(HANG, mgr.main()).await.map_err(|_| "the manager does not end".to_string())?;
        o.ev(Ev::ManagerEnd);
        Ok::<_, String>(t.elapsed())
    })?;
    check!(took >= limit.mul_f64(0.9) * hangs.len() as u32, "{} hanging subsystems were given {took:?} with a limit of {limit:?} each", hangs.len());
    let events = obs.events.lock().unwrap().clone();
    judge(&events, n_subs, &Default::default(), false, &|_| false, &[], &hangs)
}

/// Interrupt and termination signals shut the system down in an orderly way.
fn signals(g: &mut Gen) -> Res {
    let sig = *g.pick(&[libc::SIGTERM, libc::SIGINT]);
    let n_subs = g.urange(1, 3);
    note!(g, "signal {sig}");
    g.nontrivial_if(n_subs > 1);
    let obs: O = Default::default();
    let o = Arc::clone(&obs);
    with_runtime(0, async move {
        // the handlers are installed for the whole process first, so that the signal is harmless in any case
        let _a = tokio::signal::unix::signal(tokio::signal::unix::SignalKind::terminate()).map_err(|e| e.to_string())?;
        let _b = tokio::signal::unix::signal(tokio::signal::unix::SignalKind::interrupt()).map_err(|e| e.to_string())?;
        let mut mgr = Manager::new_with_config(ManagerConfig::new("verif").enable_signal_handlers());
        let mut handles = vec![];
        for i in 0..n_subs {
            handles.push(mgr.add_subsystem(
                "sub",
                Sub(State { me: i, obs: Arc::clone(&o), log: vec![], units: 0, unit_panics_at: 0, below: handles.clone(), shut_yields: 0, hang: false, flag: None, own: None, own_n: 0 }),
            ));
        }
        let main = mgr.main_in_task_with(Arc::clone(&o));
        for h in &handles {
            h.call(|s| s.me).await.map_err(|e| e.to_string())?;
        }
        yields(20).await;
        o.ev(Ev::Cause);
        // SAFETY: plain libc call
        unsafe { libc::raise(sig) };
        tokio::time::timeout(HANG, main).await.map_err(|_| format!("signal {sig} does not end the manager"))
    })?;
    if let Some(e) = obs.errors.lock().unwrap().first() {
        return Err(e.clone());
    }
    let events = obs.events.lock().unwrap().clone();
    judge(&events, n_subs, &Default::default(), false, &|_| false, &[], &[])
}

/// The corners: an empty manager, a trigger before the start, the handle that has to be joined, plain objects as subsystems.
fn join_handle(g: &mut Gen) -> Res {
    g.nontrivial();
    match g.below(4) {
        0 => with_runtime(0, async {
            tokio::time::timeout(HANG, Manager::new("empty").main()).await.map_err(|_| "a manager without subsystems does not end".to_string())
        }),
        1 => {
            let dropped = no_panic(|| {
                with_runtime(0, async {
                    let mut mgr = Manager::new("verif");
                    let _ = mgr.add_direct_subsystem("x", 5u32);
                    drop(mgr.main_in_task());
                })
            });
            check!(dropped.is_err(), "the manager's handle may be dropped without being joined");
            Ok(())
        }
        2 => {
            let n = g.urange(1, 30);
            let seen = with_runtime(0, async {
                let mut mgr = Manager::new("verif");
                let h = mgr.add_direct_subsystem("x", 0usize);
                let trigger = mgr.make_shutdown_trigger();
                let main = tokio::spawn(mgr.main());
                let mut seen = vec![];
                for _ in 0..n {
                    seen.push(h.call_mut(|x| { *x += 1; *x }).await.map_err(|e| e.to_string())?);
                    seen.push(h.call(|x| *x).await.map_err(|e| e.to_string())?);
                }
                trigger.initiate();
                tokio::time::timeout(HANG, main).await.map_err(|_| "the manager does not end".to_string())?.map_err(|e| e.to_string())?;
                Ok::<_, String>(seen)
            })?;
            check_eq!(seen, (1..=n).flat_map(|i| [i, i]).collect::<Vec<_>>(), "results of the calls to a plain object");
            Ok(())
        }
        _ => {
            // blocking calls from threads that belong to no runtime, in parallel with others
            let n = g.urange(1, 20);
            let threads = g.urange(1, 3);
            let stop = AtomicBool::new(false);
            let count = AtomicUsize::new(0);
            let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
            let mut mgr = Manager::new("verif");
            let h = mgr.add_direct_subsystem("x", vec![0usize; 0]);
            let trigger = mgr.make_shutdown_trigger();
            let main = rt.spawn(mgr.main());
            let rs: Vec<Res> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..threads)
                    .map(|t| {
                        let b = BlockingHandle::new(h.clone());
                        let count = &count;
                        s.spawn(move || -> Res {
                            for i in 0..n {
                                let len = b.call_mut(move |x| { x.push(t * 1000 + i); x.len() }).map_err(|e| e.to_string())?;
                                let mine = b.call(move |x| x.iter().filter(|v| **v / 1000 == t).copied().collect::<Vec<_>>()).map_err(|e| e.to_string())?;
                                check_eq!(mine, (0..=i).map(|k| t * 1000 + k).collect::<Vec<_>>(), "own effects");
                                check!(len > i, "length {len} after {} own calls", i + 1);
                                count.fetch_add(1, Ordering::SeqCst);
                            }
                            Ok(())
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a caller panicked".into()))).collect()
            });
            for r in rs {
                r?;
            }
            stop.store(true, Ordering::SeqCst);
            let total = BlockingHandle::new(h.clone()).call(|x| x.len()).map_err(|e| e.to_string())?;
            check_eq!(total, count.load(Ordering::SeqCst), "calls executed");
            trigger.initiate();
            rt.block_on(async { tokio::time::timeout(HANG, main).await }).map_err(|_| "the manager does not end".to_string())?.map_err(|e| e.to_string())?;
            check!(BlockingHandle::new(h).call(|x| x.len()).is_err(), "a blocking call after the end succeeded");
            Ok(())
        }
    }
}
