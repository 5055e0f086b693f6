//! Delivery of events to subscribers.

use futures::{FutureExt as _, StreamExt as _};
use pbt::*;
use std::{
    collections::VecDeque,
    pin::Pin,
    sync::{Arc, Mutex},
};
use tokio::sync::mpsc;
use utils::eventhandler::EventsController;
use utils::sender_with_id::MpscUnboundedSenderWithId;
use utils_networking::broadcaster::{Broadcaster, Receiver};

pub const P: Property = Property {
    id: "C17",
    rule: "a case is non-trivial when at least two events reached at least two subscribers, some of which joined or left in between",
    facets: &[
        facet("handlers", 1400, handlers),
        facet("handlers_panic", 300, handlers_panic),
        facet("handlers_nested_threads", 120, handlers_threads).threads(4),
        facet("channels", 6000, channels),
        facet("channels_purge", 600, channels_purge),
        facet("channels_threads", 240, channels_threads).threads(4),
        facet("sender_with_id", 2000, sender_with_id),
    ],
    assumptions: &["thread interleavings are those the scheduler produces, widened by random yields and short sleeps"],
};

type Log = Arc<Mutex<Vec<(usize, u64)>>>;

fn pause(n: u64) {
    match n {
        0..=2 => {}
        3..=5 => std::thread::yield_now(),
        _ => std::thread::sleep(std::time::Duration::from_micros(n * 5)),
    }
}

fn handler(id: usize, log: &Log, delay: u64) -> Arc<dyn Fn(u64) + Send + Sync> {
    let log = Arc::clone(log);
    Arc::new(move |e| {
        pause(delay);
        log.lock().unwrap().push((id, e));
    })
}

fn handlers(g: &mut Gen) -> Res {
    let log: Log = Default::default();
    let mut c = EventsController::<u64>::new();
    let mut subs = 0usize;
    let mut expected: Vec<(usize, u64)> = vec![];
    let mut event = 0u64;
    let steps = g.range(1, 40);
    let (mut joined_late, mut waited) = (false, false);
    for _ in 0..steps {
        if g.exhausted() {
            break;
        }
        match g.weighted(&[3, 8, 2]) {
            0 => {
                let delay = g.below(12);
                note!(g, "subscribe {subs}");
                c.subscribe_to_events(handler(subs, &log, delay));
                subs += 1;
                joined_late |= event > 0;
                check_eq!(c.subscribers().len(), subs, "number of subscribers");
            }
            1 => {
                note!(g, "broadcast {event}");
                c.broadcast(event);
                expected.extend((0..subs).map(|s| (s, event)));
                event += 1;
            }
            _ => {
                note!(g, "wait");
                c.wait_for_all_events();
                waited = true;
                let got = log.lock().unwrap().clone();
                compare(&got, &expected, subs)?;
            }
        }
    }
    if g.bool() {
        c.wait_for_all_events();
    } else {
        // dropping the controller lets every event be delivered first
        drop(c);
        g.tag("dropped");
    }
    let got = log.lock().unwrap().clone();
    compare(&got, &expected, subs)?;
    g.tag_if(waited, "waited");
    g.nontrivial_if(event >= 2 && subs >= 2 && joined_late);
    Ok(())
}

/// Each subscriber saw exactly its events in order of broadcast.
fn compare(got: &[(usize, u64)], expected: &[(usize, u64)], subs: usize) -> Res {
    for s in 0..subs {
        let of = |l: &[(usize, u64)]| l.iter().filter(|x| x.0 == s).map(|x| x.1).collect::<Vec<_>>();
        check_eq!(of(got), of(expected), "events seen by subscriber {s}");
    }
    check_eq!(got.len(), expected.len(), "deliveries");
    Ok(())
}

/// A handler that panics does not keep others, or later events, from being delivered.
fn handlers_panic(g: &mut Gen) -> Res {
    let log: Log = Default::default();
    let mut c = EventsController::<u64>::new();
    let n = g.range(2, 5) as usize;
    let bad = g.usize(n);
    let bad_event = g.below(4);
    for id in 0..n {
        let log = Arc::clone(&log);
        c.subscribe_to_events(Arc::new(move |e| {
            if id == bad && e == bad_event {
                std::panic::resume_unwind(Box::new("handler"));
            }
            log.lock().unwrap().push((id, e));
        }));
    }
    let events = g.range(1, 8);
    let mut expected = vec![];
    for e in 0..events {
        c.broadcast(e);
        expected.extend((0..n).map(|s| (s, e)).filter(|x| *x != (bad, bad_event)));
    }
    c.wait_for_all_events();
    let got = log.lock().unwrap().clone();
    compare(&got, &expected, n)?;
    g.nontrivial_if(bad_event < events && events > 1);
    Ok(())
}

/// Several threads broadcast through one controller: each thread's events stay in order and none is lost.
fn handlers_threads(g: &mut Gen) -> Res {
    let log: Log = Default::default();
    let mut c = EventsController::<u64>::new();
    let n = g.range(1, 4) as usize;
    for id in 0..n {
        let delay = g.below(5);
        c.subscribe_to_events(handler(id, &log, delay));
    }
    let threads = g.range(2, 4);
    let per = g.range(1, 40);
    let c = Mutex::new(c);
    let one_lock = g.bool();
    std::thread::scope(|s| {
        for t in 0..threads {
            let c = &c;
            s.spawn(move || {
                for i in 0..per {
                    let e = t * 1000 + i;
                    if one_lock {
                        c.lock().unwrap().broadcast(e);
                    } else {
                        let g = c.lock().unwrap();
                        pause(i % 4);
                        g.broadcast(e);
                    }
                }
            });
        }
    });
    c.lock().unwrap().wait_for_all_events();
    let got = log.lock().unwrap().clone();
    for s in 0..n {
        for t in 0..threads {
            let seen: Vec<u64> = got.iter().filter(|x| x.0 == s && x.1 / 1000 == t).map(|x| x.1 % 1000).collect();
            check_eq!(seen, (0..per).collect::<Vec<_>>(), "events of thread {t} seen by subscriber {s}");
        }
        // all subscribers see one and the same order
        let order = |s| got.iter().filter(|x| x.0 == s).map(|x| x.1).collect::<Vec<_>>();
        check_eq!(order(s), order(0), "order of events of subscribers {s} and 0");
    }
    g.nontrivial();
    Ok(())
}

enum Rx {
    Own(Receiver<u64>),
    Plain(mpsc::UnboundedReceiver<u64>),
    Stream(Pin<Box<dyn futures::Stream<Item = u64>>>),
}
/// What is there now: a value, nothing yet, or the end.
#[derive(Debug, PartialEq, Clone, Copy)]
enum Got {
    Value(u64),
    Nothing,
    End,
}
impl Rx {
    fn poll(&mut self) -> Got {
        let r = match self {
            Rx::Own(r) => r.recv().now_or_never(),
            Rx::Plain(r) => r.recv().now_or_never(),
            Rx::Stream(s) => s.next().now_or_never(),
        };
        match r {
            None => Got::Nothing,
            Some(None) => Got::End,
            Some(Some(v)) => Got::Value(v),
        }
    }
}

fn channels(g: &mut Gen) -> Res {
    let mut b = Some(Broadcaster::<u64>::new());
    let mut subs: Vec<Option<(Rx, VecDeque<u64>)>> = vec![];
    let mut event = 0;
    let mut alive_bound = 0usize;
    let steps = g.range(1, 60);
    let (mut left, mut reached) = (0, 0);
    for _ in 0..steps {
        if g.exhausted() {
            break;
        }
        match g.weighted(&[6, 10, 10, 3, 2, 1, 1]) {
            0 => {
                if let Some(b) = &mut b {
                    let rx = match g.below(3) {
                        0 => Rx::Own(b.subscribe()),
                        1 => {
                            let (tx, rx) = mpsc::unbounded_channel();
                            b.subscribe_using(tx);
                            Rx::Plain(rx)
                        }
                        _ => Rx::Stream(Box::pin(b.subscribe().into_stream())),
                    };
                    note!(g, "subscribe {}", subs.len());
                    subs.push(Some((rx, VecDeque::new())));
                    alive_bound += 1;
                }
            }
            1 => {
                if let Some(b) = &mut b {
                    let event_now = event;
                    note!(g, "broadcast {event_now}");
                    b.broadcast(&event_now);
                    event += 1;
                    for s in subs.iter_mut().flatten() {
                        s.1.push_back(event_now);
                        reached += 1;
                    }
                    let live = subs.iter().flatten().count();
                    check_eq!(b.num_subscribers(), live, "subscribers after a broadcast");
                    alive_bound = live;
                }
            }
            2 => {
                if !subs.is_empty() {
                    let i = g.usize(subs.len());
                    if let Some((rx, q)) = &mut subs[i] {
                        let expected = match q.pop_front() {
                            Some(v) => Got::Value(v),
                            None if b.is_some() => Got::Nothing,
                            None => Got::End,
                        };
                        note!(g, "receive {i}");
                        check_eq!(rx.poll(), expected, "subscriber {i} receives");
                    }
                }
            }
            3 => {
                if !subs.is_empty() {
                    let i = g.usize(subs.len());
                    if subs[i].take().is_some() {
                        note!(g, "leave {i}");
                        left += 1;
                    }
                }
            }
            4 => {
                if let Some(b) = &mut b {
                    note!(g, "purge");
                    b.purge();
                    let live = subs.iter().flatten().count();
                    check_eq!(b.num_subscribers(), live, "subscribers after a purge");
                    alive_bound = live;
                }
            }
            5 => {
                if event > 3 && b.take().is_some() {
                    note!(g, "drop the broadcaster");
                }
            }
            _ => {
                // a receiver may become a stream at any moment
                if !subs.is_empty() {
                    let i = g.usize(subs.len());
                    if let Some((rx, q)) = subs[i].take() {
                        let rx = match rx {
                            Rx::Own(r) => Rx::Stream(Box::pin(r.into_stream())),
                            other => other,
                        };
                        subs[i] = Some((rx, q));
                    }
                }
            }
        }
        if let Some(b) = &b {
            let live = subs.iter().flatten().count();
            let n = b.num_subscribers();
            check!(n >= live && n <= alive_bound, "{n} subscribers reported, {live} live, at most {alive_bound} possible");
        }
    }
    let open = b.is_some();
    for (i, s) in subs.iter_mut().enumerate() {
        if let Some((rx, q)) = s {
            for v in q.drain(..) {
                check_eq!(rx.poll(), Got::Value(v), "subscriber {i} drains");
            }
            check_eq!(rx.poll(), if open { Got::Nothing } else { Got::End }, "subscriber {i} at the end");
        }
    }
    drop(b);
    for (i, s) in subs.iter_mut().enumerate() {
        if let Some((rx, _)) = s {
            check_eq!(rx.poll(), Got::End, "subscriber {i} after the broadcaster is gone");
        }
    }
    g.tag_if(!open, "broadcaster_gone");
    g.tag_if(left > 0, "left");
    g.nontrivial_if(event >= 2 && reached >= 4 && left > 0);
    Ok(())
}

/// Subscribers that come and go without broadcasts do not pile up, and those that stay are not lost.
fn channels_purge(g: &mut Gen) -> Res {
    let mut b = Broadcaster::<u64>::new();
    let mut kept = vec![];
    let n = g.range(1, 700);
    let keep_every = g.range(1, 60);
    let before = g.below(140);
    for i in 0..n {
        let r = b.subscribe();
        if i % keep_every == 0 {
            kept.push(r);
        }
        if i == before {
            b.broadcast(&7);
            for r in &mut kept {
                check_eq!(r.recv().now_or_never(), Some(Some(7)), "early event");
            }
        }
        check!(
            b.num_subscribers() >= kept.len() && b.num_subscribers() <= kept.len() + 129,
            "{} subscribers are listed, {} are live",
            b.num_subscribers(),
            kept.len()
        );
    }
    b.broadcast(&1);
    b.broadcast(&2);
    check_eq!(b.num_subscribers(), kept.len(), "subscribers after a broadcast");
    for r in &mut kept {
        check_eq!(r.recv().now_or_never(), Some(Some(1)), "first event");
        check_eq!(r.recv().now_or_never(), Some(Some(2)), "second event");
        check_eq!(r.recv().now_or_never(), None, "no third event");
    }
    g.nontrivial_if(n > 130 && kept.len() > 1);
    Ok(())
}

/// Receivers on other threads see all events in order, then the end.
fn channels_threads(g: &mut Gen) -> Res {
    let mut b = Broadcaster::<u64>::new();
    let threads = g.range(1, 4);
    let n = g.range(1, 200);
    let leave: Vec<u64> = (0..threads).map(|_| if g.chance(1, 3) { g.below(n) } else { n }).collect();
    let res: Vec<Res> = std::thread::scope(|s| {
        let hs: Vec<_> = leave
            .iter()
            .map(|leave| {
                let mut r = b.subscribe();
                let leave = *leave;
                s.spawn(move || {
                    for e in 0..leave {
                        check_eq!(r.blocking_recv(), Some(e), "next event");
                    }
                    if leave == n {
                        check_eq!(r.blocking_recv(), None, "the end");
                    }
                    Ok(())
                })
            })
            .collect();
        for e in 0..n {
            b.broadcast(&e);
            if e % 16 == 0 {
                std::thread::yield_now();
            }
        }
        drop(b);
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("receiver panicked".into()))).collect()
    });
    for r in res {
        r?;
    }
    g.nontrivial_if(threads > 1 && n > 1);
    Ok(())
}

fn sender_with_id(g: &mut Gen) -> Res {
    let (tx, mut rx) = mpsc::unbounded_channel::<(u64, u64)>();
    let ids: Vec<u64> = (0..g.range(1, 4)).map(|_| g.raw64()).collect();
    let senders: Vec<_> = ids.iter().map(|id| MpscUnboundedSenderWithId::new(*id, tx.clone())).collect();
    let mut q = VecDeque::new();
    for _ in 0..g.range(1, 30) {
        if g.bool() {
            let s = g.usize(senders.len());
            let v = g.raw64();
            check!(senders[s].send(v).is_ok(), "sending failed");
            q.push_back((ids[s], v));
        } else {
            check_eq!(rx.try_recv().ok(), q.pop_front(), "received");
        }
        check!(senders.iter().all(|s| !s.is_closed()), "closed while the receiver lives");
        check!(senders[0].closed().now_or_never().is_none(), "closed while the receiver lives");
    }
    drop(rx);
    for s in &senders {
        check!(s.is_closed(), "not closed after the receiver is gone");
        check!(s.closed().now_or_never().is_some(), "not closed after the receiver is gone");
        let v = g.raw64();
        match s.send(v) {
            Ok(()) => return Err("sending to nobody succeeded".into()),
            Err(e) => check_eq!(e.0, v, "value handed back"),
        }
    }
    g.nontrivial_if(ids.len() > 1);
    Ok(())
}
