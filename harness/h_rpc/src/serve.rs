//! What a running server offers: its method list, the results of calls, and events to subscribers.

use std::{
    collections::BTreeSet,
    sync::{Arc, Mutex},
    time::Duration,
};

use jsonrpsee::{
    core::client::{ClientT, Subscription, SubscriptionClientT},
    RpcModule,
};
use pbt::{check, check_eq, Gen};
use rpc::{handle_result, subscription, Builder, RpcAuthData};
use utils_networking::broadcaster::Broadcaster;

use crate::block;

const NAMES: &[&str] = &[
    "a", "b", "add", "Add", "add_one", "node_version", "node_shutdown", "chainstate_best_block_id", "z", "_", "p2p_enable",
    "p2p_ban", "mempool_get", "mempool_get_transaction", "wallet", "wallet_open", "0", "x.y", "rpc", "method_list", "about", "Zz",
];

pub fn methods(g: &mut Gen) -> Result<(), String> {
    let mut names: Vec<&'static str> = NAMES.to_vec();
    g.shuffle(&mut names);
    let list_name = g.chance(3, 4).then(|| names.pop().unwrap());
    let absent = names.pop().unwrap();
    let count = g.usize(names.len());
    names.truncate(count);
    let modules = 1 + g.usize(4);
    g.nontrivial_if(modules > 1 && count > 1);
    let mut parts: Vec<Vec<&'static str>> = vec![vec![]; modules];
    for n in &names {
        let i = g.usize(modules);
        parts[i].push(n);
    }
    let list_at = g.usize(modules + 1);
    let ws = g.bool();
    let arg = g.text(10);
    block(async {
        let mut b = Builder::new("127.0.0.1:0".parse().unwrap(), None);
        for (i, part) in parts.iter().enumerate() {
            if let (true, Some(l)) = (i == list_at, list_name) {
                b = b.with_method_list(l);
            }
            let mut m = RpcModule::new(());
            for n in part {
                let n = *n;
                m.register_method(n, move |p, _, _| format!("{n}({})", p.one::<String>().unwrap_or_default()))
                    .map_err(|e| e.to_string())?;
            }
            b = b.register(m);
        }
        if let (true, Some(l)) = (list_at == modules, list_name) {
            b = b.with_method_list(l);
        }
        let server = b.build().await.map_err(|e| e.to_string())?;
        let (http, wsc);
        let addr = *server.http_address();
        // One call with either client.
        enum C<'a> {
            H(&'a rpc::RpcHttpClient),
            W(&'a rpc::RpcWsClient),
        }
        let c = if ws {
            wsc = rpc::new_ws_client(format!("ws://{addr}"), RpcAuthData::None).await.map_err(|e| e.to_string())?;
            C::W(&wsc)
        } else {
            http = rpc::new_http_client(format!("http://{addr}"), RpcAuthData::None).map_err(|e| e.to_string())?;
            C::H(&http)
        };
        async fn call(c: &C<'_>, m: &str, a: &str) -> Result<serde_json::Value, String> {
            let p = jsonrpsee::rpc_params![a];
            match c {
                C::H(c) => c.request(m, p).await.map_err(|e| e.to_string()),
                C::W(c) => c.request(m, p).await.map_err(|e| e.to_string()),
            }
        }
        for n in &names {
            check_eq!(call(&c, n, &arg).await?, serde_json::json!(format!("{n}({arg})")), "call of {n}");
        }
        check!(call(&c, absent, &arg).await.is_err(), "a method nobody registered answers: {absent}");
        if let Some(l) = list_name {
            let all: BTreeSet<&str> = names.iter().copied().chain([l]).collect();
            check_eq!(call(&c, l, "").await?, serde_json::json!(all.iter().collect::<Vec<_>>()), "list of methods");
        }
        server.shutdown().await;
        check!(tokio::net::TcpStream::connect(addr).await.is_err(), "the port is still open after the shutdown");
        Ok(())
    })
}

#[derive(thiserror::Error, Debug)]
enum Bad {
    #[error("bad: {0}")]
    Text(String),
    #[error("{0}")]
    Plain(u32),
}

pub fn results(g: &mut Gen) -> Result<(), String> {
    let text = g.text(12);
    let bad = |g: &mut Gen, t: &str| if g.bool() { Bad::Text(t.to_string()) } else { Bad::Plain(7) };
    let depth = g.below(5);
    let fail_at = g.below(depth + 2);
    g.nontrivial_if(depth > 1);
    let v = g.u64();
    let mut want: Result<u64, String> = Ok(v);
    // The outermost error decides.
    let got: rpc::RpcResult<u64> = match depth {
        0 => handle_result::<u64, u64, ()>(v),
        1 => handle_result(if fail_at == 0 {
            let e = bad(g, &text);
            want = Err(e.to_string());
            Err(e)
        } else {
            Ok(v)
        }),
        2 | 3 => {
            let inner: Result<u64, std::fmt::Error> = if fail_at == 1 {
                want = Err(std::fmt::Error.to_string());
                Err(std::fmt::Error)
            } else {
                Ok(v)
            };
            if fail_at == 0 {
                let e = bad(g, &text);
                want = Err(e.to_string());
                handle_result(Err::<Result<u64, std::fmt::Error>, _>(e))
            } else if depth == 2 {
                handle_result(Ok::<_, Bad>(inner))
            } else {
                let x: Result<Result<Result<u64, std::fmt::Error>, Bad>, anyhow::Error> = if fail_at == 2 {
                    want = Err(text.clone());
                    Err(anyhow::Error::msg(text.clone()))
                } else {
                    Ok(Ok(inner))
                };
                handle_result(x)
            }
        }
        _ => {
            let e = anyhow::Error::msg(text.clone()).context("outer");
            want = Err("outer".into());
            handle_result(Err::<u64, _>(e))
        }
    };
    match (got, want) {
        (Ok(a), Ok(b)) => check_eq!(a, b, "result"),
        (Err(e), Err(m)) => {
            check_eq!(e.message(), m, "error message");
            check_eq!(e.code(), -32000, "error code");
            check!(e.data().is_none(), "error data");
        }
        (a, b) => return Err(format!("got {a:?}, wanted {b:?}")),
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    All,
    Mapped,
    Filtered,
    Direct,
}

enum Op {
    Subscribe(usize, Kind),
    Unsubscribe(usize),
    Broadcast(Vec<u64>),
}

fn seen(k: Kind, events: &[u64]) -> Vec<String> {
    let f = |e: &u64| match k {
        Kind::All | Kind::Direct => Some(e.to_string()),
        Kind::Mapped => Some(format!("\"<{e}>\"")),
        Kind::Filtered => (e % 3 == 0).then(|| format!("[{},{e}]", e / 3)),
    };
    events.iter().filter_map(f).collect()
}

pub fn events(g: &mut Gen) -> Result<(), String> {
    let clients = 1 + g.usize(3);
    let mut live = 0usize;
    let mut total = 0;
    let mut subs = 0;
    let ops: Vec<Op> = g.vec(3, 14, |g| match g.weighted(&[3, 1, 4]) {
        0 => {
            subs += 1;
            live += 1;
            Op::Subscribe(g.usize(clients), *g.pick(&[Kind::All, Kind::Mapped, Kind::Filtered, Kind::Direct]))
        }
        1 if live > 0 => {
            live -= 1;
            Op::Unsubscribe(g.usize(live + 1))
        }
        _ => {
            let v = g.vec(1, 40, |g| g.below(1000));
            total += v.len();
            Op::Broadcast(v)
        }
    });
    g.nontrivial_if(subs > 1 && total > 4);
    block(async {
        let source: Arc<Mutex<Broadcaster<u64>>> = Arc::new(Mutex::new(Broadcaster::new()));
        let mut m = RpcModule::new(source.clone());
        m.register_subscription("all", "all_event", "un_all", |_, pending, ctx, _| async move {
            let rx = ctx.lock().unwrap().subscribe();
            subscription::connect_broadcast(rx, pending).await
        })
        .map_err(|e| e.to_string())?;
        m.register_subscription("mapped", "mapped_event", "un_mapped", |_, pending, ctx, _| async move {
            let rx = ctx.lock().unwrap().subscribe();
            subscription::connect_broadcast_map(rx, pending, |e| format!("<{e}>")).await
        })
        .map_err(|e| e.to_string())?;
        m.register_subscription("filtered", "filtered_event", "un_filtered", |_, pending, ctx, _| async move {
            let rx = ctx.lock().unwrap().subscribe();
            subscription::connect_broadcast_filter_map(rx, pending, |e| (e % 3 == 0).then_some((e / 3, e))).await
        })
        .map_err(|e| e.to_string())?;
        m.register_subscription("direct", "direct_event", "un_direct", |_, pending, ctx, _| async move {
            let mut rx = ctx.lock().unwrap().subscribe();
            let sink = subscription::accept::<u64>(pending).await?;
            if sink.method_name() != "direct_event" {
                return Err(format!("method name {}", sink.method_name()).into());
            }
            while let Some(e) = rx.recv().await {
                sink.send(&e).await?;
            }
            Ok(())
        })
        .map_err(|e| e.to_string())?;
        let server = Builder::new("127.0.0.1:0".parse().unwrap(), None)
            .register(m)
            .build()
            .await
            .map_err(|e| e.to_string())?;
        let mut conns = Vec::new();
        for _ in 0..clients {
            conns.push(
                rpc::new_ws_client(format!("ws://{}", server.http_address()), RpcAuthData::None)
                    .await
                    .map_err(|e| e.to_string())?,
            );
        }
        async fn drain(sub: &mut Subscription<serde_json::Value>, kind: Kind, sent: &[u64], n: usize) -> Result<(), String> {
            let want = seen(kind, sent);
            let mut got = Vec::new();
            while got.len() < want.len() {
                match tokio::time::timeout(Duration::from_secs(20), sub.next()).await {
                    Ok(Some(Ok(v))) => got.push(v.to_string()),
                    Ok(other) => return Err(format!("subscriber {n} lost its stream: {other:?} after {got:?}, wanted {want:?}")),
                    Err(_) => return Err(format!("subscriber {n} got {got:?} and no more, wanted {want:?}")),
                }
            }
            check_eq!(got, want, "events of subscriber {n}");
            Ok(())
        }
        let mut active: Vec<(usize, Kind, Subscription<serde_json::Value>, Vec<u64>)> = Vec::new();
        let mut serial = 0;
        for op in &ops {
            match op {
                Op::Subscribe(c, k) => {
                    let (s, u) = match k {
                        Kind::All => ("all", "un_all"),
                        Kind::Mapped => ("mapped", "un_mapped"),
                        Kind::Filtered => ("filtered", "un_filtered"),
                        Kind::Direct => ("direct", "un_direct"),
                    };
                    let sub = conns[*c].subscribe(s, [(); 0], u).await.map_err(|e| e.to_string())?;
                    active.push((serial, *k, sub, vec![]));
                    serial += 1;
                }
                Op::Unsubscribe(i) => {
                    let (n, k, mut sub, sent) = active.remove(*i);
                    drain(&mut sub, k, &sent, n).await?;
                    sub.unsubscribe().await.map_err(|e| e.to_string())?;
                }
                Op::Broadcast(es) => {
                    for e in es {
                        source.lock().unwrap().broadcast(e);
                        active.iter_mut().for_each(|a| a.3.push(*e));
                        if e % 7 == 0 {
                            tokio::task::yield_now().await;
                        }
                    }
                }
            }
        }
        // One more event that every kind shows: nothing may come between.
        source.lock().unwrap().broadcast(&3003);
        for (n, k, sub, sent) in active.iter_mut() {
            sent.push(3003);
            drain(sub, *k, sent, *n).await?;
        }
        server.shutdown().await;
        Ok(())
    })
}
