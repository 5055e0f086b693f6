//! Who is admitted: the Authorization header, the credentials and the cookie file.

use std::{
    os::unix::fs::PermissionsExt,
    path::Path,
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc,
    },
};

use jsonrpsee::{core::client::ClientT, RpcModule};
use pbt::{check, check_eq, Gen};
use rpc::{
    rpc_creds::{RpcCreds, RpcCredsError},
    Builder, RpcAuthData,
};
use tokio::io::{AsyncReadExt, AsyncWriteExt};

use crate::block;

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn b64(data: &[u8]) -> String {
    let mut out = String::new();
    for c in data.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                out.push(B64[(n >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                out.push('=');
            }
        }
    }
    out
}

/// The one byte string whose padded base64 is `text`.
fn b64_back(text: &[u8]) -> Option<Vec<u8>> {
    if text.len() % 4 != 0 {
        return None;
    }
    let mut out = Vec::new();
    for c in text.chunks(4) {
        let pad = c.iter().rev().take_while(|x| **x == b'=').count();
        let mut n = 0u32;
        for x in &c[..4 - pad] {
            n = n << 6 | B64.iter().position(|y| y == x)? as u32;
        }
        n <<= 6 * pad;
        out.extend_from_slice(&[(n >> 16) as u8, (n >> 8) as u8, n as u8][..3usize.saturating_sub(pad)]);
    }
    (b64(&out).as_bytes() == text).then_some(out)
}

fn module(hits: Arc<AtomicUsize>) -> RpcModule<()> {
    let mut m = RpcModule::new(());
    m.register_method("ping", move |_, _, _| {
        hits.fetch_add(1, Ordering::SeqCst);
        "pong"
    })
    .expect("fresh module");
    m
}

async fn raw(addr: &std::net::SocketAddr, head: &[u8], body: &[u8]) -> Result<(u16, String, String), String> {
    let mut s = tokio::net::TcpStream::connect(addr).await.map_err(|e| format!("connect: {e}"))?;
    let mut req = head.to_vec();
    req.extend_from_slice(
        format!("Host: localhost\r\nConnection: close\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n", body.len())
            .as_bytes(),
    );
    req.extend_from_slice(body);
    s.write_all(&req).await.map_err(|e| format!("write: {e}"))?;
    let mut resp = Vec::new();
    s.read_to_end(&mut resp).await.map_err(|e| format!("read: {e}"))?;
    let resp = String::from_utf8_lossy(&resp).into_owned();
    let (head, body) = resp.split_once("\r\n\r\n").ok_or_else(|| format!("not an HTTP answer: {resp:?}"))?;
    let code = head.split(' ').nth(1).and_then(|c| c.parse().ok()).ok_or_else(|| format!("no status: {head}"))?;
    Ok((code, head.to_ascii_lowercase(), body.to_owned()))
}

fn word(g: &mut Gen, colon: bool) -> String {
    let s = match g.weighted(&[4, 2, 1, 1]) {
        0 => g.string(&['a', 'b', 'A', 'u', '1', '_', '-', ' '], 0, 12),
        1 => g.text(12),
        2 => g.string(&['a', 'é', '漢', '🦀', '\0', '\n'], 0, 6),
        _ => g.string(&['a', ':', '=', '+', '/'], 0, 20),
    };
    if colon {
        s
    } else {
        s.replace(':', ";")
    }
}

fn near(g: &mut Gen, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    match g.below(9) {
        0 => c.push('a'),
        1 => drop(c.pop()),
        2 => c.insert(0, 'a'),
        3 if !c.is_empty() => drop(c.remove(0)),
        4 => return s.to_uppercase(),
        5 => return s.to_lowercase(),
        6 => c.push('\0'),
        7 if !c.is_empty() => {
            let i = g.usize(c.len());
            c[i] = char::from_u32(c[i] as u32 ^ 1).unwrap_or('x');
        }
        _ => c.push(' '),
    }
    c.into_iter().collect()
}

pub fn auth(g: &mut Gen) -> Result<(), String> {
    let user = word(g, false);
    let pass = word(g, true);
    let secured = !g.chance(1, 12);
    let n = 2 + g.usize(6);
    let mut reqs: Vec<(Option<Vec<u8>>, &'static str)> = Vec::new();
    for _ in 0..n {
        let creds = format!("{user}:{pass}");
        let right = b64(creds.as_bytes());
        reqs.push(match g.below(14) {
            0 => (None, "no header"),
            1 | 2 => (Some(format!("Basic {right}").into_bytes()), "right"),
            3 => (Some(format!("Basic {}", b64(format!("{}:{pass}", near(g, &user)).as_bytes())).into_bytes()), "near user"),
            4 => (Some(format!("Basic {}", b64(format!("{user}:{}", near(g, &pass)).as_bytes())).into_bytes()), "near password"),
            5 => (
                Some(format!("Basic {}", b64(format!("{}:{}", word(g, true), word(g, true)).as_bytes())).into_bytes()),
                "other",
            ),
            6 => (Some(format!("Basic {}", b64(format!("{pass}:{user}").as_bytes())).into_bytes()), "swapped"),
            7 => {
                let scheme = g.pick(&["", "basic ", "BASIC ", "Bearer ", "Basic", "Basic  ", "Basic\t", "Digest ", "Basic: "]).to_string();
                (Some(format!("{scheme}{right}").into_bytes()), "other scheme")
            }
            8 => {
                let mut t = right.into_bytes();
                match g.below(5) {
                    0 => drop(t.pop()),
                    1 => t.push(b'='),
                    2 if !t.is_empty() => {
                        let i = g.usize(t.len());
                        t[i] = *g.pick(b"-_.*!A/+=");
                    }
                    3 => {
                        let i = g.usize(t.len() + 1);
                        t.insert(i, *g.pick(b" =Aa\xC3"));
                    }
                    _ => t.retain(|c| *c != b'='),
                }
                (Some([b"Basic ".as_slice(), &t].concat()), "bent base64")
            }
            9 => {
                let mut t = creds.into_bytes();
                let i = g.usize(t.len() + 1);
                t.insert(i, g.range(0x80, 0xff) as u8);
                (Some(format!("Basic {}", b64(&t)).into_bytes()), "not utf-8")
            }
            10 => (Some(format!("Basic {}", b64(creds.replace(':', "").as_bytes())).into_bytes()), "no colon"),
            11 => (Some(format!("Basic {right} ").into_bytes()), "trailing blank"),
            12 => (Some(g.vec(0, 30, |g| g.range(0x21, 0x7e) as u8)), "noise"),
            _ => (Some(b"Basic ".to_vec()), "empty"),
        });
    }
    if reqs.iter().any(|r| r.0.is_some()) {
        g.nontrivial();
    }
    let ws_at = g.usize(n);
    let path = *g.pick(&["/", "/rpc", "/..", "/?a=b"]);

    block(async {
        let hits = Arc::new(AtomicUsize::new(0));
        let creds = if secured {
            Some(RpcCreds::basic(&user, &pass).map_err(|e| format!("credentials refused: {e}"))?)
        } else {
            None
        };
        let server = Builder::new("127.0.0.1:0".parse().unwrap(), creds)
            .register(module(hits.clone()))
            .build()
            .await
            .map_err(|e| e.to_string())?;
        let mut expected_hits = 0;
        for (i, (header, what)) in reqs.iter().enumerate() {
            // What the header says, read the way RFC 7617 has it.
            let value = header.as_ref().map(|h| {
                let a = h.iter().position(|c| *c != b' ' && *c != b'\t').unwrap_or(h.len());
                let b = h.iter().rposition(|c| *c != b' ' && *c != b'\t').map_or(a, |x| x + 1);
                &h[a..b]
            });
            let expected = match value {
                _ if !secured => 200,
                None => 401,
                Some(v) => match v.strip_prefix(b"Basic ").and_then(b64_back).and_then(|d| String::from_utf8(d).ok()) {
                    Some(s) => match s.split_once(':') {
                        Some((u, p)) if u == user && p == pass => 200,
                        Some(_) => 401,
                        None => 400,
                    },
                    None => 400,
                },
            };
            let ws = i == ws_at;
            let mut head = if ws {
                format!("GET {path} HTTP/1.1\r\nUpgrade: websocket\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n")
            } else {
                format!("POST {path} HTTP/1.1\r\n")
            }
            .into_bytes();
            if let Some(h) = header {
                head.extend_from_slice(b"Authorization: ");
                head.extend_from_slice(h);
                head.extend_from_slice(b"\r\n");
            }
            let body = br#"{"jsonrpc":"2.0","id":7,"method":"ping","params":[]}"#;
            if ws {
                // (the upgrade itself belongs to the transport; a refused one must look like any other refusal)
                if expected != 200 {
                    let (code, _, _) = raw(server.http_address(), &head, b"").await?;
                    check_eq!(code, expected, "websocket upgrade with header {:?} ({what}); user {user:?} password {pass:?}", header.as_ref().map(|h| String::from_utf8_lossy(h).into_owned()));
                }
                continue;
            }
            let (code, rhead, rbody) = raw(server.http_address(), &head, body).await?;
            check_eq!(
                code,
                expected,
                "status for header {:?} ({what}); user {user:?} password {pass:?} secured {secured}",
                header.as_ref().map(|h| String::from_utf8_lossy(h).into_owned())
            );
            if expected == 200 {
                expected_hits += 1;
                check!(rbody.contains("\"pong\""), "no result in {rbody:?}");
            } else {
                check!(!rbody.contains("pong"), "a refused request was answered: {rbody:?}");
            }
            if expected == 401 {
                check!(rhead.contains("www-authenticate: basic"), "401 without a challenge: {rhead:?}");
            }
            check_eq!(hits.load(Ordering::SeqCst), expected_hits, "method runs after {what}");
        }
        server.shutdown().await;
        Ok(())
    })
}

fn snapshot(dir: &Path) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<_> = std::fs::read_dir(dir)
        .map(|d| {
            d.flatten()
                .map(|e| (e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap_or_default()))
                .collect()
        })
        .unwrap_or_default();
    v.sort();
    v
}

pub fn creds(g: &mut Gen) -> Result<(), String> {
    let dir = tempfile::tempdir().map_err(|e| e.to_string())?;
    let data_dir = dir.path().join("data");
    let with_dir = !g.chance(1, 10);
    if with_dir {
        std::fs::create_dir(&data_dir).map_err(|e| e.to_string())?;
    }
    let user = (g.chance(1, 4)).then(|| word(g, true));
    let pass = (g.chance(1, if user.is_some() { 2 } else { 8 })).then(|| word(g, true));
    let cookie_name = *g.pick(&["auth.cookie", "cookie", "c.d.e", ".hidden"]);
    let cookie = g.chance(1, 2).then(|| data_dir.join(cookie_name).to_string_lossy().into_owned());
    let target = data_dir.join(if cookie.is_some() { cookie_name } else { ".cookie" });
    // What an earlier run left behind: a file of the same name, and an unfinished temporary one.
    let stale = if with_dir && g.chance(1, 2) { Some(g.string(&['a', ':', '\n'], 0, 80)) } else { None };
    if let Some(s) = &stale {
        std::fs::write(&target, s).map_err(|e| e.to_string())?;
        let mode = *g.pick(&[0o600, 0o644]);
        std::fs::set_permissions(&target, std::fs::Permissions::from_mode(mode)).map_err(|e| e.to_string())?;
    }
    let half = if with_dir && g.chance(1, 2) { Some(g.string(&['a', ':', 'z'], 0, 80)) } else { None };
    if let Some(s) = &half {
        let tmp = target.with_extension("tmp");
        std::fs::write(&tmp, s).map_err(|e| e.to_string())?;
        std::fs::set_permissions(&tmp, std::fs::Permissions::from_mode(0o600)).map_err(|e| e.to_string())?;
    }
    if with_dir {
        std::fs::write(data_dir.join("wallet.dat"), b"precious").map_err(|e| e.to_string())?;
    }
    let before = snapshot(&data_dir);
    let runs = 1 + g.usize(3);
    let mut passwords = Vec::new();
    for _ in 0..runs {
        let got = RpcCreds::new(&data_dir, user.as_deref(), pass.as_deref(), cookie.as_deref());
        match (&user, &pass) {
            (Some(u), Some(p)) => match got {
                Ok(c) => {
                    check!(cookie.is_none() && !u.contains(':'), "credentials accepted: user {u:?}, cookie {cookie:?}");
                    check_eq!((c.username(), c.password()), (u.as_str(), p.as_str()), "credentials");
                    drop(c);
                    check_eq!(snapshot(&data_dir), before, "files after user/password credentials");
                }
                Err(RpcCredsError::InvalidCookieFileConfig) => check!(cookie.is_some(), "refused as if there were a cookie file"),
                Err(RpcCredsError::InvalidSymbolsInUsername(c)) => check!(u.contains(':') && c == ':', "user {u:?} refused for {c:?}"),
                Err(e) => return Err(format!("unexpected refusal: {e}")),
            },
            (None, None) => match got {
                Ok(c) => {
                    check!(with_dir, "a cookie file in a directory that does not exist");
                    g.nontrivial();
                    let on_disk = std::fs::read_to_string(&target).map_err(|e| format!("cookie file {target:?}: {e}"))?;
                    check_eq!(on_disk, format!("{}:{}", c.username(), c.password()), "cookie file (stale {stale:?}, unfinished {half:?})");
                    let (u, p) = utils::cookie::load_cookie(&target).map_err(|e| e.to_string())?;
                    check_eq!((u.as_str(), p.as_str()), (c.username(), c.password()), "loaded cookie");
                    check!(u == "__cookie__", "cookie user {u:?}");
                    check!(p.len() == 32 && p.bytes().all(|b| b.is_ascii_alphanumeric()), "cookie password {p:?}");
                    let mode = std::fs::metadata(&target).map_err(|e| e.to_string())?.permissions().mode() & 0o777;
                    check_eq!(mode, 0o600, "mode of the cookie file (octal 600 wanted)");
                    let mut now = snapshot(&data_dir);
                    now.retain(|(n, _)| *n != target.file_name().unwrap().to_string_lossy());
                    check_eq!(now, vec![("wallet.dat".to_string(), b"precious".to_vec())], "other files beside the cookie");
                    check!(!passwords.contains(&p), "the same password again: {p}");
                    passwords.push(p);
                    drop(c);
                    check!(!target.exists(), "the cookie file outlives its credentials");
                }
                Err(RpcCredsError::CookieFileIoError(p, _)) => {
                    check!(!with_dir, "cannot create {p:?}");
                    check_eq!(p, target, "file named in the error");
                }
                Err(e) => return Err(format!("unexpected refusal: {e}")),
            },
            _ => match got {
                Err(RpcCredsError::InvalidUsernamePasswordConfig) => check_eq!(snapshot(&data_dir), before, "files after a refusal"),
                Err(e) => return Err(format!("unexpected refusal: {e}")),
                Ok(_) => return Err(format!("half of the credentials accepted: {user:?} {pass:?}")),
            },
        }
    }
    Ok(())
}

pub fn cookie_load(g: &mut Gen) -> Result<(), String> {
    let dir = tempfile::tempdir().map_err(|e| e.to_string())?;
    let path = dir.path().join("c");
    let content = match g.below(4) {
        0 => g.bytes(0, 30),
        1 => g.text(20).into_bytes(),
        _ => g.string(&['a', ':', 'b', ' ', '\n', 'é'], 0, 16).into_bytes(),
    };
    let there = !g.chance(1, 20);
    if there {
        std::fs::write(&path, &content).map_err(|e| e.to_string())?;
    }
    let expected = std::str::from_utf8(&content).ok().filter(|_| there).and_then(|s| {
        let at = s.find(':')?;
        Some((s[..at].to_string(), s[at + 1..].to_string()))
    });
    if expected.is_some() {
        g.nontrivial();
    }
    let got = utils::cookie::load_cookie(&path).ok();
    check_eq!(got, expected, "cookie loaded from {:?}", String::from_utf8_lossy(&content));
    let header = RpcAuthData::Cookie { cookie_file_path: path }.get_header();
    check_eq!(
        header.map(|h| h.as_bytes().to_vec()),
        expected.as_ref().map(|(u, p)| format!("Basic {}", b64(format!("{u}:{p}").as_bytes())).into_bytes()),
        "header from the cookie {:?}",
        String::from_utf8_lossy(&content)
    );
    let (u, p) = (word(g, true), word(g, true));
    let header = RpcAuthData::Basic { username: u.clone(), password: p.clone() }.get_header();
    check_eq!(
        header.map(|h| h.as_bytes().to_vec()),
        Some(format!("Basic {}", b64(format!("{u}:{p}").as_bytes())).into_bytes()),
        "header for {u:?} {p:?}"
    );
    check!(RpcAuthData::None.get_header().is_none(), "a header without credentials");
    Ok(())
}

/// A node's life as its clients see it: it restarts with new credentials, the clients stay.
pub fn clients(g: &mut Gen) -> Result<(), String> {
    let dir = tempfile::tempdir().map_err(|e| e.to_string())?;
    let ws = g.bool();
    let lives: Vec<u8> = g.vec(1, 3, |g| g.below(3) as u8);
    let user = word(g, false);
    let pass = word(g, true);
    let wrong = near(g, &pass);
    g.nontrivial();
    block(async {
        let mut old_cookie: Option<(String, String)> = None;
        for life in &lives {
            let hits = Arc::new(AtomicUsize::new(0));
            let none: Option<&str> = None;
            let creds = match life {
                0 => None,
                1 => Some(RpcCreds::new(dir.path(), Some(&user), Some(&pass), none).map_err(|e| e.to_string())?),
                _ => Some(RpcCreds::new(dir.path(), none, none, none).map_err(|e| e.to_string())?),
            };
            let cookie_path = dir.path().join(".cookie");
            let server = Builder::new("127.0.0.1:0".parse().unwrap(), creds)
                .register(module(hits.clone()))
                .build()
                .await
                .map_err(|e| e.to_string())?;
            let cookie = utils::cookie::load_cookie(&cookie_path).ok();
            check_eq!(cookie.is_some(), *life == 2, "cookie file while the server runs");
            let basic = |u: &str, p: &str| RpcAuthData::Basic { username: u.into(), password: p.into() };
            let mut attempts = vec![
                (RpcAuthData::None, *life == 0, "nothing"),
                (basic(&user, &pass), *life != 2, "user and password"),
                (basic(&user, &wrong), *life == 0 || (*life == 1 && wrong == pass), "wrong password"),
                (RpcAuthData::Cookie { cookie_file_path: cookie_path.clone() }, *life != 1, "cookie"),
            ];
            if let Some((u, p)) = &old_cookie {
                attempts.push((basic(u, p), *life == 0, "the cookie of the previous run"));
            }
            for (auth, admitted, what) in attempts {
                let before = hits.load(Ordering::SeqCst);
                let got: Result<String, String> = if ws {
                    match rpc::new_ws_client(format!("ws://{}", server.http_address()), auth).await {
                        Ok(c) => c.request("ping", [(); 0]).await.map_err(|e| e.to_string()),
                        Err(e) => Err(e.to_string()),
                    }
                } else {
                    match rpc::new_http_client(format!("http://{}", server.http_address()), auth) {
                        Ok(c) => c.request("ping", [(); 0]).await.map_err(|e| e.to_string()),
                        Err(e) => Err(e.to_string()),
                    }
                };
                check!(got.is_ok() == admitted, "client with {what}, server mode {life}, ws {ws}: {got:?}");
                check_eq!(hits.load(Ordering::SeqCst) - before, admitted as usize, "runs for a client with {what}");
            }
            server.shutdown().await;
            check!(!cookie_path.exists(), "the cookie file outlives the server");
            if cookie.is_some() {
                old_cookie = cookie;
            }
        }
        Ok(())
    })
}
