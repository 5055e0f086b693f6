mod auth;
mod describe;
mod json;
mod serve;

use pbt::{enumerated, facet, Property};

/// Runs a future on a runtime of its own, with a limit on the wall clock that no healthy run comes near.
pub fn block<T>(f: impl std::future::Future<Output = Result<T, String>>) -> Result<T, String> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().map_err(|e| e.to_string())?;
    let res = rt.block_on(async { tokio::time::timeout(std::time::Duration::from_secs(60), f).await });
    rt.shutdown_background();
    res.unwrap_or_else(|_| Err("no answer within 60 s".into()))
}

pub const P: Property = Property {
    id: "C20",
    rule: "auth: a request that carries an Authorization header; creds: a cookie file is created; methods: at least 2 modules; events: at least 2 subscribers and 5 events; json/hints: a composite value",
    facets: &[
        facet("auth", 1040, auth::auth),
        facet("creds", 6000, auth::creds),
        facet("cookie_load", 6000, auth::cookie_load),
        facet("clients", 640, auth::clients),
        facet("methods", 800, serve::methods),
        facet("results", 8000, serve::results),
        facet("events", 640, serve::events),
        facet("hex_and_text", 80000, json::hex_and_text),
        facet("hints_match_json", 24000, describe::hints),
        facet("hint_text", 24000, describe::hint_text),
        facet("described_calls", 600, describe::described_calls),
        enumerated("description", 1, describe::description),
    ],
    assumptions: &[
        "HTTP framing, JSON-RPC envelopes, WebSocket transport and base64 belong to jsonrpsee/hyper/base64 and are judged only through what the server answers",
        "at most one Authorization header per request",
    ],
};

fn main() {
    pbt::main(&[P])
}
