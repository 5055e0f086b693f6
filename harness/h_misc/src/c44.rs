//! Settings: environment variables, log style and filter, defaults, the data directory.

use clap::Arg;
use logging::{log, LogStyle, TextColoring, ValueOrEnvVar, ValueOrEnvVarWithDefault, WriterSettings};
use pbt::*;
use serde_json::{json, Value};
use std::{ffi::OsString, io::Write, os::unix::ffi::OsStringExt, path::PathBuf, process::Command};
use utils::{
    clap_utils::{add_env, env_adder},
    default_data_dir::{default_data_dir_common, default_data_dir_for_chain, prepare_data_dir, PrepareDataDirError},
    env_utils::{bool_from_env, get_from_env, Error as EnvError},
    make_config_setting,
};

pub const P: Property = Property {
    id: "C44",
    rule: "a case is non-trivial when the setting was present in some form, the directory had at least two components, or the log had at least two lines",
    facets: &[
        facet("environment", 20000, environment).threads(1),
        facet("log_style", 60000, log_style),
        facet("log_style_env", 6000, log_style_env).threads(1),
        facet("defaults", 40000, defaults),
        facet("data_dir", 8000, data_dir),
        facet("home", 60, home),
        facet("argument_names", 20000, argument_names).threads(1),
        facet("log_output", 400, log_output),
    ],
    assumptions: &["log lines are read from the text after the level name"],
};

type Res = Result<(), String>;

fn any_case(g: &mut Gen, s: &str) -> String {
    s.chars().map(|c| if g.chance(1, 3) { c.to_ascii_uppercase() } else { c }).collect()
}

fn environment(g: &mut Gen) -> Res {
    let name = format!("PBT_C44_{}", g.pick(&["A", "LONGER_NAME", "b"]));
    let value: Option<OsString> = match g.below(6) {
        0 => None,
        1 => Some(OsString::from_vec({
            let mut b: Vec<u8> = g.bytes(0, 8);
            b.retain(|c| *c != 0);
            b
        })),
        2 | 3 => {
            let w = *g.pick(&["1", "yes", "true", "0", "no", "false"]);
            let s = any_case(g, w);
            Some(s.into())
        }
        4 => {
            let w = *g.pick(&["1 ", " yes", "truе", "00", "n", "falsee", "", "t", "10", "on", "y", "ＴＲＵＥ"]);
            Some(w.into())
        }
        _ => Some(g.text(8).replace('\0', "").into()),
    };
    note!(g, "{name}={value:?}");
    g.nontrivial_if(value.is_some());
    match &value {
        Some(v) => std::env::set_var(&name, v),
        None => std::env::remove_var(&name),
    }
    let text = value.as_ref().map(|v| v.to_str());
    match (get_from_env(&name), &text) {
        (Ok(None), None) => {}
        (Ok(Some(s)), Some(Some(t))) => check_eq!(s, *t, "value"),
        (Err(EnvError::GetFromEnvError(logging::GetFromEnvError::NotUnicode { var_name, data })), Some(None)) => {
            g.tag("not Unicode");
            check!(var_name == name && Some(&data) == value.as_ref(), "the error names {var_name} and {data:?}");
        }
        (r, _) => return Err(format!("got {r:?}")),
    }
    let lower = text.flatten().map(|t| t.to_ascii_lowercase());
    let want = match lower.as_deref() {
        Some("1" | "yes" | "true") => Some(true),
        Some("0" | "no" | "false") => Some(false),
        _ => None,
    };
    match bool_from_env(&name) {
        Ok(b) => {
            g.tag(if b.is_some() { "a switch" } else { "unset" });
            check!(b == want && (b.is_some() || value.is_none()), "read as {b:?}, expected {want:?}");
        }
        Err(EnvError::NonBoolValue { var_name, value: v }) => {
            check!(want.is_none() && text.flatten() == Some(&v[..]) && var_name == name, "refused as {v:?} of {var_name}");
        }
        Err(EnvError::GetFromEnvError(_)) => check!(text == Some(None), "refused"),
    }
    std::env::remove_var(&name);
    Ok(())
}

fn style_text(g: &mut Gen) -> String {
    let w = *g.pick(&["json", "text", "text-colored", "text-uncolored"]);
    let mut s = any_case(g, w);
    if g.chance(1, 2) {
        let mut c: Vec<char> = s.chars().collect();
        let i = g.usize(c.len() + 1);
        match g.below(4) {
            0 => c.insert(i, *g.pick(&[' ', '-', 'd', '_'])),
            1 if i < c.len() => {
                c.remove(i);
            }
            2 => c.truncate(i),
            _ if i < c.len() => c[i] = *g.pick(&['ｊ', 't', 'n', '_', '-']),
            _ => {}
        }
        s = c.into_iter().collect();
    }
    s
}

fn ref_style(s: &str) -> Option<LogStyle> {
    match &s.to_ascii_lowercase()[..] {
        "json" => Some(LogStyle::Json),
        "text" => Some(LogStyle::Text(TextColoring::Auto)),
        "text-colored" => Some(LogStyle::Text(TextColoring::On)),
        "text-uncolored" => Some(LogStyle::Text(TextColoring::Off)),
        _ => None,
    }
}

fn log_style(g: &mut Gen) -> Res {
    let s = if g.chance(1, 6) { g.text(10) } else { style_text(g) };
    note!(g, "{s:?}");
    g.nontrivial_if(!s.is_empty());
    g.tag(if ref_style(&s).is_some() { "valid" } else { "refused" });
    check_eq!(LogStyle::parse(&s).ok(), ref_style(&s), "parsed");
    Ok(())
}

fn log_style_env(g: &mut Gen) -> Res {
    let name = "PBT_C44_STYLE";
    let s = g.chance(5, 6).then(|| style_text(g));
    g.nontrivial_if(s.is_some());
    match &s {
        Some(s) => std::env::set_var(name, s),
        None => std::env::remove_var(name),
    }
    let got = logging::get_log_style_from_env(name);
    match &s {
        None => check_eq!(got, Ok(None), "unset"),
        Some(s) => check_eq!(got.ok(), ref_style(s).map(Some), "style {s:?} from the environment"),
    }
    std::env::set_var(name, OsString::from_vec(vec![b'j', 0xff]));
    check!(matches!(logging::get_log_style_from_env(name), Err(logging::LogStyleParseError::GetFromEnvError(_))), "bytes that are no text");
    Ok(())
}

make_config_setting!(Text, String, "the default".to_owned());
make_config_setting!(
    /// documented
    #[derive(PartialEq)]
    Number,
    u64,
    77
);
make_config_setting!(Maybe, Option<u8>, Some(3));
make_config_setting!(List, Vec<u16>, vec![1, 2]);

fn defaults(g: &mut Gen) -> Res {
    let given = g.bool();
    g.nontrivial_if(given);
    let v = g.u64();
    let n = Number::from(given.then_some(v));
    let want = if given { v } else { 77 };
    note!(g, "given {given}: {v}");
    check_eq!(*n, want, "the setting");
    check_eq!(*n.as_ref(), want, "as_ref");
    check_eq!(u64::from(n.clone()), want, "taken");
    check!(Number::new(v) == Number::from(v) && *Number::new(v) == v, "constructed");
    check_eq!(*Number::default(), 77, "default");
    let s = g.text(9);
    check_eq!(&**Text::from(given.then(|| s.clone())), if given { &s[..] } else { "the default" }, "text setting");
    check_eq!(*Text::new(s.clone()), s, "text setting constructed");
    check_eq!(String::from(Text::from(s.clone())), s, "text setting taken");
    let l: Vec<u16> = g.vec(0, 3, |g| g.u16());
    check_eq!(*List::from(given.then(|| l.clone())), if given { l } else { vec![1, 2] }, "list setting");
    let o = g.bool().then(|| g.u8());
    check_eq!(*Maybe::new(o), o, "optional setting");
    check_eq!(*Maybe::from(given.then_some(o)), if given { o } else { Some(3) }, "optional setting given or not");
    Ok(())
}

fn data_dir(g: &mut Gen) -> Res {
    let base = tempfile::tempdir().map_err(|e| e.to_string())?;
    let mut parts = || -> PathBuf {
        let n = g.range(1, 3);
        (0..n).map(|_| *g.pick(&["a", "b c", "é", "x.y"])).collect()
    };
    let (p, q) = (parts(), parts());
    let default = base.path().join("default").join(p);
    let custom = base.path().join("custom").join(&q);
    g.nontrivial_if(q.components().count() > 1);
    let chosen = g.bool();
    let target = if chosen { &custom } else { &default };
    let before = g.below(4);
    let blocked = match before {
        0 => {
            std::fs::create_dir_all(target).map_err(|e| e.to_string())?;
            std::fs::write(target.join("kept"), b"contents").map_err(|e| e.to_string())?;
            false
        }
        // a file stands where a parent should be
        1 => {
            let parent = target.parent().expect("has a parent");
            std::fs::create_dir_all(parent.parent().expect("has a parent")).map_err(|e| e.to_string())?;
            !parent.exists() && std::fs::write(parent, b"x").is_ok()
        }
        _ => false,
    };
    let create = *g.pick(&[None, Some(false), Some(true)]);
    let allowed = create.unwrap_or(!chosen);
    let existed = target.exists();
    note!(g, "custom {chosen}, {target:?}, exists {existed}, blocked {blocked}, create {create:?}");
    g.tag_if(blocked, "cannot be created");
    g.tag_if(existed, "exists");
    let got = prepare_data_dir(|| default.clone(), chosen.then_some(&custom), create);
    match got {
        Ok(p) => {
            check!(existed || allowed && !blocked, "prepared");
            check_eq!(&p, target, "directory");
            check!(target.is_dir(), "no directory is there");
            if existed {
                check_eq!(std::fs::read(target.join("kept")).ok(), Some(b"contents".to_vec()), "what was there");
            }
        }
        Err(PrepareDataDirError::DoesNotExist(p)) => {
            check!(!existed && !allowed, "refused as missing");
            check_eq!(&p, target, "missing directory");
            check!(!target.exists(), "created although refused");
        }
        Err(PrepareDataDirError::CreateFailed(p, _)) => {
            check!(!existed && allowed && blocked, "failed to create");
            check_eq!(&p, target, "directory not created");
        }
    }
    let other = if chosen { base.path().join("default") } else { base.path().join("custom") };
    check!(!other.exists(), "the other directory was touched");
    Ok(())
}

/// The default directory depends on the home directory only: asked in a process with its own.
fn home(g: &mut Gen) -> Res {
    let home = format!("/nonexistent/{}", g.pick(&["u", "a b", "é"]));
    let chain = g.pick(&["mainnet", "testnet", "regtest", "x"]).to_string();
    g.nontrivial();
    let out = Command::new(std::env::current_exe().map_err(|e| e.to_string())?)
        .args(["--child-log", &json!({"home": chain}).to_string()])
        .env("HOME", &home)
        .output()
        .map_err(|e| e.to_string())?;
    let got: Value = serde_json::from_slice(&out.stdout).map_err(|e| format!("child: {e}"))?;
    check_eq!(got["common"], json!(format!("{home}/.mintlayer")), "default directory");
    check_eq!(got["chain"], json!(format!("{home}/.mintlayer/{chain}")), "directory of a chain");
    Ok(())
}

fn argument_names(g: &mut Gen) -> Res {
    let words: Vec<&str> = (0..g.range(1, 4)).map(|_| *g.pick(&["rpc", "bind", "address", "x", "p2p", "max", "datadir"])).collect();
    let long: &'static str = Box::leak(words.join("-").into_boxed_str());
    let infix = *g.pick(&["NODE", "WALLET", "API"]);
    // heck splits "p2p" nowhere
    let want = format!("ML_{infix}_{}", words.join("_").to_uppercase());
    note!(g, "--{long} of {infix}: {want}");
    g.nontrivial_if(words.len() > 1);
    let given = g.bool();
    if given {
        std::env::set_var(&want, "from-env");
    } else {
        std::env::remove_var(&want);
    }
    let has_long = g.chance(5, 6);
    let arg = || if has_long { Arg::new("it").long(long) } else { Arg::new("it").short('i') };
    let mut adder = env_adder(infix);
    for a in [add_env(infix, arg()), adder(arg())] {
        check_eq!(a.get_env().map(|e| e.to_os_string()), has_long.then(|| OsString::from(&want)), "variable");
        let cmd = clap::Command::new("prog").arg(a);
        let m = cmd.clone().try_get_matches_from(["prog"]).map_err(|e| e.to_string())?;
        let want = (given && has_long).then_some("from-env");
        check_eq!(m.get_one::<String>("it").map(|s| &s[..]), want, "value without an argument");
        let flag = if has_long { format!("--{long}") } else { "-i".to_owned() };
        let m = cmd.try_get_matches_from(["prog", &flag, "said"]).map_err(|e| e.to_string())?;
        check_eq!(m.get_one::<String>("it").map(|s| &s[..]), Some("said"), "value with an argument");
    }
    std::env::remove_var(&want);
    Ok(())
}

// ---------------------------------------------------------------- the log of a process

const LEVELS: [log::Level; 5] = [log::Level::Error, log::Level::Warn, log::Level::Info, log::Level::Debug, log::Level::Trace];

pub fn child(spec: &str) {
    let spec: Value = serde_json::from_str(spec).expect("JSON");
    if let Some(chain) = spec["home"].as_str() {
        println!("{}", json!({"common": default_data_dir_common(), "chain": default_data_dir_for_chain(chain)}));
        return;
    }
    let s = |v: &Value| v.as_str().map(|s| s.to_owned());
    let settings = |v: &Value| {
        let file = std::fs::File::create(v["file"].as_str().expect("a file")).expect("created");
        WriterSettings {
            make_writer: logging::write_to_make_writer(file),
            is_terminal: v["terminal"] == true,
            filter: match s(&v["filter"]) {
                Some(f) => ValueOrEnvVarWithDefault::Value(f),
                None => ValueOrEnvVarWithDefault::EnvVar {
                    var_name: s(&v["filter_var"]).expect("a name").into(),
                    default_value: s(&v["default"]).expect("a filter"),
                },
            },
            log_style: match s(&v["style"]) {
                Some(t) => ValueOrEnvVar::Value(ref_style(&t).expect("a style")),
                None => ValueOrEnvVar::EnvVar(s(&v["style_var"]).expect("a name").into()),
            },
        }
    };
    match spec["how"].as_str() {
        Some("plain") => logging::init_logging(),
        Some("default") => logging::init_logging_with_default_filter(s(&spec["default"]).expect("a filter")),
        Some("to") => {
            let file = std::fs::File::create(spec["main"]["file"].as_str().expect("a file")).expect("created");
            logging::init_logging_to(file, spec["main"]["terminal"] == true);
        }
        _ => {
            let aux = (!spec["aux"].is_null()).then(|| settings(&spec["aux"]));
            logging::init_logging_generic(settings(&spec["main"]), aux);
        }
    }
    // asking again changes nothing
    logging::init_logging();
    for r in spec["records"].as_array().expect("records") {
        let level = LEVELS[r[1].as_u64().expect("a level") as usize];
        log::log!(target: r[0].as_str().expect("a target"), level, "{}", r[2].as_str().expect("a message"));
    }
    std::io::stderr().flush().expect("flushed");
}

/// What a filter lets through; `None` when it is no filter.
fn passes(filter: &str, target: &str, level: usize) -> Option<bool> {
    let mut best: Option<(usize, usize)> = None; // length of the target, levels
    let mut any = false;
    for d in filter.split(',').filter(|d| !d.is_empty()) {
        let (t, l) = match d.split_once('=') {
            Some((t, l)) => (t, Some(l)),
            None => (d, None),
        };
        let lev = |s: &str| match &s.to_ascii_lowercase()[..] {
            "off" => Some(0),
            "error" => Some(1),
            "warn" => Some(2),
            "info" => Some(3),
            "debug" => Some(4),
            "trace" => Some(5),
            _ => None,
        };
        let (t, l) = match l {
            Some(l) => (t, lev(l)?),
            None => match lev(t) {
                Some(l) => ("", l),
                None => (t, 5),
            },
        };
        any = true;
        if target.starts_with(t) && best.is_none_or(|(n, _)| n <= t.len()) {
            best = Some((t.len(), l));
        }
    }
    if !any {
        best = Some((0, 3));
    }
    Some(best.is_some_and(|(_, l)| level < l))
}

fn filter_text(g: &mut Gen) -> String {
    let n = g.range(0, 3);
    let mut seen = vec![];
    let mut d: Vec<String> = vec![];
    for _ in 0..n {
        let t = *g.pick(&["", "p2p", "p2p::net", "wallet", "p2", "chain::x"]);
        if seen.contains(&t) {
            continue;
        }
        seen.push(t);
        let l = *g.pick(&["off", "error", "warn", "info", "debug", "trace", "INFO", "Debug"]);
        d.push(match t {
            "" => l.to_owned(),
            t if g.chance(1, 4) => t.to_owned(),
            t => format!("{t}={l}"),
        });
    }
    if g.chance(1, 8) {
        d.push("p2p=loud".to_owned());
    }
    d.join(",")
}

struct Sink {
    file: PathBuf,
    terminal: bool,
    filter: String,
    /// The style in force.
    style: LogStyle,
    bad_style: bool,
}

fn sink(g: &mut Gen, dir: &std::path::Path, name: &str, env: &mut Vec<(String, String)>) -> (Value, Sink) {
    let file = dir.join(name);
    let terminal = g.bool();
    let mut spec = json!({"file": file, "terminal": terminal});
    let f = filter_text(g);
    let filter = match g.below(3) {
        0 => {
            spec["filter"] = json!(f);
            f
        }
        k => {
            let var = format!("PBT_FILTER_{name}");
            spec["filter_var"] = json!(var);
            let d = filter_text(g);
            spec["default"] = json!(d);
            if k == 1 {
                env.push((var, f.clone()));
                f
            } else {
                d
            }
        }
    };
    let st = style_text(g);
    let mut bad_style = false;
    let style = match (ref_style(&st), g.below(3)) {
        (Some(s), 0) => {
            spec["style"] = json!(st);
            s
        }
        (s, k) => {
            let var = format!("PBT_STYLE_{name}");
            spec["style_var"] = json!(var);
            if k == 1 {
                env.push((var, st));
                bad_style = s.is_none();
                s.unwrap_or(LogStyle::Text(TextColoring::Auto))
            } else {
                LogStyle::Text(TextColoring::Auto)
            }
        }
    };
    (spec, Sink { file, terminal, filter, style, bad_style })
}

fn log_output(g: &mut Gen) -> Res {
    let dir = tempfile::tempdir().map_err(|e| e.to_string())?;
    let mut env: Vec<(String, String)> = vec![];
    let n = g.range(1, 12) as usize;
    let records: Vec<(String, usize, String)> = (0..n)
        .map(|i| {
            let t = g.pick(&["p2p", "p2p::net::peer", "wallet", "chain::x", "chain", "p"]).to_string();
            (t, g.usize(5), format!("message-{i}-end"))
        })
        .collect();
    let mut spec = json!({"records": records});
    let mut sinks = vec![];
    let how = g.below(5);
    match how {
        0 | 1 => {
            // to the standard error stream, or to a given file, with the usual variables
            let to = how == 1;
            let f = g.bool().then(|| filter_text(g));
            let st = g.bool().then(|| style_text(g));
            let mut filter = "info".to_owned();
            if to {
                spec["how"] = json!("to");
            } else if g.bool() {
                filter = filter_text(g);
                spec["how"] = json!("default");
                spec["default"] = json!(filter);
            } else {
                spec["how"] = json!("plain");
            }
            if let Some(f) = &f {
                env.push(("RUST_LOG".into(), f.clone()));
                filter = f.clone();
            }
            if let Some(s) = &st {
                env.push(("ML_LOG_STYLE".into(), s.clone()));
            }
            let parsed = st.as_deref().and_then(ref_style);
            let terminal = to && g.bool();
            let file = if to { dir.path().join("main") } else { PathBuf::new() };
            spec["main"] = json!({"file": file, "terminal": terminal});
            let style = parsed.unwrap_or(LogStyle::Text(TextColoring::Auto));
            sinks.push(Sink { file, terminal, filter, style, bad_style: st.is_some() && parsed.is_none() });
        }
        _ => {
            let (v, s) = sink(g, dir.path(), "main", &mut env);
            spec["main"] = v;
            sinks.push(s);
            if how > 2 {
                let (v, s) = sink(g, dir.path(), "aux", &mut env);
                spec["aux"] = v;
                sinks.push(s);
            }
        }
    }
    note!(g, "{spec} with {env:?}");
    let out = Command::new(std::env::current_exe().map_err(|e| e.to_string())?)
        .args(["--child-log", &spec.to_string()])
        .env_remove("RUST_LOG")
        .env_remove("ML_LOG_STYLE")
        .env_remove("NO_COLOR")
        .envs(env.iter().map(|(k, v)| (k, v)))
        .output()
        .map_err(|e| e.to_string())?;
    check!(out.status.success(), "the process ended with {}: {}", out.status, String::from_utf8_lossy(&out.stderr));
    // errors met while setting up are logged to every sink that takes errors of their target
    let errors: usize = sinks.iter().map(|s| s.bad_style as usize + passes(&s.filter, "", 0).is_none() as usize).sum();
    g.tag_if(errors > 0, "bad settings");
    for s in &sinks {
        let text = if s.file.as_os_str().is_empty() { out.stderr.clone() } else { std::fs::read(&s.file).map_err(|e| e.to_string())? };
        let text = String::from_utf8(text).map_err(|e| e.to_string())?;
        let filter = if passes(&s.filter, "", 0).is_none() { "info" } else { &s.filter };
        let passes = |t: &str, l: usize| passes(filter, t, l) == Some(true);
        let mut want: Vec<&(String, usize, String)> = records.iter().filter(|(t, l, _)| passes(t, *l)).collect();
        want.reverse();
        let mut complaints = 0;
        for line in text.lines() {
            if line.contains("Log initialization error") {
                complaints += 1;
                continue;
            }
            let Some((t, l, m)) = want.pop() else {
                return Err(format!("a line too many: {line:?} (filter {filter:?})"));
            };
            let level = LEVELS[*l].as_str();
            let color = s.style == LogStyle::Text(TextColoring::On) || s.style == LogStyle::Text(TextColoring::Auto) && s.terminal;
            check_eq!(line.contains('\x1b'), color, "colours in {line:?} with {:?}, terminal {}", s.style, s.terminal);
            if s.style == LogStyle::Json {
                let v: Value = serde_json::from_str(line).map_err(|e| format!("{line:?} is no JSON: {e}"))?;
                check!(v["level"] == level && v["target"] == **t && v["fields"]["message"] == **m, "line {line:?} for {t} {level} {m}");
            } else {
                check!(
                    line.contains(level) && line.contains(&t[..]) && line.contains(&m[..]) && !line.starts_with('{'),
                    "line {line:?} for {t} {level} {m}"
                );
            }
        }
        check!(want.is_empty(), "missing with filter {filter:?}: {want:?} in {text:?}");
        let heard = passes("logging", 0);
        check_eq!(complaints, if heard { errors } else { 0 }, "complaints about settings in {text:?}");
        g.nontrivial_if(text.lines().count() > 1);
    }
    Ok(())
}
