//! A small property-based testing engine.
//!
//! A property ("facet") is a function of a [`Gen`], a source of choices. In a search the choices are drawn from a
//! generator seeded by (VERIF_SEED, property, facet, case number); while shrinking and replaying they come from a
//! recorded sequence. A failure is shrunk on the choice sequence (block deletion, zeroing, lowering), and the shrunk
//! sequence together with its rendering becomes the replay file.
//!
//! Facets run in a child process, so that an abort, a stack overflow or a hang is attributed to its case too.

use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    io::Write as _,
    os::unix::fs::FileExt as _,
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! check {
    ($cond:expr, $($arg:tt)+) => {
        if !($cond) { return Err(format!($($arg)+)); }
    };
}

#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $($arg:tt)+) => {{
        match (&$a, &$b) {
            (a, b) => if !(*a == *b) { return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)+), a, b)); },
        }
    }};
}

#[macro_export]
macro_rules! note {
    ($g:expr, $($arg:tt)+) => { if $g.recording { let s = format!($($arg)+); $g.push_note(s); } };
}

/// Marks the case as being of a class (a histogram of classes goes to the evidence).
pub struct Gen {
    replay: Vec<u64>,
    pos: usize,
    state: Option<u64>,
    drawn: Vec<u64>,
    pub recording: bool,
    notes: Vec<String>,
    tags: Vec<&'static str>,
    nontrivial: bool,
    pub thorough: bool,
}

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

fn hash_str(s: &str, seed: u64) -> u64 {
    s.bytes().fold(mix(seed ^ 0x1234_5678), |h, b| mix(h ^ u64::from(b)).wrapping_add(0x9e3779b97f4a7c15))
}

impl Gen {
    fn random(seed: u64, prefix: Vec<u64>, thorough: bool) -> Self {
        Gen {
            replay: prefix,
            pos: 0,
            state: Some(seed),
            drawn: Vec::new(),
            recording: false,
            notes: Vec::new(),
            tags: Vec::new(),
            nontrivial: false,
            thorough,
        }
    }

    fn replaying(choices: Vec<u64>, thorough: bool) -> Self {
        let mut g = Self::random(0, choices, thorough);
        g.state = None;
        g
    }

    fn next_raw(&mut self) -> u64 {
        let s = self.state.as_mut().expect("random mode");
        *s = s.wrapping_add(0x9e3779b97f4a7c15);
        mix(*s)
    }

    /// A value in `0..n` (`n == 0` means the whole u64 range). Shrinks towards 0.
    pub fn below(&mut self, n: u64) -> u64 {
        let v = if self.pos < self.replay.len() {
            let v = self.replay[self.pos];
            self.pos += 1;
            if n == 0 {
                v
            } else {
                v.min(n - 1)
            }
        } else if self.state.is_some() {
            let r = self.next_raw();
            if n == 0 {
                r
            } else {
                ((u128::from(r) * u128::from(n)) >> 64) as u64
            }
        } else {
            0
        };
        self.drawn.push(v);
        v
    }

    /// Has a replayed choice sequence run out? (Loops that end on a drawn condition terminate anyhow.)
    pub fn exhausted(&self) -> bool {
        self.state.is_none() && self.pos >= self.replay.len()
    }

    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below((hi - lo).wrapping_add(1))
    }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability num/den; shrinks towards false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn raw64(&mut self) -> u64 {
        self.below(0)
    }
    pub fn raw128(&mut self) -> u128 {
        (u128::from(self.raw64()) << 64) | u128::from(self.raw64())
    }
    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usize(xs.len())]
    }
    /// Index drawn with the given weights.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let mut r = self.below(ws.iter().sum());
        for (i, w) in ws.iter().enumerate() {
            if r < *w {
                return i;
            }
            r -= w;
        }
        ws.len() - 1
    }

    /// Unsigned of at most `bits` bits, biased to the boundaries (0, powers of two, the maximum) and to all magnitudes.
    pub fn uint(&mut self, bits: u32) -> u128 {
        let max = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
        let v = match self.weighted(&[3, 3, 4, 2, 3]) {
            0 => u128::from(self.below(20)),
            1 => {
                let sh = self.below(u64::from(bits) + 1) as u32;
                let p = if sh >= 128 { 0u128 } else { 1u128 << sh };
                let d = u128::from(self.below(5));
                if self.bool() {
                    p.wrapping_sub(d)
                } else {
                    p.wrapping_add(d)
                }
            }
            2 => {
                let sh = self.below(u64::from(bits)) as u32;
                (self.raw128() & max) >> sh
            }
            3 => max.wrapping_sub(u128::from(self.below(20))),
            _ => self.raw128(),
        };
        v & max
    }
    pub fn u128(&mut self) -> u128 {
        self.uint(128)
    }
    pub fn u64(&mut self) -> u64 {
        self.uint(64) as u64
    }
    pub fn u32(&mut self) -> u32 {
        self.uint(32) as u32
    }
    pub fn u16(&mut self) -> u16 {
        self.uint(16) as u16
    }
    pub fn u8(&mut self) -> u8 {
        self.uint(8) as u8
    }

    pub fn bytes_exact(&mut self, n: usize) -> Vec<u8> {
        let style = self.weighted(&[6, 1, 1, 1]);
        match style {
            0 => {
                let mut v = Vec::with_capacity(n + 8);
                while v.len() < n {
                    v.extend_from_slice(&self.raw64().to_le_bytes());
                }
                v.truncate(n);
                v
            }
            1 => {
                let b = *self.pick(&[0u8, 0xff, 0x80, 1]);
                vec![b; n]
            }
            2 => {
                let mut v = vec![0u8; n];
                if n > 0 {
                    let k = self.usize(n);
                    v[k] = self.byte();
                }
                v
            }
            _ => (0..n).map(|_| *self.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xff])).collect(),
        }
    }
    pub fn bytes(&mut self, lo: usize, hi: usize) -> Vec<u8> {
        let n = self.len(lo, hi);
        self.bytes_exact(n)
    }
    pub fn array<const N: usize>(&mut self) -> [u8; N] {
        self.bytes_exact(N).try_into().expect("length")
    }
    /// A length in lo..=hi, biased to the short end and to the bounds.
    pub fn len(&mut self, lo: usize, hi: usize) -> usize {
        match self.weighted(&[5, 3, 1, 1]) {
            0 => self.urange(lo, hi.min(lo + 8)),
            1 => self.urange(lo, hi),
            2 => hi,
            _ => lo,
        }
    }
    pub fn vec<T>(&mut self, lo: usize, hi: usize, mut f: impl FnMut(&mut Gen) -> T) -> Vec<T> {
        let n = self.len(lo, hi);
        (0..n).map(|_| f(self)).collect()
    }
    /// A string over the characters of `alphabet`.
    pub fn string(&mut self, alphabet: &[char], lo: usize, hi: usize) -> String {
        let n = self.len(lo, hi);
        (0..n).map(|_| *self.pick(alphabet)).collect()
    }
    /// Any text: ASCII-heavy, with multi-byte characters.
    pub fn text(&mut self, hi: usize) -> String {
        let n = self.len(0, hi);
        (0..n)
            .map(|_| match self.weighted(&[8, 2, 1, 1]) {
                0 => char::from(self.range(0x20, 0x7e) as u8),
                1 => *self.pick(&['0', '1', '9', '.', '-', '+', ' ', '%', '/', ':', ',', '_', 'e', 'E', 'x', '"', '\\']),
                2 => *self.pick(&['\0', '\n', '\t', '\r', '\u{7f}']),
                _ => *self.pick(&['é', 'ß', '٣', '中', '😀', '\u{200b}', '０', 'İ', 'ſ', 'K']),
            })
            .collect()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.usize(i + 1);
            xs.swap(i, j);
        }
    }
    /// A random seed for generators that the code under test wants.
    pub fn seed(&mut self) -> u64 {
        self.raw64()
    }

    pub fn tag(&mut self, t: &'static str) {
        if !self.tags.contains(&t) {
            self.tags.push(t);
        }
    }
    pub fn tag_if(&mut self, c: bool, t: &'static str) {
        if c {
            self.tag(t)
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    pub fn push_note(&mut self, s: String) {
        let total: usize = self.notes.iter().map(|s| s.len()).sum();
        if total < 6000 {
            let mut s = s;
            if s.len() > 1500 {
                let mut k = 1500;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.notes.push(s);
        }
    }
}

pub type Prop = fn(&mut Gen) -> Res;

#[derive(Clone, Copy)]
pub struct Facet {
    pub name: &'static str,
    /// Cases in the quick tier.
    pub quick: u64,
    /// Cases in the thorough tier.
    pub thorough: u64,
    pub f: Prop,
    pub threads: usize,
    /// The first `below` draw enumerates 0..quick (in both tiers): a completely enumerated finite space.
    pub enumerated: bool,
    /// A case that runs for this long hangs.
    pub hang_secs: u64,
}

pub const fn facet(name: &'static str, quick: u64, f: Prop) -> Facet {
    Facet { name, quick, thorough: quick * 30, f, threads: 8, enumerated: false, hang_secs: 90 }
}
pub const fn enumerated(name: &'static str, n: u64, f: Prop) -> Facet {
    Facet { name, quick: n, thorough: n, f, threads: 8, enumerated: true, hang_secs: 90 }
}
impl Facet {
    pub const fn threads(mut self, n: usize) -> Self {
        self.threads = n;
        self
    }
    pub const fn thorough(mut self, n: u64) -> Self {
        self.thorough = n;
        self
    }
}

pub struct Property {
    pub id: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub facets: &'static [Facet],
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("PBT_BT").is_some() {
            eprintln!("panic: {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic: {msg} at {loc}")));
    }));
}

/// Runs `f`; a panic becomes Err with its message (for checks in which a panic is an answer).
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

fn run_case(f: Prop, g: &mut Gen) -> Res {
    match no_panic(|| f(&mut *g)) {
        Ok(r) => r,
        Err(p) => Err(format!("crash: {p}")),
    }
}

fn case_seed(seed: u64, prop: &str, facet: &str, i: u64) -> u64 {
    mix(hash_str(facet, hash_str(prop, seed)) ^ mix(i.wrapping_mul(0x9e3779b97f4a7c15)))
}

fn make_gen(seed: u64, prop: &str, fc: &Facet, i: u64, thorough: bool) -> Gen {
    let prefix = if fc.enumerated { vec![i] } else { vec![] };
    Gen::random(case_seed(seed, prop, fc.name, i), prefix, thorough)
}

/// The class of a failure: its text with digits and quoted values cut, so that a shrink keeps to one failure.
fn shrink(f: Prop, mut best: Vec<u64>, thorough: bool, budget: Duration) -> (Vec<u64>, u64) {
    let start = Instant::now();
    let mut tried = 0u64;
    let fails = |c: &[u64], tried: &mut u64| -> Option<Vec<u64>> {
        *tried += 1;
        let mut g = Gen::replaying(c.to_vec(), thorough);
        run_case(f, &mut g).is_err().then(|| {
            let mut d = g.drawn;
            while d.last() == Some(&0) {
                d.pop();
            }
            d
        })
    };
    let better = |a: &[u64], b: &[u64]| (a.len(), a) < (b.len(), b);
    loop {
        let before = best.clone();
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() {
                if start.elapsed() > budget {
                    return (best, tried);
                }
                let mut c = best.clone();
                c.drain(i..i + size);
                match fails(&c, &mut tried) {
                    Some(d) if better(&d, &best) => best = d,
                    _ => i += size.div_ceil(2).max(1),
                }
            }
            size /= 2;
        }
        // lower values
        let mut i = 0;
        while i < best.len() {
            if start.elapsed() > budget {
                return (best, tried);
            }
            let v = best[i];
            if v > 0 {
                let mut cands = vec![0, v / 2, v - 1];
                if v > 1000 {
                    cands.extend([v % 256, v >> 32, v >> 8]);
                }
                for c in cands {
                    if i >= best.len() || c >= best[i] {
                        continue;
                    }
                    let mut t = best.clone();
                    t[i] = c;
                    if let Some(d) = fails(&t, &mut tried) {
                        if better(&d, &best) {
                            best = d;
                        }
                    }
                }
                // binary search downwards
                if i < best.len() && best[i] > 1 {
                    let (mut lo, mut hi) = (0, best[i]);
                    while lo + 1 < hi && start.elapsed() < budget {
                        let mid = lo + (hi - lo) / 2;
                        let mut t = best.clone();
                        if i >= t.len() {
                            break;
                        }
                        t[i] = mid;
                        match fails(&t, &mut tried) {
                            Some(d) if better(&d, &best) => {
                                best = d;
                                hi = mid;
                            }
                            _ => lo = mid,
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before {
            return (best, tried);
        }
    }
}

#[derive(Default)]
struct Stats {
    cases: u64,
    nontrivial_hashes: HashSet<u64>,
    tags: BTreeMap<&'static str, u64>,
    samples: Vec<u64>,
    known: BTreeMap<String, (u64, String)>,
}

struct Known {
    sigs: Vec<(String, String)>,
}

fn known_sig(known: &Known, err: &str) -> Option<String> {
    let rest = err.strip_prefix('[')?;
    let (sig, _) = rest.split_once(']')?;
    known.sigs.iter().find(|(s, _)| s == sig).map(|(s, _)| s.clone())
}

struct Args {
    prop: String,
    thorough: bool,
    seed: u64,
    out: PathBuf,
    replays: PathBuf,
    known: Option<PathBuf>,
    child: bool,
    one: Option<(String, u64)>,
    only: Option<String>,
    scale: f64,
}

fn parse_args() -> (Args, Option<PathBuf>) {
    let mut a = Args {
        prop: String::new(),
        thorough: std::env::var("VERIF_TIER").as_deref() == Ok("thorough"),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1),
        out: "evidence".into(),
        replays: "replays".into(),
        known: None,
        child: false,
        one: None,
        only: None,
        scale: 1.0,
    };
    let mut replay = None;
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut val = || it.next().expect("value");
        match x.as_str() {
            "--tier" => a.thorough = val() == "thorough",
            "--seed" => a.seed = val().parse().expect("seed"),
            "--evidence" => a.out = val().into(),
            "--replays" => a.replays = val().into(),
            "--known" => a.known = Some(val().into()),
            "--child" => a.child = true,
            "--only" => a.only = Some(val()),
            "--scale" => a.scale = val().parse().expect("scale"),
            "--one" => {
                let v = val();
                let (f, i) = v.rsplit_once(':').expect("facet:case");
                a.one = Some((f.into(), i.parse().expect("case")));
            }
            "--replay" => replay = Some(PathBuf::from(val())),
            _ => a.prop = x,
        }
    }
    (a, replay)
}

fn load_known(path: &Option<PathBuf>, prop: &str) -> Known {
    let mut sigs = vec![];
    if let Some(text) = path.as_ref().and_then(|p| std::fs::read_to_string(p).ok()) {
        for line in text.lines().filter(|l| l.trim_start().starts_with('{')) {
            let v: serde_json::Value = serde_json::from_str(line).expect("known findings are JSON lines");
            if v["property"] == prop && v["status"] == "known" {
                sigs.push((
                    v["signature"].as_str().expect("signature").to_string(),
                    v["what"].as_str().unwrap_or("").to_string(),
                ));
            }
        }
    }
    Known { sigs }
}

fn describe(f: Prop, mut g: Gen) -> (Gen, Res) {
    g.recording = true;
    let r = run_case(f, &mut g);
    (g, r)
}

fn write_replay(dir: &Path, prop: &str, fc: &Facet, v: serde_json::Value) -> PathBuf {
    std::fs::create_dir_all(dir).expect("replay dir");
    let path = dir.join(format!("{prop}-{}.json", fc.name));
    std::fs::write(&path, serde_json::to_string_pretty(&v).expect("json")).expect("write replay");
    path
}

fn rlimit() {
    // Generous, but a runaway allocation must not take the machine down.
    let lim = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &lim) };
    let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::setrlimit(libc::RLIMIT_CORE, &core) };
}

/// Runs the facets; prints VIOLATION lines; returns the evidence and whether there was a violation.
fn run_child(p: &Property, a: &Args) -> i32 {
    rlimit();
    let start = Instant::now();
    let known = load_known(&a.known, p.id);
    let slots_path = a.replays.join(format!(".{}-slots", p.id));
    std::fs::create_dir_all(&a.replays).expect("dir");
    let slots = std::fs::File::create(&slots_path).expect("slots");
    let total_cap = Duration::from_secs(if a.thorough { 1500 } else { 240 });
    let mut violations = 0;
    let mut facets_json = serde_json::Map::new();
    let mut samples = vec![];
    let (mut evals, mut distinct) = (0u64, 0u64);
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();

    for (fi, fc) in p.facets.iter().enumerate() {
        if a.only.as_deref().is_some_and(|o| o != fc.name) {
            continue;
        }
        let n = if a.thorough { fc.thorough } else { fc.quick };
        let n = if fc.enumerated { n } else { ((n as f64) * a.scale).ceil() as u64 };
        let fstart = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let capped = AtomicBool::new(false);
        let failure: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let all = Mutex::new(Stats::default());
        let running: Vec<Mutex<Option<(u64, Instant)>>> = (0..fc.threads).map(|_| Mutex::new(None)).collect();
        let finished = AtomicU64::new(0);
        std::thread::scope(|s| {
            for t in 0..fc.threads {
                let (next, stop, capped, failure, all, running, slots, known, finished) =
                    (&next, &stop, &capped, &failure, &all, &running, &slots, &known, &finished);
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, move || {
                        let mut st = Stats::default();
                        let chunk = (n / (fc.threads as u64 * 64)).clamp(1, 64);
                        'outer: loop {
                            let from = next.fetch_add(chunk, Ordering::Relaxed);
                            if from >= n || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if start.elapsed() > total_cap {
                                capped.store(true, Ordering::Relaxed);
                                break;
                            }
                            for i in from..(from + chunk).min(n) {
                                let mut rec = [0u8; 16];
                                rec[..8].copy_from_slice(&(fi as u64 + 1).to_le_bytes());
                                rec[8..].copy_from_slice(&i.to_le_bytes());
                                let _ = slots.write_all_at(&rec, t as u64 * 16);
                                *running[t].lock().unwrap() = Some((i, Instant::now()));
                                let mut g = make_gen(a.seed, p.id, fc, i, a.thorough);
                                let r = run_case(fc.f, &mut g);
                                st.cases += 1;
                                for t in &g.tags {
                                    *st.tags.entry(t).or_default() += 1;
                                }
                                if g.nontrivial {
                                    let h = g.drawn.iter().fold(0xabcdef, |h, v| mix(h ^ *v).wrapping_add(*v));
                                    if st.nontrivial_hashes.len() < 2_000_000 && st.nontrivial_hashes.insert(h) && st.samples.len() < 2 {
                                        st.samples.push(i);
                                    }
                                }
                                if let Err(e) = r {
                                    if let Some(sig) = known_sig(known, &e) {
                                        st.known.entry(sig).or_insert((0, e)).0 += 1;
                                        continue;
                                    }
                                    let mut fl = failure.lock().unwrap();
                                    if fl.as_ref().is_none_or(|(j, _)| i < *j) {
                                        *fl = Some((i, e));
                                    }
                                    stop.store(true, Ordering::Relaxed);
                                    break 'outer;
                                }
                            }
                        }
                        *running[t].lock().unwrap() = None;
                        finished.fetch_add(1, Ordering::SeqCst);
                        let mut al = all.lock().unwrap();
                        al.cases += st.cases;
                        al.nontrivial_hashes.extend(st.nontrivial_hashes);
                        for (k, v) in st.tags {
                            *al.tags.entry(k).or_default() += v;
                        }
                        for (k, v) in st.known {
                            al.known.entry(k).or_insert((0, v.1)).0 += v.0;
                        }
                        al.samples.extend(st.samples);
                    })
                    .expect("spawn");
            }
            // watchdog
            let mut tick = 0u64;
            while finished.load(Ordering::SeqCst) < fc.threads as u64 {
                std::thread::sleep(Duration::from_millis(if tick < 200 { 5 } else { 50 }));
                tick += 1;
                for r in &running {
                    let cur = *r.lock().unwrap();
                    if let Some((i, since)) = cur {
                        if since.elapsed() > Duration::from_secs(fc.hang_secs) {
                            let path = write_replay(
                                &a.replays,
                                p.id,
                                fc,
                                serde_json::json!({"property": p.id, "facet": fc.name, "seed": a.seed, "case": i,
                                    "tier": if a.thorough {"thorough"} else {"quick"},
                                    "error": format!("the case did not end within {} s", fc.hang_secs)}),
                            );
                            println!("{}: facet {}: case {i} hangs", p.id, fc.name);
                            println!("HANG {}", path.display());
                            let _ = std::io::stdout().flush();
                            unsafe { libc::_exit(4) };
                        }
                    }
                }
            }
        });
        let st = all.into_inner().unwrap();
        let failure = failure.into_inner().unwrap();
        if let Some((i, err)) = failure {
            violations += 1;
            let mut g = make_gen(a.seed, p.id, fc, i, a.thorough);
            let r0 = run_case(fc.f, &mut g);
            let (choices, tried) = if r0.is_err() {
                shrink(fc.f, g.drawn.clone(), a.thorough, Duration::from_secs(if a.thorough { 60 } else { 15 }))
            } else {
                (g.drawn.clone(), 0)
            };
            let (g, r) = describe(fc.f, Gen::replaying(choices.clone(), a.thorough));
            let shown = r.err().unwrap_or_else(|| format!("{err} (not reproduced when run again)"));
            let path = write_replay(
                &a.replays,
                p.id,
                fc,
                serde_json::json!({"property": p.id, "facet": fc.name, "seed": a.seed, "case": i, "choices": choices,
                    "tier": if a.thorough {"thorough"} else {"quick"},
                    "error": shown, "first_error": err, "input": g.notes, "shrink_attempts": tried}),
            );
            println!("{}: facet {}: case {i}: {}", p.id, fc.name, shown);
            for n in g.notes.iter().take(20) {
                println!("    {n}");
            }
            println!("VIOLATION property={} replay={}", p.id, path.display());
        }
        for (k, v) in &st.known {
            *known_seen.entry(k.clone()).or_default() += v.0;
        }
        let mut idx = st.samples.clone();
        idx.sort();
        for i in idx.into_iter().take(2) {
            let (g, _) = describe(fc.f, make_gen(a.seed, p.id, fc, i, a.thorough));
            let mut text = g.notes.join("; ");
            if text.len() > 700 {
                let mut k = 700;
                while !text.is_char_boundary(k) {
                    k -= 1;
                }
                text.truncate(k);
                text.push_str("...");
            }
            samples.push(serde_json::json!(format!("{} #{}: {}", fc.name, i, text)));
        }
        evals += st.cases;
        distinct += st.nontrivial_hashes.len() as u64;
        let mut fj = serde_json::json!({
            "cases": st.cases, "planned": n, "distinct_nontrivial": st.nontrivial_hashes.len(), "classes": st.tags,
            "wall_s": (fstart.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        });
        if fc.enumerated {
            fj["exhaustive"] = (st.cases == n).into();
        }
        if capped.load(Ordering::Relaxed) {
            fj["stopped_by_time_cap"] = true.into();
        }
        facets_json.insert(fc.name.to_string(), fj);
    }
    for (s, what) in &known.sigs {
        println!("KNOWN-FINDING: property={} {} [{}; met {} times]", p.id, what, s, known_seen.get(s).unwrap_or(&0));
    }
    let ev = serde_json::json!({
        "property": p.id, "tier": if a.thorough {"thorough"} else {"quick"}, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct, "rule": p.rule, "samples": samples, "facets": facets_json,
        },
        "assumptions": p.assumptions,
        "wall_s": (start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": violations,
    });
    std::fs::create_dir_all(&a.out).expect("evidence dir");
    std::fs::write(a.out.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).expect("json"))
        .expect("write evidence");
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1} s, {} violations",
        p.id,
        evals,
        distinct,
        start.elapsed().as_secs_f64(),
        violations
    );
    let _ = std::io::stdout().flush();
    let _ = std::fs::remove_file(&slots_path);
    if violations > 0 {
        1
    } else {
        0
    }
}

fn exit_now(code: i32) -> ! {
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(code) }
}

pub fn main(props: &[Property]) -> ! {
    let (a, replay) = parse_args();
    install_hook();
    if let Some(path) = replay {
        let v: serde_json::Value =
            serde_json::from_str(&std::fs::read_to_string(&path).expect("replay file")).expect("json");
        let p = props.iter().find(|p| v["property"] == p.id).expect("known property");
        let fc = p.facets.iter().find(|f| v["facet"] == f.name).expect("known facet");
        let thorough = v["tier"] == "thorough";
        let g = match v.get("choices").and_then(|c| c.as_array()) {
            Some(c) => Gen::replaying(c.iter().map(|x| x.as_u64().expect("u64")).collect(), thorough),
            None => make_gen(v["seed"].as_u64().unwrap(), p.id, fc, v["case"].as_u64().unwrap(), thorough),
        };
        let (g, r) = describe(fc.f, g);
        for n in &g.notes {
            println!("    {n}");
        }
        match r {
            Ok(()) => {
                println!("{}: facet {}: the case passes", p.id, fc.name);
                exit_now(0)
            }
            Err(e) => {
                println!("{}: facet {}: {e}", p.id, fc.name);
                println!("VIOLATION property={} replay={}", p.id, path.display());
                exit_now(1)
            }
        }
    }
    let Some(p) = props.iter().find(|p| p.id == a.prop) else {
        eprintln!("no property {} here", a.prop);
        exit_now(2)
    };
    if let Some((f, i)) = &a.one {
        rlimit();
        let fc = p.facets.iter().find(|x| x.name == f).expect("facet");
        let t = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn({
                let (seed, id, fc, i, th) = (a.seed, p.id, *fc, *i, a.thorough);
                move || {
                    let mut g = make_gen(seed, id, &fc, i, th);
                    run_case(fc.f, &mut g)
                }
            })
            .expect("spawn");
        let r = t.join().expect("case thread");
        exit_now(if r.is_err() { 1 } else { 0 })
    }
    if a.child {
        let c = run_child(p, &a);
        exit_now(c)
    }
    // Parent.
    let me = std::env::current_exe().expect("exe");
    let rest: Vec<String> = std::env::args().skip(1).collect();
    let st = std::process::Command::new(&me).args(&rest).arg("--child").status().expect("child");
    if let Some(c) = st.code() {
        if c != 4 {
            exit_now(c)
        }
        // A hang: confirm it on its own before reporting.
    }
    use std::os::unix::process::ExitStatusExt as _;
    let sig = st.signal();
    eprintln!("the search process ended by {:?} / signal {:?}", st.code(), sig);
    if sig == Some(libc::SIGKILL) || sig == Some(libc::SIGTERM) {
        exit_now(3)
    }
    let slots = std::fs::read(a.replays.join(format!(".{}-slots", p.id))).unwrap_or_default();
    let mut found = false;
    for s in slots.chunks_exact(16) {
        let fi = u64::from_le_bytes(s[..8].try_into().unwrap());
        let i = u64::from_le_bytes(s[8..].try_into().unwrap());
        if fi == 0 {
            continue;
        }
        let fc = &p.facets[fi as usize - 1];
        let mut ch = std::process::Command::new(&me)
            .args([p.id, "--one", &format!("{}:{i}", fc.name), "--seed", &a.seed.to_string()])
            .args(["--tier", if a.thorough { "thorough" } else { "quick" }])
            .stderr(std::process::Stdio::null())
            .spawn()
            .expect("child");
        let t0 = Instant::now();
        let verdict = loop {
            if let Some(st) = ch.try_wait().expect("wait") {
                break match st.signal() {
                    Some(sg) if sg != libc::SIGKILL && sg != libc::SIGTERM => Some(format!("the process died by signal {sg}")),
                    _ if st.code() == Some(1) => Some("the case fails".to_string()),
                    _ => None,
                };
            }
            if t0.elapsed() > Duration::from_secs(fc.hang_secs) {
                let _ = ch.kill();
                let _ = ch.wait();
                break Some(format!("the case did not end within {} s, twice", fc.hang_secs));
            }
            std::thread::sleep(Duration::from_millis(10));
        };
        if let Some(why) = verdict {
            found = true;
            let path = write_replay(
                &a.replays,
                p.id,
                fc,
                serde_json::json!({"property": p.id, "facet": fc.name, "seed": a.seed, "case": i,
                    "tier": if a.thorough {"thorough"} else {"quick"}, "error": why}),
            );
            println!("{}: facet {}: case {i}: {why}", p.id, fc.name);
            println!("VIOLATION property={} replay={}", p.id, path.display());
            break;
        }
    }
    std::fs::create_dir_all(&a.out).expect("evidence dir");
    let ev = serde_json::json!({
        "property": p.id, "tier": if a.thorough {"thorough"} else {"quick"}, "seed": a.seed, "level": "exploration",
        "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": p.rule,
            "samples": [format!("the search ended by {:?} / signal {:?}", st.code(), sig)]},
        "wall_s": 0.0, "violations": i32::from(found),
    });
    std::fs::write(a.out.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).expect("json")).expect("write");
    exit_now(if found { 1 } else { 3 })
}
