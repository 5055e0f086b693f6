//! Wrappers, names and small building blocks: they add nothing to what they wrap.

use parity_scale_codec as _;
use pbt::*;
use randomness::RngExt as _;
use serialization::{Decode, DecodeAll, Encode};
use std::{
    borrow::{Borrow, Cow},
    cmp::Ordering,
    collections::hash_map::DefaultHasher,
    fmt::Debug,
    hash::{Hash, Hasher},
    marker::PhantomData,
    num::*,
    rc::Rc,
    sync::Arc,
};
use test_utils::random::Seed;
use tokio::sync::mpsc;
use typename::TypeName;
use utils::{
    app_version::{AppVersionGitInfo, AppVersionWithGitInfo},
    concatln, const_nz_i128, const_nz_i64, const_nz_u16, const_nz_u64, const_nz_u8, const_nz_usize,
    const_value::ConstValue,
    construct_fixed_hash, cow_utils::CowUtils as _, debug_assert_or_log, debug_panic_or_log, displayable_option::DisplayableOption as _,
    ensure, newtype,
    sender_with_id::MpscUnboundedSenderWithId,
    set_flag::SetFlag,
    shallow_clone::ShallowClone,
    try_as::TryAsRef,
};

pub const P: Property = Property {
    id: "C46",
    rule: "a case is non-trivial when the two values differed, the history had at least two steps, or the text was not empty",
    facets: &[
        facet("wrappers", 60000, wrappers),
        facet("options", 40000, options),
        enumerated("names", 1, names),
        facet("hashes", 40000, hashes),
        facet("flags", 40000, flags),
        facet("senders", 12000, senders),
        facet("sharing", 20000, sharing),
        facet("guards", 40000, guards),
        facet("versions", 20000, versions),
    ],
    assumptions: &["git hashes are at least 12 ASCII characters long"],
};

type Res = Result<(), String>;

fn digest<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

newtype! {
    #[derive(Clone, Debug, PartialEq)]
    pub struct Wrapped(Vec<u16>);
}

newtype! {
    #[derive(Debug)]
    struct Text(String);
}

fn wrappers(g: &mut Gen) -> Res {
    let (a, b) = (g.f(), g.f());
    g.nontrivial_if(a != b);
    note!(g, "{a:?} and {b:?}");
    let (ca, cb) = (ConstValue::new(a.clone()), ConstValue::from(b.clone()));
    check_eq!((&*ca, ca.as_ref(), Borrow::<String>::borrow(&ca)), (&a, &a, &a), "contents");
    check_eq!(ca.to_string(), a, "displayed");
    check_eq!(format!("{ca:>8}|{cb:<3.2}"), format!("{a:>8}|{b:<3.2}"), "displayed in a width");
    check_eq!(format!("{ca:?}"), format!("ConstValue({a:?})"), "debug text");
    check_eq!((ca == cb, ca.cmp(&cb), ca.partial_cmp(&cb)), (a == b, a.cmp(&b), a.partial_cmp(&b)), "comparison");
    check_eq!(digest(&ca), digest(&a), "hash");
    check!(ca.clone() == ca && ca.shallow_clone() == ca, "clones");
    check_eq!(ca.take(), a, "taken");
    check_eq!(ConstValue::<String>::default().take(), "", "default");
    let f = ConstValue::new(f64::NAN);
    check!(f.partial_cmp(&f).is_none() && f != f, "unordered values are made ordered");
    // newtype
    let v: Vec<u16> = g.vec(0, 4, |g| g.u16());
    let mut w = Wrapped::new(v.clone());
    check_eq!((w.inner(), &*w), (&v, &v), "inner");
    let x = g.u16();
    let mut model = v;
    for _ in 0..g.range(1, 4) {
        match g.below(3) {
            0 => {
                w.push(x);
                model.push(x);
            }
            1 => {
                w.inner_mut().insert(0, x);
                model.insert(0, x);
            }
            _ => {
                *w = vec![x, x];
                model = vec![x, x];
            }
        }
    }
    check_eq!(w.inner(), &model, "after changes");
    check_eq!(Vec::from(w.clone()), model, "converted");
    check_eq!(Wrapped::from(model.clone()), w, "converted to");
    check_eq!(w.take(), model, "taken");
    check_eq!(Text::new(a.clone()).take(), a, "text taken");
    // Cow
    let c = if g.bool() { Cow::Borrowed(&a) } else { Cow::Owned(a.clone()) };
    let o: Cow<'static, String> = c.to_owned_cow();
    check!(matches!(&o, Cow::Owned(x) if *x == a) && *c == a, "owned copy");
    check_eq!(TryAsRef::<String>::try_as_ref(&a), Some(&a), "a value as itself");
    Ok(())
}

trait Few {
    fn f(&mut self) -> String;
}

impl Few for Gen {
    /// Texts that are often equal.
    fn f(&mut self) -> String {
        if self.chance(1, 3) {
            self.pick(&["", "a", "b", "ab"]).to_string()
        } else {
            self.text(6)
        }
    }
}

fn options(g: &mut Gen) -> Res {
    let x = g.bool().then(|| g.u64() as i64);
    g.nontrivial_if(x.is_some());
    let text = |s: Option<String>| s.unwrap_or_else(|| "None".to_owned());
    check_eq!(x.as_displayable().to_string(), text(x.map(|v| v.to_string())), "decimal");
    check_eq!(format!("{:x}", x.as_displayable()), text(x.map(|v| format!("{v:x}"))), "hexadecimal");
    check_eq!(format!("{:X}", x.as_displayable()), text(x.map(|v| format!("{v:X}"))), "capital hexadecimal");
    let s = g.bool().then(|| g.text(5));
    check_eq!(s.as_displayable().to_string(), text(s.clone()), "text");
    Ok(())
}

#[derive(TypeName)]
struct Simple;

#[derive(TypeName)]
#[allow(dead_code)]
enum Choice {
    A(u8),
    B,
}

#[derive(TypeName)]
struct One<T>(PhantomData<T>);

#[derive(TypeName)]
#[allow(dead_code)]
enum Three<A, B, C> {
    X(A),
    Y(B),
    Z { c: C },
}

#[derive(TypeName)]
struct WithLifetime<'a, T>(PhantomData<&'a T>);

fn names(g: &mut Gen) -> Res {
    g.nontrivial();
    check_eq!(Simple::typename_str(), "Simple", "struct");
    check_eq!(Choice::typename_str(), "Choice", "enum");
    check_eq!(<()>::typename_str(), "()", "unit");
    check_eq!(<One<Simple>>::typename_str(), "One<Simple>", "one parameter");
    check_eq!(<One<One<()>>>::typename_str(), "One<One<()>>", "nested");
    check_eq!(<Three<Simple, Choice, One<Simple>>>::typename_str(), "Three<Simple,Choice,One<Simple>>", "three parameters");
    check_eq!(<Three<(), Three<Simple, (), Choice>, One<Choice>>>::typename_str(), "Three<(),Three<Simple,(),Choice>,One<Choice>>", "nested parameters");
    check_eq!(<WithLifetime<'static, Choice>>::typename_str(), "WithLifetime<Choice>", "with a lifetime");
    check_eq!(concatln!("a", "b\n", "", "c"), "a\nb\n\n\nc", "lines");
    check_eq!(concatln!("x"), "x", "one line");
    const A: NonZeroU8 = const_nz_u8!(7);
    check_eq!(
        (A.get(), const_nz_u16!(65535).get(), const_nz_u64!(1 << 63).get(), const_nz_usize!(3).get(), const_nz_i64!(-1).get(), const_nz_i128!(i128::MIN).get()),
        (7, 65535, 1 << 63, 3, -1, i128::MIN),
        "non-zero constants"
    );
    Ok(())
}

construct_fixed_hash! {
    #[derive(Encode, Decode)]
    pub struct H20(20);
}

construct_fixed_hash! {
    #[derive(Encode, Decode)]
    pub struct H32(32);
}

fn hashes(g: &mut Gen) -> Res {
    let a: [u8; 32] = g.array();
    let mut b = a;
    if g.bool() {
        b[g.usize(32)] = g.u8();
    }
    g.nontrivial_if(a != b);
    let (x, y) = (H32(a), H32(b));
    check_eq!((x == y, x.cmp(&y), x < y), (a == b, a.cmp(&b), a < b), "comparison");
    check_eq!(x.encode(), a, "encoding");
    check_eq!(H32::decode_all(&mut &a[..]), Ok(x), "decoded");
    check!(H32::decode_all(&mut &a[..31]).is_err(), "decoded from 31 bytes");
    check_eq!(x.as_bytes(), &a[..], "bytes");
    let hex: String = a.iter().map(|b| format!("{b:02x}")).collect();
    check_eq!(format!("{x:x}"), hex, "hexadecimal");
    check_eq!(format!("{x:?}"), format!("0x{hex}"), "debug text");
    check!(H32::zero().is_zero() && x.is_zero() == a.iter().all(|b| *b == 0), "zero");
    // random ones: every byte is drawn, in order, from the generator
    let seed = g.seed();
    let draw = |f: &dyn Fn(&mut randomness_rng::R) -> Vec<u8>| f(&mut randomness_rng::R::new(Seed::from_u64(seed)));
    let want = draw(&|r| (0..20).map(|_| r.random::<u8>()).collect());
    check_eq!(draw(&|r| H20::random_using(r).as_bytes().to_vec()), want, "random");
    check_eq!(
        draw(&|r| {
            let mut h = H20::repeat_byte(7);
            h.randomize_using(r);
            h.as_bytes().to_vec()
        }),
        want,
        "randomized"
    );
    check_eq!(draw(&|r| r.random::<H20>().as_bytes().to_vec()), want, "drawn");
    Ok(())
}

mod randomness_rng {
    pub type R = test_utils::random::TestRng;
}

fn flags(g: &mut Gen) -> Res {
    let mut f = SetFlag::new();
    let mut set = false;
    for i in 0..g.range(1, 8) {
        g.nontrivial_if(i > 0);
        match g.below(3) {
            0 => check_eq!(f.test(), set, "step {i}"),
            1 => {
                f.set();
                set = true;
            }
            _ => {
                check_eq!(f.test_and_set(), set, "step {i}: old value");
                set = true;
            }
        }
        check_eq!(f.test(), set, "after step {i}");
    }
    Ok(())
}

fn senders(g: &mut Gen) -> Res {
    let (tx, mut rx) = mpsc::unbounded_channel::<(u8, String)>();
    let mut txs: Vec<(u8, MpscUnboundedSenderWithId<u8, String>)> = (0..3).map(|i| (i, MpscUnboundedSenderWithId::new(i, tx.clone()))).collect();
    drop(tx);
    let mut queue = std::collections::VecDeque::new();
    let mut open = true;
    for i in 0..g.range(1, 12) {
        g.nontrivial_if(i > 0);
        match g.below(6) {
            0..=2 if !txs.is_empty() => {
                let k = g.usize(txs.len());
                let m = g.text(4);
                match txs[k].1.send(m.clone()) {
                    Ok(()) => {
                        check!(open, "sent after the receiver left");
                        queue.push_back((txs[k].0, m));
                    }
                    Err(e) => check!(!open && e.0 == m, "send fails with {:?}", e.0),
                }
            }
            3 | 4 if open => {
                let got = rx.try_recv().ok();
                check_eq!(got, queue.pop_front(), "received");
            }
            5 if g.chance(1, 3) => {
                rx.close();
                open = false;
            }
            5 if !txs.is_empty() && g.bool() => {
                let k = g.usize(txs.len());
                txs.remove(k);
            }
            _ => {}
        }
        for (_, t) in &txs {
            check_eq!(t.is_closed(), !open, "closed");
            let closed = futures::FutureExt::now_or_never(t.closed()).is_some();
            check_eq!(closed, !open, "the future of closing");
        }
    }
    while let Ok(m) = rx.try_recv() {
        check_eq!(Some(m), queue.pop_front(), "drained");
    }
    check!(queue.is_empty(), "lost: {queue:?}");
    Ok(())
}

fn sharing(g: &mut Gen) -> Res {
    let v: Vec<u8> = g.bytes(0, 8);
    g.nontrivial_if(!v.is_empty());
    let a = Arc::new(v.clone());
    let b = a.shallow_clone();
    check!(Arc::ptr_eq(&a, &b) && Arc::strong_count(&a) == 2, "an Arc is copied");
    let a = Rc::new(v.clone());
    check!(Rc::ptr_eq(&a, &a.shallow_clone()) && Rc::strong_count(&a) == 1, "an Rc is copied");
    let r = &v;
    check!(std::ptr::eq(r.shallow_clone(), r), "a reference is copied");
    let s = &v[..];
    check!(std::ptr::eq(s.shallow_clone(), s), "a slice is copied");
    let p = &v as *const Vec<u8>;
    check!(p.shallow_clone() == p && PhantomData::<u8>.shallow_clone() == PhantomData, "a pointer changes");
    Ok(())
}

fn guarded(c: bool, counted: &mut u32) -> Result<u32, String> {
    ensure!(c, {
        *counted += 1;
        format!("made {counted}")
    });
    Ok(5)
}

fn guarded_option(c: bool) -> Option<u32> {
    ensure!(c);
    Some(5)
}

fn guards(g: &mut Gen) -> Res {
    let c = g.bool();
    g.nontrivial_if(!c);
    let mut n = 0;
    check_eq!(guarded(c, &mut n), if c { Ok(5) } else { Err("made 1".to_owned()) }, "ensure");
    check_eq!(n, !c as u32, "times the error was made");
    check_eq!(guarded_option(c), c.then_some(5), "ensure of an option");
    // this program has debug assertions on
    let x = g.u8();
    let r = no_panic(|| {
        debug_assert_or_log!(c, "value {x}");
        1
    });
    match r {
        Ok(1) => check!(c, "a failed assertion goes unnoticed"),
        Ok(_) => unreachable!(),
        Err(m) => check!(!c && m.contains(&format!("value {x}")), "assertion: {m}"),
    }
    let m = no_panic(|| debug_panic_or_log!("value {x}")).err().unwrap_or_default();
    check!(m.contains(&format!("value {x}")), "panic: {m:?}");
    Ok(())
}

fn versions(g: &mut Gen) -> Res {
    let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
    let version = leak(format!("{}.{}.{}", g.u8(), g.u8(), g.u8()));
    let n = g.urange(12, 40);
    let hash = g.bool().then(|| leak((0..n).map(|_| *g.pick(&['0', '9', 'a', 'f'])).collect()));
    g.nontrivial_if(hash.is_some());
    let v = AppVersionWithGitInfo { version, git_info: hash.map(|head_hash| AppVersionGitInfo { head_hash }) };
    let (pretty, semver) = match hash {
        Some(h) => (format!("{version} (HEAD hash: {})", &h[..12]), format!("{version}+{}", &h[..12])),
        None => (version.to_owned(), version.to_owned()),
    };
    check_eq!(v.to_pretty_string(), pretty, "pretty");
    check_eq!(v.to_semver_string(), semver, "semantic version");
    let _: Ordering = Ordering::Equal;
    let _: &dyn Debug = &pretty;
    Ok(())
}
