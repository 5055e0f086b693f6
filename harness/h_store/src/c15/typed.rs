//! The typed layer over the backends.

use super::*;
use serialization::{Decode, DecodeAll, Encode};
use storage::{raw, MakeMapRef, OrderPreservingValue, Storage};

storage::decl_schema! {
    Sch {
        DBNum: Map<u8, u32>,
        DBOrd: Map<(OrderPreservingValue<u16>, u8), String>,
        DBPair: Map<(u8, u8, u16), Vec<u8>>,
        DBText: Map<String, u64>,
    }
}

#[derive(Default, Clone, PartialEq, Debug)]
struct M {
    num: BTreeMap<u8, u32>,
    ord: BTreeMap<(u16, u8), String>,
    pair: BTreeMap<(u8, u8, u16), Vec<u8>>,
    text: BTreeMap<String, u64>,
}

/// Sorted by the encoded key, as iteration is.
fn by_encoding<K: Encode + Clone, V: Clone>(m: impl Iterator<Item = (K, V)>) -> Vec<(K, V)> {
    let mut v: Vec<(K, V)> = m.collect();
    v.sort_by_key(|(k, _)| k.encode());
    v
}

fn look<'tx, B: Backend, T: MakeMapRef<'tx, B, Sch>>(g: &mut Gen, t: &T, m: &M) -> Res
where
    T::Impl: ReadOps,
{
    let k = g.byte() % 8;
    check_eq!(t.get::<DBNum, _>().get(k).map_err(err("get"))?.map(|e| e.decode()), m.num.get(&k).copied(), "number at {k}");
    let (a, b) = (g.u16() % 600, g.byte() % 3);
    let key = (OrderPreservingValue::new(a), b);
    check_eq!(t.get::<DBOrd, _>().get(&key).map_err(err("get"))?.map(|e| e.decode()), m.ord.get(&(a, b)).cloned(), "text at {a} {b}");
    let got: Vec<_> = t
        .get::<DBOrd, _>()
        .greater_equal_iter_decoded(&key)
        .map_err(err("from"))?
        .map(|((x, y), v)| ((x.inner(), y), v))
        .collect();
    let want: Vec<_> = m.ord.range((a, b)..).map(|(k, v)| (*k, v.clone())).collect();
    check_eq!(got, want, "numerically ordered entries from {a} {b}");
    let got: Vec<_> = t.get::<DBOrd, _>().greater_equal_iter_keys(&key).map_err(err("from"))?.map(|(x, y)| (x.inner(), y)).collect();
    check_eq!(got, want.iter().map(|x| x.0).collect::<Vec<_>>(), "keys from {a} {b}");
    let (p, q) = (g.byte() % 3, g.byte() % 3);
    let all = by_encoding(m.pair.iter().map(|(k, v)| (*k, v.clone())));
    let got: Vec<_> = t.get::<DBPair, _>().prefix_iter_decoded(&(p, q)).map_err(err("prefix"))?.collect();
    check_eq!(got, all.iter().filter(|(k, _)| (k.0, k.1) == (p, q)).cloned().collect::<Vec<_>>(), "pairs under {p} {q}");
    let got: Vec<_> = t.get::<DBPair, _>().prefix_iter_keys(&(p,)).map_err(err("prefix"))?.collect();
    check_eq!(got, all.iter().filter(|(k, _)| k.0 == p).map(|x| x.0).collect::<Vec<_>>(), "pairs under {p}");
    let got: Vec<_> = t.get::<DBPair, _>().prefix_iter(&()).map_err(err("prefix"))?.map(|(k, v)| (k, v.decode())).collect();
    check_eq!(got, all, "all pairs");
    let want = by_encoding(m.text.iter().map(|(k, v)| (k.clone(), *v)));
    let got: Vec<_> = t.get::<DBText, _>().prefix_iter_decoded(&()).map_err(err("prefix"))?.collect();
    check_eq!(got, want, "all texts");
    for (k, v) in want.iter().take(2) {
        check_eq!(t.get::<DBText, _>().get(k.as_str()).map_err(err("get"))?.map(|e| e.decode()), Some(*v), "text {k:?}");
    }
    Ok(())
}

/// The raw contents of the store are the encodings of the model's entries.
fn raw_of(m: &M) -> BTreeMap<usize, Map> {
    fn enc<K: Encode, V: Encode>(it: impl Iterator<Item = (K, V)>) -> Map {
        it.map(|(k, v)| (k.encode(), v.encode())).collect()
    }
    BTreeMap::from([
        (0, enc(m.num.iter())),
        (1, m.ord.iter().map(|(k, v)| ([&k.0.to_be_bytes()[..], &[k.1]].concat(), v.encode())).collect()),
        (2, enc(m.pair.iter())),
        (3, enc(m.text.iter())),
    ])
}

/// Which failures may pass is told apart from which cannot.
fn errors(g: &mut Gen) -> Res {
    use storage_core::error::{Fatal, Recoverable};
    let kind = *g.pick(&[std::io::ErrorKind::NotFound, std::io::ErrorKind::Interrupted, std::io::ErrorKind::Other]);
    let text = g.text(5);
    let may_pass = [
        Recoverable::TransactionFailed,
        Recoverable::TemporarilyUnavailable,
        Recoverable::DbInit,
        Recoverable::MemMapFull,
        Recoverable::Io(kind, text.clone()),
    ];
    let final_ones = [
        Fatal::OutOfSpace,
        Fatal::DatabaseCorrupted,
        Fatal::InternalError(text.clone()),
        Fatal::SchemaMismatch,
        Fatal::Io(kind, text),
    ];
    let r = g.pick(&may_pass).clone();
    let e = storage::Error::from(r.clone());
    check!(e.is_recoverable() && e.clone().recoverable() == r, "{e:?}");
    let f = g.pick(&final_ones).clone();
    let e = storage::Error::from(f.clone());
    check!(!e.is_recoverable(), "{e:?}");
    check!(pbt::no_panic(|| e.clone().recoverable()).is_err(), "{e:?} taken for one that may pass");
    Ok(())
}

fn run<B: Backend>(g: &mut Gen, make: impl Fn() -> B) -> Res {
    if g.chance(1, 20) {
        errors(g)?;
    }
    let mut s = Storage::<B, Sch>::new(make()).map_err(err("open"))?;
    let mut m = M::default();
    let mut commits = 0;
    for _ in 0..g.len(2, 8) {
        let mut m1 = m.clone();
        let mut tx = s.transaction_rw(None).map_err(err("begin write"))?;
        for _ in 0..g.len(1, 12) {
            match g.below(9) {
                0 | 1 => {
                    let (k, v) = (g.byte() % 8, g.u32());
                    tx.get_mut::<DBNum, _>().put(k, v).map_err(err("put"))?;
                    m1.num.insert(k, v);
                    check_eq!(tx.get_mut::<DBNum, _>().get(k).map_err(err("get"))?.map(|e| e.decode()), Some(v), "just written");
                }
                2 => {
                    let k = g.byte() % 8;
                    tx.get_mut::<DBNum, _>().del(k).map_err(err("del"))?;
                    m1.num.remove(&k);
                }
                3 | 4 => {
                    let (k, v) = ((g.u16() % 600, g.byte() % 3), g.text(5));
                    tx.get_mut::<DBOrd, _>().put(&(OrderPreservingValue::new(k.0), k.1), v.clone()).map_err(err("put"))?;
                    m1.ord.insert(k, v);
                }
                5 => {
                    let (k, v) = ((g.byte() % 3, g.byte() % 3, g.u16() % 700), g.bytes(0, 5));
                    tx.get_mut::<DBPair, _>().put(k, v.clone()).map_err(err("put"))?;
                    m1.pair.insert(k, v);
                }
                6 => {
                    if let Some(k) = m1.pair.keys().next().copied() {
                        tx.get_mut::<DBPair, _>().del(k).map_err(err("del"))?;
                        m1.pair.remove(&k);
                    }
                }
                7 => {
                    let (k, v) = (g.string(&['a', 'b', '\u{ff}'], 0, 70), g.u64());
                    tx.get_mut::<DBText, _>().put(k.as_str(), v).map_err(err("put"))?;
                    m1.text.insert(k, v);
                }
                _ => look(g, &tx, &m1)?,
            }
        }
        if g.chance(3, 4) {
            tx.commit().map_err(err("commit"))?;
            m = m1;
            commits += 1;
        } else {
            tx.abort();
        }
        let t = s.transaction_ro().map_err(err("begin read"))?;
        look(g, &t, &m)?;
    }
    g.nontrivial_if(commits > 1);
    let raw = {
        let t = s.transaction_ro().map_err(err("begin read"))?;
        t.dump_raw().map_err(err("dump"))?
    };
    let plain: BTreeMap<usize, Map> = raw.iter().map(|(k, v)| (k.as_usize(), v.clone())).collect();
    check_eq!(plain, raw_of(&m), "raw contents");
    for (id, _) in &raw {
        check_eq!(raw::DbMapId::<Sch>::from_name(id.name()).map(|x| x.as_usize()), Some(id.as_usize()), "map id from its name");
    }
    check!(raw::DbMapId::<Sch>::from_usize(4).is_none() && raw::DbMapId::<Sch>::from_usize(3).is_some(), "map ids");
    // a store made from the dump is the same store
    let s2 = Storage::<B, Sch>::new_from_dump(make(), raw).map_err(err("from dump"))?;
    let t = s2.transaction_ro().map_err(err("begin read"))?;
    look(g, &t, &m)?;
    let again: BTreeMap<usize, Map> = t.dump_raw().map_err(err("dump"))?.iter().map(|(k, v)| (k.as_usize(), v.clone())).collect();
    check_eq!(again, raw_of(&m), "raw contents of the copy");
    Ok(())
}

pub fn typed_maps(g: &mut Gen) -> Res {
    if g.chance(1, 8) {
        run(g, Sqlite::new_in_memory)
    } else {
        run(g, InMemory::new)
    }
}

pub fn order_preserving(g: &mut Gen) -> Res {
    fn one<T: Copy + Ord + std::fmt::Debug + storage_wrappable::W>(a: T, b: T) -> Res {
        let (x, y) = (T::enc(a), T::enc(b));
        check_eq!(x.cmp(&y), a.cmp(&b), "order of the encodings of {a:?} and {b:?}");
        check_eq!(x.len(), std::mem::size_of::<T>(), "length of the encoding");
        check_eq!(T::dec(&x), Some(a), "decoded");
        check_eq!(T::dec(&x[..x.len() - 1]), None, "decoded from too little");
        Ok(())
    }
    let (a, b) = (g.u64(), g.u64());
    let b = if g.chance(1, 4) { a ^ (1 << g.below(64)) } else { b };
    g.nontrivial_if(a != b);
    one(a, b)?;
    one(a as u32, b as u32)?;
    one(a as u16, b as u16)
}

mod storage_wrappable {
    use super::*;
    pub trait W: Sized {
        fn enc(x: Self) -> Vec<u8>;
        fn dec(x: &[u8]) -> Option<Self>;
    }
    macro_rules! w {
        ($($t:ty),*) => {$(
            impl W for $t {
                fn enc(x: Self) -> Vec<u8> { OrderPreservingValue::new(x).encode() }
                fn dec(mut x: &[u8]) -> Option<Self> {
                    let all = OrderPreservingValue::<$t>::decode_all(&mut &x[..]).ok().map(|v| v.inner());
                    let part = OrderPreservingValue::<$t>::decode(&mut x).ok().map(|v| v.inner());
                    assert_eq!(all, part);
                    all
                }
            }
        )*};
    }
    w!(u16, u32, u64);
}
