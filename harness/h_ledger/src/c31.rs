//! Orders against a plain model.
use chainstate_storage::{inmemory::Store, TransactionRw, Transactional};
use common::{
    chain::{output_value::OutputValue, tokens::TokenId, Destination, OrderId, OrdersVersion},
    primitives::{Amount, H256},
    Uint256,
};
use gens::make;
use orders_accounting::{
    calculate_fill_order, calculate_filled_amount, Error, FlushableOrdersAccountingView, InMemoryOrdersAccounting, OrderData,
    OrdersAccountingCache, OrdersAccountingDB, OrdersAccountingDeltaData, OrdersAccountingOperations, OrdersAccountingStorageRead,
    OrdersAccountingUndo, OrdersAccountingView,
};
use pbt::{check, check_eq, facet, note, Gen, Property, Res};
use serialization::{DecodeAll, Encode};
use std::collections::{BTreeMap, BTreeSet};

pub const P: Property = Property {
    id: "C31",
    rule: "Histories of up to 50 order operations (valid and invalid, both pricing versions) on 4 orders with amounts up to the signed limit, over up to 4 layers, with flushes and undos; all reads compared with plain maps after every step, and the base written through the node's storage as well. The fill calculation on its own is compared with exact arithmetic over the whole range. Non-trivial: at least two fills of one order, or a calculation with a remainder.",
    facets: &[
        facet("histories", 25_000, histories),
        facet("undo_everything", 15_000, undo_everything),
        facet("fill_amount", 400_000, fill_amount),
        facet("fills_to_the_end", 30_000, fills_to_the_end),
    ],
    assumptions: &["Balances above 2^127-1 atoms need not be possible.", "Operations are undone newest first."],
};

const MAX: u128 = i128::MAX as u128;

/// floor(a*b/c) without overflow, by schoolbook long multiplication and division.
pub(crate) fn mul_div(a: u128, b: u128, c: u128) -> Option<u128> {
    if c == 0 {
        return None;
    }
    // product in four 64-bit limbs
    let (a0, a1, b0, b1) = (a as u64 as u128, a >> 64, b as u64 as u128, b >> 64);
    let p00 = a0 * b0;
    let p01 = a0 * b1;
    let p10 = a1 * b0;
    let p11 = a1 * b1;
    let mid = (p00 >> 64) + (p01 as u64 as u128) + (p10 as u64 as u128);
    let lo = (mid << 64) | (p00 as u64 as u128);
    let hi = p11 + (p01 >> 64) + (p10 >> 64) + (mid >> 64);
    // bit by bit division
    if hi >= c {
        return None; // quotient of 2^128 or more
    }
    let (mut rem, mut q) = (hi, 0u128);
    for i in (0..128).rev() {
        let top = rem >> 127;
        rem = (rem << 1) | ((lo >> i) & 1);
        q <<= 1;
        if top == 1 || rem >= c {
            rem = rem.wrapping_sub(c);
            q |= 1;
        }
    }
    Some(q)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub(crate) struct Order {
    pub(crate) key: Destination,
    pub(crate) ask: (Option<TokenId>, u128),
    pub(crate) give: (Option<TokenId>, u128),
    pub(crate) frozen: bool,
    pub(crate) ask_left: u128,
    pub(crate) give_left: u128,
}

fn value(v: &(Option<TokenId>, u128)) -> OutputValue {
    match v.0 {
        None => OutputValue::Coin(Amount::from_atoms(v.1)),
        Some(t) => OutputValue::TokenV1(t, Amount::from_atoms(v.1)),
    }
}

impl Order {
    pub(crate) fn data(&self) -> OrderData {
        OrderData::new_generic(self.key.clone(), value(&self.ask), value(&self.give), self.frozen)
    }
}

pub(crate) type Model = BTreeMap<OrderId, Order>;

pub(crate) struct Base<'a, T>(pub(crate) &'a T);

impl<T: OrdersAccountingStorageRead> OrdersAccountingView for Base<'_, T> {
    type Error = Error;
    fn get_order_data(&self, id: &OrderId) -> Result<Option<OrderData>, Error> {
        OrdersAccountingView::get_order_data(&OrdersAccountingDB::new(self.0), id).map_err(|_| Error::ViewFail)
    }
    fn get_ask_balance(&self, id: &OrderId) -> Result<Amount, Error> {
        OrdersAccountingView::get_ask_balance(&OrdersAccountingDB::new(self.0), id).map_err(|_| Error::ViewFail)
    }
    fn get_give_balance(&self, id: &OrderId) -> Result<Amount, Error> {
        OrdersAccountingView::get_give_balance(&OrdersAccountingDB::new(self.0), id).map_err(|_| Error::ViewFail)
    }
    fn get_all_order_ids(&self) -> Result<BTreeSet<OrderId>, Error> {
        OrdersAccountingView::get_all_order_ids(&OrdersAccountingDB::new(self.0)).map_err(|_| Error::ViewFail)
    }
}

type View<'a> = Box<dyn OrdersAccountingView<Error = Error> + 'a>;
type Cache<'a> = OrdersAccountingCache<View<'a>>;

fn layer<'a>(below: View<'a>, data: &OrdersAccountingDeltaData) -> Result<Cache<'a>, String> {
    let mut c = OrdersAccountingCache::new(below);
    c.batch_write_orders_data(data.clone()).map_err(|e| format!("filling an empty layer failed: {e}"))?;
    Ok(c)
}

fn view<'a>(base: &'a InMemoryOrdersAccounting, layers: &[OrdersAccountingDeltaData]) -> Result<View<'a>, String> {
    let mut v: View<'a> = Box::new(Base(base));
    for l in layers {
        v = Box::new(layer(v, l)?);
    }
    Ok(v)
}

fn compare<V: OrdersAccountingView<Error = Error> + ?Sized>(v: &V, m: &Model, ids: &[OrderId], what: &str) -> Res {
    let e = |x: Error| format!("{what}: reading failed: {x}");
    for id in ids {
        let o = m.get(id);
        check_eq!(v.get_order_data(id).map_err(e)?, o.map(|o| o.data()), "{what}: order data");
        check_eq!(v.get_ask_balance(id).map_err(e)?.into_atoms(), o.map_or(0, |o| o.ask_left), "{what}: asked amount left");
        check_eq!(v.get_give_balance(id).map_err(e)?.into_atoms(), o.map_or(0, |o| o.give_left), "{what}: given amount left");
    }
    check_eq!(v.get_all_order_ids().map_err(e)?, m.keys().copied().collect::<BTreeSet<_>>(), "{what}: all orders");
    Ok(())
}

#[derive(Clone, Debug)]
pub(crate) enum Op {
    Create(OrderId, Order, bool),
    Fill(OrderId, u128, OrdersVersion),
    Freeze(OrderId),
    Conclude(OrderId),
}

fn amount(g: &mut Gen) -> u128 {
    match g.below(8) {
        0 => g.below(3) as u128,
        1 => MAX - g.below(3) as u128,
        2 | 3 => g.u128() >> g.urange(0, 127),
        4 => MAX >> g.urange(0, 64),
        _ => g.range(1, 1_000) as u128,
    }
}

fn op(g: &mut Gen, m: &Model, ids: &[OrderId]) -> Op {
    let any = *g.pick(ids);
    let id = if !m.is_empty() && g.chance(7, 8) {
        let k: Vec<_> = m.keys().copied().collect();
        *g.pick(&k)
    } else {
        any
    };
    match g.weighted(&[if m.len() < 2 { 5 } else { 1 }, 10, 1, 1]) {
        0 => {
            let v = |g: &mut Gen| {
                let t = g.bool().then(|| TokenId::new(H256(g.array())));
                (t, amount(g))
            };
            let (ask, give) = (v(g), v(g));
            let frozen = g.chance(1, 20);
            Op::Create(any, Order { key: make::destination(g), ask, give, frozen, ask_left: ask.1, give_left: give.1 }, frozen || g.bool())
        }
        1 => {
            let left = m.get(&id).map_or(3, |o| o.ask_left);
            let a = match g.below(8) {
                0 => left,
                1 => left.saturating_add(1),
                2 => 0,
                3 => left / 2,
                4 => g.u128() >> g.urange(0, 127),
                5 => left.saturating_sub(1),
                _ => (left / (g.range(2, 40) as u128)).max(1),
            };
            Op::Fill(id, a, *g.pick(&[OrdersVersion::V0, OrdersVersion::V1]))
        }
        2 => Op::Freeze(id),
        _ => Op::Conclude(id),
    }
}

pub(crate) fn step(m: &Model, op: &Op) -> Option<Model> {
    let mut n = m.clone();
    match op {
        Op::Create(id, o, _) => {
            if m.contains_key(id) || o.ask.1 == 0 || o.give.1 == 0 || o.ask.1 > MAX || o.give.1 > MAX {
                return None;
            }
            n.insert(*id, o.clone());
        }
        Op::Fill(id, a, v) => {
            let o = n.get_mut(id)?;
            if o.frozen {
                return None;
            }
            let left = o.ask_left.checked_sub(*a)?;
            let out = match v {
                OrdersVersion::V0 => mul_div(o.give_left, *a, o.ask_left)?,
                OrdersVersion::V1 => mul_div(o.give.1, *a, o.ask.1).filter(|x| *x > 0)?,
            };
            o.ask_left = left;
            o.give_left = o.give_left.checked_sub(out).expect("fills never exceed what the order gives");
        }
        Op::Freeze(id) => {
            let o = n.get_mut(id)?;
            if o.frozen {
                return None;
            }
            o.frozen = true;
        }
        Op::Conclude(id) => {
            n.remove(id)?;
        }
    }
    Some(n)
}

pub(crate) fn apply<T: OrdersAccountingOperations>(t: &mut T, op: &Op) -> Result<OrdersAccountingUndo, Error> {
    match op.clone() {
        Op::Create(id, o, direct) => {
            let data =
                if direct { o.data() } else { common::chain::OrderData::new(o.key.clone(), value(&o.ask), value(&o.give)).into() };
            t.create_order(id, data)
        }
        Op::Fill(id, a, v) => t.fill_order(id, Amount::from_atoms(a), v),
        Op::Freeze(id) => t.freeze_order(id),
        Op::Conclude(id) => t.conclude_order(id),
    }
}

struct World {
    base: InMemoryOrdersAccounting,
    disk: Store,
    layers: Vec<OrdersAccountingDeltaData>,
    m: Model,
    ids: Vec<OrderId>,
    undos: Vec<(OrdersAccountingUndo, Model)>,
    fills: BTreeMap<OrderId, usize>,
}

impl World {
    fn new(g: &mut Gen) -> Result<World, String> {
        let set: BTreeSet<[u8; 32]> = [[0u8; 32], [0xff; 32], g.array(), g.array()].into();
        Ok(World {
            base: InMemoryOrdersAccounting::new(),
            disk: Store::new_empty().map_err(|e| e.to_string())?,
            layers: vec![OrdersAccountingDeltaData::new()],
            m: Model::default(),
            ids: set.into_iter().map(|b| OrderId::new(H256(b))).collect(),
            undos: vec![],
            fills: Default::default(),
        })
    }

    fn check(&self, what: &str) -> Res {
        compare(&*view(&self.base, &self.layers)?, &self.m, &self.ids, what)
    }

    fn one(&mut self, g: &mut Gen) -> Res {
        let o = op(g, &self.m, &self.ids);
        let direct = g.bool();
        let next = step(&self.m, &o);
        note!(g, "{o:?} (direct {direct}) allowed: {}", next.is_some());
        let n = self.layers.len() - 1;
        let mut c = if direct {
            layer(view(&self.base, &self.layers[..n])?, &self.layers[n])?
        } else {
            OrdersAccountingCache::new(view(&self.base, &self.layers)?)
        };
        let quoted = match &o {
            Op::Fill(id, a, v) => Some(calculate_fill_order(&c, *id, Amount::from_atoms(*a), *v)),
            _ => None,
        };
        let r = apply(&mut c, &o);
        if r.is_err() && !matches!(&o, Op::Create(_, o, _) if o.ask.1 > MAX || o.give.1 > MAX) {
            compare(&c, &self.m, &self.ids, "after a refused operation")?;
        }
        match (r, next) {
            (Ok(u), Some(next)) => {
                if let Op::Fill(id, a, v) = &o {
                    let (old, new) = (&self.m[id], &next[id]);
                    let paid = old.give_left - new.give_left;
                    let quoted = quoted.and_then(|q| q.ok()).ok_or("a possible fill has no quoted price")?;
                    check_eq!(quoted.into_atoms(), paid, "quoted and paid amount");
                    // the filler never gets more than the price: paid / a <= give / ask
                    let (give, ask) = match v {
                        OrdersVersion::V0 => (old.give_left, old.ask_left),
                        OrdersVersion::V1 => (old.give.1, old.ask.1),
                    };
                    let w = |x: u128| Uint256::from_u128(x);
                    check!((w(paid) * w(ask)).expect("fits") <= (w(give) * w(*a)).expect("fits"), "the filler got more than the price");
                    let k = self.fills.entry(*id).or_default();
                    *k += 1;
                    if *k >= 2 {
                        g.nontrivial();
                    }
                }
                let data = c.consume();
                if direct {
                    self.layers[n] = data;
                } else {
                    let data = OrdersAccountingDeltaData::decode_all(&mut data.encode().as_slice()).map_err(|e| e.to_string())?;
                    self.layers[n].merge_with_delta(data).map_err(|e| format!("merging a layer failed: {e}"))?;
                }
                g.tag(match &o {
                    Op::Create(..) => "create",
                    Op::Fill(..) => "fill",
                    Op::Freeze(..) => "freeze",
                    Op::Conclude(..) => "conclude",
                });
                let old = std::mem::replace(&mut self.m, next);
                self.undos.push((u, old));
            }
            (Ok(_), None) => return Err(format!("{o:?} was accepted although the rules forbid it")),
            (Err(e), Some(_)) => return Err(format!("{o:?} was refused although the rules allow it: {e}")),
            (Err(_), None) => g.tag("refused"),
        }
        Ok(())
    }

    fn undo(&mut self, g: &mut Gen) -> Result<bool, String> {
        let Some((u, before)) = self.undos.pop() else { return Ok(false) };
        let u = OrdersAccountingUndo::decode_all(&mut u.encode().as_slice()).map_err(|e| format!("stored undo data: {e}"))?;
        let direct = g.bool();
        note!(g, "undo {u:?} (direct {direct})");
        let n = self.layers.len() - 1;
        let mut c = if direct {
            layer(view(&self.base, &self.layers[..n])?, &self.layers[n])?
        } else {
            OrdersAccountingCache::new(view(&self.base, &self.layers)?)
        };
        c.undo(u).map_err(|e| format!("undoing the last operation failed: {e}"))?;
        let data = c.consume();
        if direct {
            self.layers[n] = data;
        } else {
            self.layers[n].merge_with_delta(data).map_err(|e| format!("merging an undo failed: {e}"))?;
        }
        self.m = before;
        Ok(true)
    }

    fn flush(&mut self) -> Res {
        let Some(top) = self.layers.pop() else { return Ok(()) };
        if let Some(n) = self.layers.pop() {
            let k = self.layers.len();
            let mut c = layer(view(&self.base, &self.layers[..k])?, &n)?;
            c.batch_write_orders_data(top).map_err(|e| format!("flushing into a layer failed: {e}"))?;
            let c = c.consume();
            self.layers.push(c);
        } else {
            OrdersAccountingDB::new(&mut self.base)
                .batch_write_orders_data(top.clone())
                .map_err(|e| format!("flushing into the base failed: {e}"))?;
            let mut tx = self.disk.transaction_rw(None).map_err(|e| e.to_string())?;
            OrdersAccountingDB::new(&mut tx).batch_write_orders_data(top).map_err(|e| format!("flushing into storage failed: {e}"))?;
            tx.commit().map_err(|e| e.to_string())?;
            self.layers.push(OrdersAccountingDeltaData::new());
        }
        Ok(())
    }

    fn finish(&mut self) -> Res {
        while self.layers.len() > 1 || self.layers.iter().any(|l| *l != OrdersAccountingDeltaData::new()) {
            self.flush()?;
        }
        self.check("after flushing everything")?;
        let tx = self.disk.transaction_ro().map_err(|e| e.to_string())?;
        compare(&Base(&&tx), &self.m, &self.ids, "in storage")?;
        let live = |f: fn(&Order) -> u128| -> BTreeMap<OrderId, Amount> {
            self.m.iter().filter(|x| f(x.1) > 0).map(|(k, o)| (*k, Amount::from_atoms(f(o)))).collect()
        };
        check_eq!(self.base.ask_balances(), &live(|o| o.ask_left), "asked amounts stored");
        check_eq!(self.base.give_balances(), &live(|o| o.give_left), "given amounts stored");
        Ok(())
    }
}

fn histories(g: &mut Gen) -> Res {
    let mut w = World::new(g)?;
    for _ in 0..g.urange(8, 50) {
        match g.weighted(&[16, 2, 2, 3]) {
            0 => w.one(g)?,
            1 => {
                if w.layers.len() < 4 {
                    w.layers.push(OrdersAccountingDeltaData::new());
                }
            }
            2 => {
                note!(g, "flush");
                w.flush()?;
                g.tag("flush");
            }
            _ => {
                if w.undo(g)? {
                    g.tag("undo");
                }
            }
        }
        w.check("after a step")?;
    }
    w.finish()
}

fn undo_everything(g: &mut Gen) -> Res {
    let mut w = World::new(g)?;
    for _ in 0..g.urange(5, 40) {
        w.one(g)?;
        if g.chance(1, 5) {
            w.flush()?;
        }
    }
    w.finish()?;
    while w.undo(g)? {
        w.check("after undoing")?;
        if g.chance(1, 5) {
            w.flush()?;
        }
    }
    w.finish()?;
    check_eq!(w.base, InMemoryOrdersAccounting::new(), "undoing the whole history leaves an empty base");
    Ok(())
}

fn wide(g: &mut Gen) -> u128 {
    match g.below(6) {
        0 => g.below(4) as u128,
        1 => u128::MAX - g.below(4) as u128,
        2 => 1u128 << g.urange(0, 127),
        3 => g.range(0, 10_000) as u128,
        _ => g.u128() >> g.urange(0, 127),
    }
}

fn fill_amount(g: &mut Gen) -> Res {
    let (ask, give) = (wide(g), wide(g));
    let fill = match g.below(4) {
        0 => wide(g),
        1 => ask,
        2 => ask / (1 + g.below(10) as u128),
        _ => g.range(0, 100) as u128,
    };
    note!(g, "ask {ask} give {give} fill {fill}");
    let a = Amount::from_atoms;
    let got = calculate_filled_amount(a(ask), a(give), a(fill)).map(|x| x.into_atoms());
    let want = mul_div(give, fill, ask);
    check_eq!(got, want, "amount given for a fill");
    if let Some(x) = got {
        g.nontrivial_if(x > 0 && x.checked_mul(ask) != give.checked_mul(fill));
        if fill <= ask {
            check!(x <= give, "a fill within the asked amount gives more than there is");
        }
    }
    Ok(())
}

/// An order filled piece by piece to the end gives away at most what it offered, and all of it at once.
fn fills_to_the_end(g: &mut Gen) -> Res {
    let id = OrderId::new(H256(g.array()));
    let (ask, give) = (amount(g).clamp(1, MAX), amount(g).clamp(1, MAX));
    let version = *g.pick(&[OrdersVersion::V0, OrdersVersion::V1]);
    note!(g, "ask {ask} give {give} {version:?}");
    let order = Order {
        key: Destination::AnyoneCanSpend,
        ask: (None, ask),
        give: (Some(TokenId::new(H256(g.array()))), give),
        frozen: false,
        ask_left: ask,
        give_left: give,
    };
    let base = InMemoryOrdersAccounting::new();
    let mut c = OrdersAccountingCache::new(OrdersAccountingDB::new(&base));
    c.create_order(id, order.data()).map_err(|e| e.to_string())?;
    let (mut left, mut out, mut n) = (ask, 0u128, 0);
    while left > 0 && n < 12 {
        let a = if n == 11 || g.chance(1, 6) { left } else { (left / (1 + g.below(5) as u128)).max(1) };
        let before = c.get_give_balance(&id).map_err(|e| e.to_string())?.into_atoms();
        match c.fill_order(id, Amount::from_atoms(a), version) {
            Ok(_) => {
                let after = c.get_give_balance(&id).map_err(|e| e.to_string())?.into_atoms();
                out += before.checked_sub(after).ok_or("filling increased what the order gives")?;
                left -= a;
                check_eq!(c.get_ask_balance(&id).map_err(|e| e.to_string())?.into_atoms(), left, "asked amount left");
            }
            Err(Error::OrderUnderbid(..)) => check!(mul_div(give, a, ask) == Some(0), "a paying fill was refused as too small"),
            Err(e) => return Err(format!("a fill within the order was refused: {e}")),
        }
        n += 1;
    }
    check!(out <= give, "the order gave away {out} of {give}");
    if left == 0 && version == OrdersVersion::V0 {
        check_eq!(out, give, "a completely filled order gives everything when priced by what remains");
    }
    if left == 0 && version == OrdersVersion::V1 && n == 1 {
        check_eq!(out, give, "one complete fill gives everything");
    }
    g.nontrivial_if(n > 2 && left == 0);
    Ok(())
}
