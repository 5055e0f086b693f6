//! Tokens against a plain model.
use chainstate_storage::{inmemory::Store, TransactionRw, Transactional};
use common::{
    chain::{
        tokens::{IsTokenFreezable, IsTokenFrozen, IsTokenUnfreezable, TokenId, TokenIssuance, TokenIssuanceV1, TokenTotalSupply},
        Destination,
    },
    primitives::{Amount, H256},
};
use gens::make;
use pbt::{check, check_eq, facet, note, Gen, Property, Res};
use serialization::{DecodeAll, Encode};
use std::collections::{BTreeMap, BTreeSet};
use tokens_accounting::{
    Error, FlushableTokensAccountingView, FungibleTokenData, InMemoryTokensAccounting, TokenAccountingUndo, TokenData, TokensAccountingCache,
    TokensAccountingDB, TokensAccountingDeltaData, TokensAccountingOperations, TokensAccountingStorageRead, TokensAccountingView,
};

pub const P: Property = Property {
    id: "C30",
    rule: "Histories of up to 50 token operations (valid and invalid) on 4 tokens of every supply kind and freezing state with amounts up to the signed limit, over up to 4 layers, with flushes and undos; all reads compared with plain maps after every step, and the base written through the node's storage as well. Non-trivial: at least 5 operations took effect, one of them a mint.",
    facets: &[facet("histories", 25_000, histories), facet("undo_everything", 15_000, undo_everything)],
    assumptions: &[
        "Supplies above 2^127-1 atoms need not be possible; the limit may show when the supply is read or flushed.",
        "Operations are undone newest first.",
    ],
};

const MAX: u128 = i128::MAX as u128;

#[derive(Clone, Debug, PartialEq, Eq)]
pub(crate) enum Frozen {
    Never,
    Can,
    ForNow,
    Forever,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub(crate) struct Token {
    pub(crate) ticker: Vec<u8>,
    pub(crate) decimals: u8,
    pub(crate) uri: Vec<u8>,
    pub(crate) total: TokenTotalSupply,
    pub(crate) locked: bool,
    pub(crate) frozen: Frozen,
    pub(crate) authority: Destination,
    pub(crate) supply: u128,
}

impl Token {
    pub(crate) fn is_frozen(&self) -> bool {
        matches!(self.frozen, Frozen::ForNow | Frozen::Forever)
    }
    pub(crate) fn data(&self) -> TokenData {
        let frozen = match self.frozen {
            Frozen::Never => IsTokenFrozen::No(IsTokenFreezable::No),
            Frozen::Can => IsTokenFrozen::No(IsTokenFreezable::Yes),
            Frozen::ForNow => IsTokenFrozen::Yes(IsTokenUnfreezable::Yes),
            Frozen::Forever => IsTokenFrozen::Yes(IsTokenUnfreezable::No),
        };
        TokenData::FungibleToken(FungibleTokenData::new_unchecked(
            self.ticker.clone(),
            self.decimals,
            self.uri.clone(),
            self.total,
            self.locked,
            frozen,
            self.authority.clone(),
        ))
    }
}

pub(crate) type Model = BTreeMap<TokenId, Token>;

pub(crate) struct Base<'a, T>(pub(crate) &'a T);

impl<T: TokensAccountingStorageRead> TokensAccountingView for Base<'_, T> {
    type Error = Error;
    fn get_token_data(&self, id: &TokenId) -> Result<Option<TokenData>, Error> {
        TokensAccountingDB::new(self.0).get_token_data_view(id)
    }
    fn get_circulating_supply(&self, id: &TokenId) -> Result<Amount, Error> {
        TokensAccountingView::get_circulating_supply(&TokensAccountingDB::new(self.0), id).map_err(|_| Error::ViewFail)
    }
}

trait DataView {
    fn get_token_data_view(&self, id: &TokenId) -> Result<Option<TokenData>, Error>;
}

impl<S: TokensAccountingStorageRead> DataView for TokensAccountingDB<S> {
    fn get_token_data_view(&self, id: &TokenId) -> Result<Option<TokenData>, Error> {
        TokensAccountingView::get_token_data(self, id).map_err(|_| Error::ViewFail)
    }
}

type View<'a> = Box<dyn TokensAccountingView<Error = Error> + 'a>;
type Cache<'a> = TokensAccountingCache<View<'a>>;

fn layer<'a>(below: View<'a>, data: &TokensAccountingDeltaData) -> Result<Cache<'a>, String> {
    let mut c = TokensAccountingCache::new(below);
    c.batch_write_tokens_data(data.clone()).map_err(|e| format!("filling an empty layer failed: {e}"))?;
    Ok(c)
}

fn view<'a>(base: &'a InMemoryTokensAccounting, layers: &[TokensAccountingDeltaData]) -> Result<View<'a>, String> {
    let mut v: View<'a> = Box::new(Base(base));
    for l in layers {
        v = Box::new(layer(v, l)?);
    }
    Ok(v)
}

fn compare<V: TokensAccountingView<Error = Error> + ?Sized>(v: &V, m: &Model, ids: &[TokenId], what: &str) -> Res {
    for id in ids {
        let e = |x: Error| format!("{what}: reading failed: {x}");
        check_eq!(v.get_token_data(id).map_err(e)?, m.get(id).map(|t| t.data()), "{what}: token data");
        if let (Some(TokenData::FungibleToken(d)), Some(t)) = (v.get_token_data(id).map_err(e)?, m.get(id)) {
            check_eq!((d.is_locked(), d.is_frozen()), (t.locked, t.is_frozen()), "{what}: locked, frozen");
            check_eq!(d.can_be_frozen(), t.frozen == Frozen::Can, "{what}: can be frozen");
            check_eq!(d.can_be_unfrozen(), t.frozen == Frozen::ForNow, "{what}: can be unfrozen");
            check_eq!((d.token_ticker(), d.metadata_uri(), d.number_of_decimals()), (&t.ticker[..], &t.uri[..], t.decimals), "{what}: terms");
            check_eq!((d.total_supply(), d.authority()), (&t.total, &t.authority), "{what}: supply, authority");
        }
        check_eq!(
            v.get_circulating_supply(id).map_err(e)?.into_atoms(),
            m.get(id).map_or(0, |t| t.supply),
            "{what}: circulating supply"
        );
    }
    Ok(())
}

#[derive(Clone, Debug)]
pub(crate) enum Op {
    Issue(TokenId, Token, bool),
    Mint(TokenId, u128),
    Unmint(TokenId, u128),
    Lock(TokenId),
    Freeze(TokenId, IsTokenUnfreezable),
    Unfreeze(TokenId),
    Authority(TokenId, Destination),
    Uri(TokenId, Vec<u8>),
}

fn amount(g: &mut Gen, near: u128) -> u128 {
    match g.below(8) {
        0 => 0,
        1 => near,
        2 => near.saturating_add(1),
        3 => near / 2,
        4 => g.u128() >> g.urange(0, 127),
        5 => near.saturating_sub(1),
        _ => g.range(1, 1_000) as u128,
    }
}

fn op(g: &mut Gen, m: &Model, ids: &[TokenId]) -> Op {
    let any = *g.pick(ids);
    let id = if !m.is_empty() && g.chance(7, 8) {
        let k: Vec<_> = m.keys().copied().collect();
        *g.pick(&k)
    } else {
        any
    };
    let t = m.get(&id);
    match g.weighted(&[if m.len() < 3 { 6 } else { 1 }, 8, 5, 1, 2, 2, 2, 2]) {
        0 => {
            let total = match g.below(4) {
                0 => TokenTotalSupply::Fixed(Amount::from_atoms(g.range(0, 3_000) as u128)),
                1 => TokenTotalSupply::Fixed(Amount::from_atoms(g.u128() >> g.urange(0, 127))),
                2 => TokenTotalSupply::Lockable,
                _ => TokenTotalSupply::Unlimited,
            };
            let odd = g.chance(1, 6);
            Op::Issue(
                any,
                Token {
                    ticker: g.bytes(0, 4),
                    decimals: g.u8(),
                    uri: g.bytes(0, 4),
                    total,
                    locked: odd && matches!(total, TokenTotalSupply::Lockable) && g.bool(),
                    frozen: if odd {
                        g.pick(&[Frozen::ForNow, Frozen::Forever, Frozen::Never]).clone()
                    } else if g.chance(3, 4) {
                        Frozen::Can
                    } else {
                        Frozen::Never
                    },
                    authority: make::destination(g),
                    supply: 0,
                },
                odd,
            )
        }
        1 => {
            let room = t.map_or(5, |t| match t.total {
                TokenTotalSupply::Fixed(l) => l.into_atoms().saturating_sub(t.supply),
                _ => MAX - t.supply.min(MAX),
            });
            Op::Mint(id, amount(g, room))
        }
        2 => Op::Unmint(id, amount(g, t.map_or(7, |t| t.supply))),
        3 => Op::Lock(id),
        4 => Op::Freeze(id, if g.chance(3, 4) { IsTokenUnfreezable::Yes } else { IsTokenUnfreezable::No }),
        5 => Op::Unfreeze(id),
        6 => Op::Authority(id, make::destination(g)),
        _ => Op::Uri(id, g.bytes(0, 5)),
    }
}

pub(crate) fn step(m: &Model, op: &Op) -> Option<Model> {
    let mut n = m.clone();
    match op {
        Op::Issue(id, t, _) => {
            if m.contains_key(id) {
                return None;
            }
            n.insert(*id, t.clone());
        }
        Op::Mint(id, a) => {
            let t = n.get_mut(id)?;
            let sum = t.supply.checked_add(*a)?;
            let ok = !t.is_frozen()
                && match t.total {
                    TokenTotalSupply::Fixed(l) => sum <= l.into_atoms(),
                    TokenTotalSupply::Lockable => !t.locked,
                    TokenTotalSupply::Unlimited => true,
                };
            if !ok || sum > MAX {
                return None;
            }
            t.supply = sum;
        }
        Op::Unmint(id, a) => {
            let t = n.get_mut(id)?;
            if t.locked || t.is_frozen() {
                return None;
            }
            t.supply = t.supply.checked_sub(*a)?;
        }
        Op::Lock(id) => {
            let t = n.get_mut(id)?;
            if t.locked || t.is_frozen() || !matches!(t.total, TokenTotalSupply::Lockable) {
                return None;
            }
            t.locked = true;
        }
        Op::Freeze(id, u) => {
            let t = n.get_mut(id)?;
            if t.frozen != Frozen::Can {
                return None;
            }
            t.frozen = if *u == IsTokenUnfreezable::Yes { Frozen::ForNow } else { Frozen::Forever };
        }
        Op::Unfreeze(id) => {
            let t = n.get_mut(id)?;
            if t.frozen != Frozen::ForNow {
                return None;
            }
            t.frozen = Frozen::Can;
        }
        Op::Authority(id, d) => {
            let t = n.get_mut(id)?;
            if t.is_frozen() {
                return None;
            }
            t.authority = d.clone();
        }
        Op::Uri(id, u) => {
            let t = n.get_mut(id)?;
            if t.is_frozen() {
                return None;
            }
            t.uri = u.clone();
        }
    }
    Some(n)
}

pub(crate) fn apply<T: TokensAccountingOperations>(t: &mut T, op: &Op) -> Result<TokenAccountingUndo, Error> {
    let am = Amount::from_atoms;
    match op.clone() {
        Op::Issue(id, t0, odd) => {
            let data = if odd {
                t0.data()
            } else {
                // as the node does it, from the issuing output
                let i = TokenIssuance::V1(TokenIssuanceV1 {
                    token_ticker: t0.ticker,
                    number_of_decimals: t0.decimals,
                    metadata_uri: t0.uri,
                    total_supply: t0.total,
                    authority: t0.authority,
                    is_freezable: if t0.frozen == Frozen::Can { IsTokenFreezable::Yes } else { IsTokenFreezable::No },
                });
                TokenData::FungibleToken(i.into())
            };
            t.issue_token(id, data)
        }
        Op::Mint(id, a) => t.mint_tokens(id, am(a)),
        Op::Unmint(id, a) => t.unmint_tokens(id, am(a)),
        Op::Lock(id) => t.lock_circulating_supply(id),
        Op::Freeze(id, u) => t.freeze_token(id, u),
        Op::Unfreeze(id) => t.unfreeze_token(id),
        Op::Authority(id, d) => t.change_authority(id, d),
        Op::Uri(id, u) => t.change_metadata_uri(id, u),
    }
}

struct World {
    base: InMemoryTokensAccounting,
    disk: Store,
    layers: Vec<TokensAccountingDeltaData>,
    m: Model,
    ids: Vec<TokenId>,
    undos: Vec<(TokenAccountingUndo, Model)>,
}

impl World {
    fn new(g: &mut Gen) -> Result<World, String> {
        let set: BTreeSet<[u8; 32]> = [[0u8; 32], [0xff; 32], g.array(), g.array()].into();
        Ok(World {
            base: InMemoryTokensAccounting::new(),
            disk: Store::new_empty().map_err(|e| e.to_string())?,
            layers: vec![TokensAccountingDeltaData::new()],
            m: Model::default(),
            ids: set.into_iter().map(|b| TokenId::new(H256(b))).collect(),
            undos: vec![],
        })
    }

    fn check(&self, what: &str) -> Res {
        compare(&*view(&self.base, &self.layers)?, &self.m, &self.ids, what)
    }

    fn one(&mut self, g: &mut Gen, done: &mut [usize; 2]) -> Res {
        let o = op(g, &self.m, &self.ids);
        let direct = g.bool();
        let next = step(&self.m, &o);
        note!(g, "{o:?} (direct {direct}) allowed: {}", next.is_some());
        let n = self.layers.len() - 1;
        let mut c = if direct {
            layer(view(&self.base, &self.layers[..n])?, &self.layers[n])?
        } else {
            TokensAccountingCache::new(view(&self.base, &self.layers)?)
        };
        let r = apply(&mut c, &o);
        let readable = self.ids.iter().all(|id| c.get_circulating_supply(id).is_ok());
        if r.is_err() {
            // no operation changes anything before it is refused
            check!(readable, "a refused operation made a supply unreadable");
            compare(&c, &self.m, &self.ids, "after a refused operation")?;
        }
        match (r, next) {
            (Ok(u), Some(next)) => {
                check!(readable, "{o:?} is allowed but makes a supply unreadable");
                let data = c.consume();
                if direct {
                    self.layers[n] = data;
                } else {
                    let data = TokensAccountingDeltaData::decode_all(&mut data.encode().as_slice()).map_err(|e| e.to_string())?;
                    self.layers[n].merge_with_delta(data).map_err(|e| format!("merging a layer failed: {e}"))?;
                }
                g.tag(match &o {
                    Op::Issue(..) => "issue",
                    Op::Mint(..) => "mint",
                    Op::Unmint(..) => "unmint",
                    Op::Lock(..) => "lock",
                    Op::Freeze(..) => "freeze",
                    Op::Unfreeze(..) => "unfreeze",
                    Op::Authority(..) => "authority",
                    Op::Uri(..) => "uri",
                });
                done[0] += 1;
                if matches!(o, Op::Mint(..)) {
                    done[1] += 1;
                }
                let old = std::mem::replace(&mut self.m, next);
                self.undos.push((u, old));
            }
            (Ok(_), None) => check!(!readable, "{o:?} was accepted although the rules forbid it"),
            (Err(e), Some(_)) => return Err(format!("{o:?} was refused although the rules allow it: {e}")),
            (Err(_), None) => g.tag("refused"),
        }
        Ok(())
    }

    fn undo(&mut self, g: &mut Gen) -> Result<bool, String> {
        let Some((u, before)) = self.undos.pop() else { return Ok(false) };
        let u = TokenAccountingUndo::decode_all(&mut u.encode().as_slice()).map_err(|e| format!("stored undo data: {e}"))?;
        let direct = g.bool();
        note!(g, "undo {u:?} (direct {direct})");
        let n = self.layers.len() - 1;
        let mut c = if direct {
            layer(view(&self.base, &self.layers[..n])?, &self.layers[n])?
        } else {
            TokensAccountingCache::new(view(&self.base, &self.layers)?)
        };
        c.undo(u).map_err(|e| format!("undoing the last operation failed: {e}"))?;
        let data = c.consume();
        if direct {
            self.layers[n] = data;
        } else {
            self.layers[n].merge_with_delta(data).map_err(|e| format!("merging an undo failed: {e}"))?;
        }
        self.m = before;
        Ok(true)
    }

    fn flush(&mut self) -> Res {
        let Some(top) = self.layers.pop() else { return Ok(()) };
        if let Some(n) = self.layers.pop() {
            let k = self.layers.len();
            // through the view interface
            let mut c = layer(view(&self.base, &self.layers[..k])?, &n)?;
            c.batch_write_tokens_data(top).map_err(|e| format!("flushing into a layer failed: {e}"))?;
            let c = c.consume();
            self.layers.push(c);
        } else {
            TokensAccountingDB::new(&mut self.base)
                .batch_write_tokens_data(top.clone())
                .map_err(|e| format!("flushing into the base failed: {e}"))?;
            let mut tx = self.disk.transaction_rw(None).map_err(|e| e.to_string())?;
            TokensAccountingDB::new(&mut tx).batch_write_tokens_data(top).map_err(|e| format!("flushing into storage failed: {e}"))?;
            tx.commit().map_err(|e| e.to_string())?;
            self.layers.push(TokensAccountingDeltaData::new());
        }
        Ok(())
    }

    fn finish(&mut self) -> Res {
        while self.layers.len() > 1 || self.layers.iter().any(|l| *l != TokensAccountingDeltaData::new()) {
            self.flush()?;
        }
        self.check("after flushing everything")?;
        let tx = self.disk.transaction_ro().map_err(|e| e.to_string())?;
        compare(&Base(&&tx), &self.m, &self.ids, "in storage")?;
        let want: BTreeMap<_, _> = self.m.iter().map(|(k, t)| (*k, t.data())).collect();
        check_eq!(self.base.tokens_data(), &want, "the tokens stored");
        let want: BTreeMap<_, _> = self.m.iter().filter(|x| x.1.supply > 0).map(|(k, t)| (*k, Amount::from_atoms(t.supply))).collect();
        check_eq!(self.base.circulating_supply(), &want, "the supplies stored");
        Ok(())
    }
}

fn histories(g: &mut Gen) -> Res {
    let mut w = World::new(g)?;
    let mut done = [0usize; 2];
    for _ in 0..g.urange(8, 50) {
        match g.weighted(&[16, 2, 2, 3]) {
            0 => w.one(g, &mut done)?,
            1 => {
                if w.layers.len() < 4 {
                    w.layers.push(TokensAccountingDeltaData::new());
                }
            }
            2 => {
                note!(g, "flush");
                w.flush()?;
                g.tag("flush");
            }
            _ => {
                if w.undo(g)? {
                    g.tag("undo");
                }
            }
        }
        w.check("after a step")?;
    }
    w.finish()?;
    g.nontrivial_if(done[0] >= 5 && done[1] > 0);
    Ok(())
}

fn undo_everything(g: &mut Gen) -> Res {
    let mut w = World::new(g)?;
    let mut done = [0usize; 2];
    for _ in 0..g.urange(5, 40) {
        w.one(g, &mut done)?;
        if g.chance(1, 5) {
            w.flush()?;
        }
    }
    w.finish()?;
    while w.undo(g)? {
        w.check("after undoing")?;
        if g.chance(1, 5) {
            w.flush()?;
        }
    }
    w.finish()?;
    check_eq!(w.base, InMemoryTokensAccounting::new(), "undoing the whole history leaves an empty base");
    g.nontrivial_if(done[0] >= 5 && done[1] > 0);
    Ok(())
}
