//! Secrets at rest and the wallet database, against a plain record of what was stored.

use std::{
    collections::{BTreeMap, BTreeSet},
    fmt::Debug,
    sync::OnceLock,
};

use common::{
    address::Address,
    chain::{
        ChainConfig, Destination, SignedTransaction,
        block::timestamp::BlockTimestamp,
        classic_multisig::ClassicMultisigChallenge,
        config::{Builder, ChainType},
    },
    primitives::{BlockHeight, Idable},
};
use crypto::{
    key::{
        PrivateKey,
        extended::{ExtendedKeyKind, ExtendedPrivateKey, ExtendedPublicKey},
        hdkd::{child_number::ChildNumber, derivable::Derivable, derivation_path::DerivationPath, u31::U31},
    },
    symkey::{SymmetricKey, SymmetricKeyKind},
    vrf::{ExtendedVRFPrivateKey, VRFKeyKind},
};
use gens::make;
use pbt::{Gen, Property, Res, check, check_eq, enumerated, facet, no_panic, note};
use serialization::{Decode, DecodeAll, Encode};
use test_utils::random::{Seed, TestRng};
use utils::maybe_encrypted::{MaybeEncrypted, MaybeEncryptedError};
use wallet_storage::{
    Error, Store, Transactional, TransactionRwLocked, TransactionRwUnlocked, WalletStorageReadLocked, WalletStorageReadUnlocked,
    WalletStorageWriteLocked, WalletStorageWriteUnlocked,
};
use wallet_types::{
    AccountDerivationPathId, AccountId, AccountInfo, AccountKeyPurposeId, AccountWalletCreatedTxId, AccountWalletTxId, KeyPurpose,
    KeychainUsageState, RootKeys, WalletTx,
    account_id::{AccountAddress, AccountPrefixedId, AccountPublicKey},
    account_info::{AccountVrfKeys, StandaloneMultisig, StandaloneWatchOnlyKey},
    chain_info::ChainInfo,
    seed_phrase::SerializableSeedPhrase,
    wallet_tx::{BlockData, TxData, TxState},
    wallet_type::WalletType,
};

pub const P: Property = Property {
    id: "C42",
    rule: "Values of seven kinds with and without keys, taken with right, wrong and no keys, and damaged; histories of stores, \
           deletions, transactions given up, passwords set, changed and removed, locks, unlocks with right and wrong passwords, and \
           reopenings, in memory and on disk. Non-trivial: an encrypted value was opened; a password was set while secrets \
           were stored, and the store unlocked later.",
    facets: &[
        facet("at_rest", 40_000, at_rest),
        facet("histories", 700, histories),
        facet("usage_state", 40_000, usage_state),
        enumerated("nothing_to_check", 4, nothing_to_check),
    ],
    assumptions: &[
        "Pages that the database frees are not overwritten (the code says so); what the database shows is what counts.",
    ],
};

struct Fixed {
    chain: ChainConfig,
    roots: Vec<RootKeys>,
    xpubs: Vec<ExtendedPublicKey>,
    accounts: Vec<AccountId>,
    vrf: Vec<AccountVrfKeys>,
}

fn fixed() -> &'static Fixed {
    static F: OnceLock<Fixed> = OnceLock::new();
    F.get_or_init(|| {
        let mut rng = TestRng::new(Seed::from_u64(7));
        let mut roots = vec![];
        let mut xpubs = vec![];
        let mut vrf = vec![];
        for i in 0..4u8 {
            let (k, _) = ExtendedPrivateKey::new_from_rng(&mut rng, ExtendedKeyKind::Secp256k1Schnorr);
            let v = ExtendedVRFPrivateKey::new_master(&[i; 64], VRFKeyKind::Schnorrkel).expect("key");
            let child = k.clone().derive_child(ChildNumber::from_index_with_hardened_bit(u32::from(i))).expect("child");
            xpubs.push(k.to_public_key());
            xpubs.push(child.to_public_key());
            let w = ExtendedVRFPrivateKey::new_master(&[i + 9; 64], VRFKeyKind::Schnorrkel).expect("key");
            vrf.push(AccountVrfKeys { account_vrf_key: v.to_public_key(), legacy_vrf_key: w.to_public_key() });
            roots.push(RootKeys { root_key: k, root_vrf_key: v });
        }
        let accounts = xpubs.iter().take(3).map(AccountId::new_from_xpub).collect();
        Fixed { chain: Builder::new(ChainType::Regtest).build(), roots, xpubs, accounts, vrf }
    })
}

fn sym_key(g: &mut Gen) -> SymmetricKey {
    SymmetricKey::new(SymmetricKeyKind::XChacha20Poly1305, &mut TestRng::new(Seed::from_u64(g.seed())))
}

fn phrase(g: &mut Gen) -> SerializableSeedPhrase {
    let n = *g.pick(&[16usize, 20, 24, 28, 32, 32]);
    let m = bip39::Mnemonic::from_entropy(&g.bytes_exact(n)).expect("mnemonic");
    if g.chance(1, 12) {
        return SerializableSeedPhrase::zero_seed_phrase();
    }
    let pass = if g.bool() { Some(g.text(20)) } else { None };
    SerializableSeedPhrase::new(zeroize::Zeroizing::new(m), zeroize::Zeroizing::new(pass))
}

/// One value at rest. `hides`: too long to be met in a ciphertext by chance.
fn rest<T: Encode + Decode + PartialEq>(g: &mut Gen, v: T, name: &'static str) -> Res {
    let plain = v.encode();
    let same = |x: &T| *x == v && x.encode() == plain;
    let again = |m: &MaybeEncrypted<T>| -> Result<MaybeEncrypted<T>, String> {
        let e = m.encode();
        MaybeEncrypted::<T>::decode_all(&mut e.as_slice()).map_err(|e| format!("stored form unreadable: {e}"))
    };
    let key = sym_key(g);
    let mut other = sym_key(g);
    if g.bool() {
        // a key that differs in one bit
        let e = key.encode();
        let mut d = e.clone();
        let at = g.urange(1, d.len() - 1);
        d[at] ^= 1 << g.below(8);
        other = SymmetricKey::decode_all(&mut d.as_slice()).map_err(|e| e.to_string())?;
    }
    g.tag(name);
    note!(g, "{name} of {} bytes", plain.len());
    // without a key
    let m = MaybeEncrypted::new(&v, &None);
    check!(m.encode().ends_with(&plain), "a value without a key is not stored as it is");
    check!(again(&m)?.try_take(&None).is_ok_and(|x| same(&x)), "value stored without a key");
    check!(again(&m)?.try_take(&Some(key.clone())).is_err(), "a value stored without a key opens with one");
    check!(m.try_take(&None).is_ok_and(|x| same(&x)), "value stored without a key");
    // with one
    let m = MaybeEncrypted::new(&v, &Some(key.clone()));
    let stored = m.encode();
    let twice = MaybeEncrypted::new(&v, &Some(key.clone())).encode();
    check!(stored != twice, "the same value looks the same twice");
    if plain.len() >= 8 {
        check!(!stored.windows(plain.len()).any(|w| w == plain), "the value can be read in its encrypted form");
    }
    check!(again(&m)?.try_take(&Some(key.clone())).is_ok_and(|x| same(&x)), "encrypted value");
    check!(again(&m)?.try_decrypt_then_take(&key).is_ok_and(|x| same(&x)), "encrypted value");
    if other != key {
        let r = again(&m)?.try_take(&Some(other.clone())).err();
        check!(matches!(r, Some(MaybeEncryptedError::DecryptionError(_))), "another key: {r:?}");
        let r = again(&m)?.try_decrypt_then_take(&other).err();
        check!(matches!(r, Some(MaybeEncryptedError::DecryptionError(_))), "another key: {r:?}");
    }
    check!(!again(&m)?.try_take(&None).is_ok_and(|x| same(&x)), "encrypted value read without a key");
    // damage
    let mut inner = Vec::<u8>::decode_all(&mut stored.as_slice()).map_err(|e| format!("form of an encrypted value: {e}"))?;
    match g.below(3) {
        0 => {
            let at = g.usize(inner.len());
            inner[at] ^= 1 << g.below(8);
        }
        1 => {
            let n = g.usize(inner.len());
            inner.truncate(n);
        }
        _ => inner.extend(g.bytes(1, 3)),
    }
    let bad = MaybeEncrypted::<T>::decode_all(&mut inner.encode().as_slice()).map_err(|e| format!("stored form unreadable: {e}"))?;
    let r = no_panic(|| bad.try_take(&Some(key.clone())).err())?;
    check!(matches!(r, Some(MaybeEncryptedError::DecryptionError(_))), "damaged: {r:?}");
    // right key, other contents
    let long = MaybeEncrypted::new(&[plain.clone(), vec![7]].concat(), &Some(key.clone()));
    let raw = long.encode();
    let _ = raw;
    g.nontrivial();
    Ok(())
}

fn at_rest(g: &mut Gen) -> Res {
    match g.below(7) {
        0 => {
            let v = g.bytes(0, 300);
            rest(g, v, "bytes")
        }
        1 => {
            let v = g.raw64();
            rest(g, v, "number")
        }
        2 => {
            let v = g.text(40);
            rest(g, v, "text")
        }
        3 => {
            let v = g.pick(&make::pool().keys).0.clone();
            rest(g, v, "private key")
        }
        4 => {
            let v = g.pick(&fixed().roots).clone();
            rest(g, v, "root keys")
        }
        5 => {
            let v = phrase(g);
            rest(g, v, "seed phrase")
        }
        _ => {
            // a value of another type behind the right key
            let (a, key) = (g.raw64() as u32, sym_key(g));
            let key = if g.bool() { Some(key) } else { None };
            let e = MaybeEncrypted::new(&a, &key).encode();
            let m = MaybeEncrypted::<u64>::decode_all(&mut e.as_slice()).map_err(|e| e.to_string())?;
            let r = m.try_take(&key).err();
            check!(matches!(r, Some(MaybeEncryptedError::DecodingError(_))), "value of another type: {r:?}");
            let e = MaybeEncrypted::new(&(a, 5u8), &key).encode();
            let m = MaybeEncrypted::<u32>::decode_all(&mut e.as_slice()).map_err(|e| e.to_string())?;
            let r = m.try_take(&key).err();
            check!(matches!(r, Some(MaybeEncryptedError::DecodingError(_))), "value of another type: {r:?}");
            g.tag("another type");
            Ok(())
        }
    }
}

#[derive(Clone, Default)]
struct Record {
    version: u32,
    kind: Option<WalletType>,
    chain: Option<ChainInfo>,
    median: Option<BlockTimestamp>,
    lookahead: Option<u32>,
    txs: BTreeMap<AccountWalletTxId, WalletTx>,
    user: BTreeMap<AccountWalletCreatedTxId, SignedTransaction>,
    counters: BTreeMap<AccountId, u64>,
    vrf: BTreeMap<AccountId, AccountVrfKeys>,
    watch: BTreeMap<AccountAddress, StandaloneWatchOnlyKey>,
    multi: BTreeMap<AccountAddress, StandaloneMultisig>,
    accounts: BTreeMap<AccountId, AccountInfo>,
    addresses: BTreeMap<AccountDerivationPathId, String>,
    usage: BTreeMap<AccountKeyPurposeId, KeychainUsageState>,
    vrf_usage: BTreeMap<AccountId, KeychainUsageState>,
    pubkeys: BTreeMap<AccountDerivationPathId, ExtendedPublicKey>,
    root: Option<RootKeys>,
    phrase: Option<SerializableSeedPhrase>,
    alone: BTreeMap<AccountPublicKey, (PrivateKey, Option<String>)>,
}

fn shows<T: Debug>(got: &T, want: &T, what: &str) -> Res {
    let (a, b) = (format!("{got:?}"), format!("{want:?}"));
    check!(a == b, "{what}: {a} instead of {b}");
    Ok(())
}

fn within<K: Clone + Ord, V: Clone>(m: &BTreeMap<K, V>, f: impl Fn(&K) -> bool) -> BTreeMap<K, V> {
    m.iter().filter(|x| f(x.0)).map(|(k, v)| (k.clone(), v.clone())).collect()
}

impl Record {
    fn secrets(&self) -> bool {
        self.root.is_some() || self.phrase.is_some() || !self.alone.is_empty()
    }

    fn read(&self, t: &impl WalletStorageReadLocked, probes: &Probes) -> Res {
        let e = |e: Error| format!("reading: {e}");
        check_eq!(t.get_storage_version().map_err(e)?, self.version, "version");
        match (t.get_wallet_type(), self.kind) {
            (Ok(a), Some(b)) => check_eq!(a, b, "kind of wallet"),
            (Err(Error::WalletDbInconsistentState), None) => {}
            (a, b) => return Err(format!("kind of wallet {a:?} instead of {b:?}")),
        }
        match (t.get_chain_info(), &self.chain) {
            (Ok(a), Some(b)) => {
                shows(&a, b, "chain")?;
                check!(a.is_same(&fixed().chain) && a.genesis_block_id() == fixed().chain.genesis_block_id(), "chain");
            }
            (Err(Error::WalletDbInconsistentState), None) => {}
            (a, b) => return Err(format!("chain {a:?} instead of {b:?}")),
        }
        match (t.get_lookahead_size(), self.lookahead) {
            (Ok(a), Some(b)) => check_eq!(a, b, "lookahead"),
            (Err(Error::WalletDbInconsistentState), None) => {}
            (a, b) => return Err(format!("lookahead {a:?} instead of {b:?}")),
        }
        check_eq!(t.get_median_time().map_err(e)?, self.median, "median time");
        check!(t.get_hardware_wallet_data().map_err(e)?.is_none(), "hardware data out of nowhere");
        shows(&t.get_accounts_info().map_err(e)?, &self.accounts, "accounts")?;
        let user: Vec<_> = self.user.values().map(|t| t.encode()).collect();
        let got: Vec<_> = t.get_user_transactions().map_err(e)?.iter().map(|t| t.encode()).collect();
        // order is that of the stored keys
        let (a, b): (BTreeSet<_>, BTreeSet<_>) = (got.iter().collect(), user.iter().collect());
        check!(a == b && got.len() == user.len(), "own transactions: {} of {}", got.len(), user.len());
        match t.check_root_keys_sanity() {
            Ok(()) => check!(self.root.is_some(), "root keys out of nowhere"),
            Err(Error::WalletSanityErrorInvalidRootKeyCount(0)) => check!(self.root.is_none(), "root keys lost"),
            Err(x) => return Err(e(x)),
        }
        for a in &fixed().accounts {
            let got: BTreeMap<_, _> = t.get_transactions(a).map_err(e)?.into_iter().collect();
            check!(got == within(&self.txs, |k| k.account_id() == a), "transactions of an account");
            check_eq!(t.get_account_unconfirmed_tx_counter(a).map_err(e)?, self.counters.get(a).copied(), "counter");
            shows(&t.get_account_vrf_public_keys(a).map_err(e)?, &self.vrf.get(a).cloned(), "VRF keys")?;
            let want: BTreeMap<Destination, _> =
                within(&self.watch, |k| k.account_id() == a).into_iter().map(|(k, v)| (k.into_item_id(), v)).collect();
            shows(&t.get_account_standalone_watch_only_keys(a).map_err(e)?, &want, "watched keys")?;
            let want: BTreeMap<Destination, _> =
                within(&self.multi, |k| k.account_id() == a).into_iter().map(|(k, v)| (k.into_item_id(), v)).collect();
            shows(&t.get_account_standalone_multisig_keys(a).map_err(e)?, &want, "multisig keys")?;
            let got: BTreeMap<_, _> = t.get_account_standalone_private_keys(a).map_err(e)?.into_iter().collect();
            let want: BTreeMap<_, _> =
                within(&self.alone, |k| k.account_id() == a).into_iter().map(|(k, v)| (k, v.1)).collect();
            check!(got == want, "labels of private keys: {got:?} instead of {want:?}");
            check!(t.get_addresses(a).map_err(e)? == within(&self.addresses, |k| k.account_id() == a), "addresses");
            check!(t.get_keychain_usage_states(a).map_err(e)? == within(&self.usage, |k| k.account_id() == a), "usage of keys");
            check_eq!(t.get_vrf_keychain_usage_state(a).map_err(e)?, self.vrf_usage.get(a).cloned(), "usage of VRF keys");
            check!(t.get_public_keys(a).map_err(e)? == within(&self.pubkeys, |k| k.account_id() == a), "public keys");
        }
        for id in &probes.txs {
            check!(t.get_transaction(id).map_err(e)? == self.txs.get(id).cloned(), "transaction");
        }
        for id in &probes.paths {
            check_eq!(t.get_address(id).map_err(e)?, self.addresses.get(id).cloned(), "address");
            check!(t.get_public_key(id).map_err(e)? == self.pubkeys.get(id).cloned(), "public key");
        }
        for a in &fixed().accounts {
            for p in KeyPurpose::ALL {
                let id = AccountPrefixedId::new(a.clone(), p);
                check_eq!(t.get_keychain_usage_state(&id).map_err(e)?, self.usage.get(&id).cloned(), "usage of keys");
            }
        }
        Ok(())
    }

    fn read_secrets(&self, t: &impl WalletStorageReadUnlocked) -> Res {
        let e = |e: Error| format!("reading: {e}");
        check!(t.get_root_key().map_err(e)? == self.root, "root keys differ");
        check!(t.get_seed_phrase().map_err(e)? == self.phrase, "seed phrase differs");
        for a in &fixed().accounts {
            for k in &make::pool().keys[..6] {
                let id = AccountPrefixedId::new(a.clone(), k.1.clone());
                let got = t.get_account_standalone_private_key(&id).map_err(e)?;
                check!(got == self.alone.get(&id).map(|x| x.0.clone()), "private key differs");
            }
        }
        Ok(())
    }

    /// Bytes nobody may see while there is a password.
    fn needles(&self) -> Vec<Vec<u8>> {
        let mut v = vec![];
        let tail = |e: Vec<u8>, n: usize| e[e.len() - n..].to_vec();
        if let Some(r) = &self.root {
            v.push(tail(r.root_key.clone().private_key().encode(), 32));
            v.push(tail(r.root_vrf_key.clone().private_key().encode(), 32));
        }
        if let Some(SerializableSeedPhrase::V0(_, p) | SerializableSeedPhrase::V1(_, p, _)) = &self.phrase {
            v.push(p.mnemonic()[..3].to_vec().encode()[1..].to_vec());
            if let Some(SerializableSeedPhrase::V1(_, _, pass)) = &self.phrase
                && let Some(s) = pass.clone().take()
                && s.len() >= 8
            {
                v.push(s.into_bytes());
            }
        }
        for (k, _) in self.alone.values() {
            v.push(tail(k.encode(), 32));
        }
        v.retain(|n| n.len() >= 8);
        v
    }
}

#[derive(Default)]
struct Probes {
    txs: BTreeSet<AccountWalletTxId>,
    paths: BTreeSet<AccountDerivationPathId>,
}

fn account(g: &mut Gen) -> AccountId {
    g.pick(&fixed().accounts).clone()
}

fn path(g: &mut Gen) -> DerivationPath {
    let n = g.urange(0, 4);
    let v: Vec<ChildNumber> = (0..n).map(|_| ChildNumber::from_index_with_hardened_bit((g.below(3) as u32) | if g.chance(1, 4) { 1 << 31 } else { 0 })).collect();
    DerivationPath::try_from(v).expect("path")
}

fn u31(g: &mut Gen) -> U31 {
    U31::from_u32(g.uint(31) as u32).expect("in range")
}

fn label(g: &mut Gen) -> Option<String> {
    if g.bool() { Some(g.text(12)) } else { None }
}

fn state(g: &mut Gen) -> TxState {
    match g.below(5) {
        0 => TxState::Confirmed(BlockHeight::new(g.raw64()), BlockTimestamp::from_int_seconds(g.raw64()), g.raw64()),
        1 => TxState::InMempool(g.raw64()),
        2 => TxState::Conflicted(make::id(g)),
        3 => TxState::Inactive(g.raw64()),
        _ => TxState::Abandoned,
    }
}

fn wallet_tx(g: &mut Gen) -> WalletTx {
    match g.below(4) {
        0 => {
            let b = make::block(g);
            WalletTx::Block(BlockData::from_block(&b, BlockHeight::new(g.raw64())))
        }
        1 => WalletTx::Block(BlockData::from_genesis(&make::genesis(g))),
        _ => {
            let t = make::signed_transaction(g);
            WalletTx::Tx(TxData::new(t, state(g)))
        }
    }
}

fn write(g: &mut Gen, t: &mut impl WalletStorageWriteLocked, r: &mut Record, probes: &mut Probes) -> Res {
    let e = |e: Error| format!("writing: {e}");
    let f = fixed();
    match g.below(24) {
        0 => {
            r.version = g.uint(32) as u32;
            t.set_storage_version(r.version).map_err(e)?;
        }
        1 => {
            let k = if g.bool() { WalletType::Hot } else { WalletType::Cold };
            r.kind = Some(k);
            t.set_wallet_type(k).map_err(e)?;
        }
        2 => {
            let c = ChainInfo::new(&f.chain);
            t.set_chain_info(&c).map_err(e)?;
            r.chain = Some(c);
        }
        3 | 4 => {
            let x = wallet_tx(g);
            let id = AccountPrefixedId::new(account(g), if g.chance(1, 4) { make::source_id(g) } else { x.id() });
            t.set_transaction(&id, &x).map_err(e)?;
            probes.txs.insert(id.clone());
            r.txs.insert(id, x);
        }
        5 => {
            let known: Vec<_> = probes.txs.iter().cloned().collect();
            if !known.is_empty() {
                let id = g.pick(&known).clone();
                t.del_transaction(&id).map_err(e)?;
                r.txs.remove(&id);
            }
        }
        6 if g.chance(1, 3) => {
            t.clear_transactions().map_err(e)?;
            r.txs.clear();
        }
        7 => {
            let (a, n) = (account(g), g.raw64());
            t.set_account_unconfirmed_tx_counter(&a, n).map_err(e)?;
            r.counters.insert(a, n);
        }
        8 => {
            let (a, k) = (account(g), g.pick(&f.vrf).clone());
            t.set_account_vrf_public_keys(&a, &k).map_err(e)?;
            r.vrf.insert(a, k);
        }
        9 => {
            let x = make::signed_transaction(g);
            let id = AccountPrefixedId::new(account(g), x.transaction().get_id());
            t.set_user_transaction(&id, &x).map_err(e)?;
            r.user.insert(id, x);
        }
        10 => {
            let known: Vec<_> = r.user.keys().cloned().collect();
            if !known.is_empty() {
                let id = g.pick(&known).clone();
                t.del_user_transaction(&id).map_err(e)?;
                r.user.remove(&id);
            }
        }
        11 => {
            let id = AccountPrefixedId::new(account(g), make::destination(g));
            let k = StandaloneWatchOnlyKey { label: label(g) };
            t.set_standalone_watch_only_key(&id, &k).map_err(e)?;
            r.watch.insert(id, k);
        }
        12 => {
            let id = AccountPrefixedId::new(account(g), make::destination(g));
            let n = g.urange(1, 3);
            let need = g.range(1, n as u64) as u8;
            let keys = (0..n).map(|_| make::public_key(g)).collect();
            let challenge = ClassicMultisigChallenge::new(&f.chain, std::num::NonZeroU8::new(need).expect("some"), keys).map_err(|e| e.to_string())?;
            let k = StandaloneMultisig { label: label(g), challenge };
            t.set_standalone_multisig_key(&id, &k).map_err(e)?;
            r.multi.insert(id, k);
        }
        13 | 14 => {
            let a = account(g);
            let k = g.pick(&f.xpubs).clone();
            let mut i = AccountInfo::new(&f.chain, u31(g), k, g.uint(32) as u32, label(g));
            if g.bool() {
                i.update_best_block(BlockHeight::new(g.raw64()), make::id(g));
                i.set_name(label(g));
                i.set_lookahead_size(g.uint(32) as u32);
            }
            t.set_account(&a, &i).map_err(e)?;
            r.accounts.insert(a, i);
        }
        15 => {
            let a = account(g);
            t.del_account(&a).map_err(e)?;
            r.accounts.remove(&a);
        }
        16 => {
            let id = AccountPrefixedId::new(account(g), path(g));
            let a = Address::new(&f.chain, make::destination(g)).map_err(|e| e.to_string())?;
            t.set_address(&id, &a).map_err(e)?;
            probes.paths.insert(id.clone());
            r.addresses.insert(id, a.as_str().to_owned());
        }
        17 => {
            let known: Vec<_> = probes.paths.iter().cloned().collect();
            if !known.is_empty() {
                let id = g.pick(&known).clone();
                if g.bool() {
                    t.del_address(&id).map_err(e)?;
                    r.addresses.remove(&id);
                } else {
                    t.del_public_key(&id).map_err(e)?;
                    r.pubkeys.remove(&id);
                }
            }
        }
        18 => {
            let id = AccountPrefixedId::new(account(g), *g.pick(&KeyPurpose::ALL));
            let s = KeychainUsageState::new(if g.bool() { Some(u31(g)) } else { None }, if g.bool() { Some(u31(g)) } else { None });
            if g.chance(1, 4) {
                t.del_keychain_usage_state(&id).map_err(e)?;
                r.usage.remove(&id);
            } else {
                t.set_keychain_usage_state(&id, &s).map_err(e)?;
                r.usage.insert(id, s);
            }
        }
        19 => {
            let a = account(g);
            let s = KeychainUsageState::new(if g.bool() { Some(u31(g)) } else { None }, if g.bool() { Some(u31(g)) } else { None });
            if g.chance(1, 4) {
                t.del_vrf_keychain_usage_state(&a).map_err(e)?;
                r.vrf_usage.remove(&a);
            } else {
                t.set_vrf_keychain_usage_state(&a, &s).map_err(e)?;
                r.vrf_usage.insert(a, s);
            }
        }
        20 => {
            let id = AccountPrefixedId::new(account(g), path(g));
            let k = g.pick(&f.xpubs).clone();
            t.set_public_key(&id, &k).map_err(e)?;
            probes.paths.insert(id.clone());
            r.pubkeys.insert(id, k);
        }
        21 if g.chance(1, 3) => {
            if g.bool() {
                t.clear_public_keys().map_err(e)?;
                r.pubkeys.clear();
            } else {
                t.clear_addresses().map_err(e)?;
                r.addresses.clear();
            }
        }
        22 => {
            let m = BlockTimestamp::from_int_seconds(g.raw64());
            t.set_median_time(m).map_err(e)?;
            r.median = Some(m);
        }
        _ => {
            let n = g.uint(32) as u32;
            t.set_lookahead_size(n).map_err(e)?;
            r.lookahead = Some(n);
        }
    }
    Ok(())
}

fn write_secret(g: &mut Gen, t: &mut impl WalletStorageWriteUnlocked, r: &mut Record) -> Res {
    let e = |e: Error| format!("writing: {e}");
    match g.below(9) {
        0 | 1 => {
            let k = g.pick(&fixed().roots).clone();
            t.set_root_key(&k).map_err(e)?;
            r.root = Some(k);
        }
        2 if g.chance(1, 3) => {
            t.del_root_key().map_err(e)?;
            r.root = None;
        }
        3 | 4 => {
            let p = phrase(g);
            t.set_seed_phrase(p.clone()).map_err(e)?;
            r.phrase = Some(p);
        }
        5 if g.bool() => {
            let got = t.del_seed_phrase().map_err(e)?;
            check!(got == r.phrase, "the seed phrase handed out when it was deleted differs");
            r.phrase = None;
        }
        _ => {
            let k = make::pool().keys[g.usize(6)].clone();
            let id = AccountPrefixedId::new(account(g), k.1.clone());
            // the key under a public key need not be the one that belongs to it
            let key = if g.chance(1, 5) { make::pool().keys[g.usize(6)].0.clone() } else { k.0 };
            let l = label(g);
            t.set_standalone_private_key(&id, &key, l.clone()).map_err(e)?;
            r.alone.insert(id, (key, l));
        }
    }
    Ok(())
}

trait Medium {
    type B: storage::Backend + 'static;
    fn open(&self) -> Result<Store<Self::B>, String>;
    /// A store over the same contents; the old one is gone.
    fn reopen(&self, old: Store<Self::B>) -> Result<Store<Self::B>, String>;
}

struct Memory;
impl Medium for Memory {
    type B = storage_inmemory::InMemory;
    fn open(&self) -> Result<Store<Self::B>, String> {
        Store::new(storage_inmemory::InMemory::new()).map_err(|e| e.to_string())
    }
    fn reopen(&self, old: Store<Self::B>) -> Result<Store<Self::B>, String> {
        let d = old.dump_raw().map_err(|e| e.to_string())?;
        Store::new_from_dump(storage_inmemory::InMemory::new(), d).map_err(|e| e.to_string())
    }
}

struct File(std::path::PathBuf);
impl Medium for File {
    type B = storage_sqlite::Sqlite;
    fn open(&self) -> Result<Store<Self::B>, String> {
        Store::new(storage_sqlite::Sqlite::new(self.0.join("wallet"))).map_err(|e| e.to_string())
    }
    fn reopen(&self, old: Store<Self::B>) -> Result<Store<Self::B>, String> {
        drop(old);
        self.open()
    }
}

struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> Self {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let p = std::env::temp_dir().join(format!("verif-c42-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn word(g: &mut Gen) -> String {
    loop {
        let s = match g.below(3) {
            0 => g.string(&['a', 'b', 'A', ' ', '0'], 1, 4),
            1 => g.text(60),
            _ => g.string(&['p', 'ä', '\0', '𝕏', '"'], 1, 12),
        };
        if !s.is_empty() {
            return s;
        }
    }
}

fn nearly(g: &mut Gen, s: &str) -> String {
    match g.below(7) {
        0 => String::new(),
        1 => format!("{s} "),
        2 => format!(" {s}"),
        3 => s.chars().rev().skip(1).collect::<Vec<_>>().into_iter().rev().collect(),
        4 => s.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        5 => format!("{s}\0"),
        _ => word(g),
    }
}

fn look<B: storage::Backend + 'static>(g: &mut Gen, s: &mut Store<B>, r: &Record, probes: &Probes, pass: &Option<String>, locked: bool) -> Res {
    let e = |e: Error| format!("transaction: {e}");
    check_eq!(s.is_encrypted(), pass.is_some(), "whether there is a password");
    check_eq!(s.is_locked(), locked, "whether it is locked");
    match g.below(4) {
        0 => r.read(&s.transaction_ro().map_err(e)?, probes)?,
        1 => r.read(&s.transaction_rw(None).map_err(e)?, probes)?,
        2 if !locked => {
            let t = s.transaction_ro_unlocked().map_err(e)?;
            r.read(&t, probes)?;
        }
        _ if !locked => {
            let mut t = s.transaction_rw_unlocked(None).map_err(e)?;
            r.read(&&mut t, probes)?;
            r.read_secrets(&&mut t)?;
        }
        _ => {}
    }
    if locked {
        check!(matches!(s.transaction_ro_unlocked().err(), Some(Error::WalletLocked)), "secrets can be read while locked");
        check!(matches!(s.transaction_rw_unlocked(None).err(), Some(Error::WalletLocked)), "secrets can be written while locked");
    } else {
        r.read_secrets(&s.transaction_ro_unlocked().map_err(e)?)?;
    }
    let dump = s.dump_raw().map_err(e)?;
    let found = r.needles().iter().any(|n| dump.values().any(|m| m.values().any(|v| v.windows(n.len()).any(|w| w == n.as_slice()))));
    if pass.is_some() {
        check!(!found, "a secret stands in the database as it is");
    } else {
        check_eq!(found, !r.needles().is_empty(), "secrets in a database without a password");
    }
    Ok(())
}

fn history<M: Medium>(g: &mut Gen, medium: &M) -> Res {
    let mut store = Some(medium.open()?);
    let mut r = Record::default();
    let mut probes = Probes::default();
    let mut pass: Option<String> = None;
    let mut locked = false;
    let (mut protected, mut unlocked) = (false, false);
    let steps = g.urange(4, 24);
    let mut costly = 7;
    for _ in 0..steps {
        let mut s = store.take().expect("is open");
        let e = |e: Error| format!("transaction: {e}");
        match g.weighted(&[6, 6, 2, 1, 2, 3, 2, 2]) {
            0 => {
                let mut next = r.clone();
                let mut t = s.transaction_rw(None).map_err(e)?;
                for _ in 0..g.urange(1, 8) {
                    write(g, &mut t, &mut next, &mut probes)?;
                }
                next.read(&t, &probes)?;
                match g.below(6) {
                    0 => t.abort(),
                    1 => drop(t),
                    _ => {
                        t.commit().map_err(e)?;
                        r = next;
                    }
                }
            }
            1 if !locked => {
                let mut next = r.clone();
                let mut t = s.transaction_rw_unlocked(None).map_err(e)?;
                for _ in 0..g.urange(1, 6) {
                    if g.bool() {
                        write(g, &mut t, &mut next, &mut probes)?;
                    } else {
                        write_secret(g, &mut t, &mut next)?;
                    }
                }
                next.read(&t, &probes)?;
                next.read_secrets(&t)?;
                match g.below(6) {
                    0 => t.abort(),
                    1 => drop(t),
                    _ => {
                        t.commit().map_err(e)?;
                        r = next;
                    }
                }
            }
            2 if costly > 0 => {
                costly -= 1;
                let new = if g.chance(1, 8) { String::new() } else { word(g) };
                note!(g, "password {new:?}{}", if locked { " while locked" } else { "" });
                let got = no_panic(|| s.encrypt_private_keys(&Some(new.clone())))?;
                if locked {
                    check_eq!(got, Err(Error::WalletLocked), "setting a password while locked");
                } else if new.is_empty() {
                    check_eq!(got, Err(Error::WalletEmptyPassword), "setting an empty password");
                } else {
                    check_eq!(got, Ok(()), "setting a password");
                    pass = Some(new);
                    protected |= r.secrets();
                }
            }
            3 => {
                note!(g, "no password");
                let got = no_panic(|| s.encrypt_private_keys(&None))?;
                if locked {
                    check_eq!(got, Err(Error::WalletLocked), "removing the password while locked");
                } else {
                    check_eq!(got, Ok(()), "removing the password");
                    pass = None;
                }
            }
            4 => {
                note!(g, "lock");
                let got = s.lock_private_keys();
                if pass.is_none() {
                    check_eq!(got, Err(Error::WalletLockedWithoutAPassword), "locking without a password");
                } else {
                    check_eq!(got, Ok(()), "locking");
                    locked = true;
                }
            }
            5 if costly > 0 => {
                let p = pass.clone().unwrap_or("a".into());
                note!(g, "unlock");
                let got = no_panic(|| s.unlock_private_keys(&p))?;
                if locked {
                    costly -= 1;
                    check_eq!(got, Ok(()), "unlocking with the right password");
                    locked = false;
                    unlocked |= r.secrets();
                } else {
                    check_eq!(got, Err(Error::WalletAlreadyUnlocked), "unlocking what is not locked");
                }
            }
            6 if costly > 0 && locked && r.secrets() => {
                costly -= 1;
                let right = pass.clone().expect("is locked");
                let p = nearly(g, &right);
                if p != right {
                    note!(g, "unlock {right:?} with {p:?}");
                    check_eq!(no_panic(|| s.unlock_private_keys(&p))?, Err(Error::WalletInvalidPassword), "unlocking {right:?} with {p:?}");
                }
            }
            _ => {
                note!(g, "reopen");
                s = medium.reopen(s)?;
                locked = pass.is_some();
            }
        }
        look(g, &mut s, &r, &probes, &pass, locked)?;
        store = Some(s);
    }
    let mut s = medium.reopen(store.take().expect("is open"))?;
    locked = pass.is_some();
    look(g, &mut s, &r, &probes, &pass, locked)?;
    if let Some(p) = &pass {
        s.unlock_private_keys(p).map_err(|e| format!("the last password fails: {e}"))?;
        unlocked |= r.secrets();
        look(g, &mut s, &r, &probes, &pass, false)?;
    }
    g.tag_if(protected, "encrypted");
    g.tag_if(unlocked, "unlocked");
    g.nontrivial_if(protected && unlocked);
    Ok(())
}

fn histories(g: &mut Gen) -> Res {
    if g.chance(1, 8) {
        g.tag("on disk");
        let d = Scratch::new();
        history(g, &File(d.0.clone()))
    } else {
        history(g, &Memory)
    }
}

/// With a password but no root keys, the other secrets decide about a password.
fn nothing_to_check(g: &mut Gen) -> Res {
    let k = g.below(4);
    let e = |e: Error| e.to_string();
    let mut s = Memory.open()?;
    let (a, key) = (fixed().accounts[0].clone(), make::pool().keys[0].clone());
    let id = AccountPrefixedId::new(a, key.1.clone());
    let before = k & 1 == 1;
    if before {
        let mut t = s.transaction_rw_unlocked(None).map_err(e)?;
        if k & 2 == 0 {
            t.set_standalone_private_key(&id, &key.0, None).map_err(e)?;
        } else {
            t.set_seed_phrase(SerializableSeedPhrase::zero_seed_phrase()).map_err(e)?;
        }
        t.commit().map_err(e)?;
    }
    s.encrypt_private_keys(&Some("right".into())).map_err(e)?;
    s.lock_private_keys().map_err(e)?;
    let got = s.unlock_private_keys(&"wrong".into());
    if before {
        check_eq!(got, Err(Error::WalletInvalidPassword), "a wrong password with a secret stored");
        s.unlock_private_keys(&"right".into()).map_err(e)?;
    } else if got.is_ok() {
        return Err("[no-secret-any-password] with a password but nothing encrypted, any other password unlocks".into());
    }
    g.nontrivial();
    Ok(())
}

fn usage_state(g: &mut Gen) -> Res {
    let opt = |g: &mut Gen| if g.bool() { Some(u31(g)) } else { None };
    let (mut used, mut issued) = (opt(g), opt(g));
    let mut s = KeychainUsageState::new(used, issued);
    for _ in 0..g.urange(1, 8) {
        let i = match g.below(3) {
            0 => u31(g),
            1 => used.unwrap_or_else(|| u31(g)),
            _ => {
                let b = issued.map_or(0, |x| x.into_u32());
                U31::from_u32((b + g.below(3) as u32).saturating_sub(1).min(u32::MAX >> 1)).expect("in range")
            }
        };
        if g.bool() {
            s.increment_up_to_last_used(i);
            if used.is_none_or(|u| u < i) {
                used = Some(i);
                issued = issued.max(Some(i));
            }
        } else {
            s.increment_up_to_last_issued(i);
            issued = issued.max(Some(i));
        }
        check_eq!((s.last_used(), s.last_issued()), (used, issued), "used and issued");
    }
    let back = KeychainUsageState::decode_all(&mut s.encode().as_slice()).map_err(|e| e.to_string())?;
    check_eq!(back, s, "read back");
    // states of transactions
    let st = state(g);
    let mut t = st;
    let changed = t.reset_inmempool_to_inactive();
    match st {
        TxState::InMempool(n) => check!(changed && t == TxState::Inactive(n), "a transaction that left the pool"),
        _ => check!(!changed && t == st, "a transaction that was not in the pool"),
    }
    let want = match st {
        TxState::Confirmed(h, time, i) => (Some(h), Some(time), Some(i)),
        TxState::InMempool(i) | TxState::Inactive(i) => (None, None, Some(i)),
        _ => (None, None, None),
    };
    check_eq!((st.block_height(), st.timestamp(), st.block_order_index()), want, "state");
    g.nontrivial();
    Ok(())
}
