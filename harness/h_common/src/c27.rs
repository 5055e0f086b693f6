//! Scripts of conditions.

use common::{
    chain::{
        block::{timestamp::BlockTimestamp, BlockRewardTransactable},
        config::create_regtest,
        htlc::{HashedTimelockContract, HtlcSecret, HtlcSecretHash},
        signature::{
            inputsig::{
                authorize_hashed_timelock_contract_spend::AuthorizedHashedTimelockContractSpend as Spend,
                standard_signature::StandardInputSignature, InputWitness,
            },
            sighash::{input_commitments::SighashInputCommitment as Commit, sighashtype::SigHashType},
            DestinationSigError, EvaluatedInputWitness,
        },
        timelock::OutputTimeLock as Lock,
        tokens::TokenId,
        AccountCommand, AccountSpending, ChainConfig, DelegationId, Destination, OrderAccountCommand, OrderId, PoolId, SignedTransaction,
        Transaction, TxInput, TxOutput,
    },
    primitives::BlockHeight,
};
use crypto::key::PredefinedSigAuxDataProvider as Zeros;
use gens::{make, make::pool};
use mintscript::{
    checker::{HashlockError, StandardTimelockChecker, TimelockChecker, TimelockError},
    script::{DissatisfiedScript, HashChallenge, ScriptCondition, ScriptConstructionError, ScriptError, ScriptVisitor, Threshold, ThresholdError},
    translate::{InputInfoProvider, SignatureInfoProvider, SignatureOnlyTx, TimelockOnly, TranslationError as T},
    InputInfo, ScriptChecker, SignatureContext, TimelockContext, TranslateInput, WitnessScript,
};
use pbt::*;
use serialization::Encode;
use std::{borrow::Cow, sync::OnceLock};
use utxo::UtxoSource;

pub const P: Property = Property {
    id: "C27",
    rule: "a case is non-trivial when the script has at least two conditions, or the lock is within one step of opening, or the input demands a key",
    facets: &[
        facet("formulas", 200000, formulas),
        facet("thresholds", 100000, thresholds),
        facet("timelocks", 300000, timelocks),
        facet("hashlocks", 60000, hashlocks),
        facet("inputs", 60000, inputs),
        facet("whole", 6000, whole),
    ],
    assumptions: &["hash locks other than the double hash of 20 bytes are marked unimplemented in the code and are not generated as required conditions"],
};

type Res = Result<(), String>;

#[derive(Debug, Clone, PartialEq, Eq)]
struct Bad(&'static str);

impl std::fmt::Display for Bad {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.0)
    }
}

impl std::error::Error for Bad {}

// ---- formulas over leaves that know whether they hold

/// Leaves are told apart by a number, and hold if it is even.
fn leaf(g: &mut Gen, n: u64, holds: bool) -> WitnessScript {
    let x = n * 2 + u64::from(!holds);
    match g.below(3) {
        0 => WitnessScript::signature(
            Destination::AnyoneCanSpend,
            EvaluatedInputWitness::NoSignature(Some(x.to_le_bytes().to_vec())),
        ),
        1 => WitnessScript::timelock(Lock::ForSeconds(x)),
        _ => {
            let mut p = [0; 32];
            p[..8].copy_from_slice(&x.to_le_bytes());
            WitnessScript::hashlock(HashChallenge::Hash160([0; 20]), p)
        }
    }
}

#[derive(Default)]
struct Seen {
    order: Vec<u64>,
}

impl Seen {
    fn see(&mut self, x: u64, k: &'static str) -> Result<(), Bad> {
        self.order.push(x);
        if x % 2 == 0 {
            Ok(())
        } else {
            Err(Bad(k))
        }
    }
}

impl ScriptVisitor for Seen {
    type SignatureError = Bad;
    type TimelockError = Bad;
    type HashlockError = Bad;

    fn visit_signature(&mut self, _: &Destination, w: &EvaluatedInputWitness) -> Result<(), Bad> {
        match w {
            EvaluatedInputWitness::NoSignature(Some(b)) => self.see(u64::from_le_bytes(b[..].try_into().unwrap()), "signature"),
            _ => Err(Bad("other")),
        }
    }
    fn visit_timelock(&mut self, l: &Lock) -> Result<(), Bad> {
        match l {
            Lock::ForSeconds(x) => self.see(*x, "timelock"),
            _ => Err(Bad("other")),
        }
    }
    fn visit_hashlock(&mut self, _: &HashChallenge, p: &[u8; 32]) -> Result<(), Bad> {
        self.see(u64::from_le_bytes(p[..8].try_into().unwrap()), "hashlock")
    }
}

/// What a script means: the leaves claimed satisfied, and the thresholds among them that are not exactly met.
#[derive(Default)]
struct Meaning {
    leaves: Vec<u64>,
    short: usize,
    over: usize,
}

fn number_of(s: &WitnessScript) -> Option<(u64, &'static str)> {
    match s {
        WitnessScript::Signature(_, EvaluatedInputWitness::NoSignature(Some(b))) => Some((u64::from_le_bytes(b[..].try_into().unwrap()), "signature")),
        WitnessScript::Timelock(Lock::ForSeconds(x)) => Some((*x, "timelock")),
        WitnessScript::HashLock { preimage, .. } => Some((u64::from_le_bytes(preimage[..8].try_into().unwrap()), "hashlock")),
        _ => None,
    }
}

fn meaning(s: &WitnessScript, m: &mut Meaning) {
    match s {
        WitnessScript::Threshold(t) => {
            let sat: Vec<_> = t.conditions().iter().filter_map(|c| if let ScriptCondition::Satisfied(s) = c { Some(s) } else { None }).collect();
            m.short += usize::from(sat.len() < t.required());
            m.over += usize::from(sat.len() > t.required());
            sat.into_iter().for_each(|s| meaning(s, m));
        }
        s => m.leaves.extend(number_of(s).map(|n| n.0)),
    }
}

fn script(g: &mut Gen, depth: u64, next: &mut u64, exact: bool) -> WitnessScript {
    if depth == 0 || g.chance(1, 3) {
        *next += 1;
        let holds = !g.chance(1, if exact { 40 } else { 6 });
        return leaf(g, *next, holds);
    }
    let n = g.usize(5);
    let conds: Vec<_> = (0..n)
        .map(|_| {
            if g.chance(1, 4) {
                ScriptCondition::FALSE
            } else {
                ScriptCondition::Satisfied(script(g, depth - 1, next, exact))
            }
        })
        .collect();
    let sat = conds.iter().filter(|c| c.as_satisfied().is_some()).count();
    let req = if exact || !g.chance(1, 6) { sat } else { g.usize(n + 1) };
    WitnessScript::threshold(req, conds).expect("no more than there are")
}

fn formulas(g: &mut Gen) -> Res {
    let exact = g.bool();
    let s = script(g, 4, &mut 0, exact);
    note!(g, "{s}");
    let mut m = Meaning::default();
    meaning(&s, &mut m);
    g.nontrivial_if(m.leaves.len() > 1);
    let mut v = Seen::default();
    let got = s.verify(&mut v);
    let bad: Vec<u64> = m.leaves.iter().copied().filter(|x| x % 2 == 1).collect();
    let fails = !bad.is_empty() || m.short + m.over > 0;
    g.tag(if fails { "fails" } else { "holds" });
    let mut seen = v.order.clone();
    seen.sort_unstable();
    let mut all = m.leaves.clone();
    all.sort_unstable();
    check!(seen.windows(2).all(|w| w[0] != w[1]), "a condition was checked twice: {seen:?}");
    check!(seen.iter().all(|x| all.contains(x)), "a condition that is not claimed satisfied was checked: {seen:?} of {all:?}");
    match got {
        Ok(()) => {
            check!(!fails, "accepted, failing {bad:?}, thresholds short {} over {}", m.short, m.over);
            check_eq!(seen, all, "accepted without checking every condition");
        }
        Err(ScriptError::Threshold(ThresholdError::Insufficient)) => check!(m.short > 0, "no threshold is short"),
        Err(ScriptError::Threshold(ThresholdError::Excessive)) => check!(m.over > 0, "no threshold is over"),
        Err(e) => {
            let last = v.order.last().copied().unwrap_or(0);
            check!(bad.contains(&last), "the condition blamed holds");
            let kind = match e {
                ScriptError::Signature(Bad(k)) if k == "signature" => k,
                ScriptError::Timelock(Bad(k)) if k == "timelock" => k,
                ScriptError::Hashlock(Bad(k)) if k == "hashlock" => k,
                e => return Err(format!("error of another kind: {e:?}")),
            };
            let _ = kind;
        }
    }
    // joining scripts
    let (mut next, mut parts) = (100, vec![]);
    for _ in 0..g.usize(4) {
        parts.push(script(g, 2, &mut next, true));
    }
    let each: Vec<bool> = parts.iter().map(|p| p.verify(&mut Seen::default()).is_ok()).collect();
    check_eq!(
        WitnessScript::satisfied_conjunction(parts.clone()).verify(&mut Seen::default()).is_ok(),
        each.iter().all(|b| *b),
        "conjunction"
    );
    let mut conds = vec![ScriptCondition::FALSE; parts.len()];
    if !parts.is_empty() {
        let i = g.usize(parts.len());
        conds[i] = ScriptCondition::Satisfied(parts[i].clone());
        let d = WitnessScript::disjunction(conds.clone()).map_err(|e| format!("{e}"))?;
        check_eq!(d.verify(&mut Seen::default()).is_ok(), each[i], "disjunction");
        let c = WitnessScript::conjunction(conds);
        check_eq!(c.verify(&mut Seen::default()).is_ok(), each[i] && parts.len() == 1, "conjunction with falsehoods");
    } else {
        check!(WitnessScript::disjunction(conds).is_err(), "disjunction of nothing");
    }
    Ok(())
}

fn thresholds(g: &mut Gen) -> Res {
    let n = g.usize(7);
    let conds: Vec<_> = (0..n as u64)
        .map(|i| match g.below(4) {
            0 => ScriptCondition::Dissatisfied(DissatisfiedScript::False),
            1 => ScriptCondition::from_bool(g.bool()),
            _ => ScriptCondition::Satisfied(leaf(g, i, true)),
        })
        .collect();
    let req = g.usize(n + 3);
    note!(g, "{req} of {conds:?}");
    g.nontrivial_if(n > 1);
    let t = match Threshold::new(req, conds.clone()) {
        Err(e) => {
            check!(req > n, "refused: {e}");
            check_eq!(e, ScriptConstructionError::InvalidThreshold(req, n), "error");
            check_eq!(WitnessScript::threshold(req, conds), Err(e), "as a script");
            g.tag("refused");
            return Ok(());
        }
        Ok(t) => t,
    };
    check!(req <= n, "{req} of {n}");
    check_eq!((t.required(), t.required_dissat(), t.conditions()), (req, n - req, &conds[..]), "parts");
    check_eq!(WitnessScript::threshold(req, conds.clone()).as_ref(), Ok(&t.clone().into_script()), "as a script");
    let sat: Vec<_> = conds.iter().filter_map(|c| c.as_satisfied()).collect();
    check_eq!(t.collect_satisfied_unchecked(), sat, "satisfied ones");
    let want = match sat.len().cmp(&req) {
        std::cmp::Ordering::Less => Err(ThresholdError::Insufficient),
        std::cmp::Ordering::Greater => Err(ThresholdError::Excessive),
        _ => Ok(sat),
    };
    g.tag(match &want {
        Ok(_) => "met",
        Err(ThresholdError::Insufficient) => "short",
        Err(_) => "over",
    });
    check_eq!(t.collect_satisfied(), want, "satisfied ones, counted");
    check_eq!(ScriptCondition::TRUE.as_satisfied(), Some(&WitnessScript::TRUE), "truth");
    check_eq!(ScriptCondition::FALSE.as_satisfied(), None, "falsehood");
    check!(WitnessScript::TRUE.verify(&mut Seen::default()).is_ok(), "truth is false");
    Ok(())
}

// ---- locks

struct At {
    h: u64,
    t: u64,
    from: Result<(u64, u64), Bad>,
}

impl TimelockContext for At {
    type Error = Bad;
    fn spending_height(&self) -> BlockHeight {
        BlockHeight::new(self.h)
    }
    fn spending_time(&self) -> BlockTimestamp {
        BlockTimestamp::from_int_seconds(self.t)
    }
    fn source_height(&self) -> Result<BlockHeight, Bad> {
        self.from.clone().map(|f| BlockHeight::new(f.0))
    }
    fn source_time(&self) -> Result<BlockTimestamp, Bad> {
        self.from.clone().map(|f| BlockTimestamp::from_int_seconds(f.1))
    }
}

fn opens(l: &Lock, a: &At) -> Result<(), TimelockError<Bad>> {
    let height = |r: u64| (a.h >= r).then_some(()).ok_or(TimelockError::HeightLocked(BlockHeight::new(a.h), BlockHeight::new(r)));
    let time = |r: u64| {
        (a.t >= r).then_some(()).ok_or(TimelockError::TimestampLocked(BlockTimestamp::from_int_seconds(a.t), BlockTimestamp::from_int_seconds(r)))
    };
    match l {
        Lock::UntilHeight(r) => height(r.into_int()),
        Lock::UntilTime(t) => time(t.as_int_seconds()),
        Lock::ForBlockCount(n) => {
            if *n > i64::MAX as u64 {
                return Err(TimelockError::HeightArith);
            }
            let f = a.from.clone().map_err(TimelockError::Context)?;
            height(f.0.checked_add(*n).ok_or(TimelockError::HeightArith)?)
        }
        Lock::ForSeconds(n) => {
            let f = a.from.clone().map_err(TimelockError::Context)?;
            time(f.1.checked_add(*n).ok_or(TimelockError::TimestampArith)?)
        }
    }
}

fn near(g: &mut Gen, x: u64) -> u64 {
    match g.below(4) {
        0 => g.u64(),
        1 => x.saturating_sub(g.below(3)),
        2 => x.saturating_add(g.below(3)),
        _ => x,
    }
}

fn timelocks(g: &mut Gen) -> Res {
    let base = if g.bool() { g.below(1000) } else { g.u64() };
    let n = if g.bool() { g.below(1000) } else { g.u64() };
    let kind = g.below(4);
    let (lock, at) = match kind {
        0 => (Lock::UntilHeight(BlockHeight::new(n)), n),
        1 => (Lock::UntilTime(BlockTimestamp::from_int_seconds(n)), n),
        2 => (Lock::ForBlockCount(n), base.saturating_add(n)),
        _ => (Lock::ForSeconds(n), base.saturating_add(n)),
    };
    let h = near(g, at);
    let t = near(g, at);
    let base = if kind == 2 && !g.chance(1, 8) { base >> 1 } else { base };
    let from = if g.chance(1, 20) { Err(Bad("no source")) } else { Ok(if kind == 2 { (base, g.u64()) } else { (g.u64(), base) }) };
    let mut a = At { h, t, from };
    note!(g, "{lock:?} at {h}, {t}, from {:?}", a.from);
    g.nontrivial_if(at.abs_diff(if kind % 2 == 0 { h } else { t }) <= 1);
    let want = opens(&lock, &a);
    g.tag(match &want {
        Ok(()) => "open",
        Err(TimelockError::HeightLocked(..) | TimelockError::TimestampLocked(..)) => "locked",
        Err(_) => "impossible",
    });
    let got = no_panic(|| StandardTimelockChecker.check_timelock(&mut a, &lock)).map_err(|p| format!("{lock:?}: crash: {p}"))?;
    // heights that no chain reaches may be refused either way
    let want = match (&got, want) {
        (Err(TimelockError::HeightArith), Err(TimelockError::HeightLocked(_, r))) if r.into_int() > i64::MAX as u64 => got.clone(),
        (_, w) if a.from.as_ref().is_ok_and(|f| f.0 > i64::MAX as u64) && kind == 2 && got.is_err() => {
            g.tag("beyond all chains");
            let _ = w;
            got.clone()
        }
        (_, w) => w,
    };
    check_eq!(got, want, "{lock:?}");
    // in a script
    let s = WitnessScript::timelock(lock);
    let got = s.verify(&mut ScriptChecker::timelock_only(At { h, t, from: a.from.clone() }));
    match (&want, got) {
        (Ok(()), Ok(())) => (),
        (Err(e), Err(ScriptError::Timelock(x))) => check_eq!(&x, e, "error of the script"),
        (w, x) => return Err(format!("as a script {x:?}, not {w:?}")),
    }
    // once open, open later
    if want.is_ok() {
        let mut later = At { h: h.saturating_add(g.u64()), t: t.saturating_add(g.u64()), from: a.from.clone() };
        check_eq!(StandardTimelockChecker.check_timelock(&mut later, &lock), Ok(()), "closed again at {}, {}", later.h, later.t);
    }
    let mut c = ScriptChecker::timelock_only(a);
    check_eq!(c.visit_timelock(&lock).is_ok(), want.is_ok(), "visit");
    check_eq!((c.into_context().h, h), (h, h), "context");
    Ok(())
}

// ---- whole inputs

struct Ctx {
    tx: SignedTransaction,
    commitments: Vec<Commit<'static>>,
    i: usize,
    at: At,
}

fn config() -> &'static ChainConfig {
    static C: OnceLock<ChainConfig> = OnceLock::new();
    C.get_or_init(create_regtest)
}

impl TimelockContext for Ctx {
    type Error = Bad;
    fn spending_height(&self) -> BlockHeight {
        self.at.spending_height()
    }
    fn spending_time(&self) -> BlockTimestamp {
        self.at.spending_time()
    }
    fn source_height(&self) -> Result<BlockHeight, Bad> {
        self.at.source_height()
    }
    fn source_time(&self) -> Result<BlockTimestamp, Bad> {
        self.at.source_time()
    }
}

impl SignatureContext for Ctx {
    type Tx = SignedTransaction;
    fn chain_config(&self) -> &ChainConfig {
        config()
    }
    fn transaction(&self) -> &SignedTransaction {
        &self.tx
    }
    fn input_commitments(&self) -> &[Commit<'_>] {
        &self.commitments
    }
    fn input_num(&self) -> usize {
        self.i
    }
}

fn context(g: &mut Gen) -> Ctx {
    let tx = make::transaction(g);
    let sigs = tx.inputs().iter().map(|_| InputWitness::NoSignature(None)).collect();
    let commitments = tx.inputs().iter().map(|_| make::commitment(g)).collect();
    Ctx {
        tx: SignedTransaction::new(tx, sigs).expect("as many"),
        commitments,
        i: 0,
        at: At { h: g.below(100), t: g.below(100), from: Ok((g.below(50), g.below(50))) },
    }
}

fn hashlocks(g: &mut Gen) -> Res {
    let pre: [u8; 32] = g.array();
    let right: [u8; 20] = refs::hashes::ripemd160(&refs::hashes::sha256(&pre)).try_into().unwrap();
    let mut h = right;
    match g.below(4) {
        0 => h[g.usize(20)] ^= 1 << g.below(8),
        1 => h = g.array(),
        2 => h[..20].copy_from_slice(&refs::hashes::ripemd160(&pre)),
        _ => (),
    }
    let ok = h == right;
    g.tag(if ok { "right" } else { "wrong" });
    g.nontrivial();
    note!(g, "{pre:?} for {h:?}");
    let s = WitnessScript::hashlock(HashChallenge::Hash160(h), pre);
    let mut c = ScriptChecker::full(context(g));
    let got = s.verify(&mut c);
    match got {
        Ok(()) => check!(ok, "a wrong secret opened the lock"),
        Err(ScriptError::Hashlock(e)) => {
            check_eq!(e, HashlockError::HashMismatch, "error");
            check!(!ok, "the right secret did not open the lock");
        }
        Err(e) => return Err(format!("{e:?}")),
    }
    check!(s.verify(&mut ScriptChecker::signature_only(context(g))).is_ok(), "a checker of signatures checked a hash");
    check!(s.verify(&mut ScriptChecker::timelock_only(context(g))).is_ok(), "a checker of time locks checked a hash");
    Ok(())
}

// ---- what an input demands

struct Info<'a> {
    info: InputInfo<'a>,
    witness: InputWitness,
    /// The answer of every lookup: what it was asked for comes back in it.
    dest: Option<Destination>,
    fail: bool,
    asked: std::cell::RefCell<Vec<(&'static str, [u8; 32])>>,
}

impl InputInfoProvider for Info<'_> {
    fn input_info(&self) -> &InputInfo<'_> {
        &self.info
    }
    fn witness(&self) -> &InputWitness {
        &self.witness
    }
}

impl SignatureInfoProvider for Info<'_> {
    fn get_pool_decommission_destination(&self, id: &PoolId) -> Result<Option<Destination>, pos_accounting::Error> {
        self.asked.borrow_mut().push(("pool", id.to_hash().0));
        if self.fail { Err(pos_accounting::Error::AdditionError) } else { Ok(self.dest.clone()) }
    }
    fn get_delegation_spend_destination(&self, id: &DelegationId) -> Result<Option<Destination>, pos_accounting::Error> {
        self.asked.borrow_mut().push(("delegation", id.to_hash().0));
        if self.fail { Err(pos_accounting::Error::AdditionError) } else { Ok(self.dest.clone()) }
    }
    fn get_tokens_authority(&self, id: &TokenId) -> Result<Option<Destination>, tokens_accounting::Error> {
        self.asked.borrow_mut().push(("token", id.to_hash().0));
        if self.fail { Err(tokens_accounting::Error::AmountOverflow) } else { Ok(self.dest.clone()) }
    }
    fn get_orders_conclude_destination(&self, id: &OrderId) -> Result<Option<Destination>, orders_accounting::Error> {
        self.asked.borrow_mut().push(("order", id.to_hash().0));
        if self.fail { Err(orders_accounting::Error::OrderAlreadyExists(*id)) } else { Ok(self.dest.clone()) }
    }
}

/// What must hold to spend an input: for each of four ways of looking at it.
enum Demand {
    Key(Destination),
    LockAndKey(Lock, Destination),
    Pool(PoolId),
    Delegation(DelegationId),
    Token(TokenId),
    Order(OrderId),
    Contract(HashedTimelockContract),
    Free,
    Never,
}

fn evaluated(w: &InputWitness) -> EvaluatedInputWitness {
    match w {
        InputWitness::NoSignature(d) => EvaluatedInputWitness::NoSignature(d.clone()),
        InputWitness::Standard(s) => EvaluatedInputWitness::Standard(s.clone()),
    }
}

fn and(l: Vec<WitnessScript>) -> WitnessScript {
    let n = l.len();
    WitnessScript::threshold(n, l.into_iter().map(ScriptCondition::Satisfied).collect()).expect("all of them")
}

fn inputs(g: &mut Gen) -> Res {
    let input = if g.bool() {
        TxInput::Utxo(make::outpoint(g))
    } else {
        loop {
            let i = make::input(g);
            if !matches!(i, TxInput::Utxo(_)) || g.exhausted() {
                break i;
            }
        }
    };
    let kind = g.below(12);
    let out = make::output_of(g, kind);
    let raw = match g.below(4) {
        0 => Spend::Spend(HtlcSecret::new(g.array()), g.bytes(0, 20)).encode(),
        1 => Spend::Refund(g.bytes(0, 20)).encode(),
        _ => g.bytes(0, 20),
    };
    let ty = SigHashType::try_from(*g.pick(&[1u8, 2, 3, 0x81, 0x82, 0x83])).expect("valid");
    let witness = if g.chance(1, 5) { InputWitness::NoSignature(g.bool().then(|| g.bytes(0, 4))) } else { InputWitness::Standard(StandardInputSignature::new(ty, raw.clone())) };
    let sig = evaluated(&witness);
    let info = match &input {
        TxInput::Utxo(p) => InputInfo::Utxo {
            outpoint: p,
            utxo: out.clone(),
            utxo_source: g.pick(&[None, Some(UtxoSource::Mempool), Some(UtxoSource::Blockchain(BlockHeight::new(3)))]).clone(),
        },
        TxInput::Account(o) => InputInfo::Account { outpoint: o },
        TxInput::AccountCommand(_, c) => InputInfo::AccountCommand { command: c },
        TxInput::OrderAccountCommand(c) => InputInfo::OrderAccountCommand { command: c },
    };
    let dest = (!g.chance(1, 5)).then(|| make::destination(g));
    let fail = g.chance(1, 10);
    let c = Info { info, witness: witness.clone(), dest: dest.clone(), fail, asked: Default::default() };
    note!(g, "{input:?} of {out:?} with {witness:?}, lookups give {dest:?}, fail {fail}");
    use AccountCommand as A;
    use OrderAccountCommand as O;
    let demand = match &input {
        TxInput::Utxo(_) => match &out {
            TxOutput::Transfer(_, d) | TxOutput::IssueNft(_, _, d) => Demand::Key(d.clone()),
            TxOutput::LockThenTransfer(_, d, l) => Demand::LockAndKey(*l, d.clone()),
            TxOutput::CreateStakePool(_, p) => Demand::Key(p.decommission_key().clone()),
            TxOutput::ProduceBlockFromStake(_, p) => Demand::Pool(*p),
            TxOutput::Htlc(_, h) => Demand::Contract((**h).clone()),
            _ => Demand::Never,
        },
        TxInput::Account(o) => match o.account() {
            AccountSpending::DelegationBalance(d, _) => Demand::Delegation(*d),
        },
        TxInput::AccountCommand(_, c) => match c {
            A::MintTokens(t, _) | A::UnmintTokens(t) | A::LockTokenSupply(t) | A::FreezeToken(t, _) | A::UnfreezeToken(t) => Demand::Token(*t),
            A::ChangeTokenAuthority(t, _) | A::ChangeTokenMetadataUri(t, _) => Demand::Token(*t),
            A::ConcludeOrder(o) => Demand::Order(*o),
            A::FillOrder(..) => Demand::Free,
        },
        TxInput::OrderAccountCommand(c) => match c {
            O::FillOrder(..) => Demand::Key(Destination::AnyoneCanSpend),
            O::FreezeOrder(o) | O::ConcludeOrder(o) => Demand::Order(*o),
        },
    };
    let key = |d: Destination| WitnessScript::signature(d, sig.clone());
    let found = |none: T, failed: T| {
        if fail {
            Err(failed)
        } else {
            dest.clone().map(&key).ok_or(none)
        }
    };
    let part = |d: &Destination, raw: &Vec<u8>| {
        WitnessScript::signature(d.clone(), EvaluatedInputWitness::Standard(StandardInputSignature::new(ty, raw.clone())))
    };
    let contract = || match &witness {
        InputWitness::NoSignature(_) => Err(T::SignatureError(DestinationSigError::SignatureNotFound)),
        InputWitness::Standard(s) => Spend::from_data(s.raw_signature()).map_err(T::SignatureError),
    };
    // everything, keys only, locks only
    let (all, keys, locks): (Result<WitnessScript, T>, Result<WitnessScript, T>, Result<WitnessScript, T>) = match &demand {
        Demand::Key(d) => (Ok(key(d.clone())), Ok(key(d.clone())), Ok(WitnessScript::TRUE)),
        Demand::LockAndKey(l, d) => {
            (Ok(and(vec![WitnessScript::timelock(*l), key(d.clone())])), Ok(key(d.clone())), Ok(WitnessScript::timelock(*l)))
        }
        Demand::Pool(p) => {
            let r = found(T::PoolNotFound(*p), T::PoSAccounting(pos_accounting::Error::AdditionError));
            (r.clone(), r, Ok(WitnessScript::TRUE))
        }
        Demand::Delegation(p) => {
            let r = found(T::DelegationNotFound(*p), T::PoSAccounting(pos_accounting::Error::AdditionError));
            (r.clone(), r, Ok(WitnessScript::TRUE))
        }
        Demand::Token(p) => {
            let r = found(T::TokenNotFound(*p), T::TokensAccounting(tokens_accounting::Error::AmountOverflow));
            (r.clone(), r, Ok(WitnessScript::TRUE))
        }
        Demand::Order(p) => {
            let r = found(T::OrderNotFound(*p), T::OrdersAccounting(orders_accounting::Error::OrderAlreadyExists(*p)));
            (r.clone(), r, Ok(WitnessScript::TRUE))
        }
        Demand::Contract(h) => match contract() {
            Err(e) => (Err(e.clone()), Err(e.clone()), Err(e)),
            Ok(Spend::Spend(s, raw)) => {
                let k = part(&h.spend_key, &raw);
                let mut b = [0; 32];
                b.copy_from_slice(s.secret());
                let hash: HtlcSecretHash = h.secret_hash;
                (
                    Ok(and(vec![WitnessScript::hashlock(HashChallenge::Hash160(hash.to_fixed_bytes()), b), k.clone()])),
                    Ok(k),
                    Ok(WitnessScript::TRUE),
                )
            }
            Ok(Spend::Refund(raw)) => {
                let k = part(&h.refund_key, &raw);
                let l = WitnessScript::timelock(h.refund_timelock);
                (Ok(and(vec![l.clone(), k.clone()])), Ok(k), Ok(l))
            }
        },
        Demand::Free => (Ok(WitnessScript::TRUE), Ok(WitnessScript::TRUE), Ok(WitnessScript::TRUE)),
        Demand::Never => (Err(T::Unspendable), Err(T::Unspendable), Err(T::Unspendable)),
    };
    g.nontrivial_if(!matches!(demand, Demand::Never | Demand::Free));
    g.tag(match &demand {
        Demand::Key(_) => "key",
        Demand::LockAndKey(..) => "lock and key",
        Demand::Pool(_) => "pool",
        Demand::Delegation(_) => "delegation",
        Demand::Token(_) => "token",
        Demand::Order(_) => "order",
        Demand::Contract(_) => "contract",
        Demand::Free => "free",
        Demand::Never => "never",
    });
    // conjunctions may be written in any way that means the same
    let flat = |r: Result<WitnessScript, T>| r.map(|s| flatten(&s));
    check_eq!(flat(SignedTransaction::translate_input(&c)), flat(all), "what a transaction's input demands");
    let want_asked: Vec<(&'static str, [u8; 32])> = match &demand {
        Demand::Pool(p) => vec![("pool", p.to_hash().0)],
        Demand::Delegation(p) => vec![("delegation", p.to_hash().0)],
        Demand::Token(p) => vec![("token", p.to_hash().0)],
        Demand::Order(p) => vec![("order", p.to_hash().0)],
        _ => vec![],
    };
    let mut asked = c.asked.take();
    asked.dedup();
    check_eq!(asked, want_asked, "what was looked up");
    check_eq!(flat(SignatureOnlyTx::translate_input(&c)), flat(keys), "the keys demanded");
    check_eq!(flat(TimelockOnly::translate_input(&c)), flat(locks), "the locks demanded");
    // in a block reward
    let want = match (&input, &out) {
        (TxInput::Utxo(_), TxOutput::ProduceBlockFromStake(d, _)) => Ok(key(d.clone())),
        (TxInput::Utxo(_), TxOutput::CreateStakePool(_, p)) => Ok(key(p.staker().clone())),
        (TxInput::Utxo(_), TxOutput::Transfer(..) | TxOutput::LockThenTransfer(..) | TxOutput::IssueNft(..) | TxOutput::Htlc(..)) => {
            Err(T::IllegalOutputSpend)
        }
        (TxInput::Utxo(_), _) => Err(T::Unspendable),
        _ => Err(T::IllegalAccountSpend),
    };
    check_eq!(flat(<BlockRewardTransactable<'_> as TranslateInput<Info<'_>>>::translate_input(&c)), flat(want), "what a block reward's input demands");
    Ok(())
}

/// The conditions of a conjunction, whatever its nesting; None if it is something else.
fn flatten(s: &WitnessScript) -> Vec<WitnessScript> {
    match s {
        WitnessScript::Threshold(t) if t.required() == t.conditions().len() && t.conditions().iter().all(|c| c.as_satisfied().is_some()) => {
            t.conditions().iter().filter_map(|c| c.as_satisfied()).flat_map(flatten).collect()
        }
        s => vec![s.clone()],
    }
}

/// From an output and a signature to the verdict.
fn whole(g: &mut Gen) -> Res {
    let k = g.usize(24);
    let (owner, other) = (&pool().keys[k], &pool().keys[(k + 1) % 24]);
    let dest = |g: &mut Gen, pk: &crypto::key::PublicKey| if g.bool() { Destination::PublicKey(pk.clone()) } else { Destination::PublicKeyHash(pk.into()) };
    let d = dest(g, &owner.1);
    let d2 = dest(g, &other.1);
    let lock = match g.below(4) {
        0 => Lock::UntilHeight(BlockHeight::new(g.below(30))),
        1 => Lock::UntilTime(BlockTimestamp::from_int_seconds(g.below(30))),
        2 => Lock::ForBlockCount(g.below(20)),
        _ => Lock::ForSeconds(g.below(20)),
    };
    let secret = HtlcSecret::new(g.array());
    let value = make::output_value(g);
    let kind = g.below(3);
    let out = match kind {
        0 => TxOutput::Transfer(value, d.clone()),
        1 => TxOutput::LockThenTransfer(value, d.clone(), lock),
        _ => TxOutput::Htlc(
            value,
            Box::new(HashedTimelockContract { secret_hash: secret.hash(), spend_key: d.clone(), refund_timelock: lock, refund_key: d2.clone() }),
        ),
    };
    let tx = Transaction::new(g.u128(), vec![TxInput::Utxo(make::outpoint(g))], vec![make::output(g)]).map_err(|e| format!("{e}"))?;
    let commitments = vec![Commit::Utxo(Cow::Owned(out.clone()))];
    let ty = SigHashType::try_from(*g.pick(&[1u8, 2, 3, 0x81, 0x82, 0x83])).expect("valid");
    let refund = kind == 2 && g.bool();
    let right_key = !g.chance(1, 5);
    let right_secret = !g.chance(1, 5);
    // sign as one key, for the destination that key has
    let (key, at) = match (refund, right_key) {
        (false, true) => (&owner.0, d.clone()),
        (true, true) => (&other.0, d2.clone()),
        (false, false) => (&other.0, d2.clone()),
        (true, false) => (&owner.0, d.clone()),
    };
    let s = StandardInputSignature::produce_uniparty_signature_for_input(key, ty, at, &tx, &commitments, 0, &mut Zeros).map_err(|e| format!("{e}"))?;
    let s = match (kind, refund) {
        (2, false) => {
            let x = if right_secret { secret } else { HtlcSecret::new(g.array()) };
            StandardInputSignature::new(ty, Spend::Spend(x, s.into_raw_signature()).encode())
        }
        (2, true) => StandardInputSignature::new(ty, Spend::Refund(s.into_raw_signature()).encode()),
        _ => s,
    };
    let from = (g.below(15), g.below(15));
    let at = |g: &mut Gen| At { h: g.below(40), t: g.below(40), from: Ok(from) };
    let a = at(g);
    let locked = (kind == 1 || refund) && opens(&lock, &a).is_err();
    let wrong_secret = kind == 2 && !refund && !right_secret;
    note!(g, "{out:?} refund {refund}, key {right_key}, secret {right_secret}, at {} {} from {from:?}", a.h, a.t);
    g.nontrivial();
    g.tag(if !right_key || locked || wrong_secret { "refused" } else { "accepted" });
    let w = InputWitness::Standard(s);
    let outpoint = make::outpoint(g);
    let info = || Info {
        info: InputInfo::Utxo { outpoint: &outpoint, utxo: out.clone(), utxo_source: None },
        witness: w.clone(),
        dest: None,
        fail: false,
        asked: Default::default(),
    };
    let ctx = |a: &At| Ctx {
        tx: SignedTransaction::new(tx.clone(), vec![w.clone()]).expect("one"),
        commitments: commitments.clone(),
        i: 0,
        at: At { h: a.h, t: a.t, from: a.from.clone() },
    };
    let script = SignedTransaction::translate_input(&info()).map_err(|e| format!("{e}"))?;
    let v = script.verify(&mut ScriptChecker::full(ctx(&a)));
    match &v {
        Ok(()) => check!(right_key && !locked && !wrong_secret, "accepted: key {right_key}, locked {locked}, wrong secret {wrong_secret}"),
        Err(ScriptError::Signature(_)) => check!(!right_key, "the signature was blamed: {v:?}"),
        Err(ScriptError::Timelock(e)) => {
            check!(locked, "the lock was blamed: {v:?}");
            check_eq!(Err(e.clone()), opens(&lock, &a), "error of the lock");
        }
        Err(ScriptError::Hashlock(_)) => check!(wrong_secret, "the secret was blamed: {v:?}"),
        Err(e) => return Err(format!("{e:?}")),
    }
    // by parts
    check_eq!(script.verify(&mut ScriptChecker::signature_only(ctx(&a))).is_ok(), right_key, "signatures only");
    check_eq!(script.verify(&mut ScriptChecker::timelock_only(ctx(&a))).is_ok(), !locked, "locks only");
    let s = SignatureOnlyTx::translate_input(&info()).map_err(|e| format!("{e}"))?;
    check_eq!(s.verify(&mut ScriptChecker::full(ctx(&a))).is_ok(), right_key, "key of the input");
    let s = TimelockOnly::translate_input(&info()).map_err(|e| format!("{e}"))?;
    check_eq!(s.verify(&mut ScriptChecker::full(ctx(&a))).is_ok(), !locked, "lock of the input");
    let (c, ..) = ScriptChecker::full(ctx(&a)).into_components();
    check_eq!((c.i, c.at.h), (0, a.h), "context");
    Ok(())
}
