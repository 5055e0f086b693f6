//! A plain model of the script language, written from its documentation (Bitcoin script with the stated differences).
//! It works on bytes and owned vectors only and shares nothing with the code under test but the error names.
use refs::hashes as r;
use script::Error;

pub type R<T> = Result<T, Error>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ins {
    Push(Vec<u8>),
    Op(u8),
}

/// Splits a script; `Err` ends it. Each instruction with the offset after it.
pub fn parse(s: &[u8], minimal: bool) -> (Vec<(Ins, usize)>, Option<Error>) {
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        let op = s[i];
        i += 1;
        let n;
        if op <= 75 {
            n = op as usize;
            if s.len() - i < n {
                return (out, Some(Error::EarlyEndOfScript));
            }
            if minimal && n == 1 && matches!(s[i], 0x81 | 1..=16) {
                return (out, Some(Error::NonMinimalPush));
            }
        } else if op <= 78 {
            let w = 1usize << (op - 76);
            if s.len() - i < w {
                return (out, Some(Error::EarlyEndOfScript));
            }
            n = (0..w).map(|k| (s[i + k] as usize) << (8 * k)).sum();
            i += w;
            if s.len() - i < n {
                return (out, Some(Error::EarlyEndOfScript));
            }
            if minimal && n < [76, 256, 65536][(op - 76) as usize] {
                return (out, Some(Error::NonMinimalPush));
            }
        } else {
            out.push((Ins::Op(op), i));
            continue;
        }
        out.push((Ins::Push(s[i..i + n].to_vec()), i + n));
        i += n;
    }
    (out, None)
}

pub fn truthy(v: &[u8]) -> bool {
    match v.split_last() {
        None => false,
        Some((l, rest)) => (*l & 0x7f) != 0 || rest.iter().any(|b| *b != 0),
    }
}

/// Little-endian sign and magnitude.
pub fn int(v: &[u8], max: usize) -> R<i128> {
    if v.len() > max {
        return Err(Error::NumericOverflow);
    }
    let mut m: i128 = 0;
    for (k, b) in v.iter().enumerate() {
        let b = if k + 1 == v.len() { b & 0x7f } else { *b };
        m += (b as i128) << (8 * k);
    }
    Ok(if v.last().is_some_and(|b| b & 0x80 != 0) { -m } else { m })
}

pub fn enc(n: i128) -> Vec<u8> {
    let mut m = n.unsigned_abs();
    let mut out = vec![];
    while m != 0 {
        out.push((m & 0xff) as u8);
        m >>= 8;
    }
    if out.last().is_some_and(|b| b & 0x80 != 0) {
        out.push(0);
    }
    if n < 0 {
        *out.last_mut().unwrap() |= 0x80;
    }
    out
}

#[derive(Clone, Copy, Debug)]
pub struct Limits {
    pub element: usize,
    pub stack: usize,
    pub keys: usize,
    pub script: usize,
}

#[derive(Clone, Copy, Debug)]
pub struct Rules {
    pub limits: Limits,
    pub minimal_push: bool,
    pub minimal_if: bool,
    pub height: i64,
    pub age: i64,
}

/// The stand-in signature scheme: a key is 4 bytes, the first one its kind.
pub enum Key {
    Good,
    Bad,
    Reserved,
}
pub fn key_kind(pk: &[u8]) -> Key {
    match pk {
        [2, _, _, _] => Key::Good,
        [3, ..] => Key::Reserved,
        _ => Key::Bad,
    }
}
/// The signature of key `pk` over the rest of the script after the last separator and the separator's position.
pub fn sign(pk: &[u8], subscript: &[u8], sep: u32) -> Vec<u8> {
    let mut m = pk.to_vec();
    m.extend(sep.to_le_bytes());
    m.extend(subscript);
    r::sha1(&m)[..5].to_vec()
}
/// A signature valid for any script.
pub fn sign_any(pk: &[u8]) -> Vec<u8> {
    r::sha1(pk)[..3].to_vec()
}
pub fn signature_holds(pk: &[u8], sig: &[u8], subscript: &[u8], sep: u32) -> bool {
    match sig.len() {
        3 => sig == &sign_any(pk)[..],
        5 => sig == &sign(pk, subscript, sep)[..],
        _ => false,
    }
}

fn pop(s: &mut Vec<Vec<u8>>) -> R<Vec<u8>> {
    s.pop().ok_or(Error::NotEnoughElementsOnStack)
}
fn need(s: &[Vec<u8>], n: usize) -> R<()> {
    if s.len() < n {
        Err(Error::NotEnoughElementsOnStack)
    } else {
        Ok(())
    }
}
fn bool_(b: bool) -> Vec<u8> {
    if b {
        vec![1]
    } else {
        vec![]
    }
}

fn multisig(sigs: &[Vec<u8>], keys: &[Vec<u8>], sub: &[u8], sep: u32) -> R<bool> {
    // Both lists in script order (first pushed first).
    let mut k = 0;
    for (i, sig) in sigs.iter().enumerate() {
        loop {
            if keys.len() - k < sigs.len() - i {
                return Ok(false);
            }
            let pk = &keys[k];
            k += 1;
            match key_kind(pk) {
                Key::Bad => return Err(Error::PubkeyFormat),
                Key::Reserved => break,
                Key::Good => {
                    if signature_holds(pk, sig, sub, sep) {
                        break;
                    }
                }
            }
        }
    }
    Ok(true)
}

/// What a run did, for the coverage statistics.
#[derive(Default, Debug)]
pub struct Trace {
    pub executed: usize,
    pub skipped: usize,
    pub max_depth: usize,
    pub sig_ok: usize,
    pub sig_no: usize,
    pub locks: usize,
    pub depth_limit: usize,
    pub open: usize,
}

pub fn run_push(rules: &Rules, script: &[u8]) -> R<Vec<Vec<u8>>> {
    if script.len() > rules.limits.script {
        return Err(Error::ScriptSize);
    }
    let (ins, err) = parse(script, rules.minimal_push);
    let mut s = vec![];
    for (i, _) in ins {
        match i {
            Ins::Push(d) => {
                if d.len() > rules.limits.element {
                    return Err(Error::PushSize);
                }
                s.push(d)
            }
            Ins::Op(0x4f) => s.push(vec![0x81]),
            Ins::Op(o @ 0x51..=0x60) => s.push(vec![o - 0x50]),
            Ins::Op(_) => return Err(Error::PushOnly),
        }
        if s.len() > rules.limits.stack {
            return Err(Error::StackSize);
        }
    }
    err.map_or(Ok(s), Err)
}

pub fn run(rules: &Rules, script: &[u8], mut s: Vec<Vec<u8>>, t: &mut Trace) -> R<Vec<Vec<u8>>> {
    if script.len() > rules.limits.script {
        return Err(Error::ScriptSize);
    }
    let (ins, err) = parse(script, rules.minimal_push);
    let mut alt: Vec<Vec<u8>> = vec![];
    let mut branches: Vec<bool> = vec![];
    let mut sub = 0usize;
    let mut sep = u32::MAX;
    for (at, (i, end)) in ins.into_iter().enumerate() {
        let live = branches.iter().all(|b| *b);
        if live {
            t.executed += 1
        } else {
            t.skipped += 1
        }
        match i {
            Ins::Push(d) => {
                if d.len() > rules.limits.element {
                    return Err(Error::PushSize);
                }
                if live {
                    s.push(d)
                }
            }
            Ins::Op(o) => {
                if matches!(o, 0x65 | 0x66 | 0x7e..=0x81 | 0x83..=0x86 | 0x8d | 0x8e | 0x95..=0x99) {
                    return Err(Error::IllegalOp);
                }
                match o {
                    0x63 | 0x64 => {
                        let mut c = false;
                        if live {
                            let v = pop(&mut s)?;
                            c = if !rules.minimal_if {
                                truthy(&v)
                            } else if v.is_empty() {
                                false
                            } else if v == [1] {
                                true
                            } else {
                                return Err(Error::InvalidOperand);
                            };
                            if o == 0x64 {
                                c = !c;
                            }
                        }
                        branches.push(c);
                        t.max_depth = t.max_depth.max(branches.len());
                    }
                    0x67 => match branches.last_mut() {
                        None => return Err(Error::UnbalancedIfElse),
                        Some(b) => *b = !*b,
                    },
                    0x68 => {
                        if branches.pop().is_none() {
                            return Err(Error::UnbalancedIfElse);
                        }
                    }
                    0xab => {
                        sub = end;
                        sep = at as u32;
                    }
                    _ if live => op(rules, o, &mut s, &mut alt, &script[sub..], sep, t)?,
                    _ => {}
                }
            }
        }
        if s.len() + alt.len() > rules.limits.stack {
            return Err(Error::StackSize);
        }
        t.depth_limit = t.depth_limit.max(s.len() + alt.len());
    }
    t.open = branches.len();
    if let Some(e) = err {
        return Err(e);
    }
    if !branches.is_empty() {
        return Err(Error::UnbalancedIfElse);
    }
    Ok(s)
}

fn op(rules: &Rules, o: u8, s: &mut Vec<Vec<u8>>, alt: &mut Vec<Vec<u8>>, sub: &[u8], sep: u32, t: &mut Trace) -> R<()> {
    let popi = |s: &mut Vec<Vec<u8>>| -> R<i128> { int(&pop(s)?, 4) };
    let n = s.len();
    match o {
        0x61 | 0xb0 | 0xb3..=0xb9 => {}
        0x50 | 0x62 | 0x6a | 0x89 | 0x8a | 0xba..=0xff => return Err(Error::VerifyFail),
        0x4f => s.push(vec![0x81]),
        0x51..=0x60 => s.push(vec![o - 0x50]),
        0x69 => {
            if !truthy(&pop(s)?) {
                return Err(Error::VerifyFail);
            }
        }
        0x6b => alt.push(pop(s)?),
        0x6c => s.push(pop(alt)?),
        0x6d => {
            need(s, 2)?;
            s.truncate(n - 2)
        }
        0x6e..=0x70 => {
            // 2DUP, 3DUP, 2OVER
            let (want, take) = [(2, 2), (3, 3), (4, 2)][(o - 0x6e) as usize];
            need(s, want)?;
            for k in 0..take {
                s.push(s[n - want + k].clone());
            }
        }
        0x71 => {
            // x1 x2 x3 x4 x5 x6 -> x3 x4 x5 x6 x1 x2
            need(s, 6)?;
            let x: Vec<_> = s.drain(n - 6..n - 4).collect();
            s.extend(x);
        }
        0x72 => {
            need(s, 4)?;
            let x: Vec<_> = s.drain(n - 4..n - 2).collect();
            s.extend(x);
        }
        0x73 => {
            need(s, 1)?;
            if truthy(&s[n - 1]) {
                s.push(s[n - 1].clone());
            }
        }
        0x74 => s.push(enc(n as i128)),
        0x75 => {
            pop(s)?;
        }
        0x76 => {
            need(s, 1)?;
            s.push(s[n - 1].clone());
        }
        0x77 => {
            need(s, 2)?;
            s.remove(n - 2);
        }
        0x78 => {
            need(s, 2)?;
            s.push(s[n - 2].clone());
        }
        0x79 | 0x7a => {
            let i = popi(s)?;
            if i < 0 {
                return Err(Error::InvalidOperand);
            }
            let i = i as usize;
            need(s, i + 1)?;
            let p = s.len() - 1 - i;
            let x = if o == 0x79 { s[p].clone() } else { s.remove(p) };
            s.push(x);
        }
        0x7b => {
            need(s, 3)?;
            let x = s.remove(n - 3);
            s.push(x);
        }
        0x7c => {
            need(s, 2)?;
            let x = s.remove(n - 2);
            s.push(x);
        }
        0x7d => {
            // x1 x2 -> x2 x1 x2
            need(s, 2)?;
            s.insert(n - 2, s[n - 1].clone());
        }
        0x82 => {
            need(s, 1)?;
            s.push(enc(s[n - 1].len() as i128));
        }
        0x87 | 0x88 => {
            let y = pop(s)?;
            let x = pop(s)?;
            if o == 0x87 {
                s.push(bool_(x == y));
            } else if x != y {
                return Err(Error::VerifyFail);
            }
        }
        0x8b | 0x8c | 0x8f..=0x92 => {
            let x = popi(s)?;
            s.push(enc(match o {
                0x8b => x + 1,
                0x8c => x - 1,
                0x8f => -x,
                0x90 => x.abs(),
                0x91 => (x == 0) as i128,
                _ => (x != 0) as i128,
            }));
        }
        0x93 | 0x94 | 0x9a..=0xa4 => {
            let y = popi(s)?;
            let x = popi(s)?;
            let v = match o {
                0x93 => x + y,
                0x94 => x - y,
                0x9a => (x != 0 && y != 0) as i128,
                0x9b => (x != 0 || y != 0) as i128,
                0x9c | 0x9d => (x == y) as i128,
                0x9e => (x != y) as i128,
                0x9f => (x < y) as i128,
                0xa0 => (x > y) as i128,
                0xa1 => (x <= y) as i128,
                0xa2 => (x >= y) as i128,
                0xa3 => x.min(y),
                _ => x.max(y),
            };
            if o == 0x9d {
                if v == 0 {
                    return Err(Error::VerifyFail);
                }
            } else {
                s.push(enc(v));
            }
        }
        0xa5 => {
            let hi = popi(s)?;
            let lo = popi(s)?;
            let x = popi(s)?;
            s.push(bool_(lo <= x && x < hi));
        }
        0xa6..=0xaa => {
            let v = pop(s)?;
            s.push(match o {
                0xa6 => r::ripemd160(&v),
                0xa7 => r::sha1(&v),
                0xa8 => r::sha256(&v),
                0xa9 => r::ripemd160(&r::sha256(&v)),
                _ => r::sha256(&r::sha256(&v)),
            });
        }
        0xac..=0xaf => {
            let ok;
            if o <= 0xad {
                let pk = pop(s)?;
                let sig = pop(s)?;
                ok = multisig(&[sig], &[pk], sub, sep)?;
            } else {
                let nk = popi(s)?;
                if nk < 0 || nk as usize > rules.limits.keys {
                    return Err(Error::PubkeyCount);
                }
                let nk = nk as usize;
                need(s, nk)?;
                let keys = s.split_off(s.len() - nk);
                need(s, 1)?;
                let ns = popi(s)?;
                if ns < 0 || ns as usize > nk {
                    return Err(Error::SigCount);
                }
                need(s, ns as usize)?;
                let sigs = s.split_off(s.len() - ns as usize);
                // Bitcoin's script matches signatures and keys in the same order; whether it starts from the
                // first or the last one does not change the verdict for well-formed keys.
                ok = multisig(&sigs, &keys, sub, sep)?;
                if !pop(s)?.is_empty() {
                    return Err(Error::NullDummy);
                }
            }
            if ok {
                t.sig_ok += 1
            } else {
                t.sig_no += 1
            }
            if o & 1 == 0 {
                s.push(bool_(ok));
            } else if !ok {
                return Err(Error::VerifyFail);
            }
        }
        0xb1 | 0xb2 => {
            need(s, 1)?;
            let v = int(&s[n - 1], 5)?;
            t.locks += 1;
            if v > if o == 0xb1 { rules.height } else { rules.age } as i128 {
                return Err(Error::TimeLock);
            }
        }
        _ => panic!("opcode {o:#x} is not modelled"),
    }
    Ok(())
}
