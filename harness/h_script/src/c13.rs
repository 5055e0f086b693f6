//! Script building, parsing and execution against the model in model.rs.
use crate::model::{self, enc, Ins, Key, Limits, Rules, Trace};
use pbt::{check, check_eq, enumerated, facet, note, Gen, Property, Res};
use script::context::ParseResult;
use script::opcodes::{self, All, Class};
use script::script::{build_scriptint, read_scriptbool, read_scriptint, read_scriptint_size, read_uint, Instruction};
use script::{run_pushdata, run_script, verify_witness_lock, Builder, Context, Error, Script, Stack};
use serialization::{DecodeAll, Encode};
use std::borrow::Cow;

pub const P: Property = Property {
    id: "C13",
    rule: "Programs of up to 60 instructions grown one instruction at a time with the model (so that most run to the end), with nested branches, alternative stack, numbers at their size limits, hashes, time locks and (multi-)signatures bound to code separators; byte strings cut from such programs and random ones; builder call sequences; limits at, below and above their thresholds. Run in a context with the default limits and one with small limits, with and without minimal-push and minimal-if. Non-trivial: at least four instructions executed, or text with at least one data push.",
    facets: &[
        enumerated("opcodes", 256, opcode_table),
        facet("numbers", 300_000, numbers),
        facet("parse", 120_000, parse),
        facet("builder", 60_000, builder),
        facet("templates", 100_000, templates),
        facet("run", 250_000, run),
        facet("signatures", 200_000, signatures),
        facet("limits", 10_000, limits),
        facet("witness", 150_000, witness),
    ],
    assumptions: &[
        "Signatures use a stand-in scheme (the interface leaves the scheme to the caller) that binds key, rest of the script after the last separator and the separator's position.",
        "Keys and signatures of a multi-signature check are matched in the order in which they were pushed.",
    ],
};

// ---------------------------------------------------------------------------------------------------------- contexts

const DEFAULT: Limits = Limits { element: 520, stack: 1000, keys: 20, script: 10_000 };
const SMALL: Limits = Limits { element: 24, stack: 9, keys: 3, script: 160 };

struct Full(Rules);
struct Small(Rules);

macro_rules! context {
    ($t:ident, $keys:expr, $size:expr, $($extra:tt)*) => {
        impl Context for $t {
            $($extra)*
            const MAX_PUBKEYS_PER_MULTISIG: usize = $keys;
            const MAX_SCRIPT_SIZE: usize = $size;
            type Public = Vec<u8>;
            type SignatureData = (Vec<u8>, Vec<u8>);
            fn parse_pubkey(&self, pk: &[u8]) -> ParseResult<Vec<u8>> {
                match model::key_kind(pk) {
                    Key::Good => ParseResult::Ok(pk.to_vec()),
                    Key::Bad => ParseResult::Err,
                    Key::Reserved => ParseResult::Reserved,
                }
            }
            fn parse_signature(&self, pk: Vec<u8>, sig: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
                (!sig.is_empty()).then(|| (pk, sig.to_vec()))
            }
            fn verify_signature(&self, d: &(Vec<u8>, Vec<u8>), subscript: &[u8], sep: u32) -> bool {
                model::signature_holds(&d.0, &d.1, subscript, sep)
            }
            fn check_lock_time(&self, t: i64) -> bool {
                t <= self.0.height
            }
            fn check_sequence(&self, t: i64) -> bool {
                t <= self.0.age
            }
            fn enforce_minimal_push(&self) -> bool {
                self.0.minimal_push
            }
            fn enforce_minimal_if(&self) -> bool {
                self.0.minimal_if
            }
        }
    };
}
context!(Full, 20, 10_000,);
context!(Small, 3, 160, const MAX_SCRIPT_ELEMENT_SIZE: usize = 24; const MAX_STACK_ELEMENTS: usize = 9;);

/// A context that leaves everything optional at its default.
struct Bare;
impl Context for Bare {
    const MAX_PUBKEYS_PER_MULTISIG: usize = 20;
    const MAX_SCRIPT_SIZE: usize = 10_000;
    type Public = ();
    type SignatureData = ();
    fn parse_pubkey(&self, _: &[u8]) -> ParseResult<()> {
        ParseResult::Err
    }
    fn parse_signature(&self, _: (), _: &[u8]) -> Option<()> {
        None
    }
    fn verify_signature(&self, _: &(), _: &[u8], _: u32) -> bool {
        false
    }
}

type Items = Vec<Vec<u8>>;

fn stack(items: &Items) -> Stack<'static> {
    Stack::from(items.iter().map(|v| Cow::Owned(v.clone())).collect::<Vec<_>>())
}

/// The items, bottom first, read through the public interface.
fn items(s: &Stack) -> Items {
    let mut out = vec![];
    while let Ok(v) = s.top(out.len()) {
        out.push(v.to_vec());
    }
    out.reverse();
    out
}

fn show(s: &[u8], init: &Items) -> String {
    format!("script {} on {:?}", hex::encode(s), init.iter().map(hex::encode).collect::<Vec<_>>())
}

fn real_run(small: bool, rules: &Rules, s: &Script, init: &Items) -> Result<Items, Error> {
    let r = if small { run_script(&Small(*rules), s, stack(init)) } else { run_script(&Full(*rules), s, stack(init)) };
    r.map(|x| items(&x))
}

fn rules(g: &mut Gen) -> (bool, Rules) {
    let small = g.chance(1, 4);
    let r = Rules {
        limits: if small { SMALL } else { DEFAULT },
        minimal_push: g.chance(3, 4),
        minimal_if: g.chance(3, 4),
        height: *g.pick(&[0, 5, 127, 128, 500_000_000, i64::MAX]),
        age: *g.pick(&[0, 5, 127, 128, 65_535, i64::MAX]),
    };
    (small, r)
}

// ---------------------------------------------------------------------------------------------------------- numbers

fn numbers(g: &mut Gen) -> Res {
    let n = match g.below(3) {
        0 => g.raw64() as i64 >> g.below(64),
        1 => (1i64 << g.below(63)) + g.below(5) as i64 - 2,
        _ => *g.pick(&[0, 1, -1, 127, 128, 255, 256, -127, -128, i64::MAX, i64::MIN, i64::MIN + 1, 0x7fff_ffff, 0x8000_0000, -0x8000_0000]),
    };
    g.nontrivial_if(n != 0);
    let n = if g.bool() { n } else { n.wrapping_neg() };
    let e = enc(n as i128);
    note!(g, "{n}");
    let b = build_scriptint(n);
    check_eq!(b, e, "encoding of {n}");
    for max in 0..=8usize {
        let want = if e.len() <= max { Ok(n) } else { Err(Error::NumericOverflow) };
        check_eq!(read_scriptint_size(&e, max), want, "reading {n} of at most {max} bytes");
    }
    check_eq!(read_scriptbool(&e), n != 0, "{n} as a condition");
    // Any bytes.
    let v = match g.below(4) {
        0 => vec![0; g.below(7) as usize],
        1 => {
            let mut v = vec![0; g.below(7) as usize];
            v.push(0x80);
            v
        }
        _ => g.bytes(0, 10),
    };
    let max = g.below(9) as usize;
    check_eq!(read_scriptint_size(&v, max).map(|x| x as i128), model::int(&v, max), "reading {v:?} of at most {max}");
    check_eq!(read_scriptint(&v).map(|x| x as i128), model::int(&v, 4), "reading {v:?}");
    check_eq!(read_scriptbool(&v), model::truthy(&v), "{v:?} as a condition");
    let w = g.below(5) as usize;
    let want = if v.len() < w { Err(Error::EarlyEndOfScript) } else { Ok((0..w).map(|k| (v[k] as usize) << (8 * k)).sum::<usize>()) };
    check_eq!(read_uint(&v, w), want, "unsigned {w} bytes of {v:?}");
    Ok(())
}

// ---------------------------------------------------------------------------------------------------------- opcodes

fn name(o: u8) -> String {
    let plain = |n: &str| format!("OP_{n}");
    match o {
        0..=75 => format!("OP_PUSHBYTES_{o}"),
        76 => plain("PUSHDATA1"),
        77 => plain("PUSHDATA2"),
        78 => plain("PUSHDATA4"),
        0x4f => plain("PUSHNUM_NEG1"),
        0x50 => plain("RESERVED"),
        0x51..=0x60 => format!("OP_PUSHNUM_{}", o - 0x50),
        0x61..=0xaf => plain(
            [
                "NOP", "VER", "IF", "NOTIF", "VERIF", "VERNOTIF", "ELSE", "ENDIF", "VERIFY", "RETURN", "TOALTSTACK",
                "FROMALTSTACK", "2DROP", "2DUP", "3DUP", "2OVER", "2ROT", "2SWAP", "IFDUP", "DEPTH", "DROP", "DUP", "NIP",
                "OVER", "PICK", "ROLL", "ROT", "SWAP", "TUCK", "CAT", "SUBSTR", "LEFT", "RIGHT", "SIZE", "INVERT", "AND",
                "OR", "XOR", "EQUAL", "EQUALVERIFY", "RESERVED1", "RESERVED2", "1ADD", "1SUB", "2MUL", "2DIV", "NEGATE",
                "ABS", "NOT", "0NOTEQUAL", "ADD", "SUB", "MUL", "DIV", "MOD", "LSHIFT", "RSHIFT", "BOOLAND", "BOOLOR",
                "NUMEQUAL", "NUMEQUALVERIFY", "NUMNOTEQUAL", "LESSTHAN", "GREATERTHAN", "LESSTHANOREQUAL",
                "GREATERTHANOREQUAL", "MIN", "MAX", "WITHIN", "RIPEMD160", "SHA1", "SHA256", "HASH160", "HASH256",
                "CODESEPARATOR", "CHECKSIG", "CHECKSIGVERIFY", "CHECKMULTISIG", "CHECKMULTISIGVERIFY",
            ][(o - 0x61) as usize],
        ),
        0xb1 => plain("CLTV"),
        0xb2 => plain("CSV"),
        0xb0..=0xb9 => format!("OP_NOP{}", o - 0xaf),
        _ => format!("OP_RETURN_{o}"),
    }
}

/// 0 push number, 1 push bytes, 2 push data, 3 return, 4 illegal, 5 no-op, 6 control, 7 alt, 8 signature, 9 lock, 10 ordinary
fn class(o: u8) -> u8 {
    match o {
        0..=75 => 1,
        76..=78 => 2,
        0x4f | 0x51..=0x60 => 0,
        0x50 | 0x62 | 0x6a | 0x89 | 0x8a | 0xba..=0xff => 3,
        0x65 | 0x66 | 0x7e..=0x81 | 0x83..=0x86 | 0x8d | 0x8e | 0x95..=0x99 => 4,
        0x61 | 0xb0 | 0xb3..=0xb9 => 5,
        0x63 | 0x64 | 0x67 | 0x68 | 0xab => 6,
        0x6b | 0x6c => 7,
        0xac..=0xaf => 8,
        0xb1 | 0xb2 => 9,
        _ => 10,
    }
}

fn opcode_table(g: &mut Gen) -> Res {
    let o = g.below(256) as u8;
    g.nontrivial();
    let a = All::from(o);
    check_eq!(a.into_u8(), o, "opcode byte");
    check_eq!(format!("{a:?}"), name(o), "name of {o:#x}");
    check_eq!(format!("{a}"), name(o), "name of {o:#x}");
    let (k, v) = match a.classify() {
        Class::PushNum(n) => (0, n as i64),
        Class::PushBytes(n) => (1, n as i64),
        Class::PushData(p) => (2, p.data_size_bytes() as i64),
        Class::ReturnOp => (3, 0),
        Class::IllegalOp => (4, 0),
        Class::NoOp => (5, 0),
        Class::ControlFlow(c) => (6, c as u8 as i64),
        Class::AltStack(c) => (7, c as u8 as i64),
        Class::Signature(c) => (8, c as u8 as i64),
        Class::TimeLock(c) => (9, c as u8 as i64),
        Class::Ordinary(c) => (10, c as u8 as i64),
    };
    check_eq!(k, class(o), "class of {o:#x}");
    let want = match k {
        0 if o == 0x4f => -1,
        0 => o as i64 - 0x50,
        1 => o as i64,
        2 => [1, 2, 4][o as usize - 76],
        3..=5 => 0,
        _ => o as i64,
    };
    check_eq!(v, want, "parameter of {o:#x}");
    check_eq!(opcodes::OP_FALSE.into_u8(), 0, "false");
    check_eq!(opcodes::OP_TRUE.into_u8(), 0x51, "true");
    check_eq!((opcodes::OP_NOP2.into_u8(), opcodes::OP_NOP3.into_u8()), (0xb1, 0xb2), "locks");
    // The opcode on its own, on stacks of every small height, dead and live, at the default limits.
    for h in 0..8usize {
        for variant in 0..4u8 {
            let init: Items = (0..h).map(|i| [vec![1], vec![], vec![(h - i) as u8], vec![2, i as u8, 7, 7]][(variant as usize + i) % 4].clone()).collect();
            for s in [vec![o], vec![0, 0x63, o, 0x68], vec![0x51, 0x63, o, 0x67, o, 0x68], vec![0x51, 0x64, 0x51, 0x63, o, 0x68, 0x68], vec![0x52, 0x6b, o, 0x6c]] {
                let rules = Rules { limits: DEFAULT, minimal_push: true, minimal_if: true, height: 3, age: 2 };
                let want = model::run(&rules, &s, init.clone(), &mut Trace::default());
                let got = real_run(false, &rules, &Script::from(s.clone()), &init);
                check_eq!(got, want, "{}", show(&s, &init));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------------------- parsing

fn push_any(g: &mut Gen, out: &mut Vec<u8>, d: &[u8]) {
    // Minimal or not.
    let n = d.len();
    match g.weighted(&[12, 1, 1, 1]) {
        0 if n <= 75 => out.push(n as u8),
        0 | 1 if n <= 255 => out.extend([76, n as u8]),
        0..=2 if n <= 65535 => {
            out.push(77);
            out.extend((n as u16).to_le_bytes());
        }
        _ => {
            out.push(78);
            out.extend((n as u32).to_le_bytes());
        }
    }
    out.extend_from_slice(d);
}

fn script_bytes(g: &mut Gen) -> Vec<u8> {
    if g.chance(1, 6) {
        return g.bytes(0, 40);
    }
    let mut s = vec![];
    for _ in 0..g.below(10) {
        match g.below(5) {
            0 | 1 => s.push(g.urange(0x4f, 0xff) as u8),
            2 => {
                let n = *g.pick(&[0, 1, 2, 20, 33, 74, 75, 76, 77, 254, 255, 256, 257]);
                let d = g.bytes_exact(n);
                push_any(g, &mut s, &d);
            }
            3 => {
                let d = vec![*g.pick(&[0, 1, 16, 17, 0x80, 0x81, 0x82, 0xff])];
                push_any(g, &mut s, &d);
            }
            _ => {
                let d = g.bytes(0, 8);
                push_any(g, &mut s, &d);
            }
        }
    }
    if g.chance(1, 300) {
        let n = *g.pick(&[65534, 65535, 65536, 65537]);
        push_any(g, &mut s, &vec![7; n]);
    }
    if g.chance(1, 4) {
        let k = g.usize(s.len() + 1);
        s.truncate(k);
    }
    if g.chance(1, 8) && !s.is_empty() {
        let k = g.usize(s.len());
        s[k] = g.byte();
    }
    s
}

fn asm(s: &[u8]) -> String {
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    while i < s.len() {
        let o = s[i];
        i += 1;
        let mut n = 0;
        if o <= 75 {
            n = o as usize;
        } else if o <= 78 {
            let w = 1usize << (o - 76);
            if s.len() - i < w {
                out.push("<unexpected end>".into());
                break;
            }
            n = (0..w).map(|k| (s[i + k] as usize) << (8 * k)).sum();
            i += w;
        }
        out.push(if o == 0 { "OP_0".into() } else { name(o) });
        if n > 0 {
            if s.len() - i < n {
                out.push("<push past end>".into());
                break;
            }
            out.push(hex::encode(&s[i..i + n]));
            i += n;
        }
    }
    out.join(" ")
}

/// The words of an assembly text: how much blank space separates them is not judged.
fn words(s: &str) -> Vec<String> {
    s.replace('<', " <").replace("Script(", "Script( ").split_whitespace().map(|x| x.to_string()).collect()
}

fn parse(g: &mut Gen) -> Res {
    let b = script_bytes(g);
    let s = Script::from(b.clone());
    g.nontrivial_if(b.len() > 3);
    note!(g, "{}", hex::encode(&b[..b.len().min(60)]));
    for minimal in [false, true] {
        let (want, err) = model::parse(&b, minimal);
        let mut it = if g.bool() {
            s.instructions_iter(minimal)
        } else if minimal {
            s.instructions_minimal()
        } else {
            s.instructions()
        };
        check_eq!(it.subscript(), &b[..], "rest at the start");
        for (w, end) in &want {
            let got = it.next();
            let want = match w {
                Ins::Push(d) => Instruction::PushBytes(d),
                Ins::Op(o) => Instruction::Op(All::from(*o)),
            };
            check_eq!(got, Some(Ok(want)), "instruction before byte {end} of {}", hex::encode(&b));
            check_eq!(it.subscript(), &b[*end..], "rest after byte {end} of {}", hex::encode(&b));
        }
        check_eq!(it.next(), err.map(Err), "end of {} (minimal {minimal})", hex::encode(&b));
        check_eq!(it.next(), None, "after the end of {}", hex::encode(&b));
        if err.is_none() && minimal {
            g.tag("minimal throughout");
            // Building the same instructions again gives the same bytes.
            let mut bl = Builder::new();
            for (w, _) in &want {
                bl = match w {
                    Ins::Push(d) => bl.push_slice_minimal(d),
                    Ins::Op(o) => bl.push_opcode(All::from(*o)),
                };
            }
            check_eq!(bl.into_script().into_bytes(), b, "rebuilding a minimal script");
        }
        g.tag_if(matches!(err, Some(Error::NonMinimalPush)), "not minimal");
        g.tag_if(matches!(err, Some(Error::EarlyEndOfScript)), "cut short");
    }
    let a = asm(&b);
    check_eq!(words(&s.asm()), words(&a), "assembly text of {}", hex::encode(&b));
    check_eq!(words(&Script::bytes_to_asm(&b)), words(&a), "assembly text");
    check_eq!(words(&format!("{s:?}")), words(&format!("Script({a})")), "debug text");
    check_eq!(words(&format!("{s}")), words(&format!("Script({a})")), "display text");
    check_eq!(format!("{s:x}"), hex::encode(&b), "hexadecimal");
    check_eq!(format!("{s:X}"), hex::encode_upper(&b), "upper-case hexadecimal");
    check_eq!((s.len(), s.is_empty(), s.as_bytes(), s.to_bytes()), (b.len(), b.is_empty(), &b[..], b.clone()), "bytes");
    check_eq!(s.as_ref(), &b[..], "bytes");
    check_eq!(Script::decode_all(&mut &s.encode()[..]).ok(), Some(s.clone()), "binary form");
    check_eq!(s.encode(), b.encode(), "binary form is that of the bytes");
    let (i, j) = {
        let i = g.usize(b.len() + 1);
        let j = i + g.usize(b.len() - i + 1);
        (i, j)
    };
    check!(s[i..j] == b[i..j] && s[..j] == b[..j] && s[i..] == b[i..] && s[..] == b[..], "slices");
    check!(i == b.len() || s[i] == b[i], "byte {i}");
    Ok(())
}

// ---------------------------------------------------------------------------------------------------------- builder

fn push_model(out: &mut Vec<u8>, d: &[u8]) {
    match d.len() {
        n @ 0..=75 => out.push(n as u8),
        n @ 76..=255 => out.extend([76, n as u8]),
        n @ 256..=65535 => out.extend([77, n as u8, (n >> 8) as u8]),
        n => {
            out.push(78);
            out.extend((n as u32).to_le_bytes())
        }
    }
    out.extend_from_slice(d);
}

fn verify_form(o: u8) -> Option<u8> {
    match o {
        0x87 => Some(0x88),
        0x9c => Some(0x9d),
        0xac => Some(0xad),
        0xae => Some(0xaf),
        _ => None,
    }
}

fn builder(g: &mut Gen) -> Res {
    let mut b = if g.bool() { Builder::new() } else { Builder::default() };
    let mut m: Vec<u8> = vec![];
    // The last instruction if it is an opcode.
    let mut last: Option<u8> = None;
    let mut ins: Vec<Ins> = vec![];
    let mut parses = true;
    let mut log = vec![];
    for _ in 0..g.below(14) {
        check_eq!((b.len(), b.is_empty()), (m.len(), m.is_empty()), "length after {log:?}");
        match g.below(8) {
            0 => {
                let n = match g.below(3) {
                    0 => g.urange(0, 40) as i64 - 20,
                    1 => (1i64 << g.below(40)) - 1 + g.below(3) as i64,
                    _ => g.raw64() as i64 >> g.below(63),
                };
                log.push(format!("int {n}"));
                b = b.push_int(n);
                if n == -1 || (1..=16).contains(&n) {
                    m.push((n + 0x50) as u8);
                    ins.push(Ins::Op((n + 0x50) as u8));
                    last = Some((n + 0x50) as u8);
                } else {
                    push_model(&mut m, &enc(n as i128));
                    ins.push(Ins::Push(enc(n as i128)));
                    last = None;
                }
            }
            1 => {
                let n = g.raw64() as i64 >> g.below(64);
                log.push(format!("number {n}"));
                b = b.push_scriptint(n);
                push_model(&mut m, &enc(n as i128));
                ins.push(Ins::Push(enc(n as i128)));
                last = None;
            }
            2 | 3 => {
                let n = *g.pick(&[0, 1, 1, 1, 2, 33, 74, 75, 76, 77, 254, 255, 256, 300]);
                let n = if g.chance(1, 400) { *g.pick(&[65535, 65536, 65537]) } else { n };
                let d = if n == 1 { vec![*g.pick(&[0, 1, 2, 15, 16, 17, 0x80, 0x81, 0x82, 0xac, 0xae, 0x87])] } else { g.bytes_exact(n) };
                let min = g.bool();
                log.push(format!("{} bytes {} minimal {min}", n, hex::encode(&d[..n.min(4)])));
                if min {
                    b = b.push_slice_minimal(&d);
                    match d[..] {
                        [0x81] => {
                            m.push(0x4f);
                            ins.push(Ins::Op(0x4f));
                            last = Some(0x4f);
                            continue;
                        }
                        [x @ 1..=16] => {
                            m.push(0x50 + x);
                            ins.push(Ins::Op(0x50 + x));
                            last = Some(0x50 + x);
                            continue;
                        }
                        _ => {}
                    }
                } else {
                    b = b.push_slice(&d);
                }
                push_model(&mut m, &d);
                ins.push(Ins::Push(d));
                last = None;
            }
            4 | 5 => {
                let o = if g.bool() { *g.pick(&[0x87, 0x9c, 0xac, 0xae, 0x69, 0x88, 0xad]) } else { g.urange(0x4f, 0xff) as u8 };
                log.push(format!("op {o:#x}"));
                b = b.push_opcode(All::from(o));
                m.push(o);
                ins.push(Ins::Op(o));
                last = Some(o);
            }
            6 => {
                log.push("verify".into());
                b = b.push_verify();
                let o = match last.and_then(verify_form) {
                    Some(v) => {
                        m.pop();
                        ins.pop();
                        v
                    }
                    None => 0x69,
                };
                m.push(o);
                ins.push(Ins::Op(o));
                last = Some(o);
            }
            _ => {
                // Start again from bytes (any bytes).
                if g.chance(1, 3) {
                    log.push("from random bytes".into());
                    m = script_bytes(g);
                    parses = model::parse(&m, false).1.is_none();
                    ins = model::parse(&m, false).0.into_iter().map(|x| x.0).collect();
                } else {
                    log.push("from bytes".into());
                }
                b = Builder::from(m.clone());
                let (i, e) = model::parse(&m, false);
                last = match (i.last(), e) {
                    (Some((Ins::Op(o), _)), None) => Some(*o),
                    _ => None,
                };
            }
        }
        check_eq!(&b[..], &m[..], "after {log:?}");
    }
    g.nontrivial_if(log.len() > 3);
    note!(g, "{log:?}");
    check_eq!((b.len(), b.is_empty()), (m.len(), m.is_empty()), "length after {log:?}");
    let s = b.into_script();
    check_eq!(s.as_bytes(), &m[..], "script after {log:?}");
    if parses {
        let got: Result<Vec<_>, Error> = s
            .instructions()
            .map(|i| {
                i.map(|i| match i {
                    Instruction::PushBytes(d) => Ins::Push(d.to_vec()),
                    Instruction::Op(o) => Ins::Op(o.into_u8()),
                })
            })
            .collect();
        check_eq!(got, Ok(ins), "instructions after {log:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------------------- templates

fn templates(g: &mut Gen) -> Res {
    let n = *g.pick(&[20, 20, 33, 65, 32, 19, 21, 34, 64, 66, 2, 40, 41, 1, 75, 76, 80]);
    let d = g.bytes_exact(n);
    let mut push = vec![];
    push_model(&mut push, &d);
    let kind = g.below(6);
    let mut b: Vec<u8> = match kind {
        0 => {
            let b = [&push[..], &[0xac]].concat();
            check_eq!(Script::new_p2pk(&d).as_bytes(), &b[..], "pay to key");
            b
        }
        1 => {
            let b = [&[0x76, 0xa9], &push[..], &[0x88, 0xac]].concat();
            check_eq!(Script::new_p2pkh(&d).as_bytes(), &b[..], "pay to key hash");
            b
        }
        2 => {
            let b = [&[0xa9], &push[..], &[0x87]].concat();
            check_eq!(Script::new_p2sh(&d).as_bytes(), &b[..], "pay to script hash");
            b
        }
        3 => {
            let b = [&[0x6a], &push[..]].concat();
            check_eq!(Script::new_op_return(&d).as_bytes(), &b[..], "return data");
            b
        }
        4 => [&[*g.pick(&[0, 0, 0x51, 0x52, 0x60, 0x61, 0x50, 0x4f])], &push[..]].concat(),
        _ => [&[g.byte()], &push[..]].concat(),
    };
    if g.chance(1, 3) {
        // Near misses: one byte changed, dropped or added, or a same-length string of another shape.
        match g.below(4) {
            0 => {
                let k = g.usize(b.len());
                b[k] = g.byte();
            }
            1 => {
                let k = if g.bool() { b.len() - 1 } else { g.usize(b.len()) };
                b.remove(k);
            }
            2 => {
                let k = if g.bool() { b.len() } else { g.usize(b.len() + 1) };
                b.insert(k, g.byte());
            }
            _ => {
                let k = [0, 1, 2, b.len() - 1, b.len().saturating_sub(2)][g.usize(5)].min(b.len() - 1);
                b[k] = b[k].wrapping_add(if g.bool() { 1 } else { 255 });
            }
        }
        g.tag("near miss");
    }
    if g.chance(1, 100) {
        b.clear();
    }
    g.nontrivial();
    let s = Script::from(b.clone());
    let l = b.len();
    let at = |i: usize| b.get(i).copied();
    let h = hex::encode(&b);
    note!(g, "{h}");
    check_eq!(s.is_p2sh(), l == 23 && b[0] == 0xa9 && b[1] == 20 && b[22] == 0x87, "script hash? {h}");
    check_eq!(s.is_p2pkh(), l == 25 && b[..3] == [0x76, 0xa9, 20] && b[23..] == [0x88, 0xac], "key hash? {h}");
    check_eq!(s.is_p2pk(), (l == 35 && b[0] == 33 || l == 67 && b[0] == 65) && b[l - 1] == 0xac, "key? {h}");
    let wit = (4..=42).contains(&l) && (b[0] == 0 || (0x51..=0x60).contains(&b[0])) && (2..=40).contains(&b[1]) && l == 2 + b[1] as usize;
    check_eq!(s.is_witness_program(), wit, "witness program? {h}");
    check_eq!(s.is_v0_p2wsh(), l == 34 && b[0] == 0 && b[1] == 32, "witness script hash? {h}");
    check_eq!(s.is_v0_p2wpkh(), l == 22 && b[0] == 0 && b[1] == 20, "witness key hash? {h}");
    check_eq!(s.is_op_return(), at(0) == Some(0x6a), "return? {h}");
    check_eq!(s.is_provably_unspendable(), at(0).is_some_and(|o| matches!(class(o), 3 | 4)), "unspendable? {h}");
    g.tag_if(wit, "witness program");
    g.tag_if(s.is_p2pk(), "pay to key");
    g.tag_if(s.is_p2pkh(), "pay to key hash");
    g.tag_if(s.is_p2sh(), "pay to script hash");
    Ok(())
}

// ---------------------------------------------------------------------------------------------------------- running

fn item(g: &mut Gen) -> Vec<u8> {
    match g.below(8) {
        0 => vec![],
        1 => vec![1],
        2 => enc(g.below(6) as i128),
        3 => enc(*g.pick(&[-1i128, 16, 17, 127, 128, 255, 256, -128, 0x7fff_ffff, -0x7fff_ffff, 0x8000_0000, 1 << 39, (1 << 39) - 1])),
        4 => vec![*g.pick(&[0, 0x80, 0x81])],
        5 => {
            // A number with needless zero bytes.
            let mut v = vec![0; g.below(5) as usize];
            if let Some(x) = v.first_mut() {
                *x = g.below(3) as u8;
            }
            v
        }
        6 => g.bytes(0, 6),
        _ => g.bytes(0, 26),
    }
}

fn grow(g: &mut Gen, rules: &Rules, init: &Items, len: usize) -> Vec<u8> {
    let mut s: Vec<u8> = vec![];
    let mut open = 0usize;
    for _ in 0..len {
        let mut tries = 0;
        loop {
            tries += 1;
            let mut c = s.clone();
            match g.weighted(&[5, 3, 9, 3, 2, 1]) {
                0 => {
                    let d = item(g);
                    if rules.minimal_push && g.chance(15, 16) {
                        c.extend(Builder::new().push_slice_minimal(&d).into_script().as_bytes());
                    } else {
                        push_any(g, &mut c, &d);
                    }
                }
                1 => c.push(if g.bool() { g.urange(0x4f, 0x60) as u8 } else { *g.pick(&[0, 0x51, 0x52]) }),
                2 => c.push(*g.pick(&[
                    0x69, 0x6d, 0x6e, 0x6f, 0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0x7b, 0x7c, 0x7d, 0x82,
                    0x87, 0x88, 0x8b, 0x8c, 0x8f, 0x90, 0x91, 0x92, 0x93, 0x94, 0x9a, 0x9b, 0x9c, 0x9d, 0x9e, 0x9f, 0xa0, 0xa1, 0xa2,
                    0xa3, 0xa4, 0xa5, 0xa6, 0xa7, 0xa8, 0xa9, 0xaa, 0x6b, 0x6c, 0xb1, 0xb2, 0x71, 0x79, 0x7a, 0xa5,
                ])),
                3 => c.push(*g.pick(&[0x63, 0x64, 0x67, 0x68, 0x67])),
                4 => c.push(*g.pick(&[0x6b, 0x6c, 0xab, 0x61, 0xb0, 0xb9])),
                _ => c.push(g.urange(0x61, 0xff) as u8),
            }
            let mut t = Trace::default();
            let r = model::run(rules, &c, init.clone(), &mut t);
            let fine = r.is_ok() || (r == Err(Error::UnbalancedIfElse) && t.open > 0);
            if fine {
                s = c;
                open = t.open;
                break;
            }
            if g.chance(1, 60) {
                // Keep the failing instruction, with something after it.
                c.push(0x51);
                return c;
            }
            if tries > 12 {
                break;
            }
        }
    }
    for _ in 0..open {
        if g.chance(1, 30) {
            break;
        }
        s.push(0x68);
    }
    s
}

fn compare(g: &mut Gen, small: bool, rules: &Rules, s: &[u8], init: &Items) -> Res {
    let mut t = Trace::default();
    note!(g, "{} = {}", show(&s[..s.len().min(80)], &init[..init.len().min(8)].to_vec()), Script::from(s[..s.len().min(80)].to_vec()).asm());
    let want = model::run(rules, s, init.clone(), &mut t);
    let sc = Script::from(s.to_vec());
    let got = real_run(small, rules, &sc, init);
    check_eq!(got, want, "small limits {small}, {rules:?}: {} = {}", show(s, init), sc.asm());
    g.nontrivial_if(t.executed >= 4);
    g.tag_if(want.is_ok(), "runs to the end");
    g.tag_if(t.skipped > 0, "skips a branch");
    g.tag_if(t.max_depth >= 3, "three nested branches");
    g.tag_if(t.sig_ok > 0, "signature accepted");
    g.tag_if(t.sig_no > 0, "signature refused");
    g.tag_if(t.locks > 0, "time lock");
    if let Err(e) = want {
        g.tag(match e {
            Error::UnbalancedIfElse => "unbalanced",
            Error::StackSize => "stack limit",
            Error::NumericOverflow => "number too long",
            Error::NotEnoughElementsOnStack => "stack too short",
            _ => "other failure",
        });
    }
    Ok(())
}

fn run(g: &mut Gen) -> Res {
    let (small, rules) = rules(g);
    let init: Items = g.vec(0, 7, item);
    let len = if g.chance(1, 5) { 60 } else { 20 };
    let len = g.usize(len) + 1;
    let s = grow(g, &rules, &init, len);
    compare(g, small, &rules, &s, &init)?;
    // The same program with a byte changed or cut.
    let mut s = s;
    if !s.is_empty() && g.bool() {
        let k = g.usize(s.len());
        if g.chance(1, 4) {
            s.truncate(k);
        } else {
            s[k] = g.byte();
        }
        compare(g, small, &rules, &s, &init)?;
    }
    Ok(())
}

fn key(g: &mut Gen) -> Vec<u8> {
    match g.weighted(&[20, 2, 1]) {
        0 => vec![2, g.below(3) as u8, 1, 1],
        1 => vec![3, 1],
        _ => g.bytes(0, 5),
    }
}

fn signatures(g: &mut Gen) -> Res {
    let (small, rules) = rules(g);
    let max = rules.limits.keys;
    let n = if g.chance(1, 8) { max + g.usize(2) } else { g.usize(5) };
    let mut keys: Items = (0..n).map(|_| key(g)).collect();
    let single = g.chance(1, 3);
    let op = if single { 0xac } else { 0xae } + g.below(2) as u8;
    if single {
        keys = vec![key(g)];
    }
    // Separators in front, some of them in a branch not taken.
    let mut s: Vec<u8> = vec![];
    let mut at = 0u32;
    let mut seps: Vec<(usize, u32)> = vec![(0, u32::MAX)];
    for _ in 0..g.below(4) {
        match g.below(4) {
            0 => {
                s.push(0x61);
                at += 1;
            }
            1 => {
                s.push(0xab);
                seps.push((s.len(), at));
                at += 1;
            }
            2 => {
                s.extend([0, 0x63, 0xab, 0x68]);
                seps.push((s.len() - 1, at + 2));
                at += 4;
            }
            _ => {
                s.extend([2, 0xab, 0xab, 0x75]);
                at += 2;
            }
        }
    }
    let k = keys.len();
    let mut m = if k == 0 { 0 } else { g.usize(k + 1) };
    // Who signs: an increasing choice of keys.
    let mut who: Vec<usize> = (0..k).collect();
    g.shuffle(&mut who);
    who.truncate(if single { 1 } else { m });
    who.sort();
    if !single {
        push_num(g, &mut s, m as i64, &rules);
        for p in &keys {
            push_any_min(&mut s, p);
        }
        let count = if g.chance(1, 25) { k as i64 + g.below(3) as i64 - 1 } else { k as i64 };
        push_num(g, &mut s, count, &rules);
    } else {
        m = 1;
        push_any_min(&mut s, &keys[0]);
    }
    s.push(op);
    let after = g.below(3);
    for _ in 0..after {
        s.push(*g.pick(&[0xab, 0x61, 0x74]));
    }
    // The signatures are made for the finished script.
    let wrong = g.below(12);
    let (off, idx) = if wrong == 0 { *g.pick(&seps) } else { *seps.last().unwrap() };
    let mut sigs: Items = who
        .iter()
        .map(|i| if g.chance(1, 3) { model::sign_any(&keys[*i]) } else { model::sign(&keys[*i], &s[off..], idx) })
        .collect();
    match wrong {
        1 if sigs.len() > 1 => {
            let a = g.usize(sigs.len() - 1);
            sigs.swap(a, a + 1);
        }
        2 if !sigs.is_empty() => {
            let a = g.usize(sigs.len());
            sigs[a] = if g.bool() { vec![] } else { vec![0; 3] };
        }
        3 if sigs.len() > 1 => {
            let a = g.usize(sigs.len() - 1);
            sigs[a] = sigs[a + 1].clone();
        }
        4 if !sigs.is_empty() => {
            let a = g.usize(sigs.len());
            sigs[a] = model::sign(&[2, 9, 9, 9], &s[off..], idx);
        }
        _ => {}
    }
    let mut init: Items = vec![];
    if !single {
        init.push(if g.chance(1, 20) { item(g) } else { vec![] });
        if g.chance(1, 40) {
            init.clear();
        }
    } else {
        init.push(vec![5]);
    }
    init.extend(sigs);
    let _ = m;
    compare(g, small, &rules, &s, &init)
}

fn push_any_min(s: &mut Vec<u8>, d: &[u8]) {
    s.extend(Builder::new().push_slice_minimal(d).into_script().as_bytes());
}

fn push_num(g: &mut Gen, s: &mut Vec<u8>, n: i64, _r: &Rules) {
    let n = if g.chance(1, 25) { n + g.below(3) as i64 - 1 } else { n };
    s.extend(Builder::new().push_int(n).into_script().as_bytes());
}

// ---------------------------------------------------------------------------------------------------------- limits

fn limits(g: &mut Gen) -> Res {
    let (small, mut rules) = rules(g);
    rules.minimal_push = g.bool();
    let l = rules.limits;
    let around = |g: &mut Gen, n: usize| n + g.usize(3) - 1;
    let kind = g.below(6);
    let mut init: Items = vec![];
    let s: Vec<u8> = match kind {
        0 => {
            // Script size.
            let n = around(g, l.script);
            vec![*g.pick(&[0x61, 0xb0]); n]
        }
        1 => {
            // Element size, live or not.
            let n = around(g, l.element);
            let mut p = vec![];
            push_any(g, &mut p, &vec![9; n]);
            if g.bool() {
                [&[0, 0x63], &p[..], &[0x68]].concat()
            } else {
                p
            }
        }
        2 | 3 => {
            // Stack size, items spread over both stacks, reached in one or several steps.
            let n = around(g, l.stack);
            let alt = g.usize(n + 1);
            let mut s = vec![];
            if g.bool() {
                for _ in 0..n - 1 {
                    init.push(vec![3]);
                }
                for _ in 0..alt.min(n - 1) {
                    s.push(0x6b);
                }
                s.push(0x51);
                if g.bool() && alt < n - 1 {
                    s.push(*g.pick(&[0x6e, 0x76, 0x74, 0x82, 0x73]));
                }
            } else {
                for i in 0..n {
                    s.push(0x51);
                    if i < alt {
                        s.push(0x6b);
                    }
                }
            }
            s
        }
        4 => {
            // Keys of a multi-signature check.
            let n = around(g, l.keys);
            let mut s = vec![0, 0];
            for _ in 0..n {
                s.extend([4, 2, 1, 1, 1]);
            }
            push_any_min(&mut s, &enc(n as i128));
            s.push(0xae);
            s
        }
        _ => {
            // Lock values of up to five bytes, counts of up to four.
            let v = enc((1i128 << *g.pick(&[31, 32, 38, 39, 40])) - g.below(2) as i128);
            let mut s = vec![];
            push_any_min(&mut s, &v);
            s.push(*g.pick(&[0xb1, 0xb2, 0x8b, 0x79, 0xae, 0x91]));
            s
        }
    };
    g.tag(["script size", "element size", "stack size", "stack size", "keys", "number size"][kind as usize]);
    compare(g, small, &rules, &s, &init)?;
    g.nontrivial();
    // Push-only scripts have the same limits.
    let mut p = vec![];
    match g.below(4) {
        0 => {
            let n = around(g, l.stack);
            for _ in 0..n {
                p.push(*g.pick(&[0x51, 0, 0x4f, 0x60]));
            }
        }
        1 => {
            let n = around(g, l.element);
            push_any(g, &mut p, &vec![1; n]);
        }
        2 => {
            let n = around(g, l.script);
            while p.len() < n {
                let k = (n - p.len() - 1).min(l.element.min(75));
                p.push(k as u8);
                p.extend(vec![0xee; k]);
            }
        }
        _ => {
            for _ in 0..g.below(8) {
                let d = item(g);
                push_any(g, &mut p, &d);
            }
            if g.bool() {
                let k = g.usize(p.len() + 1);
                p.insert(k, *g.pick(&[0x50, 0x61, 0x4f, 0x60, 0xff, 0x7e]));
            }
        }
    }
    let want = model::run_push(&rules, &p);
    let sc = Script::from(p.clone());
    let got = if small { run_pushdata(&Small(rules), &sc) } else { run_pushdata(&Full(rules), &sc) };
    check_eq!(got.map(|s| items(&s)), want, "push-only, small {small}, {rules:?}: {}", hex::encode(&p[..p.len().min(200)]));
    // Defaults of the interface: 520 bytes, 1000 items, minimal encodings, locks open.
    let d = Bare;
    let n = 519 + g.usize(3);
    let e = Builder::new().push_slice(&vec![1; n]).into_script();
    check_eq!(run_script(&d, &e, Stack::default()).is_ok(), n <= 520, "element of {n} bytes");
    let n = 999 + g.usize(3);
    let e = Script::from(vec![0x51; n]);
    check_eq!(run_script(&d, &e, Stack::default()).is_ok(), n <= 1000, "{n} items");
    for (s, want) in [
        (vec![1, 1], Err(Error::NonMinimalPush)),
        (vec![0x52, 0x63, 0x68], Err(Error::InvalidOperand)),
        (vec![0x51, 0xb1, 0xb2, 0x75], Ok(())),
    ] {
        let sc = Script::from(s);
        check_eq!(run_script(&d, &sc, Stack::default()).map(|_| ()), want, "{}", sc.asm());
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------------------- witness

fn witness(g: &mut Gen) -> Res {
    let (small, rules) = rules(g);
    let init: Items = g.vec(0, 4, item);
    let mut w = vec![];
    for d in &init {
        if g.chance(7, 8) {
            push_any_min(&mut w, d);
        } else {
            push_any(g, &mut w, d);
        }
    }
    if g.chance(1, 12) {
        w.push(g.byte());
    }
    let seen = model::run_push(&rules, &w);
    let start = seen.clone().unwrap_or_default();
    let k = g.usize(15);
    let mut lock = grow(g, &rules, &start, k);
    // Often leave one item.
    let now = model::run(&rules, &lock, start.clone(), &mut Trace::default()).unwrap_or_default().len();
    if g.chance(3, 4) && now > 1 {
        for _ in 1..now {
            lock.push(*g.pick(&[0x77, 0x75]));
        }
    }
    let mut t = Trace::default();
    let want = seen.and_then(|s| model::run(&rules, &lock, s, &mut t)).and_then(|s| match &s[..] {
        [x] if model::truthy(x) => Ok(()),
        [_] => Err(Error::VerifyFail),
        _ => Err(Error::StackNotClean),
    });
    let (ws, ls) = (Script::from(w.clone()), Script::from(lock.clone()));
    let got = if small { verify_witness_lock(&Small(rules), &ws, &ls) } else { verify_witness_lock(&Full(rules), &ws, &ls) };
    check_eq!(got, want, "small {small}, {rules:?}: witness {} lock {}", ws.asm(), ls.asm());
    g.nontrivial_if(t.executed >= 4);
    note!(g, "witness {} lock {}", ws.asm(), ls.asm());
    g.tag(match want {
        Ok(()) => "unlocked",
        Err(Error::VerifyFail) => "false",
        Err(Error::StackNotClean) => "not clean",
        Err(_) => "failed",
    });
    let v: Items = g.vec(0, 2, item);
    let want = match &v[..] {
        [x] if model::truthy(x) => Ok(()),
        [_] => Err(Error::VerifyFail),
        _ => Err(Error::StackNotClean),
    };
    check_eq!(stack(&v).verify(), want, "final stack {v:?}");
    check_eq!(items(&stack(&v)), v, "stack items");
    check_eq!(stack(&v).top(v.len()).err(), Some(Error::NotEnoughElementsOnStack), "below the stack");
    Ok(())
}
