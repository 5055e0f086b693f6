//! Byte strings in JSON.

use pbt::{check, check_eq, Gen};
use rpc::types::{RpcHexString, RpcString};
use serde_json::{json, Value};

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn unhex(s: &str) -> Option<Vec<u8>> {
    let d: Option<Vec<u32>> = s.chars().map(|c| c.to_digit(16)).collect();
    let d = d?;
    (d.len() % 2 == 0).then(|| d.chunks(2).map(|c| (c[0] << 4 | c[1]) as u8).collect())
}

fn hexish(g: &mut Gen, data: &[u8]) -> String {
    let h = hex(data);
    match g.below(8) {
        0 => h.to_uppercase(),
        1 => h.chars().map(|c| if g.bool() { c.to_ascii_uppercase() } else { c }).collect(),
        2 => h[..h.len().saturating_sub(1)].to_string(),
        3 => format!("0x{h}"),
        4 => {
            let mut c: Vec<char> = h.chars().collect();
            let i = g.usize(c.len() + 1);
            c.insert(i, *g.pick(&['0', 'f', 'g', ' ', 'é', '\0']));
            if g.bool() {
                c.push('0');
            }
            c.into_iter().collect()
        }
        _ => h,
    }
}

pub fn hex_and_text(g: &mut Gen) -> Result<(), String> {
    let data = match g.below(4) {
        0 => g.bytes(0, 24),
        1 => g.text(12).into_bytes(),
        2 => {
            let mut t = g.text(8).into_bytes();
            let i = g.usize(t.len() + 1);
            t.insert(i, g.range(0x80, 0xff) as u8);
            t
        }
        _ => g.string(&['a', 'f', '0', '9', 'x'], 0, 12).into_bytes(),
    };
    let text = String::from_utf8(data.clone()).ok();

    // Written out and read back.
    let h = RpcHexString::from_bytes(data.clone());
    check_eq!(h.to_string(), hex(&data), "hex string shown");
    check_eq!(format!("{h:x}"), hex(&data), "hex string shown with :x");
    check_eq!(serde_json::to_value(&h).map_err(|e| e.to_string())?, json!(hex(&data)), "hex string as JSON");
    let s = RpcString::from_bytes(data.clone());
    let sj = serde_json::to_value(&s).map_err(|e| e.to_string())?;
    check_eq!(sj, json!({"text": text, "hex": hex(&data)}), "string as JSON");
    let back: RpcString = serde_json::from_value(sj).map_err(|e| format!("a written string is refused: {e}"))?;
    check_eq!(back.as_bytes(), &data[..], "string read back");
    check_eq!(s.try_as_str().ok().map(str::to_string), text, "string as text");
    check_eq!(s.clone().try_into_string().map_err(|e| e.0.into_bytes()), text.clone().ok_or(data.clone()), "string into text");
    check_eq!(RpcString::from(h.clone()).into_bytes(), data, "hex string into string");

    // Read from anything.
    let t = hexish(g, &data);
    let want = unhex(&t);
    check_eq!(t.parse::<RpcHexString>().ok().map(|x| x.into_bytes()), want, "hex string parsed from {t:?}");
    check_eq!(
        serde_json::from_value::<RpcHexString>(json!(t)).ok().map(|x| x.into_bytes()),
        want,
        "hex string read from JSON {t:?}"
    );

    let (value, want): (Value, Option<Vec<u8>>) = match g.below(6) {
        0 => (json!(t), Some(t.clone().into_bytes())),
        1 => (g.pick(&[json!(null), json!(5), json!(true), json!({}), json!({"text": null}), json!({"hex": null}), json!({"text": null, "hex": null}), json!({"txt": "a"})]).clone(), None),
        _ => {
            let text_v: Option<Option<String>> = match g.below(5) {
                0 => None,
                1 => Some(None),
                2 => Some(Some(g.text(6))),
                _ => Some(Some(text.clone().unwrap_or_else(|| String::from_utf8_lossy(&data).into_owned()))),
            };
            let hex_v: Option<Option<String>> = match g.below(4) {
                0 => None,
                1 => Some(None),
                _ => Some(Some(t.clone())),
            };
            g.nontrivial();
            let mut o = serde_json::Map::new();
            if let Some(x) = &text_v {
                o.insert("text".into(), json!(x));
            }
            if let Some(x) = &hex_v {
                o.insert("hex".into(), json!(x));
            }
            let want = match (text_v.flatten(), hex_v.flatten().map(|x| unhex(&x))) {
                (_, Some(None)) | (None, None) => None,
                (Some(t), None) => Some(t.into_bytes()),
                (None, Some(Some(h))) => Some(h),
                (Some(t), Some(Some(h))) => (t.as_bytes() == h).then_some(h),
            };
            (Value::Object(o), want)
        }
    };
    let got = serde_json::from_str::<RpcString>(&value.to_string()).ok().map(|x| x.into_bytes());
    check_eq!(got, want, "string read from {value}");
    check!(serde_json::from_value::<RpcHexString>(json!([t])).is_err(), "a hex string read from an array");
    Ok(())
}
