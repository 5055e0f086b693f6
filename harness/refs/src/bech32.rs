//! BIP-350 (bech32m), writing only.

const CHARS: &[u8; 32] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";

fn polymod(values: &[u8]) -> u32 {
    const G: [u32; 5] = [0x3b6a_57b2, 0x2650_8e6d, 0x1ea1_19fa, 0x3d42_33dd, 0x2a14_62b3];
    let mut c = 1u32;
    for v in values {
        let top = c >> 25;
        c = (c & 0x1ff_ffff) << 5 ^ u32::from(*v);
        for (i, g) in G.iter().enumerate() {
            if top >> i & 1 == 1 {
                c ^= g;
            }
        }
    }
    c
}

pub fn bech32m(hrp: &str, data: &[u8]) -> String {
    let mut groups = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for b in data {
        acc = (acc << 8 | u32::from(*b)) & 0xffff;
        bits += 8;
        while bits >= 5 {
            bits -= 5;
            groups.push((acc >> bits & 31) as u8);
        }
    }
    if bits > 0 {
        groups.push((acc << (5 - bits) & 31) as u8);
    }
    let mut all: Vec<u8> = hrp.bytes().map(|b| b >> 5).collect();
    all.push(0);
    all.extend(hrp.bytes().map(|b| b & 31));
    all.extend(&groups);
    all.extend([0; 6]);
    let sum = polymod(&all) ^ 0x2bc8_30a3;
    let mut s = format!("{hrp}1");
    s.extend(groups.iter().map(|g| CHARS[*g as usize] as char));
    s.extend((0..6).map(|i| CHARS[(sum >> (5 * (5 - i)) & 31) as usize] as char));
    s
}
