//! Network addresses.

use futures::FutureExt as _;
use p2p_types::{
    bannable_address::BannableAddress,
    ip_address::{Ip4, Ip6},
    peer_address::PeerAddress,
    services::{Service, Services},
    socket_addr_ext::SocketAddrExt as _,
    socket_address::SocketAddress,
    IsGlobalIp as _, PeerId,
};
use pbt::*;
use serialization::{DecodeAll as _, Encode as _};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV6};
use utils_networking::*;

pub const P: Property = Property {
    id: "C19",
    rule: "a case is non-trivial when it used an IPv6 address or a name with a port, or malformed text near a valid address",
    facets: &[
        facet("text", 80000, text),
        facet("malformed", 80000, malformed),
        facet("conversions", 40000, conversions),
        facet("resolution", 8000, resolution),
        facet("peer_binary", 40000, peer_binary),
        facet("discoverable", 80000, discoverable),
        enumerated("prefix_edges", 1 << 16, prefix_edges),
        facet("services_ids", 12000, services_ids),
    ],
    assumptions: &[
        "which texts are domain names is decided by the address library the code uses (addr)",
        "IPv6 addresses that embed an IPv4 address are treated as ordinary IPv6 addresses by the published rule, and are not judged as IPv4",
    ],
};

const RANGES4: &[(&str, u8)] = &[
    ("0.0.0.0", 8),
    ("10.0.0.0", 8),
    ("100.64.0.0", 10),
    ("127.0.0.0", 8),
    ("169.254.0.0", 16),
    ("172.16.0.0", 12),
    ("192.0.0.0", 24),
    ("192.0.2.0", 24),
    ("192.168.0.0", 16),
    ("198.18.0.0", 15),
    ("198.51.100.0", 24),
    ("203.0.113.0", 24),
    ("224.0.0.0", 4),
    ("240.0.0.0", 4),
];
const RANGES6: &[(&str, u8)] =
    &[("::", 128), ("::1", 128), ("2001:db8::", 32), ("fc00::", 7), ("fe80::", 10), ("ff00::", 8)];

fn in4(ip: Ipv4Addr, r: &(&str, u8)) -> bool {
    let base: u32 = r.0.parse::<Ipv4Addr>().expect("address").into();
    (u32::from(ip) ^ base) >> (32 - r.1) == 0
}
fn in6(ip: Ipv6Addr, r: &(&str, u8)) -> bool {
    let base: u128 = r.0.parse::<Ipv6Addr>().expect("address").into();
    (u128::from(ip) ^ base) >> (128 - u32::from(r.1)) == 0
}
fn global(ip: IpAddr) -> bool {
    match ip {
        IpAddr::V4(ip) => !RANGES4.iter().any(|r| in4(ip, r)),
        IpAddr::V6(ip) => !RANGES6.iter().any(|r| in6(ip, r)),
    }
}

fn ip4(g: &mut Gen) -> Ipv4Addr {
    match g.weighted(&[2, 3, 1]) {
        0 => (g.raw64() as u32).into(),
        1 => {
            // around the edges of a range
            let r = g.pick(RANGES4);
            let base: u32 = r.0.parse::<Ipv4Addr>().expect("address").into();
            let size = 1u64 << (32 - r.1);
            let v = match g.below(5) {
                0 => u64::from(base),
                1 => u64::from(base) + size - 1,
                2 => u64::from(base) + size,
                3 => u64::from(base) + (1 << 32) - 1,
                _ => u64::from(base) + g.below(size),
            };
            (v as u32).into()
        }
        _ => Ipv4Addr::new(*g.pick(&[0, 1, 100, 192, 198, 203, 255]), g.byte(), g.byte(), g.byte()),
    }
}
fn ip6(g: &mut Gen) -> Ipv6Addr {
    match g.weighted(&[2, 3, 2, 1, 1]) {
        0 => g.raw128().into(),
        1 => {
            let r = g.pick(RANGES6);
            let base: u128 = r.0.parse::<Ipv6Addr>().expect("address").into();
            let size = 1u128 << (128 - u32::from(r.1)).min(127);
            let v = match g.below(5) {
                0 => base,
                1 => base.wrapping_add(size - 1),
                2 => base.wrapping_add(size),
                3 => base.wrapping_sub(1),
                _ => base.wrapping_add(g.raw128() % size),
            };
            v.into()
        }
        2 => {
            // runs of zeros
            let mut s = [0u16; 8];
            for x in &mut s {
                *x = if g.bool() { 0 } else { g.raw64() as u16 };
            }
            s.into()
        }
        3 => ip4(g).to_ipv6_mapped(),
        _ => ip4(g).to_ipv6_compatible(),
    }
}
fn ip(g: &mut Gen) -> IpAddr {
    if g.bool() {
        ip4(g).into()
    } else {
        ip6(g).into()
    }
}
fn port(g: &mut Gen) -> u16 {
    match g.below(4) {
        0 => *g.pick(&[0, 1, 80, 3031, 65535, 65534]),
        1 => g.below(1000) as u16,
        _ => g.raw64() as u16,
    }
}
fn name(g: &mut Gen) -> String {
    let n = g.range(1, 4);
    let chars: Vec<char> = "abcxyz0189-_".chars().collect();
    let mut v = vec![];
    for _ in 0..n {
        v.push(g.string(&chars, 1, 9));
    }
    v.push((*g.pick(&["com", "org", "co.uk", "localhost", "io", "x"])).into());
    let s = v.join(".");
    if g.chance(1, 10) {
        (*g.pick(&["localhost", "example.com", "сайт.рф", "a.b", "1a", "a1"])).into()
    } else {
        s
    }
}
fn is_name(s: &str) -> bool {
    addr::parse_domain_name(s).is_ok()
}

/// Text of an address, with the parts it denotes.
fn good(g: &mut Gen) -> (String, NetworkAddressWithOptionalPort) {
    let p = g.bool().then(|| port(g));
    if g.bool() {
        let a = ip(g);
        let s = match (a, p) {
            (a, None) => a.to_string(),
            (IpAddr::V4(a), Some(p)) => format!("{a}:{p}"),
            (IpAddr::V6(a), Some(p)) => format!("[{a}]:{p}"),
        };
        (s, NetworkAddressWithOptionalPort { address: NetworkAddress::Ip(a), port: p })
    } else {
        let mut n = name(g);
        if !is_name(&n) || n.parse::<IpAddr>().is_ok() {
            n = "example.com".into();
        }
        let s = match p {
            None => n.clone(),
            Some(p) => format!("{n}:{p}"),
        };
        let d: DomainName = n.parse().expect("a domain name");
        (s, NetworkAddressWithOptionalPort { address: NetworkAddress::Domain(d), port: p })
    }
}

fn text(g: &mut Gen) -> Res {
    let (s, v) = good(g);
    note!(g, "{s}");
    g.tag(match (&v.address, v.port.is_some()) {
        (NetworkAddress::Ip(IpAddr::V4(_)), false) => "ip4",
        (NetworkAddress::Ip(IpAddr::V4(_)), true) => "ip4_port",
        (NetworkAddress::Ip(IpAddr::V6(_)), false) => "ip6",
        (NetworkAddress::Ip(IpAddr::V6(_)), true) => "ip6_port",
        (_, false) => "name",
        (_, true) => "name_port",
    });
    check_eq!(s.parse::<NetworkAddressWithOptionalPort>(), Ok(v.clone()), "parsing {s:?}");
    check_eq!(v.to_string(), s, "printing");
    let json = serde_json::to_string(&v).map_err(|e| e.to_string())?;
    check_eq!(json, serde_json::to_string(&s).map_err(|e| e.to_string())?, "JSON text");
    check_eq!(serde_json::from_str::<NetworkAddressWithOptionalPort>(&json).ok(), Some(v.clone()), "reading JSON");

    let wp = s.parse::<NetworkAddressWithPort>();
    match v.port {
        Some(port) => {
            let e = NetworkAddressWithPort { address: v.address.clone(), port };
            check_eq!(wp, Ok(e.clone()), "parsing {s:?} as an address with port");
            check_eq!(e.to_string(), s, "printing an address with port");
            check_eq!(NetworkAddressWithOptionalPort::from(e), v, "conversion");
        }
        None => {
            check_eq!(wp, Err(NetworkAddressParseError::MissingPortNumber(s.clone())), "a missing port in {s:?}");
            check_eq!(s.parse::<NetworkAddress>(), Ok(v.address.clone()), "parsing {s:?} as an address");
            check_eq!(v.address.to_string(), s, "printing the address");
            check_eq!(NetworkAddressWithOptionalPort::from(v.address.clone()), v, "conversion");
        }
    }
    let ios = s.parse::<IpOrSocketAddress>();
    match v.address.as_ip_address() {
        Some(ip) => {
            let e = match v.port {
                Some(p) => IpOrSocketAddress::new_socket_address(SocketAddr::new(*ip, p)),
                None => IpOrSocketAddress::new_ip(*ip),
            };
            check_eq!(ios, Ok(e.clone()), "parsing {s:?} as an IP or socket address");
            check_eq!(e.to_string(), s, "printing an IP or socket address");
            check_eq!(serde_json::to_value(&e).ok(), Some(serde_json::Value::String(s.clone())), "JSON");
            check_eq!(serde_json::from_value(s.clone().into()).ok(), Some(e), "JSON");
            if v.port.is_some() {
                let sa = SocketAddress::new(SocketAddr::new(*ip, v.port.unwrap_or(0)));
                check_eq!(s.parse::<SocketAddress>(), Ok(sa), "parsing a socket address");
                check_eq!(sa.to_string(), s, "printing a socket address");
                check_eq!(serde_json::to_value(sa).ok(), Some(s.clone().into()), "JSON");
                check_eq!(serde_json::from_value(s.clone().into()).ok(), Some(sa), "JSON");
                check!(s.parse::<BannableAddress>().is_err(), "{s:?} accepted as a bannable address");
            } else {
                let b = BannableAddress::new(*ip);
                check_eq!(s.parse::<BannableAddress>(), Ok(b), "parsing a bannable address");
                check_eq!(b.to_string(), s, "printing a bannable address");
                check_eq!(serde_json::to_value(b).ok(), Some(s.clone().into()), "JSON");
                check_eq!(serde_json::from_value(s.clone().into()).ok(), Some(b), "JSON");
                check!(s.parse::<SocketAddress>().is_err(), "{s:?} accepted as a socket address");
            }
        }
        None => {
            check!(ios.is_err(), "the name {s:?} was accepted as an IP address");
            check!(s.parse::<SocketAddress>().is_err(), "the name {s:?} was accepted as a socket address");
        }
    }
    g.nontrivial_if(v.port.is_some() || matches!(v.address, NetworkAddress::Ip(IpAddr::V6(_))));
    Ok(())
}

fn malformed(g: &mut Gen) -> Res {
    let (mut s, v) = good(g);
    let (mut why, mut bad_port) = ("mutated", None);
    match g.below(6) {
        // text near an address: whatever is accepted must print and parse back to itself
        0 | 1 => {
            let mut cs: Vec<char> = s.chars().collect();
            for _ in 0..g.range(1, 3) {
                let i = g.usize(cs.len() + 1);
                let c = *g.pick(&[':', '[', ']', '.', '%', ' ', '0', 'f', '-', '\0', 'é', '/', '@', '6']);
                match g.below(3) {
                    0 => cs.insert(i, c),
                    1 if i < cs.len() => cs[i] = c,
                    _ if i < cs.len() => {
                        cs.remove(i);
                    }
                    _ => {}
                }
            }
            s = cs.into_iter().collect();
        }
        2 => {
            s = g.text(12);
            why = "arbitrary";
        }
        _ => {
            let p = match g.below(5) {
                0 => g.range(65536, 1 << 40).to_string(),
                1 => String::new(),
                2 => format!("-{}", g.below(70000)),
                3 => format!("{} ", g.below(70000)),
                _ => format!("{}{}", g.below(100), g.pick(&["x", "o", ".", " 1", "e1", "٣"])),
            };
            let host = match &v.address {
                NetworkAddress::Ip(IpAddr::V6(a)) => format!("[{a}]"),
                a => a.to_string(),
            };
            s = format!("{host}:{p}");
            why = "bad_port";
            bad_port = Some(p);
        }
    }
    g.tag(why);
    note!(g, "{s:?}");
    let a = no_panic(|| s.parse::<NetworkAddressWithOptionalPort>()).map_err(|e| format!("parsing {s:?} crashed: {e}"))?;
    let b = no_panic(|| s.parse::<NetworkAddressWithPort>()).map_err(|e| format!("parsing {s:?} crashed: {e}"))?;
    let c = no_panic(|| s.parse::<IpOrSocketAddress>()).map_err(|e| format!("parsing {s:?} crashed: {e}"))?;
    let d = no_panic(|| s.parse::<NetworkAddress>()).map_err(|e| format!("parsing {s:?} crashed: {e}"))?;
    let e = no_panic(|| s.parse::<DomainName>()).map_err(|e| format!("parsing {s:?} crashed: {e}"))?;
    if let Some(p) = bad_port {
        let e = NetworkAddressParseError::BadPortNumber(p);
        check_eq!(a.as_ref().err(), Some(&e), "{s:?} with a bad port");
        check_eq!(b.as_ref().err(), Some(&e), "{s:?} with a bad port");
        check!(c.is_err(), "{s:?} was accepted as a socket address");
    }
    check_eq!(e.is_ok(), is_name(&s), "{s:?} as a domain name");
    check_eq!(d.is_ok(), is_name(&s) || s.parse::<IpAddr>().is_ok(), "{s:?} as an address");
    check_eq!(c.is_ok(), s.parse::<SocketAddr>().is_ok() || s.parse::<IpAddr>().is_ok(), "{s:?} as an IP or socket address");
    if let Ok(v) = &a {
        check_eq!(v.to_string().parse::<NetworkAddressWithOptionalPort>(), Ok(v.clone()), "printing and parsing what {s:?} gave");
        // what was accepted is an address or an address with a port
        let whole = d.as_ref().is_ok_and(|x| *x == v.address) && v.port.is_none();
        let parts = v.port.is_some_and(|p| {
            s.parse::<SocketAddr>().is_ok_and(|x| v.address == NetworkAddress::Ip(x.ip()) && p == x.port())
                || s.rsplit_once(':').is_some_and(|(h, q)| q.parse() == Ok(p) && h.parse::<NetworkAddress>().as_ref() == Ok(&v.address))
        });
        check!(whole || parts, "{s:?} was read as {v:?}");
    } else {
        check!(d.is_err(), "{s:?} is an address but refused with an optional port");
        check!(s.parse::<SocketAddr>().is_err(), "{s:?} is a socket address but refused");
        check!(
            !s.rsplit_once(':').is_some_and(|(h, p)| p.parse::<u16>().is_ok() && h.parse::<NetworkAddress>().is_ok()),
            "{s:?} is an address with a port but refused"
        );
    }
    match (&a, &b) {
        (Ok(v), Ok(w)) => check!(v.port == Some(w.port) && v.address == w.address, "{s:?} was read as {v:?} and {w:?}"),
        (Ok(v), Err(_)) => check!(v.port.is_none(), "{s:?} has a port but was refused"),
        (Err(_), Ok(w)) => return Err(format!("{s:?} was read as {w:?} only with port")),
        _ => {}
    }
    check_eq!(
        serde_json::from_value::<NetworkAddressWithOptionalPort>(s.clone().into()).ok(),
        a.ok(),
        "JSON form of {s:?}"
    );
    g.nontrivial();
    Ok(())
}

fn conversions(g: &mut Gen) -> Res {
    let (a, p, q) = (ip(g), port(g), port(g));
    let sa = SocketAddr::new(a, p);
    note!(g, "{sa} default {q}");
    let x = IpOrSocketAddress::new_ip(a);
    check_eq!(x.to_socket_address(q), SocketAddr::new(a, q), "the default port is used");
    check_eq!(x.to_ip_address(), a, "IP");
    let y = IpOrSocketAddress::new_socket_address(sa);
    check_eq!(y.to_socket_address(q), sa, "the given port is kept");
    check_eq!(y.to_ip_address(), a, "IP");
    check_eq!(NetworkAddressWithPort::from(sa), NetworkAddressWithPort { address: NetworkAddress::Ip(a), port: p }, "address with port");
    check_eq!(NetworkAddress::Ip(a).as_ip_address(), Some(&a), "IP");
    let s = SocketAddress::new(sa);
    check_eq!(s.socket_addr(), sa, "socket address");
    check_eq!(SocketAddress::from(sa), s, "socket address");
    check_eq!(s.ip_addr(), a, "IP");
    check_eq!(s.as_bannable(), BannableAddress::new(a), "bannable address");
    check_eq!(sa.as_bannable(), BannableAddress::new(a), "bannable address");
    check_eq!(s.as_peer_address(), PeerAddress::from(sa), "peer address");
    check_eq!(sa.as_peer_address(), PeerAddress::from(sa), "peer address");
    let other = SocketAddr::new(ip(g), port(g));
    let (t, b) = (SocketAddress::new(other), BannableAddress::new(other.ip()));
    check_eq!(s.cmp(&t), sa.cmp(&other), "order of socket addresses");
    check_eq!(s == t, sa == other, "equality of socket addresses");
    check_eq!(BannableAddress::new(a).cmp(&b), a.cmp(&other.ip()), "order of bannable addresses");
    match a {
        IpAddr::V4(a) => check_eq!(Ipv4Addr::from(Ip4::from(a)), a, "IPv4"),
        IpAddr::V6(a) => check_eq!(Ipv6Addr::from(Ip6::from(a)), a, "IPv6"),
    }
    g.nontrivial_if(a.is_ipv6());
    Ok(())
}

struct Fixed(Vec<u64>);
impl ResolvableName for Fixed {
    type ResolvedAddress = u64;
    async fn resolve(&self) -> Result<impl Iterator<Item = u64> + '_, NameResolutionError> {
        if self.0.first() == Some(&13) {
            return Err(NameResolutionError::CannotResolve { resolvable_name: "13".into(), error_str: "x".into() });
        }
        Ok(self.0.iter().copied())
    }
}

fn resolution(g: &mut Gen) -> Res {
    // literals resolve to themselves
    let n = g.range(0, 5);
    let v: Vec<NetworkAddressWithOptionalPort> =
        (0..n).map(|_| NetworkAddressWithOptionalPort { address: NetworkAddress::Ip(ip(g)), port: g.bool().then(|| port(g)) }).collect();
    let expected: Vec<_> = v
        .iter()
        .map(|x| {
            let ip = *x.address.as_ip_address().expect("IP");
            match x.port {
                Some(p) => IpOrSocketAddress::new_socket_address(SocketAddr::new(ip, p)),
                None => IpOrSocketAddress::new_ip(ip),
            }
        })
        .collect();
    check_eq!(resolve_all(v.clone().into_iter()).now_or_never(), Some(Ok(expected.clone())), "all addresses");
    check_eq!(resolve_all_take_first(v.clone().into_iter()).now_or_never(), Some(Ok(expected)), "first addresses");
    // names with any number of addresses
    let w: Vec<Vec<u64>> = g.vec(0, 5, |g| g.vec(0, 4, |g| g.below(40)));
    note!(g, "{w:?}");
    let fails = w.iter().any(|x| x.first() == Some(&13));
    let all = resolve_all(w.iter().cloned().map(Fixed)).now_or_never();
    let first = resolve_all_take_first(w.iter().cloned().map(Fixed)).now_or_never();
    if fails {
        check!(matches!(&all, Some(Err(_))), "a failure to resolve is hidden: {all:?}");
        check!(matches!(&first, Some(Err(_))), "a failure to resolve is hidden: {first:?}");
    } else {
        check_eq!(all, Some(Ok(w.concat())), "all addresses");
        check_eq!(first, Some(Ok(w.iter().filter_map(|x| x.first().copied()).collect())), "first addresses");
    }
    g.tag_if(fails, "failure");
    g.nontrivial_if(n > 1 && w.len() > 1);
    Ok(())
}

fn peer_binary(g: &mut Gen) -> Res {
    let a = ip(g);
    let p = port(g);
    let sa = match a {
        // flow and scope are not part of a peer address
        IpAddr::V6(a) if g.chance(1, 5) => SocketAddr::V6(SocketAddrV6::new(a, p, g.raw64() as u32, g.raw64() as u32)),
        a => SocketAddr::new(a, p),
    };
    let x: PeerAddress = sa.into();
    check_eq!(SocketAddr::from(&x), SocketAddr::new(a, p), "IP and port");
    check_eq!(x.to_string(), SocketAddr::new(a, p).to_string(), "text");
    check_eq!(x.is_loopback(), a.is_loopback(), "loopback");
    let mut bytes = match a {
        IpAddr::V4(a) => [&[0u8][..], &a.octets()].concat(),
        IpAddr::V6(a) => [&[1u8][..], &a.octets()].concat(),
    };
    bytes.extend(p.to_le_bytes());
    check_eq!(x.encode(), bytes, "binary form");
    check_eq!(PeerAddress::decode_all(&mut &bytes[..]).ok(), Some(x.clone()), "decoding");
    check!(matches!((&x, a), (PeerAddress::Ip4(_), IpAddr::V4(_)) | (PeerAddress::Ip6(_), IpAddr::V6(_))), "kind of {x:?}");
    // a change of any byte is another address or no address
    let i = g.usize(bytes.len());
    let mut other = bytes.clone();
    other[i] ^= 1 << g.below(8);
    if let Ok(y) = PeerAddress::decode_all(&mut &other[..]) {
        check!(y != x, "altered bytes {other:?} decode to the same address");
        check_eq!(y.encode(), other, "re-encoding");
    }
    check!(PeerAddress::decode_all(&mut &bytes[..i]).is_err(), "truncated bytes are accepted");
    other = bytes.clone();
    other.push(g.byte());
    check!(PeerAddress::decode_all(&mut &other[..]).is_err(), "bytes with an extra byte are accepted");
    let junk = g.bytes(0, 24);
    if let Ok(y) = no_panic(|| PeerAddress::decode_all(&mut &junk[..]))? {
        check_eq!(y.encode(), junk, "re-encoding");
    }
    let z: PeerAddress = SocketAddr::new(ip(g), port(g)).into();
    check_eq!(x == z, x.encode() == z.encode(), "equality");
    g.tag_if(a.is_ipv4(), "ip4");
    g.nontrivial_if(a.is_ipv6());
    Ok(())
}

fn discoverable(g: &mut Gen) -> Res {
    let (a, p) = (ip(g), port(g));
    let sa = SocketAddr::new(a, p);
    let e = global(a);
    note!(g, "{sa} {e}");
    check_eq!(a.is_global_unicast_ip(), e, "{a} is globally routable");
    let x: PeerAddress = sa.into();
    check_eq!(x.is_global_unicast_ip(), e, "{a} is globally routable");
    let s = SocketAddress::new(sa);
    check_eq!(x.as_discoverable_socket_address(false), (e && p != 0).then_some(s), "{sa} is discoverable");
    check_eq!(x.as_discoverable_socket_address(true), (p != 0).then_some(s), "{sa} is discoverable with private addresses allowed");
    g.tag_if(!e, "not_global");
    g.nontrivial_if(!e || a.is_ipv6());
    Ok(())
}

/// All leading 16 bits, in both families.
fn prefix_edges(g: &mut Gen) -> Res {
    let n = g.below(1 << 16) as u32;
    for low in [0u32, 0xffff, 0x0200, 0x0100, 0x7100, 0x6400, 0x00ff] {
        let a = Ipv4Addr::from((n << 16) | low);
        check_eq!(a.is_global_unicast_ip(), global(a.into()), "{a} is globally routable");
    }
    for low in [0u128, 1, 0x0db8 << 96, u128::MAX >> 16, 0x0db7 << 96] {
        let a = Ipv6Addr::from((u128::from(n) << 112) | low);
        check_eq!(a.is_global_unicast_ip(), global(a.into()), "{a} is globally routable");
    }
    g.nontrivial();
    Ok(())
}

fn services_ids(g: &mut Gen) -> Res {
    let all = Service::ALL;
    let pick: Vec<Service> = all.iter().copied().filter(|_| g.bool()).collect();
    let s: Services = pick.as_slice().into();
    for x in all {
        check_eq!(s.has_service(x), pick.contains(&x), "service {x:?}");
        check_eq!(Services::from([x].as_slice()).encode(), (x as u64).encode(), "bit of {x:?}");
    }
    check_eq!(s.is_empty(), pick.is_empty(), "emptiness");
    let (a, b) = (g.raw64(), g.raw64());
    let (x, y) = (Services::from_u64(a), Services::from_u64(b));
    check_eq!((x & y).encode(), (a & b).encode(), "intersection");
    check_eq!((x | y).encode(), (a | b).encode(), "union");
    check_eq!(Services::decode_all(&mut &x.encode()[..]).ok(), Some(x), "decoding");
    check_eq!(x == y, a == b, "equality");
    let id = PeerId::from_u64(a);
    check_eq!(id.as_u64(), a, "identifier");
    check_eq!(id.to_string(), a.to_string(), "text");
    check_eq!(id.to_string().parse::<PeerId>(), Ok(id), "parsing");
    check_eq!(id.encode(), a.encode(), "binary form");
    check_eq!(PeerId::decode_all(&mut &id.encode()[..]).ok(), Some(id), "decoding");
    check_eq!(serde_json::to_value(id).ok(), Some(a.into()), "JSON");
    check_eq!(serde_json::from_value(a.into()).ok(), Some(id), "JSON");
    check_eq!(id.cmp(&PeerId::from_u64(b)), a.cmp(&b), "order");
    let (n1, n2) = (PeerId::new(), PeerId::new());
    check!(n1 != n2, "fresh identifiers repeat");
    g.nontrivial();
    Ok(())
}
