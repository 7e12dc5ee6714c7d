//! R03: network addresses.
use drvlib::*;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV6};
use utils_networking::*;

pub struct Addrs;
fn ip(v: &Value) -> IpAddr {
    let w: Vec<u64> = v["w"].as_array().expect("driver: words").iter().map(|x| x.as_u64().expect("driver: word")).collect();
    if w.len() == 4 {
        IpAddr::V4(Ipv4Addr::new(w[0] as u8, w[1] as u8, w[2] as u8, w[3] as u8))
    } else {
        let w: Vec<u16> = w.iter().map(|x| *x as u16).collect();
        IpAddr::V6(<[u16; 8]>::try_from(w).expect("driver: 8 words").into())
    }
}
fn show_ip(a: &IpAddr) -> Value {
    match a {
        IpAddr::V4(x) => json!({"w": x.octets()}),
        IpAddr::V6(x) => json!({"w": x.segments()}),
    }
}
fn none() -> Value {
    json!({"k": "bad"})
}
fn port(p: Option<u16>) -> Value {
    json!(p.into_iter().collect::<Vec<_>>())
}
fn host(a: &NetworkAddress) -> Value {
    match a {
        NetworkAddress::Ip(x) => show_ip(x),
        NetworkAddress::Domain(d) => json!({"d": bytes(d.to_string())}),
    }
}
fn na(h: &NetworkAddress, p: Option<u16>, text: String) -> Value {
    json!({"k": "addr", "host": host(h), "port": port(p), "text": bytes(text)})
}
fn ios(x: &IpOrSocketAddress) -> Value {
    match x {
        IpOrSocketAddress::Ip(i) => json!({"k": "addr", "host": show_ip(i), "port": [], "text": bytes(x.to_string())}),
        IpOrSocketAddress::Socket(s) => json!({"k": "addr", "host": show_ip(&s.ip()), "port": [s.port()], "text": bytes(x.to_string())}),
    }
}
fn make_ios(v: &Value) -> IpOrSocketAddress {
    let i = ip(&v["host"]);
    match v["port"].as_array().expect("driver: port").first() {
        Some(p) => IpOrSocketAddress::new_socket_address(SocketAddr::new(i, p.as_u64().expect("driver: port") as u16)),
        None => IpOrSocketAddress::new_ip(i),
    }
}
fn make_host(v: &Value) -> NetworkAddress {
    match v.get("d") {
        Some(d) => NetworkAddress::Domain(crate::text(d).parse().expect("driver: domain")),
        None => NetworkAddress::Ip(ip(v)),
    }
}
fn block_on<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().enable_all().build().expect("rt").block_on(f)
}
fn list(r: Result<Vec<Value>, NameResolutionError>) -> Value {
    r.map_or(none(), |v| json!({"k": "list", "v": v}))
}

impl Machine for Addrs {
    fn step(&mut self, a: &Value) -> Value {
        let t = || crate::text(&a["t"]);
        match str_of(&a["op"]) {
            // parsing, through FromStr and through serde
            "parse" => match str_of(&a["ty"]) {
                "ip_or_sock" => {
                    let r = t().parse::<IpOrSocketAddress>().map_or(none(), |x| ios(&x));
                    let s = serde_json::from_value::<IpOrSocketAddress>(json!(t())).map_or(none(), |x| ios(&x));
                    assert_eq!(r, s);
                    r
                }
                "addr" => t().parse::<NetworkAddress>().map_or(none(), |x| na(&x, None, x.to_string())),
                "port" => t().parse::<NetworkAddressWithPort>().map_or(none(), |x| na(&x.address, Some(x.port), x.to_string())),
                "opt" => {
                    let r = t().parse::<NetworkAddressWithOptionalPort>().map_or(none(), |x| na(&x.address, x.port, x.to_string()));
                    let s = serde_json::from_value::<NetworkAddressWithOptionalPort>(json!(t())).map_or(none(), |x| na(&x.address, x.port, x.to_string()));
                    assert_eq!(r, s);
                    r
                }
                "domain" => t().parse::<DomainName>().map_or(none(), |x| json!({"k": "addr", "host": {"d": bytes(x.to_string())}, "port": [], "text": bytes(x.to_string())})),
                o => panic!("driver: type {o}"),
            },
            // a value given by its parts: its text, and what the text means
            "show" => {
                let p = a["port"].as_array().expect("driver: port").first().map(|x| x.as_u64().expect("driver: port") as u16);
                match str_of(&a["ty"]) {
                    "ip_or_sock" => {
                        let x = make_ios(a);
                        let y: IpOrSocketAddress = serde_json::from_value(serde_json::to_value(&x).expect("ser")).expect("de");
                        let z: IpOrSocketAddress = x.to_string().parse().expect("parses");
                        json!({"k": "back", "same": x == y && x == z, "text": bytes(x.to_string())})
                    }
                    "addr" => {
                        let x = make_host(&a["host"]);
                        json!({"k": "back", "same": x.to_string().parse::<NetworkAddress>().as_ref() == Ok(&x), "text": bytes(x.to_string())})
                    }
                    "port" => {
                        let x = NetworkAddressWithPort { address: make_host(&a["host"]), port: p.expect("driver: port") };
                        json!({"k": "back", "same": x.to_string().parse::<NetworkAddressWithPort>().as_ref() == Ok(&x), "text": bytes(x.to_string())})
                    }
                    "opt" => {
                        let x = NetworkAddressWithOptionalPort { address: make_host(&a["host"]), port: p };
                        let y: NetworkAddressWithOptionalPort = serde_json::from_value(serde_json::to_value(&x).expect("ser")).expect("de");
                        json!({"k": "back", "same": x == y && x.to_string().parse::<NetworkAddressWithOptionalPort>().as_ref() == Ok(&x), "text": bytes(x.to_string())})
                    }
                    o => panic!("driver: type {o}"),
                }
            }
            // the default port
            "default" => {
                let x = make_ios(a);
                let s = x.to_socket_address(u_port(&a["p"]));
                assert_eq!(s.ip(), x.to_ip_address());
                json!({"k": "sock", "host": show_ip(&s.ip()), "port": s.port()})
            }
            // conversions between the types keep host and port
            "conv" => {
                let s = SocketAddr::new(ip(&a["host"]), u_port(&a["p"]));
                let x = NetworkAddressWithPort::from(s);
                let y = NetworkAddressWithOptionalPort::from(x.clone());
                let z = NetworkAddressWithOptionalPort::from(x.address.clone());
                json!({"k": "conv", "v": [na(&x.address, Some(x.port), x.to_string()), na(&y.address, y.port, y.to_string()), na(&z.address, z.port, z.to_string())]})
            }
            "scope" => {
                let IpAddr::V6(i) = ip(&a["host"]) else { panic!("driver: v6") };
                let x = IpOrSocketAddress::Socket(SocketAddr::V6(SocketAddrV6::new(i, u_port(&a["p"]), 0, u_port(&a["s"]) as u32)));
                json!({"k": "back", "same": x.to_string().parse::<IpOrSocketAddress>().ok() == Some(x), "text": "any"})
            }
            // resolution
            "resolve" => {
                let xs: Vec<NetworkAddressWithOptionalPort> = a["xs"].as_array().expect("driver: list").iter()
                    .map(|x| NetworkAddressWithOptionalPort { address: make_host(&x["host"]), port: x["port"].as_array().expect("driver: port").first().map(u_port) }).collect();
                if a["first"] == true {
                    list(block_on(resolve_all_take_first(xs.into_iter())).map(|v| v.iter().map(ios).collect()))
                } else {
                    list(block_on(resolve_all(xs.into_iter())).map(|v| v.iter().map(ios).collect()))
                }
            }
            o => panic!("driver: op {o}"),
        }
    }
}
fn u_port(v: &Value) -> u16 {
    v.as_u64().expect("driver: port") as u16
}
