//! R01: access control of the RPC server: credentials, cookie files, requests by raw HTTP and by the provided clients.
use crate::web::{base64, post, Ws};
use drvlib::*;
use rpc::rpc_creds::RpcCreds;
use rpc::test_support::ClientT;
use rpc::{RpcAuthData, RpcHttpClient};
use std::net::{SocketAddr, TcpListener};
use std::os::unix::fs::PermissionsExt;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU32, Ordering};

static SERIAL: AtomicU32 = AtomicU32::new(0);

pub struct Access {
    rt: tokio::runtime::Runtime,
    dir: PathBuf,
    addr: SocketAddr,
    server: Option<rpc::Rpc>,
    secrets: Vec<(String, String)>,
    place: Option<PathBuf>,
    held: Option<RpcHttpClient>,
}

pub fn free_addr() -> SocketAddr {
    // a port below the ephemeral range, so that it stays ours between two starts
    let mut p = 20000 + (std::process::id() * 7 + SERIAL.fetch_add(1, Ordering::Relaxed) * 13) % 12000;
    loop {
        let a = SocketAddr::from(([127, 0, 0, 1], p as u16));
        if TcpListener::bind(a).is_ok() {
            return a;
        }
        p = 20000 + (p - 20000 + 101) % 12000;
    }
}

impl Access {
    pub fn new() -> Self {
        let dir = std::env::temp_dir().join(format!("drv-rpc-{}-{}", std::process::id(), SERIAL.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(dir.join("data")).expect("driver: dir");
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().expect("driver: rt");
        Access { rt, dir, addr: free_addr(), server: None, secrets: vec![], place: None, held: None }
    }
    fn path(&self, which: &str) -> PathBuf {
        match which {
            "data" => self.dir.join("data").join(".cookie"),
            "datatmp" => self.dir.join("data").join(".cookie.tmp"),
            "given" => self.dir.join("given.txt"),
            "giventmp" => self.dir.join("given.tmp"),
            "nodir" => self.dir.join("missing").join("cookie"),
            o => panic!("driver: place {o}"),
        }
    }
    /// What is in the two cookie places: 0 nothing, n the secret of the n-th start, -1 something else; whether some
    /// other file holds one of the secrets; whether all files with secrets are for their owner only.
    fn files(&self) -> Value {
        let secret = |s: &str| self.secrets.iter().position(|(u, p)| format!("{u}:{p}") == s).map_or(-1, |i| i as i64 + 1);
        let at = |w: &str| std::fs::read_to_string(self.path(w)).map_or(0, |s| secret(&s));
        let (mut leak, mut open) = (false, false);
        for d in [self.dir.clone(), self.dir.join("data")] {
            for f in std::fs::read_dir(d).expect("driver: dir") {
                let f = f.expect("driver: entry");
                if f.file_type().expect("driver: type").is_dir() {
                    continue;
                }
                let s = std::fs::read_to_string(f.path()).expect("driver: file");
                if self.secrets.iter().any(|(_, p)| s.contains(p.as_str())) {
                    leak |= f.path() != self.path("data") && f.path() != self.path("given");
                    open |= f.metadata().expect("driver: meta").permissions().mode() & 0o077 != 0;
                }
            }
        }
        json!({"k": "files", "data": at("data"), "given": at("given"), "leak": leak, "open": open})
    }
    fn served(r: Result<(u16, bool), std::io::Error>) -> Value {
        match r {
            Ok((200 | 101, true)) => json!({"k": "served"}),
            Ok((200 | 101, false)) => json!({"k": "garbled"}),
            Ok((400 | 401 | 403, _)) => json!({"k": "refused"}),
            Ok((n, _)) => json!({"k": "status", "n": n}),
            Err(_) => json!({"k": "down"}),
        }
    }
    fn client_says<E: std::fmt::Debug>(r: Result<String, E>) -> Value {
        match r {
            Ok(s) if s == "pong" => json!({"k": "served"}),
            Ok(_) => json!({"k": "garbled"}),
            Err(e) => {
                let e = format!("{e:?}");
                let down = e.contains("ConnectionRefused") || e.contains("Connection refused");
                json!({"k": if down { "down" } else { "refused" }, "e": e})
            }
        }
    }
    fn auth(&self, v: &Value) -> RpcAuthData {
        match str_of(&v["k"]) {
            "none" => RpcAuthData::None,
            "basic" => RpcAuthData::Basic { username: crate::text(&v["user"]), password: crate::text(&v["pass"]) },
            "cookie" => RpcAuthData::Cookie { cookie_file_path: self.path(str_of(&v["at"])) },
            o => panic!("driver: auth {o}"),
        }
    }
    fn http(&self, v: &Value) -> RpcHttpClient {
        self.rt.block_on(async { rpc::new_http_client(format!("http://{}", self.addr), self.auth(v)).expect("driver: client") })
    }
}

impl Machine for Access {
    fn step(&mut self, a: &Value) -> Value {
        match str_of(&a["op"]) {
            "start" => {
                assert!(self.server.is_none(), "driver: already running");
                let opt = |k: &str| a[k].get("some").map(crate::text);
                let at = match str_of(&a["cookie"]) {
                    "none" => None,
                    c => Some(self.path(c).to_str().expect("driver: path").to_owned()),
                };
                let creds = if a["auth"] == true {
                    match RpcCreds::new(self.dir.join("data"), opt("user"), opt("pass"), at.as_ref()) {
                        Ok(c) => Some(c),
                        Err(_) => return json!({"k": "badset", "f": self.files()}),
                    }
                } else {
                    None
                };
                let mut extra = json!({});
                let cookie = creds.is_some() && opt("user").is_none();
                if let Some(c) = &creds {
                    if cookie {
                        let fresh = c.password().len() >= 16 && self.secrets.iter().all(|(_, p)| p != c.password());
                        extra = json!({"fresh": fresh, "loads": utils::cookie::load_cookie(at.as_ref().map(PathBuf::from).unwrap_or(self.path("data"))).ok() == Some((c.username().into(), c.password().into()))});
                        self.secrets.push((c.username().to_owned(), c.password().to_owned()));
                        self.place = Some(at.map(PathBuf::from).unwrap_or(self.path("data")));
                    } else {
                        extra = json!({"same": Some(c.username()) == opt("user").as_deref() && Some(c.password()) == opt("pass").as_deref()});
                    }
                }
                let busy = (a["busy"] == true).then(|| TcpListener::bind(self.addr).expect("driver: bind"));
                let mut m = jsonrpsee::RpcModule::new(());
                m.register_method("ping", |_, _, _| "pong").expect("driver: method");
                let r = self.rt.block_on(async { rpc::Builder::new(self.addr, creds).register(m).with_method_list("methods").build().await });
                drop(busy);
                match r {
                    Ok(s) => {
                        assert_eq!(*s.http_address(), self.addr);
                        self.server = Some(s);
                        json!({"k": "up", "x": extra, "f": self.files()})
                    }
                    Err(_) => json!({"k": "busy", "f": self.files()}),
                }
            }
            // "subsystem": stopped the way the node does it
            "stop" => {
                let s = self.server.take().expect("driver: not running");
                if a["sub"] == true {
                    self.rt.block_on(async { subsystem::Subsystem::shutdown(s).await });
                } else {
                    self.rt.block_on(s.shutdown());
                }
                json!({"k": "stopped", "f": self.files()})
            }
            // the process dies: what was in the cookie file stays there
            "crash" => {
                let s = self.server.take().expect("driver: not running");
                let kept = self.place.clone().and_then(|p| std::fs::read(&p).ok().map(|d| (p.clone(), d, std::fs::metadata(&p).expect("driver: meta").permissions())));
                self.rt.block_on(s.shutdown());
                if let Some((p, d, m)) = kept {
                    std::fs::write(&p, d).expect("driver: write");
                    std::fs::set_permissions(&p, m).expect("driver: chmod");
                }
                json!({"k": "stopped", "f": self.files()})
            }
            "litter" => {
                let p = self.path(str_of(&a["at"]));
                std::fs::write(&p, "someone:".to_owned() + &"x".repeat(100)).expect("driver: write");
                std::fs::set_permissions(&p, PermissionsExt::from_mode(0o666)).expect("driver: chmod");
                crate::done()
            }
            "rm" => {
                let _ = std::fs::remove_file(self.path(str_of(&a["at"])));
                crate::done()
            }
            "request" => {
                let h = &a["h"];
                let header = match str_of(&h["k"]) {
                    "none" => None,
                    "basic" => Some(format!("Basic {}", base64(&get_bytes(&h["d"]))).into_bytes()),
                    "raw" => Some(get_bytes(&h["d"])),
                    "cookie" => {
                        let (u, p) = &self.secrets[crate::u(h, "n") - 1];
                        Some(format!("Basic {}", base64(format!("{u}:{p}").as_bytes())).into_bytes())
                    }
                    // the right cookie with its last or first letter changed, cut or repeated
                    "near" => {
                        let (u, p) = &self.secrets[crate::u(h, "n") - 1];
                        let p = match str_of(&h["how"]) {
                            "cut" => p[..p.len() - 1].to_owned(),
                            "add" => p.clone() + "a",
                            "empty" => String::new(),
                            "case" => p.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
                            "last" => p[..p.len() - 1].to_owned() + if p.ends_with('a') { "b" } else { "a" },
                            "first" => (if p.starts_with('a') { "b" } else { "a" }).to_owned() + &p[1..],
                            o => panic!("driver: {o}"),
                        };
                        Some(format!("Basic {}", base64(format!("{u}:{p}").as_bytes())).into_bytes())
                    }
                    o => panic!("driver: header {o}"),
                };
                match str_of(&a["via"]) {
                    "post" => Self::served(post(self.addr, header.as_deref(), "ping").map(|(s, b)| (s, b.contains("\"result\":\"pong\"")))),
                    "list" => Self::served(post(self.addr, header.as_deref(), "methods").map(|(s, b)| (s, b.contains("\"result\":[\"methods\",\"ping\"]")))),
                    "ws" => Self::served(Ws::open(self.addr, header.as_deref()).map(|r| match r {
                        Ok(mut w) => {
                            w.send(1, b"{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"ping\"}").expect("driver: send");
                            (101, w.recv(patience(20)).ok().flatten().is_some_and(|t| t.contains("\"result\":\"pong\"")))
                        }
                        Err(s) => (s, false),
                    })),
                    o => panic!("driver: via {o}"),
                }
            }
            "client" => {
                let none: [u8; 0] = [];
                let mut r = match str_of(&a["via"]) {
                    "http" => {
                        let c = self.http(&a["auth"]);
                        Self::client_says(self.rt.block_on(c.request::<String, _>("ping", none)))
                    }
                    "ws" => Self::client_says(self.rt.block_on(async {
                        let c = rpc::new_ws_client(format!("ws://{}", self.addr), self.auth(&a["auth"])).await?;
                        c.request::<String, _>("ping", none).await
                    })),
                    o => panic!("driver: via {o}"),
                };
                r.as_object_mut().expect("obj").remove("e");
                r
            }
            "hold" => {
                self.held = Some(self.http(&a["auth"]));
                crate::done()
            }
            "held" => {
                let c = self.held.clone().expect("driver: no client");
                let none: [u8; 0] = [];
                let mut r = Self::client_says(self.rt.block_on(c.request::<String, _>("ping", none)));
                r.as_object_mut().expect("obj").remove("e");
                r
            }
            o => panic!("driver: op {o}"),
        }
    }
}
impl Drop for Access {
    fn drop(&mut self) {
        if let Some(s) = self.server.take() {
            self.rt.block_on(s.shutdown());
        }
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
