//! R04: events of a broadcaster delivered to websocket subscribers through the bridge of the rpc crate.
use crate::access::free_addr;
use crate::web::Ws;
use drvlib::*;
use rpc::subscription;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use utils_networking::broadcaster::Broadcaster;

type Source = Arc<Mutex<Option<Broadcaster<u64>>>>;
struct Conn {
    ws: Ws,
    next: u64,
    /// messages read while waiting for a reply
    early: Vec<Value>,
}
struct Sub {
    conn: usize,
    id: Value,
    kind: String,
}
pub struct Subs {
    rt: tokio::runtime::Runtime,
    addr: SocketAddr,
    server: Option<rpc::Rpc>,
    source: Source,
    conns: Vec<Option<Conn>>,
    subs: Vec<Sub>,
    gone: std::collections::BTreeSet<usize>,
}
const KINDS: [&str; 4] = ["plain", "map", "odd", "big"];

impl Subs {
    pub fn new() -> Self {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().expect("driver: rt");
        let source: Source = Arc::new(Mutex::new(Some(Broadcaster::new())));
        let mut m = jsonrpsee::RpcModule::new(source.clone());
        for k in KINDS {
            let names: [&'static str; 3] = match k {
                "plain" => ["sub_plain", "ev_plain", "unsub_plain"],
                "map" => ["sub_map", "ev_map", "unsub_map"],
                "odd" => ["sub_odd", "ev_odd", "unsub_odd"],
                _ => ["sub_big", "ev_big", "unsub_big"],
            };
            m.register_subscription(names[0], names[1], names[2], move |_, pending, src: Arc<Source>, _| async move {
                let Some(rx) = src.lock().expect("driver: lock").as_mut().map(|b| b.subscribe()) else {
                    pending.reject(jsonrpsee::types::ErrorObject::owned(1, "over", None::<()>)).await;
                    return Ok(());
                };
                match k {
                    "plain" => subscription::connect_broadcast(rx, pending).await,
                    "map" => subscription::connect_broadcast_map(rx, pending, |v| v + 1000).await,
                    "odd" => subscription::connect_broadcast_filter_map(rx, pending, |v| (v % 2 == 1).then_some(v)).await,
                    _ => subscription::connect_broadcast_map(rx, pending, |v| vec![v; 2000]).await,
                }
            })
            .expect("driver: subscription");
        }
        m.register_method("ping", |_, _, _| "pong").expect("driver: method");
        let (server, addr) = loop {
            let addr = free_addr();
            if let Ok(s) = rt.block_on(rpc::Builder::new(addr, None).register(m.clone()).build()) {
                break (s, addr);
            }
        };
        Subs { rt, addr, server: Some(server), source, conns: vec![], subs: vec![], gone: Default::default() }
    }
    fn call(&mut self, c: usize, method: &str, params: Value) -> Option<Value> {
        let c = self.conns[c].as_mut().expect("driver: closed");
        c.next += 1;
        let id = c.next;
        c.ws.send(1, json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}).to_string().as_bytes()).ok()?;
        loop {
            let r = c.ws.recv(patience(20)).ok()?;
            if r.is_none() {
                lost();
            }
            let v: Value = serde_json::from_str(&r?).expect("driver: json");
            if v["id"] == id {
                return Some(v);
            }
            c.early.push(v);
        }
    }
    /// reads until n events of subscription i have come, and then as long as wait ms for more
    fn drain(&mut self, i: usize, n: usize, wait: u64) -> Value {
        let (id, kind) = (self.subs[i].id.clone(), self.subs[i].kind.clone());
        let Some(c) = self.conns[self.subs[i].conn].as_mut() else { return json!({"k": "closed"}) };
        // a closing notice (with "error" in the place of "result") is no event
        let mine = |v: &Value| v["method"] == format!("ev_{kind}") && v["params"]["subscription"] == id && v["params"].get("result").is_some();
        let mut got: Vec<Value> = vec![];
        let mut rest = vec![];
        for v in std::mem::take(&mut c.early) {
            if mine(&v) { got.push(v) } else { rest.push(v) }
        }
        let mut closed = false;
        loop {
            let limit = if got.len() < n { patience(10) } else { Duration::from_millis(wait) };
            if got.len() >= n && wait == 0 {
                break;
            }
            match c.ws.recv(limit) {
                Ok(Some(t)) => {
                    let v: Value = serde_json::from_str(&t).expect("driver: json");
                    if mine(&v) { got.push(v) } else { rest.push(v) }
                }
                Ok(None) => {
                    if got.len() < n {
                        lost();
                    }
                    break;
                }
                Err(()) => {
                    closed = true;
                    break;
                }
            }
        }
        c.early = rest;
        let got: Vec<Value> = got
            .iter()
            .map(|v| match &v["params"]["result"] {
                Value::Array(a) if a.len() == 2000 && a.iter().all(|x| *x == a[0]) => a[0].clone(),
                x => x.clone(),
            })
            .collect();
        if closed { json!({"k": "lost", "v": got}) } else { json!({"k": "events", "v": got}) }
    }
}
impl Machine for Subs {
    fn step(&mut self, a: &Value) -> Value {
        let ui = |k: &str| crate::u(a, k);
        match str_of(&a["op"]) {
            "connect" => {
                match Ws::open(self.addr, None) {
                    Ok(Ok(ws)) => self.conns.push(Some(Conn { ws, next: 0, early: vec![] })),
                    _ => return json!({"k": "down"}),
                }
                crate::done()
            }
            "sub" => {
                let kind = str_of(&a["kind"]).to_owned();
                let Some(r) = self.call(ui("c"), &format!("sub_{kind}"), json!([])) else { return json!({"k": "lost"}) };
                if r.get("error").is_some() {
                    return json!({"k": "rejected"});
                }
                self.subs.push(Sub { conn: ui("c"), id: r["result"].clone(), kind });
                crate::done()
            }
            "unsub" => {
                let (c, id, kind) = { let s = &self.subs[ui("i")]; (s.conn, s.id.clone(), s.kind.clone()) };
                // the server answers a subscription before it can be taken back: the client asks again for a while
                let up = self.source.lock().expect("driver: lock").is_some();
                let mut tries = if self.gone.insert(ui("i")) && up { 30 } else { 0 };
                let r = loop {
                    let r = self.call(c, &format!("unsub_{kind}"), json!([id]));
                    if tries == 0 || r.as_ref().is_none_or(|r| r["result"] == true) {
                        break r;
                    }
                    tries -= 1;
                    std::thread::sleep(Duration::from_millis(10));
                };
                match r {
                    Some(r) => json!({"k": "bool", "v": r["result"] == true}),
                    None => json!({"k": "lost"}),
                }
            }
            "close" => {
                // "abrupt": the connection just ends; otherwise with a closing handshake
                let mut c = self.conns[ui("c")].take().expect("driver: closed");
                if a["abrupt"] != true {
                    let _ = c.ws.send(8, &[3, 232]);
                    while let Ok(Some(_)) = c.ws.recv(patience(10)) {}
                }
                crate::done()
            }
            "cast" => {
                let mut s = self.source.lock().expect("driver: lock");
                let b = s.as_mut().expect("driver: source ended");
                for v in ui("v")..ui("v") + ui("n") {
                    b.broadcast(&(v as u64));
                }
                crate::done()
            }
            "end" => {
                *self.source.lock().expect("driver: lock") = None;
                crate::done()
            }
            "drain" => self.drain(ui("i"), ui("n"), ui("wait") as u64),
            "ping" => match self.call(ui("c"), "ping", json!([])) {
                Some(r) if r["result"] == "pong" => crate::done(),
                _ => json!({"k": "lost"}),
            },
            // subscribers the source still has after cleaning up: the closed ones go away by themselves
            "count" => {
                let want = ui("n");
                let mut got = 0;
                for _ in 0..200 {
                    {
                        let mut s = self.source.lock().expect("driver: lock");
                        let b = s.as_mut().expect("driver: source ended");
                        b.purge();
                        got = b.num_subscribers();
                    }
                    if got == want {
                        break;
                    }
                    std::thread::sleep(Duration::from_millis(10));
                }
                json!({"k": "num", "v": got})
            }
            o => panic!("driver: op {o}"),
        }
    }
}
impl Drop for Subs {
    fn drop(&mut self) {
        self.conns.clear();
        if let Some(s) = self.server.take() {
            self.rt.block_on(s.shutdown());
        }
    }
}
