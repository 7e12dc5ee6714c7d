//! Transactions of several threads: under the control of the caller, or running freely with a log of what happened.
use drvlib::*;
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::sync::{Arc, Barrier, Mutex, RwLock};
use std::time::Duration;
use storage_core::backend::{BackendImpl, ReadOps, SharedBackendImpl, TxRw, WriteOps};
use storage_core::DbMapId;

#[derive(Clone)]
pub enum Kind {
    Shared(Arc<storage_inmemory::InMemoryImpl>),
    Locked(Arc<RwLock<storage_sqlite::SqliteImpl>>),
}
fn get(t: &impl ReadOps, m: usize, k: u8) -> u64 {
    match t.get(DbMapId::new(m), &[k]).expect("get") {
        Some(v) => u64::from_le_bytes(v.as_ref().try_into().expect("driver: value")),
        None => 0,
    }
}
fn scan(t: &impl ReadOps, m: usize, k: u8) -> u64 {
    let mut it = t.prefix_iter(DbMapId::new(m), vec![k]).expect("scan");
    it.next().map_or(0, |(_, v)| u64::from_le_bytes(v.try_into().expect("driver: value")))
}
fn put(t: &mut impl WriteOps, m: usize, k: u8, v: u64) {
    t.put(DbMapId::new(m), vec![k], v.to_le_bytes().to_vec()).expect("put")
}
/// Runs the body in a transaction; it says whether to commit.
fn with_rw(db: &Kind, called: impl FnOnce(), body: impl FnOnce(&mut dyn FnMut(Op) -> Value) -> bool, ending: impl FnOnce(bool)) {
    fn inner<T: TxRw>(mut t: T, body: impl FnOnce(&mut dyn FnMut(Op) -> Value) -> bool, ending: impl FnOnce(bool)) {
        let c = body(&mut |o| match o {
            Op::Get(m, k) => json!(get(&t, m, k)),
            Op::Scan(m, k) => json!(scan(&t, m, k)),
            Op::Put(m, k, v) => {
                put(&mut t, m, k, v);
                json!("ok")
            }
        });
        ending(c);
        if c {
            t.commit().expect("commit")
        }
    }
    called();
    match db {
        Kind::Shared(d) => inner(SharedBackendImpl::transaction_rw(d.as_ref(), None).expect("begin"), body, ending),
        Kind::Locked(d) => inner(d.write().expect("lock").transaction_rw(None).expect("begin"), body, ending),
    }
}
fn with_ro(db: &Kind, called: impl FnOnce(), body: impl FnOnce(&mut dyn FnMut(Op) -> Value)) {
    fn inner<T: ReadOps>(t: T, body: impl FnOnce(&mut dyn FnMut(Op) -> Value)) {
        body(&mut |o| match o {
            Op::Get(m, k) => json!(get(&t, m, k)),
            Op::Scan(m, k) => json!(scan(&t, m, k)),
            Op::Put(..) => panic!("driver: put in reader"),
        })
    }
    called();
    match db {
        Kind::Shared(d) => inner(d.transaction_ro().expect("begin"), body),
        Kind::Locked(d) => inner(d.read().expect("lock").transaction_ro().expect("begin"), body),
    }
}
pub enum Op {
    Get(usize, u8),
    Scan(usize, u8),
    Put(usize, u8, u64),
}

struct Worker {
    tx: Sender<Value>,
    rx: Receiver<Value>,
}
fn worker(db: Kind) -> Worker {
    let (tx, cmds) = channel::<Value>();
    let (out, rx) = channel::<Value>();
    std::thread::spawn(move || {
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let next = || cmds.recv().ok();
            while let Some(c) = next() {
                let say = |v: Value| {
                    let _ = out.send(v);
                };
                let serve = |run: &mut dyn FnMut(Op) -> Value| -> bool {
                    say(json!({"k": "ok"}));
                    loop {
                        let Some(c) = next() else { return false };
                        let i = |k: &str| c[k].as_u64().expect("driver: number");
                        match str_of(&c["what"]) {
                            "get" => {
                                let v = run(Op::Get(i("m") as usize, i("key") as u8));
                                let w = run(Op::Scan(i("m") as usize, i("key") as u8));
                                say(if v == w { json!({"k": "val", "v": v}) } else { json!({"k": "get and scan differ"}) })
                            }
                            "put" => {
                                run(Op::Put(i("m") as usize, i("key") as u8, i("v")));
                                say(json!({"k": "ok"}))
                            }
                            "commit" => return true,
                            "abort" | "end" => return false,
                            o => panic!("driver: {o}"),
                        }
                    }
                };
                match str_of(&c["what"]) {
                    "rw" => with_rw(&db, || (), |r| serve(r), |_| ()),
                    "ro" => with_ro(&db, || (), |r| {
                        serve(r);
                    }),
                    o => panic!("driver: {o}"),
                }
                say(json!({"k": "ok"}));
            }
        }));
    });
    Worker { tx, rx }
}

pub struct Conc {
    db: Kind,
    w: Vec<Worker>,
}
impl Conc {
    pub fn new(db: Kind) -> Self {
        Conc { db, w: vec![] }
    }
}
impl Machine for Conc {
    fn step(&mut self, a: &Value) -> Value {
        match str_of(&a["op"]) {
            // wait: 0 means that the answer is expected soon, otherwise the time after which it counts as blocked
            "do" | "wait" => {
                let t = a["t"].as_u64().expect("driver: t") as usize;
                while self.w.len() <= t {
                    self.w.push(worker(self.db.clone()));
                }
                if a["op"] == "do" {
                    self.w[t].tx.send(a.clone()).expect("driver: worker gone");
                }
                let d = if a["block"].as_bool() == Some(true) { Duration::from_millis(15) } else { patience(20) };
                match self.w[t].rx.recv_timeout(d) {
                    Ok(v) => v,
                    Err(RecvTimeoutError::Timeout) => {
                        if a["block"].as_bool() != Some(true) {
                            lost();
                        }
                        json!({"k": "blocked"})
                    }
                    Err(_) => json!({"k": "panic"}),
                }
            }
            "stress" => stress(&self.db, a),
            o => panic!("driver: op {o}"),
        }
    }
}

/// Free-running threads; the log is in real-time order: "call" entries precede the call, the others follow the return.
fn stress(db: &Kind, a: &Value) -> Value {
    let n = a["threads"].as_u64().expect("driver: threads") as usize;
    let iters = a["iters"].as_u64().expect("driver: iters");
    let seed = a["seed"].as_u64().expect("driver: seed");
    let log = Mutex::new(Vec::<Value>::new());
    let gate = Barrier::new(n);
    let bad = Mutex::new(Vec::<String>::new());
    std::thread::scope(|s| {
        for t in 0..n {
            let (log, gate, bad) = (&log, &gate, &bad);
            s.spawn(move || {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(t as u64 + 1);
                    let mut rnd = move |m: u64| {
                        x ^= x << 13;
                        x ^= x >> 7;
                        x ^= x << 17;
                        (x >> 11) % m
                    };
                    let say = |v: Value| log.lock().expect("log").push(v);
                    gate.wait();
                    for _ in 0..iters {
                        let steps: Vec<(u64, usize, u8, u64)> = (0..1 + rnd(4)).map(|_| (rnd(4), rnd(2) as usize, rnd(2) as u8, rnd(3))).collect();
                        let pause = |p: u64| match p {
                            0 => std::thread::yield_now(),
                            1 => std::thread::sleep(Duration::from_micros(50)),
                            _ => (),
                        };
                        if rnd(5) < 3 {
                            let commit = rnd(5) > 0;
                            with_rw(
                                db,
                                || say(json!({"e": "rw_call", "t": t})),
                                |run| {
                                    say(json!({"e": "rw", "t": t}));
                                    for (w, m, k, p) in &steps {
                                        let v = run(if p % 2 == 0 { Op::Get(*m, *k) } else { Op::Scan(*m, *k) });
                                        say(json!({"e": "get", "t": t, "m": m, "key": k, "v": v}));
                                        pause(*p);
                                        if *w > 0 {
                                            let v = v.as_u64().expect("driver: v") + 1;
                                            run(Op::Put(*m, *k, v));
                                            say(json!({"e": "put", "t": t, "m": m, "key": k, "v": v}));
                                        }
                                    }
                                    commit
                                },
                                |c| say(json!({"e": if c { "commit" } else { "abort" }, "t": t})),
                            );
                            say(json!({"e": "rw_end", "t": t}));
                        } else {
                            with_ro(
                                db,
                                || say(json!({"e": "ro_call", "t": t})),
                                |run| {
                                    say(json!({"e": "ro", "t": t}));
                                    for (_, m, k, p) in &steps {
                                        let v = run(if p % 2 == 0 { Op::Get(*m, *k) } else { Op::Scan(*m, *k) });
                                        say(json!({"e": "get", "t": t, "m": m, "key": k, "v": v}));
                                        pause(*p);
                                    }
                                },
                            );
                            say(json!({"e": "ro_end", "t": t}));
                        }
                    }
                }));
                if let Err(e) = r {
                    bad.lock().expect("bad").push(panic_text(e));
                }
            });
        }
    });
    let bad = bad.into_inner().expect("bad");
    if !bad.is_empty() {
        return json!({"k": "panic", "msg": bad[0]});
    }
    json!({"k": "log", "log": log.into_inner().expect("log")})
}
