//! Event handlers and counters used from several threads; every event is logged in real-time order.
use crate::u;
use drvlib::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};
use utils::blockuntilzero::BlockUntilZero;
use utils::counttracker::CountTracker;
use utils::eventhandler::EventsController;

#[derive(Default)]
pub struct Log {
    v: Mutex<Vec<Value>>,
    c: Condvar,
}
impl Log {
    fn put(&self, e: Value) {
        self.v.lock().expect("log").push(e);
        self.c.notify_all();
    }
    fn until(&self, limit: Duration, ok: impl Fn(&[Value]) -> bool) -> bool {
        let end = Instant::now() + limit;
        let mut g = self.v.lock().expect("log");
        loop {
            if ok(&g) {
                return true;
            }
            let now = Instant::now();
            if now >= end {
                lost();
                return false;
            }
            g = self.c.wait_timeout(g, end - now).expect("log").0;
        }
    }
    fn count(v: &[Value], e: &str) -> usize {
        v.iter().filter(|x| x["e"] == e).count()
    }
    fn all(&self) -> Value {
        json!({"k": "log", "log": *self.v.lock().expect("log")})
    }
}

/// A gate that lets handlers pass one at a time, or all.
#[derive(Default)]
struct Gate(Mutex<u64>, Condvar);
impl Gate {
    fn open(&self, n: u64) {
        *self.0.lock().expect("gate") += n;
        self.1.notify_all();
    }
    fn pass(&self) {
        let mut g = self.0.lock().expect("gate");
        while *g == 0 {
            g = self.1.wait(g).expect("gate");
        }
        *g -= 1;
    }
}
pub struct Events;
impl Events {
    pub fn new() -> Self {
        Events
    }
}
impl Machine for Events {
    /// {"op":"run","plan":[{sub gated} | {pub} | {gate n} | {wait}],"pubs":[[..],[..]]}
    fn step(&mut self, a: &Value) -> Value {
        let log = Arc::new(Log::default());
        let gate = Arc::new(Gate::default());
        let mut c = EventsController::<u64>::new();
        let (mut nsub, mut nwait, mut jobs) = (0u64, 0u64, 0usize);
        let mut next = 0u64;
        let plan = a["plan"].as_array().expect("driver: plan");
        // registration needs exclusive access: phases of registering are followed by phases of sharing
        for phase in plan {
            for s in phase["subs"].as_array().expect("driver: subs") {
                let (h, gated) = (nsub, s["gated"] == true);
                nsub += 1;
                let (l, g) = (log.clone(), gate.clone());
                log.put(json!({"e": "sub", "h": h, "v": 0, "t": 0}));
                c.subscribe_to_events(Arc::new(move |e: u64| {
                    l.put(json!({"e": "start", "h": h, "v": e, "t": 0}));
                    if gated {
                        g.pass()
                    }
                    l.put(json!({"e": "fin", "h": h, "v": e, "t": 0}));
                }));
            }
            if c.subscribers().len() as u64 != nsub {
                return json!({"k": "lost subscriber"});
            }
            std::thread::scope(|sc| {
                for (p, acts) in phase["threads"].as_array().expect("driver: threads").iter().enumerate() {
                    let base = next;
                    let acts = acts.as_array().expect("driver: acts");
                    next += acts.len() as u64;
                    let pubs = acts.iter().filter(|x| x["op"] == "pub").count();
                    jobs += pubs * nsub as usize;
                    let wbase = nwait;
                    nwait += acts.len() as u64;
                    let (log, gate, c) = (&log, &gate, &c);
                    sc.spawn(move || {
                        for (i, x) in acts.iter().enumerate() {
                            match str_of(&x["op"]) {
                                "pub" => {
                                    let v = base + i as u64;
                                    log.put(json!({"e": "pub", "v": v, "t": p, "h": 0}));
                                    c.broadcast(v);
                                    log.put(json!({"e": "pubd", "v": v, "t": p, "h": 0}));
                                }
                                "open" => gate.open(u(x, "n") as u64),
                                "pause" => std::thread::sleep(Duration::from_millis(u(x, "n") as u64)),
                                "wait" => {
                                    let w = wbase + i as u64;
                                    log.put(json!({"e": "wait", "v": w, "t": p, "h": 0}));
                                    c.wait_for_all_events();
                                    log.put(json!({"e": "waited", "v": w, "t": p, "h": 0}));
                                }
                                o => panic!("driver: op {o}"),
                            }
                        }
                    });
                }
            });
        }
        gate.open(1 << 40);
        let ok = log.until(patience(20), |v| Log::count(v, "fin") >= jobs);
        log.put(json!({"e": "wait", "v": nwait, "t": 0, "h": 0}));
        c.wait_for_all_events();
        log.put(json!({"e": "waited", "v": nwait, "t": 0, "h": 0}));
        if ok {
            std::thread::sleep(Duration::from_millis(2));
        }
        log.put(json!({"e": "quiet", "h": 0, "v": 0, "t": 0}));
        log.all()
    }
}

type Counter = BlockUntilZero<std::sync::atomic::AtomicI32>;
type Guard = CountTracker<std::sync::atomic::AtomicI32>;
pub struct Count {
    c: Arc<Counter>,
    held: BTreeMap<u64, Guard>,
    log: Arc<Log>,
    waits: u64,
}
impl Count {
    pub fn new() -> Self {
        Count { c: Arc::new(BlockUntilZero::new()), held: BTreeMap::new(), log: Arc::default(), waits: 0 }
    }
    /// Whether the waits have returned; with nothing outstanding they are given time to.
    fn state(&mut self, o: Value) -> Value {
        let n = self.waits as usize;
        if self.held.is_empty() {
            self.log.until(patience(10), |v| v.len() >= n);
        } else if n > 0 {
            std::thread::sleep(Duration::from_millis(13));
        }
        let m = self.log.v.lock().expect("log").len();
        json!({"k": "ok", "v": o, "back": m})
    }
}
impl Machine for Count {
    fn step(&mut self, a: &Value) -> Value {
        match str_of(&a["op"]) {
            "inc" => {
                let g = self.c.count_one();
                let v = g.value();
                self.held.insert(u(a, "i") as u64, g);
                self.state(json!(v))
            }
            "dec" => {
                drop(self.held.remove(&(u(a, "i") as u64)).expect("driver: guard"));
                let v = self.held.values().next().map_or_else(|| self.c.value(), |g| g.value());
                self.state(json!(v))
            }
            "wait" => {
                let (c, l) = (self.c.clone(), self.log.clone());
                std::thread::spawn(move || {
                    c.wait_for_zero();
                    drop(c);
                    l.put(json!("returned"));
                });
                self.waits += 1;
                let v = self.c.value();
                self.state(json!(v))
            }
            // the counter itself goes away: that waits as well
            "drop" => {
                let (c, l) = (std::mem::replace(&mut self.c, Arc::new(BlockUntilZero::new())), self.log.clone());
                let v = c.value();
                std::thread::spawn(move || {
                    drop(c);
                    l.put(json!("returned"));
                });
                self.waits += 1;
                self.state(json!(v))
            }
            "stress" => self.stress(a),
            o => panic!("driver: op {o}"),
        }
    }
}
impl Drop for Count {
    fn drop(&mut self) {
        self.held.clear();
    }
}
impl Count {
    fn stress(&mut self, a: &Value) -> Value {
        let log = Arc::new(Log::default());
        let c = Arc::new(Counter::new());
        let stop = patience(20);
        let hs: Vec<_> = a["threads"]
            .as_array()
            .expect("driver: threads")
            .iter()
            .cloned()
            .enumerate()
            .map(|(t, acts)| {
                let (log, c) = (log.clone(), c.clone());
                std::thread::spawn(move || {
                    let mut held = vec![];
                    let put = |e: &str, v: i64| log.put(json!({"e": e, "t": t, "v": v}));
                    for x in acts.as_array().expect("driver: acts") {
                        match str_of(x) {
                            "inc" => {
                                put("inc", 0);
                                held.push(c.count_one());
                                put("incd", 0);
                            }
                            "dec" => {
                                if let Some(g) = held.pop() {
                                    put("dec", 0);
                                    drop(g);
                                    put("decd", 0);
                                }
                            }
                            "val" => {
                                put("val", 0);
                                let v = held.last().map_or_else(|| c.value(), |g| g.value());
                                put("vald", v as i64);
                            }
                            "wait" => {
                                if held.is_empty() {
                                    put("wait", 0);
                                    c.wait_for_zero();
                                    put("waited", 0);
                                }
                            }
                            "pause" => std::thread::sleep(Duration::from_micros(700)),
                            o => panic!("driver: {o}"),
                        }
                    }
                    for g in held {
                        put("dec", 0);
                        drop(g);
                        put("decd", 0);
                    }
                    put("end", 0);
                })
            })
            .collect();
        let n = hs.len();
        if !log.until(stop, |v| Log::count(v, "end") == n) {
            return json!({"k": "stuck", "log": *log.v.lock().expect("log")});
        }
        for h in hs {
            let _ = h.join();
        }
        log.all()
    }
}
