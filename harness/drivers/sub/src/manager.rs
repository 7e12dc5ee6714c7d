//! A manager with several subsystems; everything runs until nothing moves after every action.
use crate::calls::{yields, Log};
use crate::u;
use drvlib::*;
use std::collections::BTreeMap;
use std::sync::Arc;
use std::time::Duration;
use subsystem::*;
use tokio::sync::{watch, Semaphore};
use utils::set_flag::SetFlag;

#[derive(Debug)]
struct Failed;
impl std::fmt::Display for Failed {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("failed")
    }
}
impl std::error::Error for Failed {}
/// How a gate is passed: 0 fine, 1 with an error, 2 with a panic.
struct Gate(Semaphore, std::sync::atomic::AtomicUsize);
impl Gate {
    fn new() -> Arc<Self> {
        Arc::new(Gate(Semaphore::new(0), Default::default()))
    }
    fn open(&self, how: usize) {
        self.1.store(how, std::sync::atomic::Ordering::SeqCst);
        self.0.add_permits(1);
    }
    async fn pass(&self) -> Result<(), Failed> {
        self.0.acquire().await.expect("driver: gate").forget();
        match self.1.load(std::sync::atomic::Ordering::SeqCst) {
            0 => Ok(()),
            1 => Err(Failed),
            _ => panic!("asked to"),
        }
    }
}
struct Sub {
    i: usize,
    log: Log,
    flag: watch::Receiver<SetFlag>,
    gate: Arc<Gate>,
    below: Vec<Handle<Sub>>, // the subsystems registered before this one
}
#[async_trait::async_trait]
impl Subsystem for Sub {
    type Interface = Self;
    fn interface_ref(&self) -> &Self {
        self
    }
    fn interface_mut(&mut self) -> &mut Self {
        self
    }
    async fn shutdown(self) {
        self.log.add(json!(["stopping", self.i, self.flag.borrow().test()]));
        let mut uses = vec![];
        for h in &self.below {
            // usable unless it has ended by itself or does not answer
            let r = tokio::select! {
                biased;
                r = h.call(|s| s.i) => if r.is_ok() { "ok" } else { "err" },
                _ = yields(10) => "wait",
            };
            uses.push(json!(r));
        }
        self.log.add(json!(["uses", self.i, uses]));
        self.gate.pass().await.expect("driver: gate");
        self.log.add(json!(["stopped", self.i]));
    }
}
pub struct Managers {
    rt: tokio::runtime::Runtime,
    log: Log,
    ans: Log,
    h: Vec<Handle<Sub>>,
    trig: Option<ShutdownTrigger>,
    init: Vec<Arc<Gate>>,
    stop: Vec<Arc<Gate>>,
    busy: BTreeMap<usize, Arc<Gate>>,
}
impl Managers {
    pub fn new() -> Self {
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().expect("driver: runtime");
        Managers { rt, log: Log::default(), ans: Log::default(), h: vec![], trig: None, init: vec![], stop: vec![], busy: BTreeMap::new() }
    }
    fn call(&self, i: usize, id: usize, kind: &str, gate: Option<Arc<Gate>>) {
        let ans = self.ans.clone();
        let f = move |i: usize| async move {
            if let Some(g) = gate {
                g.pass().await.expect("driver: gate");
            }
            i
        };
        let h = &self.h[i - 1];
        let _enter = self.rt.enter();
        let r = if kind == "mut" { h.call_async_mut(move |s| Box::pin(f(s.i))) } else { h.call_async(move |s| Box::pin(f(s.i))) };
        self.rt.spawn(async move {
            match r.await {
                Ok(v) => ans.add(json!([id, "ok", v])),
                Err(error::CallError::Submission(_)) => ans.add(json!([id, "closed", i])),
                Err(error::CallError::Response(_)) => ans.add(json!([id, "lost", i])),
            }
        });
    }
}
impl Machine for Managers {
    fn step(&mut self, a: &Value) -> Value {
        match str_of(&a["op"]) {
            "start" => {
                let mut c = ManagerConfig::new("m");
                let t = u(a, "timeout");
                c = if t == 0 { c.disable_shutdown_timeout() } else { c.with_shutdown_timeout_per_subsystem(Duration::from_secs(t as u64)) };
                let mut m = Manager::new_with_config(c);
                for i in 0..u(a, "n") {
                    let (g, gate) = (Gate::new(), Gate::new());
                    self.init.push(g.clone());
                    self.stop.push(gate.clone());
                    let (log, below) = (self.log.clone(), self.h.clone());
                    self.h.push(m.add_custom_subsystem("s", move |_, flag| async move {
                        g.pass().await?;
                        Ok::<_, Failed>(Sub { i: i + 1, log, flag, gate, below })
                    }));
                }
                self.trig = Some(m.make_shutdown_trigger());
                let log = self.log.clone();
                let main = {
                    let _enter = self.rt.enter();
                    self.rt.spawn(m.main())
                };
                self.rt.spawn(async move {
                    match main.await {
                        Ok(()) => log.add(json!(["over"])),
                        Err(_) => log.add(json!(["panicked"])),
                    }
                });
            }
            "init" => self.init[u(a, "i") - 1].open(u(a, "how")),
            "end" => self.stop[u(a, "i") - 1].open(u(a, "how")),
            "call" => self.call(u(a, "i"), u(a, "c"), str_of(&a["kind"]), None),
            "busy" => {
                let g = Gate::new();
                self.busy.insert(u(a, "c"), g.clone());
                self.call(u(a, "i"), u(a, "c"), str_of(&a["kind"]), Some(g));
            }
            "free" => self.busy[&u(a, "c")].open(u(a, "how")),
            "trigger" => self.trig.clone().expect("driver: trigger").initiate(),
            "pass" => self.rt.block_on(tokio::time::advance(Duration::from_secs(u(a, "t") as u64))),
            o => panic!("driver: op {o}"),
        }
        self.rt.block_on(yields(200));
        let mut ans = self.ans.take();
        ans.sort_by_key(|x| x[0].as_u64());
        json!({"k": "events", "ev": self.log.take(), "ans": ans})
    }
}
