//! One subsystem on a single-threaded runtime that runs until nothing moves after every action.
use crate::u;
use drvlib::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use subsystem::*;
use tokio::sync::Semaphore;

#[derive(Clone, Default)]
pub struct Log(Arc<Mutex<Vec<Value>>>);
impl Log {
    pub fn add(&self, v: Value) {
        self.0.lock().expect("driver: log").push(v)
    }
    pub fn take(&self) -> Vec<Value> {
        std::mem::take(&mut *self.0.lock().expect("driver: log"))
    }
}
impl Log {
    /// Whether every submitted call has ended.
    pub fn quiet(&self) -> bool {
        let l = self.0.lock().expect("driver: log");
        let n = |k: &str| l.iter().filter(|e| e[0] == k).count();
        n("sub") == n("end") + n("closed")
    }
}
/// The state is the list of the modifying calls that have been executed.
pub struct Sys {
    pub list: Vec<usize>,
    pub work: usize,
    pub log: Log,
}
#[async_trait::async_trait]
impl Subsystem for Sys {
    type Interface = Self;
    fn interface_ref(&self) -> &Self {
        self
    }
    fn interface_mut(&mut self) -> &mut Self {
        self
    }
    fn has_background_work(&self) -> bool {
        self.work > 0
    }
    fn perform_background_work_unit(&mut self) {
        self.work -= 1;
        self.log.add(json!(["work", self.work]));
    }
    async fn shutdown(self) {
        self.log.add(json!(["stop", self.list.len()]));
    }
}
impl Sys {
    /// A call begins: a modifying one is recorded and adds work.
    pub fn begin(&mut self, id: usize, work: usize) -> usize {
        self.list.push(id);
        self.work += work;
        self.log.add(json!(["begin", id, self.list.len()]));
        self.list.len()
    }
    pub fn look(&self, id: usize) -> usize {
        self.log.add(json!(["begin", id, self.list.len()]));
        self.list.len()
    }
    pub fn end(&self, id: usize) {
        self.log.add(json!(["end", id, self.list.len()]));
    }
}
pub fn answer(id: usize, r: Result<(usize, usize), error::CallError>) -> Value {
    match r {
        Ok((i, n)) => json!(["got", id, i, n]),
        Err(error::CallError::Submission(_)) => json!(["closed", id]),
        Err(error::CallError::Response(_)) => json!(["lost", id]),
    }
}
pub struct Calls {
    rt: tokio::runtime::Runtime,
    log: Log,
    h: Option<Handle<Sys>>,
    trig: Option<ShutdownTrigger>,
    init: Arc<Semaphore>,
    gates: BTreeMap<usize, Arc<Semaphore>>,
    waits: BTreeMap<usize, tokio::task::JoinHandle<()>>,
}
impl Calls {
    pub fn new() -> Self {
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().expect("driver: runtime");
        Calls { rt, log: Log::default(), h: None, trig: None, init: Arc::new(Semaphore::new(0)), gates: BTreeMap::new(), waits: BTreeMap::new() }
    }
    fn settle(&self) {
        self.rt.block_on(settle());
    }
    fn act(&mut self, a: &Value) {
        match str_of(&a["op"]) {
            "start" => {
                let mut m = Manager::new("m");
                let (log, init) = (self.log.clone(), self.init.clone());
                self.h = Some(m.add_custom_subsystem("s", move |_, _| async move {
                    init.acquire().await.expect("driver: gate").forget();
                    Ok::<_, std::convert::Infallible>(Sys { list: vec![], work: 0, log })
                }));
                self.trig = Some(m.make_shutdown_trigger());
                let log = self.log.clone();
                self.rt.spawn(async move {
                    m.main().await;
                    log.add(json!(["over", 0]));
                });
            }
            "ready" => self.init.add_permits(1),
            "submit" => {
                let id = u(a, "i");
                let gate = Arc::new(Semaphore::new(0));
                self.gates.insert(id, gate.clone());
                let work = u(a, "work");
                let h = self.h.as_ref().expect("driver: handle").clone();
                let form = str_of(&a["form"]);
                let so = h.as_submit_only().clone();
                let res: Result<(), error::SubmissionError> = match form {
                    "call_async_mut" | "call_async" | "call_mut" | "call" => {
                        let c: CallResult<(usize, usize)> = {
                            let _enter = self.rt.enter();
                            match form {
                                "call_async_mut" => h.call_async_mut(move |s| Box::pin(mutate(s, id, work, gate))),
                                "call_async" => h.call_async(move |s| Box::pin(view(s, id, gate))),
                                "call_mut" => h.call_mut(move |s| {
                                    let n = s.begin(id, work);
                                    s.end(id);
                                    (id, n)
                                }),
                                _ => h.call(move |s| {
                                    let n = s.look(id);
                                    s.end(id);
                                    (id, n)
                                }),
                            }
                        };
                        let log = self.log.clone();
                        match c.response() {
                            Ok(r) => {
                                let j = self.rt.spawn(async move {
                                    let r = r.await.map_err(Into::into);
                                    log.add(answer(id, r));
                                });
                                self.waits.insert(id, j);
                                Ok(())
                            }
                            Err(e) => Err(e),
                        }
                    }
                    "submit_async_mut" => so.submit_async_mut(move |s| Box::pin(async move { drop(mutate(s, id, work, gate).await) })),
                    "submit_async" => so.submit_async(move |s| Box::pin(async move { drop(view(s, id, gate).await) })),
                    "submit_mut" => so.submit_mut(move |s| {
                        s.begin(id, work);
                        s.end(id);
                    }),
                    "submit" => so.submit(move |s| {
                        s.look(id);
                        s.end(id);
                    }),
                    o => panic!("driver: form {o}"),
                };
                if res.is_err() {
                    self.log.add(json!(["closed", id]));
                }
            }
            "open" => self.gates[&u(a, "i")].add_permits(1),
            "forget" => {
                if let Some(j) = self.waits.remove(&u(a, "i")) {
                    j.abort();
                }
            }
            "stop" => self.trig.clone().expect("driver: trigger").initiate(),
            "batch" => {
                for x in a["acts"].as_array().expect("driver: acts") {
                    self.act(x);
                }
            }
            o => panic!("driver: op {o}"),
        }
    }
}
pub async fn settle() {
    yields(100).await
}
pub async fn yields(n: usize) {
    for _ in 0..n {
        tokio::task::yield_now().await;
    }
}
async fn mutate(s: &mut Sys, id: usize, work: usize, gate: Arc<Semaphore>) -> (usize, usize) {
    let n = s.begin(id, work);
    gate.acquire().await.expect("driver: gate").forget();
    s.end(id);
    (id, n)
}
async fn view(s: &Sys, id: usize, gate: Arc<Semaphore>) -> (usize, usize) {
    let n = s.look(id);
    gate.acquire().await.expect("driver: gate").forget();
    s.end(id);
    (id, n)
}
impl Machine for Calls {
    fn step(&mut self, a: &Value) -> Value {
        self.act(a);
        self.settle();
        json!({"k": "events", "ev": self.log.take()})
    }
}
