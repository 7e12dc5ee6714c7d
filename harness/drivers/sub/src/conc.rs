//! Free runs: callers in tasks and threads on a multi-threaded runtime; the log is the order of events.
use crate::calls::*;
use crate::u;
use drvlib::*;
use rand::{rngs::StdRng, RngExt, SeedableRng};
use subsystem::{blocking::BlockingHandle, *};

pub struct Conc;
async fn spin(n: usize) {
    for _ in 0..n {
        tokio::task::yield_now().await;
    }
}
impl Machine for Conc {
    fn step(&mut self, a: &Value) -> Value {
        assert!(a["op"] == "run", "driver: op");
        let (callers, calls, seed, work) = (u(a, "callers"), u(a, "calls"), u(a, "seed"), u(a, "work"));
        let stop = a["stop"] == true;
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(u(a, "threads")).enable_time().build().expect("driver: runtime");
        let log = Log::default();
        let mut m = Manager::new_with_config(ManagerConfig::new("m").disable_shutdown_timeout());
        let slog = log.clone();
        let h = m.add_subsystem("s", Sys { list: vec![], work: 0, log: slog });
        let trig = m.make_shutdown_trigger();
        let mlog = log.clone();
        let main = rt.spawn(async move {
            m.main().await;
            mlog.add(json!(["over", 0]));
        });
        let mut tasks = vec![];
        let mut threads = vec![];
        for c in 0..callers {
            let (h, log) = (h.clone(), log.clone());
            let mut r = StdRng::seed_from_u64((seed * 100 + c) as u64);
            if c % 3 == 2 {
                // a thread of its own with the blocking handle
                let b: BlockingHandle<Sys> = h.into();
                threads.push(std::thread::spawn(move || {
                    for k in 0..calls {
                        let id = 1 + c * calls + k;
                        let mutates = r.random_bool(0.5);
                        let x = if mutates { "blocking_mut" } else { "blocking" };
                        log.add(json!(["sub", id, x]));
                        let wait = r.random_range(0..3);
                        let res = match (mutates, r.random_bool(0.5)) {
                            (true, true) => b.call_mut(move |s| {
                                let n = s.begin(id, 0);
                                s.end(id);
                                (id, n)
                            }),
                            (true, false) => b.call_async_mut(move |s| Box::pin(mutating(s, id, wait))),
                            (false, true) => b.call(move |s| {
                                let n = s.look(id);
                                s.end(id);
                                (id, n)
                            }),
                            (false, false) => b.call_async(move |s| Box::pin(viewing(s, id, wait))),
                        };
                        log.add(answer(id, res));
                        log.add(json!(["sent", id]));
                    }
                }));
                continue;
            }
            tasks.push(rt.spawn(async move {
                let mut pending = vec![];
                for k in 0..calls {
                    let id = 1 + c * calls + k;
                    let wait = r.random_range(0..4);
                    let form = ["call_async_mut", "call_async", "call_mut", "call", "submit_async_mut", "submit_async", "submit_mut", "submit"][r.random_range(0..8)];
                    log.add(json!(["sub", id, form]));
                    let so = h.as_submit_only();
                    let sync_mut = move |s: &mut Sys| {
                        let n = s.begin(id, 0);
                        s.end(id);
                        (id, n)
                    };
                    let sync = move |s: &Sys| {
                        let n = s.look(id);
                        s.end(id);
                        (id, n)
                    };
                    let res = match form {
                        "call_async_mut" => Ok(h.call_async_mut(move |s| Box::pin(mutating(s, id, wait)))),
                        "call_async" => Ok(h.call_async(move |s| Box::pin(viewing(s, id, wait)))),
                        "call_mut" => Ok(h.call_mut(sync_mut)),
                        "call" => Ok(h.call(sync)),
                        "submit_async_mut" => Err(so.submit_async_mut(move |s| Box::pin(async move { drop(mutating(s, id, wait).await) }))),
                        "submit_async" => Err(so.submit_async(move |s| Box::pin(async move { drop(viewing(s, id, wait).await) }))),
                        "submit_mut" => Err(so.submit_mut(move |s| drop(sync_mut(s)))),
                        _ => Err(so.submit(move |s| drop(sync(s)))),
                    };
                    match res {
                        Ok(c) => {
                            let log = log.clone();
                            let wait_now = r.random_bool(0.4);
                            // the call is submitted already; its answer may be awaited now or later
                            log.add(json!(["sent", id]));
                            let f = async move {
                                let v = c.await;
                                log.add(answer(id, v));
                            };
                            if wait_now {
                                f.await
                            } else {
                                pending.push(tokio::spawn(f))
                            }
                        }
                        Err(e) => {
                            if e.is_err() {
                                log.add(json!(["closed", id]));
                            }
                            log.add(json!(["sent", id]));
                        }
                    }
                    spin(r.random_range(0..3)).await;
                }
                for p in pending {
                    p.await.expect("driver: answer");
                }
            }));
        }
        if work > 0 {
            // a call of its own that leaves work to do
            let id = 1 + callers * calls;
            log.add(json!(["sub", id, "submit_mut"]));
            let r = h.as_submit_only().submit_mut(move |s| {
                s.begin(id, 0);
                s.end(id);
            });
            assert!(r.is_ok());
            log.add(json!(["sent", id]));
        }
        let mut r = StdRng::seed_from_u64(seed as u64 + 7);
        rt.block_on(async {
            if stop {
                spin(r.random_range(0..30)).await;
                if r.random_bool(0.5) {
                    tokio::time::sleep(std::time::Duration::from_micros(r.random_range(0..500))).await;
                }
                log.add(json!(["ask"]));
                trig.clone().initiate();
            }
            for t in tasks {
                t.await.expect("driver: caller");
            }
        });
        for t in threads {
            t.join().expect("driver: caller");
        }
        if !stop {
            // everything submitted comes to an end: a last modifying call waits for all before it
            let t0 = std::time::Instant::now();
            loop {
                let done = rt.block_on(async { h.call_async_mut(|s| { let l = s.list.len(); Box::pin(async move { l }) }).await });
                drop(done);
                if log.quiet() || t0.elapsed().as_secs() > 5 {
                    break;
                }
                std::thread::sleep(std::time::Duration::from_millis(1));
            }
            let ev = log.take();
            trig.initiate();
            rt.block_on(main).expect("driver: manager");
            return json!({"k": "events", "ev": ev});
        }
        rt.block_on(main).expect("driver: manager");
        json!({"k": "events", "ev": log.take()})
    }
}
async fn mutating(s: &mut Sys, id: usize, wait: usize) -> (usize, usize) {
    let n = s.begin(id, 0);
    spin(wait).await;
    s.end(id);
    (id, n)
}
async fn viewing(s: &Sys, id: usize, wait: usize) -> (usize, usize) {
    let n = s.look(id);
    spin(wait).await;
    s.end(id);
    (id, n)
}
