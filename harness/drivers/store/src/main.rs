mod conc;
use drvlib::*;
use std::path::PathBuf;
use storage_core::backend::{Backend, BackendImpl, ReadOps, TxRw, WriteOps};
use storage_core::{DbDesc, DbMapDesc, DbMapId};

pub fn desc(n: usize) -> DbDesc {
    storage_core::types::construct::db_desc((0..n).map(|i| DbMapDesc::new(format!("map{i}"))))
}
pub fn pairs(it: impl Iterator<Item = (Vec<u8>, Vec<u8>)>) -> Value {
    Value::Array(it.map(|(k, v)| json!([bytes(k), bytes(v)])).collect())
}
fn fail(e: storage_core::Error) -> Value {
    err(if e.is_recoverable() { "recoverable" } else { "fatal" })
}
pub fn reads(t: &impl ReadOps, a: &Value) -> Value {
    let m = DbMapId::new(a["m"].as_u64().expect("driver: map") as usize);
    let r = || -> storage_core::Result<Value> {
        Ok(match str_of(&a["op"]) {
            "get" => match t.get(m, &get_bytes(&a["key"]))? {
                Some(v) => json!({"k": "some", "v": bytes(v)}),
                None => json!({"k": "none"}),
            },
            "prefix" => json!({"k": "list", "v": pairs(t.prefix_iter(m, get_bytes(&a["key"]))?)}),
            "from" => json!({"k": "list", "v": pairs(t.greater_equal_iter(m, get_bytes(&a["key"]))?)}),
            o => panic!("driver: op {o}"),
        })
    };
    r().unwrap_or_else(fail)
}
/// All answers about the keys given: the whole observable content.
pub fn view(t: &impl ReadOps, n: usize, keys: &[Value]) -> Value {
    let one = |m: usize, op: &str, k: &Value| reads(t, &json!({"op": op, "m": m, "key": k}));
    let all = |op: &str| -> Vec<Value> { (0..n).map(|m| keys.iter().map(|k| one(m, op, k)).collect()).collect() };
    json!({"get": all("get"), "prefix": all("prefix"), "from": all("from")})
}

/// One open database. Transactions borrow the database, which stays put in its box until they are gone.
struct Open<I: BackendImpl + 'static> {
    rw: Option<<I as BackendImpl>::TxRw<'static>>,
    ros: Vec<Option<<I as BackendImpl>::TxRo<'static>>>,
    db: Box<I>,
}
struct Store<B: Backend> {
    make: Box<dyn Fn() -> B>,
    maps: usize,
    open: Option<Open<B::Impl>>,
    keys: Vec<Value>,
    _dir: Option<Dir>,
}
pub struct Dir(pub PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
impl<B: Backend> Store<B>
where
    B::Impl: 'static,
{
    fn do_open(&mut self) -> Value {
        match (self.make)().open(desc(self.maps)) {
            Ok(db) => {
                self.open = Some(Open { rw: None, ros: (0..3).map(|_| None).collect(), db: Box::new(db) });
                json!({"k": "ok"})
            }
            Err(e) => fail(e),
        }
    }
    fn act(&mut self, a: &Value) -> Value {
        let op = str_of(&a["op"]);
        let done = json!({"k": "ok"});
        if op == "open" {
            return self.do_open();
        }
        if op == "close" {
            let o = self.open.as_mut().expect("driver: open");
            o.rw = None;
            o.ros.clear();
            self.open = None;
            return done;
        }
        let o = self.open.as_mut().expect("driver: open");
        match op {
            "begin" => {
                assert!(o.rw.is_none() && o.ros.iter().all(Option::is_none), "driver: transaction open");
                // the box outlives the transaction: both are dropped in "close" or with the store, transaction first
                let db: &'static mut B::Impl = unsafe { &mut *(o.db.as_mut() as *mut B::Impl) };
                match db.transaction_rw(None) {
                    Ok(t) => o.rw = Some(t),
                    Err(e) => return fail(e),
                }
                done
            }
            "put" | "del" => {
                let t = o.rw.as_mut().expect("driver: no transaction");
                let m = DbMapId::new(a["m"].as_u64().expect("driver: map") as usize);
                let r = if op == "put" { t.put(m, get_bytes(&a["key"]), get_bytes(&a["val"])) } else { t.del(m, &get_bytes(&a["key"])) };
                match r {
                    Ok(()) => done,
                    Err(e) => fail(e),
                }
            }
            "commit" => match o.rw.take().expect("driver: no transaction").commit() {
                Ok(()) => done,
                Err(e) => fail(e),
            },
            "abort" => {
                o.rw = None;
                done
            }
            "ro" => {
                assert!(o.rw.is_none(), "driver: transaction open");
                let i = a["i"].as_u64().expect("driver: i") as usize;
                let db: &'static B::Impl = unsafe { &*(o.db.as_ref() as *const B::Impl) };
                match db.transaction_ro() {
                    Ok(t) => o.ros[i] = Some(t),
                    Err(e) => return fail(e),
                }
                done
            }
            "ro_end" => {
                o.ros[a["i"].as_u64().expect("driver: i") as usize] = None;
                done
            }
            "get" | "prefix" | "from" => match a.get("i") {
                Some(i) if i.as_u64() != Some(9) => reads(o.ros[i.as_u64().expect("driver: i") as usize].as_ref().expect("driver: no reader"), a),
                _ => match &o.rw {
                    Some(t) => reads(t, a),
                    None => match o.db.transaction_ro() {
                        Ok(t) => reads(&t, a),
                        Err(e) => fail(e),
                    },
                },
            },
            o => panic!("driver: op {o}"),
        }
    }
}
impl<B: Backend> Machine for Store<B>
where
    B::Impl: 'static,
{
    fn setup(&mut self, r: &Value) {
        self.maps = r["maps"].as_u64().unwrap_or(2) as usize;
        if let Some(k) = r["keys"].as_array() {
            self.keys = k.clone();
        }
        if r["closed"].as_bool() != Some(true) {
            let o = self.do_open();
            assert!(o["k"] == "ok", "driver: open failed {o}");
        }
    }
    fn step(&mut self, a: &Value) -> Value {
        let mut r = self.act(a);
        if !self.keys.is_empty() {
            if let Some(o) = &self.open {
                let v = match (&o.rw, o.ros.iter().flatten().next()) {
                    (Some(t), _) => view(t, self.maps, &self.keys),
                    (None, Some(t)) => view(t, self.maps, &self.keys),
                    _ => match o.db.transaction_ro() {
                        Ok(t) => view(&t, self.maps, &self.keys),
                        Err(e) => fail(e),
                    },
                };
                r["view"] = v;
            }
        }
        r
    }
}
impl<B: Backend> Drop for Store<B> {
    fn drop(&mut self) {
        if let Some(mut o) = self.open.take() {
            o.rw = None;
            o.ros.clear();
        }
    }
}

pub fn scratch() -> Dir {
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    static N: AtomicUsize = AtomicUsize::new(0);
    let base = std::env::var("DRV_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    let d = base.join(format!("drv-store-{}-{}", std::process::id(), N.fetch_add(1, SeqCst)));
    std::fs::create_dir_all(&d).expect("driver: scratch");
    Dir(d)
}
fn store<B: Backend + 'static>(dir: Option<Dir>, make: impl Fn() -> B + 'static) -> Box<dyn Machine>
where
    B::Impl: 'static,
{
    Box::new(Store { make: Box::new(make), maps: 2, open: None, keys: vec![], _dir: dir })
}
fn sqlite(p: PathBuf, fsync: bool) -> storage_sqlite::Sqlite {
    storage_sqlite::Sqlite::new(p).with_options(storage_sqlite::Options { disable_fsync: !fsync })
}
fn main() {
    serve(|m| match m {
        "inmemory" => store(None, storage_inmemory::InMemory::new),
        "sqlite-mem" => store(None, storage_sqlite::Sqlite::new_in_memory),
        "sqlite" => {
            let d = scratch();
            let p = d.0.join("sub").join("db.sqlite");
            store(Some(d), move || sqlite(p.clone(), false))
        }
        // a database that survives this process
        "sqlite-at" => {
            let p = PathBuf::from(std::env::args().nth(2).expect("driver: path"));
            store(None, move || sqlite(p.clone(), true))
        }
        "conc-inmemory" => Box::new(conc::Conc::new(conc::Kind::Shared(std::sync::Arc::new(storage_inmemory::InMemory::new().open(desc(2)).expect("open"))))),
        "conc-sqlite" => Box::new(conc::Conc::new(conc::Kind::Locked(std::sync::Arc::new(std::sync::RwLock::new(storage_sqlite::Sqlite::new_in_memory().open(desc(2)).expect("open")))))),
        o => panic!("driver: module {o}"),
    });
}
