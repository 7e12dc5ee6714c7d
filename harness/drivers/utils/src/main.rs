mod conc;
use drvlib::*;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::{pin, Pin};
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use utils::atomics::*;

pub fn u(a: &Value, k: &str) -> usize {
    a[k].as_u64().expect("driver: number") as usize
}
fn done() -> Value {
    json!({"k": "ok"})
}

// ------------------------------------------------------------------ graph traversal
struct Graph;
impl Machine for Graph {
    fn step(&mut self, a: &Value) -> Value {
        let list = |v: &Value| -> Vec<u64> { v.as_array().expect("driver: list").iter().map(|x| x.as_u64().expect("driver: node")).collect() };
        let g: Vec<Vec<u64>> = a["g"].as_array().expect("driver: graph").iter().map(list).collect();
        let roots = list(&a["roots"]);
        let children = move |n: &u64| g[*n as usize - 1].clone();
        let cap = 1000;
        let v: Vec<u64> = match str_of(&a["op"]) {
            "multi" => utils::graph_traversals::dag_depth_postorder_multiroot(roots, children).take(cap).collect(),
            "one" => utils::graph_traversals::dag_depth_postorder(roots[0], children).take(cap).collect(),
            o => panic!("driver: op {o}"),
        };
        if v.len() == cap { json!({"k": "endless"}) } else { json!({"k": "list", "v": v}) }
    }
}

// ------------------------------------------------------------------ small state holders
trait Cellular {
    fn act(&self, f: &str, x: &[u8], y: &[u8]) -> Value;
}
trait Prim: Copy + PartialEq + std::fmt::Debug + 'static {
    fn read(b: &[u8]) -> Self;
    fn show(self) -> Value;
    fn plus(self, o: Self) -> Self;
}
macro_rules! prim {
    ($($t:ty),*) => {$(impl Prim for $t {
        fn read(b: &[u8]) -> Self { Self::from_le_bytes(b.try_into().expect("driver: width")) }
        fn show(self) -> Value { bytes(self.to_le_bytes()) }
        fn plus(self, o: Self) -> Self { self.wrapping_add(o) }
    })*};
}
prim!(i8, u8, i16, u16, i32, u32, i64, u64, isize, usize);
impl Prim for bool {
    fn read(b: &[u8]) -> Self { b[0] != 0 }
    fn show(self) -> Value { bytes([self as u8]) }
    fn plus(self, o: Self) -> Self { self ^ o }
}
struct Num<T: atomic_traits::HasStdAtomic, O>(Atomic<T, O>);
struct Flag<O>(Atomic<bool, O>);
fn res<T: Prim>(r: Result<T, T>) -> Value {
    match r {
        Ok(v) => json!({"k": "ok", "v": v.show()}),
        Err(v) => json!({"k": "err", "v": v.show()}),
    }
}
fn val<T: Prim>(v: T) -> Value {
    json!({"k": "val", "v": v.show()})
}
fn common<T: Prim + atomic_traits::HasStdAtomic, O: Orderings>(c: &Atomic<T, O>, f: &str, x: T, y: T) -> Value
where
    T::AtomicType: AtomicTrait<Type = T> + From<T>,
{
    match f {
        "load" => val(c.load()),
        "store" => {
            c.store(x);
            done()
        }
        "swap" => val(c.swap(x)),
        "cas" => res(c.compare_exchange(x, y)),
        "casw" => res(c.compare_exchange_weak(x, y)),
        "update" => res(c.fetch_update(|v| (v != y).then(|| v.plus(x)))),
        "and" => val(c.fetch_and(x)),
        "nand" => val(c.fetch_nand(x)),
        "or" => val(c.fetch_or(x)),
        "xor" => val(c.fetch_xor(x)),
        "inner" => val(AtomicTrait::load(c.inner(), std::sync::atomic::Ordering::SeqCst)),
        o => panic!("driver: op {o}"),
    }
}
impl<T: Prim + atomic_traits::HasStdAtomic, O: Orderings> Cellular for Num<T, O>
where
    T::AtomicType: AtomicNumTrait<Type = T> + From<T>,
{
    fn act(&self, f: &str, x: &[u8], y: &[u8]) -> Value {
        let (p, q) = (T::read(x), T::read(y));
        match f {
            "add" => val(self.0.fetch_add(p)),
            "sub" => val(self.0.fetch_sub(p)),
            "max" => val(self.0.fetch_max(p)),
            "min" => val(self.0.fetch_min(p)),
            _ => common(&self.0, f, p, q),
        }
    }
}
impl<O: Orderings> Cellular for Flag<O> {
    fn act(&self, f: &str, x: &[u8], y: &[u8]) -> Value {
        common(&self.0, f, bool::read(x), bool::read(y))
    }
}
fn make<O: Orderings + 'static>(ty: &str, how: &str, v: &[u8]) -> Box<dyn Cellular> {
    fn b<T: Prim + Default + atomic_traits::HasStdAtomic, O: Orderings>(how: &str, v: &[u8]) -> Atomic<T, O>
    where
        T::AtomicType: AtomicTrait<Type = T> + From<T>,
    {
        match how {
            "new" => Atomic::new(T::read(v)),
            "from" => T::read(v).into(),
            _ => Default::default(),
        }
    }
    macro_rules! n {
        ($($s:literal $t:ty),*) => { match ty {
            $($s => Box::new(Num::<$t, O>(b(how, v))) as Box<dyn Cellular>,)*
            "bool" => Box::new(Flag::<O>(b(how, v))),
            o => panic!("driver: type {o}"),
        } };
    }
    n!("i8" i8, "u8" u8, "i16" i16, "u16" u16, "i32" i32, "u32" u32, "i64" i64, "u64" u64, "isize" isize, "usize" usize)
}
type Destructor = utils::once_destructor::OnceDestructor<Box<dyn FnOnce()>>;
struct Holders {
    flag: utils::set_flag::SetFlag,
    arr: Option<utils::array_2d::Array2d<u64>>,
    at: Option<Box<dyn Cellular>>,
    runs: Rc<Cell<u64>>,
    held: BTreeMap<u64, Destructor>,
}
impl Holders {
    fn new() -> Self {
        Holders { flag: utils::set_flag::SetFlag::new(), arr: None, at: None, runs: Rc::default(), held: BTreeMap::new() }
    }
}
impl Machine for Holders {
    fn step(&mut self, a: &Value) -> Value {
        let n = |k: &str| u(a, k);
        match str_of(&a["op"]) {
            "flag_new" => {
                self.flag = utils::set_flag::SetFlag::new();
                done()
            }
            "flag_test" => json!({"k": "bool", "v": self.flag.test()}),
            "flag_set" => {
                self.flag.set();
                done()
            }
            "flag_tas" => json!({"k": "bool", "v": self.flag.test_and_set()}),
            "arr_new" => {
                self.arr = Some(utils::array_2d::Array2d::new(n("r"), n("c"), n("v") as u64));
                done()
            }
            "arr_get" => json!({"k": "num", "v": self.arr.as_ref().expect("driver: array")[n("r")][n("c")]}),
            "arr_set" => {
                self.arr.as_mut().expect("driver: array")[n("r")][n("c")] = n("v") as u64;
                done()
            }
            "arr_rows" => {
                let x = self.arr.as_ref().expect("driver: array");
                json!({"k": "rows", "v": x.rows().map(|r| r.to_vec()).collect::<Vec<_>>(), "r": x.rows_count(), "c": x.cols_count()})
            }
            "arr_fill" => {
                let (r, v) = (n("r"), n("v") as u64);
                for (i, row) in self.arr.as_mut().expect("driver: array").rows_mut().enumerate() {
                    if i == r {
                        row.fill(v)
                    }
                }
                done()
            }
            "arr_clone" => {
                let c = self.arr.clone();
                if let Some(x) = self.arr.as_mut() {
                    x.rows_mut().for_each(|r| r.fill(77))
                }
                self.arr = c;
                done()
            }
            "at_new" => {
                let (ty, how, v) = (str_of(&a["ty"]), str_of(&a["how"]), get_bytes(&a["v"]));
                self.at = Some(match str_of(&a["ord"]) {
                    "relaxed" => make::<RelaxedOrderings>(ty, how, &v),
                    "acqrel" => make::<AcqRelOrderings>(ty, how, &v),
                    _ => make::<SeqCstOrderings>(ty, how, &v),
                });
                done()
            }
            "at" => self.at.as_ref().expect("driver: atomic").act(str_of(&a["f"]), &get_bytes(&a["x"]), &get_bytes(&a["y"])),
            "once_new" => {
                let r = self.runs.clone();
                let old = self.held.insert(n("i") as u64, Destructor::new(Box::new(move || r.set(r.get() + 1))));
                assert!(old.is_none());
                json!({"k": "num", "v": self.runs.get()})
            }
            "once_drop" => {
                let d = self.held.remove(&(n("i") as u64)).expect("driver: destructor");
                drop(d);
                json!({"k": "num", "v": self.runs.get()})
            }
            "once_unwind" => {
                let d = self.held.remove(&(n("i") as u64)).expect("driver: destructor");
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                    let _d = d;
                    panic!("unwinding")
                }));
                assert!(r.is_err());
                json!({"k": "num", "v": self.runs.get()})
            }
            o => panic!("driver: op {o}"),
        }
    }
}

// ------------------------------------------------------------------ broadcaster
use utils_networking::broadcaster::{Broadcaster, Receiver};
enum Sub {
    Recv(Receiver<u64>),
    Chan(tokio::sync::mpsc::UnboundedReceiver<u64>),
    Stream(Pin<Box<dyn tokio_stream::Stream<Item = u64>>>),
    Gone,
}
struct Bc {
    b: Option<Broadcaster<u64>>,
    subs: Vec<Sub>,
}
fn now<F: Future>(f: F) -> Option<F::Output> {
    match pin!(f).poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(v) => Some(v),
        Poll::Pending => None,
    }
}
impl Machine for Bc {
    fn step(&mut self, a: &Value) -> Value {
        let b = || json!({"k": "ok"});
        let i = a.get("i").map_or(0, |_| u(a, "i"));
        match str_of(&a["op"]) {
            "sub" => {
                let r = self.b.as_mut().expect("driver: broadcaster").subscribe();
                self.subs.push(Sub::Recv(r));
                b()
            }
            "using" => {
                let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
                self.b.as_mut().expect("driver: broadcaster").subscribe_using(tx);
                self.subs.push(Sub::Chan(rx));
                b()
            }
            "cast" => {
                self.b.as_mut().expect("driver: broadcaster").broadcast(&(u(a, "v") as u64));
                b()
            }
            "purge" => {
                self.b.as_mut().expect("driver: broadcaster").purge();
                b()
            }
            "count" => json!({"k": "num", "v": self.b.as_ref().expect("driver: broadcaster").num_subscribers()}),
            "end" => {
                self.b = None;
                b()
            }
            "drop" => {
                self.subs[i] = Sub::Gone;
                b()
            }
            "stream" => {
                let s = std::mem::replace(&mut self.subs[i], Sub::Gone);
                self.subs[i] = match s {
                    Sub::Recv(r) => Sub::Stream(Box::pin(r.into_stream())),
                    s => s,
                };
                b()
            }
            "recv" => {
                let r = match &mut self.subs[i] {
                    Sub::Recv(r) => now(r.recv()),
                    Sub::Chan(r) => now(r.recv()),
                    Sub::Stream(s) => match s.as_mut().poll_next(&mut Context::from_waker(Waker::noop())) {
                        Poll::Ready(v) => Some(v),
                        Poll::Pending => None,
                    },
                    Sub::Gone => panic!("driver: receiver gone"),
                };
                match r {
                    None => json!({"k": "pending"}),
                    Some(None) => json!({"k": "end"}),
                    Some(Some(v)) => json!({"k": "val", "v": v}),
                }
            }
            o => panic!("driver: op {o}"),
        }
    }
}

// ------------------------------------------------------------------ bloom filters
use utils::bloom_filters::{bloom_filter::BloomFilter, rolling_bloom_filter::RollingBloomFilter};
enum Filter {
    None,
    Plain(BloomFilter<u64>),
    Rolling(RollingBloomFilter<u64>),
}
struct Bloom {
    f: Filter,
    rest: rand::rngs::StdRng,
}
impl Machine for Bloom {
    fn step(&mut self, a: &Value) -> Value {
        let fpp = || u(a, "ppm") as f64 / 1e6;
        let yes = |b: bool| json!(if b { "yes" } else { "no" });
        match str_of(&a["op"]) {
            "new" => {
                use rand::SeedableRng;
                self.rest = rand::rngs::StdRng::seed_from_u64(u(a, "seed") as u64);
                self.f = if a["rolling"] == true {
                    Filter::Rolling(RollingBloomFilter::new(u(a, "size"), fpp(), &mut self.rest))
                } else {
                    Filter::Plain(BloomFilter::new(u(a, "size"), fpp(), &mut self.rest))
                };
                done()
            }
            "ins" => {
                let v = u(a, "v") as u64;
                match &mut self.f {
                    Filter::Plain(f) => f.insert(&v),
                    Filter::Rolling(f) => f.insert(&v, &mut self.rest),
                    Filter::None => panic!("driver: filter"),
                }
                done()
            }
            "has" => json!({"k": "has", "v": yes(self.has(u(a, "v") as u64))}),
            "hasall" => json!({"k": "hasall", "v": (0..u(a, "v") as u64).map(|v| yes(self.has(v))).collect::<Vec<_>>()}),
            "rate" => json!({"k": "num", "v": (u(a, "lo")..u(a, "hi")).filter(|v| self.has(*v as u64)).count()}),
            "clear" => {
                match &mut self.f {
                    Filter::Plain(f) => f.clear(),
                    _ => panic!("driver: clear"),
                }
                done()
            }
            o => panic!("driver: op {o}"),
        }
    }
}
impl Bloom {
    fn has(&self, v: u64) -> bool {
        match &self.f {
            Filter::Plain(f) => f.contains(&v),
            Filter::Rolling(f) => f.contains(&v),
            Filter::None => panic!("driver: filter"),
        }
    }
}

fn main() {
    serve(|m| match m {
        "graph" => Box::new(Graph),
        "holders" => Box::new(Holders::new()),
        "broadcast" => Box::new(Bc { b: Some(Broadcaster::new()), subs: vec![] }),
        "bloom" => Box::new(Bloom {
            f: Filter::None,
            rest: <rand::rngs::StdRng as rand::SeedableRng>::seed_from_u64(0),
        }),
        "events" => Box::new(conc::Events::new()),
        "count" => Box::new(conc::Count::new()),
        o => panic!("driver: module {o}"),
    })
}
