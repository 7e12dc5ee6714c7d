//! A stack of ledger views over a database; operations go to the top view and are undone last first.
use common::primitives::Amount;
use drvlib::*;
use std::{cell::RefCell, rc::Rc};

pub type Mem = chainstate_storage::inmemory::Store;

pub struct Fmt {
    pub plain: bool,
    pub unit: u128,
    pub n: u8,
    pub m: u8,
    pub backend: String,
}
impl Fmt {
    pub fn new(a: &Value) -> Self {
        let n = |k: &str, d: u64| a[k].as_u64().unwrap_or(d);
        Fmt {
            plain: a["plain"] == true,
            unit: a["unit"].as_str().map(|s| s.parse().expect("driver: unit")).unwrap_or(1),
            n: n("n", 2) as u8,
            m: n("m", 2) as u8,
            backend: a["backend"].as_str().unwrap_or("mem").into(),
        }
    }
    pub fn amt(&self, a: Amount) -> Value {
        let x = a.into_atoms();
        if !self.plain {
            num(x)
        } else if x % self.unit != 0 || x / self.unit > 1 << 30 {
            json!(format!("amount {x}"))
        } else {
            json!((x / self.unit) as u64)
        }
    }
    pub fn get(&self, v: &Value) -> Amount {
        Amount::from_atoms(get_num::<u128>(v).checked_mul(self.unit).expect("driver: unit overflow"))
    }
}

pub trait Ledger: Sized {
    type Node;
    type Data: Clone;
    type Undo: Clone;
    type MU;
    fn prepare(_a: &Value) {}
    fn base(f: &Fmt) -> Self::Node;
    fn layer(parent: Rc<RefCell<Self::Node>>) -> Self::Node;
    fn act(f: &Fmt, n: &mut Self::Node, a: &Value) -> Result<Vec<Self::Undo>, String>;
    fn undo(n: &mut Self::Node, u: Self::Undo) -> Result<(), String>;
    fn data(n: &Self::Node) -> Self::Data;
    fn merge(n: &mut Self::Node, d: Self::Data) -> Result<Self::MU, String>;
    fn unmerge(_n: &mut Self::Node, _u: Self::MU) -> Result<(), String> {
        Err("driver: no unmerge".into())
    }
    /// an operation that changes nothing when it is refused
    fn clean(_a: &Value) -> bool {
        false
    }
    fn restore(parent: Rc<RefCell<Self::Node>>, d: Self::Data) -> Self::Node {
        let mut x = Self::layer(parent);
        let _ = Self::merge(&mut x, d).unwrap_or_else(|e| panic!("driver: restore {e}"));
        x
    }
    fn view(f: &Fmt, n: &Self::Node) -> Result<Value, String>;
}

type Shared<L> = Rc<RefCell<<L as Ledger>::Node>>;

pub struct Stack<L: Ledger> {
    f: Fmt,
    nodes: Vec<Shared<L>>,
    logs: Vec<Vec<Vec<L::Undo>>>,
    last: Option<(L::MU, Vec<Vec<L::Undo>>)>,
}

impl<L: Ledger> Stack<L> {
    pub fn new(a: &Value) -> Self {
        let f = Fmt::new(a);
        L::prepare(a);
        let b = Rc::new(RefCell::new(L::base(&f)));
        let c = Rc::new(RefCell::new(L::layer(b.clone())));
        Stack { f, nodes: vec![b, c], logs: vec![vec![], vec![]], last: None }
    }
    fn top(&self) -> &Shared<L> {
        self.nodes.last().expect("driver: top")
    }
    fn obs(&self, k: &str) -> Value {
        let v = |n: &Shared<L>| L::view(&self.f, &n.borrow()).unwrap_or_else(|e| json!(e));
        json!({"k": k, "top": v(self.top()), "base": v(&self.nodes[0])})
    }
    fn restore(&mut self, d: L::Data) {
        let n = self.nodes.len();
        let x = L::restore(self.nodes[n - 2].clone(), d);
        self.nodes[n - 1] = Rc::new(RefCell::new(x));
    }
    pub fn step(&mut self, a: &Value) -> Value {
        let n = self.nodes.len();
        let op = str_of(&a["op"]);
        // a step that the state does not allow is not taken (random histories do not know what was accepted)
        let possible = match op {
            "undo" => n >= 2 && !self.logs[n - 1].is_empty(),
            "push" => true,
            "unmerge" => self.last.is_some(),
            _ => n >= 2,
        };
        if !possible {
            return json!({"k": "skip"});
        }
        if op != "unmerge" {
            self.last = None;
        }
        match op {
            "do" => {
                let d = L::data(&self.top().borrow());
                let r = L::act(&self.f, &mut self.top().borrow_mut(), &a["act"]);
                let r = r.and_then(|u| L::view(&self.f, &self.top().borrow()).map(|_| u));
                match r {
                    Ok(u) => {
                        self.logs[n - 1].push(u);
                        self.obs("ok")
                    }
                    Err(e) if e == "skip" => {
                        self.restore(d);
                        json!({"k": "skip"})
                    }
                    Err(e) => {
                        if !L::clean(&a["act"]) {
                            self.restore(d);
                        }
                        let mut o = self.obs("refused");
                        o["why"] = json!(e);
                        o
                    }
                }
            }
            "undo" => {
                let u = self.logs[n - 1].pop().expect("driver: no undo");
                for x in u.into_iter().rev() {
                    if let Err(e) = L::undo(&mut self.top().borrow_mut(), x) {
                        return err(e);
                    }
                }
                self.obs("ok")
            }
            "push" => {
                let x = L::layer(self.top().clone());
                self.nodes.push(Rc::new(RefCell::new(x)));
                self.logs.push(self.logs[n - 1].clone());
                self.obs("ok")
            }
            "drop" => {
                self.nodes.pop();
                self.logs.pop();
                self.obs("ok")
            }
            "flush" => {
                let d = L::data(&self.nodes.pop().expect("driver: top").borrow());
                let log = self.logs.pop().expect("driver: log");
                let r = L::merge(&mut self.top().borrow_mut(), d);
                match r {
                    Ok(u) => {
                        let old = std::mem::replace(&mut self.logs[n - 2], log);
                        self.last = Some((u, old));
                        self.obs("ok")
                    }
                    Err(e) => err(e),
                }
            }
            "unmerge" => {
                let (u, log) = self.last.take().expect("driver: no flush");
                let r = L::unmerge(&mut self.top().borrow_mut(), u);
                match r {
                    Ok(()) => {
                        self.logs[n - 1] = log;
                        self.obs("ok")
                    }
                    Err(e) => err(e),
                }
            }
            x => panic!("driver: op {x}"),
        }
    }
}

pub struct M<L: Ledger>(Option<Stack<L>>);
impl<L: Ledger> M<L> {
    pub fn new() -> Self {
        M(None)
    }
}
impl<L: Ledger> Machine for M<L> {
    fn setup(&mut self, a: &Value) {
        self.0 = Some(Stack::new(a));
    }
    fn step(&mut self, a: &Value) -> Value {
        self.0.as_mut().expect("driver: setup").step(a)
    }
}

pub fn e<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| variant(&e))
}
/// what is kept on disk comes back equal
pub fn disk<T: serialization::Encode + serialization::DecodeAll + PartialEq + std::fmt::Debug>(x: T) -> T {
    let b = x.encode();
    let y = T::decode_all(&mut b.as_slice()).expect("decoding of what was encoded");
    assert_eq!(x, y);
    y
}
