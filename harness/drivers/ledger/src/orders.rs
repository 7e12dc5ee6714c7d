use crate::{objs::dest, stack::*};
use chainstate_storage::{TransactionRw, Transactional};
use common::{
    chain::{output_value::OutputValue, tokens::TokenId, OrderId, OrdersVersion},
    primitives::{Amount, H256},
};
use drvlib::*;
use orders_accounting::*;
use std::{cell::RefCell, collections::BTreeSet, rc::Rc};

pub enum Node {
    Mem(OrdersAccountingDB<InMemoryOrdersAccounting>),
    Store(Mem),
    Cache(Box<OrdersAccountingCache<Dyn>>),
}
pub struct Dyn(Rc<RefCell<Node>>);

macro_rules! on {
    ($n:expr, $v:ident => $x:expr) => {
        match $n {
            Node::Mem(b) => { let $v = b; $x.map_err(|_| Error::ViewFail) }
            Node::Store(s) => {
                let tx = s.transaction_ro().expect("ro");
                let db = OrdersAccountingDB::new(&tx);
                let $v = &db;
                $x.map_err(|_| Error::ViewFail)
            }
            Node::Cache(c) => { let $v = c.as_ref(); $x }
        }
    };
}
impl OrdersAccountingView for Node {
    type Error = Error;
    fn get_order_data(&self, id: &OrderId) -> Result<Option<OrderData>, Error> {
        on!(self, v => OrdersAccountingView::get_order_data(v, id))
    }
    fn get_ask_balance(&self, id: &OrderId) -> Result<Amount, Error> {
        on!(self, v => OrdersAccountingView::get_ask_balance(v, id))
    }
    fn get_give_balance(&self, id: &OrderId) -> Result<Amount, Error> {
        on!(self, v => OrdersAccountingView::get_give_balance(v, id))
    }
    fn get_all_order_ids(&self) -> Result<BTreeSet<OrderId>, Error> {
        on!(self, v => OrdersAccountingView::get_all_order_ids(v))
    }
}
impl OrdersAccountingView for Dyn {
    type Error = Error;
    fn get_order_data(&self, id: &OrderId) -> Result<Option<OrderData>, Error> {
        self.0.borrow().get_order_data(id)
    }
    fn get_ask_balance(&self, id: &OrderId) -> Result<Amount, Error> {
        self.0.borrow().get_ask_balance(id)
    }
    fn get_give_balance(&self, id: &OrderId) -> Result<Amount, Error> {
        self.0.borrow().get_give_balance(id)
    }
    fn get_all_order_ids(&self) -> Result<BTreeSet<OrderId>, Error> {
        self.0.borrow().get_all_order_ids()
    }
}

pub fn oid(i: u64) -> OrderId {
    OrderId::new(H256::repeat_byte(i as u8))
}
fn cur(c: u64, a: Amount) -> OutputValue {
    if c == 0 { OutputValue::Coin(a) } else { OutputValue::TokenV1(TokenId::new(H256::repeat_byte(c as u8)), a) }
}
fn cur_of(v: &OutputValue) -> (u64, Amount) {
    match v {
        OutputValue::Coin(a) => (0, *a),
        OutputValue::TokenV1(t, a) => (t.to_hash().as_bytes()[0] as u64, *a),
        _ => (999, Amount::ZERO),
    }
}

pub struct Orders;
impl Ledger for Orders {
    type Node = Node;
    type Data = OrdersAccountingDeltaData;
    type Undo = OrdersAccountingUndo;
    type MU = OrdersAccountingDeltaUndoData;

    fn base(f: &Fmt) -> Node {
        match f.backend.as_str() {
            "mem" => Node::Mem(OrdersAccountingDB::new(InMemoryOrdersAccounting::new())),
            _ => Node::Store(Mem::new_empty().expect("store")),
        }
    }
    fn layer(parent: Rc<RefCell<Node>>) -> Node {
        Node::Cache(Box::new(OrdersAccountingCache::new(Dyn(parent))))
    }
    fn act(f: &Fmt, n: &mut Node, a: &Value) -> Result<Vec<Self::Undo>, String> {
        let Node::Cache(c) = n else { panic!("driver: not a cache") };
        let id = oid(a["id"].as_u64().expect("driver: id"));
        let u = |k: &str| a[k].as_u64().expect("driver: number");
        let ver = |v: u64| if v == 0 { OrdersVersion::V0 } else { OrdersVersion::V1 };
        let r = match str_of(&a["op"]) {
            "create" => c.create_order(id, OrderData::new(dest(u("key")), cur(u("askc"), f.get(&a["ask"])), cur(u("givec"), f.get(&a["give"])))),
            "fill" => c.fill_order(id, f.get(&a["v"]), ver(u("ver"))),
            "freeze" => c.freeze_order(id),
            "conclude" => c.conclude_order(id),
            x => panic!("driver: act {x}"),
        };
        e(r).map(|x| vec![disk(x)])
    }
    fn undo(n: &mut Node, u: Self::Undo) -> Result<(), String> {
        let Node::Cache(c) = n else { panic!("driver: not a cache") };
        e(c.undo(u))
    }
    fn data(n: &Node) -> Self::Data {
        let Node::Cache(c) = n else { panic!("driver: not a cache") };
        disk(c.data().clone())
    }
    fn merge(n: &mut Node, d: Self::Data) -> Result<Self::MU, String> {
        match n {
            Node::Mem(b) => e(b.batch_write_orders_data(d)),
            Node::Store(s) => {
                let mut tx = s.transaction_rw(None).expect("rw");
                let r = e(OrdersAccountingDB::new(&mut tx).batch_write_orders_data(d))?;
                tx.commit().expect("commit");
                Ok(r)
            }
            Node::Cache(c) => e(c.batch_write_orders_data(d)),
        }
    }
    fn view(f: &Fmt, n: &Node) -> Result<Value, String> {
        let all = e(n.get_all_order_ids())?;
        let known: BTreeSet<OrderId> = (1..=f.n as u64).map(oid).collect();
        if !all.is_subset(&known) {
            return Ok(json!("foreign order"));
        }
        let mut out = vec![];
        for i in 1..=f.n as u64 {
            let id = oid(i);
            let (d, a, g) = (e(n.get_order_data(&id))?, e(n.get_ask_balance(&id))?, e(n.get_give_balance(&id))?);
            out.push(match d {
                None if a == Amount::ZERO && g == Amount::ZERO && !all.contains(&id) => json!([]),
                Some(d) if all.contains(&id) => {
                    let ((ac, a0), (gc, g0)) = (cur_of(d.ask()), cur_of(d.give()));
                    let key = (1..=4).find(|k| *d.conclude_key() == dest(*k)).unwrap_or(0);
                    json!([{"fz": d.is_frozen(), "key": key, "askc": ac, "givec": gc, "ask0": f.amt(a0), "give0": f.amt(g0), "ask": f.amt(a), "give": f.amt(g)}])
                }
                d => json!(format!("inconsistent: {d:?} {a:?} {g:?} listed {}", all.contains(&id))),
            });
        }
        Ok(json!(out))
    }
}
