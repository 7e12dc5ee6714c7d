use crate::{objs::*, stack::*};
use chainstate_storage::{TransactionRw, Transactional};
use common::{
    chain::{
        block::{BlockReward, BlockRewardTransactable},
        GenBlock, OutPointSourceId, Transaction, TxInput, TxOutput, UtxoOutPoint,
    },
    primitives::{BlockHeight, Id, Idable},
};
use drvlib::*;
use serialization::Encode;
use std::{cell::RefCell, collections::BTreeMap, rc::Rc, result::Result};
use utxo::*;

pub enum Node {
    Mem(UtxosDB<UtxosDBInMemoryImpl>),
    Store(Mem),
    Cache(Dyn, RefCell<Option<UtxosCache<Dyn>>>),
}
#[derive(Clone)]
pub struct Dyn(Rc<RefCell<Node>>);

macro_rules! on {
    ($n:expr, $v:ident => $x:expr) => {
        match $n {
            Node::Mem(b) => { let $v = b; $x.map_err(|_| Error::ViewRead) }
            Node::Store(s) => {
                let tx = s.transaction_ro().expect("ro");
                let db = UtxosDB::new(&tx);
                let $v = &db;
                $x.map_err(|_| Error::ViewRead)
            }
            Node::Cache(_, c) => { let c = c.borrow(); let $v = c.as_ref().expect("driver: cache"); $x }
        }
    };
}
impl Node {
    fn read(&self, o: &UtxoOutPoint) -> Result<Option<Utxo>, Error> {
        on!(self, v => UtxosView::utxo(v, o))
    }
    fn has(&self, o: &UtxoOutPoint) -> Result<bool, Error> {
        on!(self, v => UtxosView::has_utxo(v, o))
    }
    fn best(&self) -> Result<Id<GenBlock>, Error> {
        on!(self, v => UtxosView::best_block_hash(v))
    }
}
impl UtxosView for Dyn {
    type Error = Error;
    fn utxo(&self, o: &UtxoOutPoint) -> Result<Option<Utxo>, Error> {
        self.0.borrow().read(o)
    }
    fn has_utxo(&self, o: &UtxoOutPoint) -> Result<bool, Error> {
        self.0.borrow().has(o)
    }
    fn best_block_hash(&self) -> Result<Id<GenBlock>, Error> {
        self.0.borrow().best()
    }
    fn estimated_size(&self) -> Option<usize> {
        None
    }
}

#[derive(Clone)]
pub enum Undo {
    Added(UtxoOutPoint, Option<Utxo>),
    Spent(UtxoOutPoint, Utxo),
    Tx(u64, UtxosBlockUndo),
    Reward(u64, Vec<TxInput>, bool, Vec<TxOutput>, Option<UtxosBlockRewardUndo>),
    Best(Id<GenBlock>),
    Nothing,
}
#[derive(Default)]
struct Env {
    txs: BTreeMap<u64, Transaction>,
    codes: BTreeMap<Vec<u8>, u64>,
    blocks: u64,
}
thread_local! {
    static ENV: RefCell<Env> = RefCell::new(Env::default());
}
fn out(c: u64) -> TxOutput {
    let o = output(c);
    ENV.with(|e| e.borrow_mut().codes.insert(o.encode(), c));
    o
}
fn best(i: u64) -> Id<GenBlock> {
    Id::new(h(0x40 + i))
}
fn source(i: u64) -> OutPointSourceId {
    ENV.with(|e| match e.borrow().txs.get(&i) {
        Some(t) => OutPointSourceId::Transaction(t.get_id()),
        None => OutPointSourceId::BlockReward(best(i)),
    })
}
fn point(v: &Value) -> UtxoOutPoint {
    UtxoOutPoint::new(source(v[0].as_u64().expect("driver: source")), v[1].as_u64().expect("driver: index") as u32)
}
fn inputs(v: &Value) -> Vec<TxInput> {
    let one = |x: &Value| if x.as_array().expect("driver: input").len() == 1 { account_input(x[0].as_u64().expect("driver: account")) } else { TxInput::Utxo(point(x)) };
    v.as_array().expect("driver: inputs").iter().map(one).collect()
}
fn outputs(v: &Value) -> Vec<TxOutput> {
    v.as_array().expect("driver: outputs").iter().map(|x| out(x.as_u64().expect("driver: code"))).collect()
}
/// the transactions of the history, each made of earlier ones
pub fn catalogue(a: &Value) {
    ENV.with(|e| *e.borrow_mut() = Env { blocks: a["blocks"].as_u64().unwrap_or(0), ..Env::default() });
    for (i, t) in a["cat"].as_array().expect("driver: cat").iter().enumerate() {
        let t = Transaction::new(i as u128, inputs(&t["ins"]), outputs(&t["outs"])).expect("driver: tx");
        ENV.with(|e| e.borrow_mut().txs.insert(i as u64 + 1, t));
    }
}
fn tx(a: &Value) -> Transaction {
    let t = ENV.with(|e| e.borrow().txs[&a["t"].as_u64().expect("driver: t")].clone());
    assert!(t.inputs() == inputs(&a["ins"]) && t.outputs() == outputs(&a["outs"]), "driver: catalogue");
    t
}

type C = UtxosCache<Dyn>;
fn adds(c: &C, src: OutPointSourceId, outs: &[TxOutput]) -> Vec<(UtxoOutPoint, Option<Utxo>)> {
    (0..outs.len()).map(|i| UtxoOutPoint::new(src.clone(), i as u32)).map(|o| { let u = c.utxo(&o).expect("view"); (o, u) }).collect()
}
/// an addition over an output that only a view below knows about: nothing is promised
fn blind(c: &C, was: &[(UtxoOutPoint, Option<Utxo>)], outs: &[TxOutput]) -> bool {
    was.iter().zip(outs).any(|((o, u), x)| kept(x) && u.is_some() && !c.has_utxo_in_cache(o))
}
fn kept(o: &TxOutput) -> bool {
    matches!(o, TxOutput::Transfer(..) | TxOutput::LockThenTransfer(..) | TxOutput::CreateStakePool(..) | TxOutput::ProduceBlockFromStake(..) | TxOutput::IssueNft(..) | TxOutput::Htlc(..))
}

pub struct Utxos;
impl Ledger for Utxos {
    type Node = Node;
    type Data = ConsumedUtxoCache;
    type Undo = Undo;
    type MU = ();

    fn prepare(a: &Value) {
        catalogue(a);
    }
    fn base(f: &Fmt) -> Node {
        match f.backend.as_str() {
            "mem" => Node::Mem(UtxosDB::new(UtxosDBInMemoryImpl::new(best(0), BTreeMap::new()))),
            _ => {
                let s = Mem::new_empty().expect("store");
                let mut tx = s.transaction_rw(None).expect("rw");
                UtxosStorageWrite::set_best_block_for_utxos(&mut tx, &best(0)).expect("best");
                tx.commit().expect("commit");
                Node::Store(s)
            }
        }
    }
    fn layer(parent: Rc<RefCell<Node>>) -> Node {
        let d = Dyn(parent);
        let c = UtxosCache::new(d.clone()).expect("new");
        Node::Cache(d, RefCell::new(Some(c)))
    }
    fn act(_f: &Fmt, n: &mut Node, a: &Value) -> Result<Vec<Undo>, String> {
        let Node::Cache(_, c) = n else { panic!("driver: not a cache") };
        let mut c = c.borrow_mut();
        let c = c.as_mut().expect("driver: cache");
        let u = |k: &str| a[k].as_u64().expect("driver: number");
        let src = || if u("h") == 0 { UtxoSource::Mempool } else { UtxoSource::Blockchain(BlockHeight::new(u("h"))) };
        let bid = |b: u64| -> Id<GenBlock> { best(b) };
        match str_of(&a["op"]) {
            "add" => {
                let o = point(&a["o"]);
                let old = c.utxo(&o).expect("view");
                if old.is_some() && a["ow"] != true && !c.has_utxo_in_cache(&o) {
                    return Err("skip".into());
                }
                e(c.add_utxo(&o, Utxo::new(out(u("c")), src()), a["ow"] == true))?;
                Ok(vec![Undo::Added(o, old)])
            }
            "spend" => {
                let o = point(&a["o"]);
                let x = e(c.spend_utxo(&o))?;
                Ok(vec![Undo::Spent(o, x)])
            }
            "uncache" => {
                let o = point(&a["o"]);
                let _ = c.uncache(&o);
                Ok(vec![Undo::Nothing])
            }
            "best" => {
                let old = c.best_block_hash().expect("view");
                c.set_best_block(best(u("b")));
                Ok(vec![Undo::Best(old)])
            }
            "tx" => {
                let t = tx(a);
                let was = adds(c, t.get_id().into(), t.outputs());
                let over = blind(c, &was, t.outputs());
                let x = e(c.connect_transaction(&t, src()))?;
                if over {
                    return Err("skip".into());
                }
                let mut b = UtxosBlockUndo::default();
                e(b.insert_tx_undo(t.get_id(), x))?;
                Ok(vec![Undo::Tx(u("t"), disk(b))])
            }
            "outs" => {
                let t = tx(a);
                let was = adds(c, t.get_id().into(), t.outputs());
                let over = a["check"] != true && blind(c, &was, t.outputs());
                e(c.add_utxos_from_tx(&t, src(), a["check"] == true))?;
                if over {
                    return Err("skip".into());
                }
                Ok(was.into_iter().zip(t.outputs()).filter(|(_, o)| kept(o)).map(|((o, u), _)| Undo::Added(o, u)).collect())
            }
            "pay" => {
                let outs = outputs(&a["outs"]);
                let was = adds(c, bid(u("b")).into(), &outs);
                e(c.add_utxos_from_block_reward(&BlockReward::new(outs), src(), &bid(u("b")), a["check"] == true))?;
                Ok(was.into_iter().map(|(o, u)| Undo::Added(o, u)).collect())
            }
            "reward" => {
                let (ins, outs, none) = (inputs(&a["ins"]), outputs(&a["outs"]), a["none"] == true);
                let r = BlockRewardTransactable::new((!none).then_some(ins.as_slice()), Some(outs.as_slice()), None);
                let was = adds(c, bid(u("b")).into(), &outs);
                let over = blind(c, &was, &outs);
                let x = e(c.connect_block_transactable(&r, &bid(u("b")), BlockHeight::new(u("h"))))?;
                if over {
                    return Err("skip".into());
                }
                Ok(vec![Undo::Reward(u("b"), ins, none, outs, x.map(disk))])
            }
            x => panic!("driver: act {x}"),
        }
    }
    fn undo(n: &mut Node, u: Undo) -> Result<(), String> {
        let Node::Cache(_, c) = n else { panic!("driver: not a cache") };
        let mut c = c.borrow_mut();
        let c = c.as_mut().expect("driver: cache");
        match u {
            Undo::Nothing => Ok(()),
            Undo::Added(o, old) => {
                e(c.spend_utxo(&o))?;
                match old {
                    Some(x) => e(c.add_utxo(&o, x, false)),
                    None => Ok(()),
                }
            }
            Undo::Spent(o, x) => e(c.add_utxo(&o, x, false)),
            Undo::Best(b) => {
                c.set_best_block(b);
                Ok(())
            }
            Undo::Tx(t, b) => {
                let t = ENV.with(|e| e.borrow().txs[&t].clone());
                let x = b.tx_undos()[&t.get_id()].clone();
                e(c.disconnect_transaction(&t, x))
            }
            Undo::Reward(b, ins, none, outs, x) => {
                let r = BlockRewardTransactable::new((!none).then_some(ins.as_slice()), Some(outs.as_slice()), None);
                e(c.disconnect_block_transactable(&r, &best(b), x))
            }
        }
    }
    fn data(n: &Node) -> ConsumedUtxoCache {
        let Node::Cache(p, c) = n else { panic!("driver: not a cache") };
        let d = c.borrow_mut().take().expect("driver: cache").consume();
        *c.borrow_mut() = Some(UtxosCache::from_data(p.clone(), d.clone()).expect("from_data"));
        d
    }
    fn merge(n: &mut Node, d: ConsumedUtxoCache) -> Result<(), String> {
        match n {
            Node::Mem(b) => e(b.batch_write(d)),
            Node::Store(s) => {
                let mut tx = s.transaction_rw(None).expect("rw");
                e(UtxosDB::new(&mut tx).batch_write(d))?;
                tx.commit().expect("commit");
                Ok(())
            }
            Node::Cache(_, c) => e(c.borrow_mut().as_mut().expect("driver: cache").batch_write(d)),
        }
    }
    fn clean(a: &Value) -> bool {
        matches!(str_of(&a["op"]), "add" | "spend" | "uncache")
    }
    fn restore(parent: Rc<RefCell<Node>>, d: ConsumedUtxoCache) -> Node {
        let p = Dyn(parent);
        let c = UtxosCache::from_data(p.clone(), d).expect("from_data");
        Node::Cache(p, RefCell::new(Some(c)))
    }
    fn view(f: &Fmt, n: &Node) -> Result<Value, String> {
        let s = |x: &UtxoSource| match x {
            UtxoSource::Mempool => json!(0),
            UtxoSource::Blockchain(h) => json!(h.into_int()),
        };
        let one = |i: u64, j: u64| -> Result<Value, String> {
            let o = UtxoOutPoint::new(source(i), j as u32);
            let (x, has) = (e(n.read(&o))?, e(n.has(&o))?);
            if x.is_some() != has {
                return Ok(json!("has_utxo differs from utxo"));
            }
            Ok(match x {
                None => json!([]),
                Some(x) => {
                    let c = ENV.with(|e| e.borrow().codes.get(&x.output().encode()).copied());
                    json!([[c.map(|c| json!(c)).unwrap_or(json!("?")), s(x.source())]])
                }
            })
        };
        let all = ENV.with(|e| e.borrow().txs.len() as u64 + e.borrow().blocks);
        let u = (1..=all).map(|i| (0..f.m as u64).map(|j| one(i, j)).collect::<Result<Vec<_>, _>>()).collect::<Result<Vec<_>, _>>()?;
        let b = e(n.best())?;
        Ok(json!({"u": u, "best": (b.to_hash().as_bytes()[0] as i64) - 0x40}))
    }
}
