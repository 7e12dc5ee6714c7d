use crate::objs::{dest, VRF};
use crate::stack::*;
use chainstate_storage::{TransactionRw, Transactional};
use chainstate_types::{SealedStorageTag, TipStorageTag};
use common::{
    chain::{DelegationId, PoolId, RewardDistributionVersion},
    primitives::{per_thousand::PerThousand, Amount, Id, H256},
};
use drvlib::*;
use pos_accounting::*;
use std::{cell::RefCell, collections::BTreeMap, rc::Rc, result::Result};

pub enum Node {
    Mem(PoSAccountingDB<InMemoryPoSAccounting, DefaultStorageTag>),
    Tip(Mem),
    Sealed(Mem),
    Cache(Box<PoSAccountingDelta<Dyn>>),
}
#[derive(Clone)]
pub struct Dyn(Rc<RefCell<Node>>);

macro_rules! on {
    ($n:expr, $v:ident => $x:expr) => {
        match $n {
            Node::Mem(b) => { let $v = b; $x.map_err(|_| Error::ViewFail) }
            Node::Tip(s) => {
                let tx = s.transaction_ro().expect("ro");
                let db = PoSAccountingDB::<_, TipStorageTag>::new(&tx);
                let $v = &db;
                $x.map_err(|_| Error::ViewFail)
            }
            Node::Sealed(s) => {
                let tx = s.transaction_ro().expect("ro");
                let db = PoSAccountingDB::<_, SealedStorageTag>::new(&tx);
                let $v = &db;
                $x.map_err(|_| Error::ViewFail)
            }
            Node::Cache(c) => { let $v = c.as_ref(); $x }
        }
    };
}
macro_rules! view {
    ($($f:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {
        impl PoSAccountingView for Node {
            type Error = Error;
            $(fn $f(&self, $($a: $t),*) -> Result<$r, Error> { on!(self, v => PoSAccountingView::$f(v, $($a),*)) })*
        }
        impl PoSAccountingView for Dyn {
            type Error = Error;
            $(fn $f(&self, $($a: $t),*) -> Result<$r, Error> { self.0.borrow().$f($($a),*) })*
        }
    };
}
view! {
    pool_exists(p: PoolId) -> bool;
    get_pool_balance(p: PoolId) -> Amount;
    get_pool_data(p: PoolId) -> Option<PoolData>;
    get_pool_delegations_shares(p: PoolId) -> Option<BTreeMap<DelegationId, Amount>>;
    get_delegation_balance(d: DelegationId) -> Amount;
    get_delegation_data(d: DelegationId) -> Option<DelegationData>;
    get_pool_delegation_share(p: PoolId, d: DelegationId) -> Amount;
}

/// identifiers with the extreme bytes among them
fn raw(i: u64) -> H256 {
    match i {
        1 => H256::repeat_byte(0x11),
        2 => H256::repeat_byte(0xff),
        3 => H256::zero(),
        i => H256::repeat_byte(i as u8),
    }
}
pub fn pid(i: u64) -> PoolId {
    PoolId::new(raw(i))
}
pub fn did(i: u64) -> DelegationId {
    DelegationId::new(raw(if i == 1 { 3 } else if i == 3 { 1 } else { i }))
}

pub struct Pools;
impl Ledger for Pools {
    type Node = Node;
    type Data = PoSAccountingDeltaData;
    type Undo = PoSAccountingUndo;
    type MU = DeltaMergeUndo;

    fn base(f: &Fmt) -> Node {
        match f.backend.as_str() {
            "mem" => Node::Mem(PoSAccountingDB::new(InMemoryPoSAccounting::new())),
            "tip" => Node::Tip(Mem::new_empty().expect("store")),
            _ => Node::Sealed(Mem::new_empty().expect("store")),
        }
    }
    fn layer(parent: Rc<RefCell<Node>>) -> Node {
        Node::Cache(Box::new(PoSAccountingDelta::new(Dyn(parent))))
    }
    fn act(f: &Fmt, n: &mut Node, a: &Value) -> Result<Vec<Self::Undo>, String> {
        let Node::Cache(c) = n else { panic!("driver: not a cache") };
        let u = |k: &str| a[k].as_u64().expect("driver: number");
        let r = match str_of(&a["op"]) {
            "create" => {
                let mpt = PerThousand::new(f.get(&a["mpt"]).into_atoms() as u16).expect("driver: rate");
                let d = PoolData::new(dest(u("key")), f.get(&a["pledge"]), Amount::ZERO, VRF.with(|x| x.clone()), mpt, f.get(&a["cost"]));
                c.create_pool(pid(u("p")), d)
            }
            "decommission" => c.decommission_pool(pid(u("p"))),
            "cdel" => c.create_delegation_id(pid(u("p")), did(u("d")), dest(u("key"))),
            "ddel" => c.delete_delegation_id(did(u("d"))),
            "delegate" => {
                if let Some(d) = e(c.get_delegation_data(did(u("d"))))? {
                    if !e(c.pool_exists(*d.source_pool()))? {
                        return Err("skip".into()); // delegating to a decommissioned pool: nothing is promised
                    }
                }
                c.delegate_staking(did(u("d")), f.get(&a["v"]))
            }
            "spend" => c.spend_share_from_delegation_id(did(u("d")), f.get(&a["v"])),
            "increase" => c.increase_staker_rewards(pid(u("p")), f.get(&a["v"])),
            "reward" => {
                let ver = if u("ver") == 0 { RewardDistributionVersion::V0 } else { RewardDistributionVersion::V1 };
                let r = tx_verifier::transaction_verifier::distribute_pos_reward(c.as_mut(), Id::new(H256::zero()), pid(u("p")), f.get(&a["v"]), ver);
                return e(r).map(|x| x.into_iter().map(disk).collect());
            }
            x => panic!("driver: act {x}"),
        };
        e(r).map(|x| vec![disk(x)])
    }
    fn undo(n: &mut Node, u: Self::Undo) -> Result<(), String> {
        let Node::Cache(c) = n else { panic!("driver: not a cache") };
        e(c.undo(u))
    }
    fn data(n: &Node) -> Self::Data {
        let Node::Cache(c) = n else { panic!("driver: not a cache") };
        disk(c.data().clone())
    }
    fn merge(n: &mut Node, d: Self::Data) -> Result<Self::MU, String> {
        match n {
            Node::Mem(b) => e(b.batch_write_delta(d)),
            Node::Tip(s) => {
                let mut tx = s.transaction_rw(None).expect("rw");
                let r = e(PoSAccountingDB::<_, TipStorageTag>::new(&mut tx).batch_write_delta(d))?;
                tx.commit().expect("commit");
                Ok(disk(r))
            }
            Node::Sealed(s) => {
                let mut tx = s.transaction_rw(None).expect("rw");
                let r = e(PoSAccountingDB::<_, SealedStorageTag>::new(&mut tx).batch_write_delta(d))?;
                tx.commit().expect("commit");
                Ok(disk(r))
            }
            Node::Cache(c) => e(c.batch_write_delta(d)).map(disk),
        }
    }
    fn unmerge(n: &mut Node, u: Self::MU) -> Result<(), String> {
        match n {
            Node::Mem(b) => e(b.undo_merge_with_delta(u)),
            Node::Tip(s) => {
                let mut tx = s.transaction_rw(None).expect("rw");
                e(PoSAccountingDB::<_, TipStorageTag>::new(&mut tx).undo_merge_with_delta(u))?;
                e(tx.commit())
            }
            Node::Sealed(s) => {
                let mut tx = s.transaction_rw(None).expect("rw");
                e(PoSAccountingDB::<_, SealedStorageTag>::new(&mut tx).undo_merge_with_delta(u))?;
                e(tx.commit())
            }
            Node::Cache(c) => e(c.undo_delta_merge(u)),
        }
    }
    fn view(f: &Fmt, n: &Node) -> Result<Value, String> {
        let key = |d: &common::chain::Destination| (1..=4).find(|k| *d == dest(*k)).unwrap_or(0);
        let (mut ps, mut ds) = (vec![], vec![]);
        for i in 1..=f.n as u64 {
            let p = pid(i);
            let (d, b) = (e(n.get_pool_data(p))?, e(n.get_pool_balance(p))?);
            let listed: BTreeMap<DelegationId, Amount> =
                e(n.get_pool_delegations_shares(p))?.unwrap_or_default().into_iter().filter(|x| x.1 > Amount::ZERO).collect();
            let mut shares = BTreeMap::new();
            for k in 1..=f.m as u64 {
                let s = e(n.get_pool_delegation_share(p, did(k)))?;
                if s > Amount::ZERO {
                    shares.insert(did(k), s);
                }
            }
            let exists = e(n.pool_exists(p))?;
            ps.push(match d {
                _ if listed != shares => json!(format!("listed shares {listed:?} but {shares:?}")),
                None if b == Amount::ZERO && !exists => json!([]),
                Some(d) if exists => json!([{"key": key(d.decommission_destination()), "pledge": f.amt(d.pledge_amount()), "rewards": f.amt(d.staker_rewards()),
                    "cost": f.amt(d.cost_per_block()), "mpt": f.amt(Amount::from_atoms(d.margin_ratio_per_thousand().value() as u128)), "bal": f.amt(b)}]),
                d => json!(format!("pool {d:?} with balance {b:?}")),
            });
        }
        for i in 1..=f.m as u64 {
            let (d, b) = (e(n.get_delegation_data(did(i)))?, e(n.get_delegation_balance(did(i)))?);
            ds.push(match d {
                None if b == Amount::ZERO => json!([]),
                Some(d) => {
                    let p = (1..=f.n as u64).find(|k| *d.source_pool() == pid(*k)).unwrap_or(0);
                    let mut elsewhere = false;
                    for k in 1..=f.n as u64 {
                        let s = e(n.get_pool_delegation_share(pid(k), did(i)))?;
                        elsewhere |= s != if k == p { b } else { Amount::ZERO };
                    }
                    if elsewhere { json!("share differs from balance") } else { json!([{"p": p, "key": key(d.spend_destination()), "bal": f.amt(b)}]) }
                }
                d => json!(format!("delegation {d:?} with balance {b:?}")),
            });
        }
        Ok(json!({"p": ps, "d": ds}))
    }
}
