use crate::objs::dest;
use crate::stack::*;
use chainstate_storage::{TransactionRw, Transactional};
use common::{
    chain::tokens::{IsTokenFreezable, IsTokenFrozen, IsTokenUnfreezable, TokenId, TokenIssuance, TokenIssuanceV1, TokenTotalSupply},
    primitives::{Amount, H256},
};
use drvlib::*;
use std::{cell::RefCell, rc::Rc};
use tokens_accounting::*;

pub enum Node {
    Mem(TokensAccountingDB<InMemoryTokensAccounting>),
    Store(Mem),
    Cache(Box<TokensAccountingCache<Dyn>>),
}
pub struct Dyn(Rc<RefCell<Node>>);

macro_rules! on {
    ($n:expr, $v:ident => $x:expr) => {
        match $n {
            Node::Mem(b) => { let $v = b; $x.map_err(|_| Error::ViewFail) }
            Node::Store(s) => {
                let tx = s.transaction_ro().expect("ro");
                let db = TokensAccountingDB::new(&tx);
                let $v = &db;
                $x.map_err(|_| Error::ViewFail)
            }
            Node::Cache(c) => { let $v = c.as_ref(); $x }
        }
    };
}
impl TokensAccountingView for Node {
    type Error = Error;
    fn get_token_data(&self, id: &TokenId) -> Result<Option<TokenData>, Error> {
        on!(self, v => TokensAccountingView::get_token_data(v, id))
    }
    fn get_circulating_supply(&self, id: &TokenId) -> Result<Amount, Error> {
        on!(self, v => TokensAccountingView::get_circulating_supply(v, id))
    }
}
impl TokensAccountingView for Dyn {
    type Error = Error;
    fn get_token_data(&self, id: &TokenId) -> Result<Option<TokenData>, Error> {
        self.0.borrow().get_token_data(id)
    }
    fn get_circulating_supply(&self, id: &TokenId) -> Result<Amount, Error> {
        self.0.borrow().get_circulating_supply(id)
    }
}
pub fn tid(i: u64) -> TokenId {
    TokenId::new(H256::repeat_byte(i as u8))
}

pub struct Tokens;
impl Ledger for Tokens {
    type Node = Node;
    type Data = TokensAccountingDeltaData;
    type Undo = TokenAccountingUndo;
    type MU = TokensAccountingDeltaUndoData;

    fn base(f: &Fmt) -> Node {
        match f.backend.as_str() {
            "mem" => Node::Mem(TokensAccountingDB::new(InMemoryTokensAccounting::new())),
            _ => Node::Store(Mem::new_empty().expect("store")),
        }
    }
    fn layer(parent: Rc<RefCell<Node>>) -> Node {
        Node::Cache(Box::new(TokensAccountingCache::new(Dyn(parent))))
    }
    fn act(f: &Fmt, n: &mut Node, a: &Value) -> Result<Vec<Self::Undo>, String> {
        let Node::Cache(c) = n else { panic!("driver: not a cache") };
        let u = |k: &str| a[k].as_u64().expect("driver: number");
        let id = tid(u("id"));
        let r = match str_of(&a["op"]) {
            "issue" => {
                let total_supply = match str_of(&a["kind"]) {
                    "fixed" => TokenTotalSupply::Fixed(f.get(&a["limit"])),
                    "lockable" => TokenTotalSupply::Lockable,
                    _ => TokenTotalSupply::Unlimited,
                };
                let x = TokenIssuanceV1 {
                    token_ticker: vec![b'A' + u("id") as u8],
                    number_of_decimals: u("id") as u8,
                    metadata_uri: vec![u("uri") as u8],
                    total_supply,
                    is_freezable: if a["freezable"] == true { IsTokenFreezable::Yes } else { IsTokenFreezable::No },
                    authority: dest(u("auth")),
                };
                c.issue_token(id, TokenData::FungibleToken(TokenIssuance::V1(x).into()))
            }
            "mint" => c.mint_tokens(id, f.get(&a["v"])),
            "unmint" => c.unmint_tokens(id, f.get(&a["v"])),
            "lock" => c.lock_circulating_supply(id),
            "freeze" => c.freeze_token(id, if a["unfreezable"] == true { IsTokenUnfreezable::Yes } else { IsTokenUnfreezable::No }),
            "unfreeze" => c.unfreeze_token(id),
            "auth" => c.change_authority(id, dest(u("auth"))),
            "uri" => c.change_metadata_uri(id, vec![u("uri") as u8]),
            x => panic!("driver: act {x}"),
        };
        e(r).map(|x| vec![disk(x)])
    }
    fn undo(n: &mut Node, u: Self::Undo) -> Result<(), String> {
        let Node::Cache(c) = n else { panic!("driver: not a cache") };
        e(c.undo(u))
    }
    fn data(n: &Node) -> Self::Data {
        let Node::Cache(c) = n else { panic!("driver: not a cache") };
        disk(c.data().clone())
    }
    fn merge(n: &mut Node, d: Self::Data) -> Result<Self::MU, String> {
        match n {
            Node::Mem(b) => e(b.batch_write_tokens_data(d)),
            Node::Store(s) => {
                let mut tx = s.transaction_rw(None).expect("rw");
                let r = e(TokensAccountingDB::new(&mut tx).batch_write_tokens_data(d))?;
                tx.commit().expect("commit");
                Ok(r)
            }
            Node::Cache(c) => e(c.batch_write_tokens_data(d)),
        }
    }
    fn view(f: &Fmt, n: &Node) -> Result<Value, String> {
        let mut out = vec![];
        for i in 1..=f.n as u64 {
            let (d, s) = (e(n.get_token_data(&tid(i)))?, e(n.get_circulating_supply(&tid(i)))?);
            out.push(match d {
                None if s == Amount::ZERO => json!([]),
                None => json!(format!("supply {s:?} without a token")),
                Some(TokenData::FungibleToken(d)) => {
                    let (kind, limit) = match d.total_supply() {
                        TokenTotalSupply::Fixed(l) => ("fixed", f.amt(*l)),
                        TokenTotalSupply::Lockable => ("lockable", f.amt(Amount::ZERO)),
                        TokenTotalSupply::Unlimited => ("unlimited", f.amt(Amount::ZERO)),
                    };
                    let fz = match d.frozen_state() {
                        IsTokenFrozen::No(IsTokenFreezable::Yes) => "can",
                        IsTokenFrozen::No(IsTokenFreezable::No) => "cannot",
                        IsTokenFrozen::Yes(IsTokenUnfreezable::Yes) => "frozen",
                        IsTokenFrozen::Yes(IsTokenUnfreezable::No) => "forever",
                    };
                    let auth = (1..=4).find(|k| *d.authority() == dest(*k)).unwrap_or(0);
                    let id_ok = d.token_ticker() == [b'A' + i as u8] && d.number_of_decimals() == i as u8;
                    if !id_ok {
                        json!(format!("{d:?}"))
                    } else {
                        json!([{"kind": kind, "limit": limit, "locked": d.is_locked(), "fz": fz, "auth": auth, "uri": d.metadata_uri()[0], "supply": f.amt(s)}])
                    }
                }
            });
        }
        Ok(json!(out))
    }
}
