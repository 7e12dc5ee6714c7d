//! Judging transactions by the value of their inputs and outputs.
use crate::{
    objs::*,
    orders::{oid, Orders},
    pools::{did, pid, Pools},
    stack::*,
    tokens::{tid, Tokens},
};
use common::{
    chain::{
        config::{Builder, ChainType},
        htlc::{HashedTimelockContract, HtlcSecretHash},
        output_value::OutputValue,
        stakelock::StakePoolData,
        timelock::OutputTimeLock,
        tokens::*,
        *,
    },
    primitives::{per_thousand::PerThousand, Amount, BlockCount, BlockHeight, CoinOrTokenId, Fee, Id, Subsidy, H256},
};
use constraints_value_accumulator::*;
use drvlib::*;
use std::{cell::RefCell, collections::BTreeMap, rc::Rc};

type Sh<L> = Rc<RefCell<<L as Ledger>::Node>>;
pub struct Funds {
    f: Fmt,
    coin: u128,
    p: Pair<Pools>,
    k: Pair<Tokens>,
    o: Pair<Orders>,
    cfgs: BTreeMap<(u64, u64), ChainConfig>,
}
/// a database and the view above it
pub struct Pair<L: Ledger>(Sh<L>, Sh<L>);
fn fresh<L: Ledger>(f: &Fmt) -> Pair<L> {
    let b = Rc::new(RefCell::new(L::base(f)));
    let x = L::layer(b.clone());
    Pair(b, Rc::new(RefCell::new(x)))
}
fn act<L: Ledger>(f: &Fmt, q: &mut Pair<L>, a: &Value) -> Value {
    let n = q.1.clone();
    let d = L::data(&n.borrow());
    let r = L::act(f, &mut n.borrow_mut(), a);
    // overflows show when reading
    let r = r.and_then(|_| L::view(f, &n.borrow()));
    match r {
        Ok(_) => json!({"k": "ok"}),
        Err(e) => {
            q.1 = Rc::new(RefCell::new(L::restore(q.0.clone(), d)));
            if e == "skip" { json!({"k": "skip"}) } else { json!({"k": "refused", "why": e}) }
        }
    }
}

impl Funds {
    pub fn new(a: &Value) -> Self {
        let f = Fmt::new(a);
        let (p, k, o) = (fresh::<Pools>(&f), fresh::<Tokens>(&f), fresh::<Orders>(&f));
        let coin = if f.plain { 100_000_000_000 } else { 1 };
        Funds { f, coin, p, k, o, cfgs: BTreeMap::new() }
    }
    fn amt(&self, c: u64, v: &Value) -> Amount {
        let x = get_num::<u128>(v);
        Amount::from_atoms(if c == 0 { x.checked_mul(self.coin).expect("driver: unit") } else { x })
    }
    fn val(&self, c: u64, v: &Value) -> OutputValue {
        let a = self.amt(c, v);
        if c == 0 { OutputValue::Coin(a) } else { OutputValue::TokenV1(tid(c), a) }
    }
    fn scaled(&self, a: &Value, fields: &[&str]) -> Value {
        let mut a = a.clone();
        for k in fields {
            if a.get(*k).is_some_and(|v| !v.is_null()) {
                a[*k] = num(self.amt(0, &a[*k]).into_atoms());
            }
        }
        a
    }
    fn output(&self, o: &Value) -> TxOutput {
        let u = |k: &str| o[k].as_u64().expect("driver: number");
        let htlc = || Box::new(HashedTimelockContract { secret_hash: HtlcSecretHash([7; 20]), spend_key: dest(1), refund_timelock: OutputTimeLock::ForBlockCount(5), refund_key: dest(2) });
        let data = |v: Amount| StakePoolData::new(v, dest(1), VRF.with(|x| x.clone()), dest(2), PerThousand::new(7).expect("driver: rate"), Amount::from_atoms(3));
        match str_of(&o["k"]) {
            "out" => {
                let v = self.val(u("c"), &o["v"]);
                match str_of(&o["f"]) {
                    "transfer" => TxOutput::Transfer(v, dest(1)),
                    "lock" => TxOutput::LockThenTransfer(v, dest(1), OutputTimeLock::ForBlockCount(3)),
                    "htlc" => TxOutput::Htlc(v, htlc()),
                    "burn" => TxOutput::Burn(v),
                    x => panic!("driver: form {x}"),
                }
            }
            "lock" => {
                let n = u("n");
                let l = match str_of(&o["kind"]) {
                    "blocks" => OutputTimeLock::ForBlockCount(n),
                    "seconds" => OutputTimeLock::ForSeconds(n),
                    "height" => OutputTimeLock::UntilHeight(BlockHeight::new(n)),
                    _ => OutputTimeLock::UntilTime(block::timestamp::BlockTimestamp::from_int_seconds(n)),
                };
                TxOutput::LockThenTransfer(self.val(u("c"), &o["v"]), dest(1), l)
            }
            "stake" => TxOutput::CreateStakePool(pid(3), Box::new(data(self.amt(0, &o["v"])))),
            "delegate" => TxOutput::DelegateStaking(self.amt(0, &o["v"]), did(1)),
            "produce" => TxOutput::ProduceBlockFromStake(dest(1), pid(1)),
            "cdel" => TxOutput::CreateDelegationId(dest(1), pid(1)),
            "order" => TxOutput::CreateOrder(Box::new(OrderData::new(dest(1), OutputValue::TokenV1(tid(3), Amount::from_atoms(77)), self.val(u("c"), &o["v"])))),
            "data" => output(9),
            "issue" => output(7),
            "nft" => output(8),
            "pool" => {
                if str_of(&o["f"]) == "create" {
                    TxOutput::CreateStakePool(pid(u("p")), Box::new(data(Amount::from_atoms(5))))
                } else {
                    TxOutput::ProduceBlockFromStake(dest(1), pid(u("p")))
                }
            }
            "nftin" => match output(8) {
                TxOutput::IssueNft(_, n, d) => TxOutput::IssueNft(tid(u("c")), n, d),
                _ => unreachable!(),
            },
            x => panic!("driver: output {x}"),
        }
    }
    fn input(&self, i: usize, a: &Value) -> (TxInput, Option<TxOutput>) {
        let u = |k: &str| a[k].as_u64().expect("driver: number");
        let utxo = |o: Option<TxOutput>| (TxInput::from_utxo(OutPointSourceId::Transaction(Id::new(H256::repeat_byte(9))), i as u32), o);
        let cmd = |c| (TxInput::AccountCommand(AccountNonce::new(1), c), None);
        let ord = |c| (TxInput::OrderAccountCommand(c), None);
        let new = a["via"] == "new";
        match str_of(&a["k"]) {
            "out" => utxo(Some(self.output(a))),
            "pool" => utxo(Some(self.output(a))),
            "nft" => utxo(Some(self.output(&json!({"k": "nftin", "c": a["c"]})))),
            "missing" => utxo(None),
            "bad" => utxo(Some(match str_of(&a["f"]) {
                "burn" => output(2),
                "data" => output(9),
                "cdel" => output(5),
                "issue" => output(7),
                _ => output(11),
            })),
            "spend" => (TxInput::Account(AccountOutPoint::new(AccountNonce::new(3), AccountSpending::DelegationBalance(did(u("d")), self.amt(0, &a["v"])))), None),
            "mint" => cmd(AccountCommand::MintTokens(tid(u("id")), self.amt(1, &a["v"]))),
            "unmint" => cmd(AccountCommand::UnmintTokens(tid(u("id")))),
            "locksupply" => cmd(AccountCommand::LockTokenSupply(tid(u("id")))),
            "freeze" => cmd(AccountCommand::FreezeToken(tid(u("id")), IsTokenUnfreezable::Yes)),
            "unfreeze" => cmd(AccountCommand::UnfreezeToken(tid(u("id")))),
            "auth" => cmd(AccountCommand::ChangeTokenAuthority(tid(u("id")), dest(3))),
            "uri" => cmd(AccountCommand::ChangeTokenMetadataUri(tid(u("id")), b"u".to_vec())),
            "fill" => {
                // the amount is in the currency that the order asks for
                let c = orders_accounting::OrdersAccountingView::get_order_data(&*self.o.1.borrow(), &oid(u("id"))).ok().flatten();
                let c = if matches!(c.map(|d| CoinOrTokenId::from_output_value(d.ask())), Some(Some(CoinOrTokenId::Coin))) { 0 } else { 1 };
                let v = self.amt(c, &a["v"]);
                if new { ord(OrderAccountCommand::FillOrder(oid(u("id")), v)) } else { cmd(AccountCommand::FillOrder(oid(u("id")), v, dest(1))) }
            }
            "conclude" => {
                if new { ord(OrderAccountCommand::ConcludeOrder(oid(u("id")))) } else { cmd(AccountCommand::ConcludeOrder(oid(u("id")))) }
            }
            "freezeorder" => ord(OrderAccountCommand::FreezeOrder(oid(u("id")))),
            x => panic!("driver: input {x}"),
        }
    }
    fn cfg(&mut self, a: &Value) {
        let (m, v) = (a["mat"].as_u64().expect("driver: mat"), a["ver"].as_u64().expect("driver: ver"));
        self.cfgs.entry((m, v)).or_insert_with(|| {
            let up = ChainstateUpgradeBuilder::latest();
            let old = ChainstateUpgradeBuilder::latest().tokens_fee_version(TokensFeeVersion::V0).data_deposit_fee_version(DataDepositFeeVersion::V0).orders_version(OrdersVersion::V0).build();
            let ups = NetUpgrades::initialize(if v == 0 { vec![(BlockHeight::zero(), old)] } else { vec![(BlockHeight::zero(), old), (BlockHeight::new(5), up.build())] }).expect("driver: upgrades");
            Builder::new(ChainType::Regtest).chainstate_upgrades(ups).empty_consensus_reward_maturity_block_count(BlockCount::new(m)).consensus_upgrades(NetUpgrades::unit_tests()).build()
        });
    }
    fn judge(&self, a: &Value, t: &Value) -> Result<AccumulatedFee, Error> {
        let cfg = &self.cfgs[&(a["mat"].as_u64().expect("driver: mat"), a["ver"].as_u64().expect("driver: ver"))];
        let (ins, utxos): (Vec<_>, Vec<_>) = t["ins"].as_array().expect("driver: ins").iter().enumerate().map(|(i, x)| self.input(i, x)).unzip();
        let outs: Vec<_> = t["outs"].as_array().expect("driver: outs").iter().map(|x| self.output(x)).collect();
        let h = BlockHeight::new(5);
        let i = ConstrainedValueAccumulator::from_inputs(cfg, h, &*self.o.1.borrow(), &*self.p.1.borrow(), &*self.k.1.borrow(), &ins, &utxos)?;
        let o = ConstrainedValueAccumulator::from_outputs(cfg, h, &outs)?;
        i.satisfy_with(o)
    }
}
pub struct FM(Option<Funds>);
impl FM {
    pub fn new() -> Self {
        FM(None)
    }
}
impl Machine for FM {
    fn setup(&mut self, a: &Value) {
        self.0 = Some(Funds::new(a));
    }
    fn step(&mut self, a: &Value) -> Value {
        let s = self.0.as_mut().expect("driver: setup");
        let refused = |e: String| json!({"k": "refused", "why": e});
        match str_of(&a["op"]) {
            "p" => { let x = s.scaled(&a["act"], &["pledge", "cost", "v"]); act::<Pools>(&s.f, &mut s.p, &x) },
            "k" => act::<Tokens>(&s.f, &mut s.k, &a["act"]),
            "o" => {
                let x = &a["act"];
                let mut fs = vec![];
                if x["op"] == "create" {
                    if x["askc"] == 0 { fs.push("ask") }
                    if x["givec"] == 0 { fs.push("give") }
                } else if x["op"] == "fill" {
                    let d = orders_accounting::OrdersAccountingView::get_order_data(&*s.o.1.borrow(), &oid(x["id"].as_u64().expect("driver: id"))).ok().flatten();
                    if matches!(d.map(|d| CoinOrTokenId::from_output_value(d.ask())), Some(Some(CoinOrTokenId::Coin))) { fs.push("v") }
                }
                let x = s.scaled(x, &fs);
                act::<Orders>(&s.f, &mut s.o, &x)
            }
            "txs" => {
                s.cfg(a);
                let cfg = &s.cfgs[&(a["mat"].as_u64().expect("driver: mat"), a["ver"].as_u64().expect("driver: ver"))];
                let r = a["txs"].as_array().expect("driver: txs").iter().try_fold(AccumulatedFee::new(), |acc, t| acc.combine(s.judge(a, t)?));
                match r.and_then(|f| f.map_into_block_fees(cfg, BlockHeight::new(5))) {
                    Ok(Fee(x)) => {
                        let x = x.into_atoms();
                        if !s.f.plain {
                            json!({"k": "fee", "v": num(x)})
                        } else if x % s.coin == 0 {
                            json!({"k": "fee", "v": (x / s.coin) as u64})
                        } else {
                            json!({"k": "fee", "v": format!("atoms {x}")})
                        }
                    }
                    Err(e) => refused(variant(&e)),
                }
            }
            "reward" => {
                s.cfg(a);
                let cfg = &s.cfgs[&(a["mat"].as_u64().expect("driver: mat"), a["ver"].as_u64().expect("driver: ver"))];
                let outs: Vec<_> = a["outs"].as_array().expect("driver: outs").iter().map(|x| s.output(x)).collect();
                let Some(i) = ConstrainedValueAccumulator::from_block_reward(Fee(s.amt(0, &a["fee"])), Subsidy(s.amt(0, &a["subsidy"]))) else {
                    return refused("overflow".into());
                };
                match ConstrainedValueAccumulator::from_outputs(cfg, BlockHeight::new(5), &outs).and_then(|o| i.satisfy_with(o)) {
                    Ok(_) => json!({"k": "ok"}),
                    Err(e) => refused(variant(&e)),
                }
            }
            x => panic!("driver: op {x}"),
        }
    }
}
