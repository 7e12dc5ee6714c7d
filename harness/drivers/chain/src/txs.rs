//! The catalogue of transactions of Chains.tla, as real transactions.
use common::{
    chain::{
        block::timestamp::BlockTimestamp, make_delegation_id, make_order_id, make_pool_id, make_token_id, output_value::OutputValue, signature::inputsig::InputWitness, stakelock::StakePoolData,
        timelock::OutputTimeLock, tokens::*, AccountCommand, AccountNonce, AccountOutPoint, AccountSpending, ChainConfig, DelegationId, Destination, OrderAccountCommand, OrderData, OrderId, OutPointSourceId,
        PoolId, SignedTransaction, Transaction, TxInput, TxOutput, UtxoOutPoint,
    },
    primitives::{per_thousand::PerThousand, Amount, BlockHeight, Idable},
};
use std::collections::BTreeMap;

pub const COIN: u128 = 100_000_000_000;
pub const T0: u64 = 1_700_000_000;
const ANY: Destination = Destination::AnyoneCanSpend;

pub fn coins(n: u128) -> Amount {
    Amount::from_atoms(n * COIN)
}
pub fn pay(n: u128) -> TxOutput {
    TxOutput::Transfer(OutputValue::Coin(coins(n)), ANY)
}
pub fn genesis_outputs() -> Vec<TxOutput> {
    (0..9).map(|_| pay(1_000_000)).collect()
}

/// Everything the facts of the specification speak of.
#[derive(Default)]
pub struct Book {
    pub tx: BTreeMap<String, SignedTransaction>,
    pub coin: BTreeMap<String, UtxoOutPoint>,
    pub pool: Option<PoolId>,
    pub deleg: Option<DelegationId>,
    pub token: Option<TokenId>,
    pub nft: Option<TokenId>,
    pub order: Option<OrderId>,
}

impl Book {
    fn add(&mut self, name: &str, ins: Vec<TxInput>, outs: Vec<TxOutput>, names: &[&str]) {
        assert!(names.len() <= outs.len(), "driver: names");
        let n = ins.len();
        let tx = SignedTransaction::new(Transaction::new(0, ins, outs).expect("driver: tx"), vec![InputWitness::NoSignature(None); n]).expect("driver: tx");
        let id = tx.transaction().get_id();
        for (i, c) in names.iter().enumerate() {
            if !c.is_empty() {
                self.coin.insert(c.to_string(), UtxoOutPoint::new(OutPointSourceId::Transaction(id), i as u32));
            }
        }
        self.tx.insert(name.to_string(), tx);
    }
    fn c(&self, n: &str) -> TxInput {
        TxInput::Utxo(self.coin.get(n).unwrap_or_else(|| panic!("driver: coin {n}")).clone())
    }

    pub fn new(config: &ChainConfig) -> Self {
        let mut b = Book::default();
        for i in 0..9 {
            b.coin.insert(format!("g{i}"), UtxoOutPoint::new(OutPointSourceId::BlockReward(config.genesis_block_id()), i));
        }
        let at = BlockHeight::new(1);
        let tok = |id: TokenId, n: u128| TxOutput::Transfer(OutputValue::TokenV1(id, Amount::from_atoms(n)), ANY);
        let lock = |n: u128, l: OutputTimeLock| TxOutput::LockThenTransfer(OutputValue::Coin(coins(n)), ANY, l);
        // plain coins
        b.add("split", vec![b.c("g0")], vec![pay(400_000), pay(500_000)], &["a0", "a1"]);
        b.add("alt", vec![b.c("g0")], vec![pay(900_000)], &["b0"]);
        b.add("a0c", vec![b.c("a0")], vec![pay(400_000)], &["c0"]);
        b.add("a0g1", vec![b.c("a0"), b.c("g1")], vec![pay(1_300_000)], &["d0"]);
        b.add("b0e", vec![b.c("b0")], vec![pay(800_000)], &["e0"]);
        b.add("over", vec![b.c("g1")], vec![pay(1_000_001)], &["f0"]);
        // time locks
        b.add("lockh", vec![b.c("g6")], vec![lock(900_000, OutputTimeLock::UntilHeight(BlockHeight::new(3)))], &["r0"]);
        b.add("openh", vec![b.c("r0")], vec![pay(900_000)], &["s0"]);
        b.add("lockn", vec![b.c("g7")], vec![lock(900_000, OutputTimeLock::ForBlockCount(2))], &["t0"]);
        b.add("openn", vec![b.c("t0")], vec![pay(900_000)], &["v0"]);
        b.add("lockt", vec![b.c("g8")], vec![lock(900_000, OutputTimeLock::UntilTime(BlockTimestamp::from_int_seconds(T0 + 20)))], &["w0"]);
        b.add("opent", vec![b.c("w0")], vec![pay(900_000)], &["x0"]);
        // pools and delegations
        let ins = vec![b.c("g2")];
        let pool = make_pool_id(&ins).expect("driver: pool id");
        let data = StakePoolData::new(coins(40_000), ANY, crate::vrf_key(), ANY, PerThousand::new(10).expect("driver: rate"), Amount::ZERO);
        b.add("pool", ins, vec![TxOutput::CreateStakePool(pool, Box::new(data)), pay(900_000)], &["p0", "h0"]);
        let ins = vec![b.c("h0")];
        let deleg = make_delegation_id(&ins).expect("driver: delegation id");
        b.add("deleg", ins, vec![TxOutput::CreateDelegationId(ANY, pool), pay(800_000)], &["", "h1"]);
        b.add("stake", vec![b.c("h1")], vec![TxOutput::DelegateStaking(coins(1000), deleg), pay(700_000)], &["", "h2"]);
        let far = config.staking_pool_spend_maturity_block_count(at);
        b.add(
            "wd",
            vec![TxInput::Account(AccountOutPoint::new(AccountNonce::new(0), AccountSpending::DelegationBalance(deleg, coins(600))))],
            vec![lock(600, OutputTimeLock::ForBlockCount(far.to_int()))],
            &["u0"],
        );
        b.add("decom", vec![b.c("p0")], vec![lock(40_000, OutputTimeLock::ForBlockCount(far.to_int()))], &["q0"]);
        // tokens
        let ins = vec![b.c("g3")];
        let token = make_token_id(config, at, &ins).expect("driver: token id");
        let issue = TokenIssuance::V1(TokenIssuanceV1 {
            token_ticker: b"ABC".to_vec(),
            number_of_decimals: 2,
            metadata_uri: b"http://x.y".to_vec(),
            total_supply: TokenTotalSupply::Lockable,
            authority: ANY,
            is_freezable: IsTokenFreezable::Yes,
        });
        b.add("issue", ins, vec![TxOutput::IssueFungibleToken(Box::new(issue)), pay(900_000)], &["", "j0"]);
        let cmd = |n: u64, c: AccountCommand| TxInput::AccountCommand(AccountNonce::new(n), c);
        b.add("mint", vec![b.c("j0"), cmd(0, AccountCommand::MintTokens(token, Amount::from_atoms(1000)))], vec![tok(token, 1000), pay(800_000)], &["k0", "j1"]);
        b.add("freeze", vec![b.c("j1"), cmd(1, AccountCommand::FreezeToken(token, IsTokenUnfreezable::Yes))], vec![pay(700_000)], &["j2"]);
        b.add("thaw", vec![b.c("j2"), cmd(2, AccountCommand::UnfreezeToken(token))], vec![pay(600_000)], &["j3"]);
        b.add("ktrans", vec![b.c("k0")], vec![tok(token, 600), tok(token, 400)], &["k1", "k2"]);
        // orders
        let ins = vec![b.c("k0")];
        let order = make_order_id(&ins).expect("driver: order id");
        let od = OrderData::new(ANY, OutputValue::Coin(coins(500)), OutputValue::TokenV1(token, Amount::from_atoms(1000)));
        b.add("order", ins, vec![TxOutput::CreateOrder(Box::new(od))], &[""]);
        b.add(
            "fill",
            vec![b.c("g4"), TxInput::OrderAccountCommand(OrderAccountCommand::FillOrder(order, coins(100)))],
            vec![tok(token, 200), pay(900_000)],
            &["l0", "m0"],
        );
        let concl = || TxInput::OrderAccountCommand(OrderAccountCommand::ConcludeOrder(order));
        b.add("conclp", vec![concl()], vec![tok(token, 800), pay(100)], &["n0", "n1"]);
        b.add("conclf", vec![concl()], vec![tok(token, 1000)], &["n2"]);
        // an nft
        let ins = vec![b.c("g5")];
        let nft = make_token_id(config, at, &ins).expect("driver: nft id");
        let meta = NftIssuance::V0(NftIssuanceV0 {
            metadata: Metadata {
                creator: None,
                name: b"name".to_vec(),
                description: b"text".to_vec(),
                ticker: b"NFT".to_vec(),
                icon_uri: None.into(),
                additional_metadata_uri: None.into(),
                media_uri: None.into(),
                media_hash: vec![7; 32],
            },
        });
        b.add("nft", ins, vec![TxOutput::IssueNft(nft, Box::new(meta), ANY), pay(900_000)], &["o0", "o1"]);
        b.pool = Some(pool);
        b.deleg = Some(deleg);
        b.token = Some(token);
        b.nft = Some(nft);
        b.order = Some(order);
        b
    }
}
