//! Authorisation of inputs: signatures, secrets and time locks judged by the verifier.
use crate::objs::{h, VRF};
use chainstate_types::{storage_result, BlockIndex, BlockStatus, GenBlockIndex, TipStorageTag};
use common::{
    address::pubkeyhash::PublicKeyHash,
    chain::{
        block::{timestamp::BlockTimestamp, Block, BlockReward, BlockRewardTransactable, ConsensusData},
        classic_multisig::ClassicMultisigChallenge,
        config::{Builder, ChainType},
        htlc::{HashedTimelockContract, HtlcSecret, HtlcSecretHash},
        output_value::OutputValue,
        signature::{
            inputsig::{
                authorize_hashed_timelock_contract_spend::AuthorizedHashedTimelockContractSpend,
                authorize_pubkey_spend::AuthorizedPublicKeySpend,
                authorize_pubkeyhash_spend::AuthorizedPublicKeyHashSpend,
                classical_multisig::authorize_classical_multisig::{sign_classical_multisig_spending, verify_classical_multisig_spending, AuthorizedClassicalMultisigSpend},
                htlc::{produce_uniparty_signature_for_htlc_refunding, produce_uniparty_signature_for_htlc_spending},
                standard_signature::StandardInputSignature,
                InputWitness,
            },
            sighash::{
                input_commitments::{
                    make_sighash_input_commitments_for_kernel_input_utxos, make_sighash_input_commitments_for_transaction_inputs, OrderInfo, OrderInfoProvider, PoolInfo, PoolInfoProvider,
                    SighashInputCommitment, UtxoProvider,
                },
                sighashtype::SigHashType,
                signature_hash,
            },
            Signable, Transactable,
        },
        stakelock::StakePoolData,
        timelock::OutputTimeLock,
        tokens::*,
        *,
    },
    primitives::{id::WithId, per_thousand::PerThousand, Amount, BlockHeight, Id, Idable, H256},
    Uint256,
};
use crypto::key::{KeyKind, PredefinedSigAuxDataProvider, PrivateKey, PublicKey, Signature};
use drvlib::*;
use orders_accounting::{InMemoryOrdersAccounting, OrdersAccountingDB};
use pos_accounting::{DelegationData, InMemoryPoSAccounting, PoSAccountingDB, PoolData};
use serialization::{DecodeAll, Encode};
use std::{borrow::Cow, collections::BTreeMap};
use tokens_accounting::{FungibleTokenData, InMemoryTokensAccounting, TokensAccountingDB};
use tx_verifier::transaction_verifier::{
    input_check::{signature_only_check::verify_tx_signature, verify_full, verify_timelocks},
    storage::TransactionVerifierStorageRef,
    CachedBlockUndo, CachedUtxosBlockUndo, TransactionSource, TransactionSourceForConnect,
};
use utxo::{Utxo, UtxoSource, UtxosDB, UtxosDBInMemoryImpl, UtxosStorageRead};

fn u(v: &Value) -> u64 {
    v.as_u64().expect("driver: number")
}
fn arr(v: &Value) -> &[Value] {
    v.as_array().map(|x| x.as_slice()).unwrap_or(&[])
}
thread_local! {
    static KEYS: Vec<(PrivateKey, PublicKey)> = (0..40u8).map(|i| {
        let mut rng = <rand::rngs::StdRng as randomness::SeedableRng>::seed_from_u64(i as u64);
        PrivateKey::new_from_rng(&mut rng, KeyKind::Secp256k1Schnorr)
    }).collect();
}
fn sk(i: u64) -> PrivateKey {
    KEYS.with(|k| k[i as usize].0.clone())
}
fn pk(i: u64) -> PublicKey {
    KEYS.with(|k| k[i as usize].1.clone())
}
fn challenge(min: &Value, keys: &Value) -> ClassicMultisigChallenge {
    let enc = (u(min) as u8, arr(keys).iter().map(|k| pk(u(k))).collect::<Vec<_>>()).encode();
    ClassicMultisigChallenge::decode_all(&mut enc.as_slice()).expect("driver: challenge")
}
fn dest(d: &Value) -> Destination {
    match str_of(&d["f"]) {
        "any" => Destination::AnyoneCanSpend,
        "pk" => Destination::PublicKey(pk(u(&d["key"]))),
        "pkh" => Destination::PublicKeyHash((&pk(u(&d["key"]))).into()),
        "sh" => Destination::ScriptHash(Id::new(h(u(&d["key"])))),
        "ms" => Destination::ClassicMultisig(PublicKeyHash::from(&challenge(&d["min"], &d["keys"]))),
        x => panic!("driver: destination {x}"),
    }
}
fn lock(l: &Value) -> OutputTimeLock {
    let n: u64 = get_num(&l["n"]);
    match str_of(&l["k"]) {
        "height" => OutputTimeLock::UntilHeight(BlockHeight::new(n)),
        "time" => OutputTimeLock::UntilTime(BlockTimestamp::from_int_seconds(n)),
        "blocks" => OutputTimeLock::ForBlockCount(n),
        _ => OutputTimeLock::ForSeconds(n),
    }
}
/// Secrets below 100 are that byte over and over; 200 + 4p + c is secret c but for byte p.
fn secret(s: &Value) -> HtlcSecret {
    let n = u(s);
    let mut x = [n as u8; 32];
    if n >= 200 {
        x = [(n % 4) as u8; 32];
        x[(n as usize - 200) / 4 % 32] ^= 0x80;
    }
    HtlcSecret::new(x)
}
/// What locks an output to a secret; 100 + 4p + c (below 180) is the lock of secret c but for byte p, which no secret here opens.
fn secret_lock(s: &Value) -> HtlcSecretHash {
    let n = u(s);
    if (100..180).contains(&n) {
        let mut x = secret(&json!(n % 4)).hash();
        x.0[(n as usize - 100) / 4] ^= 0x01;
        return x;
    }
    secret(s).hash()
}
fn amt(v: &Value) -> Amount {
    Amount::from_atoms(u(v) as u128)
}
fn money(v: &Value) -> OutputValue {
    OutputValue::Coin(amt(v))
}
fn pool_id() -> PoolId {
    PoolId::new(h(1))
}
fn deleg_id() -> DelegationId {
    DelegationId::new(h(1))
}
fn token_id() -> TokenId {
    TokenId::new(h(1))
}
fn order_id() -> OrderId {
    OrderId::new(h(1))
}
fn utxo_out(o: &Value) -> TxOutput {
    let (d, d2) = (|| dest(&o["d"]), || dest(&o["d2"]));
    let v = u(&o["v"]);
    match str_of(&o["k"]) {
        "transfer" => TxOutput::Transfer(money(&o["v"]), d()),
        "lock" => TxOutput::LockThenTransfer(money(&o["v"]), d(), lock(&o["lock"])),
        "pool" => TxOutput::CreateStakePool(
            pool_id(),
            Box::new(StakePoolData::new(amt(&o["v"]), d2(), VRF.with(|x| x.clone()), d(), PerThousand::new(5).expect("driver: rate"), Amount::ZERO)),
        ),
        "produce" => TxOutput::ProduceBlockFromStake(d(), if v == 1 { pool_id() } else { PoolId::new(h(v)) }),
        "htlc" => TxOutput::Htlc(
            money(&o["v"]),
            Box::new(HashedTimelockContract { secret_hash: secret_lock(&o["secret"]), spend_key: d(), refund_timelock: lock(&o["lock"]), refund_key: d2() }),
        ),
        "nft" => match crate::objs::output(8) {
            TxOutput::IssueNft(_, n, _) => TxOutput::IssueNft(TokenId::new(h(v)), n, d()),
            _ => unreachable!(),
        },
        "burn" => TxOutput::Burn(money(&o["v"])),
        "data" => TxOutput::DataDeposit(vec![v as u8; 3]),
        "cdel" => TxOutput::CreateDelegationId(d(), pool_id()),
        "delegate" => TxOutput::DelegateStaking(amt(&o["v"]), deleg_id()),
        "issue" => crate::objs::output(7),
        "order" => TxOutput::CreateOrder(Box::new(OrderData::new(Destination::AnyoneCanSpend, money(&o["v"]), OutputValue::TokenV1(token_id(), Amount::from_atoms(9))))),
        x => panic!("driver: utxo {x}"),
    }
}
fn outpoint(n: u64) -> UtxoOutPoint {
    UtxoOutPoint::new(OutPointSourceId::Transaction(Id::new(h(n))), n as u32)
}
fn input(x: &Value) -> TxInput {
    let n = u(&x["n"]);
    let one = Amount::from_atoms(7);
    match str_of(&x["k"]) {
        "utxo" => TxInput::Utxo(outpoint(n)),
        "deleg" => TxInput::Account(AccountOutPoint::new(AccountNonce::new(n), AccountSpending::DelegationBalance(deleg_id(), one))),
        "cmd" => TxInput::AccountCommand(
            AccountNonce::new(n),
            match str_of(&x["c"]) {
                "mint" => AccountCommand::MintTokens(token_id(), one),
                "unmint" => AccountCommand::UnmintTokens(token_id()),
                "locksupply" => AccountCommand::LockTokenSupply(token_id()),
                "freeze" => AccountCommand::FreezeToken(token_id(), IsTokenUnfreezable::Yes),
                "unfreeze" => AccountCommand::UnfreezeToken(token_id()),
                "uri" => AccountCommand::ChangeTokenMetadataUri(token_id(), vec![1]),
                "auth" => AccountCommand::ChangeTokenAuthority(token_id(), dest(&json!({"f": "pk", "key": 9}))),
                "conclude" => AccountCommand::ConcludeOrder(order_id()),
                "fill" => AccountCommand::FillOrder(order_id(), one, dest(&json!({"f": "pk", "key": 9}))),
                c => panic!("driver: command {c}"),
            },
        ),
        "ocmd" => TxInput::OrderAccountCommand(match str_of(&x["c"]) {
            "fill" => OrderAccountCommand::FillOrder(order_id(), Amount::from_atoms(n as u128)),
            "freezeorder" => OrderAccountCommand::FreezeOrder(order_id()),
            _ => OrderAccountCommand::ConcludeOrder(order_id()),
        }),
        k => panic!("driver: input {k}"),
    }
}
fn mode(m: &Value) -> SigHashType {
    let b = match str_of(&m["o"]) {
        "all" => SigHashType::ALL,
        "none" => SigHashType::NONE,
        _ => SigHashType::SINGLE,
    };
    SigHashType::try_from(b | if m["any"] == true { SigHashType::ANYONECANPAY } else { 0 }).expect("driver: mode")
}
/// a transaction or a reward without signatures
struct Body {
    tx: Option<Transaction>,
    ins: Vec<TxInput>,
    outs: Vec<TxOutput>,
}
impl Body {
    fn new(t: &Value) -> Self {
        let ins: Vec<_> = arr(&t["ins"]).iter().map(input).collect();
        let outs: Vec<_> = arr(&t["outs"]).iter().map(|o| TxOutput::Transfer(money(o), Destination::AnyoneCanSpend)).collect();
        let tx = (t["ty"] == "tx").then(|| Transaction::new(get_num::<u128>(&t["flags"]), ins.clone(), outs.clone()).expect("driver: transaction"));
        Body { tx, ins, outs }
    }
}
impl Signable for Body {
    fn inputs(&self) -> Option<&[TxInput]> {
        Some(&self.ins)
    }
    fn outputs(&self) -> Option<&[TxOutput]> {
        Some(&self.outs)
    }
    fn version_byte(&self) -> Option<u8> {
        match &self.tx {
            Some(t) => Signable::version_byte(t),
            None => Signable::version_byte(&BlockRewardTransactable::new(Some(&self.ins), Some(&self.outs), None)),
        }
    }
    fn flags(&self) -> Option<u128> {
        match &self.tx {
            Some(t) => Signable::flags(t),
            None => Signable::flags(&BlockRewardTransactable::new(Some(&self.ins), Some(&self.outs), None)),
        }
    }
}
/// the state against which inputs are judged
struct World<'a>(&'a Value);
impl<'a> UtxoProvider<'a> for World<'a> {
    type Error = std::convert::Infallible;
    fn get_utxo(&self, _: usize, o: &UtxoOutPoint) -> Result<Option<Cow<'a, TxOutput>>, Self::Error> {
        Ok(arr(&self.0["utxos"]).get((o.output_index() as usize).wrapping_sub(1)).map(|x| Cow::Owned(utxo_out(x))))
    }
}
impl PoolInfoProvider for World<'_> {
    type Error = std::convert::Infallible;
    fn get_pool_info(&self, _: &PoolId) -> Result<Option<PoolInfo>, Self::Error> {
        let p = &self.0["pool"];
        Ok((p["here"] == true).then(|| PoolInfo { staker_balance: amt(&p["bal"]) }))
    }
}
impl OrderInfoProvider for World<'_> {
    type Error = std::convert::Infallible;
    fn get_order_info(&self, _: &OrderId) -> Result<Option<OrderInfo>, Self::Error> {
        let o = &self.0["order"];
        Ok((o["here"] == true).then(|| OrderInfo {
            initially_asked: money(&o["ia"]),
            initially_given: OutputValue::TokenV1(token_id(), amt(&o["ig"])),
            ask_balance: amt(&o["a"]),
            give_balance: amt(&o["g"]),
        }))
    }
}
impl World<'_> {
    fn commitments(&self, b: &Body, ver: u64) -> Option<Vec<SighashInputCommitment<'static>>> {
        if b.tx.is_some() {
            let v = if ver == 0 { SighashInputCommitmentVersion::V0 } else { SighashInputCommitmentVersion::V1 };
            let c = make_sighash_input_commitments_for_transaction_inputs(&b.ins, self, self, self, v).ok()?;
            Some(c.iter().map(|x| x.deep_clone()).collect())
        } else {
            let outs: Option<Vec<TxOutput>> = b
                .ins
                .iter()
                .map(|i| match i {
                    TxInput::Utxo(o) => self.get_utxo(0, o).expect("infallible").map(|c| c.into_owned()),
                    _ => None,
                })
                .collect();
            Some(make_sighash_input_commitments_for_kernel_input_utxos(&outs?).iter().map(|x| x.deep_clone()).collect())
        }
    }
}
struct Store {
    blocks: BTreeMap<Id<GenBlock>, GenBlockIndex>,
}
impl UtxosStorageRead for Store {
    type Error = storage_result::Error;
    fn get_utxo(&self, _: &UtxoOutPoint) -> Result<Option<Utxo>, Self::Error> {
        unimplemented!()
    }
    fn get_best_block_for_utxos(&self) -> Result<Id<GenBlock>, Self::Error> {
        unimplemented!()
    }
}
impl pos_accounting::PoSAccountingStorageRead<TipStorageTag> for Store {
    type Error = storage_result::Error;
    fn get_pool_balance(&self, _: PoolId) -> Result<Option<Amount>, Self::Error> {
        unimplemented!()
    }
    fn get_pool_data(&self, _: PoolId) -> Result<Option<PoolData>, Self::Error> {
        unimplemented!()
    }
    fn get_delegation_balance(&self, _: DelegationId) -> Result<Option<Amount>, Self::Error> {
        unimplemented!()
    }
    fn get_delegation_data(&self, _: DelegationId) -> Result<Option<DelegationData>, Self::Error> {
        unimplemented!()
    }
    fn get_pool_delegations_shares(&self, _: PoolId) -> Result<Option<BTreeMap<DelegationId, Amount>>, Self::Error> {
        unimplemented!()
    }
    fn get_pool_delegation_share(&self, _: PoolId, _: DelegationId) -> Result<Option<Amount>, Self::Error> {
        unimplemented!()
    }
}
impl tokens_accounting::TokensAccountingStorageRead for Store {
    type Error = storage_result::Error;
    fn get_token_data(&self, _: &TokenId) -> Result<Option<tokens_accounting::TokenData>, Self::Error> {
        unimplemented!()
    }
    fn get_circulating_supply(&self, _: &TokenId) -> Result<Option<Amount>, Self::Error> {
        unimplemented!()
    }
}
impl orders_accounting::OrdersAccountingStorageRead for Store {
    type Error = storage_result::Error;
    fn get_order_data(&self, _: &OrderId) -> Result<Option<orders_accounting::OrderData>, Self::Error> {
        unimplemented!()
    }
    fn get_ask_balance(&self, _: &OrderId) -> Result<Option<Amount>, Self::Error> {
        unimplemented!()
    }
    fn get_give_balance(&self, _: &OrderId) -> Result<Option<Amount>, Self::Error> {
        unimplemented!()
    }
    fn get_all_order_ids(&self) -> Result<std::collections::BTreeSet<OrderId>, Self::Error> {
        unimplemented!()
    }
}
impl TransactionVerifierStorageRef for Store {
    type Error = storage_result::Error;
    fn get_token_id_from_issuance_tx(&self, _: Id<Transaction>) -> Result<Option<TokenId>, storage_result::Error> {
        unimplemented!()
    }
    fn get_gen_block_index(&self, id: &Id<GenBlock>) -> Result<Option<GenBlockIndex>, storage_result::Error> {
        Ok(self.blocks.get(id).cloned())
    }
    fn get_undo_data(&self, _: TransactionSource) -> Result<Option<CachedUtxosBlockUndo>, storage_result::Error> {
        unimplemented!()
    }
    fn get_token_aux_data(&self, _: &TokenId) -> Result<Option<TokenAuxiliaryData>, storage_result::Error> {
        unimplemented!()
    }
    fn get_pos_accounting_undo(&self, _: TransactionSource) -> Result<Option<CachedBlockUndo<pos_accounting::PoSAccountingUndo>>, storage_result::Error> {
        unimplemented!()
    }
    fn get_tokens_accounting_undo(&self, _: TransactionSource) -> Result<Option<CachedBlockUndo<tokens_accounting::TokenAccountingUndo>>, storage_result::Error> {
        unimplemented!()
    }
    fn get_account_nonce_count(&self, _: AccountType) -> Result<Option<AccountNonce>, storage_result::Error> {
        unimplemented!()
    }
    fn get_orders_accounting_undo(&self, _: TransactionSource) -> Result<Option<CachedBlockUndo<orders_accounting::OrdersAccountingUndo>>, storage_result::Error> {
        unimplemented!()
    }
}

pub struct Spends {
    cfg: BTreeMap<u64, ChainConfig>,
    auth: AuthorizedClassicalMultisigSpend,
    sigs: BTreeMap<Vec<u8>, Signature>,
}
fn config(ver: u64) -> ChainConfig {
    let cv = if ver == 0 { SighashInputCommitmentVersion::V0 } else { SighashInputCommitmentVersion::V1 };
    let up = ChainstateUpgradeBuilder::latest().sighash_input_commitment_version(cv).build();
    Builder::new(ChainType::Regtest)
        .chainstate_upgrades(NetUpgrades::initialize(vec![(BlockHeight::zero(), up)]).expect("driver: upgrades"))
        .genesis_custom(Genesis::new("check".into(), BlockTimestamp::from_int_seconds(0), vec![]))
        .build()
}
fn new_auth(min: &Value, keys: &Value) -> AuthorizedClassicalMultisigSpend {
    AuthorizedClassicalMultisigSpend::new_empty(challenge(min, keys))
}
impl Spends {
    pub fn new() -> Self {
        Spends { cfg: [(0, config(0)), (1, config(1))].into(), auth: new_auth(&json!(1), &json!([1])), sigs: BTreeMap::new() }
    }
    /// the signature by a key of a hash; every byte string is signed once
    fn sign(&mut self, key: u64, hash: Option<H256>) -> Signature {
        match hash {
            Some(x) => {
                let msg = x.encode();
                let k = (key, &msg).encode();
                self.sigs
                    .entry(k)
                    .or_insert_with(|| sk(key).sign_message(&msg, &mut PredefinedSigAuxDataProvider).expect("driver: sign"))
                    .clone()
            }
            None => sk(key).sign_message(b"something else", &mut PredefinedSigAuxDataProvider).expect("driver: sign"),
        }
    }
    fn hash_of(&self, a: &Value, m: u64) -> Option<H256> {
        let m = a["msgs"].get((m as usize).checked_sub(1)?)?;
        let w = World(&a["worlds"][u(&m["w"]) as usize - 1]);
        let b = Body::new(&m["tx"]);
        signature_hash(mode(&m["mode"]), &b, &w.commitments(&b, u(&m["ver"]))?, u(&m["i"]) as usize - 1).ok()
    }
    fn sg(&mut self, a: &Value, s: &Value) -> Signature {
        let hash = self.hash_of(a, u(&s["m"]));
        self.sign(u(&s["key"]), hash)
    }
    fn body(&mut self, a: &Value, b: &Value) -> Vec<u8> {
        match str_of(&b["f"]) {
            "pk" => AuthorizedPublicKeySpend::new(self.sg(a, &b["sg"])).encode(),
            "pkh" => AuthorizedPublicKeyHashSpend::new(pk(u(&b["pub"])), self.sg(a, &b["sg"])).encode(),
            "ms" => {
                let mut x = new_auth(&b["min"], &b["keys"]);
                for s in arr(&b["sigs"]) {
                    x.add_signature((u(&s["ix"]) - 1) as u8, self.sg(a, &s["sg"]));
                }
                x.encode()
            }
            _ => vec![9, 9, 9],
        }
    }
    fn witness(&mut self, a: &Value, w: &Value) -> InputWitness {
        if w["k"] == "no" {
            return InputWitness::NoSignature(None);
        }
        let b = self.body(a, &w["body"]);
        let raw = match str_of(&w["wrap"]) {
            "plain" => b,
            "spend" => AuthorizedHashedTimelockContractSpend::Spend(secret(&w["secret"]), b).encode(),
            "refund" => AuthorizedHashedTimelockContractSpend::Refund(b).encode(),
            _ => vec![9, 9, 9],
        };
        InputWitness::Standard(StandardInputSignature::new(mode(&w["mode"]), raw))
    }
    /// signatures are made by the functions wallets use whenever one key signs what is being checked
    fn produced_alike(&mut self, a: &Value, b: &Body, com: &[SighashInputCommitment], i: usize, w: &Value, x: &InputWitness) -> bool {
        if w["k"] == "no" {
            return true;
        }
        let f = str_of(&w["body"]["f"]);
        if !(f == "pk" || f == "pkh") {
            return true;
        }
        let sg = &w["body"]["sg"];
        let Ok(now) = signature_hash(mode(&w["mode"]), b, com, i) else { return true };
        if self.hash_of(a, u(&sg["m"])) != Some(now) {
            return true;
        }
        let key = u(&sg["key"]);
        if f == "pkh" && w["body"]["pub"] != sg["key"] {
            return true;
        }
        let d = dest(&json!({"f": f, "key": key}));
        let (k, m, mut aux) = (sk(key), mode(&w["mode"]), PredefinedSigAuxDataProvider);
        let r = match str_of(&w["wrap"]) {
            "plain" => StandardInputSignature::produce_uniparty_signature_for_input(&k, m, d, b, com, i, &mut aux),
            "spend" => produce_uniparty_signature_for_htlc_spending(&k, m, d, b, com, i, secret(&w["secret"]), &mut aux),
            "refund" => produce_uniparty_signature_for_htlc_refunding(&k, m, d, b, com, i, &mut aux),
            _ => return true,
        };
        r.is_ok_and(|r| InputWitness::Standard(r) == *x)
    }
    fn check(&mut self, a: &Value) -> Value {
        let w = &a["worlds"][0];
        let b = Body::new(&a["tx"]);
        let ver = u(&a["ver"]);
        let mut wits = vec![];
        for x in arr(&a["wits"]) {
            wits.push(self.witness(a, x));
        }
        if let Some(com) = World(w).commitments(&b, ver) {
            for (i, x) in arr(&a["wits"]).iter().enumerate() {
                if !self.produced_alike(a, &b, &com, i, x, &wits[i]) {
                    return json!({"k": "the signing functions make something else"});
                }
            }
        }
        let cfg = &self.cfg[&ver];
        let verdict = |ok: bool| json!({"k": if ok { "ok" } else { "refused" }});
        if a["how"] == "sig" {
            let i = u(&a["i"]) as usize - 1;
            let Some(com) = World(w).commitments(&b, ver) else { return verdict(false) };
            let utxo = match b.ins.get(i) {
                Some(TxInput::Utxo(o)) => World(w).get_utxo(i, o).expect("infallible").map(|x| x.into_owned()),
                _ => None,
            };
            let tx = SignedTransaction::new(b.tx.expect("driver: tx"), wits).expect("driver: witnesses");
            let r = verify_tx_signature(cfg, &dest(&a["dst"]), &tx, &com, i, utxo);
            return verdict(r.is_ok());
        }
        // the chain
        let t = BlockTimestamp::from_int_seconds(get_num(&w["t"]));
        let mut blocks: BTreeMap<Id<GenBlock>, GenBlockIndex> = BTreeMap::new();
        let mut ids = vec![cfg.genesis_block_id()];
        blocks.insert(ids[0], GenBlockIndex::genesis(cfg));
        let add = |time: BlockTimestamp, ids: &mut Vec<Id<GenBlock>>| {
            let hgt = BlockHeight::new(ids.len() as u64);
            let b = Block::new(vec![], *ids.last().expect("genesis"), time, ConsensusData::None, BlockReward::new(vec![])).expect("driver: block");
            let anc = ids[chainstate_types::get_skip_height(hgt).into_int() as usize];
            let ix = BlockIndex::new(&b, Uint256::ZERO, anc, hgt, time, 0, BlockStatus::new_fully_checked());
            ids.push((*ix.block_id()).into());
            ix
        };
        for x in arr(&w["times"]) {
            let ix = add(BlockTimestamp::from_int_seconds(get_num(x)), &mut ids);
            blocks.insert(*ids.last().expect("id"), GenBlockIndex::Block(ix));
        }
        let tip = *ids.last().expect("id");
        let best = blocks[&tip].clone();
        let height = BlockHeight::new(u(&w["h"]));
        let on_chain = w["via"] == "chain";
        let new = on_chain.then(|| add(t, &mut ids));
        if let Some(n) = &new {
            assert_eq!(n.block_height(), height, "driver: height");
            blocks.insert((*n.block_id()).into(), GenBlockIndex::Block(n.clone()));
        }
        let store = Store { blocks };
        let src = match &new {
            Some(n) => TransactionSourceForConnect::for_chain(n),
            None => TransactionSourceForConnect::for_mempool_with_height(&best, height),
        };
        let top = new.as_ref().map(|n| (*n.block_id()).into()).unwrap_or(tip);
        let utxos: BTreeMap<UtxoOutPoint, Utxo> = arr(&w["utxos"])
            .iter()
            .enumerate()
            .map(|(i, x)| {
                let s = x["src"].as_i64().expect("driver: source");
                let s = if s < 0 { UtxoSource::Mempool } else { UtxoSource::Blockchain(BlockHeight::new(s as u64)) };
                (outpoint(i as u64 + 1), Utxo::new(utxo_out(x), s))
            })
            .collect();
        let utxos = UtxosDB::new(UtxosDBInMemoryImpl::new(tip, utxos));
        if a["how"] == "locks" {
            let tx = SignedTransaction::new(b.tx.expect("driver: tx"), wits).expect("driver: witnesses");
            return verdict(verify_timelocks(&tx, cfg, &utxos, &store, top, height, t).is_ok());
        }
        let (p, d, k, o) = (&w["pool"], &w["deleg"], &w["token"], &w["order"]);
        let pools = |on: bool| -> BTreeMap<PoolId, PoolData> {
            let x = PoolData::new(dest(&p["key"]), amt(&p["bal"]), Amount::ZERO, VRF.with(|x| x.clone()), PerThousand::new(5).expect("driver: rate"), Amount::ZERO);
            on.then_some((pool_id(), x)).into_iter().collect()
        };
        let mut ps = pools(p["here"] == true);
        if p["here"] == true {
            // a pool of another number stands for itself
            for x in arr(&w["utxos"]) {
                if x["k"] == "produce" {
                    ps.insert(PoolId::new(h(u(&x["v"]))), pools(true).remove(&pool_id()).expect("pool"));
                }
            }
        }
        let ds = (d["here"] == true).then(|| (deleg_id(), DelegationData::new(pool_id(), dest(&d["key"])))).into_iter().collect();
        let pos = PoSAccountingDB::<_, pos_accounting::DefaultStorageTag>::new(InMemoryPoSAccounting::from_values(ps, BTreeMap::new(), BTreeMap::new(), BTreeMap::new(), ds));
        let pos = pos_accounting::PoSAccountingDelta::new(&pos);
        let ts = (k["here"] == true)
            .then(|| {
                let x = FungibleTokenData::new_unchecked(b"AB".to_vec(), 1, vec![], TokenTotalSupply::Unlimited, false, IsTokenFrozen::No(IsTokenFreezable::Yes), dest(&k["key"]));
                (token_id(), tokens_accounting::TokenData::FungibleToken(x))
            })
            .into_iter()
            .collect();
        let tokens = TokensAccountingDB::new(InMemoryTokensAccounting::from_values(ts, BTreeMap::new()));
        let tokens = tokens_accounting::TokensAccountingCache::new(&tokens);
        let has = o["here"] == true;
        let one = |x: &Value| -> BTreeMap<OrderId, Amount> { has.then(|| (order_id(), amt(x))).into_iter().collect() };
        let od = has.then(|| (order_id(), orders_accounting::OrderData::new(dest(&o["key"]), money(&o["ia"]), OutputValue::TokenV1(token_id(), amt(&o["ig"]))))).into_iter().collect();
        let orders = OrdersAccountingDB::new(InMemoryOrdersAccounting::from_values(od, one(&o["a"]), one(&o["g"])));
        let orders = orders_accounting::OrdersAccountingCache::new(&orders);
        let r = match b.tx {
            Some(tx) => {
                let tx = SignedTransaction::new(tx, wits).expect("driver: witnesses");
                verify_full(&tx, cfg, &utxos, &pos, &tokens, &orders, &store, &src, t, height)
            }
            None => {
                let tx = BlockRewardTransactable::new(Some(&b.ins), Some(&b.outs), Some(&wits));
                assert_eq!(tx.signatures().len(), b.ins.len(), "driver: witnesses");
                verify_full(&tx, cfg, &utxos, &pos, &tokens, &orders, &store, &src, t, height)
            }
        };
        if std::env::var("DRV_WHY").is_ok() {
            eprintln!("{r:?}");
        }
        verdict(r.is_ok())
    }
}
impl Machine for Spends {
    fn step(&mut self, a: &Value) -> Value {
        let msg = |m: &Value| -> H256 { H256::repeat_byte(u(m) as u8) };
        match str_of(&a["op"]) {
            "check" => self.check(a),
            "challenge" => {
                self.auth = new_auth(&a["min"], &a["keys"]);
                json!({"k": "ok", "good": self.auth.challenge().is_valid(&self.cfg[&1]).is_ok()})
            }
            "put" => {
                let s = self.sign(u(&a["key"]), Some(msg(&a["m"])));
                self.auth.add_signature((u(&a["ix"]) - 1) as u8, s);
                json!({"k": "ok"})
            }
            "sign" => {
                let r = sign_classical_multisig_spending(
                    &self.cfg[&1],
                    (u(&a["ix"]) - 1) as u8,
                    &sk(u(&a["key"])),
                    self.auth.challenge(),
                    &msg(&a["m"]),
                    self.auth.clone(),
                    &mut PredefinedSigAuxDataProvider,
                );
                match r {
                    Ok(x) => {
                        let k = if x.is_complete() { "complete" } else { "partial" };
                        self.auth = x.take();
                        json!({"k": k})
                    }
                    Err(_) => json!({"k": "refused"}),
                }
            }
            "verify" => {
                let ch = self.auth.challenge();
                let hash: PublicKeyHash = if a["same"] == true { ch.into() } else { (&challenge(&json!(ch.min_required_signatures()), &json!([39]))).into() };
                // through bytes, as a witness travels
                let x = AuthorizedClassicalMultisigSpend::from_data(&self.auth.encode()).expect("driver: decode");
                let r = verify_classical_multisig_spending(&self.cfg[&1], &hash, &x, &msg(&a["m"]));
                json!({"k": if r.is_ok() { "ok" } else { "refused" }})
            }
            x => panic!("driver: op {x}"),
        }
    }
}
