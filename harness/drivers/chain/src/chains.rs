//! Whole chainstates fed with the blocks of a world: see Chains.tla.
use crate::txs::*;
use chainstate::{make_chainstate, BlockSource, ChainstateConfig, ChainstateEvent, ChainstateSubsystem, DefaultTransactionVerificationStrategy};
use chainstate_storage::inmemory::Store;
use chainstate_storage::{BlockchainStorage, Transactional};
use common::{
    chain::{
        block::{timestamp::BlockTimestamp, Block, BlockReward, ConsensusData, block_body::BlockBody},
        config::create_unit_test_config_builder, Genesis,
        output_value::OutputValue,
        timelock::OutputTimeLock,
        AccountType, ChainConfig, Destination, GenBlock, OutPointSourceId, SignedTransaction, TxOutput, UtxoOutPoint,
    },
    primitives::{time::Time, Amount, BlockDistance, BlockHeight, Id, Idable},
    time_getter::{TimeGetter, TimeGetterFn},
};
use crypto::hash::StreamHasher;
use drvlib::*;
use serialization::{DecodeAll, Encode};
use std::{
    collections::BTreeMap,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Mutex,
    },
};

struct Clock(Arc<AtomicU64>);
impl TimeGetterFn for Clock {
    fn get_time(&self) -> Time {
        Time::from_secs_since_epoch(self.0.load(Ordering::SeqCst))
    }
}

pub struct World {
    pub config: Arc<ChainConfig>,
    pub book: Book,
    pub blocks: Vec<Block>,
    ids: BTreeMap<Id<GenBlock>, u64>,
    clock: Arc<AtomicU64>,
    store: Store,
    pub chain: Option<ChainstateSubsystem>,
    events: Arc<Mutex<Vec<ChainstateEvent>>>,
    orphans: usize,
    prints: BTreeMap<Vec<u8>, u64>,
}
#[derive(Default)]
pub struct Chains {
    pub w: Option<World>,
}

fn reward(n: u64, huge: bool) -> BlockReward {
    let a = if huge { Amount::from_atoms(u64::MAX as u128 * 1000) } else { Amount::from_atoms(n as u128) };
    BlockReward::new(vec![TxOutput::LockThenTransfer(OutputValue::Coin(a), Destination::AnyoneCanSpend, OutputTimeLock::ForBlockCount(0))])
}

fn substance(v: &[u8]) -> Option<Vec<u8>> {
    use accounting::{DataDelta, DeltaAmountCollection, DeltaDataCollection};
    fn data<K: Ord + Copy, T: Clone + Eq>(c: DeltaDataCollection<K, T>) -> DeltaDataCollection<K, T> {
        c.consume().into_iter().map(|(k, d)| (k, d.consume())).filter(|x| x.1 .0 != x.1 .1).map(|(k, (a, b))| (k, DataDelta::new(a, b))).collect()
    }
    fn amounts<K: Ord + Copy>(c: DeltaAmountCollection<K>) -> DeltaAmountCollection<K> {
        c.consume().into_iter().filter(|x| x.1 != common::primitives::amount::SignedAmount::ZERO).collect()
    }
    let d = pos_accounting::PoSAccountingDeltaData::decode_all(&mut &*v).expect("driver: epoch delta");
    let d = pos_accounting::PoSAccountingDeltaData {
        pool_data: data(d.pool_data),
        pool_balances: amounts(d.pool_balances),
        pool_delegation_shares: amounts(d.pool_delegation_shares),
        delegation_balances: amounts(d.delegation_balances),
        delegation_data: data(d.delegation_data),
    };
    (d != pos_accounting::PoSAccountingDeltaData::new()).then(|| d.encode())
}

impl World {
    fn new(act: &Value) -> Self {
        let genesis = Genesis::new("verif".into(), BlockTimestamp::from_int_seconds(T0), genesis_outputs());
        let build = |ck: Option<(u64, Id<GenBlock>)>| {
            let c = ck.into_iter().map(|(h, id)| (BlockHeight::new(h), id)).collect();
            Arc::new(
                create_unit_test_config_builder()
                    .genesis_custom(genesis.clone())
                    .max_depth_for_reorg(BlockDistance::new(get_num(&act["depth"])))
                    .epoch_length(act.get("epoch").map_or(1000, get_num::<u64>).try_into().expect("driver: epoch"))
                    .sealed_epoch_distance_from_tip(act.get("seal").map_or(2, get_num))
                    .data_in_no_signature_witness_allowed(true)
                    .checkpoints(c)
                    .build(),
            )
        };
        let config = build(None);
        let book = Book::new(&config);
        let mut ids: BTreeMap<Id<GenBlock>, u64> = BTreeMap::new();
        ids.insert(config.genesis_block_id(), 0);
        let mut blocks: Vec<Block> = vec![];
        let mut heights = vec![0u64];
        for (i, b) in act["blocks"].as_array().expect("driver: blocks").iter().enumerate() {
            let n = i as u64 + 1;
            let p: usize = get_num(&b["p"]);
            let prev: Id<GenBlock> = if p == 0 { config.genesis_block_id() } else { blocks[p - 1].get_id().into() };
            heights.push(heights[p] + 1);
            let txs: Vec<SignedTransaction> = b["txs"].as_array().expect("driver: txs").iter().map(|t| book.tx.get(str_of(t)).expect("driver: unknown transaction").clone()).collect();
            let flaw = str_of(&b["flaw"]);
            let ts = BlockTimestamp::from_int_seconds(T0 + get_num::<u64>(&b["ts"]));
            let mk = |txs: Vec<SignedTransaction>, r: BlockReward| Block::new(txs, prev, ts, ConsensusData::None, r).expect("driver: block");
            let block = match flaw {
                "none" => mk(txs, reward(n, false)),
                "reward" => mk(txs, reward(n, true)),
                "merkle" => {
                    let mut enc = mk(txs.clone(), reward(n + 100, false)).header().encode();
                    enc.extend(BlockBody::new(reward(n, false), txs).encode());
                    Block::decode_all(&mut enc.as_slice()).expect("driver: spliced block")
                }
                x => panic!("driver: flaw {x}"),
            };
            assert!(ids.insert(block.get_id().into(), n).is_none(), "driver: same block twice");
            blocks.push(block);
        }
        let ck: usize = get_num(&act["ck"]);
        let config = if ck == 0 { config } else { build(Some((heights[ck], blocks[ck - 1].get_id().into()))) };
        let mut w = World {
            config,
            book,
            blocks,
            ids,
            clock: Arc::new(AtomicU64::new(T0 + get_num::<u64>(&act["now"]))),
            store: Store::new_empty().expect("driver: store"),
            chain: None,
            events: Default::default(),
            orphans: act.get("room").map_or(512, get_num),
            prints: Default::default(),
        };
        w.open();
        w
    }
    fn make(&self, store: Store) -> ChainstateSubsystem {
        let cfg = ChainstateConfig::new().with_max_orphan_blocks(self.orphans);
        make_chainstate(self.config.clone(), cfg, store, DefaultTransactionVerificationStrategy::new(), Some(Arc::new(|_| ())), TimeGetter::new(Arc::new(Clock(self.clock.clone()))), None)
            .expect("driver: chainstate")
    }
    fn open(&mut self) {
        self.chain = None;
        let mut c = self.make(self.store.clone());
        let ev = self.events.clone();
        c.subscribe_to_subsystem_events(Arc::new(move |e| ev.lock().expect("events").push(e)));
        self.chain = Some(c);
    }
    pub fn cs(&self) -> &ChainstateSubsystem {
        self.chain.as_ref().expect("driver: chain")
    }
    pub fn num_of(&self, id: &Id<GenBlock>) -> u64 {
        *self.ids.get(id).expect("an identifier of no block")
    }
    fn print(&mut self, store: &Store) -> u64 {
        let raw = store.transaction_ro().expect("driver: tx").dump_raw().expect("driver: dump");
        let mut h = crypto::hash::Blake2b32Stream::new();
        for (map, items) in raw {
            if ["DBValue", "DBBlock", "DBBlockIndex", "DBAccountingEpochDeltaUndo"].contains(&map.name().as_str()) {
                continue;
            }
            // what changes nothing in the changes of an epoch is left out
            let items: Vec<(Vec<u8>, Vec<u8>)> = items.into_iter().filter_map(|(k, v)| if map.name() == "DBAccountingEpochDelta" { substance(&v).map(|v| (k, v)) } else { Some((k, v)) }).collect();
            h.write(map.name());
            h.write((items.len() as u64).to_le_bytes());
            if std::env::var("DRV_DUMP").is_ok() {
                for (k, v) in &items {
                    eprintln!("{} {} {}", map.name(), hex(k), hex(v));
                }
            }
            for (k, v) in items {
                h.write((k.len() as u64).to_le_bytes());
                h.write(k);
                h.write((v.len() as u64).to_le_bytes());
                h.write(v);
            }
        }
        if std::env::var("DRV_DUMP").is_ok() {
            eprintln!("----");
        }
        let d = h.finalize().as_slice().to_vec();
        let n = self.prints.len() as u64 + 1;
        *self.prints.entry(d).or_insert(n)
    }
    fn facts(&self) -> Vec<String> {
        let c = self.cs();
        let b = &self.book;
        let mut out = vec![];
        for (name, op) in &b.coin {
            if c.utxo(op).expect("utxo").is_some() {
                out.push(name.clone());
            }
        }
        for (i, blk) in self.blocks.iter().enumerate() {
            if c.utxo(&UtxoOutPoint::new(OutPointSourceId::BlockReward(blk.get_id().into()), 0)).expect("utxo").is_some() {
                out.push(format!("reward{}", i + 1));
            }
        }
        let mut say = |x: bool, s: &str| {
            if x {
                out.push(s.to_string())
            }
        };
        let (pool, deleg, token, nft, order) = (b.pool.expect("b"), b.deleg.expect("b"), b.token.expect("b"), b.nft.expect("b"), b.order.expect("b"));
        let bal = c.get_stake_pool_balance(&pool).expect("pool");
        let has = c.stake_pool_exists(&pool).expect("pool");
        assert_eq!(has, c.get_stake_pool_data(&pool).expect("pool").is_some(), "pool data");
        say(has, "pool");
        if let Some(x) = bal {
            say(x != Amount::ZERO, &format!("bal{}", x.into_atoms() / COIN));
        }
        say(c.get_stake_delegation_data(&deleg).expect("deleg").is_some(), "deleg");
        if let Some(x) = c.get_stake_delegation_balance(&deleg).expect("deleg") {
            say(x != Amount::ZERO, &format!("staked{}", x.into_atoms() / COIN));
        }
        if let Some(x) = c.get_account_nonce_count(&AccountType::Delegation(deleg)).expect("nonce") {
            say(true, &format!("dn{}", x.value()));
        }
        if let Some(d) = c.get_token_data(&token).expect("token") {
            say(true, "token");
            let tokens_accounting::TokenData::FungibleToken(d) = d;
            say(d.is_frozen(), "frozen");
        }
        if let Some(x) = c.get_token_circulating_supply(&token).expect("supply") {
            say(x != Amount::ZERO, &format!("supply{}", x.into_atoms()));
        }
        if let Some(x) = c.get_account_nonce_count(&AccountType::Token(token)).expect("nonce") {
            say(true, &format!("tn{}", x.value()));
        }
        say(c.get_token_aux_data(&nft).expect("nft").is_some(), "nftok");
        if c.get_order_data(&order).expect("order").is_some() {
            say(true, "ord");
        }
        if let Some(x) = c.get_order_ask_balance(&order).expect("order") {
            say(true, &format!("ask{}", x.into_atoms() / COIN));
        }
        if let Some(x) = c.get_order_give_balance(&order).expect("order") {
            say(true, &format!("give{}", x.into_atoms()));
        }
        say(c.get_all_order_ids().expect("orders").contains(&order), "listed");
        out.sort();
        out
    }
    fn snap(&mut self) -> Value {
        let store = self.store.clone();
        let fp = self.print(&store);
        let c = self.cs();
        let best = self.num_of(&c.get_best_block_id().expect("best"));
        let height: u64 = c.get_best_block_height().expect("height").into_int();
        let main: Vec<u64> = (1..=height).map(|h| self.num_of(&c.get_block_id_from_height(BlockHeight::new(h)).expect("at").expect("a block at the height"))).collect();
        assert!(c.get_block_id_from_height(BlockHeight::new(height + 1)).expect("at").is_none(), "a block above the best");
        let st: Vec<u64> = self
            .blocks
            .iter()
            .map(|b| {
                let id = b.get_id();
                let kept = c.get_block(&id).expect("block");
                if let Some(k) = &kept {
                    assert!(k == b, "another block under the identifier");
                }
                match c.get_block_index_for_any_block(&id).expect("index") {
                    None => {
                        assert!(kept.is_none(), "a block without an index");
                        0
                    }
                    Some(i) => {
                        assert_eq!(kept.is_some(), i.is_persisted(), "persisted flag");
                        match (i.status().is_ok(), kept.is_some()) {
                            (true, true) => 1,
                            (false, true) => 2,
                            (false, false) => 3,
                            (true, false) => 4,
                        }
                    }
                }
            })
            .collect();
        let orph: Vec<u64> = self.blocks.iter().enumerate().filter(|(_, b)| c.is_already_an_orphan(&b.get_id())).map(|x| x.0 as u64 + 1).collect();
        assert_eq!(orph.len(), c.orphans_count(), "number of orphans");
        let minh = c.get_min_height_with_allowed_reorg().expect("min height").into_int();
        c.wait_for_all_events();
        let ev: Vec<Value> = self
            .events
            .lock()
            .expect("events")
            .drain(..)
            .map(|e| match e {
                ChainstateEvent::NewTip { id, height, .. } => json!({"b": self.num_of(&id), "h": height.into_int()}),
            })
            .collect();
        json!({"best": best, "main": main, "st": st, "orph": orph, "minh": minh, "ev": ev, "facts": self.facts(), "fp": fp})
    }
    fn fresh(&mut self) -> Value {
        let store = Store::new_empty().expect("driver: store");
        let main = {
            let c = self.cs();
            let height: u64 = c.get_best_block_height().expect("height").into_int();
            (1..=height).map(|h| self.num_of(&c.get_block_id_from_height(BlockHeight::new(h)).expect("at").expect("at"))).collect::<Vec<_>>()
        };
        let mut c = self.make(store.clone());
        for n in &main {
            let r = c.process_block(self.blocks[*n as usize - 1].clone(), BlockSource::Local).expect("a block of the best chain refused by a new node");
            assert!(r.is_some(), "a block of the best chain is no tip of a new node");
        }
        drop(c);
        json!({"k": "fresh", "fp": self.print(&store)})
    }
    fn step(&mut self, act: &Value) -> Value {
        let blk = |w: &World| w.blocks[get_num::<usize>(&act["b"]) - 1].clone();
        let r = match str_of(&act["op"]) {
            "process" => {
                let b = blk(self);
                let src = if act["src"] == "peer" { BlockSource::Peer } else { BlockSource::Local };
                match self.chain.as_mut().expect("chain").process_block(b, src) {
                    Ok(Some(i)) => format!("tip{}", self.num_of(&(*i.block_id()).into())),
                    Ok(None) => "side".into(),
                    Err(e) => {
                        if format!("{e:?}").contains("LocalOrphan") {
                            "orphan".into()
                        } else {
                            "refused".into()
                        }
                    }
                }
            }
            "check" => {
                let b = blk(self);
                match self.cs().preliminary_block_check(b) {
                    Ok(_) => "ok".into(),
                    Err(_) => "refused".into(),
                }
            }
            "invalidate" => {
                let b = blk(self);
                match self.chain.as_mut().expect("chain").invalidate_block(&b.get_id()) {
                    Ok(_) => "ok".to_string(),
                    Err(_) => "refused".into(),
                }
            }
            "revive" => {
                let b = blk(self);
                match self.chain.as_mut().expect("chain").reset_block_failure_flags(&b.get_id()) {
                    Ok(_) => "ok".to_string(),
                    Err(_) => "refused".into(),
                }
            }
            "tick" => {
                self.clock.store(T0 + get_num::<u64>(&act["now"]), Ordering::SeqCst);
                "ok".into()
            }
            "reopen" => {
                self.open();
                "ok".into()
            }
            "fresh" => return self.fresh(),
            x => panic!("driver: op {x}"),
        };
        let s = self.snap();
        json!({"k": "ok", "r": r, "s": s})
    }
}

impl Machine for Chains {
    fn step(&mut self, act: &Value) -> Value {
        if act["op"] == "world" {
            self.w = Some(World::new(act));
            let s = self.w.as_mut().expect("w").snap();
            return json!({"k": "ok", "r": "ok", "s": s});
        }
        self.w.as_mut().expect("driver: no world").step(act)
    }
}
