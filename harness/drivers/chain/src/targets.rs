//! Targets of work and stake, hashes against them, and the trust of blocks (spec/Targets.tla).
use chainstate_types::{BlockIndex, BlockIndexHandle, BlockStatus, EpochData, EpochStorageRead, GenBlockIndex, PropertyQueryError};
use common::chain::{
    block::{
        consensus_data::{PoSData, PoWData},
        signed_block_header::{BlockHeaderSignature, SignedBlockHeader},
        timestamp::BlockTimestamp,
        BlockHeader, BlockReward, ConsensusData,
    },
    config::{Builder, ChainType},
    Block, ChainConfig, ConsensusUpgrade, GenBlock, NetUpgrades, PoSChainConfig, PoSConsensusVersion, PoSStatus, PoWStatus, PoolId, RequiredConsensus,
};
use common::primitives::{per_thousand::PerThousand, Amount, BlockCount, BlockHeight, Compact, Id, Idable, H256};
use common::Uint256;
use consensus::*;
use crypto::vrf::{transcript::no_rng::VRFTranscript, VRFKeyKind, VRFPrivateKey, VRFReturn};
use drvlib::*;
use std::sync::Arc;
use std::time::Duration;

#[derive(Default)]
pub struct Targets;

thread_local! {
    static VRF: VRFReturn = VRFPrivateKey::new_from_rng(&mut randomness::make_true_rng(), VRFKeyKind::Schnorrkel).0.produce_vrf_data(VRFTranscript::new(b"x"));
}

fn u256(v: &Value) -> Uint256 {
    Uint256::from_bytes(dec_to_le(num_text(v), 32).expect("driver: range").try_into().expect("32"))
}
fn h256(v: &Value) -> H256 {
    H256(dec_to_le(num_text(v), 32).expect("driver: range").try_into().expect("32"))
}
fn show256(x: Uint256) -> Value {
    json!({"k": "val", "v": num(le_to_dec(&x.to_bytes()))})
}
fn compact(v: &Value) -> Compact {
    Compact(get_num(v))
}
fn amount(v: &Value) -> Amount {
    Amount::from_atoms(get_num(v))
}
fn bad() -> Value {
    json!({"k": "err"})
}
fn val(c: Compact) -> Value {
    json!({"k": "val", "v": num(c.0)})
}
fn upgrades(v: &Value) -> Option<NetUpgrades<ConsensusUpgrade>> {
    let l = v.as_array().expect("ups");
    let l = l
        .iter()
        .map(|u| {
            let h = BlockHeight::new(u["h"].as_u64().expect("h"));
            let diff = u["diff"].as_array().and_then(|d| d.first()).map(compact);
            let up = match str_of(&u["kind"]) {
                "ign" => ConsensusUpgrade::IgnoreConsensus,
                "pow" => ConsensusUpgrade::PoW { initial_difficulty: diff.expect("diff") },
                "pos" => {
                    let c = &u["cfg"];
                    ConsensusUpgrade::PoS {
                        initial_difficulty: diff,
                        config: PoSChainConfig::new(
                            u256(&c["limit"]),
                            BlockCount::new(100),
                            c["count"].as_u64().expect("count") as usize,
                            PerThousand::new(c["change"].as_u64().expect("change") as u16).expect("per thousand"),
                            PoSConsensusVersion::V1,
                        ),
                    }
                }
                x => panic!("driver: kind {x}"),
            };
            (h, up)
        })
        .collect();
    NetUpgrades::initialize(l).ok()
}
fn config(a: &Value) -> ChainConfig {
    let t = match a["net"].as_str().unwrap_or("regtest") {
        "mainnet" => ChainType::Mainnet,
        "testnet" => ChainType::Testnet,
        "signet" => ChainType::Signet,
        "regtest" => ChainType::Regtest,
        x => panic!("driver: net {x}"),
    };
    let mut b = Builder::new(t).consensus_upgrades(upgrades(&a["ups"]).expect("upgrades"));
    if let Some(s) = a["spacing"].as_u64() {
        b = b.target_block_spacing(Duration::from_secs(s));
    }
    b.build()
}
fn time_at(a: &Value, h: u64) -> u64 {
    for e in a["at"].as_array().expect("at") {
        if e[0].as_u64() == Some(h) {
            return e[1].as_u64().expect("time");
        }
    }
    a["base"].as_u64().expect("base") + a["step"].as_u64().expect("step") * h
}
fn index(prev: Id<GenBlock>, h: u64, time: u64, data: ConsensusData) -> BlockIndex {
    let t = BlockTimestamp::from_int_seconds(time);
    let b = Block::new(vec![], prev, t, data, BlockReward::new(vec![])).expect("block");
    BlockIndex::new(&b, Uint256::from(1u64), prev, BlockHeight::new(h), t, 0, BlockStatus::new())
}

/// A chain given by its times; its last block carries the given consensus data. Height 0 is the genesis.
struct View<'a> {
    a: &'a Value,
    cfg: &'a ChainConfig,
    last: GenBlockIndex,
}
impl<'a> View<'a> {
    fn new(a: &'a Value, cfg: &'a ChainConfig, data: ConsensusData) -> Self {
        let h = a["h"].as_u64().expect("h");
        let last = if h == 0 { GenBlockIndex::genesis(cfg) } else { GenBlockIndex::Block(index(cfg.genesis_block_id(), h, time_at(a, h), data)) };
        Self { a, cfg, last }
    }
    fn ancestor(&self, b: &BlockIndex, h: BlockHeight) -> GenBlockIndex {
        assert!(Id::<GenBlock>::from(*b.block_id()) == self.last.block_id(), "driver: ancestor of another block");
        let h = h.into_int();
        if h == b.block_height().into_int() {
            return self.last.clone();
        }
        assert!(h < b.block_height().into_int(), "asked for a block above");
        GenBlockIndex::Block(index(self.cfg.genesis_block_id(), h, time_at(self.a, h), ConsensusData::None))
    }
}
impl BlockIndexHandle for View<'_> {
    fn get_block_index(&self, id: &Id<Block>) -> Result<Option<BlockIndex>, PropertyQueryError> {
        Ok(match &self.last {
            GenBlockIndex::Block(b) if b.block_id() == id => Some(b.clone()),
            _ => None,
        })
    }
    fn get_gen_block_index(&self, id: &Id<GenBlock>) -> Result<Option<GenBlockIndex>, PropertyQueryError> {
        Ok((self.last.block_id() == *id).then(|| self.last.clone()))
    }
    fn get_ancestor(&self, b: &BlockIndex, h: BlockHeight) -> Result<GenBlockIndex, PropertyQueryError> {
        Ok(self.ancestor(b, h))
    }
    fn get_block_reward(&self, _: &BlockIndex) -> Result<Option<BlockReward>, PropertyQueryError> {
        Ok(Some(BlockReward::new(vec![])))
    }
}
struct NoEpochs;
impl EpochStorageRead for NoEpochs {
    fn get_epoch_data(&self, _: u64) -> chainstate_types::storage_result::Result<Option<EpochData>> {
        Ok(None)
    }
}
fn work_data(bits: Compact, nonce: u128) -> ConsensusData {
    ConsensusData::PoW(Box::new(PoWData::new(bits, nonce)))
}
fn stake_data(bits: Compact) -> ConsensusData {
    ConsensusData::PoS(Box::new(PoSData::new(vec![], vec![], PoolId::new(H256::zero()), VRF.with(|v| v.clone()), bits)))
}
fn le_hash(id: Id<Block>) -> Uint256 {
    Uint256::from_bytes(id.to_hash().0)
}
fn header(prev: Id<GenBlock>, time: u64, data: ConsensusData) -> BlockHeader {
    Block::new(vec![], prev, BlockTimestamp::from_int_seconds(time), data, BlockReward::new(vec![])).expect("block").header().header().clone()
}
fn both(x: Value, y: Value) -> Value {
    if x == y {
        x
    } else {
        json!({"k": "differ", "a": x, "b": y})
    }
}

impl Targets {
    fn work(&self, a: &Value) -> Value {
        let cfg = config(a);
        let v = View::new(a, &cfg, work_data(compact(&a["bits"]), 5));
        let h = BlockHeight::new(a["h"].as_u64().expect("h"));
        let st = match cfg.consensus_upgrades().consensus_status(h.next_height()) {
            RequiredConsensus::PoW(s) => s,
            x => return json!({"k": "status", "v": variant(&x)}),
        };
        let r = calculate_work_required(&cfg, &v.last, BlockTimestamp::from_int_seconds(a["time"].as_u64().expect("time")), &st, |b, h| Ok(v.ancestor(b, h)));
        r.map_or(bad(), val)
    }
    fn stake(&self, a: &Value) -> Value {
        let cfg = config(a);
        let v = View::new(a, &cfg, stake_data(compact(&a["bits"])));
        let h = BlockHeight::new(a["h"].as_u64().expect("h"));
        let st = match cfg.consensus_upgrades().consensus_status(h.next_height()) {
            RequiredConsensus::PoS(s) => s,
            x => return json!({"k": "status", "v": variant(&x)}),
        };
        let x = calculate_target_required_from_block_index(&cfg, &st, &v.last, |b, h| Ok(v.ancestor(b, h))).map_or(bad(), val);
        let y = calculate_target_required(&cfg, &st, v.last.block_id(), &v).map_or(bad(), val);
        both(x, y)
    }
    fn block(&self, a: &Value) -> Value {
        let cfg = config(a);
        let v = View::new(a, &cfg, work_data(compact(&a["bits"]), 5));
        let time = a["time"].as_u64().expect("time");
        let mine = compact(&a["mybits"]);
        let want = a["want"].as_bool().expect("want");
        let head = match str_of(&a["data"]) {
            "none" => header(v.last.block_id(), time, ConsensusData::None),
            "pow" => {
                let mut h = header(v.last.block_id(), time, work_data(mine, 0));
                let t = Uint256::try_from(mine).unwrap_or(Uint256::ZERO);
                let mut n = 0u128;
                while n < 20000 && (le_hash(h.block_id()) <= t) != want {
                    n += 1;
                    h.update_consensus_data(work_data(mine, n));
                }
                assert!(n < 20000, "driver: no such nonce");
                h
            }
            x => panic!("driver: data {x}"),
        };
        let sh = SignedBlockHeader::new(BlockHeaderSignature::None, head);
        let utxos = utxo::UtxosDBInMemoryImpl::new(cfg.genesis_block_id(), Default::default());
        let pos = pos_accounting::PoSAccountingDB::<_, pos_accounting::DefaultStorageTag>::new(pos_accounting::InMemoryPoSAccounting::new());
        let r = validate_consensus(&cfg, &sh, &v, &NoEpochs, &utxos, &pos);
        json!({"k": "bool", "v": r.is_ok()})
    }
    fn mine(&self, a: &Value) -> Value {
        let bits = compact(&a["bits"]);
        let max = a["max"].as_u64().expect("max") as u128;
        let stop = a["stop"].as_bool().expect("stop");
        let t = Uint256::try_from(bits);
        let mut h = header(Id::new(H256(dec_to_le(num_text(&a["seed"]), 32).expect("seed").try_into().expect("32"))), 1_700_000_000, ConsensusData::None);
        let r = mine(&mut h, max, bits, Arc::new(stop.into()));
        let t = match t {
            Err(_) => return json!({"k": "mined", "ok": r.is_err() || max == 0}),
            Ok(t) => t,
        };
        let found = match h.consensus_data() {
            ConsensusData::PoW(d) => d.bits() == bits && d.nonce() < max && le_hash(h.block_id()) <= t,
            _ => false,
        };
        let mut g = h.clone();
        let mut first = None;
        for n in 0..max {
            g.update_consensus_data(work_data(bits, n));
            if le_hash(g.block_id()) <= t {
                first = Some(n);
                break;
            }
        }
        let ok = match r {
            Ok(MiningResult::Success) => found && (!stop || first == Some(0)),
            Ok(MiningResult::Failed) => first.is_none() && (!stop || max == 0),
            Ok(MiningResult::Stopped) => stop && first != Some(0),
            Err(_) => false,
        };
        json!({"k": "mined", "ok": ok})
    }
    fn status(&self, a: &Value) -> Value {
        let ups = match upgrades(&a["ups"]) {
            Some(u) => u,
            None => return bad(),
        };
        let (k, s, d) = match ups.consensus_status(BlockHeight::new(a["h"].as_u64().expect("h"))) {
            RequiredConsensus::IgnoreConsensus => ("ign", false, None),
            RequiredConsensus::PoW(PoWStatus::Ongoing) => ("pow", false, None),
            RequiredConsensus::PoW(PoWStatus::Threshold { initial_difficulty: d }) => ("pow", true, Some(d)),
            RequiredConsensus::PoS(PoSStatus::Ongoing(_)) => ("pos", false, None),
            RequiredConsensus::PoS(PoSStatus::Threshold { initial_difficulty: d, .. }) => ("pos", true, d),
        };
        json!({"k": "status", "kind": k, "start": s, "diff": d.map(|d| vec![num(d.0)]).unwrap_or_default()})
    }
}

impl Machine for Targets {
    fn step(&mut self, a: &Value) -> Value {
        match str_of(&a["op"]) {
            "work" => self.work(a),
            "stake" => self.stake(a),
            "block" => self.block(a),
            "mine" => self.mine(a),
            "status" => self.status(a),
            "badups" => upgrades(&a["ups"]).map_or(bad(), |_| json!({"k": "ok"})),
            "meets" => match check_proof_of_work(h256(&a["hash"]), compact(&a["bits"])) {
                Ok(b) => json!({"k": "bool", "v": b}),
                Err(_) => bad(),
            },
            "effective" => match calculate_effective_pool_balance(amount(&a["pledge"]), amount(&a["bal"]), amount(&a["sup"])) {
                Ok(x) => json!({"k": "val", "v": num(x.into_atoms())}),
                Err(_) => bad(),
            },
            "stakemeets" => {
                let v = if a["v"].as_u64() == Some(0) { PoSConsensusVersion::V0 } else { PoSConsensusVersion::V1 };
                match check_pos_hash(v, &u256(&a["hash"]), &u256(&a["target"]), amount(&a["pledge"]), amount(&a["bal"]), amount(&a["sup"])) {
                    Ok(()) => json!({"k": "bool", "v": true}),
                    Err(ConsensusPoSError::StakeKernelHashTooHigh) => json!({"k": "bool", "v": false}),
                    Err(_) => bad(),
                }
            }
            "proof" => {
                let d = match str_of(&a["data"]) {
                    "none" => ConsensusData::None,
                    "pow" => work_data(compact(&a["bits"]), 1),
                    _ => stake_data(Compact(0x1d00ffff)),
                };
                let t = |k: &str| BlockTimestamp::from_int_seconds(a[k].as_u64().expect("time"));
                d.get_block_proof(t("t0"), t("t1")).map_or(bad(), show256)
            }
            x => panic!("driver: op {x}"),
        }
    }
}
