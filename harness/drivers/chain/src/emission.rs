//! Emission schedules.
use common::chain::config::{emission_schedule::CoinUnit, Builder, ChainType, EmissionScheduleTabular};
use common::primitives::BlockHeight;
use drvlib::*;
use std::collections::BTreeMap;
use std::time::Duration;

pub struct Emission;
fn coin(v: &Value) -> CoinUnit {
    CoinUnit::from_atoms(get_num(v))
}
fn atoms(c: CoinUnit) -> Value {
    num(c.to_amount_atoms().into_atoms())
}
fn height(v: &Value) -> BlockHeight {
    BlockHeight::new(get_num(v))
}
fn opt(c: Option<CoinUnit>) -> Value {
    Value::Array(c.into_iter().map(atoms).collect())
}
fn table(a: &Value) -> EmissionScheduleTabular {
    let p: BTreeMap<_, _> = a["periods"].as_array().expect("driver: periods").iter().map(|p| (height(&p[0]), coin(&p[1]))).collect();
    EmissionScheduleTabular::new(coin(&a["init"]), coin(&a["first"]), p)
}
impl Machine for Emission {
    fn step(&mut self, a: &Value) -> Value {
        match str_of(&a["op"]) {
            "at" => {
                let t = table(a);
                let (s, h) = (t.schedule(), height(&a["h"]));
                let subsidy = (h != BlockHeight::zero()).then(|| s.subsidy(h));
                assert!(t.initial_supply().to_amount_atoms() == s.initial_supply().to_amount_atoms());
                json!({"k": "at", "supply": atoms(s.amount_at(h)), "subsidy": opt(subsidy), "init": atoms(t.initial_supply()), "final": opt(t.final_supply())})
            }
            "show" => {
                let t = table(a);
                let s = t.to_string();
                if s.parse::<EmissionScheduleTabular>().as_ref() != Ok(&t) {
                    return json!({"k": "not-read-back"});
                }
                json!({"k": "text", "v": bytes(s)})
            }
            "parse" => match String::from_utf8(get_bytes(&a["s"])).expect("driver: text").parse::<EmissionScheduleTabular>() {
                Ok(t) => {
                    let mut p = t.subsidy_periods();
                    let first = p.next().expect("driver: first period");
                    json!({"k": "sched", "init": atoms(t.initial_supply()), "first": atoms(first.1), "periods": p.map(|(h, c)| json!([num(u64::from(h)), atoms(c)])).collect::<Vec<_>>()})
                }
                Err(_) => json!({"k": "none"}),
            },
            "net" => {
                let mut out = vec![];
                for t in [ChainType::Mainnet, ChainType::Testnet, ChainType::Regtest, ChainType::Signet] {
                    let b = Builder::new(t);
                    let sp = a["spacing"].as_u64().expect("driver: spacing");
                    let b = if sp == 120 { b } else { b.target_block_spacing(Duration::from_secs(sp)) };
                    let c = b.build();
                    let h = height(&a["h"]);
                    out.push(json!({"k": "net", "subsidy": num(c.block_subsidy_at_height(&h).into_atoms()), "supply": atoms(c.emission_schedule().amount_at(h)), "final": opt(c.final_supply())}));
                }
                out.dedup();
                if out.len() == 1 { out.remove(0) } else { json!({"k": "differ", "v": out}) }
            }
            _ => panic!("driver: op"),
        }
    }
}
