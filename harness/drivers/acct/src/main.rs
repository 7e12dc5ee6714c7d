use accounting::*;
use common::primitives::{amount::SignedAmount, Amount};
use drvlib::*;
use std::collections::BTreeMap;

type Layer = DeltaDataCollection<u64, u64>;
type UndoC = DeltaDataUndoCollection<u64, u64>;

fn opt(x: u64) -> Option<u64> {
    (x != 0).then_some(x)
}
fn val(x: &Option<u64>) -> u64 {
    x.unwrap_or(0)
}

struct Deltas {
    nk: u64,
    base: BTreeMap<u64, u64>,
    layers: Vec<Layer>,
    undos: Vec<(usize, UndoC)>,
}

impl Deltas {
    fn new() -> Self {
        Self { nk: 0, base: BTreeMap::new(), layers: vec![Layer::new()], undos: vec![] }
    }
    fn layer(&self, l: &Layer) -> Value {
        let f = |d: &DataDelta<u64>| {
            let (o, n) = d.clone().consume();
            json!([val(&o), val(&n)])
        };
        if l.data().keys().any(|k| *k == 0 || *k > self.nk) {
            return json!("foreign key");
        }
        json!((1..=self.nk).map(|k| l.data().get(&k).map(f).unwrap_or(json!([]))).collect::<Vec<_>>())
    }
    fn undo(&self, u: &UndoC) -> Value {
        let f = |d: &DataDeltaUndo<u64>| {
            let (o, n) = d.as_delta().clone().consume();
            json!([val(&o), val(&n)])
        };
        json!((1..=self.nk).map(|k| u.data().get(&k).map(f).unwrap_or(json!([]))).collect::<Vec<_>>())
    }
    fn ok(&self, u: Value) -> Value {
        let base: Vec<u64> = (1..=self.nk).map(|k| *self.base.get(&k).unwrap_or(&0)).collect();
        let layers: Vec<Value> = self.layers.iter().map(|l| self.layer(l)).collect();
        json!({"k": "ok", "undo": u, "base": base, "layers": layers})
    }
    fn none(&self) -> Value {
        json!(vec![json!([]); self.nk as usize])
    }
}

impl Machine for Deltas {
    fn setup(&mut self, a: &Value) {
        self.nk = a["nk"].as_u64().expect("driver: nk");
    }
    fn step(&mut self, a: &Value) -> Value {
        let u = |n: &str| a[n].as_u64().expect("driver: number");
        match str_of(&a["op"]) {
            "put" => {
                let i = u("layer") as usize - 1;
                let d = DataDelta::new(opt(u("old")), opt(u("new")));
                let mut l = self.layers[i].clone();
                match l.merge_delta_data_element(u("key"), d) {
                    Ok(x) => {
                        let uc = UndoC::from_data([(u("key"), x)].into());
                        self.layers[i] = l;
                        let o = self.undo(&uc);
                        self.undos.push((i, uc));
                        self.ok(o)
                    }
                    Err(e) => json!({"k": "err", "e": variant(&e), "post": self.layer(&l)}),
                }
            }
            "push" => {
                self.layers.push(Layer::new());
                self.ok(self.none())
            }
            "flush" => {
                let n = self.layers.len();
                let d = self.layers[n - 1].clone();
                if n == 1 {
                    let mut b = self.base.clone();
                    for (k, v) in d.consume() {
                        match combine_data_with_delta(b.get(&k).copied(), Some(v)) {
                            Ok(Some(x)) => {
                                b.insert(k, x);
                            }
                            Ok(None) => {
                                b.remove(&k);
                            }
                            Err(e) => return err(variant(&e)),
                        }
                    }
                    self.base = b;
                    self.layers[0] = Layer::new();
                    self.undos.clear();
                    return self.ok(self.none());
                }
                let mut l = self.layers[n - 2].clone();
                match l.merge_delta_data(d) {
                    Ok(uc) => {
                        self.layers.pop();
                        self.layers[n - 2] = l;
                        self.undos.retain(|x| x.0 < n - 1);
                        let o = self.undo(&uc);
                        self.undos.push((n - 2, uc));
                        self.ok(o)
                    }
                    Err(e) => json!({"k": "err", "e": variant(&e), "post": self.layer(&l)}),
                }
            }
            "undo" => {
                let (i, uc) = self.undos.last().expect("driver: no undo").clone();
                let mut l = self.layers[i].clone();
                // a single-element undo also goes through the element entry point
                let r = if uc.data().len() == 1 && a["elem"] == true {
                    let (k, x) = uc.data().iter().next().map(|(k, x)| (*k, x.clone())).expect("one");
                    l.undo_merge_delta_data_element(k, x)
                } else {
                    l.undo_merge_delta_data(uc)
                };
                match r {
                    Ok(()) => {
                        self.undos.pop();
                        self.layers[i] = l;
                        self.ok(self.none())
                    }
                    Err(e) => json!({"k": "err", "e": variant(&e), "post": self.layer(&l)}),
                }
            }
            "get" => match self.layers[u("layer") as usize - 1].get_data(&u("key")) {
                GetDataResult::Present(x) => json!({"k": "get", "r": "present", "v": x}),
                GetDataResult::Deleted => json!({"k": "get", "r": "deleted", "v": 0}),
                GetDataResult::Missing => json!({"k": "get", "r": "missing", "v": 0}),
            },
            "apply" => {
                let d = a["d"].as_array().expect("d");
                let d = (!d.is_empty())
                    .then(|| DataDelta::new(opt(d[0].as_u64().expect("n")), opt(d[1].as_u64().expect("n"))));
                match combine_data_with_delta(opt(u("rec")), d) {
                    Ok(x) => json!({"k": "val", "v": val(&x)}),
                    Err(e) => err(variant(&e)),
                }
            }
            o => panic!("driver: op {o}"),
        }
    }
}

/// Accumulated balance changes: a stack of overlays over balances.
struct Amounts {
    nk: u64,
    base: BTreeMap<u64, Amount>,
    layers: Vec<DeltaAmountCollection<u64>>,
}
impl Amounts {
    fn ok(&self) -> Value {
        let base: Vec<Value> =
            (1..=self.nk).map(|k| num(self.base.get(&k).map_or(0, |x| x.into_atoms()))).collect();
        let layers: Vec<Value> = self
            .layers
            .iter()
            .map(|l| {
                assert!(l.data().keys().all(|k| *k >= 1 && *k <= self.nk), "foreign key");
                json!((1..=self.nk)
                    .map(|k| l.data().get(&k).map_or(json!([]), |x| json!([num(x.into_atoms())])))
                    .collect::<Vec<_>>())
            })
            .collect();
        json!({"k": "ok", "base": base, "layers": layers})
    }
}
impl Machine for Amounts {
    fn setup(&mut self, a: &Value) {
        self.nk = a["nk"].as_u64().expect("driver: nk");
    }
    fn step(&mut self, a: &Value) -> Value {
        let key = || a["key"].as_u64().expect("driver: key");
        let top = self.layers.len() - 1;
        let amt = || get_num::<u128>(&a["v"]);
        let samt = || get_num::<i128>(&a["v"]);
        let mut l = self.layers[top].clone();
        let r = match str_of(&a["op"]) {
            "deposit" => l.add_unsigned(key(), Amount::from_atoms(amt())),
            "withdraw" => l.sub_unsigned(key(), Amount::from_atoms(amt())),
            "delta" => l.merge_delta_amount_element(key(), SignedAmount::from_atoms(samt())),
            "push" => {
                self.layers.push(DeltaAmountCollection::new());
                return self.ok();
            }
            // merge a collection built from key/value pairs, or remove it again
            "merge" | "unmerge" => {
                let c: DeltaAmountCollection<u64> = a["c"]
                    .as_array()
                    .expect("c")
                    .iter()
                    .map(|p| (p[0].as_u64().expect("k"), SignedAmount::from_atoms(get_num::<i128>(&p[1]))))
                    .collect();
                if a["op"] == "merge" {
                    l.merge_delta_amounts(c)
                } else {
                    l.undo_merge_delta_amounts(c)
                }
            }
            "flush" | "unflush" if top > 0 => {
                let d = self.layers[top].clone();
                let mut l = self.layers[top - 1].clone();
                let r = if a["op"] == "flush" {
                    l.merge_delta_amounts(d)
                } else {
                    l.undo_merge_delta_amounts(d)
                };
                return match r {
                    Ok(()) => {
                        self.layers.pop();
                        self.layers[top - 1] = l;
                        self.ok()
                    }
                    Err(e) => err(variant(&e)),
                };
            }
            "flush" => {
                let mut b = self.base.clone();
                for (k, v) in self.layers[0].clone().consume() {
                    match combine_amount_delta(*b.get(&k).unwrap_or(&Amount::ZERO), Some(v)) {
                        Ok(x) => {
                            b.insert(k, x);
                        }
                        Err(e) => return err(variant(&e)),
                    }
                }
                self.base = b;
                self.layers[0] = DeltaAmountCollection::new();
                return self.ok();
            }
            "apply" => {
                let d = a["d"].as_array().expect("d").first().map(|x| SignedAmount::from_atoms(get_num::<i128>(x)));
                return match combine_amount_delta(Amount::from_atoms(amt()), d) {
                    Ok(x) => json!({"k": "val", "v": num(x.into_atoms())}),
                    Err(e) => err(variant(&e)),
                };
            }
            o => panic!("driver: op {o}"),
        };
        match r {
            Ok(()) => {
                self.layers[top] = l;
                self.ok()
            }
            Err(e) => err(variant(&e)),
        }
    }
}

fn main() {
    serve(|m| match m {
        "deltas" => Box::new(Deltas::new()),
        "amounts" => Box::new(Amounts { nk: 0, base: BTreeMap::new(), layers: vec![DeltaAmountCollection::new()] }),
        _ => panic!("module"),
    })
}
