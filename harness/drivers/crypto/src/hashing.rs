use crypto::hash::*;
use crypto::util::eq::SliceEqualityCheckMethod as Eqm;
use drvlib::*;
use hmac::Mac;

enum H {
    B(Blake2bStream),
    B32(Blake2b32Stream),
    S1(Sha1Stream),
    S256(Sha256Stream),
    S3(Sha3_512Stream),
    R(Ripemd160Stream),
    SR(Sha256Ripmd160Stream),
}
macro_rules! each {
    ($h:expr, $x:ident => $e:expr) => {
        match $h {
            H::B($x) => $e,
            H::B32($x) => $e,
            H::S1($x) => $e,
            H::S256($x) => $e,
            H::S3($x) => $e,
            H::R($x) => $e,
            H::SR($x) => $e,
        }
    };
}
pub struct Hashing {
    h: H,
    saved: Option<H>,
}
fn new(alg: &str) -> H {
    match alg {
        "blake2b" => H::B(StreamHasher::new()),
        "blake2b32" => H::B32(StreamHasher::new()),
        "sha1" => H::S1(StreamHasher::new()),
        "sha256" => H::S256(StreamHasher::new()),
        "sha3" => H::S3(StreamHasher::new()),
        "ripemd160" => H::R(StreamHasher::new()),
        "sha256ripemd160" => H::SR(StreamHasher::new()),
        _ => panic!("driver: alg {alg}"),
    }
}
/// data: list of [byte, count]
fn runs(v: &Value) -> Vec<u8> {
    let mut r = vec![];
    for x in v.as_array().expect("driver: runs") {
        let n = x[1].as_u64().expect("driver: run") as usize;
        r.resize(r.len() + n, x[0].as_u64().expect("driver: run") as u8);
    }
    r
}
fn once(alg: &str, d: &[u8]) -> Vec<u8> {
    match alg {
        "blake2b" => hash::<Blake2b, _>(d).to_vec(),
        "blake2b32" => hash::<Blake2b32, _>(d).to_vec(),
        "sha1" => hash::<Sha1, _>(d).to_vec(),
        "sha256" => hash::<Sha256, _>(d).to_vec(),
        "sha3" => hash::<Sha3_512, _>(d).to_vec(),
        "ripemd160" => hash::<Ripemd160, _>(d).to_vec(),
        "sha256ripemd160" => hash::<Ripemd160, _>(hash::<Sha256, _>(d)).to_vec(),
        _ => panic!("driver: alg {alg}"),
    }
}
impl Hashing {
    pub fn new() -> Self {
        Hashing { h: new("sha256"), saved: None }
    }
}
impl Machine for Hashing {
    fn step(&mut self, a: &Value) -> Value {
        let done = json!({"k": "ok"});
        match str_of(&a["op"]) {
            "new" => {
                self.h = new(str_of(&a["alg"]));
                self.saved = None;
                done
            }
            "write" => {
                let d = runs(&a["d"]);
                each!(&mut self.h, x => {
                    x.write(&d);
                });
                done
            }
            "write2" => {
                let (d, e) = (runs(&a["d"]), runs(&a["e"]));
                each!(&mut self.h, x => {
                    x.write(&d).write(&e);
                });
                done
            }
            "clear" => {
                each!(&mut self.h, x => x.reset());
                done
            }
            "final" => json!({"k": "digest", "v": bytes(each!(&mut self.h, x => x.finalize().to_vec()))}),
            "save" => {
                self.saved = match &self.h {
                    H::B(x) => Some(H::B(x.clone())),
                    H::B32(x) => Some(H::B32(x.clone())),
                    H::S1(x) => Some(H::S1(x.clone())),
                    H::S256(x) => Some(H::S256(x.clone())),
                    H::S3(x) => Some(H::S3(x.clone())),
                    H::R(x) => Some(H::R(x.clone())),
                    H::SR(_) => panic!("driver: no clone"),
                };
                done
            }
            "back" => {
                self.h = self.saved.take().expect("driver: nothing saved");
                done
            }
            "once" => json!({"k": "digest", "v": bytes(once(str_of(&a["alg"]), &runs(&a["d"])))}),
            "mac" => {
                let mut m = crypto::util::new_hmac_sha_512(&runs(&a["key"]));
                for p in a["ps"].as_array().expect("driver: pieces") {
                    m.update(&runs(p));
                }
                json!({"k": "digest", "v": bytes(m.finalize().into_bytes())})
            }
            "mac_split" => {
                let mut m = crypto::util::new_hmac_sha_512(&runs(&a["key"]));
                for p in a["ps"].as_array().expect("driver: pieces") {
                    m.update(&runs(p));
                }
                let (k, cc) = crypto::util::to_key_and_chain_code(m, |b| Ok(b.to_vec())).expect("driver: split");
                json!({"k": "digest", "v": bytes([k, cc.into_array().to_vec()].concat())})
            }
            "eq" => {
                let m = if a["m"] == "normal" { Eqm::Normal } else { Eqm::TimingResistant };
                let (x, y) = (get_bytes(&a["x"]), get_bytes(&a["y"]));
                let r = match a["t"].as_u64().expect("driver: t") {
                    8 => m.are_equal(&x, &y),
                    16 => {
                        // every element also differs in its high byte
                        let w = |v: &[u8]| v.iter().map(|b| (*b as u16) << 8 | (*b as u16 ^ 1)).collect::<Vec<_>>();
                        m.are_equal(&w(&x), &w(&y))
                    }
                    1 => {
                        let w = |v: &[u8]| v.iter().map(|b| *b > 127).collect::<Vec<_>>();
                        m.are_equal(&w(&x), &w(&y))
                    }
                    _ => {
                        let w = |v: &[u8]| v.iter().map(|b| (*b as usize) << 48).collect::<Vec<_>>();
                        m.are_equal(&w(&x), &w(&y))
                    }
                };
                json!({"k": "bool", "v": r})
            }
            o => panic!("driver: op {o}"),
        }
    }
}
