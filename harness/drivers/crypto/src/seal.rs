use crate::rng;
use crypto::ephemeral_e2e::{EndToEndPrivateKey, EndToEndPublicKey, SharedSecret};
use crypto::kdf::{argon2::Argon2Config, *};
use crypto::symkey::{SymmetricKey, SymmetricKeyKind};
use crypto::util::eq::SliceEqualityCheckMethod as Eqm;
use drvlib::*;
use serialization::{Decode, DecodeAll, Encode};
use std::collections::BTreeMap;
use utils::maybe_encrypted::MaybeEncrypted;

pub struct Seal {
    rng: rand::rngs::StdRng,
    ct: BTreeMap<u64, Vec<u8>>,
    parties: BTreeMap<u64, EndToEndPrivateKey>,
    secrets: Vec<SharedSecret>,
    kdf: BTreeMap<u64, KdfResult>,
}
fn runs(v: &Value) -> Vec<u8> {
    let mut r = vec![];
    for x in v.as_array().expect("driver: runs") {
        let n = x[1].as_u64().expect("driver: run") as usize;
        r.resize(r.len() + n, x[0].as_u64().expect("driver: run") as u8);
    }
    r
}
fn key(v: &Value) -> Result<SymmetricKey, String> {
    let k = SymmetricKey::from_raw_key(SymmetricKeyKind::XChacha20Poly1305, &runs(v)).map_err(|_| "key".to_string())?;
    let e = k.encode();
    if SymmetricKey::decode_all(&mut e.as_slice()).as_ref() != Ok(&k) {
        return Err("codec".into());
    }
    Ok(k)
}
fn ad(v: &Value) -> Option<Vec<u8>> {
    if v == "none" {
        None
    } else {
        Some(runs(v))
    }
}
fn u(v: &Value) -> u64 {
    v.as_u64().expect("driver: number")
}
fn sealed(ct: &[u8]) -> Value {
    json!({"k": "sealed", "len": ct.len(), "v": bytes(&ct[..ct.len().min(40)])})
}
fn opened(r: Result<Vec<u8>, impl std::fmt::Debug>) -> Value {
    match r {
        Ok(m) => {
            // back to runs
            let mut out: Vec<(u8, u64)> = vec![];
            for b in m {
                match out.last_mut() {
                    Some(l) if l.0 == b => l.1 += 1,
                    _ => out.push((b, 1)),
                }
            }
            json!({"k": "opened", "v": out.iter().map(|x| json!([x.0, x.1])).collect::<Vec<_>>()})
        }
        Err(_) => json!({"k": "refused"}),
    }
}
impl Seal {
    pub fn new() -> Self {
        Seal { rng: rng(0), ct: Default::default(), parties: Default::default(), secrets: vec![], kdf: Default::default() }
    }
    fn secret(&mut self, a: &Value) -> SharedSecret {
        // the other party's public key travels encoded
        let p = self.parties[&u(&a["j"])].public_key();
        let p = EndToEndPublicKey::decode_all(&mut p.encode().as_slice()).expect("driver: public key");
        self.parties[&u(&a["i"])].shared_secret(&p)
    }
}
impl Machine for Seal {
    fn setup(&mut self, a: &Value) {
        self.rng = rng(a["seed"].as_u64().unwrap_or(0));
    }
    fn step(&mut self, a: &Value) -> Value {
        match str_of(&a["op"]) {
            "seal" => match key(&a["key"]) {
                Ok(k) => {
                    let c = k.encrypt(&runs(&a["m"]), &mut self.rng, ad(&a["ad"]).as_deref()).expect("driver: encrypt");
                    let o = sealed(&c);
                    self.ct.insert(u(&a["c"]), c);
                    o
                }
                Err(e) => err(e),
            },
            "open" => match key(&a["key"]) {
                Ok(k) => opened(k.decrypt(&self.ct[&u(&a["c"])], ad(&a["ad"]).as_deref())),
                Err(e) => err(e),
            },
            "flip" => {
                let c = self.ct.get_mut(&u(&a["c"])).expect("driver: ct");
                c[u(&a["at"]) as usize] ^= u(&a["mask"]) as u8;
                json!({"k": "ok"})
            }
            "cut" => {
                let c = self.ct.get_mut(&u(&a["c"])).expect("driver: ct");
                c.truncate(c.len() - u(&a["n"]) as usize);
                json!({"k": "ok"})
            }
            "behead" => {
                let c = self.ct.get_mut(&u(&a["c"])).expect("driver: ct");
                c.drain(..u(&a["n"]) as usize);
                json!({"k": "ok"})
            }
            "extend" => {
                let c = self.ct.get_mut(&u(&a["c"])).expect("driver: ct");
                c.push(u(&a["b"]) as u8);
                json!({"k": "ok"})
            }
            "splice" => {
                // first part of c, rest of d
                let (x, y, at) = (self.ct[&u(&a["c"])].clone(), self.ct[&u(&a["d"])].clone(), u(&a["at"]) as usize);
                self.ct.insert(u(&a["c"]), [&x[..at], &y[at..]].concat());
                json!({"k": "ok"})
            }
            "copy" => {
                let x = self.ct[&u(&a["d"])].clone();
                self.ct.insert(u(&a["c"]), x);
                json!({"k": "ok"})
            }
            // ------------------------------------------------ key agreement
            "party" => {
                let k = EndToEndPrivateKey::new_from_rng(&mut rng(u(&a["seed"])));
                let p = k.public_key();
                let same = EndToEndPublicKey::from_private_key(&k) == p && EndToEndPublicKey::decode(&mut p.encode().as_slice()).as_ref() == Ok(&p);
                let o = json!({"k": "ok", "pub": bytes(p.as_bytes()), "same": same});
                self.parties.insert(u(&a["i"]), k);
                o
            }
            "agree" => {
                let s = self.secret(a);
                let n = match self.secrets.iter().position(|x| *x == s) {
                    Some(n) => n,
                    None => {
                        self.secrets.push(s);
                        self.secrets.len() - 1
                    }
                };
                json!({"k": "secret", "v": n})
            }
            "send" => {
                let s = self.secret(a);
                let c = s.encrypt(&runs(&a["m"]), &mut self.rng).expect("driver: encrypt");
                let o = sealed(&c);
                self.ct.insert(u(&a["c"]), c);
                o
            }
            "send_num" => {
                let s = self.secret(a);
                let c = s.encode_then_encrypt(&u(&a["x"]), &mut self.rng).expect("driver: encrypt");
                let o = sealed(&c);
                self.ct.insert(u(&a["c"]), c);
                o
            }
            "recv" => opened(self.secret(a).decrypt(&self.ct[&u(&a["c"])])),
            "recv_num" => match self.secret(a).decrypt_then_decode::<u64>(&self.ct[&u(&a["c"])]) {
                Ok(x) => opened(Ok::<_, ()>(x.encode())),
                Err(_) => json!({"k": "refused"}),
            },
            // ------------------------------------------------ wrapped values
            "wrap" => {
                let k = if a["key"] == "none" { None } else { Some(key(&a["key"]).expect("driver: key")) };
                let w = MaybeEncrypted::new(&u(&a["x"]), &k);
                let e = w.encode();
                self.ct.insert(u(&a["c"]), e);
                json!({"k": "ok"})
            }
            "unwrap" => {
                let k = if a["key"] == "none" { None } else { Some(key(&a["key"]).expect("driver: key")) };
                match MaybeEncrypted::<u64>::decode_all(&mut self.ct[&u(&a["c"])].as_slice()) {
                    Ok(w) => match w.try_take(&k) {
                        Ok(x) => opened(Ok::<_, ()>(x.encode())),
                        Err(_) => json!({"k": "refused"}),
                    },
                    Err(_) => json!({"k": "refused"}),
                }
            }
            // ------------------------------------------------ passwords
            "hash" => {
                let c = &a["cfg"];
                let nz = |v: &Value| std::num::NonZeroUsize::new(u(v) as usize).expect("driver: nonzero");
                let config = KdfConfig::Argon2id {
                    config: Argon2Config::new(u(&c["m"]) as u32, u(&c["t"]) as u32, u(&c["p"]) as u32),
                    hash_length: nz(&c["len"]),
                    salt_length: nz(&c["salt"]),
                };
                match hash_password(&mut self.rng, config, &runs(&a["pw"])) {
                    Ok(r) => {
                        let KdfResult::Argon2id { salt, hashed_password, config } = &r;
                        let kept = config.m_cost_memory_size as u64 == u(&c["m"]) && config.t_cost_iterations as u64 == u(&c["t"]) && config.p_cost_parallelism as u64 == u(&c["p"])
                            && KdfResult::decode_all(&mut r.encode().as_slice()).as_ref() == Ok(&r);
                        let o = json!({"k": "hashed", "salt": bytes(salt), "h": bytes(hashed_password), "salt_len": salt.len(), "len": hashed_password.len(), "kept": kept});
                        self.kdf.insert(u(&a["r"]), r);
                        o
                    }
                    Err(_) => json!({"k": "refused"}),
                }
            }
            "verify" => {
                let m = if a["m"] == "normal" { Eqm::Normal } else { Eqm::TimingResistant };
                match verify_password(&runs(&a["pw"]), &self.kdf[&u(&a["r"])], m) {
                    Ok(b) => json!({"k": "bool", "v": b}),
                    Err(_) => json!({"k": "refused"}),
                }
            }
            "rederive" => {
                let r = self.kdf[&u(&a["r"])].clone();
                let KdfResult::Argon2id { salt: s0, .. } = r.clone();
                let c = r.into_challenge();
                let c2 = KdfChallenge::decode_all(&mut c.encode().as_slice()).expect("driver: challenge");
                let kept = c2 == c;
                match hash_from_challenge(c2, &runs(&a["pw"])) {
                    Ok(KdfResult::Argon2id { hashed_password, salt, .. }) => json!({"k": "hashed", "h": bytes(hashed_password), "kept": kept && salt == s0}),
                    Err(_) => json!({"k": "refused"}),
                }
            }
            "spoil" => {
                // change one part of a stored result
                let KdfResult::Argon2id { mut config, mut salt, mut hashed_password } = self.kdf[&u(&a["r"])].clone();
                match str_of(&a["part"]) {
                    "m" => config.m_cost_memory_size += 8 * config.p_cost_parallelism,
                    "t" => config.t_cost_iterations += 1,
                    "salt" => salt[u(&a["at"]) as usize] ^= u(&a["mask"]) as u8,
                    "hash" => hashed_password[u(&a["at"]) as usize] ^= u(&a["mask"]) as u8,
                    "hash_cut" => {
                        hashed_password.pop();
                    }
                    "hash_ext" => hashed_password.push(u(&a["mask"]) as u8),
                    "salt_ext" => salt.push(u(&a["mask"]) as u8),
                    o => panic!("driver: part {o}"),
                }
                self.kdf.insert(u(&a["r"]), KdfResult::Argon2id { config, salt, hashed_password });
                json!({"k": "ok"})
            }
            o => panic!("driver: op {o}"),
        }
    }
}
