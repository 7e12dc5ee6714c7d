use crypto::key::extended::{ExtendedKeyKind, ExtendedPrivateKey, ExtendedPublicKey};
use crypto::key::hdkd::{
    child_number::ChildNumber,
    derivable::{Derivable, DerivationError},
    derivation_path::DerivationPath,
    u31::U31,
};
use crypto::key::{PredefinedSigAuxDataProvider, PublicKey};
use crypto::vrf::{
    transcript::{no_rng::VRFTranscript, traits::SignableTranscript},
    ExtendedVRFPrivateKey, ExtendedVRFPublicKey, VRFKeyKind,
};
use drvlib::*;
use serialization::{DecodeAll, Encode};

#[derive(Clone)]
enum Key {
    None,
    Sk(ExtendedPrivateKey),
    Pk(ExtendedPublicKey),
    VSk(ExtendedVRFPrivateKey),
    VPk(ExtendedVRFPublicKey),
}
pub struct Hdkd {
    key: Key,
}
impl Default for Hdkd {
    fn default() -> Self {
        Hdkd { key: Key::None }
    }
}

fn num_of(v: &Value) -> ChildNumber {
    let i = U31::from_u32(v["i"].as_u64().expect("driver: index") as u32).expect("driver: index");
    if v["h"].as_bool().expect("driver: h") {
        ChildNumber::from_hardened(i)
    } else {
        ChildNumber::from_normal(i)
    }
}
fn num_json(n: &ChildNumber) -> Value {
    json!({"i": n.get_index().into_u32(), "h": n.is_hardened()})
}
fn path_of(v: &Value) -> Result<DerivationPath, DerivationError> {
    v.as_array().expect("driver: path").iter().map(num_of).collect::<Vec<_>>().try_into()
}
fn path_json(p: &DerivationPath) -> Value {
    Value::Array(p.as_slice().iter().map(num_json).collect())
}
fn text(v: &Value) -> Option<String> {
    String::from_utf8(get_bytes(v)).ok()
}

impl Hdkd {
    fn show(&self) -> Value {
        // the encoding is: kind byte, path, chain code, key
        match &self.key {
            Key::None => json!({"k": "ok"}),
            Key::Sk(k) => {
                let p = k.to_public_key();
                let (pk, cc) = p.clone().into_public_key_and_chain_code();
                let sk = k.clone().private_key();
                let sig = sk.sign_message(b"check", &mut PredefinedSigAuxDataProvider).expect("driver: sign");
                json!({"k": "ok", "path": path_json(k.get_derivation_path()), "ppath": path_json(p.get_derivation_path()), "pt": bytes(pk.encode()), "cc": bytes(cc.encode()),
                       "sk": bytes(sk.encode()), "works": pk.verify_message(&sig, b"check") && PublicKey::from_private_key(&sk) == pk && sk.encode()[1..] == k.encode()[k.encode().len() - 32..]
                         && k.encode()[k.encode().len() - 64..k.encode().len() - 32] == cc.encode()})
            }
            Key::Pk(p) => {
                let (pk, cc) = p.clone().into_public_key_and_chain_code();
                json!({"k": "ok", "path": path_json(p.get_derivation_path()), "pt": bytes(pk.encode()), "cc": bytes(cc.encode()),
                       "works": pk == p.clone().into_public_key()})
            }
            Key::VSk(k) => {
                let p = k.to_public_key();
                let sk = k.clone().private_key();
                let t = || VRFTranscript::new(b"check").attach_u64(b"a", 5);
                let data = sk.produce_vrf_data(t());
                let e = p.encode();
                // path, chain code, kind byte, public key
                json!({"k": "ok", "path": path_json(k.get_derivation_path()), "ppath": path_json(p.get_derivation_path()), "pt": bytes(p.public_key().encode()),
                       "cc": bytes(&e[e.len() - 65..e.len() - 33]),
                       "works": p.public_key().verify_vrf_data(t(), &data).is_ok() && sk.to_public_key() == *p.public_key()
                         && k.encode()[..e.len() - 33] == e[..e.len() - 33]})
            }
            Key::VPk(p) => {
                let e = p.encode();
                json!({"k": "ok", "path": path_json(p.get_derivation_path()), "pt": bytes(p.public_key().encode()), "cc": bytes(&e[e.len() - 65..e.len() - 33]),
                       "works": p.clone().into_public_key() == *p.public_key()})
            }
        }
    }
    fn put(&mut self, r: Result<Key, DerivationError>) -> Value {
        match r {
            Ok(k) => {
                self.key = k;
                self.show()
            }
            Err(e) => err(variant(&e)),
        }
    }
}

impl Machine for Hdkd {
    fn step(&mut self, a: &Value) -> Value {
        match str_of(&a["op"]) {
            "master" => {
                let seed = get_bytes(&a["seed"]);
                let r = if a["kind"] == "key" {
                    ExtendedPrivateKey::new_master(&seed, ExtendedKeyKind::Secp256k1Schnorr).map(Key::Sk)
                } else {
                    ExtendedVRFPrivateKey::new_master(&seed, VRFKeyKind::Schnorrkel).map(Key::VSk)
                };
                self.put(r)
            }
            "child" => {
                let n = num_of(a);
                let r = match self.key.clone() {
                    Key::None => panic!("driver: no key"),
                    Key::Sk(k) => k.derive_child(n).map(Key::Sk),
                    Key::Pk(k) => k.derive_child(n).map(Key::Pk),
                    Key::VSk(k) => k.derive_child(n).map(Key::VSk),
                    Key::VPk(k) => k.derive_child(n).map(Key::VPk),
                };
                self.put(r)
            }
            "derive" => {
                let p = match path_of(&a["path"]) {
                    Ok(p) => p,
                    Err(e) => return err(variant(&e)),
                };
                let r = match self.key.clone() {
                    Key::None => panic!("driver: no key"),
                    Key::Sk(k) => k.derive_absolute_path(&p).map(Key::Sk),
                    Key::Pk(k) => k.derive_absolute_path(&p).map(Key::Pk),
                    Key::VSk(k) => k.derive_absolute_path(&p).map(Key::VSk),
                    Key::VPk(k) => k.derive_absolute_path(&p).map(Key::VPk),
                };
                self.put(r)
            }
            "neuter" => {
                self.key = match &self.key {
                    Key::Sk(k) => Key::Pk(k.to_public_key()),
                    Key::VSk(k) => Key::VPk(k.to_public_key()),
                    _ => panic!("driver: no private key"),
                };
                self.show()
            }
            "codec" => {
                let same = match &self.key {
                    Key::None => panic!("driver: no key"),
                    Key::Sk(k) => ExtendedPrivateKey::decode_all(&mut k.encode().as_slice()).map(|d| (d == *k, Key::Sk(d))),
                    Key::Pk(k) => ExtendedPublicKey::decode_all(&mut k.encode().as_slice()).map(|d| (d == *k, Key::Pk(d))),
                    Key::VSk(k) => ExtendedVRFPrivateKey::decode_all(&mut k.encode().as_slice()).map(|d| (d == *k, Key::VSk(d))),
                    Key::VPk(k) => ExtendedVRFPublicKey::decode_all(&mut k.encode().as_slice()).map(|d| (d == *k, Key::VPk(d))),
                };
                match same {
                    Ok((true, k)) => {
                        self.key = k;
                        self.show()
                    }
                    Ok((false, _)) => err("differs"),
                    Err(_) => err("decode"),
                }
            }
            // ------------------------------------------------ paths
            "path_parse" => match text(&a["s"]).expect("driver: text").parse::<DerivationPath>() {
                Ok(p) => ok(path_json(&p)),
                Err(e) => err(variant(&e)),
            },
            "path_text" => {
                let p = path_of(&a["path"]).expect("driver: path");
                let back = p.to_string().parse::<DerivationPath>();
                json!({"k": "ok", "v": bytes(p.to_string()), "back": back.map(|b| b == p).unwrap_or(false)})
            }
            "path_codec" => {
                let p = path_of(&a["path"]).expect("driver: path");
                let e = p.encode();
                let back = DerivationPath::decode_all(&mut e.as_slice()).map(|b| b == p).unwrap_or(false);
                json!({"k": "ok", "v": bytes(e), "back": back})
            }
            "path_decode" => match DerivationPath::decode_all(&mut get_bytes(&a["b"]).as_slice()) {
                Ok(p) => ok(path_json(&p)),
                Err(_) => err("decode"),
            },
            "path_new" => match path_of(&a["path"]) {
                Ok(p) => json!({"k": "ok", "v": path_json(&p), "len": p.len(), "root": p.is_root(), "empty": p.is_empty()}),
                Err(e) => err(variant(&e)),
            },
            "path_diff" => {
                let (p, q) = (path_of(&a["path"]).expect("driver: path"), path_of(&a["sub"]).expect("driver: path"));
                match p.get_super_path_diff(&q) {
                    Some(d) => ok(Value::Array(d.iter().map(num_json).collect())),
                    None => json!({"k": "none"}),
                }
            }
            "child_parse" => match text(&a["s"]).expect("driver: text").parse::<ChildNumber>() {
                Ok(n) => ok(num_json(&n)),
                Err(e) => err(variant(&e)),
            },
            "child_text" => {
                let n = num_of(a);
                json!({"k": "ok", "v": bytes(format!("{n}")), "alt": bytes(format!("{n:#}"))})
            }
            "child_next" => match num_of(a).increment() {
                Ok(n) => ok(num_json(&n)),
                Err(e) => err(variant(&e)),
            },
            "child_be" => {
                let n = num_of(a);
                let b = n.into_encoded_be_bytes();
                let back = ChildNumber::from_encoded_be_bytes(b) == n && ChildNumber::from_index_with_hardened_bit(n.into_encoded_index()) == n && n.is_normal() != n.is_hardened();
                json!({"k": "ok", "v": bytes(b), "back": back})
            }
            "u31_new" => {
                let v: u64 = get_num(&a["v"]);
                match U31::from_u32(v as u32) {
                    Some(u) => ok(num(u.into_u32())),
                    None => json!({"k": "none"}),
                }
            }
            "u31_parse" => match text(&a["s"]).expect("driver: text").parse::<U31>() {
                Ok(n) => ok(num(n.into_u32())),
                Err(e) => err(variant(&e)),
            },
            "u31_decode" => match U31::decode_all(&mut get_bytes(&a["b"]).as_slice()) {
                Ok(n) => json!({"k": "ok", "v": num(n.into_u32()), "back": n.encode() == get_bytes(&a["b"])}),
                Err(_) => err("decode"),
            },
            o => panic!("driver: op {o}"),
        }
    }
}
