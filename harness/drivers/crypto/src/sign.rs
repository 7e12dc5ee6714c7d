use crate::rng;
use crypto::key::{secp256k1::*, signature::SignatureKind, *};
use crypto::vrf::{
    transcript::{no_rng::VRFTranscript, traits::SignableTranscript, with_rng::VRFTranscriptWithRng},
    *,
};
use drvlib::*;
use serialization::{DecodeAll, Encode};
use std::collections::BTreeMap;

#[derive(Default)]
pub struct Sign {
    sigs: BTreeMap<u64, Vec<u8>>,
    proofs: BTreeMap<u64, Vec<u8>>,
}
fn u(v: &Value) -> u64 {
    v.as_u64().expect("driver: number")
}
fn runs(v: &Value) -> Vec<u8> {
    let mut r = vec![];
    for x in v.as_array().expect("driver: runs") {
        let n = x[1].as_u64().expect("driver: run") as usize;
        r.resize(r.len() + n, x[0].as_u64().expect("driver: run") as u8);
    }
    r
}
fn key(seed: &Value) -> (PrivateKey, PublicKey) {
    PrivateKey::new_from_rng(&mut rng(u(seed)), KeyKind::Secp256k1Schnorr)
}
fn vkey(seed: &Value) -> (VRFPrivateKey, VRFPublicKey) {
    VRFPrivateKey::new_from_rng(&mut rng(u(seed)), VRFKeyKind::Schnorrkel)
}
const LABELS: [&[u8]; 4] = [b"", b"a", b"ab", b"b"];
fn fill<T: SignableTranscript>(mut t: T, v: &Value) -> T {
    for x in v["items"].as_array().expect("driver: items") {
        let l = LABELS[u(&x["l"]) as usize];
        let d = runs(&x["v"]); // a number is given by its eight bytes
        t = if x["t"] == "num" { t.attach_u64(l, u64::from_le_bytes(d.try_into().expect("driver: number"))) } else { t.attach_raw_data(l, d) };
    }
    t
}
fn transcript(v: &Value) -> VRFTranscript {
    fill(VRFTranscript::new(LABELS[u(&v["l"]) as usize]), v)
}
fn flip(b: &mut [u8], a: &Value) {
    let at = u(&a["at"]) as usize;
    b[at] ^= u(&a["mask"]) as u8;
}
fn recode<T: Encode + DecodeAll + PartialEq>(x: &T) -> bool {
    x.encoded_size() == x.encode().len() && T::decode_all(&mut x.encode().as_slice()).map(|y| y == *x && y.encode() == x.encode()).unwrap_or(false)
}
// the text of a JSON document that shows the bytes
fn shown(b: &[u8]) -> String {
    format!("\"{}\"", b.iter().map(|c| format!("{c:02x}")).collect::<String>())
}
fn to_text<T: serde::Serialize>(x: &T) -> String {
    serde_json::to_string(x).unwrap_or_default()
}
// what reading the bytes and reading the text that shows them give must agree
fn both<T: Encode + DecodeAll + PartialEq + serde::Serialize + serde::de::DeserializeOwned>(b: &[u8]) -> Value {
    let x = T::decode_all(&mut &b[..]).ok();
    if serde_json::from_str::<T>(&shown(b)).ok() != x {
        return json!({"k": "text-differs"});
    }
    match x {
        Some(p) if to_text(&p) != shown(b) => json!({"k": "shown-differs"}),
        Some(p) => json!({"k": "ok", "back": p.encode() == b && recode(&p)}),
        None => json!({"k": "refused"}),
    }
}
impl Machine for Sign {
    fn step(&mut self, a: &Value) -> Value {
        match str_of(&a["op"]) {
            "key" => {
                let (s, p) = key(&a["key"]);
                let n: Secp256k1PublicKey = p.clone().try_into().expect("driver: infallible");
                json!({"k": "key", "pub": bytes(p.encode()), "sec": bytes(s.encode()),
                       "kept": recode(&s) && recode(&p) && PublicKey::from_private_key(&s) == p && Secp256k1PublicKey::from_bytes(&n.as_bytes()).as_ref() == Ok(&n) && PublicKey::from(n) == p})
            }
            "sign" => {
                let (s, _) = key(&a["key"]);
                let m = runs(&a["m"]);
                let sig = if a["aux"] == 0 { s.sign_message(&m, &mut PredefinedSigAuxDataProvider) } else { s.sign_message(&m, &mut rng(u(&a["aux"]))) };
                match sig {
                    Ok(x) => {
                        let kept = recode(&x) && Signature::from_data(x.encode()).as_ref() == Ok(&x) && Signature::from_raw_data(&x.encode()[1..], SignatureKind::Secp256k1Schnorr).as_ref() == Ok(&x);
                        self.sigs.insert(u(&a["s"]), x.encode());
                        json!({"k": "signed", "len": x.encode().len(), "v": bytes(x.encode()), "kept": kept})
                    }
                    Err(e) => err(variant(&e)),
                }
            }
            "spoil" => {
                flip(self.sigs.get_mut(&u(&a["s"])).expect("driver: sig"), a);
                json!({"k": "ok"})
            }
            "resize" => {
                let n = u(&a["n"]) as usize;
                self.sigs.get_mut(&u(&a["s"])).expect("driver: sig").resize(n, 0);
                json!({"k": "ok"})
            }
            "check" => {
                let mut p = key(&a["key"]).1.encode();
                if a["neg"] == true {
                    p[1] ^= 1; // the other point with the same x coordinate
                }
                let p = PublicKey::decode_all(&mut p.as_slice()).expect("driver: public key");
                match Signature::from_data(&self.sigs[&u(&a["s"])]) {
                    Ok(s) => json!({"k": "bool", "v": p.verify_message(&s, &runs(&a["m"]))}),
                    Err(_) => json!({"k": "bool", "v": false}),
                }
            }
            // decoding of arbitrary bytes
            "dec_pub" => both::<PublicKey>(&get_bytes(&a["b"])),
            "dec_sec" => match PrivateKey::decode_all(&mut get_bytes(&a["b"]).as_slice()) {
                Ok(p) => json!({"k": "ok", "back": p.encode() == get_bytes(&a["b"])}),
                Err(_) => json!({"k": "refused"}),
            },
            "raw_pub" => match Secp256k1PublicKey::from_bytes(&get_bytes(&a["b"])) {
                Ok(p) => json!({"k": "ok", "v": bytes(p.as_bytes())}),
                Err(_) => json!({"k": "refused"}),
            },
            "raw_sec" => match Secp256k1PrivateKey::from_bytes(&get_bytes(&a["b"])) {
                Ok(p) => json!({"k": "ok", "v": bytes(p.as_bytes())}),
                Err(_) => json!({"k": "refused"}),
            },
            "dec_sig" => match Signature::decode_all(&mut get_bytes(&a["b"]).as_slice()) {
                Ok(p) => json!({"k": "ok", "back": p.encode() == get_bytes(&a["b"]) && to_text(&p) == shown(&p.encode()) && recode(&p)}),
                Err(_) => json!({"k": "refused"}),
            },
            "raw_sig" => match Signature::from_raw_data(get_bytes(&a["b"]), SignatureKind::Secp256k1Schnorr) {
                Ok(p) => json!({"k": "ok", "back": p.encode()[1..] == get_bytes(&a["b"])}),
                Err(_) => json!({"k": "refused"}),
            },
            "dec_vpub" => both::<VRFPublicKey>(&get_bytes(&a["b"])),
            "dec_proof" => match VRFReturn::decode_all(&mut get_bytes(&a["b"]).as_slice()) {
                Ok(p) => json!({"k": "ok", "back": p.encode() == get_bytes(&a["b"])}),
                Err(_) => json!({"k": "refused"}),
            },
            // ------------------------------------------------ VRF
            "vkey" => {
                let (s, p) = vkey(&a["key"]);
                json!({"k": "key", "pub": bytes(p.encode()), "kept": recode(&s) && recode(&p) && s.to_public_key() == p && VRFPublicKey::from_private_key(&s) == p})
            }
            "prove" => {
                let (s, p) = vkey(&a["key"]);
                let r = match str_of(&a["how"]) {
                    "plain" => s.produce_vrf_data(transcript(&a["t"])),
                    "rng" => s.produce_vrf_data(transcript(&a["t"]).with_rng(rng(u(&a["aux"])))),
                    _ => s.produce_vrf_data(fill(VRFTranscriptWithRng::new(LABELS[u(&a["t"]["l"]) as usize], rng(u(&a["aux"]))), &a["t"])),
                };
                let VRFReturn::Schnorrkel(d) = r.clone();
                let out: Vec<u8> = d.calculate_vrf_output_with_generic_key::<hmac::digest::typenum::U32, _>(p, transcript(&a["t"])).expect("driver: output").to_vec();
                self.proofs.insert(u(&a["s"]), r.encode());
                json!({"k": "proved", "len": r.encode().len(), "pre": bytes(d.vrf_preout()), "out": bytes(out), "proof": bytes(d.vrf_proof()),
                       "kept": recode(&r) && r.encode()[1..] == [d.vrf_preout().to_vec(), d.vrf_proof().to_vec()].concat()})
            }
            "vspoil" => {
                flip(self.proofs.get_mut(&u(&a["s"])).expect("driver: proof"), a);
                json!({"k": "ok"})
            }
            "vswap" => {
                // the output part of one with the proof part of another
                let x = self.proofs[&u(&a["d"])].clone();
                self.proofs.get_mut(&u(&a["s"])).expect("driver: proof")[1..33].copy_from_slice(&x[1..33]);
                json!({"k": "ok"})
            }
            "vcheck" => {
                let (_, p) = vkey(&a["key"]);
                match VRFReturn::decode_all(&mut self.proofs[&u(&a["s"])].as_slice()) {
                    Ok(r) => {
                        let v = if a["how"] == "rng" {
                            p.verify_vrf_data(transcript(&a["t"]).with_rng(rng(1)), &r)
                        } else {
                            p.verify_vrf_data(transcript(&a["t"]), &r)
                        };
                        let VRFReturn::Schnorrkel(d) = r;
                        let out = d.calculate_vrf_output_with_generic_key::<hmac::digest::typenum::U32, _>(p, transcript(&a["t"]));
                        match (v, out) {
                            (Ok(()), Ok(o)) => json!({"k": "valid", "out": bytes(o.to_vec())}),
                            (Ok(()), Err(_)) => json!({"k": "valid"}),
                            _ => json!({"k": "refused"}),
                        }
                    }
                    Err(_) => json!({"k": "refused"}),
                }
            }
            o => panic!("driver: op {o}"),
        }
    }
}
