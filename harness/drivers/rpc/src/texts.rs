//! R02: text and hex values of RPC parameters.
use drvlib::*;
use rpc::types::{RpcHexString, RpcString};

pub struct Texts;
fn bad() -> Value {
    json!({"k": "bad"})
}
fn got<T: AsRef<[u8]>>(r: Result<T, impl Sized>) -> Value {
    r.map_or(bad(), |x| json!({"k": "bytes", "v": bytes(x.as_ref())}))
}
fn txt(v: &Value) -> Value {
    Value::String(crate::text(v))
}
impl Machine for Texts {
    fn step(&mut self, a: &Value) -> Value {
        match str_of(&a["op"]) {
            "hex_de" => got(serde_json::from_str::<RpcHexString>(&txt(&a["t"]).to_string())),
            "hex_parse" => got(crate::text(&a["t"]).parse::<RpcHexString>()),
            "hex_ser" => {
                let x = RpcHexString::from_bytes(get_bytes(&a["d"]));
                let s = serde_json::to_value(&x).expect("ser");
                let back = serde_json::from_value::<RpcHexString>(s.clone()).expect("de");
                assert_eq!(x.to_string(), format!("{x:x}"));
                json!({"k": "texts", "ser": bytes(str_of(&s)), "shown": bytes(x.to_string()), "back": bytes(back.as_bytes())})
            }
            "str_bare" => got(serde_json::from_str::<RpcString>(&txt(&a["t"]).to_string())),
            "str_obj" => {
                let mut o = serde_json::Map::new();
                for k in ["text", "hex"] {
                    if let Some(v) = a[k].get("some") {
                        o.insert(k.into(), txt(v));
                    } else if a[k].get("null").is_some() {
                        o.insert(k.into(), Value::Null);
                    }
                }
                got(serde_json::from_str::<RpcString>(&Value::Object(o).to_string()))
            }
            "str_ser" => {
                let x = RpcString::from_bytes(get_bytes(&a["d"]));
                let s = serde_json::to_value(&x).expect("ser");
                let back = serde_json::from_value::<RpcString>(s.clone()).expect("de");
                let text = match s["text"].as_str() {
                    Some(t) => json!([bytes(t)]),
                    None => json!([]),
                };
                let str_ok = x.try_as_str().is_ok();
                assert_eq!(x.clone().try_into_string().is_ok(), str_ok);
                json!({"k": "obj", "text": text, "hex": bytes(str_of(&s["hex"])), "back": bytes(back.as_bytes()), "str": str_ok})
            }
            o => panic!("driver: op {o}"),
        }
    }
}
