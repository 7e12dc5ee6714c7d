//! Common part of the drivers: one JSON action per input line, one JSON observation per output line.
//! A panic in the code under test is an observation ({"k":"panic"}), not the end of the driver.
use std::io::{BufRead, Write};
pub use serde_json::{json, Value};

pub trait Machine {
    fn step(&mut self, act: &Value) -> Value;
    fn setup(&mut self, _reset: &Value) {}
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

static LOST: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
/// How long to wait for what must come; less once it has failed to come twice, because then the code is broken anyway.
pub fn patience(secs: u64) -> std::time::Duration {
    if LOST.load(std::sync::atomic::Ordering::Relaxed) < 2 {
        std::time::Duration::from_secs(secs)
    } else {
        std::time::Duration::from_millis(200)
    }
}
pub fn lost() {
    LOST.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
}

pub fn serve(mut new: impl FnMut(&str) -> Box<dyn Machine>) {
    if std::env::var("DRV_PANIC_MSG").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let module = std::env::args().nth(1).unwrap_or_default();
    let mut m = new(&module);
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.expect("stdin");
        if line.is_empty() {
            continue;
        }
        let act: Value = serde_json::from_str(&line).expect("json");
        let obs = if act["op"] == "reset" {
            m = new(&module);
            m.setup(&act);
            json!({"k": "reset"})
        } else {
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.step(&act))) {
                Ok(v) => v,
                Err(e) => json!({"k": "panic", "msg": panic_text(e)}),
            }
        };
        let mut o = stdout.lock();
        serde_json::to_writer(&mut o, &obs).expect("stdout");
        o.write_all(b"\n").expect("stdout");
        o.flush().expect("stdout");
    }
}

/// "$n": decimal text of an integer (converted to limbs by the runner).
pub fn num(x: impl std::fmt::Display) -> Value {
    json!({"$n": x.to_string()})
}
/// "$b": bytes as hex text (converted to a sequence of 0..255 by the runner).
pub fn bytes(x: impl AsRef<[u8]>) -> Value {
    json!({"$b": hex(x.as_ref())})
}
pub fn hex(x: &[u8]) -> String {
    x.iter().map(|b| format!("{b:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("driver: hex")).collect()
}
pub fn get_num<T: std::str::FromStr>(v: &Value) -> T
where
    T::Err: std::fmt::Debug,
{
    match v {
        Value::Object(o) => o["$n"].as_str().expect("driver: num").parse().expect("driver: num range"),
        Value::Number(n) => n.to_string().parse().expect("driver: num range"),
        _ => panic!("driver: number expected, got {v}"),
    }
}
pub fn get_bytes(v: &Value) -> Vec<u8> {
    match v {
        Value::Object(o) => unhex(o["$b"].as_str().expect("driver: bytes")),
        Value::Array(a) => a.iter().map(|x| x.as_u64().expect("byte") as u8).collect(),
        _ => panic!("driver: bytes expected, got {v}"),
    }
}
pub fn str_of(v: &Value) -> &str {
    v.as_str().expect("driver: string expected")
}
pub fn ok(v: Value) -> Value {
    json!({"k": "ok", "v": v})
}
pub fn err(e: impl Into<String>) -> Value {
    json!({"k": "err", "e": e.into()})
}
/// First identifier of a Debug text: the variant name.
pub fn variant(e: &impl std::fmt::Debug) -> String {
    let s = format!("{e:?}");
    s.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()
}

/// Decimal text -> little-endian bytes of the given length; None when it does not fit.
pub fn dec_to_le(s: &str, len: usize) -> Option<Vec<u8>> {
    let mut r = vec![0u8; len];
    for c in s.bytes() {
        let mut carry = (c - b'0') as u32;
        for b in r.iter_mut() {
            let x = *b as u32 * 10 + carry;
            *b = x as u8;
            carry = x >> 8;
        }
        if carry != 0 {
            return None;
        }
    }
    Some(r)
}
/// Little-endian bytes -> decimal text.
pub fn le_to_dec(b: &[u8]) -> String {
    let mut b = b.to_vec();
    let mut out = vec![];
    while b.iter().any(|x| *x != 0) {
        let mut rem = 0u32;
        for x in b.iter_mut().rev() {
            let v = rem * 256 + *x as u32;
            *x = (v / 10) as u8;
            rem = v % 10;
        }
        out.push(b'0' + rem as u8);
    }
    if out.is_empty() {
        out.push(b'0');
    }
    out.reverse();
    String::from_utf8(out).expect("digits")
}
pub fn num_text(v: &Value) -> &str {
    v["$n"].as_str().expect("driver: num")
}
