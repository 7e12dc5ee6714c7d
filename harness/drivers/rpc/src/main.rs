mod access;
mod addrs;
mod subs;
mod texts;
mod web;
use drvlib::*;

pub fn u(a: &Value, k: &str) -> usize {
    a[k].as_u64().expect("driver: number") as usize
}
pub fn text(v: &Value) -> String {
    String::from_utf8(get_bytes(v)).expect("driver: text")
}
pub fn done() -> Value {
    json!({"k": "ok"})
}
fn main() {
    serve(|m| match m {
        "access" => Box::new(access::Access::new()),
        "subs" => Box::new(subs::Subs::new()),
        "texts" => Box::new(texts::Texts),
        "addrs" => Box::new(addrs::Addrs),
        o => panic!("driver: module {o}"),
    })
}
