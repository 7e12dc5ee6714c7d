mod calls;
mod conc;
mod manager;
use drvlib::*;

pub fn u(a: &Value, k: &str) -> usize {
    a[k].as_u64().expect("driver: number") as usize
}
fn main() {
    serve(|m| match m {
        "calls" => Box::new(calls::Calls::new()),
        "conc" => Box::new(conc::Conc),
        "manager" => Box::new(manager::Managers::new()),
        o => panic!("driver: module {o}"),
    })
}
