mod funds;
mod objs;
mod orders;
mod pools;
mod spends;
mod stack;
mod tokens;
mod utxos;
use drvlib::*;

fn main() {
    serve(|m| match m {
        "orders" => Box::new(stack::M::<orders::Orders>::new()),
        "tokens" => Box::new(stack::M::<tokens::Tokens>::new()),
        "pools" => Box::new(stack::M::<pools::Pools>::new()),
        "funds" => Box::new(funds::FM::new()),
        "spends" => Box::new(spends::Spends::new()),
        "utxos" => Box::new(stack::M::<utxos::Utxos>::new()),
        x => panic!("driver: module {x}"),
    });
}
