//! Drivers of the crypto crate: key derivation, sealed data, signatures and VRF proofs, hashing.
mod hashing;
mod hdkd;
mod seal;
mod sign;
use drvlib::*;

pub fn rng(seed: u64) -> rand::rngs::StdRng {
    use randomness::SeedableRng;
    rand::rngs::StdRng::seed_from_u64(seed)
}

fn main() {
    serve(|m| match m {
        "hdkd" => Box::<hdkd::Hdkd>::default(),
        "seal" => Box::new(seal::Seal::new()),
        "sign" => Box::<sign::Sign>::default(),
        "hash" => Box::new(hashing::Hashing::new()),
        _ => panic!("driver: no module {m}"),
    });
}
