mod chains;
mod emission;
mod targets;
mod txs;
use crypto::vrf::{VRFKeyKind, VRFPrivateKey, VRFPublicKey};
use drvlib::*;

thread_local! {
    static VRF: VRFPublicKey = VRFPrivateKey::new_from_rng(&mut randomness::make_true_rng(), VRFKeyKind::Schnorrkel).1;
}
pub fn vrf_key() -> VRFPublicKey {
    VRF.with(|x| x.clone())
}

fn main() {
    serve(|m| match m {
        "emission" => Box::new(emission::Emission),
        "targets" => Box::new(targets::Targets),
        "chains" => Box::new(chains::Chains::default()),
        x => panic!("driver: module {x}"),
    });
}
