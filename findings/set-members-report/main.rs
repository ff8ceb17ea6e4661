mod mock;
use mock::*;
use multisig_membership::contract::{execute, instantiate};
fn main() {
    let mut d = deps(|a, q| dao("multisig", a, q, &[], &[]));
    instantiate(d.as_mut(), at(10), mock_info("factory", &[]), m(json!({"enterprise_contract":"enterprise","initial_weights":[{"user":"alice","weight":"3"},{"user":"bob","weight":"2"}],"weight_change_hooks":["controller"],"total_weight_by_height_checkpoints":null,"total_weight_by_seconds_checkpoints":null}))).unwrap();
    let r = execute(d.as_mut(), at(20), mock_info("controller", &[]), m(json!({"set_members":{"new_members":[{"user":"bob","weight":"5"}]}}))).unwrap();
    let s = sent(&r);
    eprintln!("{s:?}");
    let ch = s[0].1["weights_changed"]["weight_changes"].as_array().unwrap().clone();
    check(ch.iter().any(|c| c["user"] == "alice" && c["new_weight"] == "0"), "alice was removed from the multisig, but no listener hears of it");
    check(ch.iter().any(|c| c["user"] == "bob" && c["new_weight"] == "5"), "bob's new weight is not reported");
}
