//! An old-generation DAO is asked, through the facade, for a proposal spending from a *remote* treasury.
//! Dropping the target would make the proposal spend the DAO's own funds instead.
mod mock;
use enterprise_facade_v1::contract::{instantiate, query};
use mock::*;
fn main() {
    let mut d = deps(|_, _| None);
    instantiate(d.as_mut(), at(10), mock_info("x", &[]), m(json!({"enterprise_versioning":"versioning"}))).unwrap();
    let spec = json!({"cross_chain_msg_spec":{"chain_id":"c","chain_bech32_prefix":"c","src_ibc_port":"p","src_ibc_channel":"s","dest_ibc_port":"q","dest_ibc_channel":"d","uluna_denom":"ibc/u","timeout_nanos":null}});
    let ask = |target: Value| query(d.as_ref(), at(20), m(json!({"create_proposal_adapted":{"contract":"dao","params":{"title":"t","description":null,"deposit_owner":null,
        "proposal_actions":[{"request_funding_from_dao":{"remote_treasury_target":target,"recipient":"bob","assets":[{"info":{"native":"uluna"},"amount":"5"}]}}]}}})));
    check(ask(json!(null)).is_ok(), "funding from the DAO itself can be proposed");
    let r = ask(spec);
    if let Ok(x) = &r { println!("{}", bin(x.clone())) }
    check(r.is_err(), "a request to spend from a remote treasury became one to spend the DAO's own funds");
}
