mod mock;
use enterprise_factory::contract::{execute, instantiate, reply};
use mock::*;
fn created(id: u64, addr: &str) -> Reply {
    let mut data = vec![0x0a, addr.len() as u8];
    data.extend_from_slice(addr.as_bytes());
    Reply { id, result: SubMsgResult::Ok(SubMsgResponse { events: vec![], data: Some(Binary(data)) }) }
}
fn inits(r: &Response) -> Vec<(u64, Value)> {
    r.messages.iter().filter_map(|s| match &s.msg { CosmosMsg::Wasm(WasmMsg::Instantiate { msg, .. }) => Some((s.id, serde_json::from_slice(msg).unwrap())), _ => None }).collect()
}
fn main() {
    for (membership, want) in [
        (json!({"new_denom":{"denom":"udao","unlocking_period":{"time":1000000}}}), json!([])),
        (json!({"new_multisig":{"multisig_members":[{"user":"alice","weight":"3"}]}}), json!([{"user":"alice","weight":"3"}])),
    ] {
        let mut d = deps(|_, q| q.get("latest_version").map(|_| json!({"version": version(1, 0, 0, 7)})));
        instantiate(d.as_mut(), at(10), mock_info("admin", &[]), m(json!({"config":{"admin":"admin","enterprise_versioning":"versioning","cw20_code_id":1,"cw721_code_id":2},"global_asset_whitelist":null,"global_nft_whitelist":null}))).unwrap();
        execute(d.as_mut(), at(10), mock_info("user", &[]), m(json!({"create_dao":{"dao_metadata":metadata(),"gov_config":gov_config(),
            "dao_council":{"members":["carol"],"quorum":"0.3","threshold":"0.5","allowed_proposal_action_types":null},"dao_membership":membership,
            "asset_whitelist":null,"nft_whitelist":null,"minimum_weight_for_rewards":null,"cross_chain_treasuries":null,"attestation_text":null}}))).unwrap();
        reply(d.as_mut(), at(10), created(1, "enterprise")).unwrap();
        let r = inits(&reply(d.as_mut(), at(10), created(8, "controller")).unwrap());
        check(r.iter().any(|x| x.0 == 5 && x.1["initial_weights"] == json!([{"user":"carol","weight":"1"}])), "council members are not set up");
        let r = inits(&reply(d.as_mut(), at(10), created(10, "treasury")).unwrap());
        let dist = &r.iter().find(|x| x.0 == 6).expect("distributor").1;
        eprintln!("{}", dist["initial_weights"]);
        check(dist["initial_weights"] == want, "reward weights of a new DAO are not those of its members");
    }
}
