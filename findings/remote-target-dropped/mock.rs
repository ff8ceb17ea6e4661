#![allow(dead_code)]
//! JSON-speaking stand-in for the chain: storage, address validation and answers of other contracts.
pub use cosmwasm_std::testing::{mock_env, mock_info, MockApi, MockQuerier};
pub use cosmwasm_std::*;
pub use serde_json::{json, Value};
pub type D = OwnedDeps<MemoryStorage, MockApi, MockQuerier, Empty>;
pub fn deps(answer: impl Fn(&str, &Value) -> Option<Value> + 'static) -> D {
    let mut q: MockQuerier<Empty> = MockQuerier::new(&[]);
    q.update_wasm(move |w| {
        let (addr, v) = match w {
            WasmQuery::Smart { contract_addr, msg } => (contract_addr.clone(), serde_json::from_slice::<Value>(msg).unwrap()),
            WasmQuery::ContractInfo { contract_addr } => (contract_addr.clone(), json!({"contract_info": {}})),
            _ => (String::new(), json!(null)),
        };
        match answer(&addr, &v) {
            Some(a) => SystemResult::Ok(ContractResult::Ok(Binary(serde_json::to_vec(&a).unwrap()))),
            None => SystemResult::Ok(ContractResult::Err(format!("no answer for {addr} {v}"))),
        }
    });
    OwnedDeps { storage: MemoryStorage::default(), api: MockApi::default(), querier: q, custom_query_type: std::marker::PhantomData }
}
pub fn m<T: serde::de::DeserializeOwned>(v: Value) -> T { serde_json::from_value(v).expect("message") }
pub fn b(v: Value) -> Binary { Binary(serde_json::to_vec(&v).unwrap()) }
pub fn at(sec: u64) -> Env { let mut e = mock_env(); e.block.time = Timestamp::from_seconds(sec); e.block.height = sec / 5; e }
/// what a response sends: (target, json) for contract calls, otherwise ("", debug text)
pub fn sent(r: &Response) -> Vec<(String, Value)> {
    r.messages.iter().map(|s| match &s.msg {
        CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, .. }) => (contract_addr.clone(), serde_json::from_slice(msg).unwrap()),
        CosmosMsg::Wasm(WasmMsg::Migrate { contract_addr, new_code_id, msg }) => (contract_addr.clone(), json!({"migrate": new_code_id, "msg": serde_json::from_slice::<Value>(msg).unwrap_or(Value::Null)})),
        CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => (to_address.clone(), json!({"send": amount})),
        x => (String::new(), json!(format!("{x:?}"))),
    }).collect()
}
pub fn answer(r: StdResult<Binary>) -> Value { serde_json::from_slice(&r.unwrap()).unwrap() }
pub fn bin(r: Binary) -> Value { serde_json::from_slice(&r).unwrap() }
pub fn check(ok: bool, what: &str) { if !ok { eprintln!("BROKEN: {what}"); std::process::exit(1) } }
// ---- a standard DAO ----
pub fn components() -> Value {
    json!({"enterprise_factory_contract":"factory","enterprise_versioning_contract":"versioning","enterprise_governance_contract":"governance","enterprise_governance_controller_contract":"controller",
        "enterprise_outposts_contract":"outposts","enterprise_treasury_contract":"treasury","funds_distributor_contract":"distributor","membership_contract":"membership","council_membership_contract":"council","attestation_contract":null})
}
pub fn metadata() -> Value { json!({"name":"dao","description":null,"logo":"none","socials":{"github_username":null,"discord_username":null,"twitter_username":null,"telegram_username":null}}) }
pub fn version(major: u64, minor: u64, patch: u64, code: u64) -> Value {
    json!({"version":{"major":major,"minor":minor,"patch":patch},"changelog":[],"attestation_code_id":code,"enterprise_code_id":code,"enterprise_governance_code_id":code,"enterprise_governance_controller_code_id":code,
        "enterprise_outposts_code_id":code,"enterprise_treasury_code_id":code,"funds_distributor_code_id":code,"token_staking_membership_code_id":code,"denom_staking_membership_code_id":code,"nft_staking_membership_code_id":code,"multisig_membership_code_id":code})
}
/// answers of the enterprise and membership contracts; members of both bodies: (name, weight)
pub fn dao(kind: &str, addr: &str, q: &Value, members: &[(&str, u128)], council: &[(&str, u128)]) -> Option<Value> {
    let k = q.as_object()?.keys().next()?.clone();
    let list = if addr == "council" { council } else { members };
    let w = |u: &str| list.iter().filter(|x| x.0 == u).map(|x| x.1).sum::<u128>().to_string();
    match (addr, k.as_str()) {
        ("enterprise", "component_contracts") => Some(components()),
        ("enterprise", "dao_info") => Some(json!({"creation_date":"0","metadata":metadata(),"dao_type":kind,"dao_version":{"major":1,"minor":0,"patch":0}})),
        ("enterprise", "is_restricted_user") => Some(json!({"is_restricted": q[&k]["user"].as_str()?.starts_with("restricted")})),
        ("membership", "user_weight") | ("council", "user_weight") => Some(json!({"user": q[&k]["user"], "weight": w(q[&k]["user"].as_str()?)})),
        ("membership", "total_weight") | ("council", "total_weight") => Some(json!({"total_weight": list.iter().map(|x| x.1).sum::<u128>().to_string()})),
        ("membership", "token_config") => Some(json!({"enterprise_contract":"enterprise","token_contract":"token","unlocking_period":{"time":1000000}})),
        ("membership", "denom_config") => Some(json!({"enterprise_contract":"enterprise","denom":"udao","unlocking_period":{"time":1000000}})),
        ("membership", "nft_config") => Some(json!({"enterprise_contract":"enterprise","nft_contract":"nft","unlocking_period":{"time":1000000}})),
        _ => None,
    }
}
pub fn gov_config() -> Value { json!({"quorum":"0.3","threshold":"0.5","veto_threshold":null,"vote_duration":1000,"minimum_deposit":null,"allow_early_proposal_execution":false}) }
