//! The contract under demonstration.
use crate::host::*;
use cosmwasm_std::{from_json, Binary, Deps, DepsMut, Env, MessageInfo, Reply};
pub struct K;
impl Contract for K {
    fn execute(&self, d: DepsMut, e: Env, i: MessageInfo, m: &[u8]) -> Result<NResp, String> {
        let m = from_json(m).map_err(|e| e.to_string())?;
        stargaze_marketplace_v2::execute::execute(d, e, i, m).map(norm).map_err(|e| e.to_string())
    }
    fn sudo(&self, _: DepsMut, _: Env, _: &[u8]) -> Result<NResp, String> {
        Err("no sudo entry point".into())
    }
    fn instantiate(&self, d: DepsMut, e: Env, i: MessageInfo, m: &[u8]) -> Result<NResp, String> {
        let m = from_json(m).map_err(|e| e.to_string())?;
        stargaze_marketplace_v2::instantiate::instantiate(d, e, i, m).map(norm).map_err(|e| e.to_string())
    }
    fn migrate(&self, d: DepsMut, e: Env, m: &[u8]) -> Result<NResp, String> {
        let m = from_json(m).map_err(|e| e.to_string())?;
        stargaze_marketplace_v2::migrate::migrate(d, e, m).map(norm).map_err(|e| e.to_string())
    }
    fn reply(&self, _: DepsMut, _: Env, _: Reply) -> Result<NResp, String> {
        Err("no reply entry point".into())
    }
    fn query(&self, d: Deps, e: Env, m: &[u8]) -> Result<Binary, String> {
        let m = from_json(m).map_err(|e| e.to_string())?;
        stargaze_marketplace_v2::query::query(d, e, m).map_err(|e| e.to_string())
    }
}
