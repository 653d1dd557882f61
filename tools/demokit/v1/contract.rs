//! The contract under demonstration.
use crate::host::*;
use cosmwasm_std::{from_json, Binary, Deps, DepsMut, Env, MessageInfo, Reply};
pub struct K;
impl Contract for K {
    fn execute(&self, d: DepsMut, e: Env, i: MessageInfo, m: &[u8]) -> Result<NResp, String> {
        let m = from_json(m).map_err(|e| e.to_string())?;
        sg_marketplace::execute::execute(d, e, i, m).map(norm).map_err(|e| e.to_string())
    }
    fn sudo(&self, d: DepsMut, e: Env, m: &[u8]) -> Result<NResp, String> {
        let m = from_json(m).map_err(|e| e.to_string())?;
        sg_marketplace::sudo::sudo(d, e, m).map(norm).map_err(|e| e.to_string())
    }
    fn instantiate(&self, d: DepsMut, e: Env, i: MessageInfo, m: &[u8]) -> Result<NResp, String> {
        let m = from_json(m).map_err(|e| e.to_string())?;
        sg_marketplace::execute::instantiate(d, e, i, m).map(norm).map_err(|e| e.to_string())
    }
    fn migrate(&self, d: DepsMut, e: Env, m: &[u8]) -> Result<NResp, String> {
        let m = from_json(m).map_err(|e| e.to_string())?;
        sg_marketplace::execute::migrate(d, e, m).map(norm).map_err(|e| e.to_string())
    }
    fn reply(&self, d: DepsMut, e: Env, r: Reply) -> Result<NResp, String> {
        sg_marketplace::execute::reply(d, e, r).map(norm).map_err(|e| e.to_string())
    }
    fn query(&self, d: Deps, e: Env, m: &[u8]) -> Result<Binary, String> {
        let m = from_json(m).map_err(|e| e.to_string())?;
        sg_marketplace::query::query(d, e, m).map_err(|e| e.to_string())
    }
}
