#![no_std]
//! Stand-in for the pool contract a factory deploys: records how it was initialized.
//! Compiled to ../stub_pool.wasm (committed) with
//!   cargo rustc --release --target wasm32-unknown-unknown --offline
use soroban_sdk::{contract, contractimpl, symbol_short, Address, Env, String};
#[contract]
pub struct Stub;
#[contractimpl]
impl Stub {
    pub fn initialize(
        e: Env,
        admin: Address,
        name: String,
        oracle: Address,
        rate: u32,
        max_positions: u32,
        backstop: Address,
        blnd: Address,
    ) {
        if e.storage().instance().has(&symbol_short!("args")) {
            panic!()
        }
        e.storage()
            .instance()
            .set(&symbol_short!("args"), &(admin, name, oracle, rate, max_positions, backstop, blnd));
    }
}
