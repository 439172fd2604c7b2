//! Stand-ins for the contracts the protocol talks to but does not contain:
//! a SEP-40 price oracle and the Comet LP token / pool.
use soroban_sdk::{contract, contractimpl, contracttype, token, Address, Env, Symbol};

#[contracttype]
#[derive(Clone)]
pub enum Asset {
    Stellar(Address),
    Other(Symbol),
}
#[contracttype]
#[derive(Clone)]
pub struct PriceData {
    pub price: i128,
    pub timestamp: u64,
}
#[contracttype]
#[derive(Clone)]
pub enum OKey {
    Dec,
    Price(Address),
}

#[contract]
pub struct MockOracle;
#[contractimpl]
impl MockOracle {
    pub fn setup(e: Env, dec: u32) {
        e.storage().persistent().set(&OKey::Dec, &dec);
    }
    pub fn put(e: Env, a: Address, price: i128, timestamp: u64) {
        e.storage().persistent().set(&OKey::Price(a), &PriceData { price, timestamp });
    }
    pub fn clear(e: Env, a: Address) {
        e.storage().persistent().remove(&OKey::Price(a));
    }
    pub fn decimals(e: Env) -> u32 {
        e.storage().persistent().get(&OKey::Dec).unwrap()
    }
    pub fn lastprice(e: Env, asset: Asset) -> Option<PriceData> {
        match asset {
            Asset::Stellar(a) => e.storage().persistent().get(&OKey::Price(a)),
            Asset::Other(_) => None,
        }
    }
}

#[contracttype]
#[derive(Clone)]
pub enum CKey {
    Bal(Address),
    Supply,
    Rate,
}
/// Comet pool and its LP token. A single sided join mints floor(amount * rate / 10^7).
#[contract]
pub struct MockComet;
fn cbal(e: &Env, a: &Address) -> i128 {
    e.storage().persistent().get(&CKey::Bal(a.clone())).unwrap_or(0)
}
fn cset(e: &Env, a: &Address, v: i128) {
    e.storage().persistent().set(&CKey::Bal(a.clone()), &v)
}
fn cmint(e: &Env, to: &Address, amt: i128) {
    cset(e, to, cbal(e, to) + amt);
    let s: i128 = e.storage().persistent().get(&CKey::Supply).unwrap_or(0);
    e.storage().persistent().set(&CKey::Supply, &(s + amt));
}
#[contractimpl]
impl MockComet {
    pub fn force_mint(e: Env, to: Address, amt: i128) {
        cmint(&e, &to, amt)
    }
    pub fn set_rate(e: Env, r: i128) {
        e.storage().persistent().set(&CKey::Rate, &r);
    }
    pub fn balance(e: Env, id: Address) -> i128 {
        cbal(&e, &id)
    }
    pub fn transfer(e: Env, from: Address, to: Address, amount: i128) {
        from.require_auth();
        let b = cbal(&e, &from);
        if amount < 0 || b < amount {
            panic!("balance")
        }
        cset(&e, &from, b - amount);
        cset(&e, &to, cbal(&e, &to) + amount);
    }
    pub fn get_total_supply(e: Env) -> i128 {
        e.storage().persistent().get(&CKey::Supply).unwrap_or(0)
    }
    pub fn dep_tokn_amt_in_get_lp_tokns_out(
        e: Env,
        token_in: Address,
        token_amount_in: i128,
        min_pool_amount_out: i128,
        user: Address,
    ) -> i128 {
        user.require_auth();
        let rate: i128 = e.storage().persistent().get(&CKey::Rate).unwrap();
        let out = token_amount_in * rate / 1_0000000;
        if out < min_pool_amount_out {
            panic!("limit")
        }
        let c = e.current_contract_address();
        let t = token::Client::new(&e, &token_in);
        let ledger = (e.ledger().sequence() / 100000 + 1) * 100000;
        t.approve(&user, &c, &token_amount_in, &ledger);
        t.transfer_from(&c, &user, &c, &token_amount_in);
        cmint(&e, &user, out);
        out
    }
}
