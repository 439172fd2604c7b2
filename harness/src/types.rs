//! Mirrors of the contracts' interface and storage types.
use soroban_sdk::{contracttype, Address, BytesN, Map, Vec};

#[contracttype]
#[derive(Clone)]
pub struct ReserveConfig {
    pub index: u32,
    pub decimals: u32,
    pub c_factor: u32,
    pub l_factor: u32,
    pub util: u32,
    pub max_util: u32,
    pub r_base: u32,
    pub r_one: u32,
    pub r_two: u32,
    pub r_three: u32,
    pub reactivity: u32,
}
#[contracttype]
#[derive(Clone)]
pub struct ReserveData {
    pub d_rate: i128,
    pub b_rate: i128,
    pub ir_mod: i128,
    pub b_supply: i128,
    pub d_supply: i128,
    pub backstop_credit: i128,
    pub last_time: u64,
}
#[contracttype]
#[derive(Clone)]
pub struct QueuedReserveInit {
    pub new_config: ReserveConfig,
    pub unlock_time: u64,
}
#[contracttype]
#[derive(Clone)]
pub struct PoolConfig {
    pub oracle: Address,
    pub bstop_rate: u32,
    pub status: u32,
    pub max_positions: u32,
}
#[contracttype]
#[derive(Clone)]
pub struct EmisCfg {
    pub expiration: u64,
    pub eps: u64,
}
#[contracttype]
#[derive(Clone)]
pub struct EmisData {
    pub index: i128,
    pub last_time: u64,
}
#[contracttype]
#[derive(Clone)]
pub struct UserEmis {
    pub accrued: i128,
    pub index: i128,
}
#[contracttype]
#[derive(Clone)]
pub struct UserReserveKey {
    pub user: Address,
    pub reserve_id: u32,
}
#[contracttype]
#[derive(Clone)]
pub struct AuctionKey {
    pub user: Address,
    pub auct_type: u32,
}
#[contracttype]
#[derive(Clone)]
pub enum PoolKey {
    ResConfig(Address),
    ResInit(Address),
    ResData(Address),
    EmisConfig(u32),
    EmisData(u32),
    Positions(Address),
    UserEmis(UserReserveKey),
    Auction(AuctionKey),
}
#[contracttype]
#[derive(Clone)]
pub struct Positions {
    pub collateral: Map<u32, i128>,
    pub liabilities: Map<u32, i128>,
    pub supply: Map<u32, i128>,
}
#[contracttype]
#[derive(Clone)]
pub struct AuctionData {
    pub bid: Map<Address, i128>,
    pub block: u32,
    pub lot: Map<Address, i128>,
}
#[contracttype]
#[derive(Clone)]
pub struct Request {
    pub address: Address,
    pub amount: i128,
    pub request_type: u32,
}
#[contracttype]
#[derive(Clone)]
pub struct ReserveEmissionMetadata {
    pub res_index: u32,
    pub res_type: u32,
    pub share: u64,
}
#[contracttype]
#[derive(Clone)]
pub struct PoolUserKey {
    pub pool: Address,
    pub user: Address,
}
#[contracttype]
#[derive(Clone)]
pub enum BsKey {
    UserBalance(PoolUserKey),
    PoolBalance(Address),
    PoolEmis(Address),
    BEmisCfg(Address),
    BEmisData(Address),
    UEmisData(PoolUserKey),
}
#[contracttype]
#[derive(Clone)]
pub struct PoolBalance {
    pub q4w: i128,
    pub shares: i128,
    pub tokens: i128,
}
#[contracttype]
#[derive(Clone)]
pub struct Q4W {
    pub amount: i128,
    pub exp: u64,
}
#[contracttype]
#[derive(Clone)]
pub struct UserBalance {
    pub q4w: Vec<Q4W>,
    pub shares: i128,
}
#[contracttype]
#[derive(Clone)]
pub enum EmKey {
    LastDistro(Address),
    Dropped(Address),
}
#[contracttype]
#[derive(Clone)]
pub struct Swap {
    pub new_backstop: Address,
    pub new_backstop_token: Address,
    pub unlock_time: u64,
}


#[contracttype]
#[derive(Clone)]
pub enum FacKey {
    Contracts(Address),
}
#[contracttype]
#[derive(Clone)]
pub struct PoolInitMeta {
    pub pool_hash: BytesN<32>,
    pub backstop: Address,
    pub blnd_id: Address,
}
#[contracttype]
#[derive(Clone)]
pub struct PoolBackstopData {
    pub tokens: i128,
    pub q4w_pct: i128,
    pub blnd: i128,
    pub usdc: i128,
}
