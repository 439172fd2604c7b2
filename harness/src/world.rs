//! The real contracts wired together in one soroban test environment, driven by
//! the operations of the specification and observed as a flat map of values.
use crate::mocks::*;
use crate::types::*;
use soroban_sdk::{
    testutils::{Address as _, Ledger, LedgerInfo},
    Address, Bytes, BytesN, Env, Error, IntoVal, String as SString, Symbol, TryFromVal, Val, Vec as SVec,
};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type Obs = BTreeMap<String, String>;

#[derive(Clone, Debug)]
pub struct Req {
    pub rt: i128,
    pub addr: String,
    pub amt: i128,
}
#[derive(Clone, Debug)]
pub struct Op {
    pub op: String,
    pub s: Vec<String>,
    pub n: Vec<i128>,
    pub reqs: Vec<Req>,
}
#[derive(Clone, Debug)]
pub struct Call {
    pub o: Op,
    pub ok: bool,
    pub why: String,
    pub ret: i128,
    pub sg: BTreeSet<String>,
    /// what is published by it
    pub ev: Vec<String>,
}
#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub ok: bool,
    pub ret: Option<i128>,
    /// contract error code of a failed call, 0 if it has none
    pub err: u32,
    /// addresses that had to authorize the call, when it was made with every authorization available
    pub sg: Option<BTreeSet<String>>,
    /// what the returned value says about the state
    pub frags: Vec<Fragment>,
    /// the call went through without the authorizations it needs
    pub unauthorized: bool,
}

pub const POOLS: [&str; 2] = ["poolA", "poolB"];
pub const SACS: [&str; 5] = ["lo", "usdc", "hi", "blnd", "lp2"];
pub const USERS: [&str; 5] = ["alice", "bob", "carol", "dan", "backstop"];
pub const HOLDERS: [&str; 12] = [
    "alice", "bob", "carol", "dan", "backstop", "poolA", "poolB", "lp", "bs2", "bs3", "poolX", "emitter",
];
pub const BSPOOLS: [&str; 15] = [
    "poolA", "poolB", "poolX", "poolU", "poolN", "x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9", "x10",
];
/// how many assets without a token behind them there are
const WIDE: usize = 33;
/// names of the pools deployed through the factory, in order
pub const DEPLOYED: [&str; 6] = ["d0", "d1", "d2", "d3", "d4", "d5"];
/// stand-in for the pool contract the factory deploys (harness/stub)
const STUB: &[u8] = include_bytes!("../stub_pool.wasm");
/// prefix of the observations, and what a returned value or a getter says is stored under it
pub type Fragment = (String, Obs);

pub struct World {
    pub env: Env,
    pub ad: HashMap<String, Address>,
    pub names: BTreeMap<Address, String>,
    pub sc: HashMap<soroban_sdk::xdr::ScAddress, String>,
    /// assets with a price, per oracle, to refresh timestamps
    prices: HashMap<(String, String), i128>,
    deployed: usize,
    fresh: bool,
}

fn oracle_of(p: &str) -> &'static str {
    if p == "poolB" {
        "oracleB"
    } else {
        "oracleA"
    }
}
fn as32(x: i128) -> u32 {
    x.clamp(0, u32::MAX as i128) as u32
}

impl World {
    pub fn a(&self, n: &str) -> Address {
        self.ad.get(n).unwrap_or_else(|| panic!("unknown name {n}")).clone()
    }
    pub fn name(&self, a: &Address) -> String {
        self.names.get(a).cloned().unwrap_or_else(|| "?".to_string())
    }
    fn reg(&mut self, n: &str, a: Address) {
        self.names.insert(a.clone(), n.to_string());
        self.sc.insert((&a).try_into().unwrap(), n.to_string());
        self.ad.insert(n.to_string(), a);
    }
    pub fn set_time(&self, now: u64, seq: u32) {
        self.env.ledger().set(LedgerInfo {
            timestamp: now,
            protocol_version: 20,
            sequence_number: seq,
            network_id: Default::default(),
            base_reserve: 10,
            min_temp_entry_ttl: 1_000_000_000,
            min_persistent_entry_ttl: 1_000_000_000,
            max_entry_ttl: 2_000_000_000,
        });
    }
    fn call0<T: TryFromVal<Env, Val>>(&self, c: &str, f: &str, args: SVec<Val>) -> T {
        self.env.invoke_contract(&self.a(c), &Symbol::new(&self.env, f), args)
    }

    /// deploy and initialize everything: the `genesis` operation
    pub fn genesis(n: &[i128]) -> World {
        let env = Env::new_with_config(soroban_sdk::testutils::EnvTestConfig { capture_snapshot_at_drop: false });
        env.budget().reset_unlimited();
        env.host().set_diagnostic_level(soroban_env_host::DiagnosticLevel::None).unwrap();
        env.mock_all_auths();
        let mut w = World { env: env.clone(), ad: HashMap::new(), names: BTreeMap::new(), sc: HashMap::new(), prices: HashMap::new(), deployed: 0, fresh: false };
        w.set_time(n[0] as u64, 1000);
        for u in ["admin", "alice", "bob", "carol", "dan", "dave", "bs2"] {
            let a = Address::generate(&env);
            w.reg(u, a);
        }
        for p in BSPOOLS.iter().filter(|p| !POOLS.contains(p) && **p != "poolN") {
            let a = Address::generate(&env);
            w.reg(p, a);
        }
        for t in SACS {
            let a = env.register_stellar_asset_contract(w.a("admin"));
            w.reg(t, a);
        }
        for o in ["oracleA", "oracleB"] {
            let a = env.register_contract(None, MockOracle);
            w.reg(o, a);
        }
        let a = env.register_contract(None, MockComet);
        w.reg("lp", a);
        for c in ["factory", "facN"] {
            let a = env.register_contract(None, pool_factory::PoolFactoryContract);
            w.reg(c, a);
        }
        for c in ["emitter", "emN"] {
            let a = env.register_contract(None, emitter::EmitterContract);
            w.reg(c, a);
        }
        for c in ["backstop", "bs3"] {
            let a = env.register_contract(None, backstop::BackstopContract);
            w.reg(c, a);
        }
        for p in ["poolA", "poolB", "poolN"] {
            let a = env.register_contract(None, pool::PoolContract);
            w.reg(p, a);
        }
        // assets that only ever appear in a pool's configuration
        for i in 0..WIDE {
            let a = Address::generate(&env);
            w.reg(&format!("t{i}"), a);
        }
        let e = &w.env;
        w.call0::<()>("oracleA", "setup", (7u32,).into_val(e));
        w.call0::<()>("oracleB", "setup", (9u32,).into_val(e));
        let args = w.fac_init_args("backstop", "blnd");
        w.call0::<()>("factory", "initialize", args);
        e.as_contract(&w.a("factory"), || {
            for p in BSPOOLS.iter().filter(|p| **p != "poolU" && **p != "poolN") {
                e.storage().persistent().set(&FacKey::Contracts(w.a(p)), &true);
            }
        });
        w.call0::<()>("lp", "set_rate", (1_0000000i128,).into_val(e));
        w.call0::<()>("blnd", "set_admin", (w.a("emitter"),).into_val(e));
        w.call0::<()>("emitter", "initialize", (w.a("blnd"), w.a("backstop"), w.a("lp")).into_val(e));
        let args = w.bs_init_args();
        w.call0::<()>("backstop", "initialize", args);
        for (i, p) in POOLS.iter().enumerate() {
            let args = w.pool_init_args(p, as32(n[1 + 2 * i]), as32(n[2 + 2 * i]));
            w.call0::<()>(p, "initialize", args);
        }
        w
    }
    fn fac_init_args(&self, backstop: &str, blnd: &str) -> SVec<Val> {
        let e = &self.env;
        let pool_hash = e.deployer().upload_contract_wasm(Bytes::from_slice(e, STUB));
        (PoolInitMeta { pool_hash, backstop: self.a(backstop), blnd_id: self.a(blnd) },).into_val(e)
    }
    fn bs_init_args(&self) -> SVec<Val> {
        let e = &self.env;
        let drops: SVec<(Address, i128)> =
            SVec::from_array(e, [(self.a("alice"), 1000_0000000i128), (self.a("carol"), 7i128)]);
        (self.a("lp"), self.a("emitter"), self.a("usdc"), self.a("blnd"), self.a("factory"), drops).into_val(e)
    }
    fn pool_init_args(&self, p: &str, rate: u32, maxp: u32) -> SVec<Val> {
        let e = &self.env;
        (
            self.a("admin"),
            SString::from_str(e, p),
            self.a(oracle_of(p)),
            rate,
            maxp,
            self.a("backstop"),
            self.a("blnd"),
        )
            .into_val(e)
    }

    /// the contract call an operation stands for
    fn call_of(&self, o: &Op) -> (Address, &'static str, SVec<Val>) {
        let e = &self.env;
        let s = |i: usize| self.a(&o.s[i]);
        let list = |from: usize| -> SVec<Address> {
            let mut v = SVec::new(e);
            for x in &o.s[from..] {
                v.push_back(self.a(x));
            }
            v
        };
        let none: SVec<Val> = SVec::new(e);
        match o.op.as_str() {
            "transfer" => (s(0), "transfer", (s(1), s(2), o.n[0]).into_val(e)),
            "submit" => {
                let mut v: SVec<Request> = SVec::new(e);
                for r in &o.reqs {
                    v.push_back(Request { address: self.a(&r.addr), amount: r.amt, request_type: as32(r.rt) });
                }
                (s(0), "submit", (s(1), s(2), s(3), v).into_val(e))
            }
            "bad_debt" => (s(0), "bad_debt", (s(1),).into_val(e)),
            "update_status" => (s(0), "update_status", none),
            "set_status" => (s(0), "set_status", (as32(o.n[0]),).into_val(e)),
            "update_pool" => (s(0), "update_pool", (as32(o.n[0]), as32(o.n[1])).into_val(e)),
            "set_admin" => (s(0), "set_admin", (s(1),).into_val(e)),
            "queue_res" => {
                let n: Vec<u32> = o.n.iter().map(|x| as32(*x)).collect();
                let c = ReserveConfig {
                    index: n[0],
                    decimals: n[1],
                    c_factor: n[2],
                    l_factor: n[3],
                    util: n[4],
                    max_util: n[5],
                    r_base: n[6],
                    r_one: n[7],
                    r_two: n[8],
                    r_three: n[9],
                    reactivity: n[10],
                };
                (s(0), "queue_set_reserve", (s(1), c).into_val(e))
            }
            "cancel_res" => (s(0), "cancel_set_reserve", (s(1),).into_val(e)),
            "set_res" => (s(0), "set_reserve", (s(1),).into_val(e)),
            "set_emis" => {
                let mut v: SVec<ReserveEmissionMetadata> = SVec::new(e);
                for c in o.n.chunks(3) {
                    v.push_back(ReserveEmissionMetadata {
                        res_index: as32(c[0]),
                        res_type: as32(c[1]),
                        share: c[2] as u64,
                    });
                }
                (s(0), "set_emissions_config", (v,).into_val(e))
            }
            "pgulp" => (s(0), "gulp_emissions", none),
            "pclaim" => {
                let mut v: SVec<u32> = SVec::new(e);
                for x in &o.n {
                    v.push_back(as32(*x));
                }
                (s(0), "claim", (s(1), v, s(2)).into_val(e))
            }
            "new_liq" => (s(0), "new_liquidation_auction", (s(1), o.n[0] as u64).into_val(e)),
            "new_bad_debt" => (s(0), "new_bad_debt_auction", none),
            "new_interest" => (s(0), "new_interest_auction", (list(1),).into_val(e)),
            "deploy" => {
                let mut salt = [0u8; 32];
                salt[..o.s[1].len()].copy_from_slice(o.s[1].as_bytes());
                let salt = BytesN::from_array(e, &salt);
                let name = SString::from_str(e, &o.s[1]);
                (self.a("factory"), "deploy", (s(0), name, salt, s(2), as32(o.n[0]), as32(o.n[1])).into_val(e))
            }
            "pnew" => {
                let name = SString::from_str(e, "poolN");
                let args = (s(0), name, s(1), as32(o.n[0]), as32(o.n[1]), self.a("backstop"), self.a("blnd")).into_val(e);
                (self.a("poolN"), "initialize", args)
            }
            "finit" => (s(0), "initialize", self.fac_init_args(&o.s[1], &o.s[2])),
            "pinit" => {
                let name = SString::from_str(e, &o.s[0]);
                (s(0), "initialize", (s(1), name, s(2), as32(o.n[0]), as32(o.n[1]), s(3), s(4)).into_val(e))
            }
            "bdeposit" => (self.a("backstop"), "deposit", (s(0), s(1), o.n[0]).into_val(e)),
            "bqueue" => (self.a("backstop"), "queue_withdrawal", (s(0), s(1), o.n[0]).into_val(e)),
            "bdequeue" => (self.a("backstop"), "dequeue_withdrawal", (s(0), s(1), o.n[0]).into_val(e)),
            "bwithdraw" => (self.a("backstop"), "withdraw", (s(0), s(1), o.n[0]).into_val(e)),
            "bclaim" => (self.a("backstop"), "claim", (s(0), list(2), s(1)).into_val(e)),
            "bdonate" => (self.a("backstop"), "donate", (s(0), s(1), o.n[0]).into_val(e)),
            "bdraw" => (self.a("backstop"), "draw", (s(0), o.n[0], s(1)).into_val(e)),
            "bgulp" => (self.a("backstop"), "gulp_emissions", none),
            "bgulp_pool" => (self.a("backstop"), "gulp_pool_emissions", (s(0),).into_val(e)),
            "badd_reward" => (self.a("backstop"), "add_reward", (s(0), s(1)).into_val(e)),
            "bupdate_val" => (self.a("backstop"), "update_tkn_val", none),
            "bdrop" => (self.a("backstop"), "drop", none),
            "binit" => {
                let drops: SVec<(Address, i128)> = SVec::from_array(e, [(self.a("bob"), 5i128)]);
                (s(0), "initialize", (s(1), s(2), s(3), s(4), s(5), drops).into_val(e))
            }
            "distribute" => (self.a("emitter"), "distribute", none),
            "queue_swap" => (self.a("emitter"), "queue_swap_backstop", (s(0), s(1)).into_val(e)),
            "cancel_swap" => (self.a("emitter"), "cancel_swap_backstop", none),
            "swap" => (self.a("emitter"), "swap_backstop", none),
            "edrop" => {
                let mut v: SVec<(Address, i128)> = SVec::new(e);
                for (i, x) in o.s.iter().enumerate() {
                    v.push_back((self.a(x), o.n[i]));
                }
                (self.a("emitter"), "drop", (v,).into_val(e))
            }
            "einit" => (s(0), "initialize", (s(1), s(2), s(3)).into_val(e)),
            x => panic!("unknown operation {x}"),
        }
    }
    /// the value returned, or the contract error code (0: any other failure)
    fn invoke(&self, c: &(Address, &'static str, SVec<Val>)) -> Result<Val, u32> {
        match self.env.try_invoke_contract::<Val, Error>(&c.0, &Symbol::new(&self.env, c.1), c.2.clone()) {
            Ok(Ok(v)) => Ok(v),
            Err(Ok(e)) if e.is_type(soroban_sdk::xdr::ScErrorType::Contract) => Err(e.get_code()),
            _ => Err(0),
        }
    }
    /// i128 reading of the value a call returned, for operations the specification gives a result
    fn scalar(&self, o: &Op, v: Val) -> Option<i128> {
        let e = &self.env;
        match o.op.as_str() {
            "set_res" | "update_status" => u32::try_from_val(e, &v).ok().map(|x| x as i128),
            "pgulp" | "pclaim" | "bdeposit" | "bwithdraw" | "bclaim" | "bgulp_pool" | "distribute" => {
                i128::try_from_val(e, &v).ok()
            }
            "bqueue" => Q4W::try_from_val(e, &v).ok().map(|x| x.exp as i128),
            _ => None,
        }
    }

    /// environment steps; true if `o` was one
    pub fn environment(&mut self, o: &Op) -> bool {
        let e = self.env.clone();
        match o.op.as_str() {
            "advance" => {
                let t = e.ledger().timestamp() + o.n[0] as u64;
                self.set_time(t, e.ledger().sequence() + o.n[1] as u32);
                if o.n[2] != 0 {
                    for ((or, a), p) in self.prices.clone() {
                        self.call0::<()>(&or, "put", (self.a(&a), p, t).into_val(&e));
                    }
                }
            }
            "price" => {
                let t = (e.ledger().timestamp() as i128 - o.n[1]) as u64;
                self.prices.insert((o.s[0].clone(), o.s[1].clone()), o.n[0]);
                self.call0::<()>(&o.s[0], "put", (self.a(&o.s[1]), o.n[0], t).into_val(&e));
            }
            "noprice" => {
                self.prices.remove(&(o.s[0].clone(), o.s[1].clone()));
                self.call0::<()>(&o.s[0], "clear", (self.a(&o.s[1]),).into_val(&e));
            }
            "mint" => {
                e.mock_all_auths();
                self.call0::<()>(&o.s[0], "mint", (self.a(&o.s[1]), o.n[0]).into_val(&e));
            }
            "cmint" => {
                e.mock_all_auths();
                self.call0::<()>("lp", "force_mint", (self.a(&o.s[0]), o.n[0]).into_val(&e));
                self.call0::<()>("blnd", "mint", (self.a("lp"), o.n[1]).into_val(&e));
                self.call0::<()>("usdc", "mint", (self.a("lp"), o.n[2]).into_val(&e));
            }
            "crate" => self.call0::<()>("lp", "set_rate", (o.n[0],).into_val(&e)),
            _ => return false,
        }
        true
    }

    /// perform one call of the specification on the real contracts
    pub fn call(&mut self, c: &Call, check_auth: bool) -> Outcome {
        let mut out = Outcome::default();
        let t = self.call_of(&c.o);
        let mut r = Err(0);
        if check_auth && c.ok {
            // without any authorization: must fail iff the call needs some
            self.env.set_auths(&[]);
            r = self.invoke(&t);
            out.unauthorized = r.is_ok() && !c.sg.is_empty();
        }
        if r.is_err() {
            self.env.mock_all_auths();
            r = self.invoke(&t);
            out.sg = Some(self.env.auths().iter().map(|(a, _)| self.name(a)).collect());
        }
        if let Err(c) = r {
            out.err = c;
        }
        if let Ok(v) = r {
            out.ok = true;
            out.ret = self.scalar(&c.o, v);
            out.frags = self.returned(&c.o, v);
            match c.o.op.as_str() {
                "deploy" if self.deployed < DEPLOYED.len() => {
                    if let Ok(a) = Address::try_from_val(&self.env, &v) {
                        self.reg(DEPLOYED[self.deployed], a);
                        self.deployed += 1;
                    }
                }
                "pnew" => self.fresh = true,
                _ => {}
            }
        }
        out
    }
    /// what a call's structured result says about the state it leaves
    fn returned(&self, o: &Op, v: Val) -> Vec<Fragment> {
        let e = &self.env;
        let mut f = vec![];
        match o.op.as_str() {
            "submit" => {
                if let Ok(x) = Positions::try_from_val(e, &v) {
                    f.push(self.frag_pos(&o.s[0], &o.s[1], &x));
                }
            }
            "new_liq" | "new_bad_debt" | "new_interest" => {
                let (t, u) = match o.op.as_str() {
                    "new_liq" => (0, o.s[1].as_str()),
                    "new_bad_debt" => (1, "backstop"),
                    _ => (2, "backstop"),
                };
                if let Ok(x) = AuctionData::try_from_val(e, &v) {
                    f.push(self.frag_auction(&o.s[0], t, u, &x));
                }
            }
            "bupdate_val" => {
                if let Ok((b, u)) = <(i128, i128)>::try_from_val(e, &v) {
                    let m = BTreeMap::from([("bs.lpBlnd".to_string(), b.to_string()), ("bs.lpUsdc".to_string(), u.to_string())]);
                    f.push(("bs.lp".into(), m));
                }
            }
            _ => {}
        }
        f
    }
    fn frag_pos(&self, p: &str, u: &str, x: &Positions) -> Fragment {
        let q = format!("pool.{p}.pos.{u}.");
        let mut o = Obs::new();
        for (k, m) in [("liab", &x.liabilities), ("coll", &x.collateral), ("sup", &x.supply)] {
            for (i, v) in m.iter() {
                o.insert(format!("{q}{k}.{i}"), v.to_string());
            }
        }
        (q, o)
    }
    fn frag_auction(&self, p: &str, t: u32, u: &str, x: &AuctionData) -> Fragment {
        let q = format!("pool.{p}.auc.{t}.{u}.");
        let mut o = Obs::new();
        o.insert(format!("{q}block"), x.block.to_string());
        for (k, m) in [("bid", &x.bid), ("lot", &x.lot)] {
            for (a, v) in m.iter() {
                o.insert(format!("{q}{k}.{}", self.name(&a)), v.to_string());
            }
        }
        (q, o)
    }
    fn get<T: TryFromVal<Env, Val>>(&self, c: &str, f: &'static str, args: SVec<Val>) -> Option<T> {
        self.invoke(&(self.a(c), f, args)).ok().and_then(|v| T::try_from_val(&self.env, &v).ok())
    }
    /// what the read-only entry points report, as observations (`spec`: what is expected to exist).
    /// Asked about the accounts in `o`, and in turn (`turn`) about everything else.
    pub fn getters(&self, spec: &Obs, o: &Op, turn: usize) -> Vec<Fragment> {
        let e = &self.env;
        let mut f: Vec<Fragment> = vec![];
        let lost = |q: String| -> Fragment { (q.clone(), BTreeMap::from([(format!("{q}getter"), "failed".to_string())])) };
        let due = |i: usize, u: &str| i == turn % USERS.len() || o.s.iter().any(|x| x == u);
        for p in POOLS {
            for (i, u) in USERS.into_iter().enumerate() {
                if !due(i, u) {
                    continue;
                }
                match self.get::<Positions>(p, "get_positions", (self.a(u),).into_val(e)) {
                    Some(x) => f.push(self.frag_pos(p, u, &x)),
                    None => f.push(lost(format!("pool.{p}.pos.{u}."))),
                }
                for t in 0..3u32 {
                    if spec.contains_key(&format!("pool.{p}.auc.{t}.{u}.block")) {
                        match self.get::<AuctionData>(p, "get_auction", (t, self.a(u)).into_val(e)) {
                            Some(x) => f.push(self.frag_auction(p, t, u, &x)),
                            None => f.push(lost(format!("pool.{p}.auc.{t}.{u}."))),
                        }
                    }
                }
            }
            let q = format!("view.{p}.");
            let mut o = Obs::new();
            if let Some(x) = self.get::<PoolBackstopData>("backstop", "pool_data", (self.a(p),).into_val(e)) {
                for (k, v) in [("tokens", x.tokens), ("q4w", x.q4w_pct), ("blnd", x.blnd), ("usdc", x.usdc)] {
                    o.insert(format!("{q}{k}"), v.to_string());
                }
            }
            f.push((q, o));
        }
        for p in ["poolA", "poolB", "poolX"] {
            for (i, u) in USERS.into_iter().enumerate() {
                if !due(i, u) {
                    continue;
                }
                let q = format!("bs.user.{p}.{u}.");
                match self.get::<UserBalance>("backstop", "user_balance", (self.a(p), self.a(u)).into_val(e)) {
                    Some(x) => f.push((q.clone(), Self::user_bal(&q, &x))),
                    None => f.push(lost(q)),
                }
            }
        }
        if !(turn % 4 == 0 || ["distribute", "queue_swap", "cancel_swap", "swap"].contains(&o.op.as_str())) {
            return f;
        }
        let mut o = Obs::new();
        if let Some(a) = self.get::<Address>("emitter", "get_backstop", SVec::new(e)) {
            o.insert("em.backstop".into(), self.name(&a));
        }
        f.push(("em.backstop".into(), o));
        for h in ["backstop", "bs2", "bs3"] {
            let q = format!("em.last.{h}");
            if spec.contains_key(&q) {
                let mut o = Obs::new();
                if let Some(t) = self.get::<u64>("emitter", "get_last_distro", (self.a(h),).into_val(e)) {
                    o.insert(q.clone(), t.to_string());
                }
                f.push((q, o));
            }
        }
        let mut o = Obs::new();
        match self.get::<Option<Swap>>("emitter", "get_queued_swap", SVec::new(e)) {
            Some(Some(s)) => self.put_swap(&mut o, &s),
            Some(None) => {}
            None => {
                o.insert("em.swap.getter".into(), "failed".into());
            }
        }
        f.push(("em.swap.".into(), o));
        f
    }
    fn user_bal(q: &str, x: &UserBalance) -> Obs {
        let mut o = Obs::new();
        if x.shares != 0 {
            o.insert(format!("{q}shares"), x.shares.to_string());
        }
        for (i, y) in x.q4w.iter().enumerate() {
            o.insert(format!("{q}q.{i}.amount"), y.amount.to_string());
            o.insert(format!("{q}q.{i}.exp"), y.exp.to_string());
        }
        o
    }
    fn put_swap(&self, o: &mut Obs, s: &Swap) {
        o.insert("em.swap.nb".into(), self.name(&s.new_backstop));
        o.insert("em.swap.nt".into(), self.name(&s.new_backstop_token));
        o.insert("em.swap.unlock".into(), s.unlock_time.to_string());
    }

    // ---- observation ---------------------------------------------------------
    /// what the factory says about the pools it may know (only once something was deployed)
    pub fn observe_factory(&self, o: &mut Obs) {
        if self.deployed > 0 || self.fresh {
            for p in DEPLOYED.iter().take(self.deployed).chain(["poolN", "poolU", "poolA"].iter()) {
                let k = format!("fac.is.{p}");
                if self.get::<bool>("factory", "is_pool", (self.a(p),).into_val(&self.env)).unwrap_or(false) {
                    o.insert(k, "true".into());
                } else {
                    o.remove(&k);
                }
            }
        }
    }
}
