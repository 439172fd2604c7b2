//! The state of the real contracts, read from their ledger entries and named as in the
//! specification. Entries are flattened once and kept until they are rewritten.
use crate::world::{Obs, World, BSPOOLS, DEPLOYED, HOLDERS, POOLS, SACS, USERS};
use soroban_env_host::storage::Storage;
use soroban_env_host::xdr::{LedgerEntry, LedgerEntryData, ScMap, ScVal};
use std::collections::HashMap;
use std::rc::Rc;

type Flat = Vec<(String, String)>;

struct Seen {
    gen: u64,
    /// last ledger in which the entry exists
    live: u32,
    shown: bool,
    flat: Flat,
    _keep: Rc<LedgerEntry>,
}
#[derive(Default)]
pub struct Cache {
    gen: u64,
    seen: HashMap<*const LedgerEntry, Seen>,
    pub obs: Obs,
}

fn num(v: &ScVal) -> Option<i128> {
    Some(match v {
        ScVal::U32(x) => *x as i128,
        ScVal::I32(x) => *x as i128,
        ScVal::U64(x) => *x as i128,
        ScVal::I64(x) => *x as i128,
        ScVal::I128(p) => ((p.hi as i128) << 64) | p.lo as i128,
        ScVal::U128(p) => (((p.hi as u128) << 64) | p.lo as u128) as i128,
        _ => return None,
    })
}
fn sym(v: &ScVal) -> Option<String> {
    match v {
        ScVal::Symbol(s) => Some(s.0.to_string()),
        _ => None,
    }
}
fn text(v: &ScVal) -> Option<String> {
    match v {
        ScVal::String(s) => Some(s.0.to_string()),
        _ => None,
    }
}
/// names of deployed pools
const SALTS: [&str; 3] = ["s1", "s2", "s3"];
fn field<'a>(v: &'a ScVal, k: &str) -> Option<&'a ScVal> {
    match v {
        ScVal::Map(Some(m)) => m.0.iter().find(|e| matches!(&e.key, ScVal::Symbol(s) if s.0.as_slice() == k.as_bytes())).map(|e| &e.val),
        _ => None,
    }
}
fn items(v: &ScVal) -> &[ScVal] {
    match v {
        ScVal::Vec(Some(l)) => l.0.as_slice(),
        _ => &[],
    }
}
fn pairs(v: &ScVal) -> Vec<(&ScVal, &ScVal)> {
    match v {
        ScVal::Map(Some(ScMap(m))) => m.iter().map(|e| (&e.key, &e.val)).collect(),
        _ => vec![],
    }
}

struct Flattener<'a> {
    w: &'a World,
    f: Flat,
    live: u32,
}
impl<'a> Flattener<'a> {
    fn name(&self, v: &ScVal) -> String {
        match v {
            ScVal::Address(a) => self.w.sc.get(a).cloned().unwrap_or_else(|| "?".into()),
            _ => "?".into(),
        }
    }
    fn put(&mut self, k: String, v: impl ToString) {
        self.f.push((k, v.to_string()));
    }
    /// the listed fields of a structure (storage name, observed name); zeros left out if `nz`
    fn fields(&mut self, pre: &str, v: &ScVal, l: &[(&str, &str)], nz: bool) {
        for (a, b) in l {
            let x = field(v, a).and_then(num);
            if !(nz && x == Some(0)) {
                self.put(format!("{pre}.{b}"), x.map_or("?".to_string(), |x| x.to_string()));
            }
        }
    }
    fn cfg(&mut self, pre: &str, v: &ScVal) {
        self.fields(pre, v, &[("index", "index"), ("decimals", "dec"), ("c_factor", "cf"), ("l_factor", "lf"),
            ("util", "util"), ("max_util", "maxUtil"), ("r_base", "rBase"), ("r_one", "r1"), ("r_two", "r2"),
            ("r_three", "r3"), ("reactivity", "react")], false);
    }
    fn pool(&mut self, p: &str, key: &str, args: &[ScVal], v: &ScVal) {
        let q = format!("pool.{p}");
        let n = args.first().and_then(num).unwrap_or(-1);
        let a = args.first().map(|x| self.name(x)).unwrap_or_default();
        let user = args.first().and_then(|x| field(x, "user")).map(|x| self.name(x)).unwrap_or_default();
        match key {
            "ResList" => {
                for (i, x) in items(v).iter().enumerate() {
                    self.put(format!("{q}.resList.{i}"), self.name(x));
                }
            }
            "PoolEmis" => {
                for (k, x) in pairs(v) {
                    self.put(format!("{q}.emisShare.{}", num(k).unwrap_or(-1)), num(x).unwrap_or(-1));
                }
            }
            "ResConfig" => self.cfg(&format!("{q}.cfg.{a}"), v),
            "ResData" => self.fields(&format!("{q}.data.{a}"), v, &[("d_rate", "dRate"), ("b_rate", "bRate"), ("ir_mod", "irMod"),
                ("b_supply", "bSup"), ("d_supply", "dSup"), ("backstop_credit", "credit"), ("last_time", "lastT")], false),
            "ResInit" => {
                if let Some(c) = field(v, "new_config") {
                    self.cfg(&format!("{q}.queued.{a}"), c);
                }
                self.fields(&format!("{q}.queued.{a}"), v, &[("unlock_time", "unlock")], false);
            }
            "EmisConfig" => self.fields(&format!("{q}.eCfg.{n}"), v, &[("expiration", "exp"), ("eps", "eps")], false),
            "EmisData" => self.fields(&format!("{q}.eData.{n}"), v, &[("index", "index"), ("last_time", "last")], false),
            "UserEmis" => {
                let t = field(&args[0], "reserve_id").and_then(num).unwrap_or(-1);
                self.fields(&format!("{q}.uEmis.{user}.{t}"), v, &[("index", "index"), ("accrued", "accrued")], false);
            }
            "Positions" if USERS.contains(&a.as_str()) => {
                for (k, s) in [("liabilities", "liab"), ("collateral", "coll"), ("supply", "sup")] {
                    for (i, x) in field(v, k).map(pairs).unwrap_or_default() {
                        self.put(format!("{q}.pos.{a}.{s}.{}", num(i).unwrap_or(-1)), num(x).unwrap_or(i128::MIN));
                    }
                }
            }
            "Auction" => {
                let t = field(&args[0], "auct_type").and_then(num).unwrap_or(-1);
                let pre = format!("{q}.auc.{t}.{user}");
                self.fields(&pre, v, &[("block", "block")], false);
                for k in ["bid", "lot"] {
                    for (i, x) in field(v, k).map(pairs).unwrap_or_default() {
                        self.put(format!("{pre}.{k}.{}", self.name(i)), num(x).unwrap_or(-1));
                    }
                }
            }
            _ => {}
        }
    }
    fn pool_instance(&mut self, p: &str, st: &[(&ScVal, &ScVal)]) {
        let at = |k: &str| st.iter().find(|(a, _)| sym(a).as_deref() == Some(k)).map(|x| x.1);
        let q = if p == "poolN" { "fac.dep.poolN".to_string() } else { format!("pool.{p}") };
        if let Some(c) = at("Config") {
            self.put(format!("{q}.admin"), at("Admin").map(|x| self.name(x)).unwrap_or_default());
            self.put(format!("{q}.oracle"), field(c, "oracle").map(|x| self.name(x)).unwrap_or_default());
            self.fields(&q, c, &[("bstop_rate", "rate"), ("max_positions", "maxPos")], false);
            let status = field(c, "status").and_then(num).unwrap_or(-1);
            let blnd = at("BLNDTkn").map(|x| self.name(x)).unwrap_or_default();
            let name = at("Name").and_then(text).unwrap_or_default();
            if name != p {
                self.put(format!("{q}.name"), name);
            }
            let bs = at("Backstop").map(|x| self.name(x)).unwrap_or_default();
            if p == "poolN" {
                self.put(format!("{q}.backstop"), bs);
                self.put(format!("{q}.blnd"), blnd);
                if status != 6 {
                    self.put(format!("{q}.status"), status);
                }
            } else {
                self.put(format!("{q}.status"), status);
                // the wiring never changes, so the specification has no state for it
                for (k, x, want) in [("backstop", bs, "backstop"), ("blnd", blnd, "blnd")] {
                    if x != want {
                        self.put(format!("{q}.{k}"), x);
                    }
                }
            }
        }
    }
    fn backstop(&mut self, key: &str, args: &[ScVal], v: &ScVal) {
        let p = match args.first() {
            Some(x @ ScVal::Map(_)) => field(x, "pool").map(|y| self.name(y)).unwrap_or_default(),
            Some(x) => self.name(x),
            None => String::new(),
        };
        let u = args.first().and_then(|x| field(x, "user")).map(|y| self.name(y)).unwrap_or_default();
        match key {
            "RZ" => {
                for (i, x) in items(v).iter().enumerate() {
                    self.put(format!("bs.rz.{i}"), self.name(x));
                }
            }
            "LastDist" => self.put("bs.lastDist".into(), num(v).unwrap_or(-1)),
            "LPTknVal" => {
                if let [a, b] = items(v) {
                    self.put("bs.lpBlnd".into(), num(a).unwrap_or(-1));
                    self.put("bs.lpUsdc".into(), num(b).unwrap_or(-1));
                }
            }
            "PoolBalance" => self.fields(&format!("bs.pool.{p}"), v, &[("shares", "shares"), ("tokens", "tokens"), ("q4w", "q4w")], true),
            "PoolEmis" => {
                if num(v) != Some(0) {
                    self.put(format!("bs.poolEmis.{p}"), num(v).unwrap_or(-1));
                }
            }
            "BEmisCfg" => self.fields(&format!("bs.eCfg.{p}"), v, &[("expiration", "exp"), ("eps", "eps")], false),
            "BEmisData" => self.fields(&format!("bs.eData.{p}"), v, &[("index", "index"), ("last_time", "last")], false),
            "UserBalance" if USERS.contains(&u.as_str()) => {
                let pre = format!("bs.user.{p}.{u}");
                self.fields(&pre, v, &[("shares", "shares")], true);
                for (i, x) in field(v, "q4w").map(items).unwrap_or(&[]).iter().enumerate() {
                    self.fields(&format!("{pre}.q.{i}"), x, &[("amount", "amount"), ("exp", "exp")], false);
                }
            }
            "UEmisData" if USERS.contains(&u.as_str()) => {
                self.fields(&format!("bs.uEmis.{p}.{u}"), v, &[("index", "index"), ("accrued", "accrued")], false)
            }
            _ => {}
        }
    }
    fn emitter(&mut self, key: &str, args: &[ScVal], v: &ScVal) {
        let a = args.first().map(|x| self.name(x)).unwrap_or_default();
        match key {
            "LastDistro" => self.put(format!("em.last.{a}"), num(v).unwrap_or(-1)),
            "Dropped" => {
                if *v == ScVal::Bool(true) {
                    self.put(format!("em.dropped.{a}"), "true");
                }
            }
            "Swap" => {
                for (k, s) in [("new_backstop", "nb"), ("new_backstop_token", "nt")] {
                    self.put(format!("em.swap.{s}"), field(v, k).map(|x| self.name(x)).unwrap_or_default());
                }
                self.fields("em.swap", v, &[("unlock_time", "unlock")], false);
            }
            _ => {}
        }
    }
    /// what a contract outside the system was initialized with
    fn wiring(&mut self, c: &str, st: &[(&ScVal, &ScVal)], keys: &[&str]) {
        for (i, k) in keys.iter().enumerate() {
            if let Some(x) = st.iter().find(|(a, _)| sym(a).as_deref() == Some(k)) {
                self.put(format!("spare.{c}.{i}"), self.name(x.1));
            }
        }
    }
    fn token(&mut self, t: &str, key: &str, args: &[ScVal], v: &ScVal) {
        match key {
            "Balance" | "Bal" => {
                let h = args.first().map(|x| self.name(x)).unwrap_or_default();
                let x = if key == "Bal" { num(v) } else { field(v, "amount").and_then(num) }.unwrap_or(-1);
                if x != 0 && HOLDERS.contains(&h.as_str()) {
                    self.put(format!("bal.{t}.{h}"), x);
                }
            }
            "Allowance" if t == "blnd" => {
                let f = field(&args[0], "from").map(|x| self.name(x)).unwrap_or_default();
                let s = field(&args[0], "spender").map(|x| self.name(x)).unwrap_or_default();
                let x = field(v, "amount").and_then(num).unwrap_or(-1);
                if f == "backstop" && BSPOOLS.contains(&s.as_str()) && x != 0 {
                    let exp = field(v, "live_until_ledger").and_then(num).unwrap_or(0);
                    self.live = self.live.min(exp.clamp(0, u32::MAX as i128) as u32);
                    self.put(format!("allow.{s}"), x);
                }
            }
            _ => {}
        }
    }
    fn entry(&mut self, e: &LedgerEntry) {
        let d = match &e.data {
            LedgerEntryData::ContractData(d) => d,
            _ => return,
        };
        let c = match self.w.sc.get(&d.contract) {
            Some(c) => c.clone(),
            None => return,
        };
        if let ScVal::ContractInstance(i) = &d.val {
            let st: Vec<(&ScVal, &ScVal)> = i.storage.as_ref().map(|m| m.0.iter().map(|e| (&e.key, &e.val)).collect()).unwrap_or_default();
            let at = |k: &str| st.iter().find(|(a, _)| sym(a).as_deref() == Some(k)).map(|x| x.1);
            match c.as_str() {
                "poolA" | "poolB" | "poolN" => self.pool_instance(&c, &st),
                "emN" => self.wiring(&c, &st, &["BLNDTkn", "Backstop", "BToken"]),
                "bs3" => self.wiring(&c, &st, &["BToken", "Emitter", "USDCTkn", "BLNDTkn", "PoolFact"]),
                "facN" | "factory" => {
                    if let Some(m) = at("PoolMeta") {
                        let l = [field(m, "backstop"), field(m, "blnd_id")].map(|x| x.map(|x| self.name(x)).unwrap_or_default());
                        if c == "facN" {
                            for (i, x) in l.into_iter().enumerate() {
                                self.put(format!("spare.facN.{i}"), x);
                            }
                        } else if l != ["backstop", "blnd"] {
                            self.put("fac.wiring".into(), l.join(" "));
                        }
                    }
                }
                "backstop" => {
                    let l = ["BToken", "Emitter", "USDCTkn", "BLNDTkn", "PoolFact"].map(|k| at(k).map(|x| self.name(x)).unwrap_or_default());
                    if l != ["lp", "emitter", "usdc", "blnd", "factory"] {
                        self.put("bs.wiring".into(), l.join(" "));
                    }
                }
                "emitter" => {
                    if at("BLNDTkn").map(|x| self.name(x)).as_deref() != Some("blnd") {
                        self.put("em.wiring".into(), "token");
                    }
                    for (k, s) in [("Backstop", "backstop"), ("BToken", "token")] {
                        if let Some(x) = at(k) {
                            self.put(format!("em.{s}"), self.name(x));
                        }
                    }
                }
                d if DEPLOYED.contains(&d) => {
                    // what the stand-in for the deployed pool was initialized with
                    if let Some([admin, name, oracle, rate, maxp, bs, blnd]) = at("args").map(items) {
                        let q = format!("fac.dep.{d}");
                        for (k, x) in [("admin", admin), ("oracle", oracle), ("backstop", bs), ("blnd", blnd)] {
                            self.put(format!("{q}.{k}"), self.name(x));
                        }
                        // its name is the text of its salt (world.rs)
                        if text(name).map_or(true, |x| !SALTS.contains(&x.as_str())) {
                            self.put(format!("{q}.name"), text(name).unwrap_or_default());
                        }
                        self.put(format!("{q}.rate"), num(rate).unwrap_or(-1));
                        self.put(format!("{q}.maxPos"), num(maxp).unwrap_or(-1));
                    }
                }
                _ => {}
            }
            return;
        }
        let (key, args): (String, &[ScVal]) = match &d.key {
            ScVal::Symbol(_) => (sym(&d.key).unwrap(), &[]),
            ScVal::Vec(Some(l)) if !l.0.is_empty() => match sym(&l.0[0]) {
                Some(k) => (k, &l.0.as_slice()[1..]),
                None => return,
            },
            _ => return,
        };
        match c.as_str() {
            c if POOLS.contains(&c) => self.pool(c, &key, args, &d.val),
            "backstop" => self.backstop(&key, args, &d.val),
            "emitter" => self.emitter(&key, args, &d.val),
            "emN" if key == "LastDistro" => {
                let a = args.first().map(|x| self.name(x)).unwrap_or_default();
                self.put(format!("spare.emN.last.{a}"), num(&d.val).unwrap_or(-1));
            }
            "bs3" if key == "LastDist" => self.put("spare.bs3.last".into(), num(&d.val).unwrap_or(-1)),
            c if SACS.contains(&c) || c == "lp" => self.token(c, &key, args, &d.val),
            _ => {}
        }
    }
}

impl World {
    /// bring `cache.obs` up to date with the ledger
    pub fn observe(&self, cache: &mut Cache) {
        let host = self.env.host();
        let budget = host.budget_cloned();
        let map = host.with_mut_storage(|s: &mut Storage| Ok(s.map.clone())).unwrap();
        let seq = self.env.ledger().sequence();
        cache.gen += 1;
        let gen = cache.gen;
        let mut new = vec![];
        for (_, v) in map.iter(&budget).unwrap() {
            if let Some((e, live)) = v {
                let p = Rc::as_ptr(e);
                match cache.seen.get_mut(&p) {
                    Some(s) => s.gen = gen,
                    None => {
                        let mut f = Flattener { w: self, f: vec![], live: live.unwrap_or(u32::MAX) };
                        f.entry(e);
                        new.push((p, Seen { gen, live: f.live, shown: false, flat: f.f, _keep: e.clone() }));
                    }
                }
            }
        }
        let obs = &mut cache.obs;
        cache.seen.retain(|_, s| {
            let keep = s.gen == gen;
            if s.shown && (!keep || s.live < seq) {
                s.flat.iter().for_each(|(k, _)| {
                    obs.remove(k);
                });
                s.shown = false;
            }
            keep
        });
        for (p, mut s) in new {
            if s.live >= seq {
                s.shown = true;
                for (k, v) in &s.flat {
                    obs.insert(k.clone(), v.clone());
                }
            }
            cache.seen.insert(p, s);
        }
        if !obs.contains_key("bs.lastDist") {
            obs.insert("bs.lastDist".into(), "0".into());
        }
        self.observe_factory(obs);
    }
}
