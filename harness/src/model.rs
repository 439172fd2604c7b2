//! Reading behaviours of the specification (ITF traces written by `quint run`).
use crate::world::{Call, Obs, Op, Req, HOLDERS, USERS};
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct State {
    pub calls: Vec<Call>,
    pub obs: Obs,
    /// properties of the specification this step breaks (None: not evaluated in this behaviour)
    pub viol: Option<Vec<String>>,
}
pub struct Trace {
    pub id: String,
    pub prof: String,
    pub states: Vec<State>,
}
impl Trace {
    /// the first `n` states
    pub fn cut(&self, n: usize) -> Trace {
        Trace { id: self.id.clone(), prof: self.prof.clone(), states: self.states[..n.min(self.states.len())].to_vec() }
    }
}
pub fn int(v: &Value) -> i128 {
    match v {
        Value::Number(n) => n.as_i64().unwrap() as i128,
        Value::Object(o) => o["#bigint"].as_str().unwrap().parse::<i128>().unwrap_or(i128::MAX),
        _ => panic!("not an integer: {v}"),
    }
}
pub fn st(v: &Value) -> String {
    v.as_str().unwrap().to_string()
}
fn list(v: &Value) -> &Vec<Value> {
    match v {
        Value::Array(a) => a,
        Value::Object(o) => o
            .get("#set")
            .or_else(|| o.get("#tup"))
            .and_then(|x| x.as_array())
            .unwrap_or_else(|| panic!("not a list: {v}")),
        _ => panic!("not a list: {v}"),
    }
}
fn map(v: &Value) -> Vec<(&Value, &Value)> {
    v["#map"].as_array().unwrap().iter().map(|p| (&p[0], &p[1])).collect()
}
fn key(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        Value::Number(_) => int(v).to_string(),
        Value::Object(o) if o.contains_key("#tup") => {
            list(v).iter().map(key).collect::<Vec<_>>().join(".")
        }
        Value::Array(a) => a.iter().map(key).collect::<Vec<_>>().join("."),
        _ => int(v).to_string(),
    }
}

fn flatten(w: &Value) -> Obs {
    let mut o: BTreeMap<String, String> = BTreeMap::new();
    let nz = |o: &mut Obs, k: String, v: &Value| {
        let x = int(v);
        if x != 0 {
            o.insert(k, x.to_string());
        }
    };
    let pi = |o: &mut Obs, k: String, v: &Value| {
        o.insert(k, int(v).to_string());
    };
    for (k, v) in map(&w["bal"]) {
        let k = key(k);
        if HOLDERS.contains(&k.split('.').nth(1).unwrap()) {
            nz(&mut o, format!("bal.{k}"), v);
        }
    }
    let seq = int(&w["seq"]);
    for (k, v) in map(&w["allow"]) {
        if int(&v["exp"]) >= seq {
            nz(&mut o, format!("allow.{}", key(k)), &v["amt"]);
        }
    }
    let cfg = |o: &mut Obs, pre: String, c: &Value| {
        for f in ["index", "dec", "cf", "lf", "util", "maxUtil", "rBase", "r1", "r2", "r3", "react"] {
            o.insert(format!("{pre}.{f}"), int(&c[f]).to_string());
        }
    };
    for (p, x) in map(&w["pools"]) {
        let q = format!("pool.{}", key(p));
        o.insert(format!("{q}.admin"), st(&x["admin"]));
        o.insert(format!("{q}.oracle"), st(&x["oracle"]));
        for f in ["rate", "status", "maxPos"] {
            pi(&mut o, format!("{q}.{f}"), &x[f]);
        }
        for (i, a) in list(&x["resList"]).iter().enumerate() {
            o.insert(format!("{q}.resList.{i}"), st(a));
        }
        for (a, c) in map(&x["cfg"]) {
            cfg(&mut o, format!("{q}.cfg.{}", key(a)), c);
        }
        for (a, d) in map(&x["data"]) {
            for f in ["dRate", "bRate", "irMod", "bSup", "dSup", "credit", "lastT"] {
                pi(&mut o, format!("{q}.data.{}.{f}", key(a)), &d[f]);
            }
        }
        for (a, c) in map(&x["queued"]) {
            cfg(&mut o, format!("{q}.queued.{}", key(a)), &c["cfg"]);
            pi(&mut o, format!("{q}.queued.{}.unlock", key(a)), &c["unlock"]);
        }
        for (u, s) in map(&x["pos"]) {
            let u = key(u);
            if !USERS.contains(&u.as_str()) {
                continue;
            }
            for f in ["liab", "coll", "sup"] {
                for (i, v) in map(&s[f]) {
                    pi(&mut o, format!("{q}.pos.{u}.{f}.{}", key(i)), v);
                }
            }
        }
        for (k, a) in map(&x["auctions"]) {
            let k = key(k);
            pi(&mut o, format!("{q}.auc.{k}.block"), &a["block"]);
            for f in ["bid", "lot"] {
                for (i, v) in map(&a[f]) {
                    pi(&mut o, format!("{q}.auc.{k}.{f}.{}", key(i)), v);
                }
            }
        }
        for (t, v) in map(&x["emisShare"]) {
            pi(&mut o, format!("{q}.emisShare.{}", key(t)), v);
        }
        for (t, c) in map(&x["eCfg"]) {
            pi(&mut o, format!("{q}.eCfg.{}.exp", key(t)), &c["exp"]);
            pi(&mut o, format!("{q}.eCfg.{}.eps", key(t)), &c["eps"]);
        }
        for (t, c) in map(&x["eData"]) {
            pi(&mut o, format!("{q}.eData.{}.index", key(t)), &c["index"]);
            pi(&mut o, format!("{q}.eData.{}.last", key(t)), &c["last"]);
        }
        for (t, c) in map(&x["uEmis"]) {
            pi(&mut o, format!("{q}.uEmis.{}.index", key(t)), &c["index"]);
            pi(&mut o, format!("{q}.uEmis.{}.accrued", key(t)), &c["accrued"]);
        }
    }
    let b = &w["bs"];
    for (i, a) in list(&b["rz"]).iter().enumerate() {
        o.insert(format!("bs.rz.{i}"), st(a));
    }
    pi(&mut o, "bs.lastDist".into(), &b["lastDist"]);
    if b["lpSet"].as_bool().unwrap() {
        pi(&mut o, "bs.lpBlnd".into(), &b["lpBlnd"]);
        pi(&mut o, "bs.lpUsdc".into(), &b["lpUsdc"]);
    }
    for (p, x) in map(&b["poolBal"]) {
        for f in ["shares", "tokens", "q4w"] {
            nz(&mut o, format!("bs.pool.{}.{f}", key(p)), &x[f]);
        }
    }
    for (p, x) in map(&b["poolEmis"]) {
        nz(&mut o, format!("bs.poolEmis.{}", key(p)), x);
    }
    for (p, c) in map(&b["eCfg"]) {
        pi(&mut o, format!("bs.eCfg.{}.exp", key(p)), &c["exp"]);
        pi(&mut o, format!("bs.eCfg.{}.eps", key(p)), &c["eps"]);
    }
    for (p, c) in map(&b["eData"]) {
        pi(&mut o, format!("bs.eData.{}.index", key(p)), &c["index"]);
        pi(&mut o, format!("bs.eData.{}.last", key(p)), &c["last"]);
    }
    for (k, x) in map(&b["userBal"]) {
        let k = key(k);
        nz(&mut o, format!("bs.user.{k}.shares"), &x["shares"]);
        for (i, q) in list(&x["q4w"]).iter().enumerate() {
            pi(&mut o, format!("bs.user.{k}.q.{i}.amount"), &q["amount"]);
            pi(&mut o, format!("bs.user.{k}.q.{i}.exp"), &q["exp"]);
        }
    }
    for (k, c) in map(&b["uEmis"]) {
        pi(&mut o, format!("bs.uEmis.{}.index", key(k)), &c["index"]);
        pi(&mut o, format!("bs.uEmis.{}.accrued", key(k)), &c["accrued"]);
    }
    let m = &w["em"];
    o.insert("em.backstop".into(), st(&m["backstop"]));
    o.insert("em.token".into(), st(&m["token"]));
    for (k, v) in map(&m["last"]) {
        pi(&mut o, format!("em.last.{}", key(k)), v);
    }
    for d in list(&m["dropped"]) {
        o.insert(format!("em.dropped.{}", st(d)), "true".into());
    }
    if let Some(s) = list(&m["swap"]).first() {
        o.insert("em.swap.nb".into(), st(&s["nb"]));
        o.insert("em.swap.nt".into(), st(&s["nt"]));
        pi(&mut o, "em.swap.unlock".into(), &s["unlock"]);
    }
    for (c, x) in map(&w["spare"]) {
        let c = key(c);
        let l: Vec<String> = list(&x["s"]).iter().map(st).collect();
        for (i, y) in l.iter().enumerate() {
            o.insert(format!("spare.{c}.{i}"), y.clone());
        }
        match c.as_str() {
            "emN" => pi(&mut o, format!("spare.emN.last.{}", l[1]), &x["t"]),
            "bs3" => pi(&mut o, "spare.bs3.last".into(), &x["t"]),
            _ => {}
        }
    }
    let deps = list(&w["fac"]["dep"]);
    let is: Vec<String> = list(&w["fac"]["pools"]).iter().map(st).collect();
    for d in deps {
        let n = st(&d["name"]);
        let q = format!("fac.dep.{n}");
        o.insert(format!("{q}.admin"), st(&d["admin"]));
        o.insert(format!("{q}.oracle"), st(&d["oracle"]));
        pi(&mut o, format!("{q}.rate"), &d["rate"]);
        pi(&mut o, format!("{q}.maxPos"), &d["maxPos"]);
        o.insert(format!("{q}.backstop"), "backstop".into());
        o.insert(format!("{q}.blnd"), "blnd".into());
    }
    if !deps.is_empty() {
        for p in is.iter().filter(|p| p.starts_with('d') || ["poolN", "poolU", "poolA"].contains(&p.as_str())) {
            o.insert(format!("fac.is.{p}"), "true".into());
        }
    }
    o
}

/// an event in one line: who, what about, addresses, numbers
pub fn event(c: &str, t: &str, s: &[String], n: &[i128]) -> String {
    let n: Vec<String> = n.iter().map(|x| x.to_string()).collect();
    format!("{c} {t} {} {}", s.join(","), n.join(","))
}

fn parse_call(c: &Value) -> Call {
    let o = &c["o"];
    Call {
        o: Op {
            op: st(&o["op"]),
            s: list(&o["s"]).iter().map(st).collect(),
            n: list(&o["n"]).iter().map(int).collect(),
            reqs: list(&o["reqs"])
                .iter()
                .map(|r| Req { rt: int(&r["rt"]), addr: st(&r["addr"]), amt: int(&r["amt"]) })
                .collect(),
        },
        ok: c["ok"].as_bool().unwrap(),
        why: c.get("why").and_then(|x| x.as_str()).unwrap_or("").to_string(),
        ret: int(&c["ret"]),
        sg: list(&c["sg"]).iter().map(st).collect(),
        ev: list(&c["ev"])
            .iter()
            .map(|e| {
                let s: Vec<String> = list(&e["s"]).iter().map(st).collect();
                event(&st(&e["c"]), &st(&e["t"]), &s, &list(&e["n"]).iter().map(int).collect::<Vec<_>>())
            })
            .collect(),
    }
}

pub fn load(file: &str) -> Trace {
    let v: Value = serde_json::from_slice(&std::fs::read(file).unwrap_or_else(|e| panic!("{file}: {e}"))).unwrap();
    let states = v["states"]
        .as_array()
        .unwrap()
        .iter()
        .map(|s| State {
            calls: list(&s["calls"]).iter().map(parse_call).collect(),
            obs: {
                let mut o = flatten(&s["w"]);
                for (k, v) in map(&s["views"]) {
                    o.insert(format!("view.{}", key(k)), int(v).to_string());
                }
                o
            },
            viol: {
                let v: Vec<String> = list(&s["viol"]).iter().map(st).collect();
                if v.iter().any(|x| x == "off") { None } else { Some(v) }
            },
        })
        .collect();
    let prof = v["states"][0]["prof"].as_str().unwrap_or("").to_string();
    Trace { id: file.rsplit('/').next().unwrap().trim_end_matches(".itf.json").to_string(), prof, states }
}
