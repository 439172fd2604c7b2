//! Compact form of behaviours: one JSON line per behaviour, observations as differences.
use crate::model::{State, Trace};
use crate::world::{Call, Obs, Op, Req};
use serde_json::{json, Map, Value};

fn call_json(c: &Call) -> Value {
    let n: Vec<String> = c.o.n.iter().map(|x| x.to_string()).collect();
    let r: Vec<Value> = c.o.reqs.iter().map(|r| json!([r.rt.to_string(), r.addr, r.amt.to_string()])).collect();
    json!({"op": c.o.op, "s": c.o.s, "n": n, "r": r, "ok": c.ok, "why": c.why, "ret": c.ret.to_string(),
           "sg": c.sg.iter().collect::<Vec<_>>(), "ev": c.ev})
}
fn num(v: &Value) -> i128 {
    v.as_str().unwrap().parse().unwrap()
}
fn txt(v: &Value) -> String {
    v.as_str().unwrap().to_string()
}
fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap()
}
fn call_from(v: &Value) -> Call {
    Call {
        o: Op {
            op: txt(&v["op"]),
            s: arr(&v["s"]).iter().map(txt).collect(),
            n: arr(&v["n"]).iter().map(num).collect(),
            reqs: arr(&v["r"]).iter().map(|r| Req { rt: num(&r[0]), addr: txt(&r[1]), amt: num(&r[2]) }).collect(),
        },
        ok: v["ok"].as_bool().unwrap(),
        why: txt(&v["why"]),
        ret: num(&v["ret"]),
        sg: arr(&v["sg"]).iter().map(txt).collect(),
        ev: arr(&v["ev"]).iter().map(txt).collect(),
    }
}

pub fn to_json(t: &Trace) -> Value {
    let mut prev = Obs::new();
    let mut steps = vec![];
    for s in &t.states {
        let mut put = Map::new();
        for (k, v) in &s.obs {
            if prev.get(k) != Some(v) {
                put.insert(k.clone(), Value::String(v.clone()));
            }
        }
        let del: Vec<&String> = prev.keys().filter(|k| !s.obs.contains_key(*k)).collect();
        steps.push(json!({"c": s.calls.iter().map(call_json).collect::<Vec<_>>(), "+": put, "-": del, "v": s.viol}));
        prev = s.obs.clone();
    }
    json!({"id": t.id, "prof": t.prof, "steps": steps})
}

pub fn from_json(v: &Value) -> Trace {
    let mut obs = Obs::new();
    let mut states = vec![];
    for s in arr(&v["steps"]) {
        for k in arr(&s["-"]) {
            obs.remove(k.as_str().unwrap());
        }
        for (k, x) in s["+"].as_object().unwrap() {
            obs.insert(k.clone(), txt(x));
        }
        states.push(State {
            calls: arr(&s["c"]).iter().map(call_from).collect(),
            obs: obs.clone(),
            viol: s["v"].as_array().map(|l| l.iter().map(txt).collect()),
        });
    }
    Trace { id: txt(&v["id"]), prof: txt(&v["prof"]), states }
}
