//! Conformance: step the real contracts through a behaviour of the specification and
//! compare, after every call, outcome, result, authorization and complete state.
use crate::model::Trace;
use crate::observe::Cache;
use crate::world::{Call, Obs, World};
use serde_json::{json, Value};

/// the first difference between the specification and the implementation in a behaviour
#[derive(Clone, Debug)]
pub struct Divergence {
    pub step: usize,
    /// index of the call within the step
    pub at: usize,
    pub call: Call,
    /// "ok": one fails and the other does not; "auth"; "ret": result; "obs": state; "getter": query; "event"; "hang"
    pub kind: &'static str,
    /// contract error code, if the implementation failed with one
    pub err: u32,
    pub keys: Vec<String>,
    pub detail: Vec<String>,
}
impl Divergence {
    fn compare(&mut self, keys: &[&String], spec: &Obs, got: &Obs, what: &str) {
        for k in keys {
            if got.get(*k) != spec.get(*k) && !self.keys.contains(k) {
                self.detail.push(format!("{what}{k}: specification {}, implementation {}", show(spec.get(*k)), show(got.get(*k))));
                self.keys.push(k.to_string());
            }
        }
    }
    pub fn json(&self) -> Value {
        json!({"step": self.step, "call_in_step": self.at, "call": format!("{:?}", self.call), "kind": self.kind,
               "impl_error_code": self.err, "keys": self.keys, "detail": self.detail})
    }
}

pub struct Walk {
    pub states: usize,
    pub calls: usize,
    /// the differences; after the first that leaves different states nothing more is compared
    pub diverged: Vec<Divergence>,
}
impl Walk {
    fn note(&mut self, d: Divergence) {
        // one of each sort is enough
        if !self.diverged.iter().any(|x| x.kind == d.kind && x.call.o.op == d.call.o.op && x.keys == d.keys) && self.diverged.len() < 40 {
            self.diverged.push(d);
        }
    }
}

/// replay `t`; `progress` is told about every call before it is made
pub fn replay(t: &Trace, progress: &mut dyn FnMut(usize, usize)) -> Walk {
    let mut at = (0, 0);
    let mut calls = 0;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        walk(t, &mut |i, j| {
            at = (i, j);
            calls += 1;
            progress(i, j)
        })
    }));
    r.unwrap_or_else(|_| {
        // set-up or an environment step that must succeed did not
        let call = t.states[at.0].calls[at.1].clone();
        let detail = vec!["the implementation does not get through this step".to_string()];
        let d = Divergence { step: at.0, at: at.1, call, kind: "ok", err: 0, keys: vec![], detail };
        Walk { states: at.0, calls, diverged: vec![d] }
    })
}
fn walk(t: &Trace, progress: &mut dyn FnMut(usize, usize)) -> Walk {
    let mut w: Option<World> = None;
    let mut r = steps(t, &mut w, progress);
    if let Some(w) = w {
        events(t, &w, &mut r);
    }
    r
}
/// what was published in the steps gone through, which were all alike otherwise
fn events(t: &Trace, w: &World, walk: &mut Walk) {
    let got = w.events();
    let mut at = 0;
    for (i, s) in t.states[..walk.states].iter().enumerate() {
        let c = s.calls.last().unwrap();
        let mut want: Vec<&String> = s.calls.iter().flat_map(|c| &c.ev).collect();
        // after the last step of the behaviour nothing may be left
        let to = if i + 1 == t.states.len() { got.len() } else { got.len().min(at + want.len()) };
        let mut have: Vec<&String> = got[at..to].iter().collect();
        at = to;
        want.sort();
        have.sort();
        if want != have {
            let mut keys: Vec<String> = want.iter().chain(&have).filter(|e| want.contains(e) != have.contains(e))
                .map(|e| format!("event.{}", e.split(' ').nth(1).unwrap())).collect();
            keys.sort();
            keys.dedup();
            let detail = vec![format!("events: specification {want:?}, implementation {have:?}")];
            walk.note(Divergence { step: i, at: s.calls.len() - 1, call: c.clone(), kind: "event", err: 0, keys, detail });
            return;
        }
    }
}
fn steps(t: &Trace, w: &mut Option<World>, progress: &mut dyn FnMut(usize, usize)) -> Walk {
    let mut seen = Cache::default();
    let mut walk = Walk { states: 0, calls: 0, diverged: vec![] };
    for (i, s) in t.states.iter().enumerate() {
        let mut frags = vec![];
        for (j, c) in s.calls.iter().enumerate() {
            progress(i, j);
            walk.calls += 1;
            if c.o.op == "genesis" {
                *w = Some(World::genesis(&c.o.n));
                continue;
            }
            let w = w.as_mut().unwrap();
            if w.environment(&c.o) {
                continue;
            }
            let out = w.call(c, i > 0);
            let mut d = Divergence { step: i, at: j, call: c.clone(), kind: "", err: out.err, keys: vec![], detail: vec![] };
            if out.ok != c.ok {
                d.kind = "ok";
                d.detail.push(format!("specification: {}, implementation: {}",
                    if c.ok { "succeeds".to_string() } else { format!("fails ({})", c.why) },
                    if out.ok { "succeeds".to_string() } else { format!("fails (error {})", out.err) }));
            } else if out.ok {
                if out.unauthorized {
                    d.kind = "auth";
                    d.detail.push(format!("succeeds without the authorization of {:?}", c.sg));
                } else if out.sg.as_ref().map_or(false, |x| *x != c.sg) {
                    d.kind = "auth";
                    d.detail.push(format!("authorized by: specification {:?}, implementation {:?}", c.sg, out.sg.unwrap()));
                } else if out.ret.map_or(false, |r| r != c.ret) {
                    d.kind = "ret";
                    d.detail.push(format!("result: specification {}, implementation {}", c.ret, out.ret.unwrap()));
                }
            }
            if d.kind != "" {
                let states = d.kind == "ok";
                walk.note(d);
                if states {
                    return walk;
                }
            }
            if j + 1 == s.calls.len() {
                frags = out.frags;
            }
        }
        let w = w.as_ref().unwrap();
        w.observe(&mut seen);
        let got = &seen.obs;
        let last = s.calls.last().unwrap();
        let mut d = Divergence { step: i, at: s.calls.len() - 1, call: last.clone(), kind: "obs", err: 0, keys: vec![], detail: vec![] };
        if !same(&s.obs, got) {
            let mut keys: Vec<&String> = got.keys().chain(s.obs.keys().filter(|k| !view(k))).collect();
            keys.sort();
            keys.dedup();
            d.compare(&keys, &s.obs, got, "");
            walk.note(d);
            return walk;
        }
        // what the last call returned and what the queries say
        for (kind, frags) in [("ret", frags), ("getter", w.getters(&s.obs, &last.o, i))] {
            d = Divergence { kind, keys: vec![], detail: vec![], ..d };
            for (pre, o) in frags {
                let mut keys: Vec<&String> = o.keys().chain(s.obs.range(pre.clone()..).map(|x| x.0).take_while(|k| k.starts_with(&pre))).collect();
                keys.sort();
                keys.dedup();
                d.compare(&keys, &s.obs, &o, "reported ");
            }
            if !d.keys.is_empty() {
                walk.note(d.clone());
            }
        }
        walk.states += 1;
    }
    walk
}
fn view(k: &str) -> bool {
    k.starts_with("view.")
}
/// equal, leaving out the views
fn same(spec: &Obs, got: &Obs) -> bool {
    spec.iter().filter(|x| !view(x.0)).eq(got.iter())
}
fn show(v: Option<&String>) -> String {
    v.cloned().unwrap_or_else(|| "nothing".into())
}
