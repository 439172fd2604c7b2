//! Deciding one property: replay the behaviours of its profiles against the real contracts and
//! report the differences that fall under the property.
use crate::conform::{self, Divergence, Walk};
use crate::model::Trace;
use crate::pack;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::io::BufRead;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// a call that takes longer than this does not return
const HANG: Duration = Duration::from_secs(60);

pub fn glob(pat: &str, s: &str) -> bool {
    let (p, t) = (pat.as_bytes(), s.as_bytes());
    let (mut i, mut j, mut star, mut mark) = (0, 0, usize::MAX, 0);
    while j < t.len() {
        if i < p.len() && p[i] == b'*' {
            star = i;
            mark = j;
            i += 1;
        } else if i < p.len() && p[i] == t[j] {
            i += 1;
            j += 1;
        } else if star != usize::MAX {
            i = star + 1;
            mark += 1;
            j = mark;
        } else {
            return false;
        }
    }
    p[i..].iter().all(|c| *c == b'*')
}

pub struct Rule {
    ops: Vec<String>,
    kinds: Vec<String>,
    why: Vec<String>,
    keys: Vec<String>,
}
pub struct Check {
    pub id: String,
    pub profiles: Vec<String>,
    rules: Vec<Rule>,
    viol: BTreeSet<String>,
}
fn strings(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}
impl Check {
    pub fn load(file: &str, id: &str) -> Check {
        let all: Value = serde_json::from_slice(&std::fs::read(file).unwrap()).unwrap();
        let c = &all[id];
        assert!(c.is_object(), "no check for {id}");
        let rule = |r: &Value| Rule { ops: strings(&r["ops"]), kinds: strings(&r["kinds"]), why: strings(&r["why"]), keys: strings(&r["keys"]) };
        Check {
            id: id.to_string(),
            profiles: strings(&c["profiles"]),
            rules: c["rules"].as_array().unwrap().iter().map(rule).collect(),
            viol: strings(&c["viol"]).into_iter().collect(),
        }
    }
    pub fn concerns(&self, d: &Divergence) -> bool {
        self.rules.iter().any(|r| r.concerns(d))
    }
    fn kinds(&self) -> impl Iterator<Item = &str> {
        self.rules.iter().flat_map(|r| r.kinds.iter().map(|k| k.as_str()))
    }
    fn about(&self, c: &crate::world::Call) -> bool {
        let general = self.rules.iter().all(|r| r.ops.iter().any(|o| o == "*"));
        if general && self.kinds().any(|k| k == "event") {
            return !c.ev.is_empty();
        }
        self.rules.iter().any(|r| (general || r.ops.iter().all(|o| o != "*")) && r.is_op(c))
    }
}
/// reasons for failure (labels of the specification) an error code of the contracts may stand for;
/// None: any
fn reasons(err: u32) -> Option<&'static [&'static str]> {
    Some(match err {
        3 => &["init"],
        8 => &["negative"],
        10 => &["funds", "balance", "range", "locked"],
        12 => &["range"],
        1002 => &["rz", "threshold"],
        1003 => &["funds"],
        1004 => &["notpool"],
        1005 | 1006 => &["mint", "shares"],
        1007 => &["queuelen"],
        1001 => &["locked"],
        1100 => &["notlarger", "larger"],
        1101 => &["drop"],
        1102 => &["notqueued"],
        1103 => &["queued"],
        1104 => &["locked"],
        1105 => &["larger"],
        1201 | 1300 => &["poolargs", "init", "statusarg"],
        1202 => &["config", "decimals", "full"],
        1203 => &["locked", "init"],
        1204 => &["status"],
        1205 => &["hf"],
        1206 => &["statusarg", "statusfixed", "status"],
        1207 => &["util"],
        1208 => &["maxpos"],
        1209 => &["noreserve"],
        1210 => &["stale"],
        1211 => &["notunder", "liqargs"],
        1212 => &["exists", "baddebt"],
        1213 => &["liqlarge"],
        1214 => &["liqsmall"],
        1215 => &["small"],
        1216..=1219 => &["zero"],
        _ => return None,
    })
}
impl Rule {
    fn is_op(&self, c: &crate::world::Call) -> bool {
        self.ops.iter().any(|p| match p.split_once(':') {
            None => p == "*" || *p == c.o.op,
            Some((op, rt)) => op == c.o.op && c.o.reqs.iter().any(|r| r.rt.to_string() == rt),
        })
    }
    fn is_key(&self, c: &crate::world::Call, k: &str) -> bool {
        let names = |k: &str| -> Vec<String> { k.split('.').map(|x| x.to_string()).collect() };
        self.keys.iter().any(|p| match p.as_str() {
            "@other" => names(k).iter().any(|x| crate::world::POOLS.contains(&x.as_str()) && !c.o.s.contains(x)),
            "@otherbs" => k.starts_with("bs.") && names(k).iter().any(|x| crate::world::BSPOOLS.contains(&x.as_str()) && !c.o.s.contains(x)),
            p => glob(p, k),
        })
    }
    fn concerns(&self, d: &Divergence) -> bool {
        if !self.is_op(&d.call) || !self.kinds.iter().any(|k| k == d.kind) {
            return false;
        }
        match d.kind {
            "ok" => {
                let any = |l: &[&str]| self.why.iter().any(|w| w == "*" || l.contains(&w.as_str()));
                if d.call.ok {
                    // the implementation refuses what must succeed
                    reasons(d.err).map_or(true, |l| any(l))
                } else {
                    any(&[d.call.why.as_str()])
                }
            }
            "obs" | "getter" | "event" => d.keys.iter().any(|k| self.is_key(&d.call, k)),
            _ => true,
        }
    }
}

pub struct Job {
    pub file: String,
    pub line: String,
}
pub fn jobs(files: &[String]) -> Vec<Job> {
    files.iter().flat_map(|f| {
        let r = std::io::BufReader::new(std::fs::File::open(f).unwrap_or_else(|e| panic!("{f}: {e}")));
        let f = f.clone();
        r.lines().map(move |l| Job { file: f.clone(), line: l.unwrap() })
    }).collect()
}

/// what came out of one behaviour
pub struct Done {
    pub trace: Trace,
    pub walk: Walk,
}
/// replay everything on all cores; `stop` tells from a result whether to skip the rest
pub fn replay_all(jobs: &[Job], on: &(dyn Fn(Done) -> bool + Sync), hung: &(dyn Fn(&Job, usize, usize) + Sync)) {
    let threads = std::thread::available_parallelism().map_or(8, |x| x.get()).clamp(2, 16);
    let (next, stop, left) = (AtomicUsize::new(0), AtomicBool::new(false), AtomicUsize::new(threads));
    let t0 = Instant::now();
    // what each thread is doing: behaviour, step, call, since
    let busy: Vec<[AtomicU64; 4]> = (0..threads).map(|_| [const { AtomicU64::new(u64::MAX) }; 4]).collect();
    std::thread::scope(|s| {
        for me in &busy {
            let (next, stop, left) = (&next, &stop, &left);
            s.spawn(move || {
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= jobs.len() || stop.load(SeqCst) {
                        break;
                    }
                    let trace = pack::from_json(&serde_json::from_str(&jobs[i].line).unwrap());
                    me[0].store(i as u64, SeqCst);
                    let walk = conform::replay(&trace, &mut |step, at| {
                        me[1].store(step as u64, SeqCst);
                        me[2].store(at as u64, SeqCst);
                        me[3].store(t0.elapsed().as_millis() as u64, SeqCst);
                    });
                    me[3].store(u64::MAX, SeqCst);
                    if on(Done { trace, walk }) {
                        stop.store(true, SeqCst);
                    }
                }
                me[3].store(u64::MAX, SeqCst);
                left.fetch_sub(1, SeqCst);
            });
        }
        while left.load(SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(20));
            let now = t0.elapsed().as_millis() as u64;
            for me in &busy {
                let since = me[3].load(SeqCst);
                if since != u64::MAX && now.saturating_sub(since) > HANG.as_millis() as u64 {
                    hung(&jobs[me[0].load(SeqCst) as usize], me[1].load(SeqCst) as usize, me[2].load(SeqCst) as usize);
                    me[3].store(u64::MAX, SeqCst);
                }
            }
        }
    });
}

#[derive(Default)]
struct Tally {
    traces: usize,
    calls: usize,
    succeeded: usize,
    relevant: usize,
    states: HashSet<u64>,
    evaluated: usize,
    outcomes: BTreeMap<String, usize>,
    samples: Vec<Value>,
    outside: Vec<String>,
    found: Vec<(usize, Value, String)>,
}

/// returns the process exit code
pub fn main(c: &Check, files: &[String], tier: &str, seed: u64, evidence: &str, replays: &str, note: &Value) -> i32 {
    let t0 = Instant::now();
    let jobs = jobs(files);
    let tally = Mutex::new(Tally::default());
    let on = |d: Done| -> bool {
        let mut t = tally.lock().unwrap();
        t.traces += 1;
        t.calls += d.walk.calls;
        for (i, s) in d.trace.states.iter().enumerate().take(d.walk.states) {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            s.obs.hash(&mut h);
            t.states.insert(h.finish());
            for k in &s.calls {
                t.succeeded += k.ok as usize;
                if c.about(k) {
                    t.relevant += 1;
                    let key = format!("{}: {}", k.o.op, if k.ok { "succeeds" } else { &k.why });
                    *t.outcomes.entry(key).or_default() += 1;
                    if t.samples.len() < 4 && i > 50 && k.ok == (t.samples.len() % 2 == 0) {
                        t.samples.push(json!({"behaviour": d.trace.id, "step": i, "call": format!("{:?}", k)}));
                    }
                }
            }
            if let Some(v) = &s.viol {
                t.evaluated += 1;
                // the implementation conforms up to here, so it breaks the property too
                let bad: Vec<&String> = v.iter().filter(|x| c.viol.contains(*x)).collect();
                if !bad.is_empty() {
                    let text = format!("{} step {i}: breaks {bad:?}", d.trace.id);
                    let v = json!({"property": c.id, "broken": bad, "step": i, "behaviour": pack::to_json(&d.trace.cut(i + 1))});
                    t.found.push((i, v, text));
                }
            }
        }
        for x in &d.walk.diverged {
            let text = format!("{} step {}: {} {:?} {:?} {}: {}", d.trace.id, x.step, x.call.o.op, x.call.o.s, x.call.o.n, x.kind,
                x.detail.iter().take(4).cloned().collect::<Vec<_>>().join("; "));
            if c.concerns(x) {
                let v = json!({"property": c.id, "divergence": x.json(), "behaviour": pack::to_json(&d.trace.cut(x.step + 1))});
                t.found.push((x.step, v, text));
            } else {
                t.outside.push(text);
            }
        }
        // enough is enough: nothing more is learnt from further instances
        t.found.len() >= 20
    };
    let write = |t: &Tally, violations: usize| {
        let v = json!({
            "property": c.id, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": t.states.len(),
                "transitions": t.calls,
                "traces_validated_against_impl": t.traces,
                "samples": t.samples,
                "transitions_that_succeed": t.succeeded,
                "transitions_of_this_property": t.relevant,
                "outcomes_of_this_property": t.outcomes,
                "states_with_properties_evaluated_on_the_specification": t.evaluated,
                "specification_predicates": c.viol,
                "profiles": c.profiles,
                "differences_outside_this_property": t.outside.len(),
                "specification_checks": note,
            },
            "assumptions": [
                "the price oracle, the Comet liquidity pool and the ledger are stand-ins with the behaviour the specification gives them",
                "contracts run natively in the soroban host's test environment, with overflow checks, not as Wasm",
                "calls outside the generated behaviours are not examined"
            ],
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": violations,
        });
        std::fs::write(evidence, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    };
    let report = |t: &Tally| -> i32 {
        for x in t.outside.iter().take(3) {
            println!("note: difference outside {}: {x}", c.id);
        }
        write(t, t.found.len());
        match t.found.iter().min_by_key(|x| x.0) {
            None => {
                println!("{}: held in {} behaviours, {} calls ({} of this property), {:.1?}", c.id, t.traces, t.calls, t.relevant, t0.elapsed());
                0
            }
            Some((_, v, text)) => {
                std::fs::create_dir_all(replays).unwrap();
                let f = format!("{replays}/{}-{}.json", c.id, seed);
                std::fs::write(&f, serde_json::to_string_pretty(v).unwrap()).unwrap();
                println!("{text}");
                println!("VIOLATION property={} replay={f}", c.id);
                1
            }
        }
    };
    let hung = |j: &Job, step: usize, at: usize| {
        let trace = pack::from_json(&serde_json::from_str(&j.line).unwrap());
        let call = trace.states[step].calls[at].clone();
        let d = Divergence { step, at, call, kind: "hang", err: 0, keys: vec![], detail: vec!["the call does not return".into()] };
        let mut t = tally.lock().unwrap();
        let text = format!("{} step {step}: {:?} does not return", trace.id, d.call);
        if c.concerns(&d) {
            t.found.push((step, json!({"property": c.id, "divergence": d.json(), "behaviour": pack::to_json(&trace.cut(step + 1))}), text));
        } else {
            t.outside.push(text);
        }
        // the thread cannot be stopped
        let code = report(&t);
        std::process::exit(code);
    };
    replay_all(&jobs, &on, &hung);
    let t = tally.into_inner().unwrap();
    report(&t)
}
