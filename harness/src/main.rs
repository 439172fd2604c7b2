//! pack OUT.jsonl ITF...      pack behaviours of the specification
//! run FILE...                replay behaviours (packed, ITF, or a replay file of a check); report all differences
//! attr CHECKS FILE...        which properties the differences found in packed behaviours fall under
//! check ID ...               decide one property (see check.sh)
mod check;
mod conform;
mod events;
mod mocks;
mod model;
mod observe;
mod pack;
mod types;
mod world;
use std::io::Write;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args[0].as_str() {
        "pack" => {
            let mut o = std::io::BufWriter::new(std::fs::File::create(&args[1]).unwrap());
            for f in &args[2..] {
                serde_json::to_writer(&mut o, &pack::to_json(&model::load(f))).unwrap();
                o.write_all(b"\n").unwrap();
            }
            0
        }
        "run" => run(&args[1..]),
        "attr" => attr(&args[1], &args[2..]),
        // check ID CHECKS.json TIER SEED EVIDENCE REPLAYS NOTE.json FILE...
        "check" => {
            std::panic::set_hook(Box::new(|_| {}));
            let c = check::Check::load(&args[2], &args[1]);
            let note = std::fs::read(&args[7]).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or_default();
            check::main(&c, &args[8..], &args[3], args[4].parse().unwrap(), &args[5], &args[6], &note)
        }
        x => panic!("unknown command {x}"),
    };
    std::process::exit(code);
}

fn run(files: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let mut jobs = vec![];
    for f in files {
        if f.ends_with(".jsonl") {
            jobs.extend(check::jobs(&[f.clone()]));
        } else if f.ends_with(".itf.json") {
            jobs.push(check::Job { file: f.clone(), line: pack::to_json(&model::load(f)).to_string() });
        } else {
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(f).unwrap()).unwrap();
            jobs.push(check::Job { file: f.clone(), line: v["behaviour"].to_string() });
        }
    }
    let t0 = std::time::Instant::now();
    let sum = std::sync::Mutex::new((0, 0));
    let on = |d: check::Done| {
        let mut s = sum.lock().unwrap();
        s.1 += d.walk.calls;
        s.0 += !d.walk.diverged.is_empty() as usize;
        for x in d.walk.diverged {
            println!("{} step {} {}: {:?}\n   {}", d.trace.id, x.step, x.kind, x.call, x.detail.join("\n   "));
        }
        for (k, s) in d.trace.states.iter().enumerate() {
            if let Some(v) = s.viol.as_ref().filter(|v| !v.is_empty()) {
                println!("{} step {k}: specification breaks {v:?}", d.trace.id);
            }
        }
        false
    };
    check::replay_all(&jobs, &on, &|j, step, _| println!("{}: step {step} does not return", j.file));
    let s = sum.into_inner().unwrap();
    println!("diverged {} of {} ({} calls, {:?})", s.0, jobs.len(), s.1, t0.elapsed());
    (s.0 > 0) as i32
}

fn attr(checks: &str, files: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let all: serde_json::Value = serde_json::from_slice(&std::fs::read(checks).unwrap()).unwrap();
    let all: Vec<check::Check> = all.as_object().unwrap().keys().map(|k| check::Check::load(checks, k)).collect();
    let found = std::sync::Mutex::new((0, std::collections::BTreeMap::<String, usize>::new(), Vec::<String>::new()));
    let on = |d: check::Done| {
        let mut f = found.lock().unwrap();
        f.0 += !d.walk.diverged.is_empty() as usize;
        for x in d.walk.diverged {
            let ids: Vec<&str> = all.iter().filter(|c| c.concerns(&x)).map(|c| c.id.as_str()).collect();
            for i in &ids {
                *f.1.entry(i.to_string()).or_default() += 1;
            }
            if f.2.len() < 3 || ids.is_empty() {
                f.2.push(format!("{ids:?} {} step {} {}: {:?} {}", d.trace.id, x.step, x.kind, x.call, x.detail.iter().take(3).cloned().collect::<Vec<_>>().join("; ")));
            }
        }
        f.0 >= 25
    };
    let t = std::sync::Mutex::new(());
    check::replay_all(&check::jobs(files), &on, &|j, step, _| {
        let _t = t.lock().unwrap();
        println!("{}", serde_json::json!({"differences": 1, "properties": {"hang": 1}, "samples": [format!("{}: step {step} does not return", j.file)]}));
        std::process::exit(1);
    });
    let f = found.into_inner().unwrap();
    println!("{}", serde_json::json!({"differences": f.0, "properties": f.1, "samples": f.2.iter().take(5).collect::<Vec<_>>()}));
    (f.0 > 0) as i32
}
