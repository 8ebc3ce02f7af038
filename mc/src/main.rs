#![allow(dead_code)]

mod ast;
mod conv;
mod flat;
mod corpus;
mod engine;
mod gen;
mod lite;
mod lits;
mod props;
mod refparse;
mod refsem;
mod regex;
mod value;

use engine::*;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::*;
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static A: Counting = Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["check", prop, tier] => supervise(prop, tier),
        ["child", prop, tier, map] => child(prop, tier, map),
        ["isolate", file] => isolate(file),
        ["replay", file] => replay(file),
        ["selfcheck"] => match corpus::selfcheck() {
            Ok(()) => 0,
            Err(e) => {
                eprintln!("{e}");
                1
            }
        },
        ["list"] => {
            for p in props::ALL {
                println!("{p}");
            }
            0
        }
        _ => {
            eprintln!("usage: mc check PROP quick|thorough | mc replay FILE | mc list");
            EXIT_ERROR
        }
    };
    std::process::exit(code);
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

/// Run the exploration in a child process; turn its death into a finding.
fn supervise(prop: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    if !props::ALL.contains(&prop) || !["quick", "thorough"].contains(&tier) {
        eprintln!("unknown property or tier");
        return EXIT_ERROR;
    }
    let map = std::env::temp_dir().join(format!("mc-{}-{prop}.map", std::process::id()));
    let shared = Shared::open(&map);
    let exe = std::env::current_exe().unwrap();
    let st = std::process::Command::new(&exe).args(["child", prop, tier]).arg(&map).status();
    std::fs::remove_file(&map).ok();
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot start: {e}");
            return EXIT_ERROR;
        }
    };
    match st.code() {
        Some(0) => return 0,
        Some(1) => return 1,
        Some(EXIT_HANG) | None => {}
        Some(_) => return EXIT_ERROR,
    }
    // the child hung or died while it ran one of these
    eprintln!("exploration ended abnormally ({st}), looking for the case");
    let mut viol = vec![];
    for case in shared.open_cases() {
        let f = std::env::temp_dir().join(format!("mc-{}-{prop}.case", std::process::id()));
        std::fs::write(&f, &case).unwrap();
        let t = Instant::now();
        let mut c = match std::process::Command::new(&exe).arg("isolate").arg(&f).spawn() {
            Ok(c) => c,
            Err(_) => continue,
        };
        let r = loop {
            match c.try_wait() {
                Ok(Some(s)) => break Some(s),
                _ if t.elapsed() > Duration::from_secs(90) => {
                    c.kill().ok();
                    c.wait().ok();
                    break None;
                }
                _ => std::thread::sleep(Duration::from_millis(20)),
            }
        };
        std::fs::remove_file(&f).ok();
        let got = match r.map(|s| s.code()) {
            Some(Some(0)) => continue,
            Some(Some(3)) => "panic",
            None => "no answer",
            // SIGXCPU
            Some(None) => {
                use std::os::unix::process::ExitStatusExt;
                match r.unwrap().signal() {
                    Some(24) | Some(9) => "no answer",
                    _ => "crash",
                }
            }
            Some(Some(_)) => continue,
        };
        let parsed = parse_open(&case);
        viol.push(Violation {
            key: format!("abnormal:{}", case.len()),
            what: "the call does not return".into(),
            size: case.len(),
            case: parsed,
            extra: serde_json::json!({ "raw": if case.len() < 4000 { case.clone() } else { format!("{} bytes", case.len()) } }),
            expected: "a result".into(),
            got: got.into(),
        });
    }
    if viol.is_empty() {
        eprintln!("no case reproduces it alone");
        return EXIT_ERROR;
    }
    let n = viol.len();
    let ev = serde_json::json!({
        "property": prop, "tier": tier, "seed": seed(), "level": "model_checking",
        "coverage": {
            "states": shared.counter(2).load(Relaxed), "transitions": shared.counter(3).load(Relaxed),
            "traces_validated_against_impl": shared.counter(1).load(Relaxed),
            "samples": viol.iter().map(|v| v.extra.clone()).collect::<Vec<_>>(),
            "note": "the exploration stopped at a call that does not return",
        },
        "wall_s": t0.elapsed().as_secs_f64(), "violations": n,
    });
    write_violations(prop, viol);
    write_evidence(prop, &ev);
    1
}

fn parse_open(s: &str) -> Option<Case> {
    let mut it = s.splitn(2, '\n');
    match (it.next()?, it.next()?) {
        ("R", t) => Some(Case::Read { schema: t.into() }),
        ("V", t) => {
            let mut it = t.splitn(3, '\n');
            Some(Case::Value {
                rule: it.next()?.into(),
                cbor: it.next()?.into(),
                schema: it.next()?.into(),
                via: Via::Cbor,
            })
        }
        ("B", t) => {
            let mut it = t.splitn(3, '\n');
            let (rule, input) = (it.next()?.into(), it.next()?.into());
            Some(Case::Raw { rule, input, schema: it.next()?.into(), json: false })
        }
        ("J", t) => {
            let mut it = t.splitn(3, '\n');
            let (rule, n): (_, usize) = (it.next()?.into(), it.next()?.parse().ok()?);
            let rest = it.next()?;
            Some(Case::Raw { rule, schema: rest.get(..n)?.into(), input: rest.get(n..)?.into(), json: true })
        }
        ("P", t) => Some(Case::Parse { text: t.into() }),
        ("S", t) => Some(Case::Slice { text: t.into() }),
        ("L", t) => Some(Case::Flat { text: t.into() }),
        ("W", t) => Some(Case::Why { text: t.into() }),
        ("F", t) => Some(Case::Safe { text: t.into() }),
        ("Z", t) => Some(Case::LiteText { build: "all".into(), text: t.into() }),
        ("Y", t) => {
            let mut it = t.splitn(3, '\n');
            let (rule, cbor) = (it.next()?.into(), it.next()?.into());
            Some(Case::Lite { build: "all".into(), rule, cbor, schema: it.next()?.into() })
        }
        ("X", t) => Case::from_json(&serde_json::from_str(t).ok()?),
        _ => None,
    }
}

fn isolate(file: &str) -> i32 {
    let text = std::fs::read_to_string(file).unwrap_or_default();
    limit(RLIMIT_CORE, 0);
    limit(RLIMIT_AS, 6 << 30);
    limit(RLIMIT_CPU, 20);
    quiet_panics();
    match parse_open(&text) {
        None => 4,
        Some(c) => {
            let h = std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || if c.run() & PANIC != 0 { 3 } else { 0 })
                .unwrap();
            h.join().unwrap_or(3)
        }
    }
}

fn replay(file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{e}");
            return EXIT_ERROR;
        }
    };
    let v: serde_json::Value = serde_json::from_str(&text).unwrap();
    println!("property {}: {}", v["property"], v["what"]);
    println!("expected {}, recorded {}", v["expected"], v["got"]);
    match Case::from_json(&v["case"]) {
        None => {
            println!("details: {}", serde_json::to_string_pretty(&v["extra"]).unwrap());
            println!("(this finding is not a single call; run the check again to repeat it)");
            0
        }
        Some(c) => {
            if let Case::Value { schema, .. } | Case::Read { schema } | Case::Raw { schema, .. } = &c {
                println!("schema:\n{schema}");
            }
            println!("case: {}", v["case"]);
            let got = show(c.run());
            println!("now: {got}");
            let exp = v["expected"].as_str().unwrap_or("");
            if exp.split('|').any(|e| e == got) {
                0
            } else {
                1
            }
        }
    }
}

fn write_evidence(prop: &str, ev: &serde_json::Value) {
    let d = root().join("evidence");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join(format!("{prop}.json")), serde_json::to_string_pretty(ev).unwrap()).unwrap();
}

fn child(prop: &str, tier: &str, map: &str) -> i32 {
    let t0 = Instant::now();
    limit(RLIMIT_CORE, 0);
    limit(RLIMIT_AS, 20 << 30);
    quiet_panics();
    let thorough = tier == "thorough";
    let cap = std::env::var("MC_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if !thorough { 400 } else if prop == "C28" { 540 } else { 660 });
    let run = Run {
        prop: prop.to_string(),
        mode: Mode::of(prop),
        thorough,
        shared: Shared::open(std::path::Path::new(map)),
        deadline: t0 + Duration::from_secs(cap),
        stop: false.into(),
        capped: false.into(),
        violations: Mutex::new(vec![]),
        nviol: 0.into(),
        known: known_findings(prop),
        known_hit: Mutex::new(BTreeMap::new()),
        report: Mutex::new(Report::default()),
        engine_error: Mutex::new(None),
    };
    let only = std::env::var("MC_SUITE").ok();
    for s in props::suites(prop, thorough) {
        if only.as_ref().is_some_and(|o| !s.name.contains(o.as_str())) {
            continue;
        }
        run_suite(&run, &s);
        if run.stop.load(Relaxed) {
            break;
        }
    }
    if let Some(e) = run.engine_error.lock().unwrap().take() {
        eprintln!("{e}");
        return EXIT_ERROR;
    }
    let rep = run.report.into_inner().unwrap();
    let viol = run.violations.into_inner().unwrap();
    let n = run.nviol.load(Relaxed);
    let capped = run.capped.load(Relaxed);
    let ev = serde_json::json!({
        "property": prop, "tier": tier, "seed": seed(), "level": "model_checking",
        "coverage": {
            "states": rep.tot.states, "transitions": rep.tot.steps,
            "traces_validated_against_impl": rep.tot.traces,
            "schemas": rep.tot.schemas,
            "outcomes": rep.tot.outcomes,
            "several_verdicts_permitted": rep.tot.open,
            "left_open_by_the_reference": rep.tot.unspec,
            "samples": rep.samples,
            "suites": rep.suites,
            "notes": rep.notes,
            "exhaustive": !capped && n == 0,
            "capped_by_time": capped,
        },
        "assumptions": props::assumptions(prop),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": n,
    });
    for (k, w) in run.known_hit.into_inner().unwrap() {
        println!("KNOWN-FINDING: property={prop} {k}: {}", known_text(prop, &k).unwrap_or(w));
    }
    println!(
        "{prop} {tier}: {} schemas, {} executions compared, {} reference states, {} steps, {:.1} s{}",
        rep.tot.schemas,
        rep.tot.traces,
        rep.tot.states,
        rep.tot.steps,
        t0.elapsed().as_secs_f64(),
        if capped { " (stopped by the time cap)" } else { "" }
    );
    write_evidence(prop, &ev);
    if n > 0 {
        write_violations(prop, viol);
        return 1;
    }
    0
}
