mod case;
mod docs;
mod gen;
mod mini;
mod model;
mod oracle;
mod rng;
mod sim;
use case::*;
use oracle::*;
use rng::mix;
use serde::{Deserialize, Serialize};
use serde_json::json;
use sim::*;
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// which workloads decide a property, and how often each is chosen
fn families(p: &str) -> &'static [(&'static str, u64)] {
    match p {
        "C01" => &[("crash", 70), ("par", 15), ("hist", 15)],
        "C02" => &[("par", 75), ("walk", 10), ("fmt", 15)],
        "C03" => &[("par", 35), ("stream", 20), ("diff", 10), ("walk", 10), ("fmt", 10), ("crash", 10), ("incl", 5)],
        "C04" => &[("par", 35), ("crash", 20), ("walk", 12), ("incl", 12), ("stream", 8), ("diff", 5), ("cfg", 8)],
        "C05" => &[("par", 75), ("stream", 10), ("walk", 10), ("crash", 5)],
        "C06" => &[("par", 48), ("stream", 7), ("diff", 3), ("walk", 6), ("fmt", 26), ("cfg", 4), ("incl", 10)],
        "C07" | "C08" | "C09" | "C10" => &[("fmt", 100)],
        "C11" => &[("stream", 60), ("diff", 30), ("walk", 10)],
        "C12" | "C13" => &[("cfg", 100)],
        "C14" => &[("walk", 100)],
        "C15" => &[("incl", 100)],
        "C16" => &[("hist", 100)],
        "C19" => &[("par", 60), ("fmt", 20), ("stream", 12), ("diff", 8)],
        "C20" => &[("many", 80), ("fmt", 10), ("par", 5), ("walk", 5)],
        _ => &[],
    }
}
pub fn pick_family(p: &str, seed: u64) -> &'static str {
    let f = families(p);
    let total: u64 = f.iter().map(|x| x.1).sum();
    let mut k = mix(seed ^ 0xfa111) % total;
    for (n, w) in f {
        if k < *w {
            return n;
        }
        k -= w;
    }
    unreachable!()
}
fn pnum(p: &str) -> u64 {
    p[1..].parse().unwrap_or(0)
}
pub fn case_seed(base: u64, prop: &str, i: u64) -> u64 {
    mix(mix(base.wrapping_mul(1_000_003) ^ pnum(prop).wrapping_mul(0x5851F42D4C957F2D)) ^ i)
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub violation: Vec<String>,
    pub base_seed: u64,
    pub index: u64,
    pub minimised_from: String,
    pub digests: Vec<String>,
    pub case: Case,
}

#[derive(Default)]
struct Stats {
    cases: u64,
    runs: u64,
    baselines: u64,
    undecided: u64,
    sim_ns: u128,
    ops: u64,
    fine: u64,
    switches: u64,
    fine_switches: u64,
    faults: BTreeMap<String, u64>,
    bg: BTreeMap<String, u64>,
    verdicts: BTreeMap<String, u64>,
    fam: BTreeMap<String, u64>,
    strategies: BTreeMap<String, u64>,
    ileave: HashSet<u64>,
    nontrivial: HashSet<u64>,
    states: HashSet<u64>,
    children: u64,
    probes: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    other: BTreeMap<String, u64>,
    unreproducible: u64,
}
fn account(s: &mut Stats, case: &Case, runs: &[RunOf]) {
    s.cases += 1;
    *s.fam.entry(case.family.clone()).or_default() += 1;
    for r in runs {
        let (sc, o) = (&r.sc, &r.o);
        s.runs += 1;
        s.sim_ns += o.now as u128;
        s.ops += o.ops;
        s.fine += o.fine;
        s.switches += o.switches;
        s.fine_switches += o.fine_switches;
        s.children += o.children.len() as u64;
        *s.verdicts.entry(format!("{:?}", o.verdict)).or_default() += 1;
        *s.strategies.entry(format!("{}{}", ["run-to-block", "random", "priorities", "shared-memory"][sc.strategy as usize % 4], if sc.fine { "+instruction-level" } else { "" })).or_default() += 1;
        let mut nf = 0;
        for f in &o.fired {
            nf += 1;
            let k = match f.fault {
                1000 => format!("stdout limit errno {}", sc.out_errno),
                1001 => format!("stderr limit errno {}", sc.err_errno),
                i => match sc.faults.get(i as usize) {
                    Some(d) if d.act == "errno" => format!("{} errno {}", d.cls, d.arg),
                    Some(d) => format!("{} at {}", d.act, d.cls),
                    None => continue,
                },
            };
            *s.faults.entry(k).or_default() += 1;
        }
        for (k, _) in &o.bg {
            *s.bg.entry(BGS[*k as usize].into()).or_default() += 1;
        }
        s.ileave.insert(o.ileave);
        if nf > 0 || !o.bg.is_empty() || o.switches > 1 {
            s.nontrivial.insert(o.ileave);
        }
        let mut h = vec![];
        for n in &o.fs {
            h.extend_from_slice(&n.ino.to_le_bytes());
            h.extend_from_slice(&n.data);
        }
        h.extend_from_slice(&o.out);
        h.extend_from_slice(&o.err);
        h.push(o.code as u8);
        s.states.insert(rng::hash_bytes(&h));
        let mut probe = |n: &str, c: bool| {
            if c {
                *s.probes.entry(n.into()).or_default() += 1;
            }
        };
        probe("a document was rewritten", o.muts.iter().any(|m| !m.by_actor));
        probe("run failed", o.verdict == Verdict::Exit && o.code != 0);
        probe("error or crash while a file was being replaced", nf > 0 && o.muts.iter().any(|m| !m.by_actor && MUT[m.kind as usize] == "create"));
        probe("several threads ran documents", o.threads > 2 && o.switches > 4);
        probe("formatter killed", o.children.iter().any(|c| c.killed));
        probe("formatter failed by itself", o.children.iter().any(|c| c.status != 0 && !c.killed));
        probe("formatter succeeded", o.children.iter().any(|c| c.zombie && c.status == 0));
        probe("waited (simulated idle time)", o.idle_jumps > 0);
        probe("warning printed", String::from_utf8_lossy(&o.err).contains(": warning: "));
        probe("somebody else changed the tree", o.muts.iter().any(|m| m.by_actor));
    }
    if s.samples.len() < 5 {
        s.samples.push(json!({"family": case.family, "index": case.index, "argv": case.sc.argv, "faults": case.sc.faults.iter().map(|f| format!("{} {} skip {} times {}: {} {}", f.cls, f.path, f.skip, f.times, f.act, f.arg)).collect::<Vec<_>>(), "files": case.sc.nodes.len(), "verdict": format!("{:?} {}", runs[0].o.verdict, runs[0].o.code), "operations": runs[0].o.ops, "simulated_ms": runs[0].o.now / 1_000_000}));
    }
}
fn merge(a: &mut Stats, b: Stats) {
    a.cases += b.cases;
    a.runs += b.runs;
    a.baselines += b.baselines;
    a.undecided += b.undecided;
    a.sim_ns += b.sim_ns;
    a.ops += b.ops;
    a.fine += b.fine;
    a.switches += b.switches;
    a.fine_switches += b.fine_switches;
    a.children += b.children;
    a.unreproducible += b.unreproducible;
    for (x, y) in [(&mut a.faults, b.faults), (&mut a.bg, b.bg), (&mut a.verdicts, b.verdicts), (&mut a.fam, b.fam), (&mut a.strategies, b.strategies), (&mut a.probes, b.probes), (&mut a.other, b.other)] {
        for (k, v) in y {
            *x.entry(k).or_default() += v;
        }
    }
    a.ileave.extend(b.ileave);
    a.nontrivial.extend(b.nontrivial);
    a.states.extend(b.states);
    a.samples.extend(b.samples);
    a.samples.truncate(8);
}
fn opt(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}
fn root() -> PathBuf {
    std::env::var_os("HSIM_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}
fn build_dir() -> PathBuf {
    std::env::var_os("HSIM_BUILD").map(PathBuf::from).unwrap_or_else(|| root().join(".build"))
}
pub fn matching(vs: &[Viol], p: &str) -> Vec<String> {
    vs.iter().filter(|v| v.props.iter().any(|x| *x == p)).map(|v| v.msg.clone()).collect()
}
fn known(p: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| {
            let l = l.strip_prefix(&format!("property={p} match="))?;
            let (m, d) = l.split_once(" :: ")?;
            Some((m.to_string(), d.to_string()))
        })
        .collect()
}

fn check(prop: &str, tier: &str, args: &[String]) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = opt(args, "--secs").and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 40.0 } else { 600.0 });
    let minruns: u64 = opt(args, "--min").and_then(|s| s.parse().ok()).unwrap_or(1500);
    let hard = Duration::from_secs_f64(secs.max(1.0) * 6.0);
    let nw: usize = opt(args, "--workers").and_then(|s| s.parse().ok()).unwrap_or(std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 16));
    println!("property {prop} tier {tier} VERIF_SEED {seed} workers {nw}");
    let build = build_dir();
    let next = AtomicU64::new(0);
    let found: Mutex<Option<(u64, Vec<String>)>> = Mutex::new(None);
    let memo = Memo::default();
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    let cov: Mutex<Vec<u8>> = Mutex::new(vec![]);
    let known = known(prop);
    let seen_known: Mutex<HashSet<usize>> = Mutex::new(HashSet::new());
    std::thread::scope(|sc| {
        for k in 0..nw {
            let (next, found, memo, total, cov, build, known, seen_known) = (&next, &found, &memo, &total, &cov, &build, &known, &seen_known);
            sc.spawn(move || {
                let mut w = Worker::new(build, k);
                let mut st = Stats::default();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    let el = t0.elapsed();
                    let lowest = found.lock().unwrap().as_ref().map(|f| f.0);
                    if let Some(l) = lowest {
                        if i > l {
                            break;
                        }
                    } else if (el.as_secs_f64() > secs && i >= minruns) || el > hard {
                        break;
                    }
                    let cs = case_seed(seed, prop, i);
                    let mut cx = Cx { w: &mut w, memo, baselines: 0 };
                    let case = gen::gen(&mut cx, pick_family(prop, cs), cs, i);
                    let (runs, vs) = run_case(&mut cx, &case);
                    st.baselines += cx.baselines;
                    if runs.iter().any(|r| matches!(r.o.verdict, Verdict::Harness | Verdict::Wall)) {
                        st.undecided += 1;
                    }
                    account(&mut st, &case, &runs);
                    let mut m = matching(&vs, prop);
                    for v in &vs {
                        if !v.props.contains(&prop) {
                            *st.other.entry(v.props.join("+")).or_default() += 1;
                        }
                    }
                    m.retain(|x| match known.iter().position(|(k, _)| x.contains(k.as_str())) {
                        Some(j) => {
                            seen_known.lock().unwrap().insert(j);
                            false
                        }
                        None => true,
                    });
                    if !m.is_empty() {
                        // an alarm counts only if it can be repeated in a fresh process tree
                        let mut w2 = Worker::new(build, 1000 + k);
                        let memo2 = Memo::default();
                        let mut cx2 = Cx { w: &mut w2, memo: &memo2, baselines: 0 };
                        let (_, vs2) = run_case(&mut cx2, &case);
                        if matching(&vs2, prop).is_empty() {
                            st.unreproducible += 1;
                            println!("not repeatable: index {i}: {}", m[0]);
                            continue;
                        }
                        let mut f = found.lock().unwrap();
                        if f.as_ref().map(|f| i < f.0).unwrap_or(true) {
                            *f = Some((i, m));
                        }
                    }
                }
                let c = w.coverage();
                let mut all = cov.lock().unwrap();
                if all.len() < c.len() {
                    all.resize(c.len(), 0);
                }
                for (a, b) in all.iter_mut().zip(&c) {
                    *a |= *b;
                }
                merge(&mut total.lock().unwrap(), st);
            });
        }
    });
    let st = total.into_inner().unwrap();
    let explore = t0.elapsed().as_secs_f64();
    let edges = cov.into_inner().unwrap().iter().filter(|b| **b != 0).count();
    let mut violations = vec![];
    let mut code = 0;
    for (j, (_, d)) in known.iter().enumerate() {
        let _ = j;
        println!("KNOWN-FINDING: property={prop} {d}");
    }
    if let Some((i, m)) = found.into_inner().unwrap() {
        let cs = case_seed(seed, prop, i);
        let mut w = Worker::new(&build, 2000);
        let memo = Memo::default();
        let mut cx = Cx { w: &mut w, memo: &memo, baselines: 0 };
        let case = gen::gen(&mut cx, pick_family(prop, cs), cs, i);
        println!("violation at index {i} (family {}): {}", case.family, m[0]);
        let (small, steps) = mini::minimise(&mut cx, case, prop, Duration::from_secs(45), 400);
        let (runs, vs) = run_case(&mut cx, &small);
        let mm = matching(&vs, prop);
        let rep = Replay { property: prop.into(), violation: if mm.is_empty() { m.clone() } else { mm }, base_seed: seed, index: i, minimised_from: steps, digests: runs.iter().map(|r| format!("{:016x}", r.o.digest())).collect(), case: small };
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{prop}.json"));
        std::fs::write(&path, serde_json::to_vec_pretty(&rep).unwrap()).expect("replay file");
        for x in &rep.violation {
            println!("  {x}");
        }
        println!("VIOLATION property={prop} replay={}", path.display());
        violations.push(json!({"message": rep.violation[0], "replay": path.display().to_string(), "seed": seed, "index": i}));
        code = 1;
    }
    if code == 0 && st.undecided * 2 > st.cases.max(1) {
        println!("{} of {} cases could not be decided", st.undecided, st.cases);
        code = 2;
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations.len(), "violation_details": violations,
        "coverage": {
            "evaluations": st.runs,
            "distinct_nontrivial": st.nontrivial.len(),
            "rule": "one evaluation = one simulated run of the real executable judged by the oracle of this property; distinct = different hash over the sequence of (operation, thread) and scheduling choices among the runs in which a fault fired, a benign disturbance happened or threads were switched",
            "samples": st.samples,
            "cases": st.cases,
            "baseline_runs": st.baselines,
            "undecided_cases": st.undecided,
            "unrepeatable_alarms": st.unreproducible,
            "simulated_runs_per_hour": ((st.runs + st.baselines) as f64 * 3600.0 / explore) as u64,
            "seeds_per_hour": (st.cases as f64 * 3600.0 / explore) as u64,
            "simulated_seconds": (st.sim_ns / 1_000_000) as f64 / 1000.0,
            "operations": st.ops, "instruction_level_points": st.fine, "thread_switches": st.switches, "instruction_level_switches": st.fine_switches,
            "faults_injected": st.faults, "benign_disturbances": st.bg, "verdicts": st.verdicts, "families": st.fam, "strategies": st.strategies,
            "formatter_processes": st.children,
            "distinct_interleavings": st.ileave.len(), "distinct_final_states": st.states.len(), "code_edges_reached": edges,
            "conditions_hit": st.probes,
            "violations_of_other_properties_seen": st.other,
            "real_code": "the whole hongdown executable built from /repo with its dependencies (clap, rayon, comrak, ignore, walkdir, toml, similar) and Rust's standard library",
            "stubs": "kernel interface below libc (files, pipes, clock, threads' scheduling, standard streams); external code formatters are scripted processes"
        }
    });
    let evd = root().join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    std::fs::write(evd.join(format!("{prop}.json")), serde_json::to_vec_pretty(&ev).unwrap()).expect("evidence");
    println!("{} cases, {} runs + {} baselines in {:.1} s, {} undecided, {} edges, {} interleavings; other: {:?}", st.cases, st.runs, st.baselines, explore, st.undecided, edges, st.ileave.len(), st.other);
    code
}

fn show(case: &Case, runs: &[RunOf], vs: &[Viol], trace: bool) {
    println!("family {} index {} argv {:?} cwd {} ncpu {} env {:?}", case.family, case.index, case.sc.argv, case.sc.cwd, case.sc.ncpu, case.sc.env);
    for n in &case.sc.nodes {
        println!("  {:?} {} mode {:o} {}", n.kind, n.path, n.mode, if n.kind == Kind::Link || n.path.ends_with(".toml") || n.path.contains("ignore") || n.path.contains("exclude") { format!("{:?}", n.data) } else { format!("{} bytes", n.data.0.len()) });
    }
    for f in &case.sc.faults {
        println!("  fault {f:?}");
    }
    for f in &case.sc.scripts {
        println!("  script {f:?}");
    }
    if !case.sc.stdin.0.is_empty() {
        println!("  stdin {:?}", case.sc.stdin);
    }
    println!("  limits {:?} {:?}", case.sc.out_limit, case.sc.err_limit);
    for r in runs {
        let o = &r.o;
        println!("-- {:?} {} {} now {} ms ops {} threads {} fired {:?} children {:?}", o.verdict, o.code, o.harness, o.now / 1_000_000, o.ops, o.threads, o.fired.iter().map(|f| (f.fault, f.op, &f.path)).collect::<Vec<_>>(), o.children.iter().map(|c| (&c.argv, c.zombie, c.reaped, c.status, c.killed, c.t_spawn / 1_000_000, c.t_exit / 1_000_000, c.got.len(), c.sent.len())).collect::<Vec<_>>());
        println!("argv {:?}\nOUT {}\nERR {}", r.sc.argv, String::from_utf8_lossy(&o.out), String::from_utf8_lossy(&o.err));
        if trace {
            println!("{}\n{}", o.trace, o.waiting);
            for n in &o.fs {
                println!("  {:?} {} {:o} {:?}", n.kind, n.path, n.mode, Bytes(n.data.clone()));
            }
        }
    }
    for v in vs {
        println!("!! {:?} {}", v.props, v.msg);
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => {
            let p = opt(&args, "--property").expect("--property");
            if families(&p).is_empty() {
                eprintln!("no such property here: {p}");
                2
            } else {
                check(&p, &opt(&args, "--tier").unwrap_or_else(|| "quick".into()), &args)
            }
        }
        Some("replay") => {
            let rep: Replay = serde_json::from_slice(&std::fs::read(&args[1]).expect("replay file")).expect("replay format");
            let mut w = Worker::new(&build_dir(), 0);
            let memo = Memo::default();
            let mut cx = Cx { w: &mut w, memo: &memo, baselines: 0 };
            let (runs, vs) = run_case(&mut cx, &rep.case);
            let d: Vec<String> = runs.iter().map(|r| format!("{:016x}", r.o.digest())).collect();
            let mut case2 = rep.case.clone();
            case2.sc.trace_max = 100_000;
            let (runs2, _) = run_case(&mut cx, &case2);
            show(&rep.case, &runs2, &vs, args.iter().any(|a| a == "--trace"));
            println!("same execution as recorded: {}", d == rep.digests);
            let m = matching(&vs, &rep.property);
            if m.is_empty() {
                println!("the violation does not occur");
                0
            } else {
                println!("VIOLATION property={} replay={}", rep.property, args[1]);
                1
            }
        }
        Some("show") => {
            // show PROP INDEX [--family F]
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let i: u64 = args[2].parse().unwrap();
            let cs = case_seed(seed, &args[1], i);
            let mut w = Worker::new(&build_dir(), 0);
            let memo = Memo::default();
            let mut cx = Cx { w: &mut w, memo: &memo, baselines: 0 };
            let fam = opt(&args, "--family").unwrap_or_else(|| pick_family(&args[1], cs).into());
            let mut case = gen::gen(&mut cx, &fam, cs, i);
            case.sc.trace_max = 100_000;
            let (runs, vs) = run_case(&mut cx, &case);
            show(&case, &runs, &vs, args.iter().any(|a| a == "--trace"));
            0
        }
        Some("sweep") => {
            // sweep FAMILY FROM TO: every violation of any property, grouped (development aid)
            let fam = args[1].clone();
            let (from, to): (u64, u64) = (args[2].parse().unwrap(), args[3].parse().unwrap());
            let next = AtomicU64::new(from);
            let memo = Memo::default();
            let all: Mutex<BTreeMap<u64, Vec<Viol>>> = Mutex::new(BTreeMap::new());
            let und = AtomicU64::new(0);
            let build = build_dir();
            let t0 = Instant::now();
            std::thread::scope(|s| {
                for k in 0..8 {
                    let (next, memo, all, fam, build, und) = (&next, &memo, &all, &fam, &build, &und);
                    s.spawn(move || {
                        let mut w = Worker::new(build, k);
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= to {
                                break;
                            }
                            let mut cx = Cx { w: &mut w, memo, baselines: 0 };
                            let case = gen::gen(&mut cx, fam, case_seed(1, "C99", i), i);
                            let (runs, vs) = run_case(&mut cx, &case);
                            if let Some(r) = runs.iter().find(|r| matches!(r.o.verdict, Verdict::Harness | Verdict::Wall)) {
                                und.fetch_add(1, Ordering::SeqCst);
                                println!("undecided {i} {:?} {}", r.o.verdict, r.o.harness);
                            }
                            if !vs.is_empty() {
                                all.lock().unwrap().insert(i, vs);
                            }
                        }
                    });
                }
            });
            for (i, vs) in all.into_inner().unwrap() {
                for v in vs.iter().take(3) {
                    println!("{i} {:?} {}", v.props, v.msg);
                }
            }
            println!("{} cases of {fam}, {} undecided, {:?}", to - from, und.into_inner(), t0.elapsed());
            0
        }
        Some("determinism") => {
            // every case twice, in different workers, in a different order, with a different number of workers
            let n: u64 = args[1].parse().unwrap();
            let build = build_dir();
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let run = |nw: usize, rev: bool| -> BTreeMap<u64, Vec<u64>> {
                let next = AtomicU64::new(0);
                let out: Mutex<BTreeMap<u64, Vec<u64>>> = Mutex::new(BTreeMap::new());
                let memo = Memo::default();
                std::thread::scope(|s| {
                    for k in 0..nw {
                        let (next, out, memo, build) = (&next, &out, &memo, &build);
                        s.spawn(move || {
                            let mut w = Worker::new(build, k);
                            loop {
                                let j = next.fetch_add(1, Ordering::SeqCst);
                                if j >= n {
                                    break;
                                }
                                let i = if rev { n - 1 - j } else { j };
                                let cs = case_seed(seed, "C98", i);
                                let mut cx = Cx { w: &mut w, memo, baselines: 0 };
                                let mut case = gen::gen(&mut cx, gen::FAMILIES[(i % gen::FAMILIES.len() as u64) as usize], cs, i);
                                case.sc.trace_max = 20000;
                                let (runs, vs) = run_case(&mut cx, &case);
                                let mut d: Vec<u64> = runs.iter().map(|r| r.o.digest() ^ rng::hash_bytes(r.o.trace.as_bytes())).collect();
                                d.push(rng::hash_bytes(format!("{:?}", vs.iter().map(|v| &v.msg).collect::<Vec<_>>()).as_bytes()));
                                out.lock().unwrap().insert(i, d);
                            }
                        });
                    }
                });
                out.into_inner().unwrap()
            };
            let a = run(8, false);
            let b = run(5, true);
            let bad: Vec<&u64> = a.iter().filter(|(k, v)| b.get(k) != Some(v)).map(|(k, _)| k).collect();
            println!("{} cases twice, {} differ {:?}", a.len(), bad.len(), &bad[..bad.len().min(20)]);
            i32::from(!bad.is_empty())
        }
        _ => {
            eprintln!("usage: hsim check|replay|show|sweep|determinism ...");
            2
        }
    };
    std::process::exit(code);
}
