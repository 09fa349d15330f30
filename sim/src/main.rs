use sim::{case, json, mini, os, rng, scen, work};

use case::Case;
use json::{s, J};
use rng::{hash, mix, Rng};
use scen::{Bins, Lab, Seen, Violation};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

struct Conf {
    bins: Bins,
    shim: String,
    scratch: String,
    verif: String,
    seed: u64,
    tier: String,
    workers: usize,
}

fn conf() -> Conf {
    let e = |k: &str, d: &str| std::env::var(k).unwrap_or(d.to_string());
    let t = e("SIM_TARGET", "/verif/target");
    Conf {
        bins: Bins { tldr: format!("{t}/repo/debug/tldr"), gen: format!("{t}/repo/debug/main") },
        shim: format!("{t}/simos/simos.so"),
        scratch: format!("{t}/scratch/{}", std::process::id()),
        verif: e("SIM_VERIF", "/verif"),
        seed: e("VERIF_SEED", "1").parse().unwrap_or_else(|_| hash(e("VERIF_SEED", "1").as_bytes())),
        tier: if e("VERIF_TIER", "quick") == "thorough" { "thorough".into() } else { "quick".into() },
        workers: e("SIM_WORKERS", "0").parse().ok().filter(|n| *n > 0).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)),
    }
}

/// Which classes of violation are a violation of which property.
fn concerns(prop: &str, kind: &str, class: &str) -> bool {
    match (prop, kind) {
        ("C05", _) => matches!(class, "read-error-ignored" | "write-error-ignored" | "success-differs" | "interruption-changes-run"),
        ("C07", _) => matches!(class, "output-of-refused" | "not-a-prefix" | "silent-failure" | "mutation"),
        ("C08", "fault") => matches!(class, "read-error-ignored" | "output-of-refused" | "success-differs" | "not-a-prefix"),
        ("C09", _) => class != "mutation",
        _ => true,
    }
}

fn cases_of(prop: &str, tier: &str) -> u64 {
    let quick = match prop {
        "C03" => 12_000,
        "C05" | "C07" => 16_000,
        "C06" => 12_000,
        "C14" => 8_000,
        "C09" => 60_000,
        _ => 30_000,
    };
    let n = match std::env::var("SIM_CASES").ok().and_then(|n| n.parse().ok()) {
        Some(n) => return n,
        None => quick,
    };
    if tier == "thorough" {
        n * 20
    } else {
        n
    }
}

fn case_seed(seed: u64, prop: &str, i: u64) -> u64 {
    mix(mix(seed) ^ hash(prop.as_bytes()) ^ mix(i.wrapping_mul(0x9e3779b97f4a7c15)))
}

struct Found {
    index: u64,
    seed: u64,
    case: Case,
    violation: Violation,
}

#[derive(Default)]
struct Total {
    seen: Seen,
    cases: u64,
    distinct: BTreeSet<u64>,
    schedules: BTreeSet<u64>,
    samples: Vec<J>,
    kinds: BTreeMap<String, u64>,
    digest: u64,
}

fn main() {
    os::fixed_addresses();
    let t = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).expect("thread");
    let _ = t.join();
    std::process::exit(2);
}

fn real_main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(String::as_str).collect();
    let c = conf();
    let code = match a.as_slice() {
        ["check", prop] => check(&c, prop),
        ["replay", file] => replay(&c, file),
        ["explore", prop, n] => explore(&c, prop, n.parse().unwrap_or(1000)),
        ["show", prop, i] => show(&c, prop, i.parse().unwrap_or(0)),
        ["determinism", prop, n] => determinism(&c, prop, n.parse().unwrap_or(200)),
        _ => {
            eprintln!("usage: sim check PROP | replay FILE | explore PROP N | show PROP I | determinism PROP N");
            2
        }
    };
    let _ = std::fs::remove_dir_all(&c.scratch);
    std::process::exit(code);
}

/// Runs cases `0..n` on all workers.
fn sweep(c: &Conf, prop: &str, n: u64, cap: Duration, each: &(dyn Fn(u64, &Case, &[Violation]) + Sync)) -> Result<(Total, Option<Found>), String> {
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let total = Mutex::new(Total::default());
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let error: Mutex<Option<String>> = Mutex::new(None);
    let end = Instant::now() + cap;
    let listed = listed(c, prop).into_iter().map(|l| l.0).collect::<Vec<_>>();
    let listed = &listed;
    std::thread::scope(|sc| {
        for w in 0..c.workers {
            let (next, stop_at, total, found, error) = (&next, &stop_at, &total, &found, &error);
            let body = move || {
                let r = (|| -> Result<(), String> {
                    let mut os = os::Os::new(&format!("{}/w{w}", c.scratch), &c.shim)?;
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= n || i > stop_at.load(SeqCst) || Instant::now() > end || error.lock().unwrap().is_some() {
                            return Ok(());
                        }
                        let seed = case_seed(c.seed, prop, i);
                        let began = Instant::now();
    let mut lab = Lab { os: &mut os, bins: &c.bins, seen: Seen::default(), known: None, listed };
                        let mut rng = Rng::new(seed);
                        let case = work::case(prop, &mut rng, &mut lab)?;
                        let mut vs = lab.judge(&case)?;
                        vs.retain(|v| concerns(prop, &case.kind, &v.0));
                        let seen = lab.seen;
                        if began.elapsed().as_secs_f64() > 1.0 && std::env::var("SIM_SLOW").is_ok() {
                            eprintln!("slow case {i}: {:.1} s", began.elapsed().as_secs_f64());
                        }
                        each(i, &case, &vs);
                        {
                            let mut t = total.lock().unwrap();
                            t.cases += 1;
                            t.seen.runs += seen.runs;
                            t.seen.calls += seen.calls;
                            t.seen.allocs += seen.allocs;
                            t.seen.sim_ns = t.seen.sim_ns.saturating_add(seen.sim_ns);
                            for (k, v) in &seen.fired {
                                *t.seen.fired.entry(k.clone()).or_default() += v;
                            }
                            for (k, v) in &seen.probes {
                                *t.seen.probes.entry(k.clone()).or_default() += v;
                            }
                            *t.kinds.entry(case.kind.clone()).or_default() += 1;
                            t.digest = t.digest.wrapping_add(mix(seen.digest ^ mix(i)));
                            let first = seen.schedules.iter().any(|h| !t.schedules.contains(h));
                            t.schedules.extend(seen.schedules.iter());
                            if seen.nontrivial {
                                let mut h = hash(&case.stdin);
                                for f in &case.files {
                                    h = mix(h ^ hash(&f.1));
                                }
                                h = mix(h ^ hash(format!("{:?}", case.cmd).as_bytes()));
                                for x in &seen.schedules {
                                    h = mix(h ^ x);
                                }
                                t.distinct.insert(h);
                                if first && t.samples.len() < 3 && case.stdin.len() < 600 && case.files.iter().all(|f| f.1.len() < 900) {
                                    t.samples.push(case.to_json());
                                }
                            }
                        }
                        if let Some(v) = vs.into_iter().next() {
                            let mut f = found.lock().unwrap();
                            if f.as_ref().map(|f| i < f.index).unwrap_or(true) {
                                *f = Some(Found { index: i, seed, case, violation: v });
                                if NO_STOP.load(SeqCst) == 0 {
                                    stop_at.fetch_min(i, SeqCst);
                                }
                            }
                        }
                    }
                })();
                if let Err(e) = r {
                    error.lock().unwrap().get_or_insert(e);
                }
            };
            std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(sc, body).expect("thread");
        }
    });
    if let Some(e) = error.into_inner().unwrap() {
        return Err(e);
    }
    Ok((total.into_inner().unwrap(), found.into_inner().unwrap()))
}

/// The known findings of a property: name and description.
fn listed(c: &Conf, prop: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", c.verif)).unwrap_or_default();
    let head = format!("known: property={prop} ");
    text.lines()
        .filter_map(|l| l.strip_prefix(&head))
        .filter_map(|l| l.split_once(' '))
        .map(|(k, d)| (k.to_string(), d.to_string()))
        .collect()
}

fn judge(c: &Conf, os: &mut os::Os, prop: &str, case: &Case) -> Result<Vec<Violation>, String> {
    let listed = listed(c, prop).into_iter().map(|l| l.0).collect::<Vec<_>>();
    let mut lab = Lab { os, bins: &c.bins, seen: Seen::default(), known: None, listed: &listed };
    let mut v = lab.judge(case)?;
    v.retain(|v| concerns(prop, &case.kind, &v.0));
    Ok(v)
}

fn check(c: &Conf, prop: &str) -> i32 {
    let start = Instant::now();
    let n = cases_of(prop, &c.tier);
    let cap = Duration::from_secs(if c.tier == "thorough" { 3 * 3600 } else { 420 });
    println!("sim: property {prop}, seed {}, {} cases, tier {}, {} workers", c.seed, n, c.tier, c.workers);
    let (mut t, mut found) = match sweep(c, prop, n, cap, &|_, _, _| ()) {
        Ok(x) => x,
        Err(e) => {
            eprintln!("sim: harness error: {e}");
            return 2;
        }
    };
    // A violation found in this tree is known, or it is reported.
    let mut code = 0;
    if let Some(f) = found.take() {
        match report(c, prop, &f) {
            Ok(path) => {
                println!("VIOLATION property={prop} replay={path}");
                code = 1;
            }
            Err(e) => {
                eprintln!("sim: harness error: {e}");
                return 2;
            }
        }
    }
    for (k, d) in listed(c, prop) {
        if t.seen.probes.contains_key(&format!("known finding {k}")) {
            println!("KNOWN-FINDING: property={prop} {k} {d}");
        }
    }
    t.samples.truncate(3);
    if let Err(e) = evidence(c, prop, &t, start.elapsed().as_secs_f64(), code) {
        eprintln!("sim: cannot write the evidence: {e}");
        return 2;
    }
    println!(
        "sim: {} cases, {} runs of the real program, {} distinct non-trivial, {} distinct schedules, {:.1} s, digest {:016x}",
        t.cases,
        t.seen.runs,
        t.distinct.len(),
        t.schedules.len(),
        start.elapsed().as_secs_f64(),
        t.digest
    );
    code
}

fn report(c: &Conf, prop: &str, f: &Found) -> Result<String, String> {
    let mut os = os::Os::new(&format!("{}/mini", c.scratch), &c.shim)?;
    let class = f.violation.0.clone();
    println!("sim: case {} (seed {}) violates {prop}: [{}] {}", f.index, f.seed, class, f.violation.1);
    // It must happen again before it is believed.
    let again = judge(c, &mut os, prop, &f.case)?;
    if !again.iter().any(|v| v.0 == class) {
        return Err(format!("case {} of {prop} does not repeat: the simulation is not deterministic", f.index));
    }
    let deadline = Instant::now() + Duration::from_secs(if c.tier == "thorough" { 120 } else { 45 });
    let mut tries = 0u64;
    let small = mini::minimise(&f.case, deadline, &mut |k| {
        tries += 1;
        judge(c, &mut os, prop, k).map(|v| v.iter().any(|v| v.0 == class)).unwrap_or(false)
    });
    let v = judge(c, &mut os, prop, &small)?.into_iter().find(|v| v.0 == class).ok_or("the minimised case does not repeat")?;
    println!("sim: minimised in {tries} tries: [{}] {}", v.0, v.1);
    let j = J::Obj(vec![
        ("property".into(), s(prop)),
        ("class".into(), s(&v.0)),
        ("detail".into(), s(&v.1)),
        ("seed".into(), J::Num(c.seed.to_string())),
        ("case_index".into(), J::Num(f.index.to_string())),
        ("case_seed".into(), J::Num(f.seed.to_string())),
        ("case".into(), small.to_json()),
    ]);
    let dir = format!("{}/replays", c.verif);
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let path = format!("{dir}/{prop}-{}-{}.json", c.seed, f.index);
    std::fs::write(&path, json::text(&j)).map_err(|e| e.to_string())?;
    Ok(path)
}

fn replay(c: &Conf, file: &str) -> i32 {
    let r = (|| -> Result<i32, String> {
        let b = std::fs::read(file).map_err(|e| e.to_string())?;
        let j = json::parse(&b).map_err(|_| "not a replay file")?;
        let prop = j.get("property").and_then(|x| x.str()).ok_or("no property")?.to_string();
        let class = j.get("class").and_then(|x| x.str()).ok_or("no class")?.to_string();
        let case = Case::from_json(j.get("case").ok_or("no case")?).ok_or("bad case")?;
        let mut os = os::Os::new(&format!("{}/replay", c.scratch), &c.shim)?;
        let vs = judge(c, &mut os, &prop, &case)?;
        for v in &vs {
            println!("sim: [{}] {}", v.0, v.1);
        }
        if vs.iter().any(|v| v.0 == class) {
            println!("VIOLATION property={prop} replay={file}");
            Ok(1)
        } else {
            println!("sim: the violation does not occur");
            Ok(0)
        }
    })();
    r.unwrap_or_else(|e| {
        eprintln!("sim: {e}");
        2
    })
}

fn explore(c: &Conf, prop: &str, n: u64) -> i32 {
    let start = Instant::now();
    let classes: Mutex<BTreeMap<String, (u64, Vec<(u64, String)>)>> = Mutex::new(BTreeMap::new());
    // Never stop: report what each case says.
    let each = |i: u64, _: &Case, vs: &[Violation]| {
        for v in vs {
            let mut m = classes.lock().unwrap();
            let e = m.entry(v.0.clone()).or_default();
            e.0 += 1;
            e.1.push((i, v.1.clone()));
        }
    };
    match sweep_inner(c, prop, n, &each) {
        Ok((t, _)) => {
            for (k, (n, v)) in classes.into_inner().unwrap() {
                println!("== {k}: {n}");
                let mut v = v;
                v.sort();
                for (i, d) in v.iter().take(6) {
                    println!("   case {i}: {d}");
                }
            }
            println!("{} cases, {} runs, {} nontrivial distinct, {} schedules, {:.1} s", t.cases, t.seen.runs, t.distinct.len(), t.schedules.len(), start.elapsed().as_secs_f64());
            println!("probes {:?}", t.seen.probes);
            println!("fired {:?}", t.seen.fired);
            println!("digest {:016x}", t.digest);
            0
        }
        Err(e) => {
            eprintln!("sim: {e}");
            2
        }
    }
}

/// As `sweep`, without stopping at a violation.
fn sweep_inner(c: &Conf, prop: &str, n: u64, each: &(dyn Fn(u64, &Case, &[Violation]) + Sync)) -> Result<(Total, Option<Found>), String> {
    NO_STOP.store(1, SeqCst);
    sweep(c, prop, n, Duration::from_secs(36000), each)
}

static NO_STOP: AtomicU64 = AtomicU64::new(0);

fn show(c: &Conf, prop: &str, i: u64) -> i32 {
    let mut os = match os::Os::new(&format!("{}/show", c.scratch), &c.shim) {
        Ok(o) => o,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    let listed = listed(c, prop).into_iter().map(|l| l.0).collect::<Vec<_>>();
    let mut lab = Lab { os: &mut os, bins: &c.bins, seen: Seen::default(), known: None, listed: &listed };
    let mut r = Rng::new(case_seed(c.seed, prop, i));
    let case = work::case(prop, &mut r, &mut lab).unwrap();
    println!("{}", json::text(&case.to_json()));
    println!("expect {:?}", case::expect(&case.files, &case.cmd, &case.stdin));
    let run = lab.run(&case, &case.cmd, &case.stdin, &os::Plan::default()).unwrap();
    println!("calm run {:?}\nout {}\nerr {}\nallocs {} bytes {} calls {}", run.end, scen::brief(&run.out), scen::brief(&run.err), run.allocs, run.alloc_bytes, run.calls);
    let vs = lab.judge(&case).unwrap();
    for v in vs {
        println!("[{}] {}", v.0, v.1);
        let class = v.0.clone();
        let mut os = os::Os::new(&format!("{}/show2", c.scratch), &c.shim).unwrap();
        let small = mini::minimise(&case, Instant::now() + Duration::from_secs(20), &mut |k| judge(c, &mut os, prop, k).map(|v| v.iter().any(|v| v.0 == class)).unwrap_or(false));
        println!("minimised: {}", json::text(&small.to_json()));
        for v in judge(c, &mut os, prop, &small).unwrap() {
            println!("   [{}] {}", v.0, v.1);
        }
    }
    0
}

/// Every case twice, with different numbers of workers.
fn determinism(c: &Conf, prop: &str, n: u64) -> i32 {
    let mut ds = vec![];
    for w in [1, c.workers, 3, c.workers * 3] {
        let k = Conf { bins: Bins { tldr: c.bins.tldr.clone(), gen: c.bins.gen.clone() }, shim: c.shim.clone(), scratch: format!("{}/d{w}", c.scratch), verif: c.verif.clone(), seed: c.seed, tier: c.tier.clone(), workers: w };
        match sweep_inner(&k, prop, n, &|_, _, _| ()) {
            Ok((t, _)) => {
                println!("{prop}: {} cases, {} workers: digest {:016x}", t.cases, w, t.digest);
                ds.push(t.digest);
            }
            Err(e) => {
                eprintln!("sim: {e}");
                return 2;
            }
        }
    }
    if ds.windows(2).all(|w| w[0] == w[1]) {
        0
    } else {
        println!("sim: runs differ");
        1
    }
}

fn evidence(c: &Conf, prop: &str, t: &Total, wall: f64, violations: i32) -> Result<(), String> {
    let n = |x: u64| J::Num(x.to_string());
    let counts = |m: &BTreeMap<String, u64>| J::Obj(m.iter().map(|(k, v)| (k.clone(), n(*v))).collect());
    let level = if matches!(prop, "C05" | "C07" | "C08" | "C13") { "fault_enumeration" } else { "exploration" };
    let gen = prop == "C13";
    let mut real = vec![s("tldr binary built from /repo's working tree (all crates, unmodified)")];
    if gen {
        real = vec![s("tldr-rs code generator binary built from /repo's working tree (unmodified)")];
    }
    let j = J::Obj(vec![
        ("property".into(), s(prop)),
        ("tier".into(), s(&c.tier)),
        ("seed".into(), n(c.seed)),
        ("level".into(), s(level)),
        (
            "coverage".into(),
            J::Obj(vec![
                ("evaluations".into(), n(t.cases)),
                ("distinct_nontrivial".into(), n(t.distinct.len() as u64)),
                (
                    "rule".into(),
                    s("A case is a command, its layout files, its input bytes and a plan of slicing, interruptions and faults, all drawn from one seed. It is non-trivial when the oracle had a definite verdict to compare with (or, for fault cases, when a fault or interruption actually fired); two cases are distinct when their files, input, command or sequence of simulated calls differ."),
                ),
                ("samples".into(), J::Arr(t.samples.clone())),
                ("simulated_runs".into(), n(t.seen.runs)),
                ("runs_per_hour".into(), n((t.seen.runs as f64 / wall.max(0.001) * 3600.0) as u64)),
                ("seeds_per_hour".into(), n((t.cases as f64 / wall.max(0.001) * 3600.0) as u64)),
                ("simulated_calls".into(), n(t.seen.calls)),
                ("simulated_allocations".into(), n(t.seen.allocs)),
                ("simulated_time_ns".into(), n(t.seen.sim_ns)),
                ("faults_fired".into(), counts(&t.seen.fired)),
                ("distinct_schedules".into(), n(t.schedules.len() as u64)),
                ("distinct_schedules_measure".into(), s("hash of the sequence of simulated calls of a run: stream, result and errno of each")),
                ("probes".into(), counts(&t.seen.probes)),
                ("scenarios".into(), counts(&t.kinds)),
                ("real_components".into(), J::Arr(real)),
                ("stub_components".into(), J::Arr(vec![s("operating system: standard streams, file opening and reading, clock, randomness, process identity, allocator failures (simos)")])),
                ("event_digest".into(), s(&format!("{:016x}", t.digest))),
            ]),
        ),
        (
            "assumptions".into(),
            J::Arr(vec![
                s("the reference model in /verif/sim/src/refm.rs states the layout semantics; where it is not certain it abstains"),
                s("sampling: a clean batch is evidence for the sampled cases, not a proof"),
            ]),
        ),
        ("wall_s".into(), J::Num(format!("{wall:.3}"))),
        ("violations".into(), n(violations as u64)),
    ]);
    let dir = format!("{}/evidence", c.verif);
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    std::fs::write(format!("{dir}/{prop}.json"), json::text(&j)).map_err(|e| e.to_string())
}
