//! The simulator of the library: concurrent callers, failing components, histories of builders.

mod builds;
mod child;
mod conc;
#[cfg(feature = "derived")]
mod derive;
mod hist;
mod reads;
mod parts;
#[cfg(feature = "derived")]
mod shapes;

use sim::json::{self, s, J};
use sim::rng::{hash, mix, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: sched::Alloc = sched::Alloc;

#[derive(Default)]
pub struct Verdict {
    pub violations: Vec<(String, String)>,
    pub nontrivial: bool,
    pub steps: u64,
    pub waits: u64,
    pub runs: u64,
    pub hash: u64,
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub switches: Option<J>,
    pub error: Option<String>,
}

impl Verdict {
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.to_string()).or_default() += 1;
    }
    pub fn bad(&mut self, class: &str, detail: String) {
        self.violations.push((class.to_string(), detail));
    }
}

fn make(prop: &str, r: &mut Rng) -> Option<J> {
    match prop {
        "C10" => conc::case_calls(r),
        "C11" => hist::case(r),
        "C12" => conc::case_names(r),
        #[cfg(feature = "derived")]
        "C15" => derive::case(r),
        "C16" => builds::case(r),
        "C19" => reads::case(r),
        _ => None,
    }
}

fn judge(j: &J) -> Verdict {
    match j.get("kind").and_then(J::str) {
        Some("calls") => conc::judge_calls(j),
        Some("names") => conc::judge_names(j),
        Some("history") => hist::judge(j),
        #[cfg(feature = "derived")]
        Some("derive") => derive::judge(j),
        Some("builds") => builds::judge(j),
        Some("reads") => reads::judge(j),
        _ => Verdict::default(),
    }
}

struct Conf {
    verif: String,
    scratch: String,
    seed: u64,
    tier: String,
    workers: usize,
}

fn conf() -> Conf {
    let e = |k: &str, d: &str| std::env::var(k).unwrap_or(d.to_string());
    let t = e("SIM_TARGET", "/verif/target");
    Conf {
        scratch: format!("{t}/scratch/lib{}", std::process::id()),
        verif: e("SIM_VERIF", "/verif"),
        seed: e("VERIF_SEED", "1").parse().unwrap_or_else(|_| hash(e("VERIF_SEED", "1").as_bytes())),
        tier: if e("VERIF_TIER", "quick") == "thorough" { "thorough".into() } else { "quick".into() },
        workers: e("SIM_WORKERS", "0").parse().ok().filter(|n| *n > 0).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)),
    }
}

fn cases_of(prop: &str, tier: &str) -> u64 {
    let quick = match prop {
        "C10" => 12_000,
        "C11" => 40_000,
        "C12" => 12_000,
        "C15" => 40_000,
        "C16" => 40_000,
        "C19" => 40_000,
        _ => 10_000,
    };
    match std::env::var("SIM_CASES").ok().and_then(|n| n.parse().ok()) {
        Some(n) => n,
        None if tier == "thorough" => quick * 20,
        None => quick,
    }
}

fn case_seed(seed: u64, prop: &str, i: u64) -> u64 {
    mix(mix(seed) ^ hash(prop.as_bytes()) ^ mix(i.wrapping_mul(0x9e3779b97f4a7c15)))
}

fn case_of(c: &Conf, prop: &str, i: u64) -> J {
    let seed = case_seed(c.seed, prop, i);
    (0..50).find_map(|k| make(prop, &mut Rng::new(mix(seed ^ k)))).unwrap_or(J::Null)
}

#[derive(Default)]
struct Total {
    cases: u64,
    runs: u64,
    steps: u64,
    waits: u64,
    digest: u64,
    nontrivial: u64,
    distinct: BTreeSet<u64>,
    schedules: BTreeSet<u64>,
    fired: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    samples: Vec<J>,
    /// Smallest violating case of each class, and how many.
    found: BTreeMap<String, (u64, Vec<(u64, String)>)>,
    error: Option<String>,
}

fn counts(m: &BTreeMap<String, u64>) -> J {
    J::Obj(m.iter().map(|(k, v)| (k.clone(), child::n(*v))).collect())
}

impl Total {
    fn write(&self) -> J {
        let ns = |x: &BTreeSet<u64>| J::Arr(x.iter().map(|h| s(&format!("{h:x}"))).collect());
        child::obj(vec![
            ("cases", child::n(self.cases)),
            ("runs", child::n(self.runs)),
            ("steps", child::n(self.steps)),
            ("waits", child::n(self.waits)),
            ("nontrivial", child::n(self.nontrivial)),
            ("digest", s(&format!("{:x}", self.digest))),
            ("distinct", ns(&self.distinct)),
            ("schedules", ns(&self.schedules)),
            ("fired", counts(&self.fired)),
            ("probes", counts(&self.probes)),
            ("samples", J::Arr(self.samples.clone())),
            (
                "found",
                J::Obj(self.found.iter().map(|(k, (n, v))| (k.clone(), J::Arr(std::iter::once(child::n(*n)).chain(v.iter().map(|(i, d)| J::Arr(vec![child::n(*i), s(d)]))).collect()))).collect()),
            ),
            ("error", self.error.as_ref().map(|e| s(e)).unwrap_or(J::Null)),
        ])
    }
    fn add(&mut self, j: &J) -> Option<()> {
        let i = |k: &str| j.get(k).and_then(J::int).map(|x| x as u64);
        let hex = |x: &J| u64::from_str_radix(x.str()?, 16).ok();
        self.cases += i("cases")?;
        self.runs += i("runs")?;
        self.steps += i("steps")?;
        self.waits += i("waits")?;
        self.nontrivial += i("nontrivial")?;
        self.digest = self.digest.wrapping_add(hex(j.get("digest")?)?);
        self.distinct.extend(j.get("distinct")?.arr().iter().filter_map(hex));
        self.schedules.extend(j.get("schedules")?.arr().iter().filter_map(hex));
        for (m, k) in [(&mut self.fired, "fired"), (&mut self.probes, "probes")] {
            if let J::Obj(o) = j.get(k)? {
                for (k, v) in o {
                    *m.entry(k.clone()).or_default() += v.int()? as u64;
                }
            }
        }
        self.samples.extend(j.get("samples")?.arr().iter().cloned());
        if let J::Obj(o) = j.get("found")? {
            for (k, v) in o {
                let e = self.found.entry(k.clone()).or_default();
                e.0 += v.arr()[0].int()? as u64;
                for x in &v.arr()[1..] {
                    e.1.push((x.arr()[0].int()? as u64, x.arr()[1].str()?.to_string()));
                }
                e.1.sort();
                e.1.truncate(6);
            }
        }
        if let Some(e) = j.get("error").and_then(J::str) {
            self.error.get_or_insert(e.to_string());
        }
        Some(())
    }
}

fn main() {
    sim::os::fixed_addresses();
    // The rest runs in one thread with room for deep recursion, so that forking is harmless.
    let t = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).expect("thread");
    let _ = t.join();
    std::process::exit(2);
}

fn real_main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(String::as_str).collect();
    let c = conf();
    let num = |x: &str| x.parse::<u64>().unwrap_or(0);
    let code = match a.as_slice() {
        ["check", prop] => check(&c, prop),
        ["replay", file] => replay(file),
        ["explore", prop, n] => explore(&c, prop, num(n)),
        ["show", prop, i] => show(&c, prop, num(i)),
        ["case", file] => show_case(&std::fs::read(file).ok().and_then(|b| json::parse(&b).ok()).unwrap_or(J::Null)),
        ["determinism", prop, n] => determinism(&c, prop, num(n)),
        ["worker", prop, w, of, n, secs, dir, stop] => worker(&c, prop, num(w), num(of), num(n), num(secs), dir, *stop == "1"),
        _ => {
            eprintln!("usage: libsim check PROP | replay FILE | explore PROP N | show PROP I | determinism PROP N");
            2
        }
    };
    let _ = std::fs::remove_dir_all(&c.scratch);
    std::process::exit(code);
}

#[allow(clippy::too_many_arguments)]
fn worker(c: &Conf, prop: &str, w: u64, of: u64, n: u64, secs: u64, dir: &str, stop: bool) -> i32 {
    let end = Instant::now() + Duration::from_secs(secs);
    let mut t = Total::default();
    let stop_file = format!("{dir}/stop");
    let mut i = w;
    while i < n && Instant::now() < end {
        if stop {
            if let Ok(x) = std::fs::read_to_string(&stop_file) {
                if x.trim().split('\n').filter_map(|x| x.parse::<u64>().ok()).any(|x| x < i) {
                    break;
                }
            }
        }
        let case = case_of(c, prop, i);
        let began = Instant::now();
        let v = judge(&case);
        if began.elapsed().as_secs_f64() > 2.0 && std::env::var("SIM_SLOW").is_ok() {
            eprintln!("slow case {i}: {:.1} s", began.elapsed().as_secs_f64());
        }
        t.cases += 1;
        t.runs += v.runs;
        t.steps += v.steps;
        t.waits += v.waits;
        let text = json::text(&case);
        let mut d = mix(hash(text.as_bytes()) ^ v.hash ^ mix(v.steps) ^ mix(i));
        for x in &v.violations {
            d = mix(d ^ hash(x.0.as_bytes()) ^ hash(x.1.as_bytes()));
        }
        t.digest = t.digest.wrapping_add(d);
        for (k, x) in &v.fired {
            *t.fired.entry(k.clone()).or_default() += x;
        }
        for (k, x) in &v.probes {
            *t.probes.entry(k.clone()).or_default() += x;
        }
        if v.hash != 0 {
            t.schedules.insert(mix(v.hash));
        }
        if v.nontrivial {
            t.nontrivial += 1;
            t.distinct.insert(mix(hash(text.as_bytes()) ^ v.hash));
            if t.samples.is_empty() && text.len() < 3000 {
                t.samples.push(case.clone());
            }
        }
        if let Some(e) = v.error {
            t.error = Some(format!("case {i}: {e}"));
            break;
        }
        for x in &v.violations {
            let e = t.found.entry(x.0.clone()).or_default();
            e.0 += 1;
            if e.1.len() < 6 {
                e.1.push((i, x.1.clone()));
            }
        }
        if !v.violations.is_empty() && stop {
            use std::io::Write;
            if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(&stop_file) {
                let _ = f.write_all(format!("{i}\n").as_bytes());
            }
            break;
        }
        i += of;
    }
    match std::fs::write(format!("{dir}/{w}.json"), json::text(&t.write())) {
        Ok(()) => 0,
        Err(_) => 2,
    }
}

/// Runs cases `0..n` in worker processes.
fn sweep(c: &Conf, prop: &str, n: u64, secs: u64, stop: bool) -> Result<Total, String> {
    let dir = format!("{}/{prop}", c.scratch);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let me = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut ps = vec![];
    for w in 0..c.workers {
        let p = std::process::Command::new(&me)
            .args(["worker", prop, &w.to_string(), &c.workers.to_string(), &n.to_string(), &secs.to_string(), &dir, if stop { "1" } else { "0" }])
            .env("VERIF_SEED", c.seed.to_string())
            .spawn()
            .map_err(|e| e.to_string())?;
        ps.push(p);
    }
    for p in &mut ps {
        p.wait().map_err(|e| e.to_string())?;
    }
    let mut t = Total::default();
    for w in 0..c.workers {
        let b = std::fs::read(format!("{dir}/{w}.json")).map_err(|_| format!("worker {w} died"))?;
        let j = json::parse(&b).map_err(|_| "bad worker report")?;
        t.add(&j).ok_or("bad worker report")?;
    }
    match t.error.take() {
        Some(e) => Err(e),
        None => Ok(t),
    }
}

fn check(c: &Conf, prop: &str) -> i32 {
    let start = Instant::now();
    let n = cases_of(prop, &c.tier);
    let cap = if c.tier == "thorough" { 3 * 3600 } else { 420 };
    println!("libsim: property {prop}, seed {}, {n} cases, tier {}, {} workers", c.seed, c.tier, c.workers);
    let t = match sweep(c, prop, n, cap, true) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("libsim: harness error: {e}");
            return 2;
        }
    };
    let mut code = 0;
    let first = t.found.iter().flat_map(|(k, (_, v))| v.iter().map(move |(i, d)| (*i, k.clone(), d.clone()))).min();
    if let Some((i, class, detail)) = first {
        match report(c, prop, i, &class, &detail) {
            Ok(path) => {
                println!("VIOLATION property={prop} replay={path}");
                code = 1;
            }
            Err(e) => {
                eprintln!("libsim: harness error: {e}");
                return 2;
            }
        }
    }
    let wall = start.elapsed().as_secs_f64();
    if let Err(e) = evidence(c, prop, &t, wall, code) {
        eprintln!("libsim: cannot write the evidence: {e}");
        return 2;
    }
    println!(
        "libsim: {} cases, {} simulated runs, {} distinct non-trivial, {} distinct schedules, {} steps, {wall:.1} s, digest {:016x}",
        t.cases,
        t.runs,
        t.distinct.len(),
        t.schedules.len(),
        t.steps,
        t.digest
    );
    code
}

fn has(case: &J, class: &str) -> Option<String> {
    judge(case).violations.into_iter().find(|v| v.0 == class).map(|v| v.1)
}

fn with_switches(case: &J) -> J {
    let v = judge(case);
    let (J::Obj(o), Some(sw)) = (case, v.switches) else { return case.clone() };
    let o = o
        .iter()
        .map(|(k, x)| {
            if k != "plan" {
                return (k.clone(), x.clone());
            }
            let first = x.get("first").cloned().unwrap_or(child::n(0));
            (k.clone(), child::obj(vec![("first", first), ("switches", sw.clone())]))
        })
        .collect();
    J::Obj(o)
}

fn minimise(case: &J, class: &str, secs: u64) -> (J, u64) {
    let end = Instant::now() + Duration::from_secs(secs);
    let mut best = case.clone();
    let mut tries = 0;
    // First fix the schedule, so that the rest is minimised under it.
    let fixed = with_switches(&best);
    if fixed != best && has(&fixed, class).is_some() {
        best = fixed;
    }
    // Passes over the tree, removing ever smaller runs of elements, until a pass changes nothing.
    loop {
        let before = best.clone();
        let mut try_it = |best: &mut J, c: Option<J>| -> bool {
            let Some(c) = c else { return false };
            if Instant::now() > end || c == *best {
                return false;
            }
            tries += 1;
            let ok = has(&c, class).is_some();
            if ok {
                *best = c;
            }
            ok
        };
        let mut done: Vec<Vec<usize>> = vec![];
        while let Some(path) = paths(&best).into_iter().find(|p| !done.contains(p)) {
            if Instant::now() > end {
                break;
            }
            done.push(path.clone());
            let mut k = width(&best, &path);
            while k >= 1 {
                let mut i = 0;
                while i < width(&best, &path) {
                    let c = edit(&best, &path, &mut |j| remove(j, i, k));
                    if !try_it(&mut best, c) {
                        i += k;
                    }
                }
                k /= 2;
            }
        }
        for path in leaves(&best) {
            let c = edit(&best, &path, &mut |j| sim::mini::shrink_json(j).into_iter().next());
            try_it(&mut best, c);
            if Instant::now() > end {
                break;
            }
        }
        if best == before || Instant::now() > end {
            break;
        }
    }
    (best, tries)
}

fn kids(j: &J) -> Vec<&J> {
    match j {
        J::Arr(a) => a.iter().collect(),
        J::Obj(o) => o.iter().map(|x| &x.1).collect(),
        _ => vec![],
    }
}

/// The inner nodes, breadth first, leaving out those with a single scalar in them.
fn paths(j: &J) -> Vec<Vec<usize>> {
    let mut out = vec![];
    let mut todo = std::collections::VecDeque::from([(vec![], j)]);
    while let Some((p, j)) = todo.pop_front() {
        let k = kids(j);
        // Pairs of numbers are the switches of a schedule.
        if !k.is_empty() && !(k.len() == 2 && k.iter().all(|x| matches!(x, J::Num(_)))) {
            for (i, x) in k.into_iter().enumerate() {
                todo.push_back((p.iter().copied().chain([i]).collect(), x));
            }
            out.push(p);
        }
    }
    out
}

fn leaves(j: &J) -> Vec<Vec<usize>> {
    let mut out = vec![];
    let mut todo = vec![(vec![], j)];
    while let Some((p, j)) = todo.pop() {
        let k = kids(j);
        if k.is_empty() && matches!(j, J::Str(_) | J::Num(_)) {
            out.push(p.clone());
        }
        for (i, x) in k.into_iter().enumerate() {
            todo.push((p.iter().copied().chain([i]).collect(), x));
        }
    }
    out
}

fn width(j: &J, path: &[usize]) -> usize {
    match path.split_first() {
        None => kids(j).len(),
        Some((i, rest)) => kids(j).get(*i).map_or(0, |x| width(x, rest)),
    }
}

fn remove(j: &J, i: usize, k: usize) -> Option<J> {
    fn cut<T: Clone>(a: &[T], i: usize, k: usize) -> Vec<T> {
        a[..i].iter().chain(&a[(i + k).min(a.len())..]).cloned().collect()
    }
    match j {
        J::Arr(a) if i < a.len() => Some(J::Arr(cut(a, i, k))),
        J::Obj(o) if i < o.len() => Some(J::Obj(cut(o, i, k))),
        _ => None,
    }
}

fn edit(j: &J, path: &[usize], f: &mut dyn FnMut(&J) -> Option<J>) -> Option<J> {
    let Some((i, rest)) = path.split_first() else { return f(j) };
    let mut j = j.clone();
    let x = match &mut j {
        J::Arr(a) => a.get_mut(*i)?,
        J::Obj(o) => &mut o.get_mut(*i)?.1,
        _ => return None,
    };
    *x = edit(x, rest, f)?;
    Some(j)
}

fn report(c: &Conf, prop: &str, i: u64, class: &str, detail: &str) -> Result<String, String> {
    println!("libsim: case {i} violates {prop}: [{class}] {detail}");
    let case = case_of(c, prop, i);
    if has(&case, class).is_none() {
        return Err(format!("case {i} of {prop} does not repeat: the simulation is not deterministic"));
    }
    let (small, tries) = minimise(&case, class, if c.tier == "thorough" { 120 } else { 60 });
    let detail = has(&small, class).ok_or("the minimised case does not repeat")?;
    println!("libsim: minimised in {tries} tries: [{class}] {detail}");
    let j = child::obj(vec![
        ("property", s(prop)),
        ("class", s(class)),
        ("detail", s(&detail)),
        ("seed", child::n(c.seed)),
        ("case_index", child::n(i)),
        ("case", small),
    ]);
    let dir = format!("{}/replays", c.verif);
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let path = format!("{dir}/{prop}-lib-{}-{i}.json", c.seed);
    std::fs::write(&path, json::text(&j)).map_err(|e| e.to_string())?;
    Ok(path)
}

fn replay(file: &str) -> i32 {
    let Some(j) = std::fs::read(file).ok().and_then(|b| json::parse(&b).ok()) else {
        eprintln!("libsim: not a replay file");
        return 2;
    };
    let (Some(prop), Some(class), Some(case)) = (j.get("property").and_then(J::str), j.get("class").and_then(J::str), j.get("case")) else {
        eprintln!("libsim: not a replay file");
        return 2;
    };
    let v = judge(case);
    if let Some(e) = v.error {
        eprintln!("libsim: {e}");
        return 2;
    }
    for x in &v.violations {
        println!("libsim: [{}] {}", x.0, x.1);
    }
    if v.violations.iter().any(|x| x.0 == class) {
        println!("VIOLATION property={prop} replay={file}");
        1
    } else {
        println!("libsim: the violation does not occur");
        0
    }
}

fn print(t: &Total, wall: f64) {
    for (k, (n, v)) in &t.found {
        println!("== {k}: {n}");
        for (i, d) in v {
            println!("   case {i}: {d}");
        }
    }
    println!("{} cases, {} runs, {} nontrivial, {} schedules, {} steps, {} waits, {wall:.1} s", t.cases, t.runs, t.distinct.len(), t.schedules.len(), t.steps, t.waits);
    println!("probes {:?}", t.probes);
    println!("fired {:?}", t.fired);
    println!("digest {:016x}", t.digest);
}

fn explore(c: &Conf, prop: &str, n: u64) -> i32 {
    let start = Instant::now();
    match sweep(c, prop, n, 36_000, false) {
        Ok(t) => {
            print(&t, start.elapsed().as_secs_f64());
            0
        }
        Err(e) => {
            eprintln!("libsim: {e}");
            2
        }
    }
}

fn show_case(case: &J) -> i32 {
    let case = case.get("case").unwrap_or(case);
    println!("{}", json::text(case));
    let v = judge(case);
    println!("steps {} waits {} runs {} nontrivial {} probes {:?} fired {:?} error {:?}", v.steps, v.waits, v.runs, v.nontrivial, v.probes, v.fired, v.error);
    for x in &v.violations {
        println!("[{}] {}", x.0, x.1);
    }
    if let Some(x) = v.violations.first() {
        let (small, _) = minimise(case, &x.0, 30);
        println!("minimised: {}", json::text(&small));
        println!("   [{}] {}", x.0, has(&small, &x.0).unwrap_or_default());
    }
    0
}

fn show(c: &Conf, prop: &str, i: u64) -> i32 {
    show_case(&case_of(c, prop, i))
}

/// The same cases with different numbers of workers.
fn determinism(c: &Conf, prop: &str, n: u64) -> i32 {
    let mut ds = vec![];
    for w in [1, c.workers, 3, c.workers * 2] {
        let k = Conf { workers: w, verif: c.verif.clone(), scratch: format!("{}/d{w}", c.scratch), tier: c.tier.clone(), seed: c.seed };
        match sweep(&k, prop, n, 36_000, false) {
            Ok(t) => {
                println!("{prop}: {} cases, {w} workers: digest {:016x}", t.cases, t.digest);
                ds.push(t.digest);
            }
            Err(e) => {
                eprintln!("libsim: {e}");
                return 2;
            }
        }
    }
    if ds.windows(2).all(|w| w[0] == w[1]) {
        0
    } else {
        println!("libsim: runs differ");
        1
    }
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C10" => "A case is a set of threads, their library calls, the shared registries and datasets, and a seeded schedule. It is non-trivial when control moved between threads at least as often as there are threads; two cases are distinct when their inputs or their schedules differ.",
        "C11" => "A case is a history of calls on one dataset and interpretation, with injected failures of the caller's components. It is non-trivial when some call that computed statements failed, or some call's effects were compared with the reference; two cases are distinct when their texts differ.",
        "C12" => "A case is a set of threads whose calls draw names from one source, and a seeded schedule. It is non-trivial when a drawn name was seen in an output; two cases are distinct when their inputs or their schedules differ.",
        "C15" => "A case is a history of operations on one dataset through derived types and through the equivalent layouts. It is non-trivial when a value was found on at least one side; two cases are distinct when their texts differ.",
        "C16" => "A case is a history of additions to layout builders and of lookups through combined registries, with failing sources of names. It is non-trivial when some addition was made to a non-empty builder; two cases are distinct when their texts differ.",
        "C19" => "A case is a history of reads, in orders of the simulator's choice, of one dataset whose resources have several names, with failing components. It is non-trivial when some read gave a value; two cases are distinct when their texts differ.",
        _ => "",
    }
}

fn evidence(c: &Conf, prop: &str, t: &Total, wall: f64, violations: i32) -> Result<(), String> {
    use child::n;
    let per_hour = |x: u64| n((x as f64 / wall.max(0.001) * 3600.0) as u64);
    let mut samples = t.samples.clone();
    samples.truncate(3);
    let coverage = vec![
        ("evaluations", n(t.cases)),
        ("distinct_nontrivial", n(t.distinct.len() as u64)),
        ("rule", s(rule(prop))),
        ("samples", J::Arr(samples)),
        ("simulated_runs", n(t.runs)),
        ("runs_per_hour", per_hour(t.runs)),
        ("seeds_per_hour", per_hour(t.cases)),
        ("simulated_steps", n(t.steps)),
        ("simulated_time_ns", n(t.steps * 1000)),
        ("lock_waits", n(t.waits)),
        ("faults_fired", counts(&t.fired)),
        ("distinct_schedules", n(t.schedules.len() as u64)),
        ("distinct_schedules_measure", s(if matches!(prop, "C10" | "C12") { "hash of the sequence of (step, thread) at which control moved" } else { "hash of the outcomes of the operations, the final size of the store and the number of simulated steps" })),
        ("probes", counts(&t.probes)),
        ("real_components", J::Arr(vec![s("treeldr-layouts, treeldr (and its derive macros) and rdf-types, compiled from the working tree with a scheduling point at each basic block, each allocation, each lock wait and each call to a caller's component")])),
        ("stub_components", J::Arr(vec![s("the caller's registry, vocabulary, interpretation, dataset and name source (libsim/src/parts.rs); threads, locks, time and randomness (libsim/sched)")])),
        ("event_digest", s(&format!("{:016x}", t.digest))),
    ];
    let path = format!("{}/evidence/{prop}.json", c.verif);
    let extra = std::env::var("SIM_ADD").is_ok();
    let j = match std::fs::read(&path).ok().and_then(|b| json::parse(&b).ok()) {
        // The command line part of the same check came first.
        Some(J::Obj(mut o)) if extra => {
            for e in &mut o {
                if e.0 == "coverage" {
                    if let J::Obj(cov) = &mut e.1 {
                        let add = |cov: &mut Vec<(String, J)>, k: &str, x: u64| {
                            if let Some(e) = cov.iter_mut().find(|e| e.0 == k) {
                                e.1 = n(e.1.int().unwrap_or(0) as u64 + x);
                            }
                        };
                        add(cov, "evaluations", t.cases);
                        add(cov, "distinct_nontrivial", t.distinct.len() as u64);
                        add(cov, "simulated_runs", t.runs);
                        cov.push(("library_part".into(), child::obj(coverage.clone())));
                    }
                }
                if e.0 == "violations" {
                    e.1 = n(e.1.int().unwrap_or(0) as u64 + violations as u64);
                }
                if e.0 == "wall_s" {
                    if let J::Num(w) = &e.1 {
                        e.1 = J::Num(format!("{:.3}", w.parse::<f64>().unwrap_or(0.0) + wall));
                    }
                }
            }
            J::Obj(o)
        }
        _ => child::obj(vec![
            ("property", s(prop)),
            ("tier", s(&c.tier)),
            ("seed", n(c.seed)),
            ("level", s("exploration")),
            ("coverage", child::obj(coverage)),
            (
                "assumptions",
                J::Arr(vec![
                    s("the reference model in /verif/sim/src/refm.rs states the layout semantics; where it is not certain it abstains"),
                    s("sampling: a clean batch is evidence for the sampled cases, not a proof"),
                    s("one simulated thread runs at a time: reorderings of memory accesses by the processor are not simulated"),
                ]),
            ),
            ("wall_s", J::Num(format!("{wall:.3}"))),
            ("violations", n(violations as u64)),
        ]),
    };
    std::fs::create_dir_all(format!("{}/evidence", c.verif)).map_err(|e| e.to_string())?;
    std::fs::write(path, json::text(&j)).map_err(|e| e.to_string())
}
