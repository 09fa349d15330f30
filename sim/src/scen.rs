//! Scenarios: how a case is run and judged. Nothing here is random.

use crate::case::*;
use crate::json::{self, J};
use crate::nq;
use crate::os::*;
use crate::refm::{self, H, HV, V};
use crate::val::{self, Val};
use std::collections::{BTreeMap, BTreeSet};

pub struct Bins {
    pub tldr: String,
    pub gen: String,
}

/// What was observed while judging one case.
#[derive(Default, Clone)]
pub struct Seen {
    pub runs: u64,
    pub calls: u64,
    pub allocs: u64,
    pub sim_ns: u64,
    pub fired: BTreeMap<String, u64>,
    pub schedules: Vec<u64>,
    pub digest: u64,
    /// The oracle had something to say and the case exercised it.
    pub nontrivial: bool,
    pub probes: BTreeMap<String, u64>,
}

pub struct Lab<'a> {
    pub os: &'a mut Os,
    pub bins: &'a Bins,
    pub seen: Seen,
    /// A run met the circumstances of a known finding.
    pub known: Option<&'static str>,
    /// The findings listed for the property, in /verif/known_findings.txt.
    pub listed: &'a [String],
}

/// Known finding K2: in the indexed dataset of rdf-types 0.22.5, a resource first seen twice in
/// one statement is stored as two resources, so statements about it may not be found.
pub fn k2(cmd: &Cmd, stdin: &[u8]) -> bool {
    if !matches!(cmd.sub, Sub::Hydrate { .. }) {
        return false;
    }
    let Ok(quads) = nq::parse_seq(stdin) else { return false };
    let mut met = BTreeSet::new();
    for q in &quads {
        let terms: Vec<&nq::Term> = [&q.0, &q.1, &q.2].into_iter().chain(&q.3).collect();
        for (i, t) in terms.iter().enumerate() {
            if !met.contains(t) && terms[..i].contains(t) {
                return true;
            }
        }
        met.extend(terms);
    }
    false
}

/// Known finding K1: `{}` in a layout file has volume 0 in the code map of json-syntax 0.12.5, so
/// what follows it is looked up at the wrong offset, and reading the layout may panic.
pub fn k1(files: &[(String, Vec<u8>)], r: &Run) -> bool {
    fn empty(j: &J) -> bool {
        match j {
            J::Obj(o) => o.is_empty() || o.iter().any(|e| empty(&e.1)),
            J::Arr(a) => a.iter().any(empty),
            _ => false,
        }
    }
    let err = String::from_utf8_lossy(&r.err);
    r.end == End::Exit(101)
        && err.contains("panicked at")
        && (err.contains("json-syntax") || err.contains("abs/syntax"))
        && files.iter().any(|f| json::parse(&f.1).is_ok_and(|j| empty(&j)))
}

pub type Violation = (String, String);

/// Whether a run ended by itself, but not in an orderly way.
pub fn crash(r: &Run) -> bool {
    let panicked = r.err.windows(b"panicked at".len()).any(|w| w == b"panicked at");
    matches!(r.end, End::Exit(101)) && panicked || matches!(r.end, End::Signal(_))
}

/// Levels of nesting of a text, and its number of lines: an upper bound of the depth of what it says.
pub fn depth(b: &[u8]) -> usize {
    let (mut d, mut max, mut lines) = (0usize, 0, 0);
    for c in b {
        match c {
            b'[' | b'{' => {
                d += 1;
                max = max.max(d)
            }
            b']' | b'}' => d = d.saturating_sub(1),
            b'\n' => lines += 1,
            _ => (),
        }
    }
    max.max(lines)
}

/// Known finding K3: values are read, built and written by recursive functions, which overflow the
/// stack on a nesting of several thousand levels.
pub fn k3(files: &[(String, Vec<u8>)], stdin: &[u8], r: &Run) -> bool {
    matches!(r.end, End::Signal(_)) && String::from_utf8_lossy(&r.err).contains("has overflowed its stack") && (depth(stdin) > 1000 || files.iter().any(|f| depth(&f.1) > 1000))
}

/// Known finding K4: unions and intersections of layouts can be written but are not implemented.
pub fn k4(files: &[(String, Vec<u8>)], r: &Run) -> bool {
    fn says(j: &J) -> bool {
        match j {
            J::Str(t) => t == "union" || t == "intersection",
            J::Arr(a) => a.iter().any(says),
            J::Obj(o) => o.iter().any(|e| says(&e.1)),
            _ => false,
        }
    }
    matches!(r.end, End::Exit(101)) && r.err.windows(15).any(|x| x == b"not implemented") && files.iter().any(|f| json::parse(&f.1).is_ok_and(|j| says(&j)))
}

const LOST: &[&str] = &["refused", "producer-failed", "consumer-failed", "second-dehydration", "crash", "accepted", "wrong-output", "round-trip", "order-matters"];

pub const EINTR: u16 = 4;

fn errname(e: u16) -> String {
    match e {
        4 => "EINTR".into(),
        5 => "EIO".into(),
        28 => "ENOSPC".into(),
        32 => "EPIPE".into(),
        11 => "EAGAIN".into(),
        13 => "EACCES".into(),
        2 => "ENOENT".into(),
        24 => "EMFILE".into(),
        122 => "EDQUOT".into(),
        21 => "EISDIR".into(),
        27 => "EFBIG".into(),
        e => format!("errno{e}"),
    }
}

pub struct Hits {
    pub hard_read: bool,
    pub hard_write: bool,
    pub hard_err: bool,
}

pub fn hits(r: &Run) -> Hits {
    let mut h = Hits { hard_read: false, hard_write: false, hard_err: false };
    for t in &r.trace {
        let e = t.err != 0 && t.err != EINTR;
        match (t.what, t.stream) {
            (b'r' | b'f' | b'o', _) => h.hard_read |= e,
            (b'w', 1) => h.hard_write |= e || (t.res == 0 && t.req > 0),
            (b'w', 2) => h.hard_err |= e || (t.res == 0 && t.req > 0),
            _ => (),
        }
    }
    h
}

impl Lab<'_> {
    pub fn run(&mut self, case: &Case, cmd: &Cmd, stdin: &[u8], plan: &Plan) -> Result<Run, String> {
        let bin = if cmd.is_gen() { &self.bins.gen } else { &self.bins.tldr };
        self.run_budget(bin, case, cmd, stdin, plan, &Budget::default())
    }
    pub fn run_budget(&mut self, bin: &str, case: &Case, cmd: &Cmd, stdin: &[u8], plan: &Plan, b: &Budget) -> Result<Run, String> {
        let r = self.os.run(bin, &cmd.args(&case.files), &case.files, stdin, plan, b)?;
        if k1(&case.files, &r) {
            self.known = Some("K1");
        } else if k3(&case.files, stdin, &r) {
            self.known = Some("K3");
        } else if k4(&case.files, &r) {
            self.known = Some("K4");
        } else if k2(cmd, stdin) {
            self.known = Some("K2");
        }
        let s = &mut self.seen;
        s.runs += 1;
        s.calls += r.calls;
        s.allocs += r.allocs;
        s.sim_ns += r.clock_ns;
        s.digest = crate::rng::mix(s.digest ^ r.digest());
        s.schedules.push(r.schedule());
        let mut fire = |k: String| *s.fired.entry(k).or_default() += 1;
        for t in &r.trace {
            let n = match (t.what, t.stream) {
                (b'r', _) => "read stdin",
                (b'f', _) => "read file",
                (b'o', _) => "open file",
                (b'w', 1) => "write stdout",
                (b'w', _) => "write stderr",
                (b'K', _) => {
                    fire("crash".into());
                    continue;
                }
                _ => continue,
            };
            if t.err != 0 {
                fire(format!("{n}: {}", errname(t.err)));
            } else if t.what != b'o' && t.res >= 0 && (t.res as u64) < t.req as u64 {
                if t.res == 0 {
                    if t.what == b'w' {
                        fire(format!("{n}: zero"));
                    }
                } else if t.what == b'w' || plan_slices(plan) {
                    fire(format!("{n}: partial"));
                }
            }
        }
        if r.alloc_failed {
            fire("allocation failure".into());
        }
        if r.rand_calls > 0 {
            fire("hash seed chosen".into());
        }
        if r.clock_calls > 0 {
            fire("clock read".into());
        }
        Ok(r)
    }
    fn probe(&mut self, k: &str) {
        *self.seen.probes.entry(k.to_string()).or_default() += 1;
    }

    /// All violations of a case.
    pub fn judge(&mut self, c: &Case) -> Result<Vec<Violation>, String> {
        self.known = None;
        let mut v = self.scenario(c)?;
        if c.stdin.len() > 4000 && v.iter().any(|v| v.0 == "no-end") {
            // Quadratic work on a large input is not an endless run; C14 bounds the work.
            v.retain(|v| v.0 != "no-end");
            self.probe("large input, stopped");
        }
        if let Some(k) = self.known.filter(|k| self.listed.iter().any(|l| l == k)) {
            let lost = match k {
                "K1" => &LOST[..5],
                "K3" | "K4" => &LOST[4..5],
                _ => &LOST[..],
            };
            if v.iter().any(|v| lost.contains(&v.0.as_str())) {
                v.retain(|v| !lost.contains(&v.0.as_str()));
                self.probe(&format!("known finding {k}"));
            }
        }
        Ok(v)
    }
    fn scenario(&mut self, c: &Case) -> Result<Vec<Violation>, String> {
        match c.kind.as_str() {
            "sem" => self.sem(c),
            "fault" => self.fault(c),
            "vary" => self.vary(c),
            "pipe" => self.pipe(c),
            "formats" => self.formats(c),
            "bound" => self.bound(c),
            "names" => self.names(c),
            k => Err(format!("unknown scenario {k}")),
        }
    }

    fn probe_exp(&mut self, e: &Exp) {
        if let Exp::Item(t) = e {
            let k = t.split(' ').nth(2).unwrap_or("").trim_end().to_string();
            self.probe(&format!("item: {k}"));
        }
        self.probe(match e {
            Exp::Refused => "expected: refusal",
            Exp::Unsure => "expected: unsaid",
            Exp::Nothing => "expected: nothing",
            Exp::Tree(..) | Exp::Val(..) => "expected: value",
            Exp::Data(_) => "expected: dataset",
            Exp::Item(_) => "expected: item",
        });
    }

    /// One run against the reference model.
    fn sem(&mut self, c: &Case) -> Result<Vec<Violation>, String> {
        let e = expect(&c.files, &c.cmd, &c.stdin);
        self.probe_exp(&e);
        if let Exp::Unsure = e {
            return Ok(vec![]);
        }
        let r = self.run(c, &c.cmd, &c.stdin, &c.plan)?;
        self.seen.nontrivial = true;
        Ok(compare(&e, &r, c.cmd.sub == Sub::ConvRdf).into_iter().collect())
    }

    /// A run with faults against the same run without.
    fn fault(&mut self, c: &Case) -> Result<Vec<Violation>, String> {
        let calm = Plan { stdin: Stream::default(), stdout: Stream::default(), stderr: Stream::default(), files: vec![], alloc_fail: None, crash_call: None, ..c.plan.clone() };
        let base = self.run(c, &c.cmd, &c.stdin, &calm)?;
        let r = self.run(c, &c.cmd, &c.stdin, &c.plan)?;
        let mut v = vec![];
        let mut bad = |k: &str, d: String| v.push((k.to_string(), d));
        if let Some(m) = base.mutated.as_ref().or(r.mutated.as_ref()) {
            bad("mutation", format!("tried to change a file: {m}"));
        }
        if base.stopped() {
            return Ok(v);
        }
        if r.stopped() {
            bad("no-end", "the run under faults was stopped: over its budget of work".into());
            return Ok(v);
        }
        let h = hits(&r);
        let show = |r: &Run| format!("{:?}, output {:?}, diagnostics {:?}", r.end, brief(&r.out), brief(&r.err));
        if h.hard_read {
            self.seen.nontrivial = true;
            if r.ok() {
                bad("read-error-ignored", format!("reading failed, but: {}", show(&r)));
            } else if !r.out.is_empty() {
                bad("output-of-refused", format!("reading failed, but there is output: {}", show(&r)));
            }
        }
        if h.hard_write {
            self.seen.nontrivial = true;
            if r.ok() {
                bad("write-error-ignored", format!("the output was refused, but: {}", show(&r)));
            }
        }
        if r.ok() && (!base.ok() || r.out != base.out) {
            bad("success-differs", format!("without faults: {}; with: {}", show(&base), show(&r)));
        }
        if !base.out.starts_with(&r.out) {
            bad("not-a-prefix", format!("without faults: {}; with: {}", show(&base), show(&r)));
        }
        if !h.hard_read && !h.hard_write && !r.crashed && !r.alloc_failed {
            // Only interruptions and slicing (or faults on the diagnostics).
            if hits_any(&r) {
                self.seen.nontrivial = true;
            }
            let same_end = r.end == base.end || (h.hard_err && !base.ok() && !r.ok());
            if !same_end || r.out != base.out || (!h.hard_err && r.err != base.err) {
                bad("interruption-changes-run", format!("uninterrupted: {}; interrupted: {}", show(&base), show(&r)));
            }
        }
        if r.crashed || r.alloc_failed {
            self.seen.nontrivial = true;
        }
        if let (End::Exit(e), false) = (r.end, h.hard_err) {
            if e != 0 && r.err.is_empty() {
                bad("silent-failure", format!("failed without saying why: {}", show(&r)));
            }
        }
        if !base.ok() {
            self.probe("baseline refused");
            self.seen.nontrivial = true;
            if !base.out.is_empty() {
                bad("output-of-refused", format!("refused without any fault, but there is output: {}", show(&base)));
            }
            if base.err.is_empty() {
                bad("silent-failure", format!("failed without saying why: {}", show(&base)));
            }
        } else {
            self.probe("baseline accepted");
        }
        Ok(v)
    }

    /// The same command under other circumstances.
    fn vary(&mut self, c: &Case) -> Result<Vec<Violation>, String> {
        let a = self.run(c, &c.cmd, &c.stdin, &c.plan)?;
        let mut v = vec![];
        if a.stopped() {
            return Ok(v);
        }
        let b = self.run(c, &c.cmd, &c.stdin, &c.plan2)?;
        self.seen.nontrivial = !a.out.is_empty() || !a.ok();
        self.probe(if a.ok() { "accepted" } else { "refused" });
        let show = |r: &Run| format!("{:?}, output {:?}, diagnostics {:?}", r.end, brief(&r.out), brief(&r.err));
        if a.end != b.end || a.out != b.out {
            v.push(("runs-differ".to_string(), format!("first: {}; second: {}", show(&a), show(&b))));
        } else if a.err != b.err {
            v.push(("diagnostics-differ".to_string(), format!("first: {}; second: {}", show(&a), show(&b))));
        }
        let same_statements = |s: &[u8]| matches!((nq::parse(&c.stdin), nq::parse(s)), (Ok(x), Ok(y)) if x == y);
        if let Some(s) = c.stdin2.as_ref().filter(|s| same_statements(s)) {
            // Same statements, another order.
            let b = self.run(c, &c.cmd, s, &c.plan2)?;
            self.probe("statements reordered");
            let mut same = a.ok() == b.ok();
            if same && a.ok() {
                same = match expect(&c.files, &c.cmd, &c.stdin) {
                    Exp::Tree(h, false) => match (val::parse_json(&a.out), val::parse_json(&b.out)) {
                        (Ok(x), Ok(y)) => x == y || h.equals(&x) == h.equals(&y),
                        _ => a.out == b.out,
                    },
                    _ => match (tree_in(&a.out, hy_cbor(&c.cmd)), tree_in(&b.out, hy_cbor(&c.cmd))) {
                        (Ok(x), Ok(y)) => unordered(&x) == unordered(&y),
                        _ => a.out == b.out,
                    },
                };
            }
            if !same {
                v.push(("order-matters".to_string(), format!("first: {}; reordered: {}", show(&a), show(&b))));
            }
        }
        Ok(v)
    }

    /// dehydrate | hydrate | dehydrate
    fn pipe(&mut self, c: &Case) -> Result<Vec<Violation>, String> {
        let layout = match &c.cmd.sub {
            Sub::Dehydrate { layout, .. } => layout.clone(),
            _ => return Err("pipe: not a dehydration".into()),
        };
        let cbor_in = matches!(c.cmd.sub, Sub::Dehydrate { cbor: true, .. });
        // What the reference says of the round trip.
        let reference = (|| -> Result<(Val, nq::Data, Vec<nq::Term>, H), V> {
            let (l, ids) = load(&c.files, &c.cmd)?;
            let id = designated(&layout, &ids)?;
            let v = tree_in(&c.stdin, cbor_in)?;
            let (d, inputs) = refm::dehydrate(&l, &id, &v)?;
            let h = refm::hydrate(&l, &id, &d, &inputs)?;
            Ok((v, d, inputs, h))
        })();
        let (v, d, inputs, h) = match reference {
            Ok(x) => x,
            Err(V::No) => {
                self.probe("not a round trip");
                return Ok(vec![]);
            }
            Err(V::Unsure) => {
                self.probe("unsaid");
                return Ok(vec![]);
            }
        };
        let faithful = same_up_to_sets(&h, &v);
        let mut out = vec![];
        let p1 = self.run(c, &c.cmd, &c.stdin, &c.plan)?;
        let calm = Plan { stdin: Stream::default(), stdout: Stream::default(), stderr: Stream::default(), files: vec![], alloc_fail: None, crash_call: None, ..c.plan.clone() };
        if !p1.ok() {
            let h1 = hits(&p1);
            if !h1.hard_read && !h1.hard_write && !p1.crashed && !p1.alloc_failed {
                out.push(("producer-failed".to_string(), format!("dehydration failed with {:?}: {}", p1.end, brief(&p1.err))));
                return Ok(out);
            }
            // The consumer sees a prefix of the whole output.
            let whole = self.run(c, &c.cmd, &c.stdin, &calm)?;
            self.probe("producer stopped part way");
            if !whole.ok() {
                out.push(("producer-failed".to_string(), format!("dehydration failed with {:?}: {}", whole.end, brief(&whole.err))));
            } else if !whole.out.starts_with(&p1.out) {
                out.push(("not-a-prefix".to_string(), format!("stopped producer wrote {:?}, whole output is {:?}", brief(&p1.out), brief(&whole.out))));
            }
            self.seen.nontrivial = true;
            return Ok(out);
        }
        let subjects: Vec<String> = inputs
            .iter()
            .map(|t| match t {
                nq::Term::Iri(i) => i.clone(),
                nq::Term::Blank(b) => format!("_:{b}"),
                _ => String::new(),
            })
            .collect();
        if inputs.iter().any(|t| matches!(t, nq::Term::Lit(..))) {
            self.probe("literal subject");
            return Ok(out);
        }
        // JSON has no byte strings.
        let cbor = c.n & 1 == 1 || val::to_json(&h.plain()).is_none();
        let hy = Cmd { sub: Sub::Hydrate { layout: layout.clone(), subjects, cbor, pretty: c.n & 2 == 2 }, ..c.cmd.clone() };
        let mut stdin = p1.out.clone();
        if c.n & 4 == 4 {
            // The pipe breaks: the consumer is given a prefix.
            let cut = (c.n >> 8) as usize % (stdin.len() + 1);
            stdin.truncate(cut);
        }
        if stdin.len() > 900_000 {
            self.probe("dataset too large");
            return Ok(out);
        }
        let p2 = self.run(c, &hy, &stdin, &c.plan2)?;
        let h2 = hits(&p2);
        if p2.stopped() && stdin.len() > 4000 {
            self.probe("large input, stopped");
            return Ok(out);
        }
        if p2.stopped() {
            out.push(("no-end".to_string(), "hydration was stopped".to_string()));
            return Ok(out);
        }
        let broken = h2.hard_read || h2.hard_write || p2.crashed || p2.alloc_failed;
        if stdin.len() < p1.out.len() {
            // What it does is decided by the bytes it was given.
            self.probe("pipe cut");
            self.seen.nontrivial = true;
            if !broken {
                let e = expect(&c.files, &hy, &stdin);
                out.extend(compare(&e, &p2, false));
            }
            return Ok(out);
        }
        if !p2.ok() {
            self.seen.nontrivial = true;
            if !broken {
                out.push(("consumer-failed".to_string(), format!("hydration of the written dataset failed with {:?}: {}", p2.end, brief(&p2.err))));
            } else {
                self.probe("consumer failed");
            }
            return Ok(out);
        }
        if cbor {
            self.seen.nontrivial = true;
            if !h.unknown_tags() {
                match val::parse_cbor(&p2.out) {
                    Ok(x) if h.equals_cbor(&x) => self.probe("same value back"),
                    _ => out.push(("round-trip".to_string(), format!("value {} came back as CBOR {:?}", show_val(&v), brief(&p2.out)))),
                }
            }
            return Ok(out);
        }
        let back = match tree_in(&p2.out, false) {
            Ok(b) => b,
            Err(V::Unsure) => {
                self.probe("numbers beyond the format");
                return Ok(out);
            }
            Err(V::No) => {
                out.push(("wrong-output".to_string(), format!("hydration wrote {:?}", brief(&p2.out))));
                return Ok(out);
            }
        };
        if !h.equals(&back) {
            out.push(("round-trip".to_string(), format!("value {} came back as {:?}", show_val(&v), brief(&p2.out))));
            return Ok(out);
        }
        self.probe(if faithful { "same value back" } else { "canonical value back" });
        // Dehydrating again gives the same dataset.
        {
            let again = self.run(c, &Cmd { sub: Sub::Dehydrate { layout, cbor: false }, ..c.cmd.clone() }, &p2.out, &calm)?;
            self.seen.nontrivial = true;
            let d1 = nq::parse(&p1.out);
            let d2 = nq::parse(&again.out);
            match (d1, d2) {
                (Ok(a), Ok(b)) if again.ok() => {
                    if faithful && no_sets(&h) && !same_data(&a, &b, true) {
                        out.push(("second-dehydration".to_string(), format!("first dataset {:?}, second {:?}", brief(&p1.out), brief(&again.out))));
                    }
                    if !same_data(&a, &d, true) {
                        out.push(("wrong-output".to_string(), format!("dehydration wrote {:?}", brief(&p1.out))));
                    }
                }
                _ if faithful => out.push(("second-dehydration".to_string(), format!("the value that came back is refused: {:?} {}", again.end, brief(&again.err)))),
                _ => (),
            }
        }
        Ok(out)
    }

    /// A chain of conversions, or one hydration in both formats.
    fn formats(&mut self, c: &Case) -> Result<Vec<Violation>, String> {
        let mut out = self.sem(c)?;
        if !out.is_empty() {
            return Ok(out);
        }
        if let Some(c2) = &c.cmd2 {
            let a = self.run(c, &c.cmd, &c.stdin, &c.plan)?;
            if a.ok() {
                // Feed the output to the second command.
                let (e, stdin) = match (&c.cmd.sub, &c2.sub) {
                    (Sub::Hydrate { .. }, _) => (expect(&c.files, c2, &c.stdin), c.stdin.clone()),
                    _ => (expect(&c.files, c2, &a.out), a.out.clone()),
                };
                let b = self.run(c, c2, &stdin, &c.plan2)?;
                self.probe_exp(&e);
                out.extend(compare(&e, &b, c2.sub == Sub::ConvRdf));
            }
        }
        Ok(out)
    }

    /// Bounded work.
    fn bound(&mut self, c: &Case) -> Result<Vec<Violation>, String> {
        let mut v = vec![];
        let mut bad = |k: &str, d: String| v.push((k.to_string(), d));
        let size: u64 = c.stdin.len() as u64 + c.files.iter().map(|f| f.1.len() as u64).sum::<u64>() + 64;
        // Generous: real work is a few allocations per byte of input times the depth of matching.
        let allocs = 20_000 + 60 * size + if c.n > 0 { size * size.min(c.n) / 4 } else { 0 };
        let b = Budget { allocs: allocs.min(60_000_000), bytes: (64 << 20) + allocs * 512, calls: 2000 + 4 * size };
        let calm = Plan { stdin: Stream::default(), stdout: Stream::default(), stderr: Stream::default(), files: vec![], ..c.plan.clone() };
        let bin = if c.cmd.is_gen() { self.bins.gen.clone() } else { self.bins.tldr.clone() };
        let base = self.run_budget(&bin, c, &c.cmd, &c.stdin, &calm, &b)?;
        self.seen.nontrivial = true;
        if base.stopped() {
            bad("unbounded", format!("input of {size} bytes: {} allocations, {} bytes, {} calls, stopped by {}", base.allocs, base.alloc_bytes, base.calls, stop_name(&base)));
            return Ok(v);
        }
        if crash(&base) {
            bad("crash", format!("ended with {:?}: {}", base.end, brief(&base.err)));
            return Ok(v);
        }
        let cbor = matches!(c.cmd.sub, Sub::ConvTree { from_cbor: true, .. } | Sub::ConvTree { to_cbor: true, .. } | Sub::Hydrate { cbor: true, .. } | Sub::Dehydrate { cbor: true, .. });
        let deep = depth(&c.stdin) > if cbor { 100 } else { 1000 } || cbor && c.stdin.len() > 100 && c.stdin[..100].iter().all(|b| *b == c.stdin[0]) || c.files.iter().any(|f| depth(&f.1) > 1000);
        let e = if deep { Exp::Unsure } else { expect(&c.files, &c.cmd, &c.stdin) };
        if let Some((k, d)) = compare(&e, &base, c.cmd.sub == Sub::ConvRdf) {
            bad(&k, d);
        }
        // Sliced and interrupted: same result, work in proportion.
        let ops = (c.plan.stdin.ops.len() + c.plan.stdout.ops.len() + c.plan.stderr.ops.len() + c.plan.files.iter().map(|f| f.ops.len()).sum::<usize>()) as u64;
        let total = size + base.out.len() as u64 + base.err.len() as u64;
        let b2 = Budget { allocs: base.allocs * 2 + 1000 + total, bytes: base.alloc_bytes * 4 + (1 << 20) + total * 64, calls: base.calls + 2 * total + 2 * ops + 100 };
        let r = self.run_budget(&bin, c, &c.cmd, &c.stdin, &c.plan, &b2)?;
        let show = |r: &Run| format!("{:?}, output {:?}, diagnostics {:?}", r.end, brief(&r.out), brief(&r.err));
        if r.stopped() {
            bad(
                "work-grows",
                format!("whole streams: {} allocations, {} bytes, {} calls; sliced: {} allocations, {} bytes, {} calls, stopped by {}", base.allocs, base.alloc_bytes, base.calls, r.allocs, r.alloc_bytes, r.calls, stop_name(&r)),
            );
        } else if r.end != base.end || r.out != base.out || r.err != base.err {
            bad("slicing-changes-run", format!("whole: {}; sliced: {}", show(&base), show(&r)));
        }
        Ok(v)
    }

    /// Fresh names: judged on the dataset alone.
    fn names(&mut self, c: &Case) -> Result<Vec<Violation>, String> {
        let out = self.sem(c)?;
        Ok(out)
    }
}

fn plan_slices(p: &Plan) -> bool {
    p.stdin.chunk > 0 || !p.stdin.ops.is_empty() || p.files.iter().any(|f| f.chunk > 0 || !f.ops.is_empty())
}

fn hits_any(r: &Run) -> bool {
    r.trace.iter().any(|t| t.err != 0 || (t.what == b'w' && t.res < t.req as i64)) || r.trace.len() > 4
}

fn stop_name(r: &Run) -> &'static str {
    match r.over_budget {
        1 => "the allocation budget",
        2 => "the system call budget",
        3 => "the memory budget",
        4 => "the output limit",
        _ => "the watchdog",
    }
}

pub fn brief(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(&b[..b.len().min(300)]).into_owned();
    if b.len() > 300 {
        format!("{s}... ({} bytes)", b.len())
    } else {
        s
    }
}

fn show_val(v: &Val) -> String {
    val::to_json(v).map(|j: J| json::text(&j)).unwrap_or_else(|| format!("{v:?}"))
}

fn hy_cbor(c: &Cmd) -> bool {
    matches!(c.sub, Sub::Hydrate { cbor: true, .. })
}

/// A value with all its lists taken as multisets.
fn unordered(v: &Val) -> Val {
    match v {
        Val::List(l) => {
            let mut l: Vec<Val> = l.iter().map(unordered).collect();
            l.sort();
            Val::List(l)
        }
        Val::Map(m) => Val::Map(m.iter().map(|(k, v)| (k.clone(), unordered(v))).collect()),
        v => v.clone(),
    }
}

/// Sets up to order and repetition.
pub fn same_up_to_sets(h: &H, v: &Val) -> bool {
    match (&h.v, v) {
        (HV::Leaf(a), b) => a == b,
        (HV::Map(m), Val::Map(n)) => m.len() == n.len() && m.iter().all(|(k, h)| n.get(&Val::Str(k.clone())).is_some_and(|x| same_up_to_sets(h, x))),
        (HV::List(a), Val::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(h, x)| same_up_to_sets(h, x)),
        (HV::Set(a), Val::List(b)) => a.iter().all(|h| b.iter().any(|x| same_up_to_sets(h, x))) && b.iter().all(|x| a.iter().any(|h| same_up_to_sets(h, x))),
        _ => false,
    }
}

fn no_sets(h: &H) -> bool {
    match &h.v {
        HV::Leaf(_) => true,
        HV::Map(m) => m.values().all(no_sets),
        HV::List(l) => l.iter().all(no_sets),
        HV::Set(_) => false,
    }
}

/// Whether some number does not survive CBOR exactly.
fn inexact(v: &Val) -> bool {
    match v {
        Val::Num(n) => !(n.is_integer() && n.numer().bits() <= 63 || val::nearest_f64(n).and_then(val::from_f64).as_ref() == Some(n)),
        Val::List(l) => l.iter().any(inexact),
        Val::Map(m) => m.iter().any(|(k, v)| inexact(k) || inexact(v)),
        _ => false,
    }
}
