//! A concrete scenario: commands, files, input bytes and fault plans. Everything a run depends on.

use crate::json::{self, Bad, J};
use crate::nq::{self, Data, Term};
use crate::os::{Op, Plan, Run, Stream};
use crate::refm::{self, Builder, Layouts, H, V};
use crate::rng::Rng;
use crate::val::{self, Val};

#[derive(Clone, Debug, PartialEq)]
pub enum Sub {
    None,
    Hydrate { layout: Option<String>, subjects: Vec<String>, cbor: bool, pretty: bool },
    Dehydrate { layout: Option<String>, cbor: bool },
    ConvTree { from_cbor: bool, to_cbor: bool, pretty: bool },
    ConvRdf,
    /// The code generator.
    Gen { layout: Option<String> },
    /// Arguments that must be refused.
    Wrong(Vec<String>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Cmd {
    pub mains: Vec<usize>,
    pub includes: Vec<usize>,
    pub no_prelude: bool,
    pub sub: Sub,
    /// Choice of spellings of the arguments.
    pub style: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub kind: String,
    pub files: Vec<(String, Vec<u8>)>,
    pub cmd: Cmd,
    pub stdin: Vec<u8>,
    pub plan: Plan,
    /// Second command of a pipeline, second input, second plan.
    pub cmd2: Option<Cmd>,
    pub stdin2: Option<Vec<u8>>,
    pub plan2: Plan,
    /// A parameter of the scenario.
    pub n: u64,
}

impl Case {
    pub fn new(kind: &str, cmd: Cmd) -> Case {
        Case { kind: kind.into(), files: vec![], cmd, stdin: vec![], plan: Plan::default(), cmd2: None, stdin2: None, plan2: Plan::default(), n: 0 }
    }
}

impl Cmd {
    pub fn new(sub: Sub) -> Cmd {
        Cmd { mains: vec![], includes: vec![], no_prelude: false, sub, style: 0 }
    }
    pub fn is_gen(&self) -> bool {
        matches!(self.sub, Sub::Gen { .. })
    }
    pub fn args(&self, files: &[(String, Vec<u8>)]) -> Vec<String> {
        let plain = self.style == 0;
        let mut r = Rng::new(self.style);
        let mut a: Vec<String> = vec![];
        let file = |i: &usize| files.get(*i).map(|f| f.0.clone()).unwrap_or("sim_missing.json".into());
        if let Sub::Gen { layout } = &self.sub {
            if let Some(l) = layout {
                a.extend(["-l".to_string(), l.clone()]);
            }
            a.extend(self.mains.iter().map(file));
            for f in &self.includes {
                a.extend(["-i".to_string(), file(f)]);
            }
            return a;
        }
        let mut no_prelude = self.no_prelude;
        if no_prelude && !plain && r.pct(40) {
            a.push("--no-prelude".into());
            no_prelude = false;
        }
        let mut mains: Vec<String> = self.mains.iter().map(file).collect();
        let opt = |r: &mut Rng, short: &str, long: &str, v: &str| -> Vec<String> {
            match if plain { 0 } else { r.below(4) } {
                0 | 1 => vec![format!("-{short}"), v.to_string()],
                2 => vec![format!("--{long}"), v.to_string()],
                _ => vec![format!("--{long}={v}")],
            }
        };
        // included files keep their order, but may come before or between the main ones
        for f in self.includes.iter().map(file) {
            if !plain && r.pct(30) && !mains.is_empty() {
                let m = mains.remove(0);
                a.push(m);
            }
            a.extend(opt(&mut r, "i", "include", &f));
        }
        a.extend(mains);
        let json = |r: &mut Rng| if plain { "json" } else { *r.pick(&["json", "application/json"]) };
        let cbor = |r: &mut Rng| if plain { "cbor" } else { *r.pick(&["cbor", "application/cbor"]) };
        let nq = |r: &mut Rng| if plain { "nq" } else { *r.pick(&["nq", "nquads", "n-quads", "application/n-quads"]) };
        let mut o: Vec<Vec<String>> = vec![];
        let mut pos: Vec<String> = vec![];
        match &self.sub {
            Sub::None => (),
            Sub::Wrong(w) => a.extend(w.iter().cloned()),
            Sub::Hydrate { layout, subjects, cbor: c, pretty } => {
                a.push("hydrate".into());
                if !plain && r.pct(30) {
                    let f = nq(&mut r);
                    o.push(opt(&mut r, "i", "input", f));
                }
                if *c {
                    let f = cbor(&mut r);
                    o.push(opt(&mut r, "o", "output", f));
                } else if !plain && r.pct(30) {
                    let f = json(&mut r);
                    o.push(opt(&mut r, "o", "output", f));
                }
                if let Some(l) = layout {
                    o.push(opt(&mut r, "l", "layout", l));
                }
                if *pretty {
                    o.push(vec![if plain || r.pct(50) { "-p" } else { "--pretty" }.to_string()]);
                }
                pos = subjects.clone();
            }
            Sub::Dehydrate { layout, cbor: c } => {
                a.push("dehydrate".into());
                if *c {
                    let f = cbor(&mut r);
                    o.push(opt(&mut r, "i", "input", f));
                } else if !plain && r.pct(30) {
                    let f = json(&mut r);
                    o.push(opt(&mut r, "i", "input", f));
                }
                if !plain && r.pct(30) {
                    let f = nq(&mut r);
                    o.push(opt(&mut r, "o", "output", f));
                }
                if let Some(l) = layout {
                    o.push(opt(&mut r, "l", "layout", l));
                }
            }
            Sub::ConvTree { from_cbor, to_cbor, pretty } => {
                a.extend(["convert".to_string(), "tree".to_string()]);
                if *from_cbor {
                    let f = cbor(&mut r);
                    o.push(opt(&mut r, "i", "input", f));
                }
                if *to_cbor {
                    let f = cbor(&mut r);
                    o.push(opt(&mut r, "o", "output", f));
                }
                if *pretty {
                    o.push(vec!["-p".to_string()]);
                }
            }
            Sub::ConvRdf => {
                a.extend(["convert".to_string(), "rdf".to_string()]);
                if !plain && r.pct(30) {
                    let f = nq(&mut r);
                    o.push(opt(&mut r, "i", "input", f));
                }
                if !plain && r.pct(30) {
                    let f = nq(&mut r);
                    o.push(opt(&mut r, "o", "output", f));
                }
            }
            Sub::Gen { .. } => unreachable!(),
        }
        if no_prelude {
            o.push(vec![if plain || r.pct(50) { "-n" } else { "--no-prelude" }.to_string()]);
        }
        if !plain {
            r.shuffle(&mut o);
        }
        let before = if plain || r.pct(60) { o.len() } else { r.below(o.len() + 1) };
        if self.sub == Sub::None {
            // global options can stand alone
            a.extend(o.concat());
            return a;
        }
        a.extend(o[..before].concat());
        a.extend(pos);
        a.extend(o[before..].concat());
        a
    }
}

/// What a command must do.
#[derive(Clone, Debug)]
pub enum Exp {
    Refused,
    Unsure,
    Nothing,
    Tree(H, bool),
    Val(Val, bool),
    Data(Data),
    Item(String),
}

/// The layouts of a command: merged collection, and the identifiers of the main ones.
pub fn load(files: &[(String, Vec<u8>)], cmd: &Cmd) -> Result<(Layouts, Vec<String>), V> {
    let mut b = Builder::new();
    let mut ids = vec![];
    let mut unsure = false;
    for (k, i) in cmd.mains.iter().chain(&cmd.includes).enumerate() {
        let f = match files.get(*i) {
            Some(f) => f,
            None => return Err(V::No),
        };
        let r = match json::parse(&f.1) {
            Ok(j) if cmd.is_gen() && crate::codegen::odd(&j) => Err(V::Unsure),
            Ok(j) => b.add(&j),
            Err(Bad::No) => Err(V::No),
            Err(Bad::Unsure) => Err(V::Unsure),
        };
        match r {
            Ok(id) => {
                if k < cmd.mains.len() {
                    ids.push(id)
                }
            }
            Err(V::No) => return Err(V::No),
            Err(V::Unsure) => unsure = true,
        }
    }
    if unsure {
        return Err(V::Unsure);
    }
    let mut l = b.layouts;
    if !cmd.no_prelude && !cmd.is_gen() {
        for (k, v) in refm::prelude() {
            l.entry(k).or_insert(v);
        }
    }
    Ok((l, ids))
}

fn term(t: &str) -> Result<Term, V> {
    if let Some(b) = t.strip_prefix("_:") {
        return if !b.is_empty() && b.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') { Ok(Term::Blank(b.into())) } else { Err(V::Unsure) };
    }
    match nq::is_iri(t) {
        Some(true) => Ok(Term::Iri(t.into())),
        Some(false) => Err(V::No),
        None => Err(V::Unsure),
    }
}

pub fn designated(layout: &Option<String>, ids: &[String]) -> Result<String, V> {
    match layout {
        Some(t) => Ok(match term(t)? {
            Term::Iri(i) => i,
            // Blank identifiers of layouts are made by the program.
            Term::Blank(_) => return Err(V::Unsure),
            _ => unreachable!(),
        }),
        None if ids.len() == 1 => Ok(ids[0].clone()),
        None => Err(V::No),
    }
}

fn bad(b: Bad) -> V {
    match b {
        Bad::No => V::No,
        Bad::Unsure => V::Unsure,
    }
}

pub fn tree_in(stdin: &[u8], cbor: bool) -> Result<Val, V> {
    if cbor {
        val::parse_cbor(stdin).and_then(|c| val::cbor_value(&c)).map_err(bad)
    } else {
        val::parse_json(stdin).map_err(bad)
    }
}

pub fn expect(files: &[(String, Vec<u8>)], cmd: &Cmd, stdin: &[u8]) -> Exp {
    let loaded = load(files, cmd);
    // Parse the input too: whatever is certainly wrong is refused.
    let (mut tree, mut data) = (None, None);
    let input: Result<(), V> = match &cmd.sub {
        Sub::Hydrate { .. } | Sub::ConvRdf => nq::parse(stdin).map(|d| data = Some(d)).map_err(bad),
        Sub::Dehydrate { cbor, .. } => tree_in(stdin, *cbor).map(|v| tree = Some(v)),
        Sub::ConvTree { from_cbor, .. } => tree_in(stdin, *from_cbor).map(|v| tree = Some(v)),
        Sub::None | Sub::Gen { .. } => Ok(()),
        Sub::Wrong(_) => Err(V::No),
    };
    let mut unsure = false;
    let loaded = match loaded {
        Err(V::No) => return Exp::Refused,
        Err(V::Unsure) => {
            unsure = true;
            None
        }
        Ok(l) => Some(l),
    };
    match input {
        Err(V::No) => return Exp::Refused,
        Err(V::Unsure) => unsure = true,
        Ok(()) => (),
    }
    if unsure {
        return Exp::Unsure;
    }
    let (l, ids) = loaded.unwrap();
    let r = (|| -> Result<Exp, V> {
        Ok(match &cmd.sub {
            Sub::None => Exp::Nothing,
            Sub::Wrong(_) => Exp::Refused,
            Sub::ConvRdf => Exp::Data(data.unwrap()),
            Sub::ConvTree { to_cbor, .. } => {
                let v = tree.unwrap();
                if !to_cbor && val::to_json(&v).is_none() {
                    return Err(V::No);
                }
                Exp::Val(v, *to_cbor)
            }
            Sub::Dehydrate { layout, .. } => {
                let id = designated(layout, &ids)?;
                Exp::Data(refm::dehydrate(&l, &id, &tree.unwrap())?.0)
            }
            Sub::Hydrate { layout, subjects, cbor, .. } => {
                let mut subs = vec![];
                for x in subjects {
                    subs.push(term(x)?);
                }
                let id = designated(layout, &ids)?;
                let h = refm::hydrate(&l, &id, &data.unwrap(), &subs)?;
                if *cbor {
                    if h.unknown_tags() {
                        return Err(V::Unsure);
                    }
                } else if val::to_json(&h.plain()).is_none() {
                    return Err(V::No);
                }
                Exp::Tree(h, *cbor)
            }
            Sub::Gen { layout } => {
                let id = designated(layout, &ids)?;
                crate::codegen::expect(cmd, &l, &id)?
            }
        })
    })();
    match r {
        Ok(e) => e,
        Err(V::No) => Exp::Refused,
        Err(V::Unsure) => Exp::Unsure,
    }
}

fn clip(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(&b[..b.len().min(400)]).into_owned();
    if b.len() > 400 {
        format!("{s}... ({} bytes)", b.len())
    } else {
        s
    }
}

/// Blank nodes that stand for the inputs keep their documented names.
pub fn input_name(b: &str) -> bool {
    b.strip_prefix("input").map(|d| !d.is_empty() && d.bytes().all(|c| c.is_ascii_digit())).unwrap_or(false)
}

/// Compares datasets where numeric literals denote numbers.
pub fn same_data(a: &Data, b: &Data, fixed: bool) -> bool {
    nq::isomorphic(&nq::canonical(a), &nq::canonical(b), &|n| fixed && input_name(n))
}

/// Compares what a run did with what it had to do.
pub fn compare(exp: &Exp, run: &Run, convert: bool) -> Option<(String, String)> {
    let v = |c: &str, d: String| Some((c.to_string(), d));
    if let Exp::Unsure = exp {
        return None;
    }
    if run.stopped() {
        return v("no-end", format!("the run was stopped: over its budget of work (code {}, watchdog {})", run.over_budget, run.watchdog));
    }
    if let Some(m) = &run.mutated {
        return v("mutation", format!("tried to change a file: {m}"));
    }
    if let Exp::Refused = exp {
        if run.ok() {
            return v("accepted", format!("must be refused, but succeeded with output {:?}", clip(&run.out)));
        }
        if !run.out.is_empty() {
            return v("output-of-refused", format!("refused with {:?}, but wrote {:?}", run.end, clip(&run.out)));
        }
        return None;
    }
    if !run.ok() {
        return v("refused", format!("must succeed, but ended with {:?}: {}", run.end, clip(&run.err)));
    }
    let wrong = |want: String| v("wrong-output", format!("expected {}, got {:?}", clip(want.as_bytes()), clip(&run.out)));
    match exp {
        Exp::Refused | Exp::Unsure => None,
        Exp::Nothing => {
            if run.out.is_empty() {
                None
            } else {
                wrong("no output".into())
            }
        }
        Exp::Tree(h, false) => match val::parse_json(&run.out) {
            Ok(x) if h.equals(&x) => None,
            _ => wrong(val::to_json(&h.plain()).map(|j| json::text(&j)).unwrap_or_default()),
        },
        Exp::Tree(h, true) => match val::parse_cbor(&run.out) {
            Ok(x) if h.equals_cbor(&x) => None,
            Ok(x) => v("wrong-output", format!("expected CBOR of {:?}, got {:?}", h, x)),
            Err(_) => wrong(format!("CBOR of {h:?}")),
        },
        Exp::Val(w, false) => match val::parse_json(&run.out) {
            Ok(x) if x == *w => None,
            _ => wrong(val::to_json(w).map(|j| json::text(&j)).unwrap_or_default()),
        },
        Exp::Val(w, true) => match val::parse_cbor(&run.out) {
            Ok(c) if refm::leaf_cbor(w, &c) => None,
            Ok(c) => v("wrong-output", format!("expected CBOR of {:?}, got {:?}", w, c)),
            Err(_) => wrong(format!("CBOR of {w:?}")),
        },
        Exp::Data(d) => match nq::parse(&run.out) {
            Ok(x) if convert && (x == *d || nq::isomorphic(&x, d, &|_| false)) => None,
            Ok(x) if !convert && same_data(&x, d, true) => None,
            _ => wrong(nq::text(d)),
        },
        Exp::Item(t) => crate::codegen::compare(t, &run.out),
    }
}

// ---- replay files ----

fn bytes_j(b: &[u8]) -> J {
    match std::str::from_utf8(b) {
        Ok(t) if !t.chars().any(|c| c == '\u{0}') => J::Str(t.into()),
        _ => J::Obj(vec![("hex".into(), J::Str(b.iter().map(|c| format!("{c:02x}")).collect()))]),
    }
}
fn j_bytes(j: &J) -> Option<Vec<u8>> {
    match j {
        J::Str(t) => Some(t.as_bytes().to_vec()),
        o => {
            let h = o.get("hex")?.str()?;
            (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect()
        }
    }
}
fn num(n: u64) -> J {
    J::Num(n.to_string())
}
fn jn(j: Option<&J>) -> Option<u64> {
    match j {
        Some(J::Num(n)) => n.parse().ok(),
        _ => None,
    }
}
fn opt_s(s: &Option<String>) -> J {
    s.as_ref().map(|x| J::Str(x.clone())).unwrap_or(J::Null)
}
fn obj(e: Vec<(&str, J)>) -> J {
    J::Obj(e.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

fn stream_j(s: &Stream) -> J {
    obj(vec![
        (
            "ops",
            J::Arr(
                s.ops
                    .iter()
                    .map(|o| {
                        J::Str(match o {
                            Op::Xfer(n) => format!("xfer {n}"),
                            Op::Err(e) => format!("err {e}"),
                            Op::Zero => "zero 0".into(),
                            Op::Crash => "crash 0".into(),
                            Op::CrashAfter(n) => format!("crash-after {n}"),
                        })
                    })
                    .collect(),
            ),
        ),
        ("chunk", num(s.chunk as u64)),
        ("fail_at", s.fail.map(|f| num(f.0)).unwrap_or(J::Null)),
        ("fail_errno", s.fail.map(|f| num(f.1 as u64)).unwrap_or(J::Null)),
        ("open_errno", s.open.map(|f| num(f as u64)).unwrap_or(J::Null)),
    ])
}
fn j_stream(j: &J) -> Option<Stream> {
    let mut ops = vec![];
    for o in j.get("ops")?.arr() {
        let (k, n) = o.str()?.split_once(' ')?;
        let n: u32 = n.parse().ok()?;
        ops.push(match k {
            "xfer" => Op::Xfer(n),
            "err" => Op::Err(n),
            "zero" => Op::Zero,
            "crash" => Op::Crash,
            _ => Op::CrashAfter(n),
        });
    }
    Some(Stream {
        ops,
        chunk: jn(j.get("chunk"))? as u32,
        fail: match (jn(j.get("fail_at")), jn(j.get("fail_errno"))) {
            (Some(a), Some(e)) => Some((a, e as u32)),
            _ => None,
        },
        open: jn(j.get("open_errno")).map(|e| e as u32),
    })
}
fn plan_j(p: &Plan) -> J {
    obj(vec![
        ("stdin", stream_j(&p.stdin)),
        ("stdout", stream_j(&p.stdout)),
        ("stderr", stream_j(&p.stderr)),
        ("files", J::Arr(p.files.iter().map(stream_j).collect())),
        ("rand_seed", num(p.rand_seed)),
        ("clock_ns", num(p.clock_ns)),
        ("clock_step", num(p.clock_step)),
        ("heap_shift", num(p.heap_shift)),
        ("alloc_fail", p.alloc_fail.map(|a| J::Arr(vec![num(a.0), num(a.1)])).unwrap_or(J::Null)),
        ("crash_call", p.crash_call.map(num).unwrap_or(J::Null)),
        ("pid", num(p.pid)),
        ("env", J::Obj(p.env.iter().map(|(k, v)| (k.clone(), J::Str(v.clone()))).collect())),
    ])
}
fn j_plan(j: &J) -> Option<Plan> {
    Some(Plan {
        stdin: j_stream(j.get("stdin")?)?,
        stdout: j_stream(j.get("stdout")?)?,
        stderr: j_stream(j.get("stderr")?)?,
        files: j.get("files")?.arr().iter().map(j_stream).collect::<Option<_>>()?,
        rand_seed: jn(j.get("rand_seed"))?,
        clock_ns: jn(j.get("clock_ns"))?,
        clock_step: jn(j.get("clock_step"))?,
        heap_shift: jn(j.get("heap_shift"))?,
        alloc_fail: match j.get("alloc_fail")?.arr() {
            [a, b] => Some((jn(Some(a))?, jn(Some(b))?)),
            _ => None,
        },
        crash_call: jn(j.get("crash_call")),
        pid: jn(j.get("pid"))?,
        env: match j.get("env")? {
            J::Obj(o) => o.iter().map(|(k, v)| (k.clone(), v.str().unwrap_or("").to_string())).collect(),
            _ => vec![],
        },
    })
}
fn strs(v: &[String]) -> J {
    J::Arr(v.iter().map(|x| J::Str(x.clone())).collect())
}
fn cmd_j(c: &Cmd) -> J {
    let idx = |v: &[usize]| J::Arr(v.iter().map(|i| num(*i as u64)).collect());
    let sub = match &c.sub {
        Sub::None => obj(vec![("sub", J::Str("none".into()))]),
        Sub::Hydrate { layout, subjects, cbor, pretty } => obj(vec![
            ("sub", J::Str("hydrate".into())),
            ("layout", opt_s(layout)),
            ("subjects", strs(subjects)),
            ("cbor", J::Bool(*cbor)),
            ("pretty", J::Bool(*pretty)),
        ]),
        Sub::Dehydrate { layout, cbor } => obj(vec![("sub", J::Str("dehydrate".into())), ("layout", opt_s(layout)), ("cbor", J::Bool(*cbor))]),
        Sub::ConvTree { from_cbor, to_cbor, pretty } => {
            obj(vec![("sub", J::Str("convert tree".into())), ("from_cbor", J::Bool(*from_cbor)), ("to_cbor", J::Bool(*to_cbor)), ("pretty", J::Bool(*pretty))])
        }
        Sub::ConvRdf => obj(vec![("sub", J::Str("convert rdf".into()))]),
        Sub::Gen { layout } => obj(vec![("sub", J::Str("generate".into())), ("layout", opt_s(layout))]),
        Sub::Wrong(w) => obj(vec![("sub", J::Str("wrong".into())), ("args", strs(w))]),
    };
    obj(vec![("mains", idx(&c.mains)), ("includes", idx(&c.includes)), ("no_prelude", J::Bool(c.no_prelude)), ("style", num(c.style)), ("command", sub)])
}
fn j_cmd(j: &J) -> Option<Cmd> {
    let idx = |k: &str| -> Option<Vec<usize>> { j.get(k)?.arr().iter().map(|x| jn(Some(x)).map(|n| n as usize)).collect() };
    let s = j.get("command")?;
    let layout = s.get("layout").and_then(|x| x.str()).map(str::to_string);
    let flag = |k: &str| s.get(k) == Some(&J::Bool(true));
    let list = |k: &str| -> Vec<String> { s.get(k).map(|a| a.arr().iter().filter_map(|x| x.str()).map(str::to_string).collect()).unwrap_or_default() };
    Some(Cmd {
        mains: idx("mains")?,
        includes: idx("includes")?,
        no_prelude: j.get("no_prelude") == Some(&J::Bool(true)),
        style: jn(j.get("style"))?,
        sub: match s.get("sub")?.str()? {
            "none" => Sub::None,
            "hydrate" => Sub::Hydrate { layout, subjects: list("subjects"), cbor: flag("cbor"), pretty: flag("pretty") },
            "dehydrate" => Sub::Dehydrate { layout, cbor: flag("cbor") },
            "convert tree" => Sub::ConvTree { from_cbor: flag("from_cbor"), to_cbor: flag("to_cbor"), pretty: flag("pretty") },
            "convert rdf" => Sub::ConvRdf,
            "generate" => Sub::Gen { layout },
            _ => Sub::Wrong(list("args")),
        },
    })
}

impl Case {
    pub fn to_json(&self) -> J {
        obj(vec![
            ("scenario", J::Str(self.kind.clone())),
            ("n", num(self.n)),
            ("arguments", strs(&self.cmd.args(&self.files))),
            ("cmd", cmd_j(&self.cmd)),
            ("cmd2", self.cmd2.as_ref().map(cmd_j).unwrap_or(J::Null)),
            ("files", J::Arr(self.files.iter().map(|(n, b)| J::Arr(vec![J::Str(n.clone()), bytes_j(b)])).collect())),
            ("stdin", bytes_j(&self.stdin)),
            ("stdin2", self.stdin2.as_ref().map(|b| bytes_j(b)).unwrap_or(J::Null)),
            ("plan", plan_j(&self.plan)),
            ("plan2", plan_j(&self.plan2)),
        ])
    }
    pub fn from_json(j: &J) -> Option<Case> {
        Some(Case {
            kind: j.get("scenario")?.str()?.into(),
            n: jn(j.get("n"))?,
            cmd: j_cmd(j.get("cmd")?)?,
            cmd2: match j.get("cmd2")? {
                J::Null => None,
                c => Some(j_cmd(c)?),
            },
            files: j.get("files")?.arr().iter().map(|f| Some((f.arr().first()?.str()?.to_string(), j_bytes(f.arr().get(1)?)?))).collect::<Option<_>>()?,
            stdin: j_bytes(j.get("stdin")?)?,
            stdin2: match j.get("stdin2")? {
                J::Null => None,
                b => Some(j_bytes(b)?),
            },
            plan: j_plan(j.get("plan")?)?,
            plan2: j_plan(j.get("plan2")?)?,
        })
    }
}
