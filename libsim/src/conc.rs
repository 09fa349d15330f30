//! C10: concurrent callers. C12: fresh names drawn from one source.

use crate::child::{self, message, n, obj};
use crate::parts::*;
use crate::Verdict;
use rdf_types::Term;
use sched::calm;
use sim::gen::{self, Opts};
use sim::json::{self, s, J};
use sim::nq::{self, Data};
use sim::refm::{self, Layouts as Model, V};
use sim::rng::{hash, Rng};
use sim::val::{self, Val};
use sim::work;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::AtomicU64;
use std::sync::Mutex;
use treeldr_layouts::distill::{self, RdfContextMut};
use treeldr_layouts::layout::LayoutType;
use treeldr_layouts::{abs, Layouts, LayoutRegistry, Prelude, Ref, Value};

/// The same value for the library.
pub fn real_value(j: &J) -> Option<Value> {
    Some(lib_value(&read_value(j)?))
}

const MARK: char = '\u{1}';

/// Values with what JSON has no notation for.
pub fn write_value(v: &Val) -> J {
    let mark = |k: &str, x: J| J::Obj(vec![(format!("{MARK}{k}"), x)]);
    match v {
        Val::Bytes(b) => mark("bytes", s(&b.iter().map(|b| format!("{b:02X}")).collect::<String>())),
        Val::Num(x) => match val::to_json(v) {
            Some(j) => j,
            None => mark("ratio", J::Arr(vec![s(&x.numer().to_string()), s(&x.denom().to_string())])),
        },
        Val::List(a) => J::Arr(a.iter().map(write_value).collect()),
        Val::Map(m) => {
            let plain = m.keys().all(|k| matches!(k, Val::Str(t) if !t.starts_with(MARK)));
            match plain {
                true => J::Obj(m.iter().map(|(k, v)| (if let Val::Str(t) = k { t.clone() } else { String::new() }, write_value(v))).collect()),
                false => mark("map", J::Arr(m.iter().map(|(k, v)| J::Arr(vec![write_value(k), write_value(v)])).collect())),
            }
        }
        v => val::to_json(v).unwrap_or(J::Null),
    }
}

pub fn read_value(j: &J) -> Option<Val> {
    Some(match j {
        J::Arr(a) => Val::List(a.iter().map(read_value).collect::<Option<_>>()?),
        J::Obj(o) => match o.first() {
            Some((k, x)) if k.starts_with(MARK) => match &k[1..] {
                "bytes" => Val::Bytes(val::from_hex(x.str()?)?),
                "ratio" => Val::Num(num_rational::BigRational::new(x.arr().first()?.str()?.parse().ok()?, x.arr().get(1)?.str()?.parse().ok()?)),
                _ => Val::Map(x.arr().iter().map(|e| Some((read_value(e.arr().first()?)?, read_value(e.arr().get(1)?)?))).collect::<Option<_>>()?),
            },
            _ => Val::Map(o.iter().map(|(k, v)| Some((Val::Str(k.clone()), read_value(v)?))).collect::<Option<_>>()?),
        },
        j => val::from_json(j).ok()?,
    })
}

/// Somewhere in a value, something that JSON has no notation for.
pub fn odd_value(r: &mut Rng, v: &Val) -> Val {
    match v {
        Val::List(a) if !a.is_empty() && r.pct(80) => {
            let mut a = a.clone();
            let k = r.below(a.len());
            a[k] = odd_value(r, &a[k]);
            Val::List(a)
        }
        Val::Map(m) if !m.is_empty() && r.pct(80) => {
            let mut m = m.clone();
            let k = r.pick(&m.keys().cloned().collect::<Vec<_>>()).clone();
            match r.pct(75) {
                true => {
                    let x = odd_value(r, &m[&k]);
                    m.insert(k, x);
                }
                false => {
                    m.insert(r.pick(&[Val::Unit, Val::Bool(true), Val::List(vec![k.clone()]), Val::Bytes(b"k".to_vec()), Val::Num(num_rational::BigRational::from_integer(1.into()))]).clone(), Val::Unit);
                }
            }
            Val::Map(m)
        }
        _ => r
            .pick(&[
                Val::Bytes(vec![]),
                Val::Bytes(vec![0, 255, 16]),
                Val::Num(num_rational::BigRational::new(1.into(), 3.into())),
                Val::Num(num_rational::BigRational::new((-22).into(), 7.into())),
                Val::Num(num_rational::BigRational::new(1.into(), 1024.into())),
                Val::Map([(Val::Bool(true), Val::Unit)].into()),
            ])
            .clone(),
    }
}

pub fn lib_value(v: &Val) -> Value {
    use treeldr_layouts::Literal as L;
    Value::Literal(match v {
        Val::Unit => L::Unit,
        Val::Bool(b) => L::Boolean(*b),
        Val::Num(n) => L::Number(n.clone().into()),
        Val::Bytes(b) => L::ByteString(b.clone()),
        Val::Str(s) => L::TextString(s.clone()),
        Val::List(a) => return Value::List(a.iter().map(lib_value).collect()),
        Val::Map(m) => return Value::Map(m.iter().map(|(k, v)| (lib_value(k), lib_value(v))).collect()),
    })
}

pub fn model_value(v: &Value) -> Val {
    use treeldr_layouts::Literal as L;
    match v {
        Value::Literal(L::Unit) => Val::Unit,
        Value::Literal(L::Boolean(b)) => Val::Bool(*b),
        Value::Literal(L::Number(n)) => Val::Num(n.as_big_rational().clone()),
        Value::Literal(L::ByteString(b)) => Val::Bytes(b.clone()),
        Value::Literal(L::TextString(s)) => Val::Str(s.clone()),
        Value::List(a) => Val::List(a.iter().map(model_value).collect()),
        Value::Map(m) => Val::Map(m.iter().map(|(k, v)| (model_value(k), model_value(v))).collect()),
    }
}

pub fn syntax(j: &J) -> Result<abs::syntax::Layout, String> {
    use json_syntax::{Parse, TryFromJson};
    let t = json::text(j);
    // The JSON parser's hash tables depend on what the process did before the fork: no steps.
    sched::calm(|| {
        let (v, map) = json_syntax::Value::parse_str(&t).map_err(|e| e.to_string())?;
        abs::syntax::Layout::try_from_json(&v, &map).map_err(|e| format!("{e:?}"))
    })
}

/// An empty object, which json-syntax does not index as its users expect (K1).
pub fn empty_object(j: &J) -> bool {
    match j {
        J::Arr(a) => a.iter().any(empty_object),
        J::Obj(o) => o.is_empty() || o.iter().any(|e| empty_object(&e.1)),
        _ => false,
    }
}

pub struct Built<R> {
    pub layouts: Layouts<R>,
    pub roots: Vec<Ref<LayoutType, R>>,
}

pub fn build_terms(files: &[J]) -> Result<Built<Term>, String> {
    let mut b = abs::Builder::new();
    let mut roots = vec![];
    let mut names = rdf_types::generator::Blank::new_with_prefix("layout".into());
    for f in files {
        let l = syntax(f)?;
        roots.push(l.build_with_context(&mut b.with_generator_mut(&mut names)).map_err(|e| e.to_string())?);
    }
    Ok(Built { layouts: b.build(), roots })
}

pub fn build_store(files: &[J], i: &mut Interp) -> Result<Built<Rs>, String> {
    let mut b = abs::Builder::new();
    let mut roots = vec![];
    for f in files {
        let l = syntax(f)?;
        roots.push(l.build_with_interpretation(&mut Voc, i, &mut b).map_err(|e| e.to_string())?);
    }
    Ok(Built { layouts: b.build(), roots })
}

pub fn model(files: &[J], prelude: bool) -> Option<(Model, Vec<String>)> {
    let mut b = refm::Builder::new();
    let mut ids = vec![];
    for f in files {
        ids.push(b.add(f).ok()?);
    }
    let mut l = b.layouts;
    if prelude {
        for (k, v) in refm::prelude() {
            l.entry(k).or_insert(v);
        }
    }
    Some((l, ids))
}

// ---- the case ----

#[derive(Clone, Debug)]
pub struct Op {
    pub what: String,
    pub store: bool,
    pub data: usize,
    pub layout: String,
    pub inputs: Vec<nq::Term>,
    pub graph: Option<nq::Term>,
    pub value: J,
    pub faults: Vec<Fault>,
}

impl Op {
    fn read(j: &J) -> Option<Op> {
        let one = |t: &J| -> Option<nq::Term> { nq::parse_seq(format!("{} <x:p> <x:o> .\n", t.str()?).as_bytes()).ok()?.pop().map(|q| q.0) };
        Some(Op {
            what: j.get("do")?.str()?.into(),
            store: j.get("store") == Some(&J::Bool(true)),
            data: j.get("data").and_then(J::int).unwrap_or(0) as usize,
            layout: j.get("layout")?.str()?.into(),
            inputs: j.get("inputs").map(J::arr).unwrap_or(&[]).iter().map(one).collect::<Option<_>>()?,
            graph: match j.get("graph") {
                Some(g) => Some(one(g)?),
                None => None,
            },
            value: j.get("value").cloned().unwrap_or(J::Null),
            faults: j.get("faults").map(J::arr).unwrap_or(&[]).iter().map(Fault::read).collect::<Option<_>>()?,
        })
    }
    pub fn write(&self) -> J {
        let t = |t: &nq::Term| s(&nq::term_text(t, &mut None));
        let mut o = vec![("do", s(&self.what)), ("store", J::Bool(self.store)), ("layout", s(&self.layout))];
        if self.what == "hydrate" {
            o.push(("data", n(self.data as u64)));
            o.push(("inputs", J::Arr(self.inputs.iter().map(t).collect())));
        } else if self.what != "get" {
            o.push(("value", self.value.clone()));
            if self.what == "fresh" && self.data > 0 {
                o.push(("data", n(self.data as u64)));
            }
            if self.what == "dehydrate" && self.store {
                o.push(("inputs", J::Arr(self.inputs.iter().map(t).collect())));
            }
        }
        if let Some(g) = &self.graph {
            o.push(("graph", t(g)));
        }
        if !self.faults.is_empty() {
            o.push(("faults", J::Arr(self.faults.iter().map(Fault::write).collect())));
        }
        obj(o)
    }
}

pub fn plan_json(p: &sched::Plan) -> J {
    match &p.fixed {
        Some(f) => obj(vec![("first", n(p.first as u64)), ("switches", J::Arr(f.iter().map(|(a, b)| J::Arr(vec![n(*a), n(*b as u64)])).collect()))]),
        None => obj(vec![("first", n(p.first as u64)), ("seed", n(p.seed >> 1)), ("mean", n(p.mean)), ("seams", n(p.seams))]),
    }
}
pub fn read_plan(j: &J) -> Option<sched::Plan> {
    let i = |k: &str| j.get(k).and_then(J::int).map(|x| x as u64);
    let first = i("first").unwrap_or(0) as u32;
    Some(match j.get("switches") {
        Some(x) => {
            let mut f = vec![];
            for y in x.arr() {
                match y.arr() {
                    [a, b] => f.push((a.int()? as u64, b.int()? as u32)),
                    _ => return None,
                }
            }
            sched::Plan { fixed: Some(f), first, mean: 1, ..Default::default() }
        }
        None => sched::Plan { fixed: None, seed: i("seed")? << 1, mean: i("mean")?.max(1), seams: i("seams")?, first },
    })
}

struct Case {
    files: Vec<J>,
    prelude: bool,
    data: Vec<(Vec<nq::Quad>, u64)>,
    threads: Vec<Vec<Op>>,
    plan: sched::Plan,
    rand: u64,
    names: u64,
}

fn read(j: &J) -> Option<Case> {
    let mut data = vec![];
    for d in j.get("data")?.arr() {
        data.push((quads(d.get("quads")?)?, d.get("seed")?.int()? as u64));
    }
    let c = Case {
        files: j.get("files")?.arr().to_vec(),
        prelude: j.get("prelude") == Some(&J::Bool(true)),
        data,
        threads: j.get("threads")?.arr().iter().map(|t| t.arr().iter().map(Op::read).collect::<Option<Vec<_>>>()).collect::<Option<_>>()?,
        plan: read_plan(j.get("plan")?)?,
        rand: j.get("rand").and_then(J::int).unwrap_or(1) as u64,
        names: j.get("names").and_then(J::int).unwrap_or(0) as u64,
    };
    let ok = c.threads.len() <= sched::MAX && !c.threads.is_empty() && !c.files.is_empty() && !c.files.iter().any(empty_object);
    let fits = c.threads.iter().flatten().all(|o| o.what != "hydrate" || o.data < c.data.len());
    (ok && fits).then_some(c)
}

// ---- execution ----

struct Env {
    terms: Built<Term>,
    store: Built<Rs>,
    store_prelude: Option<Layouts<Rs>>,
    prelude: Option<Prelude>,
    base: Interp,
    term_data: Vec<Store<Term>>,
    store_data: Vec<(Store<Rs>, Interp)>,
    names: Names,
}

fn env(c: &Case) -> Result<Env, String> {
    let mut base = Interp::default();
    let store = build_store(&c.files, &mut base)?;
    // Built before the calls: only `Prelude` itself is lazy.
    let store_prelude = c.prelude.then(|| Prelude::build_with(&mut Voc, &mut base));
    let mut term_data = vec![];
    let mut store_data = vec![];
    for (d, seed) in &c.data {
        let mut t = Store::new(*seed);
        let mut r = Store::new(*seed);
        let mut i = base.clone();
        for q in d {
            t.add(real_quad(q));
            r.add(rdf_types::Quad(i.term(&q.0), i.term(&q.1), i.term(&q.2), q.3.as_ref().map(|g| i.term(g))));
        }
        term_data.push(t);
        store_data.push((r, i));
    }
    Ok(Env {
        terms: build_terms(&c.files)?,
        store,
        store_prelude,
        prelude: c.prelude.then_some(Prelude),
        base,
        term_data,
        store_data,
        names: Names { next: AtomicU64::new(0), locked: Mutex::new(rdf_types::generator::Blank::new_with_prefix("s".into())), kind: c.names },
    })
}

fn layout_ref<R: Clone>(b: &Built<R>, name: &str, of: impl FnOnce(&nq::Term) -> R) -> Option<Ref<LayoutType, R>> {
    Some(match name.strip_prefix('#') {
        Some(k) => b.roots.get(k.parse::<usize>().ok()?)?.clone(),
        None => Ref::new(of(&nq::Term::Iri(name.into()))),
    })
}

static SHARED_INPUTS: AtomicU64 = AtomicU64::new(0);
fn shared_input(_: usize) -> Term {
    let k = SHARED_INPUTS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    real_term(&nq::Term::Blank(format!("in{k}")))
}

/// One call and its answer, as text.
fn call(e: &Env, op: &Op) -> J {
    let r = catch_unwind(AssertUnwindSafe(|| match (op.what.as_str(), op.store) {
        ("hydrate", false) => {
            let (l, inputs) = calm(|| (layout_ref(&e.terms, &op.layout, real_term), op.inputs.iter().map(real_term).collect::<Vec<_>>()));
            let Some(l) = l else { return s("none") };
            let r = treeldr_layouts::hydrate(Reg(&e.terms.layouts).with(&e.prelude), &e.term_data[op.data], &l, &inputs);
            calm(|| match r {
                Ok(v) => s(&format!("{v:?}")),
                Err(x) => s(&format!("{x:?}")),
            })
        }
        ("hydrate", true) => {
            let (data, interp) = &e.store_data[op.data];
            let all = calm(|| {
                let mut i = interp.clone();
                let inputs: Vec<Rs> = op.inputs.iter().map(|t| i.term(t)).collect();
                let graph = op.graph.as_ref().map(|t| i.term(t));
                (layout_ref(&e.store, &op.layout, |t| i.term(t)), inputs, graph)
            });
            let (Some(l), inputs, graph) = all else { return s("none") };
            let r = treeldr_layouts::hydrate_with(&Voc, interp, Reg(&e.store.layouts).with(&e.store_prelude), data, graph.as_ref(), &l, &inputs);
            calm(|| match r {
                Ok(v) => s(&format!("{v:?}")),
                Err(x) => s(&format!("{x:?}")),
            })
        }
        ("dehydrate", false) => {
            let (l, v) = calm(|| (layout_ref(&e.terms, &op.layout, real_term), real_value(&op.value)));
            let (Some(l), Some(v)) = (l, v) else { return s("none") };
            let r = distill::dehydrate(Reg(&e.terms.layouts).with(&e.prelude), &v, &l, Default::default());
            calm(|| match r {
                Ok(v) => s(&format!("{v:?}")),
                Err(x) => s(&format!("{x:?}")),
            })
        }
        ("dehydrate", true) => {
            let all = calm(|| {
                let mut i = e.base.clone();
                let inputs: Vec<Rs> = op.inputs.iter().map(|_| i.fresh()).collect();
                let graph = op.graph.as_ref().map(|t| i.term(t));
                (layout_ref(&e.store, &op.layout, |t| i.term(t)), inputs, graph, i, real_value(&op.value))
            });
            let (Some(l), inputs, graph, mut i, Some(v)) = all else { return s("none") };
            let mut out = Store::new(1);
            let r = distill::dehydrate_with(&mut RdfContextMut::new(&mut Voc, &mut i), Reg(&e.store.layouts).with(&e.store_prelude), &v, graph.as_ref(), &l, &inputs, &mut out);
            calm(|| s(&format!("{r:?} {:?} {:?}", out.set(), i)))
        }
        ("fresh", _) => {
            let (l, v) = calm(|| (layout_ref(&e.terms, &op.layout, real_term), real_value(&op.value)));
            let (Some(l), Some(v)) = (l, v) else { return s("none") };
            let o = distill::de::Options::default();
            let o = if op.data % 2 == 1 { o.with_input_count(op.data as u32 / 2) } else { o };
            let o = o.with_generator(Source(&e.names));
            let o = if op.data % 2 == 0 && op.data > 0 { o.with_input_count(op.data as u32 / 2) } else { o };
            let o = if op.store { o.with_input_term_generator(shared_input) } else { o };
            let r = distill::dehydrate(Reg(&e.terms.layouts).with(&e.prelude), &v, &l, o);
            calm(|| match r {
                Ok((d, ts)) => {
                    let d: Data = d.iter().map(|q| plain_quad(&q.into_cloned())).collect();
                    obj(vec![("quads", quads_json(&d)), ("terms", J::Arr(ts.iter().map(|t| s(&nq::term_text(&plain_term(t), &mut None))).collect()))])
                }
                Err(x) => s(&format!("{x:?}")),
            })
        }
        ("get", false) => {
            let l = calm(|| layout_ref(&e.terms, &op.layout, real_term));
            let Some(l) = l else { return s("none") };
            let reg = Reg(&e.terms.layouts);
            let reg = reg.with(&e.prelude);
            let found = reg.get(&l);
            calm(|| s(&format!("{found:?}")))
        }
        _ => {
            let l = calm(|| {
                let mut i = e.base.clone();
                layout_ref(&e.store, &op.layout, |t| i.term(t))
            });
            let Some(l) = l else { return s("none") };
            let reg = Reg(&e.store.layouts);
            let reg = reg.with(&e.store_prelude);
            let found = reg.get(&l);
            calm(|| s(&format!("{found:?}")))
        }
    }));
    r.unwrap_or_else(|p| calm(|| s(&format!("panic: {}", message(p)))))
}

/// Runs the chosen calls as simulated threads, in a child process.
fn execute(c: &Case, threads: &[Vec<Op>], plan: &sched::Plan, limit: u64) -> Result<J, String> {
    child::run(|| {
        let e = match env(c) {
            Ok(e) => e,
            Err(x) => return obj(vec![("refused", s(&x))]),
        };
        sched::seed_randomness(c.rand);
        let slots: Vec<Mutex<Vec<(J, Vec<String>)>>> = threads.iter().map(|_| Mutex::new(vec![])).collect();
        let all = Shared((&e, &slots));
        // The threads end within `run`.
        let all: &'static Shared<(&Env, &Vec<Mutex<Vec<(J, Vec<String>)>>>)> = unsafe { std::mem::transmute(&all) };
        let fs: Vec<Box<dyn FnOnce() + Send>> = threads
            .iter()
            .enumerate()
            .map(|(i, ops)| {
                let ops = ops.clone();
                Box::new(move || {
                    let all = all;
                    for op in &ops {
                        arm(&op.faults);
                        let r = call(all.0 .0, op);
                        let a = disarm();
                        calm(|| all.0 .1[i].lock().unwrap().push((r, a.fired)));
                    }
                }) as Box<dyn FnOnce() + Send>
            })
            .collect();
        let r = sched::run(plan, limit, fs);
        let mut fired = vec![];
        let mut results = vec![];
        for x in &slots {
            let x = std::mem::take(&mut *x.lock().unwrap());
            results.push(J::Arr(x.iter().map(|y| y.0.clone()).collect()));
            fired.extend(x.iter().flat_map(|y| y.1.iter().map(|f| s(f))));
        }
        obj(vec![
            ("results", J::Arr(results)),
            ("fired", J::Arr(fired)),
            ("steps", n(r.steps)),
            ("waits", n(r.waits)),
            ("hash", s(&format!("{:x}", r.hash))),
            ("switches", child::switches(&r)),
        ])
    })
}

fn brief(j: &J) -> String {
    let t = match j {
        J::Str(t) => t.clone(),
        j => json::text(j),
    };
    if t.chars().count() > 300 {
        t.chars().take(300).collect::<String>() + "..."
    } else {
        t
    }
}

/// Takes note of what a run did; `None` if it did not end well.
pub fn account(v: &mut Verdict, r: Result<J, String>, what: &str) -> Option<J> {
    v.runs += 1;
    match r {
        Err(m) if m.starts_with("harness") => {
            v.error = Some(m);
            None
        }
        Err(m) => {
            let class = m.split(':').next().unwrap_or("crash").to_string();
            v.violations.push((class, format!("{what}: {m}")));
            None
        }
        Ok(j) => {
            v.steps += j.get("steps").and_then(J::int).unwrap_or(0) as u64;
            v.waits += j.get("waits").and_then(J::int).unwrap_or(0) as u64;
            for f in j.get("fired").map(J::arr).unwrap_or(&[]) {
                *v.fired.entry(f.str().unwrap_or("").to_string()).or_default() += 1;
            }
            if let Some(w) = j.get("stop").and_then(J::str) {
                if let Some(x) = j.get("switches") {
                    v.switches = Some(x.clone());
                }
                v.violations.push((w.to_string(), format!("{what} did not complete: {w} after {} steps", j.get("steps").and_then(J::int).unwrap_or(0))));
                return None;
            }
            Some(j)
        }
    }
}

/// C10: each call answers as when it is alone.
pub fn judge_calls(j: &J) -> Verdict {
    let mut v = Verdict::default();
    let Some(c) = read(j) else { return v };
    let single = sched::Plan { fixed: Some(vec![]), mean: 1, ..Default::default() };
    let mut alone: Vec<Vec<J>> = vec![];
    let mut steps = 0;
    for t in &c.threads {
        let mut row = vec![];
        for op in t {
            let r = execute(&c, &[vec![op.clone()]], &single, 3_000_000);
            let Some(r) = account(&mut v, r, "one call alone") else {
                // Not a matter of concurrency: other properties judge calls made alone.
                v.violations.clear();
                *v.probes.entry("alone call does not end".into()).or_default() += 1;
                return v;
            };
            if r.get("refused").is_some() {
                *v.probes.entry("layouts refused".into()).or_default() += 1;
                return v;
            }
            steps += r.get("steps").and_then(J::int).unwrap_or(0) as u64;
            row.push(r.get("results").unwrap().arr()[0].arr()[0].clone());
        }
        alone.push(row);
    }
    v.fired.clear();
    let r = execute(&c, &c.threads, &c.plan, steps * 20 + 200_000);
    let Some(r) = account(&mut v, r, "concurrent calls") else { return v };
    v.hash = hash(r.get("hash").and_then(J::str).unwrap_or("").as_bytes());
    v.switches = r.get("switches").cloned();
    let moved = r.get("switches").map(|x| x.arr().len()).unwrap_or(0);
    v.nontrivial = c.threads.len() > 1 && moved >= c.threads.len();
    for (t, (want, got)) in alone.iter().zip(r.get("results").unwrap().arr()).enumerate() {
        if got.arr().len() != want.len() {
            v.violations.push(("lost-call".into(), format!("thread {t} answered {} of {} calls", got.arr().len(), want.len())));
        }
        for (k, (w, g)) in want.iter().zip(got.arr()).enumerate() {
            *v.probes.entry(format!("{} {}", c.threads[t][k].what, kind_of(w))).or_default() += 1;
            if w != g {
                v.violations.push(("other-answer".into(), format!("call {k} of thread {t} ({}): alone {}, with others {}", c.threads[t][k].what, brief(w), brief(g))));
                return v;
            }
        }
    }
    v
}

fn kind_of(j: &J) -> &'static str {
    match j {
        J::Str(t) if t.starts_with("panic") => "panics (injected)",
        J::Str(t) if t.starts_with("Ok") || t.starts_with("Some") || t.starts_with('(') => "answers",
        J::Str(t) if t.starts_with("Map") || t.starts_with("Literal") || t.starts_with("List") || t.starts_with("Variant") || t.starts_with("Always") => "answers",
        J::Obj(_) => "answers",
        _ => "refuses",
    }
}

pub fn is_name(t: &nq::Term) -> bool {
    match t {
        nq::Term::Blank(b) => b.starts_with('s') || b.starts_with("in") && !b.starts_with("input"),
        nq::Term::Iri(i) => i.starts_with("https://names.ex/"),
        _ => false,
    }
}

fn terms_of(d: &Data) -> impl Iterator<Item = &nq::Term> {
    d.iter().flat_map(|q| [Some(&q.0), Some(&q.1), Some(&q.2), q.3.as_ref()].into_iter().flatten())
}

/// C12: names drawn by different calls differ, and each call names its resources one to one.
pub fn judge_names(j: &J) -> Verdict {
    let mut v = Verdict::default();
    let Some(c) = read(j) else { return v };
    let Some((m, ids)) = model(&c.files, c.prelude) else { return v };
    let r = execute(&c, &c.threads, &c.plan, 60_000_000);
    let Some(r) = account(&mut v, r, "calls sharing a source of names") else { return v };
    if r.get("refused").is_some() {
        return v;
    }
    v.hash = hash(r.get("hash").and_then(J::str).unwrap_or("").as_bytes());
    v.switches = r.get("switches").cloned();
    let mut owner: BTreeMap<nq::Term, (usize, usize)> = BTreeMap::new();
    for (t, got) in r.get("results").unwrap().arr().iter().enumerate() {
        for (k, g) in got.arr().iter().enumerate() {
            let op = &c.threads[t][k];
            let id = match op.layout.strip_prefix('#').map(|x| x.parse::<usize>()) {
                Some(Ok(i)) if i < ids.len() => ids[i].clone(),
                _ => op.layout.clone(),
            };
            let Some(val) = read_value(&op.value) else { continue };
            let want = refm::dehydrate(&m, &id, &val);
            let faulty = !op.faults.is_empty();
            match (&want, g) {
                (Err(V::Unsure), _) => continue,
                (_, J::Str(_)) if faulty => (),
                (Ok(_), J::Str(x)) => v.violations.push(("refused".into(), format!("call {k} of thread {t} was refused: {x}"))),
                (Err(V::No), J::Obj(_)) if faulty => (),
                (Err(V::No), J::Obj(_)) => v.violations.push(("accepted".into(), format!("call {k} of thread {t} was to be refused"))),
                _ => (),
            }
            let (Ok((d, mut ts)), J::Obj(_)) = (want, g) else { continue };
            // Layouts taking any number of inputs are given as many as asked for.
            if op.data > 0 && m.get(&id).is_some_and(|l| matches!(l.kind, refm::Kind::Always)) {
                ts = (0..op.data / 2).map(|i| nq::Term::Blank(format!("input{i}"))).collect();
                *v.probes.entry("number of inputs asked for".into()).or_default() += 1;
            }
            let Some(got) = quads(g.get("quads").unwrap()) else { continue };
            let mut got: Data = got.into_iter().collect();
            let gts: Vec<nq::Term> = g.get("terms").unwrap().arr().iter().filter_map(|t| nq::parse_seq(format!("{} <x:p> <x:o> .\n", t.str()?).as_bytes()).ok()?.pop().map(|q| q.0)).collect();
            if gts.len() != ts.len() {
                v.violations.push(("inputs".into(), format!("call {k} of thread {t}: {} input terms instead of {}", gts.len(), ts.len())));
                continue;
            }
            let mut want = d;
            for (i, (a, b)) in ts.iter().zip(&gts).enumerate() {
                let mark = |t: &nq::Term| (nq::Term::Iri(format!("sim:input{i}")), nq::Term::Iri("sim:is".into()), t.clone(), None);
                want.insert(mark(a));
                got.insert(mark(b));
            }
            v.nontrivial |= terms_of(&got).any(is_name);
            // Generated identifiers are blank nodes as far as their identity goes.
            let blank = |t: &nq::Term| match t {
                nq::Term::Iri(i) if i.starts_with("https://names.ex/") => nq::Term::Blank(format!("names{}", &i[17..])),
                t => t.clone(),
            };
            let plain: Data = got.iter().map(|q| (blank(&q.0), blank(&q.1), blank(&q.2), q.3.as_ref().map(blank))).collect();
            let fixed = !op.store;
            if !nq::isomorphic(&nq::canonical(&want), &nq::canonical(&plain), &|x| fixed && sim::case::input_name(x)) {
                v.violations.push(("names".into(), format!("call {k} of thread {t} wrote {} instead of {}", brief(&quads_json(&got)), brief(&quads_json(&want)))));
            }
            let mut mine: Vec<nq::Term> = terms_of(&got).filter(|t| is_name(t)).cloned().collect();
            mine.sort();
            mine.dedup();
            for t2 in mine {
                *v.probes.entry("names drawn".into()).or_default() += 1;
                if let Some(o) = owner.insert(t2.clone(), (t, k)) {
                    v.violations.push(("shared-name".into(), format!("call {k} of thread {t} and call {} of thread {} both use {}", o.1, o.0, nq::term_text(&t2, &mut None))));
                }
            }
        }
    }
    v
}

// ---- generation ----

pub fn world(r: &mut Rng) -> Option<(Vec<J>, bool, Model, Vec<String>, work::World)> {
    for _ in 0..20 {
        let mut o = Opts::random(r);
        o.big = false;
        o.wide = 0;
        o.tags = o.tags && r.pct(20);
        o.bytes |= r.pct(12);
        o.width = o.width.min(4);
        let w = work::world(r, o);
        let mut files = vec![];
        for i in w.cmd.mains.iter().chain(&w.cmd.includes) {
            files.push(json::parse(&w.files.get(*i)?.1).ok()?);
        }
        if files.iter().any(empty_object) {
            continue;
        }
        let prelude = !w.cmd.no_prelude;
        if let Some((m, ids)) = model(&files, prelude) {
            return Some((files, prelude, m, ids, w));
        }
    }
    None
}

/// How the layout is written in a case, its model name, and its number of inputs.
pub fn target(r: &mut Rng, m: &Model, ids: &[String], root: &Option<String>) -> (String, String) {
    if r.pct(60) {
        if let Some(root) = root {
            if let Some(i) = ids.iter().position(|i| i == root) {
                return (format!("#{i}"), root.clone());
            }
            return (root.clone(), root.clone());
        }
    }
    let named: Vec<&String> = m.keys().filter(|k| !k.starts_with("_:")).collect();
    if named.is_empty() || r.pct(30) {
        let i = r.below(ids.len());
        return (format!("#{i}"), ids[i].clone());
    }
    let k = r.pick(&named).to_string();
    (k.clone(), k)
}

pub fn plan(r: &mut Rng) -> sched::Plan {
    sched::Plan {
        fixed: None,
        seed: r.u64() & !1,
        mean: *r.pick(&[1, 3, 10, 30, 30, 100, 100, 300, 300, 1000, 1000, 3000, 10000]),
        seams: *r.pick(&[0, 0, 10, 50, 100]),
        first: r.below(5) as u32,
    }
}

fn some_faults(r: &mut Rng, sites: &[&str]) -> Vec<Fault> {
    let site = r.pick(sites).to_string();
    let kind = if (site == "registry" || site == "match") && r.pct(40) { "miss" } else { "panic" };
    vec![Fault { site, nth: *r.pick(&[1, 1, 2, 2, 3, 4, 5, 7, 10]), kind: kind.into() }]
}

/// Values and data as deep as the model goes, in several threads.
fn case_deep(r: &mut Rng) -> Option<J> {
    let me = || s("https://ex.org/T");
    let part = || obj(vec![("property", s("https://ex.org/p")), ("value", me())]);
    let list = r.pct(40);
    let l = match list {
        true => obj(vec![("id", me()), ("type", s("set")), ("item", part())]),
        false => obj(vec![("id", me()), ("type", s("record")), ("fields", obj(vec![("k", part())]))]),
    };
    let most = if r.pct(30) { 240 } else { 100 };
    let depth = r.range(10, most);
    let node = |i: usize| nq::Term::Blank(format!("n{i}"));
    let d: Data = (0..depth).map(|i| (node(i), nq::Term::Iri("https://ex.org/p".into()), node(i + 1), None)).collect();
    let threads = (0..r.range(2, 4))
        .map(|_| {
            let ops = (0..r.range(1, 2)).map(|_| {
                let mut op = Op { what: "hydrate".into(), store: r.pct(40), data: 0, layout: "#0".into(), inputs: vec![node(if r.pct(60) { 0 } else { r.below(depth) })], graph: None, value: J::Null, faults: vec![] };
                if r.pct(40) {
                    op.what = "dehydrate".into();
                    op.inputs = vec![nq::Term::Blank("input0".into())];
                    op.value = if list { J::Arr(vec![]) } else { J::Obj(vec![]) };
                    for _ in 0..r.below(depth) {
                        op.value = if list { J::Arr(vec![op.value]) } else { J::Obj(vec![("k".into(), op.value)]) };
                    }
                }
                op.write()
            });
            J::Arr(ops.collect())
        })
        .collect();
    Some(obj(vec![
        ("kind", s("calls")),
        ("files", J::Arr(vec![l])),
        ("prelude", J::Bool(r.pct(50))),
        ("data", J::Arr(vec![obj(vec![("quads", quads_json(&d)), ("seed", n(r.u64() >> 2))])])),
        ("threads", J::Arr(threads)),
        ("plan", plan_json(&plan(r))),
        ("rand", n(r.u64() >> 2)),
    ]))
}

pub fn case_calls(r: &mut Rng) -> Option<J> {
    if r.pct(3) {
        return case_deep(r);
    }
    let (files, prelude, m, ids, mut w) = world(r)?;
    w.layouts = Some(m.clone());
    let nd = r.range(1, 2);
    let mut data = vec![];
    let mut subs = vec![];
    for _ in 0..nd {
        let (d, t) = work::dataset(r, &w);
        let d: Data = if d.len() > 60 { d.into_iter().take(60).collect() } else { d };
        data.push(d);
        subs.push(t);
    }
    let nt = *r.pick(&[2, 2, 2, 3, 3, 4, 5]);
    // Often all threads make the same call, or use the same built-in layout first.
    let same = r.pct(35);
    let mut shared: Option<Op> = None;
    let mut threads = vec![];
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..r.range(1, 3) {
            let mut op = match &shared {
                Some(o) if same && r.pct(80) => o.clone(),
                _ => some_op(r, &m, &ids, &w, &data, &subs)?,
            };
            if shared.is_none() {
                shared = Some(op.clone());
            }
            op.faults = if r.pct(12) { some_faults(r, &["registry", "match", "new resource", "vocabulary", "terms of", "assign", "insert"]) } else { vec![] };
            ops.push(op);
        }
        threads.push(J::Arr(ops.iter().map(Op::write).collect()));
    }
    Some(obj(vec![
        ("kind", s("calls")),
        ("files", J::Arr(files)),
        ("prelude", J::Bool(prelude)),
        ("data", J::Arr(data.iter().map(|d| obj(vec![("quads", quads_json(d)), ("seed", n(r.u64() >> 2))])).collect())),
        ("threads", J::Arr(threads)),
        ("plan", plan_json(&plan(r))),
        ("rand", n(r.u64() >> 2)),
    ]))
}

fn some_op(r: &mut Rng, m: &Model, ids: &[String], w: &work::World, data: &[Data], subs: &[Vec<nq::Term>]) -> Option<Op> {
    for _ in 0..30 {
        let store = r.pct(40);
        let mut op = Op { what: "get".into(), store, data: 0, layout: String::new(), inputs: vec![], graph: None, value: J::Null, faults: vec![] };
        match r.below(10) {
            0..=4 => {
                op.what = "hydrate".into();
                op.data = r.below(data.len());
                let (name, id) = if r.pct(80) { target(r, m, ids, &w.root) } else { target(r, m, ids, &None) };
                op.layout = name;
                let want = m.get(&id).map(|l| l.inputs).unwrap_or(1);
                op.inputs = subs[op.data].clone();
                if Some(&id) != w.root.as_ref() {
                    let nodes: Vec<&nq::Term> = data[op.data].iter().map(|q| if r.pct(50) { &q.0 } else { &q.2 }).collect();
                    op.inputs = (0..want).filter_map(|_| if nodes.is_empty() { None } else { Some((*r.pick(&nodes)).clone()) }).collect();
                }
                if store && r.pct(10) {
                    op.graph = Some(nq::Term::Iri("https://ex.org/g".into()));
                    return Some(op);
                }
                if matches!(refm::hydrate(m, &id, &data[op.data], &op.inputs), Err(V::Unsure)) {
                    continue;
                }
            }
            5..=8 => {
                op.what = "dehydrate".into();
                let (name, id) = target(r, m, ids, &w.root);
                op.layout = name;
                let v = gen::value(r, m, &id, &w.o, 0).unwrap_or(Val::Unit);
                let v = if r.pct(20) { gen::mutate_value(r, &v) } else { v };
                if matches!(refm::dehydrate(m, &id, &v), Err(V::Unsure)) {
                    continue;
                }
                op.value = write_value(&v);
                let want = m.get(&id).map(|l| l.inputs).unwrap_or(1);
                op.inputs = (0..want).map(|i| nq::Term::Blank(format!("input{i}"))).collect();
                if store && r.pct(20) {
                    op.graph = Some(nq::Term::Iri("https://ex.org/g".into()));
                }
            }
            _ => {
                op.layout = if r.pct(70) { format!("{}{}", gen::PRE, r.pick(&refm::PRELUDE)) } else { target(r, m, ids, &None).0 };
            }
        }
        return Some(op);
    }
    None
}

pub fn case_names(r: &mut Rng) -> Option<J> {
    let (mut files, prelude, mut m, mut ids, w) = world(r)?;
    let any = r.pct(6);
    if any {
        files.push(J::Bool(true));
        (m, ids) = model(&files, prelude)?;
    }
    let nt = *r.pick(&[1, 1, 2, 2, 3, 4]);
    let mut threads = vec![];
    let shared_inputs = r.pct(25);
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..r.range(1, 4) {
            let (mut name, mut id) = target(r, &m, &ids, &w.root);
            if any && r.pct(50) {
                (name, id) = (format!("#{}", ids.len() - 1), ids[ids.len() - 1].clone());
            }
            let data = if any || r.pct(5) { r.below(12) } else { 0 };
            let v = gen::value(r, &m, &id, &w.o, 0).unwrap_or(Val::Unit);
            let v = if r.pct(10) { gen::mutate_value(r, &v) } else { v };
            let v = if r.pct(3) { odd_value(r, &v) } else { v };
            if matches!(refm::dehydrate(&m, &id, &v), Err(V::Unsure)) {
                continue;
            }
            let faults = if r.pct(8) { some_faults(r, &["registry", "name"]) } else { vec![] };
            ops.push(Op { what: "fresh".into(), store: shared_inputs, data, layout: name, inputs: vec![], graph: None, value: write_value(&v), faults });
        }
        threads.push(J::Arr(ops.iter().map(Op::write).collect()));
    }
    Some(obj(vec![
        ("kind", s("names")),
        ("files", J::Arr(files)),
        ("prelude", J::Bool(prelude)),
        ("data", J::Arr(vec![])),
        ("threads", J::Arr(threads)),
        ("plan", plan_json(&plan(r))),
        ("rand", n(r.u64() >> 2)),
        ("names", n(r.below(4) as u64)),
    ]))
}

