//! C11: histories of writes into the caller's dataset and interpretation, with failures.

use crate::child::{self, message, n, obj};
use crate::conc::{self, account, build_store, empty_object, lib_value, model};
use crate::parts::*;
use crate::{reads, Verdict};
use rdf_types::Quad;
use sched::calm;
use sim::gen;
use sim::json::{s, J};
use sim::nq::{self, Data};
use sim::refm::{self, Layouts as Model, Res, V};
use sim::rng::Rng;
use sim::val::Val;
use sim::work;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use treeldr_layouts::distill::{self, RdfContextMut};
use treeldr_layouts::layout::LayoutType;
use treeldr_layouts::{LayoutRegistry, Prelude, Ref};

/// A resource of the caller: that of a term, or one without any.
#[derive(Clone, Debug)]
pub enum Node {
    Term(nq::Term),
    New(u64),
}

impl Node {
    pub fn read(j: &J) -> Option<Node> {
        match j {
            J::Num(_) => Some(Node::New(j.int()? as u64)),
            j => Some(Node::Term(nq::parse_seq(format!("{} <x:p> <x:o> .\n", j.str()?).as_bytes()).ok()?.pop()?.0)),
        }
    }
    pub fn write(&self) -> J {
        match self {
            Node::Term(t) => s(&nq::term_text(t, &mut None)),
            Node::New(k) => n(*k),
        }
    }
}

#[derive(Clone)]
struct Op {
    layout: String,
    value: Val,
    inputs: Vec<Node>,
    graph: Option<Node>,
    faults: Vec<Fault>,
}

struct Case {
    files: Vec<J>,
    prelude: bool,
    base: Vec<nq::Quad>,
    seed: u64,
    ops: Vec<Op>,
    /// Datatypes and their other names.
    also: Vec<(String, String)>,
}

fn read(j: &J) -> Option<Case> {
    let mut ops = vec![];
    for o in j.get("ops")?.arr() {
        let op = Op {
            layout: o.get("layout")?.str()?.into(),
            value: conc::read_value(o.get("value")?)?,
            inputs: o.get("inputs")?.arr().iter().map(Node::read).collect::<Option<_>>()?,
            graph: match o.get("graph") {
                Some(g) => Some(Node::read(g)?),
                None => None,
            },
            faults: o.get("faults").map(J::arr).unwrap_or(&[]).iter().map(Fault::read).collect::<Option<_>>()?,
        };
        let times = o.get("times").and_then(J::int).unwrap_or(1).clamp(1, 1000);
        ops.extend(std::iter::repeat_n(op, times as usize));
    }
    let c = Case {
        files: j.get("files")?.arr().to_vec(),
        prelude: j.get("prelude") == Some(&J::Bool(true)),
        base: quads(j.get("base")?)?,
        seed: j.get("seed").and_then(J::int).unwrap_or(1) as u64,
        ops,
        also: match j.get("also") {
            Some(J::Obj(o)) => o.iter().filter_map(|(k, v)| Some((k.clone(), v.str()?.to_string()))).collect(),
            _ => vec![],
        },
    };
    (!c.files.is_empty() && !c.files.iter().any(empty_object)).then_some(c)
}

/// The whole state, with the resources made since `known` as blank nodes.
pub fn picture(quads: &BTreeSet<Quad<Rs>>, terms: &[(Rs, nq::Term)], known: u32) -> Data {
    let f = |r: &Rs| if r.0 < known { nq::Term::Iri(format!("sim:r{}", r.0)) } else { nq::Term::Blank(format!("n{}", r.0)) };
    let mut d: Data = quads.iter().map(|q| (f(&q.0), f(&q.1), f(&q.2), q.3.as_ref().map(f))).collect();
    d.extend(terms.iter().map(|(r, t)| (f(r), nq::Term::Iri("sim:term".into()), t.clone(), None)));
    d
}

fn plain(d: &Data) -> String {
    let t: String = d.iter().map(|q| nq::line(q, &mut None)).collect();
    t.chars().take(400).collect()
}

pub fn difference(a: &Data, b: &Data) -> String {
    let only = |a: &Data, b: &Data| plain(&a.difference(b).cloned().collect());
    format!("missing [{}] extra [{}]", only(a, b), only(b, a))
}

struct Step {
    class: &'static str,
    what: String,
}

/// Runs the history; what each operation did, or how it went wrong.
fn history(c: &Case, m: &Model, ids: &[String]) -> J {
    let mut interp = Interp::default();
    for (t, u) in &c.also {
        let r = interp.term(&nq::Term::Iri(t.clone()));
        reads::also(&mut interp, r, &nq::Term::Iri(u.clone()));
    }
    // Literals are the same under all names of their datatype.
    let same = |ts: Vec<(Rs, nq::Term)>| -> Vec<(Rs, nq::Term)> {
        let f = |t| match t {
            nq::Term::Lit(v, Ok(d)) => nq::Term::Lit(v, Ok(c.also.iter().find(|x| x.1 == d).map(|x| x.0.clone()).unwrap_or(d))),
            t => t,
        };
        ts.into_iter().map(|(r, t)| (r, f(t))).collect()
    };
    let built = match build_store(&c.files, &mut interp) {
        Ok(b) => b,
        Err(e) => return obj(vec![("refused", s(&e))]),
    };
    let prelude = c.prelude.then(|| Prelude::build_with(&mut Voc, &mut interp));
    let mut store = Store::new(c.seed);
    for q in &c.base {
        let q = Quad(interp.term(&q.0), interp.term(&q.1), interp.term(&q.2), q.3.as_ref().map(|g| interp.term(g)));
        store.add(q);
    }
    let mut new = std::collections::BTreeMap::new();
    let mut steps = vec![];
    let mut bad: Vec<Step> = vec![];
    let mut fired = vec![];
    for (k, op) in c.ops.iter().enumerate() {
        let (v, inputs, graph, l, id) = calm(|| {
            let mut node = |x: &Node, interp: &mut Interp| match x {
                Node::Term(t) => interp.term(t),
                Node::New(k) => *new.entry(*k).or_insert_with(|| interp.fresh()),
            };
            let inputs: Vec<Rs> = op.inputs.iter().map(|x| node(x, &mut interp)).collect();
            let graph = op.graph.as_ref().map(|x| node(x, &mut interp));
            let (l, id) = match op.layout.strip_prefix('#').map(|x| x.parse::<usize>()) {
                Some(Ok(i)) if i < ids.len() => (Some(built.roots[i].clone()), ids[i].clone()),
                Some(_) => (None, String::new()),
                None => (Some(Ref::<LayoutType, Rs>::new(interp.term(&nq::Term::Iri(op.layout.clone())))), op.layout.clone()),
            };
            (lib_value(&op.value), inputs, graph, l, id)
        });
        let Some(l) = l else { continue };
        let want = calm(|| refm::dehydrate_open(m, &id, &op.value, graph.is_some()));
        if matches!(want, Err(V::Unsure)) {
            continue;
        }
        let before = calm(|| (store.set(), same(interp.terms()), interp.count));
        arm(&op.faults);
        let r = catch_unwind(AssertUnwindSafe(|| {
            distill::dehydrate_with(&mut RdfContextMut::new(&mut Voc, &mut interp), Reg(&built.layouts).with(&prelude), &v, graph.as_ref(), &l, &inputs, &mut store)
        }));
        let a = disarm();
        calm(|| {
            let hit = !a.fired.is_empty();
            fired.extend(a.fired);
            let now = picture(&store.set(), &same(interp.terms()), before.2);
            let old = picture(&before.0, &before.1, before.2);
            let what = match &r {
                Ok(Ok(())) => "written",
                Ok(Err(_)) => "refused",
                Err(_) => "panicked",
            };
            steps.push(s(&format!("{what}{}", if hit { " (fault)" } else { "" })));
            match r {
                Ok(Ok(())) => {
                    if !hit {
                        match want {
                            Ok((count, out)) if count == inputs.len() => {
                                let mut base = BTreeSet::new();
                                let mut terms = before.1.clone();
                                let mut anon = std::collections::BTreeMap::new();
                                let mut scratch = interp.clone();
                                scratch.count = u32::MAX / 2;
                                let mut f = |x: &Res| match x {
                                    Res::Input(i) if *i == count => graph.unwrap(),
                                    Res::Input(i) => inputs[*i],
                                    Res::T(t) => scratch.term(t),
                                    Res::Anon(i) => {
                                        let next = Rs(u32::MAX / 4 + anon.len() as u32);
                                        *anon.entry(*i).or_insert(next)
                                    }
                                };
                                base.extend(before.0.iter().cloned());
                                base.extend(out.quads.iter().map(|q| Quad(f(&q.0), f(&q.1), f(&q.2), q.3.as_ref().map(&mut f))));
                                terms.extend(out.terms.iter().map(|(r, t)| (f(r), t.clone())));
                                let wanted = nq::canonical(&picture(&base, &terms, before.2));
                                let now = nq::canonical(&now);
                                if !nq::isomorphic(&wanted, &now, &|_| false) {
                                    bad.push(Step { class: "other-effect", what: format!("operation {k}: {}", difference(&wanted, &now)) });
                                }
                            }
                            _ => bad.push(Step { class: "accepted", what: format!("operation {k} was to be refused, and wrote {}", difference(&old, &now)) }),
                        }
                    } else if !now.is_superset(&old) {
                        bad.push(Step { class: "removed", what: format!("operation {k}: {}", difference(&old, &now)) });
                    }
                }
                Ok(Err(e)) => {
                    if now != old {
                        bad.push(Step { class: "trace", what: format!("operation {k} failed and left: {}", difference(&old, &now)) });
                    }
                    if !hit {
                        if let Ok((count, _)) = want {
                            if count == inputs.len() {
                                bad.push(Step { class: "refused", what: format!("operation {k} was refused: {e:?}") });
                            }
                        }
                    }
                }
                Err(p) => {
                    if now != old {
                        bad.push(Step { class: "trace", what: format!("operation {k} panicked and left: {}", difference(&old, &now)) });
                    }
                    let p = message(p);
                    if !hit || p != INJECTED {
                        bad.push(Step { class: "panic", what: format!("operation {k} panicked: {}", p.chars().take(200).collect::<String>()) });
                    }
                }
            }
        });
        if !bad.is_empty() {
            break;
        }
    }
    obj(vec![
        ("ops", J::Arr(steps)),
        ("fired", J::Arr(fired.iter().map(|f| s(f)).collect())),
        ("bad", J::Arr(bad.iter().map(|b| J::Arr(vec![s(b.class), s(&b.what)])).collect())),
        ("size", n(store.quads.len() as u64)),
    ])
}

pub fn judge(j: &J) -> Verdict {
    let mut v = Verdict::default();
    let Some(c) = read(j) else { return v };
    let Some((m, ids)) = model(&c.files, c.prelude) else { return v };
    let r = child::run(|| {
        let (mut r, rep) = child::solo(20_000_000, || history(&c, &m, &ids));
        if let J::Obj(o) = &mut r {
            o.push(("steps".into(), n(rep.steps)));
        }
        r
    });
    let Some(r) = account(&mut v, r, "the history") else {
        // A call that does not end or dies is judged by other properties.
        v.violations.clear();
        v.probe("history cut short");
        return v;
    };
    if r.get("refused").is_some() {
        v.probe("layouts refused");
        return v;
    }
    let mut text = String::new();
    for o in r.get("ops").map(J::arr).unwrap_or(&[]) {
        v.probe(&format!("call {}", o.str().unwrap_or("")));
        v.nontrivial = true;
        text += o.str().unwrap_or("");
    }
    v.hash = sim::rng::hash(format!("{text} {:?} {}", r.get("size"), v.steps).as_bytes());
    for b in r.get("bad").map(J::arr).unwrap_or(&[]) {
        v.bad(b.arr()[0].str().unwrap_or(""), b.arr()[1].str().unwrap_or("").to_string());
    }
    v
}

pub fn case(r: &mut Rng) -> Option<J> {
    let (files, prelude, m, ids, mut w) = conc::world(r)?;
    w.layouts = Some(m.clone());
    let base: Data = match r.below(3) {
        0 => Data::new(),
        1 => work::dataset(r, &w).0,
        _ => gen_noise(r, &w),
    };
    let base: Data = if base.len() > 30 { base.into_iter().take(30).collect() } else { base };
    let nodes: Vec<nq::Term> = base.iter().flat_map(|q| [q.0.clone(), q.2.clone(), q.1.clone()]).collect();
    let mut ops = vec![];
    let count = r.range(1, 6);
    let repeat = r.pct(30);
    let mut last: Option<(String, Val, usize)> = None;
    // Failures over and over again.
    let often = r.pct(2);
    for _ in 0..count * 3 {
        if ops.len() >= count {
            break;
        }
        let (name, id) = if repeat && last.is_some() && r.pct(50) { (last.as_ref().unwrap().0.clone(), String::new()) } else { conc::target(r, &m, &ids, &w.root) };
        let mut no = false;
        let (value, want) = if id.is_empty() {
            let (_, v, n) = last.clone().unwrap();
            (v, n)
        } else {
            let v = gen::value(r, &m, &id, &w.o, 0).unwrap_or(Val::Unit);
            let v = if r.pct(35) { gen::mutate_value(r, &v) } else { v };
            let v = if r.pct(6) { conc::odd_value(r, &v) } else { v };
            let fits = refm::dehydrate_open(&m, &id, &v, false);
            if matches!(fits, Err(V::Unsure)) {
                continue;
            }
            no = fits.is_err();
            let n = refm::inputs_of(&m, &id);
            (v, n)
        };
        last = Some((name.clone(), value.clone(), want));
        let want = if r.pct(4) { r.below(4) } else { want };
        let node = |r: &mut Rng| match r.below(10) {
            0..=2 if !nodes.is_empty() => Node::Term(r.pick(&nodes).clone()),
            3 => Node::Term(nq::Term::Iri(format!("https://ex.org/n{}", r.below(4)))),
            _ => Node::New(r.below(6) as u64),
        };
        let inputs: Vec<Node> = (0..want).map(|_| node(r)).collect();
        let mut o = vec![("layout", s(&name)), ("value", conc::write_value(&value)), ("inputs", J::Arr(inputs.iter().map(Node::write).collect()))];
        if r.pct(25) {
            o.push(("graph", node(r).write()));
        }
        if r.pct(35) {
            let site = *r.pick(&["registry", "new resource", "vocabulary", "registry", "new resource", "vocabulary read"]);
            let kind = if site == "registry" && r.pct(50) { "miss" } else { "panic" };
            let f = Fault { site: site.into(), nth: *r.pick(&[1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 10, 15, 25]), kind: kind.into() };
            o.push(("faults", J::Arr(vec![f.write()])));
        }
        if often && (no || (o.last().unwrap().0 == "faults" && r.pct(50))) {
            o.push(("times", n(r.range(20, 300) as u64)));
        }
        ops.push(obj(o));
    }
    if ops.is_empty() {
        return None;
    }
    let mut also = vec![];
    if r.pct(15) {
        let text: String = files.iter().map(sim::json::text).collect();
        for t in ["integer", "decimal", "boolean", "hexBinary", "base64Binary", "string", "int", "unsignedByte"] {
            if text.contains(t) && r.pct(60) {
                also.push((format!("{}{t}", nq::XSD), s(&format!("{}:{t}", r.pick(&["a", "zz"])))));
            }
        }
    }
    Some(obj(vec![
        ("also", J::Obj(also)),
        ("kind", s("history")),
        ("files", J::Arr(files)),
        ("prelude", J::Bool(prelude)),
        ("base", quads_json(&base)),
        ("seed", n(r.u64() >> 2)),
        ("ops", J::Arr(ops)),
    ]))
}

fn gen_noise(r: &mut Rng, w: &work::World) -> Data {
    let (d, _) = work::dataset(r, w);
    gen::mutate_data(r, &d, &[0, 1, 2, 3, 4])
}
