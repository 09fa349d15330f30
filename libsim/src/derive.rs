//! C15: histories of one store written and read through derived types and through layouts.

use crate::child::{self, message, n, obj};
use crate::conc::{account, lib_value, model_value, syntax};
use crate::hist::{difference, picture, Node};
use crate::parts::*;
use crate::shapes::{layout_id, layouts, Ty, TYPES};
use crate::Verdict;
use rdf_types::dataset::BTreeDataset;
use rdf_types::{Id, Quad, Term};
use sched::calm;
use sim::json::{s, J};
use sim::nq::{self, Data};
use sim::rng::Rng;
use sim::val::{self, Val};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use treeldr_layouts::abs::{self, syntax as abst};
use treeldr_layouts::distill::{self, RdfContextMut};
use treeldr_layouts::layout::LayoutType;
use treeldr_layouts::{Layouts, Ref};

#[derive(Clone)]
enum Do {
    Write { ty: &'static Ty, value: Val, at: Place, layout: bool, faults: Vec<Fault> },
    Read { ty: &'static Ty, at: Place, faults: Vec<Fault> },
    Remove(usize),
    /// Adds a copy of a statement, with another subject, predicate, object or graph.
    Copy(usize, usize, Node),
    /// Gives another term to a part of a statement.
    Name(usize, usize, nq::Term),
    Unname(usize, usize),
}

#[derive(Clone)]
struct Place {
    inputs: Vec<Node>,
    graph: Option<Node>,
}

struct Case {
    base: Vec<nq::Quad>,
    seed: u64,
    /// Derived code sees only the terms in use in the store.
    fresh: bool,
    ops: Vec<Do>,
}

fn find(name: &str) -> Option<&'static Ty> {
    TYPES.iter().find(|t| t.name == name)
}

fn read(j: &J) -> Option<Case> {
    let mut ops = vec![];
    for o in j.get("ops")?.arr() {
        let place = || {
            Some(Place {
                inputs: o.get("inputs")?.arr().iter().map(Node::read).collect::<Option<_>>()?,
                graph: match o.get("graph") {
                    Some(g) => Some(Node::read(g)?),
                    None => None,
                },
            })
        };
        let faults: Vec<Fault> = o.get("faults").map(J::arr).unwrap_or(&[]).iter().map(Fault::read).collect::<Option<_>>()?;
        let int = |k: &str| Some(o.get(k)?.int()?.unsigned_abs() as usize);
        let op = match o.get("do")?.str()? {
            "write" => Do::Write { ty: find(o.get("type")?.str()?)?, value: val::from_json(o.get("value")?).ok()?, at: place()?, layout: o.get("by").and_then(J::str) == Some("layout"), faults },
            "read" => Do::Read { ty: find(o.get("type")?.str()?)?, at: place()?, faults },
            "remove" => Do::Remove(int("statement")?),
            "copy" => Do::Copy(int("statement")?, int("part")?, Node::read(o.get("with")?)?),
            "name" => match Node::read(o.get("term")?)? {
                Node::Term(t) => Do::Name(int("statement")?, int("part")?, t),
                _ => return None,
            },
            "unname" => Do::Unname(int("statement")?, int("part")?),
            _ => return None,
        };
        let times = o.get("times").and_then(J::int).unwrap_or(1).clamp(1, 1000);
        ops.extend(std::iter::repeat_n(op, times as usize));
    }
    Some(Case { base: quads(j.get("base")?)?, seed: j.get("seed").and_then(J::int).unwrap_or(1) as u64, fresh: j.get("fresh") == Some(&J::Bool(true)), ops })
}

fn build(interp: &mut Interp) -> Result<Layouts<Rs>, String> {
    let mut b = abs::Builder::new();
    for f in layouts() {
        let mut l = syntax(&f)?;
        if let abst::Layout::Product(p) = &mut l {
            // The default graph as a component's graph cannot be written in JSON.
            for (k, f) in &mut p.fields {
                if k.as_str() == Some("out") {
                    if let abst::ValueFormatOrLayout::Format(f) = &mut f.value {
                        f.graph = Some(None);
                    }
                }
            }
        }
        l.build_with_interpretation(&mut Voc, interp, &mut b).map_err(|e| e.to_string())?;
    }
    Ok(b.build())
}

fn has_blank(v: &Val) -> bool {
    match v {
        Val::Str(s) => s.starts_with("_:"),
        Val::List(a) => a.iter().any(has_blank),
        Val::Map(m) => m.values().any(has_blank),
        _ => false,
    }
}

/// The value with each blank node identifier as the IRI that stands for it.
fn named(v: &Val) -> Val {
    match v {
        Val::Str(s) => Val::Str(match s.strip_prefix("_:") {
            Some(b) => format!("sim:blank/{b}"),
            None => s.clone(),
        }),
        Val::List(a) => Val::List(a.iter().map(named).collect()),
        Val::Map(m) => Val::Map(m.iter().map(|(k, v)| (k.clone(), named(v))).collect()),
        v => v.clone(),
    }
}

/// Whether some resource contains itself, which neither reader survives.
fn cyclic(store: &BTreeSet<Quad<Rs>>, sub: Option<Rs>) -> bool {
    let Some(sub) = sub else { return false };
    let mut edges: BTreeMap<Rs, Vec<Rs>> = BTreeMap::new();
    for q in store.iter().filter(|q| q.1 == sub) {
        edges.entry(q.0).or_default().push(q.2);
    }
    // Removes the leaves until none is left.
    loop {
        let leaves: Vec<Rs> = edges.iter().filter(|(_, v)| v.iter().all(|x| !edges.contains_key(x))).map(|(k, _)| *k).collect();
        if leaves.is_empty() {
            return !edges.is_empty();
        }
        for l in leaves {
            edges.remove(&l);
        }
    }
}

struct State {
    interp: Interp,
    store: Store<Rs>,
    new: BTreeMap<u64, Rs>,
}

impl State {
    fn node(&mut self, x: &Node) -> Rs {
        match x {
            Node::Term(t) => self.interp.term(t),
            Node::New(k) => *self.new.entry(*k).or_insert_with(|| self.interp.fresh()),
        }
    }
    fn place(&mut self, p: &Place) -> (Vec<Rs>, Option<Rs>) {
        let inputs = p.inputs.iter().map(|x| self.node(x)).collect();
        (inputs, p.graph.as_ref().map(|x| self.node(x)))
    }
    /// The interpretation a program has that only knows the terms in use.
    fn known(&self, inputs: &[Rs], graph: Option<Rs>, fresh: bool) -> Interp {
        let mut i = self.interp.clone();
        if fresh {
            let mut used: BTreeSet<Rs> = inputs.iter().copied().chain(graph).collect();
            for q in &self.store.quads {
                used.extend([q.0, q.1, q.2].into_iter().chain(q.3));
            }
            // A constant given to a component has to be known.
            i.iris.retain(|k, r| used.contains(r) || k.as_str() == "https://t.ex/Graph");
        }
        i
    }
}

/// The layout for writing a value: variants that look alike have layouts of their own.
fn layout_of(ty: &Ty, tagged: &Val) -> String {
    if let (Val::Map(m), "Either") = (tagged, ty.name) {
        if let Some(Val::Str(k)) = m.keys().next() {
            if k == "$A" || k == "$B" {
                return layout_id(&format!("Either-{}", &k[1..]));
            }
        }
    }
    layout_id(ty.name)
}

fn history(c: &Case) -> J {
    let mut interp = Interp::default();
    let built = match build(&mut interp) {
        Ok(b) => b,
        Err(e) => return obj(vec![("harness", s(&format!("layouts refused: {e}")))]),
    };
    let mut st = State { interp, store: Store::new(c.seed), new: BTreeMap::new() };
    for q in &c.base {
        let q = Quad(st.interp.term(&q.0), st.interp.term(&q.1), st.interp.term(&q.2), q.3.as_ref().map(|g| st.interp.term(g)));
        st.store.add(q);
    }
    let mut steps: Vec<String> = vec![];
    let mut bad: Vec<(&'static str, String)> = vec![];
    let mut fired = vec![];
    for (k, op) in c.ops.iter().enumerate() {
        match op {
            Do::Write { ty, value, at, layout, faults } => {
                let Some((tagged, plain)) = calm(|| (ty.tagged)(value)) else { continue };
                let (inputs, graph) = calm(|| st.place(at));
                if inputs.len() != ty.inputs {
                    continue;
                }
                let known = st.interp.count;
                let old = calm(|| picture(&st.store.set(), &st.interp.terms(), u32::MAX));
                let write = |faults: &[Fault]| {
                    let (mut i, mut out) = calm(|| {
                        let mut out = BTreeDataset::new();
                        for q in st.store.set() {
                            out.insert(q);
                        }
                        (st.interp.clone(), out)
                    });
                    arm(faults);
                    let r = catch_unwind(AssertUnwindSafe(|| (ty.ser)(&tagged, &mut i, &inputs, graph.as_ref(), &mut out)));
                    let a = disarm();
                    let out: BTreeSet<Quad<Rs>> = calm(|| out.iter().map(|q| q.into_cloned()).collect());
                    (r.map_err(message), i, out, a)
                };
                let (r, i1, out1, _) = write(&[]);
                let mine = calm(|| picture(&out1, &i1.terms(), known));
                match r {
                    Ok(Some(true)) => (),
                    Ok(_) => bad.push(("refused", format!("operation {k}: the derived serializer refused {plain:?}"))),
                    Err(p) => bad.push(("panic", format!("operation {k}: the derived serializer panicked: {}", p.chars().take(200).collect::<String>()))),
                }
                if !bad.is_empty() {
                    break;
                }
                if !faults.is_empty() {
                    // The caller's component fails: what was written so far stays, and nothing else.
                    let full = calm(|| picture(&out1, &i1.terms(), u32::MAX));
                    let (r, i2, out2, a) = write(faults);
                    let torn = calm(|| picture(&out2, &i2.terms(), u32::MAX));
                    if a.fired.is_empty() {
                        if r.is_err() || torn != full {
                            bad.push(("unsteady", format!("operation {k}: written again, the same value gives: {}", difference(&full, &torn))));
                            break;
                        }
                    } else {
                        match r {
                            Err(p) if p == INJECTED => (),
                            Err(p) => bad.push(("panic", format!("operation {k}: the derived serializer panicked: {}", p.chars().take(200).collect::<String>()))),
                            Ok(_) => bad.push(("hidden-failure", format!("operation {k}: the derived serializer hid a failure of its caller's component"))),
                        }
                        if !torn.is_superset(&old) || !full.is_superset(&torn) {
                            bad.push(("other-effect", format!("operation {k}, cut short: {}", difference(&full, &torn))));
                        }
                        steps.push("write cut short".into());
                    }
                    fired.extend(a.fired);
                    st.interp = i2;
                    calm(|| out2.into_iter().for_each(|q| st.store.add(q)));
                    if !bad.is_empty() {
                        break;
                    }
                    continue;
                }
                let id = calm(|| Ref::<LayoutType, Rs>::new(st.interp.term(&nq::Term::Iri(layout_of(ty, &tagged)))));
                let known = st.interp.count.max(known);
                let (mut i2, mut out2, v) = calm(|| (st.interp.clone(), st.store.clone(), lib_value(&named(&plain))));
                let r = catch_unwind(AssertUnwindSafe(|| distill::dehydrate_with(&mut RdfContextMut::new(&mut Voc, &mut i2), Reg(&built), &v, graph.as_ref(), &id, &inputs, &mut out2)));
                match r {
                    Ok(Ok(())) => {
                        let theirs = calm(|| picture(&out2.set(), &i2.terms(), known));
                        if !calm(|| nq::isomorphic(&nq::canonical(&theirs), &nq::canonical(&mine), &|_| false)) {
                            bad.push(("other-statements", format!("operation {k}: {} {plain:?}: derived code, compared with the layout: {}", ty.name, difference(&theirs, &mine))));
                            break;
                        }
                        // A blank node identifier can be written by derived code only.
                        let layout = *layout && !has_blank(&plain);
                        steps.push(if has_blank(&plain) { "write of a blank node identifier".into() } else { format!("write by {}", if layout { "layout" } else { "derived" }) });
                        if layout {
                            st.interp = i2;
                            st.store = out2;
                            continue;
                        }
                    }
                    Ok(Err(e)) => bad.push(("written-by-derived-only", format!("operation {k}: the layout refuses {} {plain:?}: {e:?}", ty.name))),
                    Err(p) => bad.push(("panic", format!("operation {k}: the layout panicked: {}", message(p).chars().take(200).collect::<String>()))),
                }
                if !bad.is_empty() {
                    break;
                }
                st.interp = i1;
                calm(|| out1.into_iter().for_each(|q| st.store.add(q)));
            }
            Do::Read { ty, at, faults } => {
                let (inputs, graph) = calm(|| st.place(at));
                if inputs.len() != ty.inputs {
                    continue;
                }
                let sub = st.interp.iris.get(&iref::IriBuf::new("https://t.ex/sub".into()).unwrap()).copied();
                if matches!(ty.name, "Tree" | "All") && calm(|| cyclic(&st.store.set(), sub)) {
                    continue;
                }
                let i = calm(|| st.known(&inputs, graph, c.fresh));
                arm(faults);
                let mine = catch_unwind(AssertUnwindSafe(|| (ty.de)(&i, &st.store, graph.as_ref(), &inputs)));
                let a = disarm();
                if !a.fired.is_empty() {
                    let short = a.fired.iter().any(|f| f.ends_with("miss"));
                    fired.extend(a.fired);
                    steps.push("read cut short".into());
                    match mine {
                        Err(p) => {
                            let p = message(p);
                            if p != INJECTED {
                                bad.push(("panic", format!("operation {k}: the derived deserializer panicked: {}", p.chars().take(200).collect::<String>())));
                                break;
                            }
                        }
                        Ok(_) if short => (),
                        Ok(_) => {
                            bad.push(("hidden-failure", format!("operation {k}: the derived deserializer hid a failure of its caller's component")));
                            break;
                        }
                    }
                    continue;
                }
                let id = calm(|| Ref::<LayoutType, Rs>::new(st.interp.term(&nq::Term::Iri(layout_id(ty.name)))));
                let theirs = catch_unwind(AssertUnwindSafe(|| treeldr_layouts::hydrate_with(&Voc, &st.interp, Reg(&built), &st.store, graph.as_ref(), &id, &inputs)));
                // The same through the layout with IRIs in place of blank node identifiers.
                let again = |st: &State| {
                    let mut i = st.interp.clone();
                    for (r, b) in std::mem::take(&mut i.blanks_of) {
                        if i.iris_of.get(&r).is_none_or(|x| x.is_empty()) {
                            i.iris_of.entry(r).or_default().extend(b.iter().map(|b| iref::IriBuf::new(format!("sim:blank/{}", b.as_str().trim_start_matches("_:"))).unwrap()));
                        }
                    }
                    let r = catch_unwind(AssertUnwindSafe(|| treeldr_layouts::hydrate_with(&Voc, &i, Reg(&built), &st.store, graph.as_ref(), &id, &inputs)));
                    r.ok().and_then(Result::ok).map(|v| model_value(&v.into_untyped()))
                };
                calm(|| {
                    let what = match (mine, theirs) {
                        (Err(p), _) => Some(("panic", format!("the derived deserializer panicked: {}", message(p).chars().take(200).collect::<String>()))),
                        (_, Err(p)) => Some(("panic", format!("the layout panicked: {}", message(p).chars().take(200).collect::<String>()))),
                        (Ok(Ok(a)), Ok(Ok(b))) => {
                            steps.push("read".into());
                            let b = model_value(&b.into_untyped());
                            ((ty.norm)(&b) != Some(a.clone())).then(|| ("other-value", format!("{}: derived code reads {a:?}, the layout {b:?}", ty.name)))
                        }
                        (Ok(Ok(a)), Ok(Err(e))) => {
                            steps.push("read of a blank node identifier".into());
                            let b = if has_blank(&a) { again(&st) } else { None };
                            (b.as_ref().and_then(ty.norm) != (ty.norm)(&named(&a))).then(|| ("read-by-derived-only", format!("{}: derived code reads {a:?}, the layout refuses: {}, or reads {b:?}", ty.name, format!("{e:?}").chars().take(150).collect::<String>())))
                        }
                        (Ok(Err(e)), Ok(Ok(b))) => Some(("read-by-layout-only", format!("{}: derived code refuses ({e}), the layout reads {:?}", ty.name, model_value(&b.into_untyped())))),
                        (Ok(Err(e)), Ok(Err(_))) => {
                            steps.push("read refused".into());
                            // Identifier layouts proper take IRIs only.
                            let b = if matches!(ty.name, "Id" | "Parent" | "GRec" | "Loops") { again(&st) } else { None };
                            b.map(|b| ("blank-refused", format!("{}: derived code refuses ({e}), while the layout, with IRIs in place of blank node identifiers, reads {b:?}", ty.name)))
                        }
                    };
                    if let Some((c, w)) = what {
                        bad.push((c, format!("operation {k}: {w}")));
                    }
                });
            }
            Do::Remove(i) => calm(|| {
                if !st.store.quads.is_empty() {
                    let i = i % st.store.quads.len();
                    st.store.quads.remove(i);
                }
            }),
            Do::Copy(i, part, with) => calm(|| {
                if !st.store.quads.is_empty() {
                    let r = st.node(with);
                    let i = i % st.store.quads.len();
                    let mut q = st.store.quads[i];
                    match part {
                        0 => q.0 = r,
                        1 => q.1 = r,
                        2 => q.2 = r,
                        3 => q.3 = Some(r),
                        _ => q.3 = None,
                    }
                    st.store.add(q);
                }
            }),
            Do::Name(i, part, t) => calm(|| {
                if !st.store.quads.is_empty() {
                    let q = st.store.quads[i % st.store.quads.len()];
                    let r = if *part == 0 { q.0 } else { q.2 };
                    match real_term(t) {
                        Term::Id(Id::Iri(i)) => st.interp.iris_of.entry(r).or_default().insert(i),
                        Term::Id(Id::Blank(b)) => st.interp.blanks_of.entry(r).or_default().insert(b),
                        Term::Literal(l) => st.interp.lits_of.entry(r).or_default().insert(l),
                    };
                }
            }),
            Do::Unname(i, part) => calm(|| {
                if !st.store.quads.is_empty() {
                    let q = st.store.quads[i % st.store.quads.len()];
                    let r = if *part == 0 { q.0 } else { q.2 };
                    st.interp.lits_of.remove(&r);
                }
            }),
        }
        if !bad.is_empty() {
            break;
        }
    }
    obj(vec![
        ("ops", J::Arr(steps.iter().map(|x| s(x)).collect())),
        ("fired", J::Arr(fired.iter().map(|f| s(f)).collect())),
        ("bad", J::Arr(bad.iter().map(|b| J::Arr(vec![s(b.0), s(&b.1)])).collect())),
        ("size", n(st.store.quads.len() as u64)),
    ])
}

pub fn judge(j: &J) -> Verdict {
    let mut v = Verdict::default();
    let Some(c) = read(j) else { return v };
    let r = child::run(|| {
        let (mut r, rep) = child::solo(200_000_000, || history(&c));
        if let J::Obj(o) = &mut r {
            o.push(("steps".into(), n(rep.steps)));
        }
        r
    });
    let Some(r) = account(&mut v, r, "the history") else {
        if c.ops.len() > 15 {
            // Many calls may well need that many steps.
            v.violations.retain(|x| x.0 != "no-end");
            v.probe("history cut short");
        }
        return v;
    };
    let mut text = String::new();
    for o in r.get("ops").map(J::arr).unwrap_or(&[]) {
        let o = o.str().unwrap_or("");
        v.probe(o);
        v.nontrivial |= o == "read" || o.starts_with("write by");
        text += o;
    }
    v.hash = sim::rng::hash(format!("{text} {:?} {}", r.get("size"), v.steps).as_bytes());
    for b in r.get("bad").map(J::arr).unwrap_or(&[]) {
        v.bad(b.arr()[0].str().unwrap_or(""), b.arr()[1].str().unwrap_or("").to_string());
    }
    v
}

const TERMS: [&str; 12] = [
    "\"a\"",
    "\"b\"",
    "\"7\"^^<http://www.w3.org/2001/XMLSchema#int>",
    "\"x\"^^<http://www.w3.org/2001/XMLSchema#int>",
    "\"7\"^^<http://www.w3.org/2001/XMLSchema#unsignedByte>",
    "\"x\"^^<http://www.w3.org/2001/XMLSchema#unsignedShort>",
    "\"true\"^^<http://www.w3.org/2001/XMLSchema#boolean>",
    "\"1\"^^<http://www.w3.org/2001/XMLSchema#boolean>",
    "\"maybe\"^^<http://www.w3.org/2001/XMLSchema#boolean>",
    "\"c\"^^<https://t.ex/code>",
    "\"a\"@en",
    "<https://t.ex/i1>",
];

pub fn case(r: &mut Rng) -> Option<J> {
    let mut ops: Vec<J> = vec![];
    let mut places: Vec<(&'static str, J, Option<J>)> = vec![];
    // The same call over and over again.
    let often = r.pct(2);
    let favourites: Vec<&'static Ty> = (0..r.range(1, 3)).map(|_| r.pick(TYPES)).collect();
    let spread = *r.pick(&[1, 2, 4, 20]);
    let node = |r: &mut Rng| match r.below(12) {
        0 => Node::Term(nq::Term::Iri(format!("https://t.ex/i{}", r.below(3)))),
        1 => Node::Term(nq::Term::Iri(r.pick(&["http://www.w3.org/1999/02/22-rdf-syntax-ns#nil", "https://t.ex/end", "https://t.ex/Graph", "https://t.ex/Unit"]).to_string())),
        2 => Node::Term(nq::parse_seq(format!("{} <x:p> <x:o> .\n", r.pick(&TERMS[..11])).as_bytes()).ok().and_then(|mut q| q.pop()).map(|q| q.0).unwrap_or(nq::Term::Iri("https://t.ex/i0".into()))),
        _ => Node::New(r.below(spread) as u64),
    };
    let graph = |r: &mut Rng| match r.below(10) {
        0..=2 => Some(Node::New(r.below(3) as u64).write()),
        3 => Some(Node::Term(nq::Term::Iri("https://t.ex/Graph".into())).write()),
        _ => None,
    };
    for _ in 0..r.range(2, 12) {
        match r.below(if places.is_empty() { 1 } else { 10 }) {
            0..=3 => {
                let ty: &Ty = if r.pct(70) { *r.pick(&favourites) } else { r.pick(TYPES) };
                let v = (ty.gen)(r);
                let (inputs, g) = if !places.is_empty() && r.pct(30) {
                    let p = r.pick(&places);
                    (p.1.clone(), p.2.clone())
                } else {
                    (J::Arr((0..ty.inputs).map(|_| node(r).write()).collect()), graph(r))
                };
                if inputs.arr().len() != ty.inputs {
                    continue;
                }
                places.push((ty.name, inputs.clone(), g.clone()));
                let mut o = vec![("do", s("write")), ("type", s(ty.name)), ("value", val::to_json(&v)?), ("inputs", inputs)];
                o.extend(g.map(|g| ("graph", g)));
                if r.pct(50) {
                    o.push(("by", s("layout")));
                }
                if r.pct(20) {
                    let f = Fault { site: r.pick(&["new resource", "vocabulary", "interpret", "assign"]).to_string(), nth: *r.pick(&[1, 1, 2, 2, 3, 4, 5, 7, 10, 15]), kind: "panic".into() };
                    o.push(("faults", J::Arr(vec![f.write()])));
                }
                if often && r.pct(30) {
                    o.push(("times", n(r.range(5, 15) as u64)));
                }
                ops.push(obj(o));
            }
            4 | 5 => ops.push(obj(vec![("do", s("remove")), ("statement", n(r.below(60) as u64))])),
            6 | 7 => ops.push(obj(vec![("do", s("copy")), ("statement", n(r.below(60) as u64)), ("part", n(*r.pick(&[0, 1, 2, 2, 2, 3, 4]))), ("with", node(r).write())])),
            8 => ops.push(obj(vec![("do", s("name")), ("statement", n(r.below(60) as u64)), ("part", n(*r.pick(&[0, 2, 2, 2]))), ("term", s(r.pick(&TERMS)))])),
            _ => ops.push(obj(vec![("do", s("unname")), ("statement", n(r.below(60) as u64)), ("part", n(2))])),
        }
        for _ in 0..r.below(3) {
            if places.is_empty() {
                break;
            }
            let p = r.pick(&places).clone();
            let ty = if r.pct(85) { p.0 } else { r.pick(&favourites).name };
            let mut o = vec![("do", s("read")), ("type", s(ty)), ("inputs", p.1)];
            let g = if r.pct(90) { p.2 } else { graph(r) };
            o.extend(g.map(|g| ("graph", g)));
            if r.pct(10) {
                let site = *r.pick(&["match", "terms of", "vocabulary read"]);
                let f = Fault { site: site.into(), nth: *r.pick(&[1, 1, 2, 3, 4, 6, 9]), kind: if site == "match" && r.pct(60) { "miss" } else { "panic" }.into() };
                o.push(("faults", J::Arr(vec![f.write()])));
            }
            if often && r.pct(40) {
                o.push(("times", n(r.range(20, 100) as u64)));
            }
            ops.push(obj(o));
        }
    }
    let base = Data::new();
    Some(obj(vec![("kind", s("derive")), ("base", quads_json(&base)), ("seed", n(r.u64() >> 2)), ("fresh", J::Bool(r.pct(40))), ("ops", J::Arr(ops))]))
}
