//! C19: histories of reads from a caller's dataset in which resources have several names.

use crate::child::{self, message, n, obj};
use crate::conc::{self, account, build_store, empty_object, model, model_value};
use crate::parts::*;
use crate::Verdict;
use rdf_types::Quad;
use sched::calm;
use sim::json::{s, J};
use sim::nq::{self, Data, Term as T};
use sim::refm::{self, Layouts as Model, Names, V};
use sim::rng::Rng;
use sim::work;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use treeldr_layouts::layout::LayoutType;
use treeldr_layouts::{LayoutRegistry, Prelude, Ref};

#[derive(Clone)]
struct Op {
    layout: String,
    inputs: Vec<T>,
    graph: Option<T>,
    order: u64,
    faults: Vec<Fault>,
}

struct Case {
    files: Vec<J>,
    prelude: bool,
    data: Vec<nq::Quad>,
    /// Terms of one resource each.
    names: Vec<Vec<T>>,
    ops: Vec<Op>,
}

fn term(j: &J) -> Option<T> {
    Some(nq::parse_seq(format!("<x:s> <x:p> {} .\n", j.str()?).as_bytes()).ok()?.pop()?.2)
}

fn text(t: &T) -> J {
    s(&nq::term_text(t, &mut None))
}

fn read(j: &J) -> Option<Case> {
    let mut ops = vec![];
    for o in j.get("ops")?.arr() {
        let op = Op {
            layout: o.get("layout")?.str()?.into(),
            inputs: o.get("inputs")?.arr().iter().map(term).collect::<Option<_>>()?,
            graph: match o.get("graph") {
                Some(g) => Some(term(g)?),
                None => None,
            },
            order: o.get("order").and_then(J::int).unwrap_or(1) as u64,
            faults: o.get("faults").map(J::arr).unwrap_or(&[]).iter().map(Fault::read).collect::<Option<_>>()?,
        };
        let times = o.get("times").and_then(J::int).unwrap_or(1).clamp(1, 1000);
        ops.extend(std::iter::repeat_n(op, times as usize));
    }
    let names: Vec<Vec<T>> = j.get("names")?.arr().iter().map(|g| g.arr().iter().map(term).collect::<Option<Vec<_>>>()).collect::<Option<_>>()?;
    let mut seen = BTreeSet::new();
    let sound = names.iter().all(|g| !g.is_empty() && g.iter().all(|t| seen.insert(t.clone())));
    let c = Case { files: j.get("files")?.arr().to_vec(), prelude: j.get("prelude") == Some(&J::Bool(true)), data: quads(j.get("data")?)?, names, ops };
    (sound && !c.files.is_empty() && !c.files.iter().any(empty_object)).then_some(c)
}

pub fn also(i: &mut Interp, r: Rs, t: &T) {
    match real_term(t) {
        rdf_types::Term::Id(rdf_types::Id::Iri(x)) => {
            i.iris.insert(x.clone(), r);
            i.iris_of.entry(r).or_default().insert(x);
        }
        rdf_types::Term::Id(rdf_types::Id::Blank(b)) => {
            i.blanks.insert(b.clone(), r);
            i.blanks_of.entry(r).or_default().insert(b);
        }
        rdf_types::Term::Literal(l) => {
            i.lits.insert(l.clone(), r);
            i.lits_of.entry(r).or_default().insert(l);
        }
    }
}

fn history(c: &Case, m: &Model, ids: &[String]) -> J {
    let mut interp = Interp::default();
    for g in &c.names {
        let r = interp.fresh();
        for t in g {
            also(&mut interp, r, t);
        }
    }
    let built = match build_store(&c.files, &mut interp) {
        Ok(b) => b,
        Err(e) => return obj(vec![("refused", s(&e))]),
    };
    let prelude = c.prelude.then(|| Prelude::build_with(&mut Voc, &mut interp));
    let mut store = Store::new(1);
    for q in &c.data {
        store.add(Quad(interp.term(&q.0), interp.term(&q.1), interp.term(&q.2), q.3.as_ref().map(|g| interp.term(g))));
    }
    let data: Data = c.data.iter().cloned().collect();
    let names = Names::new(&c.names);
    let (mut steps, mut bad, mut fired) = (vec![], vec![], vec![]);
    for (k, op) in c.ops.iter().enumerate() {
        let (inputs, graph, l, id) = calm(|| {
            let inputs: Vec<Rs> = op.inputs.iter().map(|t| interp.term(t)).collect();
            let graph = op.graph.as_ref().map(|t| interp.term(t));
            let (l, id) = match op.layout.strip_prefix('#').map(|x| x.parse::<usize>()) {
                Some(Ok(i)) if i < ids.len() => (Some(built.roots[i].clone()), ids[i].clone()),
                Some(_) => (None, String::new()),
                None => (Some(Ref::<LayoutType, Rs>::new(interp.term(&T::Iri(op.layout.clone())))), op.layout.clone()),
            };
            store.seed = op.order;
            (inputs, graph, l, id)
        });
        let Some(l) = l else { continue };
        let want = calm(|| refm::hydrate_named(m, &id, &data, op.graph.as_ref(), &op.inputs, &names));
        if matches!(want, Err(V::Unsure)) {
            continue;
        }
        arm(&op.faults);
        let r = catch_unwind(AssertUnwindSafe(|| treeldr_layouts::hydrate_with(&Voc, &interp, Reg(&built.layouts).with(&prelude), &store, graph.as_ref(), &l, &inputs)));
        let a = disarm();
        calm(|| {
            let hit = !a.fired.is_empty();
            let what = match &r {
                Ok(Ok(_)) => "read",
                Ok(Err(_)) => "refused",
                Err(_) => "panicked",
            };
            steps.push(s(&format!("{what}{}", if hit { " (fault)" } else { "" })));
            match r {
                // A registry or a dataset that misses something may well lead to another value.
                Ok(_) if hit => (),
                Ok(Ok(v)) => {
                    let v = model_value(&v.into_untyped());
                    match &want {
                        Ok(h) if h.equals(&v) => (),
                        Ok(h) => bad.push(("other-value", format!("operation {k} read {v:?} instead of {h:?}"))),
                        Err(_) => bad.push(("accepted", format!("operation {k} was to be refused, and read {v:?}"))),
                    }
                }
                Ok(Err(e)) => {
                    if want.is_ok() {
                        bad.push(("refused", format!("operation {k} was refused: {e:?}")));
                    }
                }
                Err(p) => {
                    let p = message(p);
                    if !hit || p != INJECTED {
                        bad.push(("panic", format!("operation {k} panicked: {}", p.chars().take(200).collect::<String>())));
                    }
                }
            }
            fired.extend(a.fired);
        });
        if !bad.is_empty() {
            break;
        }
    }
    obj(vec![
        ("ops", J::Arr(steps)),
        ("fired", J::Arr(fired.iter().map(|f| s(f)).collect())),
        ("bad", J::Arr(bad.iter().map(|b| J::Arr(vec![s(b.0), s(&b.1.chars().take(700).collect::<String>())])).collect())),
    ])
}

pub fn judge(j: &J) -> Verdict {
    let mut v = Verdict::default();
    let Some(c) = read(j) else { return v };
    let Some((m, ids)) = model(&c.files, c.prelude) else { return v };
    let r = child::run(|| {
        let (mut r, rep) = child::solo(20_000_000, || history(&c, &m, &ids));
        if let J::Obj(o) = &mut r {
            o.push(("steps".into(), n(rep.steps)));
        }
        r
    });
    let Some(r) = account(&mut v, r, "the history") else {
        // A call that does not end or dies is judged by other properties.
        v.violations.clear();
        v.probe("history cut short");
        return v;
    };
    if r.get("refused").is_some() {
        v.probe("layouts refused");
        return v;
    }
    let mut text = String::new();
    for o in r.get("ops").map(J::arr).unwrap_or(&[]) {
        v.probe(&format!("call {}", o.str().unwrap_or("")));
        v.nontrivial |= o.str() == Some("read");
        text += o.str().unwrap_or("");
    }
    v.hash = sim::rng::hash(format!("{text} {}", v.steps).as_bytes());
    for b in r.get("bad").map(J::arr).unwrap_or(&[]) {
        v.bad(b.arr()[0].str().unwrap_or(""), b.arr()[1].str().unwrap_or("").to_string());
    }
    v
}

/// Groups of terms, and the dataset with some terms replaced by their equals.
fn names(r: &mut Rng, d: &Data, m: &Model) -> (Vec<Vec<T>>, Data) {
    let mut of: BTreeMap<T, Vec<T>> = BTreeMap::new();
    let mut pool: Vec<T> = d.iter().flat_map(|q| [q.0.clone(), q.1.clone(), q.2.clone(), q.2.clone(), q.2.clone()].into_iter().chain(q.3.clone())).collect();
    let types: Vec<T> = pool.iter().filter_map(|t| if let T::Lit(_, Ok(dt)) = t { Some(T::Iri(dt.clone())) } else { None }).collect();
    let lits: Vec<T> = pool.iter().filter(|t| matches!(t, T::Lit(..))).cloned().collect();
    pool.extend(types.clone());
    let free = |t: &T| !matches!(t, T::Iri(i) if m.contains_key(i));
    pool.retain(free);
    if pool.is_empty() {
        return (vec![], d.clone());
    }
    let mut taken: BTreeSet<T> = BTreeSet::new();
    // What is added is often nothing that a layout reads.
    let harmless = r.pct(50);
    for k in 0..r.range(1, 6) {
        let t = match r.below(10) {
            0..=4 if !lits.is_empty() => r.pick(&lits).clone(),
            5 | 6 if !types.is_empty() => r.pick(&types).clone(),
            _ => r.pick(&pool).clone(),
        };
        if taken.contains(&t) {
            continue;
        }
        taken.insert(t.clone());
        let mut g = vec![];
        for i in 0..*r.pick(&[1, 1, 2, 3]) {
            let lit = |dt: &str, v: String| T::Lit(v, Ok(dt.to_string()));
            let what = if harmless { *r.pick(&[0, 1, 2, 3, 4, 5]) } else { r.below(8) };
            let x = match (what, &t) {
                (0, _) => T::Blank(format!("also{k}x{i}")),
                // Sorted before and after the others.
                (1, _) => T::Iri(format!("a:also{k}x{i}")),
                (2, _) => T::Iri(format!("zz:also{k}x{i}")),
                (3 | 4, _) => T::Lit(r.pick(&["also", "7", "~", "", "!", "\u{1}"]).to_string(), Err(r.pick(&["en", "fr", "de"]).to_string())),
                (5, _) => lit(r.pick(&["a:type", "zz:type", "http://www.w3.org/2001/XMLSchema#anyURI"]), r.pick(&["1", "true", "\u{1}", "zz"]).to_string()),
                (6, T::Lit(v, Ok(dt))) if r.pct(30) => lit(&dt.clone(), r.pick(&[format!("0{v}"), "1".to_string(), "true".into(), v.to_uppercase(), "not of the type".into()]).clone()),
                (6, _) => T::Blank(format!("zalso{k}x{i}")),
                _ => r.pick(&pool).clone(),
            };
            if x != t && !taken.contains(&x) {
                taken.insert(x.clone());
                g.push(x);
            }
        }
        if !g.is_empty() {
            of.insert(t, g);
        }
    }
    // What may stand where, in statements.
    let swaps = if r.pct(40) { 0 } else { 40 };
    let mut swap = |t: &T, place: usize| match of.get(t) {
        Some(g) if r.pct(swaps) => match r.pick(g) {
            x @ T::Iri(_) => x.clone(),
            x @ T::Blank(_) if place != 1 => x.clone(),
            x if place == 2 => x.clone(),
            _ => t.clone(),
        },
        _ => t.clone(),
    };
    let mut out = Data::new();
    for q in d {
        out.insert((swap(&q.0, 0), swap(&q.1, 1), swap(&q.2, 2), q.3.as_ref().map(|g| swap(g, 3))));
    }
    let mut groups = vec![];
    for (t, mut g) in of {
        g.push(t);
        r.shuffle(&mut g);
        groups.push(g);
    }
    (groups, out)
}

pub fn case(r: &mut Rng) -> Option<J> {
    let (files, prelude, m, ids, mut w) = conc::world(r)?;
    w.layouts = Some(m.clone());
    let (d, subs) = work::dataset(r, &w);
    let mut d: Data = if d.len() > 80 { d.into_iter().take(80).collect() } else { d };
    // Reads within a graph.
    let graph = r.pct(20).then(|| if r.pct(70) { T::Iri("https://ex.org/in".into()) } else { T::Blank("in".into()) });
    if let Some(g) = &graph {
        d = d.into_iter().map(|q| (q.0, q.1, q.2, Some(q.3.unwrap_or_else(|| g.clone())))).collect();
    }
    let (groups, d) = if r.pct(80) { names(r, &d, &m) } else { (vec![], d) };
    let known = Names::new(&groups);
    let mut ops = vec![];
    // Failures over and over again.
    let often = r.pct(2);
    let count = r.range(1, 6);
    for _ in 0..count * 3 {
        if ops.len() >= count {
            break;
        }
        let (name, id) = if r.pct(60) { conc::target(r, &m, &ids, &w.root) } else { conc::target(r, &m, &ids, &None) };
        let mut inputs = subs.clone();
        if Some(&id) != w.root.as_ref() {
            // A resource where such a layout may fit: any of the dataset.
            let nodes: Vec<&T> = d.iter().map(|q| if r.pct(40) { &q.0 } else { &q.2 }).collect();
            inputs = (0..refm::inputs_of(&m, &id)).filter_map(|_| if nodes.is_empty() { None } else { Some((*r.pick(&nodes)).clone()) }).collect();
        }
        let g = match &graph {
            Some(g) if r.pct(85) => Some(g.clone()),
            None if r.pct(4) => Some(T::Iri("https://ex.org/g1".into())),
            _ => None,
        };
        if matches!(refm::hydrate_named(&m, &id, &d, g.as_ref(), &inputs, &known), Err(V::Unsure)) {
            continue;
        }
        for t in &mut inputs {
            if let Some(g) = groups.iter().find(|g| g.contains(t)) {
                *t = r.pick(g).clone();
            }
        }
        let mut o = vec![("layout", s(&name)), ("inputs", J::Arr(inputs.iter().map(text).collect())), ("order", n(r.u64() >> 2))];
        if let Some(g) = &g {
            o.push(("graph", text(g)));
        }
        if r.pct(15) {
            let site = *r.pick(&["registry", "match", "terms of", "vocabulary read"]);
            let kind = if matches!(site, "registry" | "match") && r.pct(50) { "miss" } else { "panic" };
            let f = Fault { site: site.into(), nth: *r.pick(&[1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 10, 15, 25]), kind: kind.into() };
            o.push(("faults", J::Arr(vec![f.write()])));
        }
        if often && r.pct(60) {
            o.push(("times", n(r.range(20, 300) as u64)));
        }
        ops.push(obj(o));
    }
    if ops.is_empty() {
        return None;
    }
    Some(obj(vec![
        ("kind", s("reads")),
        ("files", J::Arr(files)),
        ("prelude", J::Bool(prelude)),
        ("data", quads_json(&d)),
        ("names", J::Arr(groups.iter().map(|g| J::Arr(g.iter().map(text).collect())).collect())),
        ("ops", J::Arr(ops)),
    ]))
}
