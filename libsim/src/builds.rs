//! C16: histories of additions to layout builders, and lookups through combined collections.

use crate::child::{self, message, n, obj};
use crate::conc::{self, account, empty_object};
use crate::parts::*;
use crate::Verdict;
use iref::IriBuf;
use rdf_types::{BlankIdBuf, Generator, Id, Term};
use sched::calm;
use sim::json::{self, s, J};
use sim::refm;
use sim::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use treeldr_layouts::abs::{self, syntax};
use treeldr_layouts::layout::LayoutType;
use treeldr_layouts::{Layout, LayoutRegistry, LayoutRegistryUnion, Layouts, Prelude, Ref};

// ---- sources of names ----

/// Names in increasing order, as blank nodes or IRIs.
#[derive(Clone)]
struct Counter {
    next: u64,
    iri: bool,
}

impl Generator for Counter {
    fn next(&mut self, _: &mut ()) -> Id<IriBuf, BlankIdBuf> {
        name_call();
        calm(|| {
            self.next += 1;
            match self.iri {
                true => Id::Iri(IriBuf::new(format!("https://names.ex/a{:06}", self.next)).unwrap()),
                false => Id::Blank(BlankIdBuf::new(format!("_:a{:06}", self.next)).unwrap()),
            }
        })
    }
}

// ---- what a collection says ----

/// The definition of each layout, as text; its own ids are left as they are.
type Defs = BTreeMap<String, String>;

fn defs<R: std::fmt::Debug>(l: &Layouts<R>) -> Defs {
    l.iter().map(|(k, v)| (key(k.id()), format!("{v:?}"))).collect()
}
fn key<R: std::fmt::Debug>(r: &R) -> String {
    format!("{r:?}")
}

/// The next anonymous id in a text: its place. Quotes within a string are escaped in such a
/// text, so that no string looks like an id.
fn token(t: &str) -> Option<(usize, usize)> {
    let skip = |p: &str| p.find('"').unwrap() + 1;
    let a = [r#"Blank("_:"#, r#"Iri("https://names.ex/"#].iter().filter_map(|p| t.find(p).map(|i| i + skip(p))).min()?;
    let b = t[a..].find('"').map(|i| a + i).unwrap_or(t.len());
    Some((a, b))
}

/// The definition of a layout and of the anonymous ones it uses, whatever their names.
fn shape(d: &Defs, id: &str, keys: &BTreeMap<String, String>) -> String {
    let mut names: Vec<String> = vec![];
    let mut out = rename(d.get(id).map(String::as_str).unwrap_or("undefined"), &mut names);
    let mut i = 0;
    while i < names.len() && i < 500 {
        let k = keys.get(&names[i]).cloned().unwrap_or_default();
        let t = d.get(&k).map(String::as_str).unwrap_or("undefined").to_string();
        out += &format!("\n{i} = {}", rename(&t, &mut names));
        i += 1;
    }
    out
}

fn rename(t: &str, names: &mut Vec<String>) -> String {
    let mut out = String::new();
    let mut t = t;
    while let Some((a, b)) = token(t) {
        let name = &t[a..b];
        let k = names.iter().position(|x| x == name).unwrap_or_else(|| {
            names.push(name.to_string());
            names.len() - 1
        });
        out += &format!("{}?{k}", &t[..a]);
        t = &t[b..];
    }
    out + t
}

fn anonymous(key: &str) -> bool {
    token(key).is_some()
}

/// The anonymous name in each anonymous key.
fn by_name(d: &Defs) -> BTreeMap<String, String> {
    d.keys().filter_map(|k| token(k).map(|(a, b)| (k[a..b].to_string(), k.clone()))).collect()
}

// ---- the case ----

/// Whether a layout has a constant beyond serde's own numbers.
fn decimal(j: &J, within: bool) -> bool {
    match j {
        J::Num(n) => within && n.parse::<i64>().is_err(),
        J::Arr(a) => a.iter().any(|x| decimal(x, within)),
        J::Obj(o) => o.iter().any(|e| decimal(&e.1, within || e.0 == "const")),
        _ => false,
    }
}

/// Reads a layout text. What one reader makes of it, another one accepting it makes too.
fn parse(run: &mut Run, k: usize, j: &J, serde: bool) -> Result<syntax::Layout, String> {
    let here = serde_json::from_str(&json::text(j)).map_err(|e| e.to_string());
    let there = conc::syntax(j);
    if let (Ok(a), Ok(b)) = (&here, &there) {
        if a != b && !decimal(j, false) {
            run.bad("reading", format!("step {k}: {} is read as {a:?} or {b:?}", json::text(j)));
        }
    }
    match serde {
        true => here,
        false => there,
    }
}

struct Run {
    bad: Vec<(String, String)>,
    did: Vec<String>,
    fired: Vec<String>,
}

impl Run {
    fn bad(&mut self, class: &str, what: String) {
        self.bad.push((class.into(), what.chars().take(700).collect()));
    }
}

/// What is known of a builder.
#[derive(Default)]
struct Known {
    defs: Defs,
    /// Named layouts a failed addition may have left behind.
    left: BTreeSet<String>,
}

fn outcome<T>(r: Result<Result<T, abs::syntax::BuildError>, Box<dyn std::any::Any + Send>>) -> Result<T, String> {
    match r {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(e.to_string()),
        Err(p) => Err(format!("panic: {}", message(p))),
    }
}

/// What an addition did, against what it does alone.
#[allow(clippy::too_many_arguments)]
fn judge_addition(
    run: &mut Run,
    k: usize,
    known: &mut Known,
    now: Defs,
    got: &Result<String, String>,
    hit: bool,
    alone: &Result<String, String>,
    alone_defs: &Defs,
    named: &dyn Fn(&str) -> bool,
    renamed: bool,
) {
    let mine: BTreeSet<&String> = alone_defs.keys().filter(|k| named(k)).collect();
    let clash: Vec<&&String> = mine.iter().filter(|k| known.defs.contains_key(**k) && !known.left.contains(**k)).collect();
    let with_left = mine.iter().any(|k| known.left.contains(*k));
    if let Err(e) = got {
        if e.starts_with("panic") && !(hit && e.ends_with(INJECTED)) {
            run.bad("panic", format!("step {k}: {e}"));
        }
    }
    if !hit {
        match (alone, got) {
            (Ok(_), Err(e)) if clash.is_empty() && !with_left => run.bad("refused", format!("step {k}: accepted alone, and refused here: {e}")),
            (Ok(_), Ok(_)) if !clash.is_empty() => run.bad("redefined", format!("step {k}: {} was defined already", clash[0])),
            (Err(e), Ok(_)) => run.bad("accepted", format!("step {k}: refused alone ({e}), and accepted here")),
            _ => (),
        }
    }
    // What was defined before is still there, and the same.
    for (id, d) in &known.defs {
        match now.get(id) {
            Some(e) if e == d => (),
            _ if known.left.contains(id) && got.is_ok() && mine.contains(id) => (),
            Some(e) => run.bad("changed", format!("step {k} ({}) changed {id} from {d} to {e}", if got.is_ok() { "accepted" } else { "refused" })),
            None => run.bad("removed", format!("step {k} removed {id}")),
        }
    }
    let new: BTreeSet<&String> = now.keys().filter(|x| !known.defs.contains_key(*x)).collect();
    match got {
        Ok(root) if !hit => {
            let want: BTreeSet<&String> = mine.iter().filter(|x| !known.defs.contains_key(**x)).copied().collect();
            let have: BTreeSet<&String> = new.iter().filter(|x| named(x)).copied().collect();
            if want != have {
                run.bad("other-layouts", format!("step {k} defined {have:?} instead of {want:?}"));
            }
            let (a, b) = (alone_defs.len() - mine.len(), new.iter().filter(|x| !named(x)).count());
            if a != b {
                run.bad("anonymous-layouts", format!("step {k} made {b} anonymous layouts, and {a} when alone"));
            }
            if let Ok(alone_root) = alone {
                let (k1, k2) = (by_name(alone_defs), by_name(&now));
                let pairs = mine.iter().map(|x| (x.to_string(), x.to_string())).chain([(alone_root.clone(), root.clone())]);
                for (x, y) in pairs {
                    let (a, b) = match renamed {
                        true => (shape(alone_defs, &x, &k1), shape(&now, &y, &k2)),
                        false => (alone_defs.get(&x).cloned().unwrap_or_default(), now.get(&y).cloned().unwrap_or_default()),
                    };
                    if a != b {
                        run.bad("other-definition", format!("step {k}: {y} is {b} instead of {a}"));
                    }
                }
            }
        }
        _ => {
            // What it could define before it failed.
            for x in new {
                if named(x) {
                    if alone.is_ok() && !mine.contains(x) {
                        run.bad("other-layouts", format!("step {k} failed and defined {x}"));
                    }
                    known.left.insert(x.clone());
                }
            }
        }
    }
    if got.is_ok() {
        for x in mine {
            known.left.remove(x);
        }
    }
    known.defs = now;
}

struct Step<'a> {
    j: &'a J,
    faults: Vec<Fault>,
}

fn terms_history(c: &J, steps: &[Step], run: &mut Run) {
    let count = c.get("builders").and_then(J::int).unwrap_or(1).clamp(1, 4) as usize;
    let mut builders: Vec<abs::Builder> = (0..count).map(|_| abs::Builder::new()).collect();
    let mut known: Vec<Known> = (0..count).map(|_| Known::default()).collect();
    let mut shared = Counter { next: 0, iri: c.get("iri") == Some(&J::Bool(true)) };
    for (k, st) in steps.iter().enumerate() {
        let j = st.j;
        let to = j.get("to").and_then(J::int).unwrap_or(0) as usize % count;
        let source = j.get("source").and_then(J::str).unwrap_or("own");
        match j.get("do").and_then(J::str) {
            Some("add") => {
                let Some(l) = j.get("layout") else { continue };
                let Ok(l) = calm(|| parse(run, k, l, j.get("serde") == Some(&J::Bool(true)))) else { continue };
                let offset = j.get("offset").and_then(J::int).unwrap_or(0) as u64;
                let build = |b: &mut abs::Builder, shared: &mut Counter| match source {
                    "own" => l.build(b),
                    "shared" => l.build_with_context(&mut b.with_generator_mut(shared)),
                    _ => l.build_with_context(&mut b.with_generator_mut(Counter { next: offset, iri: false })),
                };
                let mut fresh = abs::Builder::new();
                let mut copy = shared.clone();
                let alone = outcome(catch_unwind(AssertUnwindSafe(|| build(&mut fresh, &mut copy)))).map(|r| key(r.id()));
                let alone_defs = calm(|| defs(&fresh.build()));
                arm(&st.faults);
                let got = outcome(catch_unwind(AssertUnwindSafe(|| build(&mut builders[to], &mut shared)))).map(|r| key(r.id()));
                let a = disarm();
                let now = builders[to].build();
                calm(|| {
                    let now = defs(&now);
                    run.did.push(format!("add {}{}", if got.is_ok() { "accepted" } else { "refused" }, if a.fired.is_empty() { "" } else { " (fault)" }));
                    run.fired.extend(a.fired.iter().cloned());
                    judge_addition(run, k, &mut known[to], now, &got, !a.fired.is_empty(), &alone, &alone_defs, &|x| !anonymous(x), true);
                });
            }
            Some("put") => {
                let Some(id) = j.get("id").and_then(J::str).and_then(|i| IriBuf::new(i.to_string()).ok()) else { continue };
                let id = Term::iri(id);
                let l = if j.get("always") == Some(&J::Bool(true)) { abs::Layout::Always } else { abs::Layout::Never };
                let text = format!("{:?}", if matches!(l, abs::Layout::Always) { Layout::<Term>::Always } else { Layout::Never });
                let was = known[to].defs.get(&key(&id)).cloned();
                let b = &mut builders[to];
                let how = j.get("how").and_then(J::str).unwrap_or("insert");
                let old = match how {
                    "insert" => Some(b.insert(id.clone(), l).1.is_some()),
                    "insert_with" => Some(b.insert_with(id.clone(), |_| l).1.is_some()),
                    _ => {
                        b.get_or_insert_with(Ref::new(id.clone()), |_| l);
                        None
                    }
                };
                let now = calm(|| defs(&b.build()));
                calm(|| {
                    run.did.push(format!("put {how}"));
                    if old.is_some_and(|o| o != was.is_some()) {
                        run.bad("put", format!("step {k}: insertion of {} reported {old:?} for {was:?}", key(&id)));
                    }
                    let mut want = known[to].defs.clone();
                    if old.is_some() || was.is_none() {
                        want.insert(key(&id), text);
                    }
                    if now != want {
                        run.bad("put", format!("step {k}: after {how} of {}: {now:?} instead of {want:?}", key(&id)));
                    }
                    known[to].left.remove(&key(&id));
                    known[to].defs = now;
                });
            }
            Some("look") => look(run, k, j, &builders),
            Some("merge") => merge(run, k, to, j, &builders),
            _ => (),
        }
        if !run.bad.is_empty() {
            return;
        }
    }
}

// ---- combined collections ----

enum Reg2<'a> {
    Leaf(&'a Layouts),
    Prelude,
    With(Box<Reg2<'a>>, Box<Reg2<'a>>),
    IntoWith(Box<Reg2<'a>>, Box<Reg2<'a>>),
    Union(Box<Reg2<'a>>, Box<Reg2<'a>>),
    Some(Box<Reg2<'a>>),
    None,
    Ref(Box<Reg2<'a>>),
}

fn lives<'a>(x: Option<&Layout>) -> Option<&'a Layout> {
    // The layout is in one of the collections, which outlive all the combinations.
    unsafe { std::mem::transmute(x) }
}

impl LayoutRegistry for Reg2<'_> {
    fn get(&self, id: &Ref<LayoutType>) -> Option<&Layout> {
        lives(match self {
            Reg2::Leaf(l) => LayoutRegistry::get(*l, id),
            Reg2::Prelude => return Prelude.get(id),
            Reg2::With(a, b) => return lives(a.with(&**b).get(id)),
            Reg2::IntoWith(a, b) => return lives((&**a).into_with(&**b).get(id)),
            Reg2::Union(a, b) => return lives(LayoutRegistryUnion(&**b, &**a).get(id)),
            Reg2::Some(a) => return lives(Some(&**a).get(id)),
            Reg2::None => return lives(None::<&Reg2>.get(id)),
            Reg2::Ref(a) => return lives((&&**a).get(id)),
        })
    }
    fn contains(&self, id: &Ref<LayoutType>) -> bool {
        match self {
            Reg2::Leaf(l) => LayoutRegistry::contains(*l, id),
            Reg2::Prelude => Prelude.contains(id),
            Reg2::With(a, b) => a.with(&**b).contains(id),
            Reg2::IntoWith(a, b) => (&**a).into_with(&**b).contains(id),
            Reg2::Union(a, b) => LayoutRegistryUnion(&**b, &**a).contains(id),
            Reg2::Some(a) => Some(&**a).contains(id),
            Reg2::None => None::<&Reg2>.contains(id),
            Reg2::Ref(a) => (&&**a).contains(id),
        }
    }
}

fn combine<'a>(j: &J, ls: &'a [Layouts], depth: usize) -> Option<Reg2<'a>> {
    if depth > 12 {
        return None;
    }
    let two = |k: &str| -> Option<(Box<Reg2<'a>>, Box<Reg2<'a>>)> {
        match j.get(k)?.arr() {
            [a, b] => Some((Box::new(combine(a, ls, depth + 1)?), Box::new(combine(b, ls, depth + 1)?))),
            _ => None,
        }
    };
    Some(match j {
        J::Num(_) => Reg2::Leaf(ls.get(j.int()? as usize)?),
        J::Str(x) if x == "prelude" => Reg2::Prelude,
        J::Null => Reg2::None,
        J::Obj(o) => match o.first()?.0.as_str() {
            "with" => two("with").map(|(a, b)| Reg2::With(a, b))?,
            "into" => two("into").map(|(a, b)| Reg2::IntoWith(a, b))?,
            "union" => two("union").map(|(a, b)| Reg2::Union(a, b))?,
            "some" => Reg2::Some(Box::new(combine(j.get("some")?, ls, depth + 1)?)),
            "ref" => Reg2::Ref(Box::new(combine(j.get("ref")?, ls, depth + 1)?)),
            _ => return None,
        },
        _ => return None,
    })
}

/// The collections of a combination, first one first.
fn order<'a>(r: &Reg2<'a>, out: &mut Vec<Option<&'a Layouts>>) {
    match r {
        Reg2::Leaf(l) => out.push(Some(l)),
        Reg2::Prelude => out.push(None),
        Reg2::With(a, b) | Reg2::IntoWith(a, b) | Reg2::Union(a, b) => {
            order(a, out);
            order(b, out);
        }
        Reg2::Some(a) | Reg2::Ref(a) => order(a, out),
        Reg2::None => (),
    }
}

fn look(run: &mut Run, k: usize, j: &J, builders: &[abs::Builder]) {
    let ls: Vec<Layouts> = builders.iter().map(|b| b.build()).collect();
    let prelude = Prelude::build();
    let Some(reg) = calm(|| j.get("shape").and_then(|x| combine(x, &ls, 0))) else { return };
    let mut ids: BTreeSet<Term> = calm(|| ls.iter().chain([&prelude]).flat_map(|l| l.iter().map(|x| x.0.id().clone())).collect());
    ids.insert(Term::iri(IriBuf::new("https://nowhere.ex/".to_string()).unwrap()));
    let mut first = vec![];
    order(&reg, &mut first);
    for id in ids {
        let r: Ref<LayoutType> = Ref::new(id.clone());
        let got = reg.get(&r);
        let has = reg.contains(&r);
        calm(|| {
            let want = first.iter().find_map(|l| l.unwrap_or(&prelude).layout(&id));
            let (w, g) = (want.map(|x| format!("{x:?}")), got.map(|x| format!("{x:?}")));
            if w != g {
                run.bad("lookup", format!("step {k}: {} is {g:?} instead of {w:?}", key(&id)));
            }
            if has != w.is_some() {
                run.bad("contains", format!("step {k}: contains({}) is {has}", key(&id)));
            }
        });
    }
    run.did.push("look".into());
}

/// A collection made of several others, layout by layout.
fn merge(run: &mut Run, k: usize, to: usize, j: &J, builders: &[abs::Builder]) {
    let mut all: Layouts = builders[to].build();
    let mut want = calm(|| defs(&all));
    for x in j.get("from").map(J::arr).unwrap_or(&[]) {
        let Some(b) = x.int().and_then(|x| builders.get(x as usize)) else { continue };
        let from = b.build();
        let texts = calm(|| defs(&from));
        if from.iter().count() != texts.len() {
            run.bad("merge", format!("step {k}: {} of {} layouts are enumerated", from.iter().count(), texts.len()));
        }
        for (r, l) in from {
            let id = r.id().clone();
            let had = want.contains_key(&key(&id));
            let old = all.insert(id.clone(), l).1;
            if old.as_ref().map(|o| format!("{o:?}")) != want.get(&key(&id)).cloned() {
                run.bad("merge", format!("step {k}: insertion of {} returned {old:?}, had {had}", key(&id)));
            }
            want.insert(key(&id), texts[&key(&id)].clone());
        }
    }
    if defs(&all) != want {
        run.bad("merge", format!("step {k}: {:?} instead of {want:?}", defs(&all)));
    }
    for (r, l) in &all {
        if LayoutRegistry::get(&all, r).map(|x| format!("{x:?}")) != Some(format!("{l:?}")) {
            run.bad("lookup", format!("step {k}: {} is not found as enumerated", key(r.id())));
        }
    }
    run.did.push("merge".into());
}

fn resources_history(c: &J, steps: &[Step], run: &mut Run) {
    let count = c.get("builders").and_then(J::int).unwrap_or(1).clamp(1, 4) as usize;
    let mut builders: Vec<abs::Builder<Rs>> = (0..count).map(|_| abs::Builder::new()).collect();
    let mut known: Vec<Known> = (0..count).map(|_| Known::default()).collect();
    let mut interp = Interp::default();
    for (k, st) in steps.iter().enumerate() {
        let j = st.j;
        let to = j.get("to").and_then(J::int).unwrap_or(0) as usize % count;
        if j.get("do").and_then(J::str) != Some("add") {
            continue;
        }
        let Some(l) = j.get("layout") else { continue };
        let Ok(l) = calm(|| parse(run, k, l, j.get("serde") == Some(&J::Bool(true)))) else { continue };
        let mut fresh = abs::Builder::new();
        let mut copy = interp.clone();
        let alone = outcome(catch_unwind(AssertUnwindSafe(|| l.build_with_interpretation(&mut Voc, &mut copy, &mut fresh)))).map(|r| key(r.id()));
        let alone_defs = calm(|| defs(&fresh.build()));
        arm(&st.faults);
        let got = outcome(catch_unwind(AssertUnwindSafe(|| l.build_with_interpretation(&mut Voc, &mut interp, &mut builders[to])))).map(|r| key(r.id()));
        let a = disarm();
        let now = builders[to].build();
        calm(|| {
            run.did.push(format!("add {}{}", if got.is_ok() { "accepted" } else { "refused" }, if a.fired.is_empty() { "" } else { " (fault)" }));
            run.fired.extend(a.fired.iter().cloned());
            let named: BTreeSet<String> = interp.iris_of.keys().chain(copy.iris_of.keys()).map(key).collect();
            judge_addition(run, k, &mut known[to], defs(&now), &got, !a.fired.is_empty(), &alone, &alone_defs, &|x| named.contains(x), false);
        });
        if !run.bad.is_empty() {
            return;
        }
    }
}

pub fn judge(j: &J) -> Verdict {
    let mut v = Verdict::default();
    let mut steps = vec![];
    for st in j.get("steps").map(J::arr).unwrap_or(&[]) {
        if st.get("layout").is_some_and(empty_object) {
            return v;
        }
        let Some(faults) = st.get("faults").map(J::arr).unwrap_or(&[]).iter().map(Fault::read).collect::<Option<Vec<_>>>() else { return v };
        let times = st.get("times").and_then(J::int).unwrap_or(1).clamp(1, 1000);
        steps.extend((0..times).map(|_| Step { j: st, faults: faults.clone() }));
    }
    let n_steps = steps.len();
    let r = child::run(|| {
        let (run, rep) = child::solo(200_000_000, || {
            let mut run = Run { bad: vec![], did: vec![], fired: vec![] };
            match j.get("mode").and_then(J::str) {
                Some("resources") => resources_history(j, &steps, &mut run),
                _ => terms_history(j, &steps, &mut run),
            }
            run
        });
        obj(vec![
            ("did", J::Arr(run.did.iter().map(|x| s(x)).collect())),
            ("fired", J::Arr(run.fired.iter().map(|x| s(x)).collect())),
            ("bad", J::Arr(run.bad.iter().map(|b| J::Arr(vec![s(&b.0), s(&b.1)])).collect())),
            ("steps", n(rep.steps)),
        ])
    });
    let Some(r) = account(&mut v, r, "the history") else {
        if n_steps > 40 {
            // Many calls may well need that many steps.
            v.violations.retain(|x| x.0 != "no-end");
            v.probe("history cut short");
        }
        return v;
    };
    let did = r.get("did").map(J::arr).unwrap_or(&[]);
    v.nontrivial = did.len() > 1;
    let mut text = String::new();
    for d in did {
        v.probe(d.str().unwrap_or(""));
        text += d.str().unwrap_or("");
    }
    v.hash = sim::rng::hash(format!("{text} {}", v.steps).as_bytes());
    for b in r.get("bad").map(J::arr).unwrap_or(&[]) {
        v.bad(b.arr()[0].str().unwrap_or(""), b.arr()[1].str().unwrap_or("").to_string());
    }
    v
}

// ---- generation ----

/// Applies `f` to the `k`-th object that is a layout.
fn at_layout(j: &mut J, k: &mut usize, f: &mut dyn FnMut(&mut Vec<(String, J)>)) {
    match j {
        J::Arr(a) => a.iter_mut().for_each(|x| at_layout(x, k, f)),
        J::Obj(o) => {
            if o.iter().any(|e| e.0 == "type") {
                if *k == 0 {
                    f(o);
                }
                *k = k.wrapping_sub(1);
            }
            o.iter_mut().for_each(|x| at_layout(&mut x.1, k, f));
        }
        _ => (),
    }
}
fn layouts_in(j: &J) -> usize {
    match j {
        J::Arr(a) => a.iter().map(layouts_in).sum(),
        J::Obj(o) => o.iter().any(|e| e.0 == "type") as usize + o.iter().map(|x| layouts_in(&x.1)).sum::<usize>(),
        _ => 0,
    }
}
fn at_string(j: &mut J, k: &mut usize, f: &mut dyn FnMut(&mut String)) {
    match j {
        J::Arr(a) => a.iter_mut().for_each(|x| at_string(x, k, f)),
        J::Obj(o) => o.iter_mut().filter(|e| e.0 != "type").for_each(|x| at_string(&mut x.1, k, f)),
        J::Str(x) => {
            if *k == 0 {
                f(x);
            }
            *k = k.wrapping_sub(1);
        }
        _ => (),
    }
}
fn strings_in(j: &J) -> usize {
    match j {
        J::Arr(a) => a.iter().map(strings_in).sum(),
        J::Obj(o) => o.iter().filter(|e| e.0 != "type").map(|x| strings_in(&x.1)).sum(),
        J::Str(_) => 1,
        _ => 0,
    }
}

fn ids_in(j: &J, out: &mut Vec<String>) {
    match j {
        J::Arr(a) => a.iter().for_each(|x| ids_in(x, out)),
        J::Obj(o) => {
            if let Some(J::Str(x)) = j.get("id") {
                if x.contains("://") {
                    out.push(x.clone());
                }
            }
            o.iter().for_each(|x| ids_in(&x.1, out));
        }
        _ => (),
    }
}

fn edit(r: &mut Rng, j: &mut J, pool: &[String]) {
    let count = layouts_in(j);
    match r.below(8) {
        0..=2 if count > 0 && !pool.is_empty() => {
            let id = r.pick(pool).clone();
            at_layout(j, &mut r.below(count), &mut |o| {
                o.retain(|e| e.0 != "id");
                o.push(("id".into(), s(&id)));
            });
        }
        3 | 4 if count > 0 => at_layout(j, &mut r.below(count), &mut |o| o.retain(|e| e.0 != "id")),
        5 => {
            let count = strings_in(j);
            if count > 0 {
                let to = r.pick(&["undeclared:x", "_:nope", "relative", "", "https://ex.org/p0", "_:self"]).to_string();
                at_string(j, &mut r.below(count), &mut |x| *x = to.clone());
            }
        }
        6 if count > 0 => at_layout(j, &mut r.below(count), &mut |o| {
            o.retain(|e| !matches!(e.0.as_str(), "intro" | "input"));
        }),
        7 if count > 0 => {
            let k = r.below(100) as u64;
            at_layout(j, &mut r.below(count), &mut |o| {
                o.retain(|e| e.0 != "id");
                o.push(("id".into(), s(&format!("https://ex.org/fresh{k}"))));
            });
        }
        _ => (),
    }
}

/// Gives every layout an identifier of its own.
fn settle(r: &mut Rng, j: &mut J) {
    let count = layouts_in(j);
    let tag = r.below(1_000_000);
    for k in 0..count {
        at_layout(j, &mut { k }, &mut |o| {
            for e in o.iter_mut() {
                if e.0 == "id" {
                    e.1 = s(&format!("https://ex.org/L{tag}x{k}"));
                }
            }
        });
    }
}

fn combination(r: &mut Rng, count: usize, depth: usize) -> J {
    if depth == 0 || r.pct(25) {
        return match r.below(8) {
            0 => s("prelude"),
            1 => J::Null,
            _ => n(r.below(count) as u64),
        };
    }
    match r.below(5) {
        k @ 0..=2 => obj(vec![(["with", "into", "union"][k], J::Arr(vec![combination(r, count, depth - 1), combination(r, count, depth - 1)]))]),
        3 => obj(vec![("some", combination(r, count, depth - 1))]),
        _ => obj(vec![("ref", combination(r, count, depth - 1))]),
    }
}

pub fn case(r: &mut Rng) -> Option<J> {
    let mut stock: Vec<J> = vec![];
    for _ in 0..r.range(1, 3) {
        stock.extend(conc::world(r)?.0);
    }
    let resources = r.pct(30);
    let count = r.range(1, 3);
    let mut pool: Vec<String> = vec![];
    stock.iter().for_each(|j| ids_in(j, &mut pool));
    pool.push(format!("{}{}", sim::gen::PRE, r.pick(&refm::PRELUDE)));
    let mut steps = vec![];
    // The same addition over and over again.
    let often = r.pct(2);
    for _ in 0..r.range(2, 10) {
        let to = n(r.below(count) as u64);
        match r.below(14) {
            0..=9 => {
                let mut l = r.pick(&stock).clone();
                // Part of a layout is a layout too.
                let inner = layouts_in(&l);
                if inner > 1 && r.pct(25) {
                    let mut part = None;
                    at_layout(&mut l, &mut r.below(inner), &mut |o| part = Some(J::Obj(o.clone())));
                    l = part.unwrap_or(l);
                }
                if r.pct(50) {
                    settle(r, &mut l);
                }
                for _ in 0..*r.pick(&[0, 0, 0, 1, 1, 2, 3]) {
                    edit(r, &mut l, &pool);
                }
                if r.pct(3) {
                    l = J::Bool(r.pct(50));
                }
                if empty_object(&l) {
                    continue;
                }
                ids_in(&l, &mut pool);
                let union = json::text(&l).contains("union") || json::text(&l).contains("intersection");
                let source = if union { "shared" } else { r.pick(&["own", "own", "shared", "shared", "from"]) };
                let mut o = vec![("do", s("add")), ("to", to), ("layout", l), ("source", s(source))];
                if source == "from" {
                    o.push(("offset", n(r.below(5) as u64)));
                }
                if r.pct(30) {
                    o.push(("serde", J::Bool(true)));
                }
                if r.pct(20) {
                    let site = if resources { *r.pick(&["new resource", "vocabulary", "interpret"]) } else { "name" };
                    let f = Fault { site: site.into(), nth: *r.pick(&[1, 1, 2, 2, 3, 4, 6, 9]), kind: "panic".into() };
                    o.push(("faults", J::Arr(vec![f.write()])));
                }
                if often && r.pct(50) {
                    o.push(("times", n(r.range(20, 60) as u64)));
                }
                steps.push(obj(o));
            }
            10 => steps.push(obj(vec![("do", s("put")), ("to", to), ("id", s(r.pick(&pool))), ("always", J::Bool(r.pct(50))), ("how", s(r.pick(&["insert", "insert_with", "get_or_insert_with"])))])),
            11 => {
                let d = r.range(1, 5);
                steps.push(obj(vec![("do", s("look")), ("shape", combination(r, count, d))]));
            }
            12 => steps.push(obj(vec![("do", s("merge")), ("to", to), ("from", J::Arr((0..r.range(1, 3)).map(|_| n(r.below(count) as u64)).collect()))])),
            _ => {
                // The very same addition again.
                if let Some(x) = steps.iter().rev().find(|x| x.get("do").and_then(J::str) == Some("add")).cloned() {
                    steps.push(x);
                }
            }
        }
    }
    Some(obj(vec![
        ("kind", s("builds")),
        ("mode", s(if resources { "resources" } else { "terms" })),
        ("builders", n(count as u64)),
        ("iri", J::Bool(r.pct(25))),
        ("steps", J::Arr(steps)),
    ]))
}
