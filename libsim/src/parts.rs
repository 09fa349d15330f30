//! The simulated caller components: registries, vocabularies, interpretations, datasets and
//! sources of names. Each call is a scheduling point, and may be made to fail.

use iref::{Iri, IriBuf};
use rdf_types::dataset::{Dataset, DatasetMut, PatternMatchingDataset, TraversableDataset};
use rdf_types::interpretation::*;
use rdf_types::pattern::quad::canonical::{PatternGraph, PatternObject, PatternPredicate, PatternSubject};
use rdf_types::pattern::CanonicalQuadPattern;
use rdf_types::vocabulary::*;
use rdf_types::{BlankId, BlankIdBuf, Generator, Id, Literal, LiteralRef, LiteralType, Quad, Term};
use sched::{calm, seam};
use sim::json::{s, J};
use sim::nq::{self, Data};
use sim::rng::mix;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use treeldr_layouts::layout::LayoutType;
use treeldr_layouts::{Layout, LayoutRegistry, Ref};

/// Lets several simulated threads use a component: only one of them runs at a time.
pub struct Shared<T>(pub T);
unsafe impl<T> Sync for Shared<T> {}
unsafe impl<T> Send for Shared<T> {}

// ---- faults ----

#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub site: String,
    pub nth: u64,
    pub kind: String,
}

impl Fault {
    pub fn read(j: &J) -> Option<Fault> {
        Some(Fault { site: j.get("site")?.str()?.into(), nth: j.get("nth")?.int()? as u64, kind: j.get("kind")?.str()?.into() })
    }
    pub fn write(&self) -> J {
        J::Obj(vec![("site".into(), s(&self.site)), ("nth".into(), J::Num(self.nth.to_string())), ("kind".into(), s(&self.kind))])
    }
}

#[derive(Default)]
pub struct Active {
    faults: Vec<Fault>,
    pub counts: BTreeMap<String, u64>,
    pub fired: Vec<String>,
}

thread_local! {
    static ACTIVE: RefCell<Active> = RefCell::new(Active::default());
}

/// The faults of the call the current thread is about to make.
pub fn arm(faults: &[Fault]) {
    calm(|| ACTIVE.with(|a| *a.borrow_mut() = Active { faults: faults.to_vec(), ..Default::default() }))
}
pub fn disarm() -> Active {
    calm(|| ACTIVE.with(|a| std::mem::take(&mut *a.borrow_mut())))
}

pub const INJECTED: &str = "simulated fault";

/// A call to a component: true if it is to answer "nothing".
fn call(site: &'static str) -> bool {
    seam();
    let kind = calm(|| {
        ACTIVE.with(|a| {
            let a = &mut *a.borrow_mut();
            let c = a.counts.entry(site.to_string()).or_default();
            *c += 1;
            let n = *c;
            let f = a.faults.iter().find(|f| f.site == site && f.nth == n)?;
            a.fired.push(format!("{site} {}", f.kind));
            Some(f.kind.clone())
        })
    });
    match kind.as_deref() {
        Some("panic") => panic!("{INJECTED}"),
        Some("miss") => true,
        _ => false,
    }
}

// ---- registries ----

pub struct Reg<'a, T>(pub &'a T);

impl<R, T: LayoutRegistry<R>> LayoutRegistry<R> for Reg<'_, T> {
    fn get(&self, id: &Ref<LayoutType, R>) -> Option<&Layout<R>> {
        if call("registry") {
            return None;
        }
        self.0.get(id)
    }
}

// ---- vocabulary ----

#[derive(Default, Clone)]
pub struct Voc;

impl IriVocabulary for Voc {
    type Iri = IriBuf;
    fn iri<'i>(&'i self, id: &'i IriBuf) -> Option<&'i Iri> {
        call("vocabulary read");
        Some(id)
    }
    fn get(&self, iri: &Iri) -> Option<IriBuf> {
        call("vocabulary read");
        Some(iri.to_owned())
    }
}
impl IriVocabularyMut for Voc {
    fn insert(&mut self, iri: &Iri) -> IriBuf {
        call("vocabulary");
        iri.to_owned()
    }
}
impl BlankIdVocabulary for Voc {
    type BlankId = BlankIdBuf;
    fn blank_id<'b>(&'b self, id: &'b BlankIdBuf) -> Option<&'b BlankId> {
        Some(id)
    }
    fn get_blank_id(&self, id: &BlankId) -> Option<BlankIdBuf> {
        Some(id.to_owned())
    }
}
impl BlankIdVocabularyMut for Voc {
    fn insert_blank_id(&mut self, id: &BlankId) -> BlankIdBuf {
        id.to_owned()
    }
}
impl LiteralVocabulary for Voc {
    type Literal = Literal;
    fn literal<'l>(&'l self, id: &'l Literal) -> Option<LiteralRef<'l>> {
        call("vocabulary read");
        Some(id.as_ref())
    }
    fn owned_literal(&self, id: Literal) -> Result<Literal, Literal> {
        Ok(id)
    }
    fn get_literal(&self, id: LiteralRef<IriBuf>) -> Option<Literal> {
        call("vocabulary read");
        Some(id.into_owned())
    }
}
impl LiteralVocabularyMut for Voc {
    fn insert_literal(&mut self, v: LiteralRef<IriBuf>) -> Literal {
        call("vocabulary");
        v.into_owned()
    }
}

// ---- interpretation ----

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Rs(pub u32);

impl std::fmt::Display for Rs {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "r{}", self.0)
    }
}

#[derive(Default, Clone, PartialEq, Eq, Debug)]
pub struct Interp {
    pub count: u32,
    pub iris: BTreeMap<IriBuf, Rs>,
    pub blanks: BTreeMap<BlankIdBuf, Rs>,
    pub lits: BTreeMap<Literal, Rs>,
    pub iris_of: BTreeMap<Rs, BTreeSet<IriBuf>>,
    pub lits_of: BTreeMap<Rs, BTreeSet<Literal>>,
    pub blanks_of: BTreeMap<Rs, BTreeSet<BlankIdBuf>>,
}

impl Interp {
    pub fn fresh(&mut self) -> Rs {
        self.count += 1;
        Rs(self.count - 1)
    }
    pub fn term(&mut self, t: &nq::Term) -> Rs {
        match real_term(t) {
            Term::Id(Id::Iri(i)) => self.interpret_iri(i),
            Term::Id(Id::Blank(b)) => match self.blanks.get(&b) {
                Some(r) => *r,
                None => {
                    let r = self.fresh();
                    self.blanks.insert(b, r);
                    r
                }
            },
            Term::Literal(l) => self.interpret_literal(l),
        }
    }
    /// What the terms of resources are, as statements.
    pub fn terms(&self) -> Vec<(Rs, nq::Term)> {
        let mut v = vec![];
        for (r, ts) in &self.iris_of {
            v.extend(ts.iter().map(|t| (*r, nq::Term::Iri(t.to_string()))));
        }
        for (r, ts) in &self.lits_of {
            v.extend(ts.iter().map(|t| (*r, plain_term(&Term::Literal(t.clone())))));
        }
        for (r, ts) in &self.blanks_of {
            v.extend(ts.iter().map(|t| (*r, nq::Term::Iri(format!("sim:blank/{}", t.as_str().trim_start_matches("_:"))))));
        }
        v
    }
}

impl Interpretation for Interp {
    type Resource = Rs;
}
impl IriInterpretation<IriBuf> for Interp {
    fn iri_interpretation(&self, i: &IriBuf) -> Option<Rs> {
        self.iris.get(i).copied()
    }
}
impl IriInterpretationMut<IriBuf> for Interp {
    fn interpret_iri(&mut self, i: IriBuf) -> Rs {
        call("interpret");
        if let Some(r) = self.iris.get(&i) {
            return *r;
        }
        let r = self.fresh();
        self.iris.insert(i.clone(), r);
        self.iris_of.entry(r).or_default().insert(i);
        r
    }
}
impl BlankIdInterpretation<BlankIdBuf> for Interp {
    fn blank_id_interpretation(&self, b: &BlankIdBuf) -> Option<Rs> {
        self.blanks.get(b).copied()
    }
}
impl BlankIdInterpretationMut<BlankIdBuf> for Interp {
    fn interpret_blank_id(&mut self, b: BlankIdBuf) -> Rs {
        if let Some(r) = self.blanks.get(&b) {
            return *r;
        }
        let r = self.fresh();
        self.blanks.insert(b, r);
        r
    }
}
impl LiteralInterpretation<Literal> for Interp {
    fn literal_interpretation(&self, l: &Literal) -> Option<Rs> {
        self.lits.get(l).copied()
    }
}
impl LiteralInterpretationMut<Literal> for Interp {
    fn interpret_literal(&mut self, l: Literal) -> Rs {
        call("interpret");
        if let Some(r) = self.lits.get(&l) {
            return *r;
        }
        let r = self.fresh();
        self.lits.insert(l.clone(), r);
        self.lits_of.entry(r).or_default().insert(l);
        r
    }
}
impl InterpretationMut<Voc> for Interp {
    fn new_resource(&mut self, _: &mut Voc) -> Rs {
        call("new resource");
        self.fresh()
    }
}
impl ReverseIriInterpretation for Interp {
    type Iri = IriBuf;
    type Iris<'a> = std::iter::Flatten<std::option::IntoIter<&'a BTreeSet<IriBuf>>>;
    fn iris_of<'a>(&'a self, r: &'a Rs) -> Self::Iris<'a> {
        call("terms of");
        self.iris_of.get(r).into_iter().flatten()
    }
}
impl ReverseIriInterpretationMut for Interp {
    fn assign_iri(&mut self, r: &Rs, i: IriBuf) -> bool {
        call("assign");
        self.iris_of.entry(*r).or_default().insert(i)
    }
}
impl ReverseBlankIdInterpretation for Interp {
    type BlankId = BlankIdBuf;
    type BlankIds<'a> = std::iter::Flatten<std::option::IntoIter<&'a BTreeSet<BlankIdBuf>>>;
    fn blank_ids_of<'a>(&'a self, r: &'a Rs) -> Self::BlankIds<'a> {
        call("terms of");
        self.blanks_of.get(r).into_iter().flatten()
    }
}
impl ReverseBlankIdInterpretationMut for Interp {
    fn assign_blank_id(&mut self, r: &Rs, b: BlankIdBuf) -> bool {
        call("assign");
        self.blanks_of.entry(*r).or_default().insert(b)
    }
}
impl ReverseLiteralInterpretation for Interp {
    type Literal = Literal;
    type Literals<'a> = std::iter::Flatten<std::option::IntoIter<&'a BTreeSet<Literal>>>;
    fn literals_of<'a>(&'a self, r: &'a Rs) -> Self::Literals<'a> {
        call("terms of");
        self.lits_of.get(r).into_iter().flatten()
    }
}
impl ReverseLiteralInterpretationMut for Interp {
    fn assign_literal(&mut self, r: &Rs, l: Literal) -> bool {
        call("assign");
        self.lits_of.entry(*r).or_default().insert(l)
    }
}

// ---- dataset ----

/// A set of statements, enumerated in an order of the simulator's choice.
#[derive(Clone, Debug)]
pub struct Store<R> {
    pub quads: Vec<Quad<R>>,
    pub seed: u64,
}

impl<R: Clone + Ord> Store<R> {
    pub fn new(seed: u64) -> Self {
        Store { quads: vec![], seed }
    }
    pub fn set(&self) -> BTreeSet<Quad<R>> {
        self.quads.iter().cloned().collect()
    }
    pub fn add(&mut self, q: Quad<R>) {
        if !self.quads.contains(&q) {
            self.seed = mix(self.seed);
            let i = (self.seed % (self.quads.len() as u64 + 1)) as usize;
            self.quads.insert(i, q);
        }
    }
}

impl<R> Dataset for Store<R> {
    type Resource = R;
}

impl<R: Clone + Ord> DatasetMut for Store<R> {
    fn insert(&mut self, q: Quad<R>) {
        call("insert");
        calm(|| self.add(q));
    }
    fn remove(&mut self, q: Quad<&R>) {
        call("remove");
        self.quads.retain(|x| x.0 != *q.0 || x.1 != *q.1 || x.2 != *q.2 || x.3.as_ref() != q.3);
    }
}

pub struct Quads<'a, R>(std::slice::Iter<'a, Quad<R>>);
impl<'a, R> Iterator for Quads<'a, R> {
    type Item = Quad<&'a R>;
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next().map(|q| q.as_ref())
    }
}

impl<R> TraversableDataset for Store<R> {
    type Quads<'a>
        = Quads<'a, R>
    where
        R: 'a;
    fn quads(&self) -> Quads<'_, R> {
        call("traverse");
        Quads(self.quads.iter())
    }
}

pub struct Matches<'a, 'p, R> {
    quads: std::slice::Iter<'a, Quad<R>>,
    pattern: CanonicalQuadPattern<&'p R>,
}

impl<'a, R: PartialEq> Iterator for Matches<'a, '_, R> {
    type Item = Quad<&'a R>;
    fn next(&mut self) -> Option<Self::Item> {
        if call("match") {
            return None;
        }
        calm(|| {
            for q in self.quads.by_ref() {
                let s = match self.pattern.subject() {
                    PatternSubject::Any => true,
                    PatternSubject::Given(x) => **x == q.0,
                };
                let p = match self.pattern.predicate() {
                    PatternPredicate::Any => true,
                    PatternPredicate::SameAsSubject => q.1 == q.0,
                    PatternPredicate::Given(x) => **x == q.1,
                };
                let o = match self.pattern.object() {
                    PatternObject::Any => true,
                    PatternObject::SameAsSubject => q.2 == q.0,
                    PatternObject::SameAsPredicate => q.2 == q.1,
                    PatternObject::Given(x) => **x == q.2,
                };
                let g = match self.pattern.graph() {
                    PatternGraph::Any => true,
                    PatternGraph::SameAsSubject => q.3.as_ref() == Some(&q.0),
                    PatternGraph::SameAsPredicate => q.3.as_ref() == Some(&q.1),
                    PatternGraph::SameAsObject => q.3.as_ref() == Some(&q.2),
                    PatternGraph::Given(x) => x.copied() == q.3.as_ref(),
                };
                if s && p && o && g {
                    return Some(q.as_ref());
                }
            }
            None
        })
    }
}

impl<R: PartialEq> PatternMatchingDataset for Store<R> {
    type QuadPatternMatching<'a, 'p>
        = Matches<'a, 'p, R>
    where
        R: 'a,
        R: 'p;
    fn quad_pattern_matching<'p>(&self, pattern: CanonicalQuadPattern<&'p R>) -> Matches<'_, 'p, R> {
        Matches { quads: self.quads.iter(), pattern }
    }
}

// ---- names ----

/// A source of fresh names shared by several calls.
pub struct Names {
    pub next: AtomicU64,
    pub locked: Mutex<rdf_types::generator::Blank>,
    pub kind: u64,
}

pub struct Source<'a>(pub &'a Names);

impl Generator for Source<'_> {
    fn next(&mut self, v: &mut ()) -> Id<IriBuf, BlankIdBuf> {
        call("name");
        match self.0.kind {
            0 => self.0.locked.lock().unwrap().next(v),
            1 => Id::Blank(BlankIdBuf::new(format!("_:s{}", self.0.next.fetch_add(1, SeqCst))).unwrap()),
            2 => Id::Iri(IriBuf::new(format!("https://names.ex/{}", self.0.next.fetch_add(1, SeqCst))).unwrap()),
            _ => Id::Blank(BlankIdBuf::new(format!("_:s{:x}", mix(self.0.next.fetch_add(1, SeqCst)))).unwrap()),
        }
    }
}

// ---- terms ----

pub fn real_term(t: &nq::Term) -> Term {
    match t {
        nq::Term::Iri(i) => Term::Id(Id::Iri(IriBuf::new(i.clone()).unwrap_or_else(|_| IriBuf::new("https://bad.iri/".into()).unwrap()))),
        nq::Term::Blank(b) => Term::Id(Id::Blank(BlankIdBuf::new(format!("_:{b}")).unwrap_or_else(|_| BlankIdBuf::new("_:bad".into()).unwrap()))),
        nq::Term::Lit(v, Ok(d)) => Term::Literal(Literal::new(v.clone(), LiteralType::Any(IriBuf::new(d.clone()).unwrap_or_else(|_| IriBuf::new("https://bad.iri/".into()).unwrap())))),
        nq::Term::Lit(v, Err(l)) => match langtag::LangTagBuf::new(l.clone()) {
            Ok(l) => Term::Literal(Literal::new(v.clone(), LiteralType::LangString(l))),
            Err(_) => Term::Literal(Literal::new(v.clone(), LiteralType::Any(IriBuf::new("https://bad.tag/".into()).unwrap()))),
        },
    }
}

pub fn plain_term(t: &Term) -> nq::Term {
    match t {
        Term::Id(Id::Iri(i)) => nq::Term::Iri(i.to_string()),
        Term::Id(Id::Blank(b)) => nq::Term::Blank(b.to_string().trim_start_matches("_:").to_string()),
        Term::Literal(l) => nq::Term::Lit(
            l.value.to_string(),
            match &l.type_ {
                LiteralType::Any(i) => Ok(i.to_string()),
                LiteralType::LangString(t) => Err(t.to_string()),
            },
        ),
    }
}

pub fn real_quad(q: &nq::Quad) -> Quad<Term> {
    Quad(real_term(&q.0), real_term(&q.1), real_term(&q.2), q.3.as_ref().map(real_term))
}
pub fn plain_quad(q: &Quad<Term>) -> nq::Quad {
    (plain_term(&q.0), plain_term(&q.1), plain_term(&q.2), q.3.as_ref().map(plain_term))
}

/// Statements from their text, in the order given.
pub fn quads(j: &J) -> Option<Vec<nq::Quad>> {
    let mut v = vec![];
    for l in j.arr() {
        let mut d = nq::parse_seq(format!("{}\n", l.str()?).as_bytes()).ok()?;
        v.append(&mut d);
    }
    Some(v)
}
pub fn quads_json(d: &Data) -> J {
    J::Arr(d.iter().map(|q| s(nq::line(q, &mut None).trim_end())).collect())
}

pub fn name_call() {
    call("name");
}
