//! Executable reference model of layouts: reads the JSON layout syntax and says what hydration
//! and dehydration must give. Independent of the code under test.

use crate::json::J;
use crate::nq::{is_decimal_type, is_iri, resolve, Data, Quad, Term, RDF, XSD};
use crate::val::{self, Val, C};
use num_bigint::BigInt;
use num_rational::BigRational;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum V {
    /// Must be refused.
    No,
    /// The model does not say.
    Unsure,
}
pub type R<T> = Result<T, V>;

#[derive(Debug, Clone, PartialEq)]
pub enum Pat {
    Var(usize),
    T(Term),
}
pub type QPat = (Pat, Pat, Pat, Option<Pat>);

#[derive(Debug, Clone)]
pub struct Fmt {
    pub layout: String,
    pub input: Vec<Pat>,
    pub graph: Option<Option<Pat>>,
}

#[derive(Debug, Clone)]
pub struct Part {
    pub name: String,
    pub intro: usize,
    pub value: Fmt,
    pub data: Vec<QPat>,
    pub required: bool,
}

#[derive(Debug, Clone)]
pub enum Kind {
    Never,
    Always,
    Unit(Val),
    Bool(Pat, String),
    Num(Pat, String),
    Bytes(Pat, String),
    Str(Pat, String),
    Id(Pat),
    Record(Vec<Part>),
    Sum(Vec<Part>),
    List(Pat, Pat, Part),
    Set(Part),
    Tuple(Vec<Part>),
}

#[derive(Debug, Clone)]
pub struct Lay {
    pub inputs: usize,
    pub intro: usize,
    pub data: Vec<QPat>,
    pub kind: Kind,
    /// CBOR tag: `None` if there is none, `Some(None)` if the model does not know.
    pub tag: Option<Option<u64>>,
}

pub type Layouts = BTreeMap<String, Lay>;

#[derive(Clone, Default)]
struct Scope {
    base: Option<String>,
    prefixes: BTreeMap<String, String>,
    vars: BTreeMap<String, usize>,
    n: usize,
}

impl Scope {
    fn bind(&mut self, v: &str) {
        self.vars.insert(v.to_string(), self.n);
        self.n += 1;
    }
    fn with(&self, vs: &[String]) -> Scope {
        let mut s = self.clone();
        for v in vs {
            s.bind(v)
        }
        s
    }
    fn iri(&self, t: &str) -> R<String> {
        resolve(t, &self.prefixes, self.base.as_deref()).map_err(|no| if no { V::No } else { V::Unsure })
    }
    fn nested(&self) -> Scope {
        Scope { base: self.base.clone(), prefixes: self.prefixes.clone(), vars: BTreeMap::new(), n: 0 }
    }
}

/// Entries of an object, each used once.
struct Ent<'a> {
    o: &'a [(String, J)],
    used: BTreeSet<&'a str>,
}
impl<'a> Ent<'a> {
    fn new(j: &'a J) -> R<Self> {
        match j {
            J::Obj(o) => Ok(Ent { o, used: BTreeSet::new() }),
            _ => Err(V::No),
        }
    }
    fn get(&mut self, k: &'static str) -> R<Option<&'a J>> {
        self.used.insert(k);
        let mut it = self.o.iter().filter(|e| e.0 == k);
        let r = it.next().map(|e| &e.1);
        if it.next().is_some() {
            return Err(V::No);
        }
        Ok(r)
    }
    fn end(self) -> R<()> {
        match self.o.iter().all(|e| self.used.contains(e.0.as_str())) {
            true => Ok(()),
            false => Err(V::No),
        }
    }
}

fn string(j: &J) -> R<&str> {
    j.str().ok_or(V::No)
}

fn name(j: &J) -> R<String> {
    let n = string(j)?;
    if !var_name(n) {
        // No variable can refer to it.
        return Err(V::Unsure);
    }
    Ok(n.to_string())
}

fn names(j: Option<&J>, default: &[&str]) -> R<Vec<String>> {
    Ok(match j {
        None => default.iter().map(|s| s.to_string()).collect(),
        Some(J::Arr(a)) => a.iter().map(name).collect::<R<_>>()?,
        Some(x) => vec![name(x)?],
    })
}

/// Entries of a map; what a repeated key means is not said.
fn map(j: Option<&J>) -> R<Vec<(&str, &J)>> {
    match j {
        None => Ok(vec![]),
        Some(J::Obj(o)) => {
            let ks: BTreeSet<_> = o.iter().map(|e| &e.0).collect();
            if ks.len() != o.len() {
                return Err(V::Unsure);
            }
            Ok(o.iter().map(|e| (e.0.as_str(), &e.1)).collect())
        }
        _ => Err(V::No),
    }
}

/// A label of a blank node without dots.
pub fn var_name(n: &str) -> bool {
    let u = |c: char| {
        matches!(c, 'A'..='Z' | 'a'..='z' | '_' | ':' | '\u{c0}'..='\u{d6}' | '\u{d8}'..='\u{f6}' | '\u{f8}'..='\u{2ff}' | '\u{370}'..='\u{37d}' | '\u{37f}'..='\u{1fff}'
            | '\u{200c}'..='\u{200d}' | '\u{2070}'..='\u{218f}' | '\u{2c00}'..='\u{2fef}' | '\u{3001}'..='\u{d7ff}' | '\u{f900}'..='\u{fdcf}' | '\u{fdf0}'..='\u{fffd}' | '\u{10000}'..='\u{effff}')
    };
    let rest = |c: char| u(c) || matches!(c, '-' | '0'..='9' | '\u{b7}' | '\u{300}'..='\u{36f}' | '\u{203f}'..='\u{2040}');
    let mut cs = n.chars();
    cs.next().is_some_and(|c| c.is_ascii_digit() || u(c)) && cs.all(rest)
}

fn is_var(t: &str) -> R<bool> {
    match t.strip_prefix("_:") {
        Some(n) => {
            if var_name(n) {
                Ok(true)
            } else {
                Err(V::Unsure)
            }
        }
        None => Ok(false),
    }
}

fn pattern(j: &J, sc: &Scope) -> R<Pat> {
    match j {
        J::Str(t) => {
            if is_var(t)? {
                sc.vars.get(&t[2..]).map(|i| Pat::Var(*i)).ok_or(V::No)
            } else {
                Ok(Pat::T(Term::Iri(sc.iri(t)?)))
            }
        }
        J::Obj(_) => {
            let mut e = Ent::new(j)?;
            let ty = e.get("type")?;
            let value = |e: &mut Ent| -> R<String> { Ok(string(e.get("value")?.ok_or(V::No)?)?.to_string()) };
            let t = match ty {
                Some(t) => {
                    let d = sc.iri(string(t)?)?;
                    let v = value(&mut e)?;
                    Term::Lit(v, Ok(d))
                }
                None => {
                    // Without any type, it is a string for the code generator, and an error for the program.
                    let l = string(e.get("language")?.ok_or(V::Unsure)?)?;
                    if !crate::nq::simple_tag(l) {
                        return Err(V::Unsure);
                    }
                    Term::Lit(value(&mut e)?, Err(l.to_string()))
                }
            };
            e.end()?;
            Ok(Pat::T(t))
        }
        _ => Err(V::No),
    }
}

fn dataset(j: Option<&J>, sc: &Scope) -> R<Vec<QPat>> {
    let a = match j {
        None => return Ok(vec![]),
        Some(J::Arr(a)) => a,
        _ => return Err(V::No),
    };
    let mut out = vec![];
    for q in a {
        let q = match q {
            J::Arr(q) => q,
            _ => return Err(V::No),
        };
        if q.len() < 3 || q.len() > 4 {
            return Err(V::No);
        }
        let g = q.get(3).map(|g| pattern(g, sc)).transpose()?;
        out.push((pattern(&q[0], sc)?, pattern(&q[1], sc)?, pattern(&q[2], sc)?, g));
    }
    Ok(out)
}

pub struct Builder {
    pub layouts: Layouts,
    anon: usize,
}

/// The worst of several verdicts: a certain refusal wins only if nothing before was unsure.
impl Builder {
    pub fn new() -> Self {
        Builder { layouts: Layouts::new(), anon: 0 }
    }

    /// Reads one layout file.
    pub fn add(&mut self, j: &J) -> R<String> {
        match j {
            J::Bool(b) => {
                let id = self.fresh();
                self.insert(id.clone(), Lay { inputs: 0, intro: 0, data: vec![], kind: if *b { Kind::Always } else { Kind::Never }, tag: None })?;
                Ok(id)
            }
            J::Obj(_) => self.layout(j, &Scope::default()),
            _ => Err(V::No),
        }
    }

    fn fresh(&mut self) -> String {
        self.anon += 1;
        format!("_:anon{}", self.anon)
    }

    fn insert(&mut self, id: String, l: Lay) -> R<()> {
        match self.layouts.insert(id, l) {
            Some(_) => Err(V::No),
            None => Ok(()),
        }
    }

    fn layout_ref(&mut self, j: &J, sc: &Scope) -> R<String> {
        let sc = sc.nested();
        match j {
            J::Str(t) => sc.iri(t),
            J::Obj(_) => self.layout(j, &sc),
            // A boolean is a layout, which the code generator reads here and the program does not.
            J::Bool(_) => Err(V::Unsure),
            _ => Err(V::No),
        }
    }

    /// `layout`, or `{layout, input, graph}`.
    fn fmt(&mut self, j: &J, sc: &Scope, default_input: &str) -> R<Fmt> {
        let def = |sc: &Scope| sc.vars.get(default_input).map(|i| Pat::Var(*i)).ok_or(V::No);
        match j {
            J::Obj(o) if !o.iter().any(|e| e.0 == "type") => {
                let mut e = Ent::new(j)?;
                let l = e.get("layout")?.ok_or(V::No)?;
                let input = match e.get("input")? {
                    None => vec![def(sc)?],
                    Some(J::Arr(a)) => a.iter().map(|p| pattern(p, sc)).collect::<R<_>>()?,
                    Some(p) => vec![pattern(p, sc)?],
                };
                let graph = match e.get("graph")? {
                    None | Some(J::Null) => None,
                    Some(g) => Some(Some(pattern(g, sc)?)),
                };
                e.end()?;
                Ok(Fmt { layout: self.layout_ref(l, sc)?, input, graph })
            }
            J::Str(_) | J::Obj(_) => {
                let layout = self.layout_ref(j, sc)?;
                Ok(Fmt { layout, input: vec![def(sc)?], graph: None })
            }
            J::Bool(_) => Err(V::Unsure),
            _ => Err(V::No),
        }
    }

    /// A field of a record, or an item of a set or tuple.
    fn part(&mut self, name: &str, j: &J, sc: &Scope, inputs: usize, field: bool) -> R<Part> {
        let mut e = Ent::new(j)?;
        let intro = names(e.get("intro")?, &["value"])?;
        let value = e.get("value")?.ok_or(V::No)?;
        let inner = sc.with(&intro);
        let mut data = dataset(e.get("dataset")?, &inner)?;
        if let Some(p) = e.get("property")? {
            let p = pattern(p, &inner)?;
            if inputs == 0 || intro.is_empty() {
                return Err(V::No);
            }
            data.push((Pat::Var(0), p, Pat::Var(sc.n), None));
        }
        let required = match if field { e.get("required")? } else { None } {
            None => false,
            Some(J::Bool(b)) => *b,
            _ => return Err(V::No),
        };
        e.end()?;
        Ok(Part { name: name.to_string(), intro: intro.len(), value: self.fmt(value, &inner, "value")?, data, required })
    }

    fn layout(&mut self, j: &J, outer: &Scope) -> R<String> {
        let mut e = Ent::new(j)?;
        let ty = string(e.get("type")?.ok_or(V::No)?)?;
        let id = match e.get("id")? {
            Some(i) => outer.iri(string(i)?)?,
            None => self.fresh(),
        };
        // header
        let mut sc = outer.clone();
        if let Some(b) = e.get("base")? {
            sc.base = Some(outer.iri(string(b)?)?);
        }
        for (k, v) in map(e.get("prefixes")?)? {
            sc.prefixes.insert(k.to_string(), outer.iri(string(v)?)?);
        }
        let input = names(e.get("input")?, &["self"])?;
        let intro = names(e.get("intro")?, &[])?;
        let sc = sc.with(&input).with(&intro);
        let data = dataset(e.get("dataset")?, &sc)?;
        let mut tag = None;
        for (k, v) in map(e.get("extra")?)? {
            let k = sc.iri(k)?;
            match v {
                J::Bool(_) | J::Num(_) | J::Str(_) => (),
                _ => return Err(V::Unsure),
            }
            if let J::Num(n) = v {
                if n.parse::<i64>().is_err() {
                    return Err(V::Unsure);
                }
            }
            if k == "https://schema.treeldr.org/cbor#tag" {
                tag = Some(match v {
                    J::Num(n) => n.parse::<u64>().ok(),
                    _ => None,
                });
            }
        }
        let literal = |e: &mut Ent, sc: &Scope| -> R<Pat> {
            match e.get("resource")? {
                Some(p) => pattern(p, sc),
                None if input.is_empty() => Err(V::No),
                None => Ok(Pat::Var(0)),
            }
        };
        let datatype = |e: &mut Ent, sc: &Scope, d: Option<&str>| -> R<String> {
            match e.get("datatype")? {
                Some(t) => sc.iri(string(t)?),
                None => d.map(|d| format!("{XSD}{d}")).ok_or(V::No),
            }
        };
        let kind = match ty {
            "unit" => Kind::Unit(match e.get("const")? {
                None => Val::Unit,
                Some(c) => val::from_json(c).map_err(|_| V::Unsure)?,
            }),
            "boolean" => Kind::Bool(literal(&mut e, &sc)?, datatype(&mut e, &sc, Some("boolean"))?),
            "number" => Kind::Num(literal(&mut e, &sc)?, datatype(&mut e, &sc, None)?),
            "string" => {
                if e.get("pattern")?.is_some() {
                    return Err(V::Unsure);
                }
                Kind::Str(literal(&mut e, &sc)?, datatype(&mut e, &sc, Some("string"))?)
            }
            "id" => {
                if e.get("pattern")?.is_some() {
                    return Err(V::Unsure);
                }
                Kind::Id(literal(&mut e, &sc)?)
            }
            "bytes" => Kind::Bytes(literal(&mut e, &sc)?, datatype(&mut e, &sc, None)?),
            "record" => {
                let mut fs = map(e.get("fields")?)?;
                fs.sort_by(|a, b| a.0.cmp(b.0));
                let mut v = vec![];
                for (k, f) in fs {
                    v.push(self.part(k, f, &sc, input.len(), true)?);
                }
                Kind::Record(v)
            }
            "sum" => {
                let mut vs = map(e.get("variants")?)?;
                vs.sort_by(|a, b| a.0.cmp(b.0));
                let mut v = vec![];
                for (k, x) in vs {
                    let mut e = Ent::new(x)?;
                    let intro = names(e.get("intro")?, &[])?;
                    let inner = sc.with(&intro);
                    let value = e.get("value")?.ok_or(V::No)?;
                    let data = dataset(e.get("dataset")?, &inner)?;
                    e.end()?;
                    v.push(Part { name: k.to_string(), intro: intro.len(), value: self.fmt(value, &inner, "self")?, data, required: false });
                }
                Kind::Sum(v)
            }
            "list" => {
                let node = e.get("node")?.ok_or(V::No)?;
                let head = match e.get("head")? {
                    Some(p) => pattern(p, &sc)?,
                    None => pattern(&J::Str("_:self".into()), &sc)?,
                };
                let tail = match e.get("tail")? {
                    Some(p) => pattern(p, &sc)?,
                    None => pattern(&J::Str(format!("{RDF}nil")), &sc)?,
                };
                let (h, r) = (sc.n, sc.n + 1);
                let rdf = |first: Pat| {
                    vec![
                        (Pat::Var(h), Pat::T(Term::Iri(format!("{RDF}first"))), first, None),
                        (Pat::Var(h), Pat::T(Term::Iri(format!("{RDF}rest"))), Pat::Var(r), None),
                    ]
                };
                let part = match node {
                    J::Obj(o) if !o.iter().any(|e| e.0 == "type") => {
                        let mut e = Ent::new(node)?;
                        let hn = names(e.get("head")?.map(|x| string(x).map(|_| x)).transpose()?, &["head"])?;
                        let rn = names(e.get("rest")?.map(|x| string(x).map(|_| x)).transpose()?, &["rest"])?;
                        let intro = names(e.get("intro")?, &["value"])?;
                        let inner = sc.with(&hn).with(&rn).with(&intro);
                        let value = e.get("value")?.ok_or(V::No)?;
                        let ds = e.get("dataset")?;
                        e.end()?;
                        let f = self.fmt(value, &inner, "value")?;
                        let data = match ds {
                            Some(d) => dataset(Some(d), &inner)?,
                            None if f.input.len() == 1 => rdf(f.input[0].clone()),
                            None => vec![],
                        };
                        Part { name: String::new(), intro: intro.len(), value: f, data, required: true }
                    }
                    J::Str(_) | J::Obj(_) => {
                        let first = Pat::Var(sc.n + 2);
                        Part {
                            name: String::new(),
                            intro: 1,
                            value: Fmt { layout: self.layout_ref(node, &sc)?, input: vec![first.clone()], graph: None },
                            data: rdf(first),
                            required: true,
                        }
                    }
                    J::Bool(_) => return Err(V::Unsure),
                    _ => return Err(V::No),
                };
                Kind::List(head, tail, part)
            }
            "set" => {
                let item = e.get("item")?.ok_or(V::No)?;
                Kind::Set(self.part("", item, &sc, input.len(), false)?)
            }
            "tuple" => {
                let items = match e.get("items")? {
                    None => return Err(V::Unsure),
                    Some(J::Arr(a)) => a,
                    _ => return Err(V::No),
                };
                let mut v = vec![];
                for i in items {
                    v.push(self.part("", i, &sc, input.len(), false)?);
                }
                Kind::Tuple(v)
            }
            "union" | "intersection" => return Err(V::Unsure),
            _ => return Err(V::No),
        };
        e.end()?;
        if matches!(kind, Kind::Unit(_) | Kind::Bool(..) | Kind::Num(..) | Kind::Str(..) | Kind::Bytes(..) | Kind::Id(_)) && input.len() != 1 {
            return Err(V::Unsure);
        }
        self.insert(id.clone(), Lay { inputs: input.len(), intro: intro.len(), data, kind, tag })?;
        Ok(id)
    }
}

pub fn prelude() -> Layouts {
    let mut b = Builder::new();
    let mk = |n: &str, t: &str, d: Option<&str>| {
        let mut o = vec![
            ("id".to_string(), J::Str(format!("https://treeldr.org/prelude#{n}"))),
            ("type".to_string(), J::Str(t.into())),
        ];
        if let Some(d) = d {
            o.push(("datatype".into(), J::Str(format!("{XSD}{d}"))));
        }
        J::Obj(o)
    };
    for (n, t, d) in [
        ("unit", "unit", None),
        ("boolean", "boolean", None),
        ("u8", "number", Some("unsignedByte")),
        ("u16", "number", Some("unsignedShort")),
        ("u32", "number", Some("unsignedInt")),
        ("u64", "number", Some("unsignedLong")),
        ("i8", "number", Some("byte")),
        ("i16", "number", Some("short")),
        ("i32", "number", Some("int")),
        ("i64", "number", Some("long")),
        ("string", "string", None),
        ("id", "id", None),
    ] {
        b.add(&mk(n, t, d)).unwrap();
    }
    b.layouts
}

pub const PRELUDE: [&str; 12] = ["unit", "boolean", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "string", "id"];

// ---- dehydration ----

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Res {
    Input(usize),
    Anon(usize),
    T(Term),
}

#[derive(Default, Clone)]
pub struct Out {
    pub quads: Vec<(Res, Res, Res, Option<Res>)>,
    pub terms: Vec<(Res, Term)>,
}

pub struct Dehy<'a> {
    l: &'a Layouts,
    anon: usize,
    depth: usize,
    /// The layouts being written, with their value.
    trying: Vec<(String, *const Val)>,
    /// A sum was found to be a variant of itself: nothing else can be said.
    endless: bool,
}

/// The number of inputs a call passes to a layout.
pub fn inputs_of(l: &Layouts, id: &str) -> usize {
    match l.get(id) {
        Some(lay) if !matches!(lay.kind, Kind::Always | Kind::Never) => lay.inputs,
        _ => 1,
    }
}

/// The statements and terms a value adds to a store, in a graph. The graph is one more input.
pub fn dehydrate_open(l: &Layouts, id: &str, v: &Val, graph: bool) -> R<(usize, Out)> {
    let lay = l.get(id).ok_or(V::No)?;
    let n = match lay.kind {
        Kind::Always | Kind::Never => 1,
        _ => lay.inputs,
    };
    let mut d = Dehy { l, anon: 0, depth: 0, trying: vec![], endless: false };
    let inputs: Vec<Res> = (0..n).map(Res::Input).collect();
    let g = Res::Input(n);
    let mut out = Out::default();
    d.go(id, v, if graph { Some(&g) } else { None }, &inputs, &mut out)?;
    Ok((n, out))
}

/// The dataset described by a value, and the terms of the inputs.
pub fn dehydrate(l: &Layouts, id: &str, v: &Val) -> R<(Data, Vec<Term>)> {
    let lay = l.get(id).ok_or(V::No)?;
    let n = match lay.kind {
        Kind::Always | Kind::Never => 1,
        _ => lay.inputs,
    };
    let mut d = Dehy { l, anon: 0, depth: 0, trying: vec![], endless: false };
    let inputs: Vec<Res> = (0..n).map(Res::Input).collect();
    let mut out = Out::default();
    d.go(id, v, None, &inputs, &mut out)?;
    let mut terms: BTreeMap<Res, BTreeSet<Term>> = BTreeMap::new();
    for (r, t) in out.terms {
        terms.entry(r).or_default().insert(t);
    }
    for (r, ts) in &terms {
        match r {
            Res::T(t) => {
                if ts.iter().any(|u| u != t) {
                    return Err(V::No);
                }
            }
            _ => {
                if ts.len() > 1 {
                    return Err(V::No);
                }
            }
        }
    }
    let f = |r: &Res| match r {
        Res::T(t) => t.clone(),
        r => match terms.get(r) {
            Some(ts) => ts.iter().next().unwrap().clone(),
            None => Term::Blank(match r {
                Res::Input(i) => format!("input{i}"),
                Res::Anon(i) => format!("anon{i}"),
                Res::T(_) => unreachable!(),
            }),
        },
    };
    let data = out.quads.iter().map(|(s, p, o, g)| (f(s), f(p), f(o), g.as_ref().map(f))).collect();
    Ok((data, inputs.iter().map(f).collect()))
}

impl Dehy<'_> {
    fn intro(&mut self, env: &[Res], n: usize) -> Vec<Res> {
        let mut e = env.to_vec();
        for _ in 0..n {
            e.push(Res::Anon(self.anon));
            self.anon += 1;
        }
        e
    }
    fn inst(&self, p: &Pat, env: &[Res]) -> R<Res> {
        match p {
            Pat::Var(i) => env.get(*i).cloned().ok_or(V::Unsure),
            Pat::T(t) => Ok(Res::T(t.clone())),
        }
    }
    fn quads(&self, ds: &[QPat], env: &[Res], g: Option<&Res>, out: &mut Out) -> R<()> {
        for (s, p, o, h) in ds {
            let gr = match h {
                Some(h) => Some(self.inst(h, env)?),
                None => g.cloned(),
            };
            out.quads.push((self.inst(s, env)?, self.inst(p, env)?, self.inst(o, env)?, gr));
        }
        Ok(())
    }
    fn sub(&mut self, f: &Fmt, v: &Val, g: Option<&Res>, env: &[Res], out: &mut Out) -> R<()> {
        let inputs: Vec<Res> = f.input.iter().map(|p| self.inst(p, env)).collect::<R<_>>()?;
        let g2 = match &f.graph {
            None => g.cloned(),
            Some(None) => None,
            Some(Some(p)) => Some(self.inst(p, env)?),
        };
        self.go(&f.layout, v, g2.as_ref(), &inputs, out)
    }
    fn go(&mut self, id: &str, v: &Val, g: Option<&Res>, inputs: &[Res], out: &mut Out) -> R<()> {
        self.depth += 1;
        if self.depth > 120 {
            return Err(V::Unsure);
        }
        let here = (id.to_string(), v as *const Val);
        // Only sums use another layout on the same value.
        if self.trying.contains(&here) {
            self.endless = true;
            return Err(V::No);
        }
        self.trying.push(here);
        let r = self.go2(id, v, g, inputs, out);
        self.trying.pop();
        self.depth -= 1;
        r
    }
    fn go2(&mut self, id: &str, v: &Val, g: Option<&Res>, inputs: &[Res], out: &mut Out) -> R<()> {
        let l: &Lay = match self.l.get(id) {
            Some(l) => l,
            None => return Err(V::No),
        };
        match l.kind {
            Kind::Never => return Err(V::No),
            Kind::Always => return Ok(()),
            _ => (),
        }
        if l.inputs != inputs.len() {
            return Err(V::No);
        }
        let env = self.intro(inputs, l.intro);
        match &l.kind {
            Kind::Unit(c) if c == v => return self.quads(&l.data, &env, g, out),
            Kind::Unit(_) => return Err(V::No),
            _ => (),
        }
        let mut mine = Out::default();
        self.quads(&l.data, &env, g, &mut mine)?;
        match (&l.kind, v) {
            (Kind::Bool(r, dt), Val::Bool(b)) => {
                if *dt != format!("{XSD}boolean") {
                    return Err(V::No);
                }
                mine.terms.push((self.inst(r, &env)?, Term::Lit(b.to_string(), Ok(dt.clone()))));
            }
            (Kind::Num(r, dt), Val::Num(n)) => {
                if !is_decimal_type(dt) {
                    return Err(V::No);
                }
                let t = val::decimal_text(n).ok_or(V::No)?;
                mine.terms.push((self.inst(r, &env)?, Term::Lit(t, Ok(dt.clone()))));
            }
            (Kind::Str(r, dt), Val::Str(s)) => {
                mine.terms.push((self.inst(r, &env)?, Term::Lit(s.clone(), Ok(dt.clone()))));
            }
            (Kind::Bytes(r, dt), Val::Bytes(b)) => {
                let t = if *dt == format!("{XSD}hexBinary") {
                    b.iter().map(|b| format!("{b:02X}")).collect()
                } else if *dt == format!("{XSD}base64Binary") {
                    val::to_base64(b)
                } else {
                    return Err(V::No);
                };
                mine.terms.push((self.inst(r, &env)?, Term::Lit(t, Ok(dt.clone()))));
            }
            (Kind::Id(r), Val::Str(s)) => {
                match is_iri(s) {
                    Some(true) => (),
                    Some(false) => return Err(V::No),
                    None => return Err(V::Unsure),
                }
                mine.terms.push((self.inst(r, &env)?, Term::Iri(s.clone())));
            }
            (Kind::Sum(vs), v) => {
                let mut found = None;
                let mut unsure = false;
                for x in vs {
                    let mut o = Out::default();
                    let env = self.intro(&env, x.intro);
                    self.quads(&x.data, &env, g, &mut o)?;
                    let depth = self.depth;
                    let r = self.sub(&x.value, v, g, &env, &mut o);
                    self.depth = depth;
                    if self.endless {
                        return Err(V::No);
                    }
                    match r {
                        Ok(()) => {
                            if found.replace(o).is_some() {
                                return Err(V::No);
                            }
                        }
                        Err(V::Unsure) => unsure = true,
                        Err(V::No) => (),
                    }
                }
                if unsure {
                    return Err(V::Unsure);
                }
                let o = found.ok_or(V::No)?;
                mine.quads.extend(o.quads);
                mine.terms.extend(o.terms);
            }
            (Kind::Record(fs), Val::Map(m)) => {
                let mut res = Ok(());
                for (k, x) in m {
                    let f = match k {
                        Val::Str(k) => fs.iter().find(|f| f.name == *k).ok_or(V::No)?,
                        _ => return Err(V::No),
                    };
                    let env = self.intro(&env, f.intro);
                    self.quads(&f.data, &env, g, &mut mine)?;
                    let depth = self.depth;
                    match self.sub(&f.value, x, g, &env, &mut mine) {
                        Err(V::No) => return Err(V::No),
                        Err(V::Unsure) => res = Err(V::Unsure),
                        Ok(()) => (),
                    }
                    self.depth = depth;
                }
                for f in fs {
                    if f.required && !m.contains_key(&Val::Str(f.name.clone())) {
                        return Err(V::No);
                    }
                }
                res?;
            }
            (Kind::Set(item), Val::List(xs)) => {
                for x in xs {
                    let env = self.intro(&env, item.intro);
                    self.quads(&item.data, &env, g, &mut mine)?;
                    self.sub(&item.value, x, g, &env, &mut mine)?;
                }
            }
            (Kind::List(h, t, node), Val::List(xs)) => {
                let mut head = self.inst(h, &env)?;
                for (i, x) in xs.iter().enumerate() {
                    let rest = if i + 1 == xs.len() {
                        self.inst(t, &env)?
                    } else {
                        self.anon += 1;
                        Res::Anon(self.anon - 1)
                    };
                    let mut e = env.clone();
                    e.push(head);
                    e.push(rest.clone());
                    let e = self.intro(&e, node.intro);
                    self.quads(&node.data, &e, g, &mut mine)?;
                    self.sub(&node.value, x, g, &e, &mut mine)?;
                    head = rest;
                }
            }
            (Kind::Tuple(items), Val::List(xs)) => {
                if items.len() != xs.len() {
                    return Err(V::No);
                }
                for (item, x) in items.iter().zip(xs) {
                    let env = self.intro(&env, item.intro);
                    self.quads(&item.data, &env, g, &mut mine)?;
                    self.sub(&item.value, x, g, &env, &mut mine)?;
                }
            }
            _ => return Err(V::No),
        }
        out.quads.extend(mine.quads);
        out.terms.extend(mine.terms);
        Ok(())
    }
}

// ---- hydration ----

/// A hydrated value; sets are unordered. Tags are outermost first.
#[derive(Clone, Debug)]
pub struct H {
    pub tags: Vec<Option<u64>>,
    pub v: HV,
}
#[derive(Clone, Debug)]
pub enum HV {
    Leaf(Val),
    Map(BTreeMap<String, H>),
    List(Vec<H>),
    Set(Vec<H>),
}

struct Hy<'a> {
    l: &'a Layouts,
    d: &'a Data,
    depth: usize,
    steps: usize,
    /// The layouts being read, with their graph and inputs.
    calls: Vec<(String, Option<Term>, Vec<Term>)>,
    /// A value was found to be a part of itself: nothing else can be said.
    endless: bool,
    names: &'a Names,
}

/// Terms that denote the same resources.
#[derive(Default)]
pub struct Names {
    /// The term standing for each other one.
    first: BTreeMap<Term, Term>,
    all: BTreeMap<Term, Vec<Term>>,
}

impl Names {
    /// Of disjoint groups of terms.
    pub fn new(groups: &[Vec<Term>]) -> Names {
        let mut n = Names::default();
        for g in groups {
            for t in &g[1..] {
                n.first.insert(t.clone(), g[0].clone());
            }
            n.all.insert(g[0].clone(), g.clone());
        }
        n
    }
    pub fn one(&self, t: &Term) -> Term {
        self.first.get(t).unwrap_or(t).clone()
    }
    fn of(&self, t: &Term) -> Vec<Term> {
        self.all.get(t).cloned().unwrap_or_else(|| vec![t.clone()])
    }
}

pub fn hydrate(l: &Layouts, id: &str, d: &Data, inputs: &[Term]) -> R<H> {
    Hy { l, d, depth: 0, steps: 0, calls: vec![], endless: false, names: &Names::default() }.go(id, None, inputs)
}

/// The same in a graph, when resources have the names given.
pub fn hydrate_named(l: &Layouts, id: &str, d: &Data, graph: Option<&Term>, inputs: &[Term], names: &Names) -> R<H> {
    let f = |t: &Term| names.one(t);
    let d: Data = d.iter().map(|q| (f(&q.0), f(&q.1), f(&q.2), q.3.as_ref().map(f))).collect();
    let inputs: Vec<Term> = inputs.iter().map(f).collect();
    Hy { l, d: &d, depth: 0, steps: 0, calls: vec![], endless: false, names }.go(id, graph.map(f).as_ref(), &inputs)
}

type Sub = Vec<Option<Term>>;

impl Hy<'_> {
    fn matches(&mut self, sub: Sub, pats: &[QPat], g: Option<&Term>) -> R<Vec<Sub>> {
        let mut subs = vec![sub];
        for (s, p, o, h) in pats {
            let mut next = vec![];
            for sub in &subs {
                // A bound subject selects its statements.
                let subject = match s {
                    Pat::T(t) => Some(self.names.one(t)),
                    Pat::Var(i) => sub.get(*i).cloned().flatten(),
                };
                let first = subject.as_ref().map(|t| (t.clone(), Term::Iri(String::new()), Term::Iri(String::new()), None));
                let range = match first {
                    Some(f) => self.d.range(f..),
                    None => self.d.range::<Quad, _>(..),
                };
                for q in range {
                    if subject.as_ref().is_some_and(|t| *t != q.0) {
                        break;
                    }
                    self.steps += 1;
                    if self.steps > 3_000_000 {
                        return Err(V::Unsure);
                    }
                    let mut n = sub.clone();
                    let mut ok = true;
                    let names = self.names;
                    let m = |p: &Pat, t: &Term, n: &mut Sub| match p {
                        Pat::T(x) => x == t || !names.first.is_empty() && names.one(x) == *t,
                        Pat::Var(i) => match n.get(*i) {
                            Some(Some(x)) => x == t,
                            Some(None) => {
                                n[*i] = Some(t.clone());
                                true
                            }
                            None => false,
                        },
                    };
                    ok &= m(s, &q.0, &mut n) && m(p, &q.1, &mut n) && m(o, &q.2, &mut n);
                    if !ok {
                        continue;
                    }
                    ok = match (h, g, &q.3) {
                        (Some(h), _, Some(t)) => m(h, t, &mut n),
                        (Some(_), _, None) => false,
                        (None, Some(g), Some(t)) => g == t,
                        (None, None, None) => true,
                        _ => false,
                    };
                    if ok {
                        next.push(n)
                    }
                }
            }
            subs = next;
            if subs.len() > 5000 {
                return Err(V::Unsure);
            }
        }
        Ok(subs)
    }
    fn unique(&mut self, sub: Sub, pats: &[QPat], g: Option<&Term>) -> R<Option<Sub>> {
        let mut m = self.matches(sub, pats, g)?;
        match m.len() {
            0 => Ok(None),
            1 => Ok(m.pop()),
            _ => Err(V::No),
        }
    }
    fn get(&self, p: &Pat, s: &Sub) -> R<Term> {
        match p {
            Pat::T(t) => Ok(self.names.one(t)),
            Pat::Var(i) => s.get(*i).cloned().flatten().ok_or(V::No),
        }
    }
    fn sub(&mut self, f: &Fmt, s: &Sub, g: Option<&Term>) -> R<H> {
        let inputs: Vec<Term> = f.input.iter().map(|p| self.get(p, s)).collect::<R<_>>()?;
        let g2 = match &f.graph {
            None => g.cloned(),
            Some(None) => None,
            Some(Some(p)) => Some(self.get(p, s)?),
        };
        self.go(&f.layout, g2.as_ref(), &inputs)
    }
    fn go(&mut self, id: &str, g: Option<&Term>, inputs: &[Term]) -> R<H> {
        self.depth += 1;
        if self.depth > 120 {
            return Err(V::Unsure);
        }
        let here = (id.to_string(), g.cloned(), inputs.to_vec());
        if self.calls.contains(&here) {
            self.endless = true;
            return Err(V::No);
        }
        self.calls.push(here);
        let r = self.go2(id, g, inputs);
        self.calls.pop();
        self.depth -= 1;
        r
    }
    fn go2(&mut self, id: &str, g: Option<&Term>, inputs: &[Term]) -> R<H> {
        let l: &Lay = self.l.get(id).ok_or(V::No)?;
        match l.kind {
            Kind::Never => return Err(V::No),
            Kind::Always => return Ok(H { tags: vec![], v: HV::Leaf(Val::Unit) }),
            _ => (),
        }
        if l.inputs != inputs.len() {
            return Err(V::No);
        }
        let mut sub: Sub = inputs.iter().cloned().map(Some).collect();
        sub.resize(sub.len() + l.intro, None);
        let sub = self.unique(sub, &l.data, g)?.ok_or(V::No)?;
        let mut tags: Vec<Option<u64>> = l.tag.into_iter().collect();
        let ext = |s: &Sub, n: usize| {
            let mut s = s.clone();
            s.resize(s.len() + n, None);
            s
        };
        // The text and the datatype.
        let lit = |me: &Self, r: &Pat, dt: &str| -> R<(String, String)> {
            let dt = me.names.one(&Term::Iri(dt.into()));
            let mut found = None;
            for t in me.names.of(&me.get(r, &sub)?) {
                if let Term::Lit(v, Ok(d)) = t {
                    if me.names.one(&Term::Iri(d.clone())) == dt && found.replace((v, d)).is_some() {
                        return Err(V::No);
                    }
                }
            }
            found.ok_or(V::No)
        };
        let v = match &l.kind {
            Kind::Unit(c) => HV::Leaf(c.clone()),
            Kind::Bool(r, dt) => {
                let (t, dt) = lit(self, r, dt)?;
                if dt != format!("{XSD}boolean") {
                    return Err(V::No);
                }
                HV::Leaf(Val::Bool(match t.as_str() {
                    "true" | "1" => true,
                    "false" | "0" => false,
                    _ => return Err(V::No),
                }))
            }
            Kind::Num(r, dt) => {
                let (t, dt) = lit(self, r, dt)?;
                if !is_decimal_type(&dt) {
                    return Err(V::No);
                }
                if t.contains(['e', 'E']) {
                    return Err(V::No);
                }
                HV::Leaf(Val::Num(val::decimal(&t).ok_or(V::No)?))
            }
            Kind::Str(r, dt) => HV::Leaf(Val::Str(lit(self, r, dt)?.0)),
            Kind::Id(r) => {
                let mut found = None;
                for t in self.names.of(&self.get(r, &sub)?) {
                    if let Term::Iri(i) = t {
                        if found.replace(i).is_some() {
                            return Err(V::No);
                        }
                    }
                }
                HV::Leaf(Val::Str(found.ok_or(V::No)?))
            }
            Kind::Bytes(r, dt) => {
                let (t, dt) = lit(self, r, dt)?;
                HV::Leaf(Val::Bytes(if dt == format!("{XSD}hexBinary") {
                    val::from_hex(&t).ok_or(V::No)?
                } else if dt == format!("{XSD}base64Binary") {
                    match val::from_base64(&t) {
                        Some(b) => b,
                        // Missing padding and spaces may be let through.
                        None if t.bytes().all(|c| c.is_ascii_alphanumeric() || b"+/= \t\r\n".contains(&c)) => return Err(V::Unsure),
                        None => return Err(V::No),
                    }
                } else {
                    return Err(V::No);
                }))
            }
            Kind::Sum(vs) => {
                let mut found: Option<H> = None;
                let mut unsure = false;
                for x in vs {
                    let s = match self.unique(ext(&sub, x.intro), &x.data, g)? {
                        Some(s) => s,
                        None => continue,
                    };
                    // An unbound variable here stops the whole run, not the variant alone.
                    for p in x.value.input.iter().chain(x.value.graph.iter().flatten()) {
                        self.get(p, &s)?;
                    }
                    let depth = self.depth;
                    let r = self.sub(&x.value, &s, g);
                    self.depth = depth;
                    if self.endless {
                        return Err(V::No);
                    }
                    match r {
                        Ok(h) => {
                            if found.replace(h).is_some() {
                                return Err(V::No);
                            }
                        }
                        Err(V::Unsure) => unsure = true,
                        Err(V::No) => (),
                    }
                }
                if unsure {
                    return Err(V::Unsure);
                }
                let h = found.ok_or(V::No)?;
                tags.extend(h.tags);
                h.v
            }
            Kind::Record(fs) => {
                let mut m = BTreeMap::new();
                let mut unsure = false;
                for f in fs {
                    match self.unique(ext(&sub, f.intro), &f.data, g)? {
                        Some(s) => {
                            let depth = self.depth;
                            match self.sub(&f.value, &s, g) {
                                Ok(h) => {
                                    m.insert(f.name.clone(), h);
                                }
                                Err(V::No) => return Err(V::No),
                                Err(V::Unsure) => unsure = true,
                            }
                            self.depth = depth;
                        }
                        None if f.required => return Err(V::No),
                        None => (),
                    }
                }
                if unsure {
                    return Err(V::Unsure);
                }
                HV::Map(m)
            }
            Kind::Set(item) => {
                let mut v = vec![];
                for s in self.matches(ext(&sub, item.intro), &item.data, g)? {
                    v.push(self.sub(&item.value, &s, g)?);
                }
                HV::Set(v)
            }
            Kind::Tuple(items) => {
                let mut v = vec![];
                for item in items {
                    let s = self.unique(ext(&sub, item.intro), &item.data, g)?.ok_or(V::No)?;
                    v.push(self.sub(&item.value, &s, g)?);
                }
                HV::List(v)
            }
            Kind::List(h, t, node) => {
                let mut head = self.get(h, &sub)?;
                let tail = self.get(t, &sub)?;
                let mut seen = BTreeSet::new();
                let mut v = vec![];
                while head != tail {
                    if !seen.insert(head.clone()) {
                        return Err(V::No);
                    }
                    let mut s = sub.clone();
                    s.push(Some(head));
                    let rest = s.len();
                    let s = self.unique(ext(&s, 1 + node.intro), &node.data, g)?.ok_or(V::No)?;
                    v.push(self.sub(&node.value, &s, g)?);
                    head = s[rest].clone().ok_or(V::No)?;
                }
                HV::List(v)
            }
            Kind::Never | Kind::Always => unreachable!(),
        };
        Ok(H { tags, v })
    }
}

impl H {
    pub fn equals(&self, v: &Val) -> bool {
        match (&self.v, v) {
            (HV::Leaf(a), b) => a == b,
            (HV::Map(m), Val::Map(n)) => m.len() == n.len() && m.iter().all(|(k, h)| n.get(&Val::Str(k.clone())).map(|x| h.equals(x)).unwrap_or(false)),
            (HV::List(a), Val::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(h, x)| h.equals(x)),
            (HV::Set(a), Val::List(b)) => {
                let mut left: Vec<&Val> = b.iter().collect();
                a.len() == b.len()
                    && a.iter().all(|h| match left.iter().position(|x| h.equals(x)) {
                        Some(i) => {
                            left.remove(i);
                            true
                        }
                        None => false,
                    })
            }
            _ => false,
        }
    }

    /// Comparison with a CBOR item, tags included.
    pub fn equals_cbor(&self, c: &C) -> bool {
        let mut c = c;
        for t in &self.tags {
            match (t, c) {
                (Some(t), C::Tag(u, inner)) if t == u => c = inner,
                _ => return false,
            }
        }
        match (&self.v, c) {
            (HV::Leaf(a), b) => leaf_cbor(a, b),
            (HV::Map(m), C::Map(n)) => {
                m.len() == n.len()
                    && m.iter().all(|(k, h)| n.iter().any(|(l, x)| *l == C::Text(k.clone()) && h.equals_cbor(x)))
            }
            (HV::List(a), C::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(h, x)| h.equals_cbor(x)),
            (HV::Set(a), C::Arr(b)) => {
                let mut left: Vec<&C> = b.iter().collect();
                a.len() == b.len()
                    && a.iter().all(|h| match left.iter().position(|x| h.equals_cbor(x)) {
                        Some(i) => {
                            left.remove(i);
                            true
                        }
                        None => false,
                    })
            }
            _ => false,
        }
    }

    pub fn unknown_tags(&self) -> bool {
        self.tags.iter().any(Option::is_none)
            || match &self.v {
                HV::Leaf(_) => false,
                HV::Map(m) => m.values().any(H::unknown_tags),
                HV::List(a) | HV::Set(a) => a.iter().any(H::unknown_tags),
            }
    }

    pub fn plain(&self) -> Val {
        match &self.v {
            HV::Leaf(v) => v.clone(),
            HV::Map(m) => Val::Map(m.iter().map(|(k, h)| (Val::Str(k.clone()), h.plain())).collect()),
            HV::List(a) | HV::Set(a) => Val::List(a.iter().map(H::plain).collect()),
        }
    }
}

/// A value against a CBOR item written for it (big integers as bignums, other numbers beyond
/// the integers as the nearest binary64).
pub fn leaf_cbor(v: &Val, c: &C) -> bool {
    match (v, c) {
        (Val::Unit, C::Null) => true,
        (Val::Bool(a), C::Bool(b)) => a == b,
        (Val::Str(a), C::Text(b)) => a == b,
        (Val::Bytes(a), C::Bytes(b)) => a == b,
        (Val::Num(n), c) => num_cbor(n, c),
        (Val::List(a), C::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| leaf_cbor(x, y)),
        (Val::Map(a), C::Map(b)) => a.len() == b.len() && a.iter().all(|(k, x)| b.iter().any(|(l, y)| leaf_cbor(k, l) && leaf_cbor(x, y))),
        _ => false,
    }
}

pub fn num_cbor(n: &BigRational, c: &C) -> bool {
    match c {
        C::Int(i) => *n == BigRational::from_integer(i.clone()),
        C::Tag(2, b) => matches!(&**b, C::Bytes(b) if *n == BigRational::from_integer(BigInt::from_bytes_be(num_bigint::Sign::Plus, b))),
        C::Tag(3, b) => matches!(&**b, C::Bytes(b) if *n == BigRational::from_integer(-BigInt::from_bytes_be(num_bigint::Sign::Plus, b) - 1)),
        C::Float(f) => {
            let f = f64::from_bits(*f);
            match val::from_f64(f) {
                Some(r) if r == *n => true,
                Some(_) => {
                    // Inexact only where no 64-bit integer would do; one unit in the last place.
                    let int64 = n.is_integer() && *n.numer() >= BigInt::from(i64::MIN) && *n.numer() <= BigInt::from(u64::MAX);
                    !int64
                        && match val::nearest_f64(n) {
                            Some(g) => f == g || f == next(g, 1) || f == next(g, -1),
                            None => false,
                        }
                }
                None => val::nearest_f64(n).is_none(),
            }
        }
        _ => false,
    }
}

fn next(f: f64, d: i64) -> f64 {
    if f == 0.0 {
        return f64::from_bits(1) * d as f64;
    }
    f64::from_bits((f.to_bits() as i64 + d) as u64)
}

pub fn _quads(d: &Data) -> Vec<&Quad> {
    d.iter().collect()
}
