//! Seeded workload: layouts, values and datasets.

use crate::json::{s, J};
use crate::nq::{Data, Quad, Term, RDF, XSD};
use crate::refm::{self, Kind, Layouts, Pat};
use crate::rng::Rng;
use crate::val::{self, Val};
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::One;
use std::collections::{BTreeMap, BTreeSet};

pub const PRE: &str = "https://treeldr.org/prelude#";
pub const TAG: &str = "https://schema.treeldr.org/cbor#tag";

#[derive(Clone, Debug)]
pub struct Opts {
    pub depth: usize,
    /// Only constructions that record all of a value's content.
    pub faithful: bool,
    pub prelude: bool,
    pub graphs: bool,
    pub tags: bool,
    pub sums: bool,
    /// Expected number of elements of lists and sets.
    pub width: usize,
    /// Chance (percent) of reusing a predicate.
    pub reuse: usize,
    pub big: bool,
    /// Chance (percent) that a layout has many parts.
    pub wide: usize,
    /// Layouts that code can be generated for.
    pub code: bool,
    /// Byte strings, which JSON has not.
    pub bytes: bool,
}

impl Opts {
    pub fn random(r: &mut Rng) -> Self {
        Opts {
            depth: *r.pick(&[1, 1, 2, 2, 2, 3, 3, 4]),
            faithful: false,
            prelude: r.pct(85),
            graphs: r.pct(40),
            tags: r.pct(30),
            sums: r.pct(60),
            width: *r.pick(&[1, 2, 3, 3, 4, 8]),
            reuse: *r.pick(&[0, 0, 0, 5, 20]),
            big: r.pct(4),
            wide: if r.pct(4) { 30 } else { 0 },
            code: false,
            bytes: r.pct(8),
        }
    }
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub o: Opts,
    n: usize,
    /// Layouts that may be referred to: identifier and number of inputs.
    pub defined: Vec<(String, usize)>,
    /// Layouts being written that may refer to themselves, and whether they may here.
    open: Vec<(String, usize)>,
    loose: bool,
    /// Layouts moved to files of their own.
    pub files: Vec<J>,
    prefixes: BTreeMap<String, String>,
    base: Option<String>,
    field_names: Vec<&'static str>,
}

const NAMES: &[&str] = &["a", "b", "id", "name", "value", "k1", "k2", "é", "with space", "", "type", "x-y", "zz", "items", "A", "0", "key\"q", "line\nbreak", "日本"];

/// Names of fields and variants of generated types.
const RUST: &[&str] = &["a", "b", "id", "name", "value", "k1", "k2", "x_1", "_private", "items", "A", "snake_case", "zz", "self_", "union", "number", "Option", "raw"];
const ODD: &[&str] = &["type", "Self", "x-y", "", "0", "fn", "with space", "_", "é", "r#fn"];

fn obj(e: Vec<(&str, J)>) -> J {
    J::Obj(e.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, o: Opts) -> Self {
        let mut field_names = if o.code { RUST.to_vec() } else { NAMES.to_vec() };
        if o.code && r.pct(10) {
            field_names = vec![*r.pick(ODD), "a", "b", "c"];
        }
        r.shuffle(&mut field_names);
        Gen { r, o, n: 0, defined: vec![], open: vec![], loose: false, files: vec![], prefixes: BTreeMap::new(), base: None, field_names }
    }

    /// A number of parts beyond the usual ones.
    fn many(&mut self) -> Option<usize> {
        if !self.r.pct(self.o.wide) {
            return None;
        }
        Some(match self.r.below(4) {
            0 => *self.r.pick(&[8, 9, 16, 17, 32, 33, 64, 65, 66]),
            _ => self.r.range(5, 80),
        })
    }

    fn fresh(&mut self) -> usize {
        self.n += 1;
        self.n
    }

    /// Writes an IRI in full, or shortened by a prefix or the base in scope.
    pub fn iri(&mut self, i: &str) -> String {
        let mut forms = vec![];
        for (k, p) in &self.prefixes {
            if let Some(rest) = i.strip_prefix(p.as_str()) {
                if !rest.starts_with("//") {
                    forms.push(format!("{k}:{rest}"));
                }
            }
        }
        if let Some(b) = &self.base {
            let nofrag = b.split('#').next().unwrap();
            if let Some(k) = nofrag.rfind('/') {
                if nofrag[..k].contains("//") && nofrag[..k].len() > 8 {
                    if let Some(rest) = i.strip_prefix(&nofrag[..=k]) {
                        if !rest.is_empty() && !rest.starts_with('/') && !rest.contains([':', '?']) && !rest.starts_with('#') {
                            forms.push(rest.to_string());
                        }
                    }
                }
            }
            if let Some(f) = i.strip_prefix(nofrag).and_then(|x| x.strip_prefix('#')) {
                forms.push(format!("#{f}"));
            }
        }
        // A full IRI whose scheme is a prefix would be read as a compact one.
        let scheme = i.split(':').next().unwrap();
        if !self.prefixes.contains_key(scheme) {
            forms.push(i.to_string());
        }
        // Check that a form reads back as the IRI meant (longest prefix, shadowing...).
        let ok: Vec<String> =
            forms.into_iter().filter(|f| crate::nq::resolve(f, &self.prefixes, self.base.as_deref()).ok().as_deref() == Some(i)).collect();
        if ok.is_empty() {
            i.to_string()
        } else {
            self.r.pick(&ok).clone()
        }
    }

    fn ji(&mut self, i: &str) -> J {
        J::Str(self.iri(i))
    }

    pub fn pred(&mut self) -> String {
        let n = if self.r.pct(self.o.reuse) { self.r.below(4) } else { self.fresh() + 3 };
        match self.r.below(6) {
            0 => format!("https://ex.org/voc#p{n}"),
            1 => format!("urn:p:{n}"),
            2 => format!("https://ex.org/é/p{n}"),
            _ => format!("https://ex.org/p{n}"),
        }
    }

    pub fn new_id(&mut self) -> String {
        let n = self.fresh();
        if self.o.code {
            return match self.r.below(24) {
                0 => format!("https://ex.org/my_layout{n}"),
                1 => format!("https://ex.org/doc?q=a/b#snake_case_layout__{n}"),
                2 => format!("https://ex.org/a/b/deep{n}"),
                3 => format!("https://ex.org/deep{n}?query=x/y"),
                4 => format!("urn:layout/{n}/last{n}"),
                5 => format!("https://ex.org/x#_{}", ["a", "camelCase", "Self_x"][n % 3].to_string() + &n.to_string()),
                6 if self.r.pct(20) => match self.r.below(7) {
                    0 => format!("urn:layout:{n}"),
                    1 => format!("https://ex.org/foo-bar{n}"),
                    2 => format!("https://ex.org/{n}"),
                    3 => format!("https://ex.org/p{n}/self"),
                    4 => format!("https://ex.org/p{n}#"),
                    5 => format!("https://ex.org/p{n}#a/b"),
                    _ => format!("https://ex.org/été{n}"),
                },
                k if k % 2 == 0 => format!("https://ex.org/voc#L{n}"),
                _ => format!("https://ex.org/Layout{n}"),
            };
        }
        match self.r.below(4) {
            0 => format!("https://ex.org/voc#L{n}"),
            1 => format!("urn:layout:{n}"),
            _ => format!("https://ex.org/L{n}"),
        }
    }

    fn var(v: &str) -> J {
        J::Str(format!("_:{v}"))
    }

    fn any_term(&mut self, vars: &[String]) -> J {
        let k = self.r.below(5);
        let k = if self.o.code && matches!(k, 1 | 2) && self.r.pct(92) { 3 } else { k };
        match k {
            0 if !vars.is_empty() => Self::var(&self.r.pick(vars).clone()),
            1 => obj(vec![("value", s(&text(self.r))), ("type", {
                let d = *self.r.pick(&["string", "integer", "date"]);
                self.ji(&format!("{XSD}{d}"))
            })]),
            2 => obj(vec![("value", s(&text(self.r))), ("language", s(self.r.pick(&["en", "fr", "en-GB"])))]),
            _ => {
                let c = self.r.below(6);
                self.ji(&format!("https://ex.org/C{c}"))
            }
        }
    }

    fn graph_term(&mut self, vars: &[String]) -> J {
        if !vars.is_empty() && self.r.pct(25) {
            Self::var(&self.r.pick(vars).clone())
        } else {
            let g = self.r.below(3);
            self.ji(&format!("https://ex.org/g{g}"))
        }
    }

    fn quad(&mut self, sj: J, p: J, o: J, vars: &[String]) -> J {
        let mut q = vec![sj, p, o];
        if self.o.graphs && self.r.pct(15) {
            q.push(self.graph_term(vars));
        }
        J::Arr(q)
    }

    /// How a part (field, item) is linked: entries `intro`, `property` or `dataset`, the variables
    /// in scope and the one that stands for the value.
    fn link(&mut self, vars: &[String], entries: &mut Vec<(String, J)>) -> (Vec<String>, String) {
        let sub = if vars.is_empty() { None } else { Some(if self.r.pct(85) { vars[0].clone() } else { self.r.pick(vars).clone() }) };
        let mut all = vars.to_vec();
        let sub = match sub {
            Some(v) => Self::var(&v),
            None => s("https://ex.org/root"),
        };
        if !self.o.faithful && self.r.pct(2) {
            // nothing says how
            let v = self.r.pick(&["value", "alone"]).to_string();
            entries.push(("intro".into(), s(&v)));
            entries.push(("dataset".into(), J::Arr(vec![])));
            all.push(v.clone());
            return (all, v);
        }
        if !self.o.faithful && self.r.pct(2) {
            // through a property that is part of the data
            let (p, v) = ("pred".to_string(), "value".to_string());
            entries.push(("intro".into(), J::Arr(vec![s(&p), s(&v)])));
            let mut d = vec![self.quad(sub, Self::var(&p), Self::var(&v), vars)];
            let k = self.pred();
            let k = self.ji(&k);
            let t = if vars.is_empty() || self.r.pct(70) { self.any_term(vars) } else { Self::var(&vars[0]) };
            d.push(if self.r.pct(50) { self.quad(Self::var(&p), k, t, vars) } else { self.quad(t, k, Self::var(&p), vars) });
            if self.r.pct(50) {
                d.reverse();
            }
            entries.push(("dataset".into(), J::Arr(d)));
            all.push(p.clone());
            all.push(v.clone());
            return if self.r.pct(30) { (all, p) } else { (all, v) };
        }
        match self.r.below(10) {
            0..=5 if !vars.is_empty() => {
                let mut value = "value".to_string();
                if self.r.pct(25) {
                    value = self.r.pick(&["o", "value", "obj", "self"]).to_string();
                    entries.push(("intro".into(), if self.r.pct(50) { s(&value) } else { J::Arr(vec![s(&value)]) }));
                }
                let p = self.pred();
                entries.push(("property".into(), self.ji(&p)));
                all.push(value.clone());
                (all, value)
            }
            6 | 7 => {
                // through an intermediate resource
                let (m, v) = (format!("mid{}", self.r.below(2)), "value".to_string());
                let order = self.r.pct(50);
                let intro = if order { vec![s(&m), s(&v)] } else { vec![s(&v), s(&m)] };
                entries.push(("intro".into(), J::Arr(intro)));
                all.push(m.clone());
                all.push(v.clone());
                let (p, q) = (self.pred(), self.pred());
                let (p, q) = (self.ji(&p), self.ji(&q));
                let mut d = vec![self.quad(sub, p, Self::var(&m), vars), self.quad(Self::var(&m), q, Self::var(&v), vars)];
                if self.r.pct(30) {
                    let t = self.any_term(vars);
                    let p = self.pred();
                    let p = self.ji(&p);
                    d.push(self.quad(Self::var(&m), p, t, vars));
                }
                if self.r.pct(20) {
                    d.reverse();
                }
                entries.push(("dataset".into(), J::Arr(d)));
                (all, v)
            }
            _ => {
                let v = "value".to_string();
                all.push(v.clone());
                if self.r.pct(30) {
                    entries.push(("intro".into(), s(&v)));
                }
                let p = self.pred();
                let p = self.ji(&p);
                let inverse = self.r.pct(8);
                let mut d = vec![if inverse { self.quad(Self::var(&v), p, sub, vars) } else { self.quad(sub, p, Self::var(&v), vars) }];
                if self.r.pct(20) {
                    let t = self.any_term(vars);
                    let p = self.pred();
                    let p = self.ji(&p);
                    d.push(self.quad(Self::var(&v), p, t, vars));
                }
                entries.push(("dataset".into(), J::Arr(d)));
                (all, v)
            }
        }
    }

    /// A value format whose value is the resource `v`.
    fn format(&mut self, depth: usize, vars: &[String], v: &str, default: &str) -> J {
        let (l, n) = self.layout_ref(depth);
        let is_default = v == default;
        let graph = self.o.graphs && self.r.pct(15);
        if n == 1 && is_default && !graph && self.r.pct(75) {
            return l;
        }
        let mut e = vec![("layout", l)];
        if n != 1 || !is_default || self.r.pct(30) {
            let mut input = vec![Self::var(v)];
            if n == 0 {
                input.clear();
            } else if !self.o.faithful && self.r.pct(2) {
                // always the same resource
                input = vec![if self.r.pct(60) { self.ji("https://ex.org/C2") } else { self.any_term(&[]) }];
            }
            while input.len() < n {
                input.push(if self.r.pct(70) { Self::var(&self.r.pick(vars).clone()) } else { s("https://ex.org/C1") });
            }
            if input.len() == 1 && self.r.pct(50) {
                e.push(("input", input.pop().unwrap()));
            } else {
                e.push(("input", J::Arr(input)));
            }
        }
        if graph {
            let g = self.graph_term(vars);
            e.push(("graph", g));
        }
        let mut e: Vec<(String, J)> = e.into_iter().map(|(k, v)| (k.to_string(), v)).collect();
        if self.r.pct(20) {
            self.r.shuffle(&mut e);
        }
        J::Obj(e)
    }

    fn layout_ref(&mut self, depth: usize) -> (J, usize) {
        let loose = std::mem::take(&mut self.loose);
        if self.o.prelude && self.r.pct(if depth == 0 { 50 } else { 12 }) {
            let n = *self.r.pick(&refm::PRELUDE);
            if n != "unit" || !self.o.faithful {
                return (self.ji(&format!("{PRE}{n}")), 1);
            }
        }
        if loose && !self.open.is_empty() && self.r.pct(8) {
            let (i, n) = self.r.pick(&self.open).clone();
            return (self.ji(&i), n);
        }
        if !self.defined.is_empty() && self.r.pct(15) {
            let (i, n) = self.r.pick(&self.defined).clone();
            return (self.ji(&i), n);
        }
        let saved = (self.prefixes.clone(), self.base.clone());
        if self.r.pct(12) && self.files.len() < 4 {
            // in a file of its own
            self.prefixes.clear();
            self.base = None;
            let id = self.new_id();
            let (l, n) = self.layout(depth, Some(id.clone()));
            self.files.push(l);
            (self.prefixes, self.base) = saved;
            self.defined.push((id.clone(), n));
            return (self.ji(&id), n);
        }
        let named = if self.o.code { 98 } else { 25 };
        let id = if self.r.pct(named) { Some(self.new_id()) } else { None };
        let (l, n) = self.layout(depth, id.clone());
        (self.prefixes, self.base) = saved;
        if let Some(id) = id {
            self.defined.push((id, n));
        }
        (l, n)
    }

    /// A layout and its number of inputs.
    pub fn layout(&mut self, depth: usize, id: Option<String>) -> (J, usize) {
        let mut e: Vec<(String, J)> = vec![];
        if let Some(i) = &id {
            e.push(("id".into(), self.ji(i)));
        }
        let kind = if depth == 0 || self.r.pct(12) {
            *self.r.pick(&["boolean", "number", "number", "string", "string", "id", "unit", if self.o.bytes { "bytes" } else { "string" }, if self.o.bytes { "bytes" } else { "number" }])
        } else {
            *self.r.pick(&["record", "record", "record", "record", "list", "list", "set", "set", "tuple", if self.o.sums { "sum" } else { "record" }, if self.o.sums { "sum" } else { "tuple" }])
        };
        // header
        let outer = (self.prefixes.clone(), self.base.clone());
        let mut inner = outer.clone();
        if self.r.pct(20) {
            let mut ps = vec![];
            for (k, p) in [("ex", "https://ex.org/"), ("voc", "https://ex.org/voc#"), ("xsd", XSD), ("rdf", RDF), ("p", "urn:p:"), ("t", PRE), ("urn", "https://ex.org/")] {
                if self.r.pct(if k == "urn" { 3 } else { 35 }) {
                    // A name may stand for another namespace than it does outside.
                    let p = if self.r.pct(15) { *self.r.pick(&["https://ex.org/", "https://ex.org/voc#", XSD, RDF, "urn:p:", PRE, "https://ex.org/p", "https://ex.org/doc", "https://other.org/"]) } else { p };
                    let f = self.ji(p);
                    ps.push((k.to_string(), f));
                    inner.0.insert(k.to_string(), p.to_string());
                }
            }
            e.push(("prefixes".into(), J::Obj(ps)));
        }
        if self.r.pct(12) {
            let b = *self.r.pick(&["https://ex.org/", "https://ex.org/voc", "https://ex.org/doc#x", "https://ex.org/a/b"]);
            e.push(("base".into(), self.ji(b)));
            inner.1 = Some(b.to_string());
        }
        (self.prefixes, self.base) = inner;
        let literal = matches!(kind, "boolean" | "number" | "string" | "id" | "unit" | "bytes");
        let mut vars: Vec<String> = vec!["self".into()];
        let list_default_head = self.r.pct(85);
        if !literal && self.r.pct(15) {
            vars = match self.r.below(4) {
                0 => vec!["s".into()],
                1 => vec!["self".into(), "other".into()],
                2 if kind != "list" => vec!["x".into(), "self".into()],
                _ => vec!["self".into()],
            };
            e.push(("input".into(), if vars.len() == 1 && self.r.pct(50) { s(&vars[0]) } else { J::Arr(vars.iter().map(|v| s(v)).collect()) }));
        }
        let inputs = vars.len();
        if let (Some(i), false) = (&id, literal) {
            self.open.push((i.clone(), inputs));
        }
        let mut data = vec![];
        if self.r.pct(if literal { 10 } else { 25 }) {
            let n = self.many().map(|n| n.min(6)).unwrap_or(self.r.range(1, 2));
            for _ in 0..n {
                if self.r.pct(50) {
                    let t = self.any_term(&vars);
                    let p = if self.r.pct(50) { format!("{RDF}type") } else { self.pred() };
                    let p = self.ji(&p);
                    let q = self.quad(Self::var(&vars[0]), p, t, &vars);
                    data.push(q);
                } else {
                    let v = format!("i{}", vars.len());
                    let p = self.pred();
                    let p = self.ji(&p);
                    let q = self.quad(Self::var(&vars[0]), p, Self::var(&v), &vars);
                    data.push(q);
                    vars.push(v);
                }
            }
        }
        // A resource of a literal layout other than the input.
        let mut resource = None;
        if literal && kind != "unit" && self.r.pct(12) {
            let v = "lit".to_string();
            let p = self.pred();
            let p = self.ji(&p);
            let q = self.quad(Self::var(&vars[0]), p, Self::var(&v), &vars);
            data.push(q);
            vars.push(v.clone());
            resource = Some(v);
        }
        if vars.len() > inputs {
            e.push(("intro".into(), J::Arr(vars[inputs..].iter().map(|v| s(v)).collect())));
        }
        if !data.is_empty() || self.r.pct(3) {
            if self.r.pct(15) {
                data.reverse();
            }
            e.push(("dataset".into(), J::Arr(data)));
        }
        if self.o.tags && self.r.pct(25) {
            let t = *self.r.pick(&["0", "1", "23", "24", "100", "255", "256", "65535", "65536", "4294967295", "4294967296", "9223372036854775807"]);
            let k = self.iri(TAG);
            let mut x = vec![(k, J::Num(t.into()))];
            if self.r.pct(4) && !self.o.faithful {
                // no tag at all
                x[0].1 = match self.r.below(4) {
                    0 => s("24"),
                    1 => J::Num("-1".into()),
                    2 => J::Num("1.5".into()),
                    _ => J::Num("18446744073709551616".into()),
                };
            }
            if self.r.pct(20) {
                x.push(("https://ex.org/extra".into(), s("something")));
            }
            e.push(("extra".into(), J::Obj(x)));
        }
        let rest = depth.saturating_sub(1);
        match kind {
            "unit" => {
                if self.r.pct(50) && !self.o.faithful {
                    let v = if self.o.code { Val::Str("constant".into()) } else { any_value(self.r, 2) };
                    e.push(("const".into(), val::to_json(&v).unwrap()));
                }
            }
            "boolean" => {
                if self.r.pct(20) {
                    let d = if self.r.pct(4) && !self.o.faithful { "https://ex.org/mytype".into() } else { format!("{XSD}boolean") };
                    e.push(("datatype".into(), self.ji(&d)));
                }
            }
            "number" => {
                let d = *self.r.pick(&[
                    "integer", "decimal", "decimal", "int", "long", "unsignedByte", "nonNegativeInteger", "negativeInteger", "short", "unsignedLong",
                    "unsignedShort", "unsignedInt", "byte", "positiveInteger", "nonPositiveInteger",
                ]);
                let d = if self.r.pct(2) && !self.o.faithful { "https://ex.org/mytype".into() } else { format!("{XSD}{d}") };
                e.push(("datatype".into(), self.ji(&d)));
            }
            "string" => {
                if self.r.pct(35) {
                    let d = match self.r.below(4) {
                        0 => format!("{XSD}string"),
                        1 => format!("{XSD}date"),
                        2 => format!("{XSD}integer"),
                        _ => "https://ex.org/mytype".to_string(),
                    };
                    e.push(("datatype".into(), self.ji(&d)));
                }
            }
            "bytes" => {
                let d = *self.r.pick(&["hexBinary", "base64Binary", "hexBinary", "base64Binary", "hexBinary", "base64Binary", "string"]);
                e.push(("datatype".into(), self.ji(&format!("{XSD}{d}"))));
            }
            "id" => (),
            "record" => {
                let many = self.many();
                let n = many.unwrap_or(if self.r.pct(6) { 0 } else if self.r.pct(8) { self.r.range(5, 9) } else { self.r.range(1, 4) });
                let rest = if many.is_some() { 0 } else { rest };
                let at = self.r.below(4);
                let mut fs = vec![];
                for i in 0..n {
                    let name = if many.is_some() { format!("f{i}") } else { self.field_names[(at + i) % self.field_names.len()].to_string() };
                    let mut f = vec![];
                    let (all, v) = self.link(&vars, &mut f);
                    let required = if self.r.pct(60) { Some(self.r.pct(75)) } else { None };
                    self.loose = required != Some(true);
                    f.push(("value".into(), self.format(rest, &all, &v, "value")));
                    if let Some(b) = required {
                        f.push(("required".into(), J::Bool(b)));
                    }
                    if self.r.pct(25) {
                        self.r.shuffle(&mut f);
                    }
                    fs.push((name, J::Obj(f)));
                }
                e.push(("fields".into(), J::Obj(fs)));
            }
            "set" => {
                let mut f = vec![];
                let (all, v) = self.link(&vars, &mut f);
                self.loose = true;
                f.push(("value".into(), self.format(rest, &all, &v, "value")));
                e.push(("item".into(), J::Obj(f)));
            }
            "tuple" => {
                let many = self.many();
                let n = many.unwrap_or(self.r.below(4));
                let rest = if many.is_some() { 0 } else { rest };
                let mut is = vec![];
                for _ in 0..n {
                    let mut f = vec![];
                    let (all, v) = self.link(&vars, &mut f);
                    f.push(("value".into(), self.format(rest, &all, &v, "value")));
                    is.push(J::Obj(f));
                }
                e.push(("items".into(), J::Arr(is)));
            }
            "sum" => {
                let many = self.many();
                let n = many.unwrap_or(if self.r.pct(5) { 0 } else { self.r.range(1, 4) });
                let rest = if many.is_some() { 0 } else { rest };
                let mut vs = vec![];
                let style = self.r.below(3);
                for i in 0..n {
                    let name = if many.is_some() { format!("v{i}") } else { self.field_names[i % self.field_names.len()].to_string() };
                    let mut f = vec![];
                    let mut all = vars.clone();
                    let mut v = vars[0].clone();
                    if style == 0 || self.r.pct(15) {
                        // a type statement tells the variants apart
                        let t = self.ji(&format!("https://ex.org/V{i}"));
                        let p = self.ji(&format!("{RDF}type"));
                        let q = self.quad(Self::var(&vars[0]), p, t, &vars);
                        f.push(("dataset".into(), J::Arr(vec![q])));
                    } else if style == 1 {
                        let p = self.pred();
                        let p = self.ji(&p);
                        let q = self.quad(Self::var(&vars[0]), p, Self::var("w"), &vars);
                        all.push("w".into());
                        f.push(("intro".into(), s("w")));
                        f.push(("dataset".into(), J::Arr(vec![q])));
                        if self.r.pct(80) {
                            v = "w".into();
                        }
                    }
                    self.loose = n > 1;
                    f.push(("value".into(), self.format(rest, &all, &v, "self")));
                    vs.push((name, J::Obj(f)));
                }
                e.push(("variants".into(), J::Obj(vs)));
            }
            "list" => {
                let custom = self.r.pct(40);
                if custom {
                    let mut f = vec![];
                    let mut all = vars.clone();
                    let (mut h, mut t) = ("head".to_string(), "rest".to_string());
                    if self.r.pct(25) {
                        h = "h".into();
                        f.push(("head".into(), s("h")));
                    }
                    if self.r.pct(25) {
                        t = "r".into();
                        f.push(("rest".into(), s("r")));
                    }
                    all.push(h.clone());
                    all.push(t.clone());
                    let v = "value".to_string();
                    all.push(v.clone());
                    if self.r.pct(70) {
                        let (p, q) = (self.pred(), self.pred());
                        let (p, q) = (self.ji(&p), self.ji(&q));
                        let mut d = vec![self.quad(Self::var(&h), p, Self::var(&v), &vars), self.quad(Self::var(&h), q, Self::var(&t), &vars)];
                        if self.r.pct(20) {
                            d.reverse();
                        }
                        f.push(("dataset".into(), J::Arr(d)));
                    }
                    self.loose = true;
                    f.push(("value".into(), self.format(rest, &all, &v, "value")));
                    e.push(("node".into(), J::Obj(f)));
                } else {
                    let (mut l, mut n) = self.layout_ref(rest);
                    while n != 1 {
                        (l, n) = self.layout_ref(0);
                    }
                    e.push(("node".into(), l));
                }
                if !list_default_head || !vars[..].contains(&"self".to_string()) {
                    e.push(("head".into(), Self::var(&vars[0])));
                }
                if self.r.pct(15) {
                    e.push(("tail".into(), s("https://ex.org/end")));
                }
            }
            _ => unreachable!(),
        }
        if let Some(v) = resource {
            e.push(("resource".into(), Self::var(&v)));
        }
        // `type` can be anywhere.
        let at = if self.r.pct(70) { 0 } else { self.r.below(e.len() + 1) };
        e.insert(at, ("type".into(), s(kind)));
        if self.r.pct(15) {
            self.r.shuffle(&mut e);
        }
        if id.is_some() && !literal {
            self.open.pop();
        }
        (self.prefixes, self.base) = outer;
        (J::Obj(e), inputs)
    }
}

pub fn text(r: &mut Rng) -> String {
    match r.below(16) {
        0 => String::new(),
        1 => "é".into(),
        2 => "日本語 🦀".into(),
        3 => "quote \" and \\ back".into(),
        4 => "line\nbreak\ttab\rcr".into(),
        5 => "\u{0}\u{1f}\u{7f}\u{85}\u{2028}".into(),
        6 => {
            let n = r.range(1, 40);
            (0..n).map(|_| *r.pick(&['a', 'Z', '0', ' ', '.', 'é', '<', '>', '_', ':', '#', '@', '^', '\'', '/', '\u{10ffff}'])).collect()
        }
        7 if r.pct(30) => "x".repeat(*r.pick(&[23, 24, 25, 255, 256, 257])),
        7 => "x".repeat(r.range(1, 200)),
        8 => (*r.pick(&["true", "null", "1", "-0.5", "_:b0", "@en", "^^<x>", ".", "https://ex.org/a"])).into(),
        _ => format!("t{}", r.below(50)),
    }
}

fn long(r: &mut Rng) -> String {
    let unit = *r.pick(&["long ", "x", "é", "語", "🦀", "\u{1}", "\""]);
    let n = match r.below(3) {
        0 => r.range(1, 12_500),
        1 => *r.pick(&[1023, 1024, 4095, 4096, 8191, 8192, 8193, 16384]),
        _ if unit == "\u{1}" => 32_768,
        _ => *r.pick(&[65_535, 65_536, 65_537, 32_768]),
    };
    // The first characters decide how the others lie in buffers.
    let mut t = "a".repeat(r.below(5));
    t += &unit.repeat(n.saturating_sub(t.len()) / unit.len());
    t
}

pub fn an_iri(r: &mut Rng) -> String {
    match r.below(8) {
        0 => format!("urn:x:{}", r.below(20)),
        1 => format!("https://ex.org/é/{}?q=1&r=a", r.below(20)),
        2 => format!("mailto:a{}@ex.org", r.below(20)),
        3 => "https://ex.org/C1".into(),
        _ => format!("https://ex.org/r{}#f", r.below(30)),
    }
}

pub fn number(r: &mut Rng) -> BigRational {
    let int = |t: &str| BigRational::from_integer(t.parse::<BigInt>().unwrap());
    match r.below(20) {
        0 if r.pct(50) => {
            // Many digits.
            let mut n = BigInt::from(r.u64() as i64);
            for _ in 0..r.below(5) {
                n = n * BigInt::from(r.u64()) + BigInt::from(r.u64());
            }
            BigRational::new(n, val::pow10(*r.pick(&[0, 0, 1, 5, 18, 19, 20, 40])))
        }
        0 => int("0"),
        1 => int(r.pick(&["1", "-1", "23", "24", "255", "256", "-24", "-25", "-128", "-129", "-256", "-257", "127", "128"])),
        2 => int(r.pick(&["65535", "65536", "-65536", "-65537", "32767", "-32768", "2147483647", "-2147483648", "4294967295", "4294967296", "-4294967296", "-4294967297"])),
        3 => int(r.pick(&["9007199254740991", "9007199254740992", "9007199254740993", "-9007199254740993", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "-9223372036854775807"])),
        4 => int(r.pick(&["18446744073709551616", "-9223372036854775809", "-18446744073709551616", "-18446744073709551617", "123456789012345678901234567890", "-99999999999999999999999999"])),
        5 => val::decimal(r.pick(&["0.5", "-0.5", "0.1", "-0.1", "1.25", "-2.75", "100.001", "-100.001", "0.0001", "3.14159265358979", "-0.015625"])).unwrap(),
        6 => {
            let d = r.range(0, 6) as u32;
            BigRational::new(BigInt::from(r.u64() as i64 >> r.below(50)), val::pow10(d))
        }
        7 => val::decimal(r.pick(&["1e20", "1e-7", "1.5e300", "-1e22", "5e-324", "1e23", "-2.5e-3", "1E+2"])).unwrap(),
        8 => BigRational::new(BigInt::from(r.below(1 << 20)), BigInt::one() << r.below(12)),
        _ => BigRational::from_integer(BigInt::from(r.below(300) as i64 - 100)),
    }
}

pub fn any_value(r: &mut Rng, depth: usize) -> Val {
    match r.below(if depth == 0 { 5 } else { 8 }) {
        0 => Val::Unit,
        1 => Val::Bool(r.pct(50)),
        2 => Val::Num(number(r)),
        3 => Val::Str(text(r)),
        4 => Val::Str(an_iri(r)),
        5 | 6 => Val::List((0..r.below(4)).map(|_| any_value(r, depth - 1)).collect()),
        _ => Val::Map((0..r.below(4)).map(|_| (Val::Str(if r.pct(50) { text(r) } else { r.pick(NAMES).to_string() }), any_value(r, depth - 1))).collect()),
    }
}

/// A value of a layout, when one is found.
pub fn value(r: &mut Rng, l: &Layouts, id: &str, o: &Opts, depth: usize) -> Option<Val> {
    let lay = l.get(id)?;
    if depth > 14 {
        return None;
    }
    let width = |r: &mut Rng| {
        if o.big && depth < 2 {
            if depth == 0 {
                if r.pct(60) { r.range(40, 300) } else { *r.pick(&[23, 24, 255, 256, 257]) }
            } else {
                r.range(1, 30)
            }
        } else {
            match depth {
                0..=2 => r.below(o.width + 1),
                3..=5 => r.below(o.width.min(2) + 1),
                _ => 0,
            }
        }
    };
    Some(match &lay.kind {
        Kind::Never => return None,
        Kind::Always => any_value(r, 2),
        Kind::Unit(c) => c.clone(),
        Kind::Bool(..) => Val::Bool(r.pct(50)),
        Kind::Num(..) => Val::Num(number(r)),
        Kind::Bytes(_, d) if d.ends_with("string") => return None,
        Kind::Bytes(..) => Val::Bytes((0..if r.pct(5) { *r.pick(&[255, 256, 257, 1000]) } else { *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 23, 24, 60]) }).map(|_| r.below(256) as u8).collect()),
        Kind::Str(..) => Val::Str(if o.big && r.pct(3) { long(r) } else { text(r) }),
        Kind::Id(_) => Val::Str(an_iri(r)),
        Kind::Record(fs) => {
            let mut m = BTreeMap::new();
            let p = *r.pick(&[0, 50, 80, 100]);
            for f in fs {
                if f.required || (depth < 8 && r.pct(p)) {
                    match value(r, l, &f.value.layout, o, depth + 1) {
                        Some(v) => {
                            m.insert(Val::Str(f.name.clone()), v);
                        }
                        None if f.required => return None,
                        None => (),
                    }
                }
            }
            Val::Map(m)
        }
        Kind::Sum(vs) => {
            for _ in 0..3 {
                if vs.is_empty() {
                    return None;
                }
                let v = r.pick(vs).clone();
                if let Some(v) = value(r, l, &v.value.layout, o, depth + 1) {
                    return Some(v);
                }
            }
            return None;
        }
        Kind::List(_, _, p) => {
            let n = width(r);
            Val::List((0..n).map(|_| value(r, l, &p.value.layout, o, depth + 1)).collect::<Option<_>>()?)
        }
        Kind::Set(p) => {
            let n = width(r);
            let xs: Vec<Val> = (0..n).map(|_| value(r, l, &p.value.layout, o, depth + 1)).collect::<Option<_>>()?;
            Val::List(xs)
        }
        Kind::Tuple(is) => Val::List(is.iter().map(|p| value(r, l, &p.value.layout, o, depth + 1)).collect::<Option<_>>()?),
    })
}

/// A small change somewhere in a value.
pub fn mutate_value(r: &mut Rng, v: &Val) -> Val {
    fn count(v: &Val) -> usize {
        1 + match v {
            Val::List(l) => l.iter().map(count).sum(),
            Val::Map(m) => m.values().map(count).sum(),
            _ => 0,
        }
    }
    fn go(r: &mut Rng, v: &Val, at: &mut usize) -> Val {
        if *at == 0 {
            *at = usize::MAX;
            return change(r, v);
        }
        *at -= 1;
        match v {
            Val::List(l) => Val::List(l.iter().map(|x| if *at == usize::MAX { x.clone() } else { go(r, x, at) }).collect()),
            Val::Map(m) => Val::Map(m.iter().map(|(k, x)| (k.clone(), if *at == usize::MAX { x.clone() } else { go(r, x, at) })).collect()),
            v => v.clone(),
        }
    }
    fn change(r: &mut Rng, v: &Val) -> Val {
        if r.pct(30) {
            return any_value(r, 1);
        }
        match v {
            Val::Unit => Val::Bool(false),
            Val::Bool(b) => r.pick(&[Val::Bool(!b), Val::Str(b.to_string()), val::num(*b as i64), Val::Unit]).clone(),
            Val::Num(n) => match r.below(4) {
                0 => Val::Str(val::decimal_text(n).unwrap_or_default()),
                1 => Val::Num(-n.clone()),
                2 => Val::Num(n + BigRational::one()),
                _ => Val::Bool(true),
            },
            Val::Str(t) => match r.below(4) {
                0 => Val::Str(format!("{t} x")),
                1 => Val::Str(String::new()),
                2 => val::num(7),
                _ => Val::List(vec![v.clone()]),
            },
            Val::Bytes(b) => match r.below(3) {
                0 => Val::Str(String::from_utf8_lossy(b).into_owned()),
                1 => Val::Bytes(b.iter().rev().copied().collect()),
                _ => Val::List(b.iter().map(|b| val::num(*b as i64)).collect()),
            },
            Val::List(l) => {
                let mut l = l.clone();
                match r.below(4) {
                    0 if !l.is_empty() => {
                        let i = r.below(l.len());
                        l.remove(i);
                    }
                    1 if !l.is_empty() => {
                        let x = r.pick(&l).clone();
                        l.push(x);
                    }
                    2 => l.push(any_value(r, 1)),
                    _ => l.reverse(),
                }
                Val::List(l)
            }
            Val::Map(m) => {
                let mut m = m.clone();
                let keys: Vec<Val> = m.keys().cloned().collect();
                match r.below(3) {
                    0 if !keys.is_empty() => {
                        m.remove(r.pick(&keys));
                    }
                    1 => {
                        m.insert(Val::Str(r.pick(NAMES).to_string()), any_value(r, 1));
                    }
                    _ => {
                        m.insert(Val::Str("unknown key".into()), Val::Unit);
                    }
                }
                Val::Map(m)
            }
        }
    }
    let mut at = r.below(count(v));
    go(r, v, &mut at)
}

/// Renames blank nodes of a dataset, turning some into IRIs.
pub fn rename(r: &mut Rng, d: &Data, subjects: &mut [Term], to_iri: usize) -> Data {
    let mut map: BTreeMap<String, Term> = BTreeMap::new();
    let style = r.below(3);
    let mut f = |t: &Term, r: &mut Rng| match t {
        Term::Blank(b) => {
            let n = map.len();
            map.entry(b.clone())
                .or_insert_with(|| {
                    if r.pct(to_iri) {
                        Term::Iri(format!("https://ex.org/n{n}"))
                    } else {
                        Term::Blank(match style {
                            0 => b.clone(),
                            1 => format!("b{n}"),
                            _ => format!("x_{}", (n * 7919) % 1009 + 1009 * n),
                        })
                    }
                })
                .clone()
        }
        t => t.clone(),
    };
    for t in subjects.iter_mut() {
        *t = f(t, r);
    }
    d.iter().map(|q| (f(&q.0, r), f(&q.1, r), f(&q.2, r), q.3.as_ref().map(|g| f(g, r)))).collect()
}

/// Statements that no pattern mentions, or damage to those some do.
pub fn mutate_data(r: &mut Rng, d: &Data, kinds: &[usize]) -> Data {
    let mut v: Vec<Quad> = d.iter().cloned().collect();
    let n = r.range(1, 2);
    for _ in 0..n {
        let k = *r.pick(kinds);
        if v.is_empty() && k != 3 {
            continue;
        }
        let i = if v.is_empty() { 0 } else { r.below(v.len()) };
        match k {
            0 => {
                v.remove(i);
            }
            1 => {
                // a second object
                let mut q = v[i].clone();
                q.2 = match r.below(3) {
                    0 => r.pick(&v).2.clone(),
                    1 => Term::Lit(text(r), Ok(format!("{XSD}string"))),
                    _ => Term::Iri(an_iri(r)),
                };
                v.push(q);
            }
            2 => {
                // another literal
                let q = &mut v[i];
                if let Term::Lit(t, d) = &mut q.2 {
                    match r.below(5) {
                        0 => *d = Ok(format!("{XSD}{}", r.pick(&["string", "integer", "boolean", "decimal", "date"]))),
                        1 => *d = Err("en".into()),
                        2 => *t = r.pick(&["true", "1", "0", "false", "-5", "+5", "007", "1.50", "", "abc", "1e3", ".5", "5.", " 1", "TRUE", "--1", "1 ", "0aFf", "0G", "TQ==", "+/+/", "AAA="]).to_string(),
                        3 => *t = format!("{t}0"),
                        _ => q.2 = Term::Blank("other".into()),
                    }
                } else {
                    q.2 = r.pick(&[Term::Blank("other".into()), Term::Iri("https://ex.org/other".into()), Term::Lit("5".into(), Ok(format!("{XSD}integer")))]).clone();
                }
            }
            3 => {
                // unrelated
                let sub = if v.is_empty() || r.pct(30) { Term::Iri(an_iri(r)) } else { r.pick(&v).0.clone() };
                let o = match r.below(3) {
                    0 => Term::Lit(text(r), Ok(format!("{XSD}string"))),
                    1 => Term::Blank("noise".into()),
                    _ => Term::Iri(an_iri(r)),
                };
                let g = if r.pct(25) { Some(Term::Iri(format!("https://ex.org/g{}", r.below(4)))) } else { None };
                v.push((sub, Term::Iri(format!("https://ex.org/noise{}", r.below(3))), o, g));
            }
            4 => {
                let g = if r.pct(40) { None } else { Some(Term::Iri(format!("https://ex.org/g{}", r.below(4)))) };
                v[i].3 = g;
            }
            5 => {
                // the same statement in another graph
                let mut q = v[i].clone();
                q.3 = if q.3.is_some() && r.pct(40) { None } else { Some(Term::Iri(format!("https://ex.org/g{}", r.below(4)))) };
                v.push(q);
            }
            6 => {
                // the same predicate elsewhere
                let mut q = v[i].clone();
                q.0 = Term::Blank("elsewhere".into());
                v.push(q);
            }
            7 => {
                let j = r.below(v.len());
                let o = v[j].2.clone();
                v[i].2 = o;
            }
            9 => {
                // two resources are one
                let nodes: Vec<Term> = v.iter().flat_map(|q| [q.0.clone(), q.2.clone()]).filter(|t| !matches!(t, Term::Lit(..))).collect();
                if nodes.is_empty() {
                    continue;
                }
                let (a, b) = (r.pick(&nodes).clone(), r.pick(&nodes).clone());
                for q in &mut v {
                    for t in [&mut q.0, &mut q.2] {
                        if *t == a {
                            *t = b.clone();
                        }
                    }
                }
            }
            _ => {
                // close a cycle
                let o = v[i].0.clone();
                let j = r.below(v.len());
                if !matches!(v[j].2, Term::Lit(..)) {
                    v[j].2 = o;
                }
            }
        }
    }
    v.into_iter().collect()
}

/// Layouts reachable from one.
pub fn reach(l: &Layouts, id: &str) -> BTreeSet<String> {
    let mut seen = BTreeSet::new();
    let mut todo = vec![id.to_string()];
    while let Some(i) = todo.pop() {
        if !seen.insert(i.clone()) {
            continue;
        }
        if let Some(x) = l.get(&i) {
            let parts: Vec<&refm::Part> = match &x.kind {
                Kind::Record(v) | Kind::Sum(v) | Kind::Tuple(v) => v.iter().collect(),
                Kind::List(_, _, p) | Kind::Set(p) => vec![p],
                _ => vec![],
            };
            todo.extend(parts.iter().map(|p| p.value.layout.clone()));
        }
    }
    seen
}

pub fn has_var(p: &Pat) -> bool {
    matches!(p, Pat::Var(_))
}
