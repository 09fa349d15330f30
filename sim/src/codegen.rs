//! Reference model of the code generator: what the item of a layout must say, and what it says.

use crate::case::{Case, Cmd, Exp, Sub};
use crate::gen::{Gen, Opts};
use crate::json::{s, J};
use crate::nq::{Term, RDF};
use crate::refm::{Fmt, Kind, Lay, Layouts, Part, Pat, QPat, R, V};
use crate::rng::Rng;
use std::collections::HashMap;
use std::fmt::Write;

/// A type or field name, as the generator accepts it.
fn ident(t: &str) -> R<String> {
    const KEYWORDS: &[&str] = &[
        "_", "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate", "do", "dyn", "else", "enum", "extern", "false", "final", "fn", "for", "if", "impl", "in",
        "let", "loop", "macro", "match", "mod", "move", "mut", "override", "priv", "pub", "ref", "return", "Self", "self", "static", "struct", "super", "trait", "true", "try", "type", "typeof",
        "unsafe", "unsized", "use", "virtual", "where", "while", "yield",
    ];
    if !t.is_ascii() || t.contains(|c: char| c.is_whitespace() || c.is_control()) || t.contains(['#', '/']) || t == "gen" {
        return Err(V::Unsure);
    }
    let b = t.as_bytes();
    let first = b.first().map(|c| c.is_ascii_alphabetic() || *c == b'_') == Some(true);
    if !first || !b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') || KEYWORDS.contains(&t) {
        return Err(V::No);
    }
    Ok(t.to_string())
}

/// The name of a layout's type, from its identifier.
pub fn type_name(id: &str) -> R<String> {
    if id.starts_with("_:") {
        return Err(V::No);
    }
    let part = match id.split_once('#') {
        Some((_, f)) => f,
        None => {
            let p = id.split('?').next().unwrap();
            let p = p.split_once(':').map(|x| x.1).unwrap_or(p);
            let p = match p.strip_prefix("//") {
                Some(a) => a.find('/').map(|i| &a[i..]).unwrap_or(""),
                None => p,
            };
            let last = p.rsplit('/').next().unwrap();
            if last.is_empty() && !p.is_empty() {
                return Err(V::Unsure);
            }
            last
        }
    };
    if part.contains('%') {
        return Err(V::Unsure);
    }
    let mut up = true;
    let mut t = String::new();
    for c in part.chars() {
        if c == '_' {
            up = true;
        } else if up {
            t.extend(c.to_uppercase());
            up = false;
        } else {
            t.push(c);
        }
    }
    ident(&t)
}

/// The type of a component.
fn type_of(layout: &str) -> R<String> {
    if let Some(n) = layout.strip_prefix(crate::gen::PRE) {
        let t = match n {
            "id" => "Id",
            "unit" => "()",
            "boolean" => "bool",
            "u8" | "u16" | "u32" | "u64" | "i8" | "i16" | "i32" | "i64" => n,
            "string" => "String",
            _ => return type_name(layout),
        };
        return Ok(t.into());
    }
    type_name(layout)
}

fn pat(p: &Pat) -> R<String> {
    match p {
        Pat::Var(i) => Ok(format!("?{i}")),
        Pat::T(Term::Iri(i)) => Ok(format!("<{i}>")),
        Pat::T(_) => Err(V::No),
    }
}

fn quads(d: &[QPat]) -> R<String> {
    let mut v = vec![];
    for q in d {
        let g = q.3.as_ref().map(pat).transpose()?.unwrap_or_default();
        v.push(format!("{} {} {} {g}", pat(&q.0)?, pat(&q.1)?, pat(&q.2)?));
    }
    Ok(set(v))
}

fn set(mut v: Vec<String>) -> String {
    v.sort();
    v.dedup();
    v.join("; ")
}

fn component(name: &str, p: &Part, optional: bool) -> R<String> {
    let Fmt { layout, input, graph } = &p.value;
    let ins = input.iter().map(pat).collect::<R<Vec<_>>>()?.join(" ");
    let g = match graph {
        None => "same".into(),
        Some(None) => "default".into(),
        Some(Some(g)) => pat(g)?,
    };
    let t = type_of(layout)?;
    let t = if optional { format!("Option<{t}>") } else { t };
    Ok(format!("{name}: {t} intro {} data [{}] input [{ins}] graph {g}", p.intro, quads(&p.data)?))
}

pub fn describe(l: &Lay, id: &str) -> R<String> {
    let name = type_name(id)?;
    let mut t = String::new();
    let (kind, rest): (&str, Vec<String>) = match &l.kind {
        Kind::Never => return Ok(format!("{name} is Never")),
        Kind::Always => return Ok(format!("{name} is Always")),
        Kind::Bytes(r, d) => ("bytes", vec![format!("resource {} datatype {d}", pat(r)?)]),
        Kind::Unit(_) => ("unit", vec![]),
        Kind::Bool(r, d) => ("boolean", vec![format!("resource {} datatype {d}", pat(r)?)]),
        Kind::Num(r, d) => ("number", vec![format!("resource {} datatype {d}", pat(r)?)]),
        Kind::Str(r, d) => ("string", vec![format!("resource {} datatype {d}", pat(r)?)]),
        Kind::Id(r) => ("id", vec![format!("resource {}", pat(r)?)]),
        Kind::Record(p) => ("record", p.iter().map(|p| component(&ident(&p.name)?, p, !p.required)).collect::<R<_>>()?),
        Kind::Sum(p) => ("sum", p.iter().map(|p| component(&ident(&p.name)?, p, false)).collect::<R<_>>()?),
        Kind::Set(p) => ("set", vec![component("", p, false)?]),
        Kind::Tuple(p) => ("tuple", p.iter().map(|p| component("", p, false)).collect::<R<_>>()?),
        Kind::List(h, e, p) => ("list", vec![format!("head {} tail {}", pat(h)?, pat(e)?), component("", p, false)?]),
    };
    let mut rest = rest;
    if matches!(kind, "record" | "sum") {
        rest.sort();
    }
    let _ = write!(t, "{name} is {kind} input {} intro {} data [{}]", l.inputs, l.intro, quads(&l.data)?);
    for r in rest {
        let _ = write!(t, "\n{r}");
    }
    Ok(t)
}

/// Parts that the generator's JSON reader takes in a way of its own: numbers, and entries
/// explicitly without a value.
pub fn odd(j: &J) -> bool {
    match j {
        J::Null => true,
        J::Num(n) => n.len() > 15 || n.contains(['e', 'E']),
        J::Arr(a) => a.iter().any(odd),
        J::Obj(o) => o.iter().any(|e| odd(&e.1)),
        _ => false,
    }
}

pub fn expect(cmd: &Cmd, l: &Layouts, id: &str) -> Result<Exp, V> {
    if !cmd.includes.is_empty() {
        return Err(V::No);
    }
    match l.get(id) {
        None => Err(V::No),
        Some(l) => Ok(Exp::Item(describe(l, id)?)),
    }
}

// ---- reading the item ----

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    Str(String),
    Num(String),
    P(char),
    /// A group: its opening delimiter and content.
    G(char, Vec<Tok>),
}

fn tokens(b: &[char], at: &mut usize, close: Option<char>) -> Option<Vec<Tok>> {
    let mut v = vec![];
    loop {
        let Some(&c) = b.get(*at) else { return if close.is_none() { Some(v) } else { None } };
        *at += 1;
        match c {
            _ if c.is_whitespace() => (),
            '/' if b.get(*at) == Some(&'/') => {
                while *at < b.len() && b[*at] != '\n' {
                    *at += 1
                }
            }
            '(' => v.push(Tok::G('(', tokens(b, at, Some(')'))?)),
            '[' => v.push(Tok::G('[', tokens(b, at, Some(']'))?)),
            '{' => v.push(Tok::G('{', tokens(b, at, Some('}'))?)),
            ')' | ']' | '}' => return if close == Some(c) { Some(v) } else { None },
            '"' => {
                let mut t = String::new();
                loop {
                    let c = *b.get(*at)?;
                    *at += 1;
                    match c {
                        '"' => break,
                        '\\' => {
                            let e = *b.get(*at)?;
                            *at += 1;
                            t.push(match e {
                                'n' => '\n',
                                't' => '\t',
                                'r' => '\r',
                                '0' => '\0',
                                'x' => {
                                    let h: String = b.get(*at..*at + 2)?.iter().collect();
                                    *at += 2;
                                    char::from_u32(u32::from_str_radix(&h, 16).ok()?)?
                                }
                                'u' => {
                                    let end = *at + b[*at..].iter().position(|c| *c == '}')?;
                                    let h: String = b.get(*at + 1..end)?.iter().collect();
                                    *at = end + 1;
                                    char::from_u32(u32::from_str_radix(&h, 16).ok()?)?
                                }
                                c => c,
                            });
                        }
                        c => t.push(c),
                    }
                }
                v.push(Tok::Str(t));
            }
            'r' if b.get(*at) == Some(&'"') => {
                let end = *at + 1 + b[*at + 1..].iter().position(|c| *c == '"')?;
                v.push(Tok::Str(b[*at + 1..end].iter().collect()));
                *at = end + 1;
            }
            'r' if b.get(*at) == Some(&'#') && b.get(*at + 1) == Some(&'"') => {
                let mut end = *at + 2;
                while !(*b.get(end)? == '"' && b.get(end + 1) == Some(&'#')) {
                    end += 1;
                }
                v.push(Tok::Str(b[*at + 2..end].iter().collect()));
                *at = end + 2;
            }
            _ if c.is_alphabetic() || c == '_' => {
                let mut t = String::from(c);
                while *at < b.len() && (b[*at].is_alphanumeric() || b[*at] == '_') {
                    t.push(b[*at]);
                    *at += 1;
                }
                v.push(if t == "_" { Tok::P('_') } else { Tok::Id(t) });
            }
            _ if c.is_ascii_digit() => {
                let mut t = String::from(c);
                while *at < b.len() && b[*at].is_alphanumeric() {
                    t.push(b[*at]);
                    *at += 1;
                }
                v.push(Tok::Num(t));
            }
            _ => v.push(Tok::P(c)),
        }
    }
}

/// Cuts at the commas that are outside of `<` and `>`.
fn commas(t: &[Tok]) -> Vec<Vec<Tok>> {
    let mut v = vec![vec![]];
    let mut deep = 0;
    for x in t {
        match x {
            Tok::P('<') => deep += 1,
            Tok::P('>') => deep -= 1,
            Tok::P(',') if deep == 0 => {
                v.push(vec![]);
                continue;
            }
            _ => (),
        }
        v.last_mut().unwrap().push(x.clone());
    }
    if v.last().map(Vec::is_empty) == Some(true) {
        v.pop();
    }
    v
}

type Attrs = HashMap<String, Vec<Tok>>;

/// The attributes before an item, field or variant: what it derives, and `tldr` entries.
fn attributes(t: &[Tok]) -> Option<(Vec<String>, Attrs, &[Tok])> {
    let mut t = t;
    let mut derives = vec![];
    let mut a = Attrs::new();
    while let [Tok::P('#'), Tok::G('[', g), rest @ ..] = t {
        t = rest;
        match g.as_slice() {
            [Tok::Id(n), Tok::G('(', e)] if n == "derive" => {
                for d in commas(e) {
                    if let Some(Tok::Id(n)) = d.last() {
                        derives.push(n.clone());
                    }
                }
            }
            [Tok::Id(n), Tok::G('(', e)] if n == "tldr" => {
                for x in commas(e) {
                    match x.as_slice() {
                        [Tok::Id(k)] => a.insert(k.clone(), vec![]),
                        [Tok::Id(k), Tok::G('(', v)] => a.insert(k.clone(), v.clone()),
                        _ => return None,
                    };
                }
            }
            // Documentation and the like.
            _ => (),
        }
    }
    if let [Tok::Id(p), rest @ ..] = t {
        if p == "pub" {
            t = rest;
            if let [Tok::G('(', _), rest @ ..] = t {
                t = rest;
            }
        }
    }
    Some((derives, a, t))
}

fn strings(t: &[Tok]) -> Option<Vec<String>> {
    commas(t)
        .into_iter()
        .map(|x| match x.as_slice() {
            [Tok::Str(t)] => Some(t.clone()),
            _ => None,
        })
        .collect()
}

#[derive(Clone, Default)]
struct Names {
    at: HashMap<String, usize>,
    n: usize,
}

impl Names {
    fn with(&self, v: &[String]) -> Names {
        let mut x = self.clone();
        for n in v {
            x.at.insert(n.clone(), x.n);
            x.n += 1;
        }
        x
    }
    fn pattern(&self, t: &str) -> Option<String> {
        match t.strip_prefix("_:") {
            Some(v) => Some(format!("?{}", self.at.get(v)?)),
            None => Some(format!("<{t}>")),
        }
    }
    fn quads(&self, t: Option<&Vec<Tok>>) -> Option<String> {
        let Some(t) = t else { return Some(String::new()) };
        let mut v = vec![];
        for q in commas(t) {
            let [Tok::G('(', q)] = q.as_slice() else { return None };
            let q: Vec<String> = strings(q)?.iter().map(|x| self.pattern(x)).collect::<Option<_>>()?;
            match q.as_slice() {
                [a, b, c] => v.push(format!("{a} {b} {c} ")),
                [a, b, c, d] => v.push(format!("{a} {b} {c} {d}")),
                _ => return None,
            }
        }
        Some(set(v))
    }
    fn one(&self, a: &Attrs, key: &str, default: &str) -> Option<String> {
        match a.get(key) {
            None => self.pattern(default),
            Some(t) => match strings(t)?.as_slice() {
                [x] => self.pattern(x),
                _ => None,
            },
        }
    }
}

fn names(a: &Attrs, key: &str, default: &[&str]) -> Option<Vec<String>> {
    match a.get(key) {
        None => Some(default.iter().map(|x| x.to_string()).collect()),
        Some(t) => strings(t),
    }
}

/// A type, without the path to it.
fn ty(t: &[Tok]) -> Option<String> {
    match t {
        [Tok::G('(', g)] if g.is_empty() => return Some("()".into()),
        _ => (),
    }
    let open = t.iter().position(|x| *x == Tok::P('<'));
    let path = &t[..open.unwrap_or(t.len())];
    let Some(Tok::Id(last)) = path.last() else { return None };
    if !path.iter().all(|x| matches!(x, Tok::Id(_) | Tok::P(':'))) {
        return None;
    }
    match open {
        None => Some(last.clone()),
        Some(i) => {
            let inner = t[i + 1..].strip_suffix(&[Tok::P('>')])?;
            let args: Vec<String> = commas(inner).iter().map(|x| ty(x)).collect::<Option<_>>()?;
            Some(format!("{last}<{}>", args.join(", ")))
        }
    }
}

fn read_component(name: &str, t: String, a: &Attrs, sc: &Names, intro: &[&str], input: &str) -> Option<String> {
    let intro = names(a, "intro", intro)?;
    let sc = sc.with(&intro);
    let ins = match a.get("input") {
        None => vec![sc.pattern(input)?],
        Some(v) => strings(v)?.iter().map(|x| sc.pattern(x)).collect::<Option<_>>()?,
    };
    let g = match a.get("graph").map(|v| v.as_slice()) {
        None | Some([Tok::P('_')]) => "same".into(),
        Some([Tok::Id(n)]) if n == "None" => "default".into(),
        Some([Tok::Id(n), Tok::G('(', v)]) if n == "Some" => match v.as_slice() {
            [Tok::Str(g)] => sc.pattern(g)?,
            _ => return None,
        },
        _ => return None,
    };
    Some(format!("{name}: {t} intro {} data [{}] input [{}] graph {g}", intro.len(), sc.quads(a.get("dataset"))?, ins.join(" ")))
}

fn read(out: &str) -> Option<String> {
    let b: Vec<char> = out.chars().collect();
    let t = tokens(&b, &mut 0, None)?;
    let (derives, a, t) = attributes(&t)?;
    // type X = path;
    if let [Tok::Id(k), Tok::Id(name), Tok::P('='), path @ .., Tok::P(';')] = t {
        return if k == "type" { Some(format!("{name} is {}", ty(path)?)) } else { None };
    }
    for d in ["SerializeLd", "DeserializeLd"] {
        if !derives.iter().any(|x| x == d) {
            return None;
        }
    }
    let inputs = names(&a, "input", &["self"])?;
    let intro = names(&a, "intro", &[])?;
    let sc = Names::default().with(&inputs).with(&intro);
    let has = |k: &str| a.contains_key(k);
    let (name, kind, rest) = match t {
        [Tok::Id(k), Tok::Id(name), Tok::G('{', body)] if k == "struct" => {
            let mut v = vec![];
            for f in commas(body) {
                let (_, a, t) = attributes(&f)?;
                let [Tok::Id(n), Tok::P(':'), t @ ..] = t else { return None };
                v.push(read_component(n, ty(t)?, &a, &sc, &["value"], "_:value")?);
            }
            v.sort();
            (name, "record", v)
        }
        [Tok::Id(k), Tok::Id(name), Tok::G('{', body)] if k == "enum" => {
            let mut v = vec![];
            for f in commas(body) {
                let (_, a, t) = attributes(&f)?;
                let [Tok::Id(n), Tok::G('(', t)] = t else { return None };
                v.push(read_component(n, ty(t)?, &a, &sc, &[], "_:self")?);
            }
            v.sort();
            (name, "sum", v)
        }
        [Tok::Id(k), Tok::Id(name), Tok::P(';')] if k == "struct" => (name, "unit", vec![]),
        [Tok::Id(k), Tok::Id(name), Tok::G('(', body), Tok::P(';')] if k == "struct" => {
            let fs = commas(body);
            let fs: Vec<(Attrs, String)> = fs.iter().map(|f| attributes(f).and_then(|(_, a, t)| Some((a, ty(t)?)))).collect::<Option<_>>()?;
            let element = |t: &str| t.strip_suffix('>').and_then(|t| t.split_once('<')).map(|x| x.1.to_string());
            if has("tuple") {
                let mut v = vec![];
                for (a, t) in fs {
                    v.push(read_component("", t, &a, &sc, &["value"], "_:value")?);
                }
                (name, "tuple", v)
            } else {
                let [(f, t)] = fs.as_slice() else { return None };
                if has("set") {
                    (name, "set", vec![read_component("", element(t)?, f, &sc, &["value"], "_:value")?])
                } else if has("list") {
                    let ends = format!("head {} tail {}", sc.one(&a, "head", "_:self")?, sc.one(&a, "tail", &format!("{RDF}nil"))?);
                    let h = names(f, "head", &["head"])?;
                    let r = names(f, "rest", &["rest"])?;
                    if h.len() != 1 || r.len() != 1 {
                        return None;
                    }
                    let inner = sc.with(&h).with(&r);
                    (name, "list", vec![ends, read_component("", element(t)?, f, &inner, &["value"], "_:value")?])
                } else {
                    let resource = format!("resource {}", sc.one(&a, "resource", "_:self")?);
                    let datatype = || match strings(a.get("datatype")?)?.as_slice() {
                        [d] => Some(format!("{resource} datatype {d}")),
                        _ => None,
                    };
                    if has("id") {
                        (name, "id", vec![resource.clone()])
                    } else if has("boolean") && t == "bool" {
                        (name, "boolean", vec![datatype()?])
                    } else if has("number") {
                        (name, "number", vec![datatype()?])
                    } else if has("bytes") && t.split_whitespace().collect::<String>() == "Vec<u8>" {
                        (name, "bytes", vec![datatype()?])
                    } else if has("string") && t == "String" {
                        (name, "string", vec![datatype()?])
                    } else {
                        return None;
                    }
                }
            }
        }
        _ => return None,
    };
    let mut d = format!("{name} is {kind} input {} intro {} data [{}]", inputs.len(), intro.len(), sc.quads(a.get("dataset"))?);
    for r in rest {
        d += "\n";
        d += &r;
    }
    Some(d)
}

pub fn compare(want: &str, out: &[u8]) -> Option<(String, String)> {
    let text = String::from_utf8_lossy(out);
    match read(&text) {
        Some(got) if got == want => None,
        Some(got) => Some(("wrong-output".into(), format!("the layout is\n{want}\nbut the item says\n{got}"))),
        None => Some(("wrong-output".into(), format!("not the item of a layout: {text}"))),
    }
}

// ---- workload ----

/// Layout files given to the generator.
pub fn case(r: &mut Rng, kind: &str) -> Case {
    let mut o = Opts::random(r);
    o.code = true;
    o.width = 2;
    o.graphs |= r.pct(30);
    let mut g = Gen::new(r, o);
    let depth = *g.r.pick(&[0, 1, 1, 2, 2, 3]);
    let id = if g.r.pct(3) { None } else { Some(g.new_id()) };
    let (root, _) = g.layout(depth, id.clone());
    let ids: Vec<String> = g.defined.iter().map(|d| d.0.clone()).collect();
    let mut js = vec![root];
    js.append(&mut g.files);
    let mut c = Case::new(kind, Cmd::new(Sub::None));
    c.cmd.mains = (0..js.len()).collect();
    if r.pct(40) {
        r.shuffle(&mut c.cmd.mains);
    }
    let mut layout = if js.len() > 1 || r.pct(30) { id.clone() } else { None };
    if !ids.is_empty() && r.pct(35) {
        layout = Some(r.pick(&ids).clone());
    }
    match r.below(40) {
        0 => layout = Some("https://ex.org/nothing".into()),
        1 => layout = Some(format!("{}{}", crate::gen::PRE, r.pick(&["string", "u8", "nothing"]))),
        2 => layout = None,
        3 => layout = Some("not an iri".into()),
        4 => c.cmd.mains.push(99),
        5 => {
            let i = *r.pick(&c.cmd.mains);
            c.cmd.mains.push(i)
        }
        6 => {
            c.cmd.mains.pop();
        }
        7 => js.push(J::Bool(r.pct(50))),
        8 => {
            js[0] = match r.below(4) {
                0 => J::Arr(vec![]),
                1 => s("https://ex.org/A"),
                2 => J::Null,
                _ => J::Bool(true),
            }
        }
        _ => (),
    }
    if js.len() > c.cmd.mains.len() && r.pct(70) {
        c.cmd.mains = (0..js.len()).collect();
    }
    c.files = js.iter().enumerate().map(|(i, j)| (format!("sim_{i}.json"), crate::work::print(r, j))).collect();
    c.cmd.sub = Sub::Gen { layout };
    if r.pct(8) {
        crate::work::mistake(r, &mut c);
    }
    c
}
