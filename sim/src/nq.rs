//! RDF datasets: N-Quads reader and writer, comparison up to blank node naming.

use crate::json::{utf8_verdict, Bad};
use crate::rng::{mix, Rng};
use std::collections::{BTreeMap, BTreeSet};

pub const XSD: &str = "http://www.w3.org/2001/XMLSchema#";
pub const RDF: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#";

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Term {
    Iri(String),
    Blank(String),
    Lit(String, Result<String, String>), // value, Ok(datatype) or Err(language)
}

pub fn iri(s: &str) -> Term {
    Term::Iri(s.into())
}

pub type Quad = (Term, Term, Term, Option<Term>);
pub type Data = BTreeSet<Quad>;

struct P<'a> {
    c: &'a [u8],
    i: usize,
    unsure: bool,
}

/// Reads N-Quads (generalized: any term anywhere). `Bad::No` only where refusal is certain.
pub fn parse(b: &[u8]) -> Result<Data, Bad> {
    parse_seq(b).map(|q| q.into_iter().collect())
}

/// As `parse`, in the order of the input.
pub fn parse_seq(b: &[u8]) -> Result<Vec<Quad>, Bad> {
    if std::str::from_utf8(b).is_err() {
        return Err(utf8_verdict(b));
    }
    let mut p = P { c: b, i: 0, unsure: false };
    let mut out = vec![];
    loop {
        p.skip();
        if p.i >= b.len() {
            break;
        }
        match p.quad() {
            Ok(q) => {
                out.push(q);
            }
            Err(()) => return Err(if p.unsure { Bad::Unsure } else { Bad::No }),
        }
        // A statement ends its line.
        let mut k = p.i;
        while let Some(b' ' | b'\t') = b.get(k) {
            k += 1
        }
        match b.get(k) {
            None | Some(b'\n' | b'\r' | b'#') => (),
            _ => p.unsure = true,
        }
    }
    if p.unsure {
        Err(Bad::Unsure)
    } else {
        Ok(out)
    }
}

impl P<'_> {
    fn skip(&mut self) {
        loop {
            match self.c.get(self.i) {
                Some(b' ' | b'\t' | b'\n' | b'\r') => self.i += 1,
                Some(b'#') => {
                    while !matches!(self.c.get(self.i), None | Some(b'\n')) {
                        self.i += 1
                    }
                }
                Some(_) => {
                    // Other white space is not of the grammar, and read as blanks all the same.
                    let end = self.c.len().min(self.i + 4);
                    let odd = (self.i + 1..=end).find_map(|e| std::str::from_utf8(&self.c[self.i..e]).ok()).and_then(|t| t.chars().next());
                    match odd {
                        Some(c) if c.is_whitespace() => {
                            self.unsure = true;
                            self.i += c.len_utf8()
                        }
                        _ => break,
                    }
                }
                None => break,
            }
        }
    }
    /// White space between the terms of a statement; a line break inside one is left open.
    fn ws(&mut self) {
        let st = self.i;
        self.skip();
        if self.c[st..self.i].iter().any(|b| !matches!(b, b' ' | b'\t')) {
            self.unsure = true
        }
    }
    fn quad(&mut self) -> Result<Quad, ()> {
        let s = self.term()?;
        self.ws();
        let p = self.term()?;
        self.ws();
        let o = self.term()?;
        self.ws();
        let g = if self.c.get(self.i) == Some(&b'.') {
            None
        } else {
            let g = self.term()?;
            self.ws();
            Some(g)
        };
        if self.c.get(self.i) != Some(&b'.') {
            return Err(());
        }
        self.i += 1;
        Ok((s, p, o, g))
    }
    fn esc(&mut self) -> Result<char, ()> {
        // after the backslash
        let e = *self.c.get(self.i).ok_or(())?;
        self.i += 1;
        Ok(match e {
            b't' => '\t',
            b'b' => '\u{8}',
            b'n' => '\n',
            b'r' => '\r',
            b'f' => '\u{c}',
            b'"' => '"',
            b'\'' => '\'',
            b'\\' => '\\',
            b'u' | b'U' => {
                let n = if e == b'u' { 4 } else { 8 };
                let h = self.c.get(self.i..self.i + n).ok_or(())?;
                if !h.iter().all(|c| c.is_ascii_hexdigit()) {
                    return Err(());
                }
                self.i += n;
                let v = u32::from_str_radix(std::str::from_utf8(h).unwrap(), 16).map_err(|_| ())?;
                match char::from_u32(v) {
                    Some(c) => c,
                    None => {
                        self.unsure = true;
                        return Err(());
                    }
                }
            }
            _ => {
                self.unsure = true;
                return Err(());
            }
        })
    }
    fn ch(&mut self) -> Result<char, ()> {
        let rest = &self.c[self.i..];
        let c = match rest.first() {
            None => return Err(()),
            Some(b) if *b < 0x80 => *b as char,
            Some(b) => {
                let n = if *b >= 0xf0 { 4 } else if *b >= 0xe0 { 3 } else { 2 };
                let s = std::str::from_utf8(rest.get(..n).ok_or(())?).map_err(|_| ())?;
                s.chars().next().ok_or(())?
            }
        };
        self.i += c.len_utf8();
        Ok(c)
    }
    fn iri(&mut self) -> Result<String, ()> {
        self.i += 1;
        let mut s = String::new();
        loop {
            match self.ch()? {
                '>' => break,
                '\\' => s.push(self.esc()?),
                c => s.push(c),
            }
        }
        match is_iri(&s) {
            Some(true) => (),
            Some(false) => return Err(()),
            None => self.unsure = true,
        }
        Ok(s)
    }
    fn term(&mut self) -> Result<Term, ()> {
        match self.c.get(self.i).ok_or(())? {
            b'<' => self.iri().map(Term::Iri),
            b'_' => {
                if self.c.get(self.i + 1) != Some(&b':') {
                    return Err(());
                }
                self.i += 2;
                let st = self.i;
                while let Some(c) = self.c.get(self.i) {
                    if c.is_ascii_alphanumeric() || matches!(c, b'_' | b'-') {
                        self.i += 1
                    } else {
                        if *c >= 0x80 || *c == b':' {
                            self.unsure = true;
                        }
                        if *c == b'.' {
                            self.unsure = true;
                        }
                        break;
                    }
                }
                if st == self.i {
                    return Err(());
                }
                if self.c[st] == b'-' {
                    self.unsure = true
                }
                Ok(Term::Blank(String::from_utf8(self.c[st..self.i].to_vec()).unwrap()))
            }
            b'"' => {
                self.i += 1;
                let mut s = String::new();
                loop {
                    match self.ch()? {
                        '"' => break,
                        '\\' => s.push(self.esc()?),
                        c => {
                            if matches!(c, '\n' | '\r') {
                                self.unsure = true
                            }
                            s.push(c)
                        }
                    }
                }
                // Whether the parts of a literal may be set apart is not said clearly.
                let mut at = self.i;
                while self.c.get(at).is_some_and(|c| c.is_ascii_whitespace()) {
                    at += 1;
                }
                if at > self.i && matches!(self.c.get(at), Some(b'^' | b'@' | b'#')) {
                    self.unsure = true;
                    if self.c.get(at) != Some(&b'#') {
                        self.i = at;
                    }
                }
                match self.c.get(self.i) {
                    Some(b'^') => {
                        if self.c.get(self.i + 1) != Some(&b'^') {
                            return Err(());
                        }
                        self.i += 2;
                        while self.c.get(self.i).is_some_and(|c| c.is_ascii_whitespace()) {
                            self.unsure = true;
                            self.i += 1;
                        }
                        if self.c.get(self.i) != Some(&b'<') {
                            self.unsure |= self.c.get(self.i) == Some(&b'#');
                            return Err(());
                        }
                        Ok(Term::Lit(s, Ok(self.iri()?)))
                    }
                    Some(b'@') => {
                        self.i += 1;
                        let st = self.i;
                        while let Some(c) = self.c.get(self.i) {
                            if c.is_ascii_alphanumeric() || *c == b'-' {
                                self.i += 1
                            } else {
                                break;
                            }
                        }
                        let t = String::from_utf8(self.c[st..self.i].to_vec()).unwrap();
                        if t.is_empty() {
                            return Err(());
                        }
                        if !simple_tag(&t) || !matches!(self.c.get(self.i), Some(b' ' | b'\t')) {
                            self.unsure = true
                        }
                        Ok(Term::Lit(s, Err(t)))
                    }
                    _ => Ok(Term::Lit(s, Ok(format!("{XSD}string")))),
                }
            }
            _ => Err(()),
        }
    }
}

pub fn simple_tag(t: &str) -> bool {
    ["en", "fr", "de", "en-GB", "fr-CA", "pt-BR"].contains(&t)
}

/// Whether a text is an absolute IRI; `None` when unsure.
pub fn is_iri(s: &str) -> Option<bool> {
    let scheme_end = match s.find(':') {
        Some(i) => i,
        None => return Some(false),
    };
    let (scheme, rest) = (&s[..scheme_end], &s[scheme_end + 1..]);
    if scheme.is_empty()
        || !scheme.as_bytes()[0].is_ascii_alphabetic()
        || !scheme.bytes().all(|c| c.is_ascii_alphanumeric() || matches!(c, b'+' | b'-' | b'.'))
    {
        return Some(false);
    }
    iri_tail(rest)
}

/// What may follow the scheme, or stand as a relative reference.
fn iri_tail(rest: &str) -> Option<bool> {
    if rest.chars().any(|c| (c as u32) <= 0x20 || "<>\"{}|\\^`".contains(c) || c as u32 == 0x7f) {
        return Some(false);
    }
    if rest.matches('#').count() > 1 {
        return Some(false);
    }
    let simple = |c: char| c.is_ascii_alphanumeric() || "-._~/#:?=&+,;@!$'()*".contains(c) || matches!(c, 'é' | 'ü' | '本' | 'Ω');
    if !rest.chars().all(simple) {
        return None;
    }
    if let Some(a) = rest.strip_prefix("//") {
        let auth = a.split(['/', '?', '#']).next().unwrap();
        if !auth.chars().all(|c| c.is_ascii_alphanumeric() || c == '.' || c == '-') {
            return None;
        }
    }
    Some(true)
}

/// Resolves a compact IRI against prefixes and base. `Err(true)`: refused, `Err(false)`: unsure.
pub fn resolve(s: &str, prefixes: &BTreeMap<String, String>, base: Option<&str>) -> Result<String, bool> {
    match is_iri(s) {
        Some(true) => {
            let (scheme, rest) = s.split_once(':').unwrap();
            match prefixes.get(scheme) {
                Some(p) => {
                    let r = format!("{p}{rest}");
                    match is_iri(&r) {
                        Some(true) => Ok(r),
                        Some(false) => Err(true),
                        None => Err(false),
                    }
                }
                None => Ok(s.to_string()),
            }
        }
        None => Err(false),
        Some(false) => {
            match iri_tail(s) {
                Some(true) => (),
                Some(false) => return Err(true),
                None => return Err(false),
            }
            if s.split(['/', '?', '#']).next().unwrap().contains(':') {
                return Err(false);
            }
            let base = base.ok_or(true)?;
            let nofrag = base.split('#').next().unwrap();
            if let Some(f) = s.strip_prefix('#') {
                return Ok(format!("{nofrag}#{f}"));
            }
            if s.is_empty() || s.starts_with('/') || s.contains('?') || s.split(['/', '#']).any(|x| x == "." || x == "..") || base.contains('?') {
                return Err(false);
            }
            let (_, rest) = nofrag.split_once("://").ok_or(false)?;
            let dir = match rest.rfind('/') {
                Some(k) => &nofrag[..nofrag.len() - rest.len() + k + 1],
                None => return Err(false),
            };
            Ok(format!("{dir}{s}"))
        }
    }
}

fn esc(s: &str, rng: &mut Option<&mut Rng>, out: &mut String) {
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => out.push_str(&format!("\\u{:04X}", c as u32)),
            c => {
                if let Some(r) = rng {
                    if r.below(50) == 0 {
                        if (c as u32) < 0x10000 && r.pct(50) {
                            out.push_str(&format!("\\u{:04X}", c as u32))
                        } else {
                            out.push_str(&format!("\\U{:08X}", c as u32))
                        }
                        continue;
                    }
                }
                out.push(c)
            }
        }
    }
}

pub fn term_text(t: &Term, rng: &mut Option<&mut Rng>) -> String {
    match t {
        Term::Iri(i) => format!("<{i}>"),
        Term::Blank(b) => format!("_:{b}"),
        Term::Lit(v, t) => {
            let mut o = String::from("\"");
            esc(v, rng, &mut o);
            o.push('"');
            match t {
                Ok(d) => {
                    let plain = *d == format!("{XSD}string")
                        && match rng {
                            Some(r) => r.pct(70),
                            None => true,
                        };
                    if !plain {
                        o.push_str(&format!("^^<{d}>"))
                    }
                }
                Err(l) => o.push_str(&format!("@{l}")),
            }
            o
        }
    }
}

pub fn line(q: &Quad, rng: &mut Option<&mut Rng>) -> String {
    let mut o = String::new();
    for t in [Some(&q.0), Some(&q.1), Some(&q.2), q.3.as_ref()].into_iter().flatten() {
        o.push_str(&term_text(t, rng));
        o.push(' ');
        if let Some(r) = rng {
            if r.below(15) == 0 {
                o.push('\t')
            }
        }
    }
    o.push_str(".\n");
    o
}

pub fn text(d: &Data) -> String {
    d.iter().map(|q| line(q, &mut None)).collect()
}

/// N-Quads text in random order with random escapes, comments, blank lines and repetitions.
pub fn noisy_text(d: &Data, rng: &mut Rng) -> String {
    let mut qs: Vec<_> = d.iter().collect();
    rng.shuffle(&mut qs);
    let mut o = String::new();
    for q in &qs {
        match rng.below(24) {
            0 => o.push('\n'),
            1 => o.push_str("# a comment <with> \"marks\" .\n"),
            2 => {
                let q = *rng.pick(&qs);
                o.push_str(&line(q, &mut Some(rng)))
            }
            _ => (),
        }
        let mut l = line(q, &mut Some(rng));
        if rng.below(20) == 0 {
            l.pop();
            l.push_str(" # end\n")
        }
        o.push_str(&l);
    }
    if rng.below(10) == 0 {
        o.pop(); // no line break at the end
    }
    o
}

pub fn is_decimal_type(t: &str) -> bool {
    match t.strip_prefix(XSD) {
        Some(n) => [
            "decimal", "integer", "nonPositiveInteger", "negativeInteger", "long", "int", "short", "byte",
            "nonNegativeInteger", "unsignedLong", "unsignedInt", "unsignedShort", "unsignedByte", "positiveInteger",
        ]
        .contains(&n),
        None => false,
    }
}

/// Numbers are compared by value.
fn canon(t: &Term) -> Term {
    if let Term::Lit(v, Ok(d)) = t {
        if is_decimal_type(d) {
            if let Some(n) = crate::val::decimal(v) {
                if let Some(x) = crate::val::decimal_text(&n) {
                    return Term::Lit(x, Ok(d.clone()));
                }
            }
        }
    }
    t.clone()
}

pub fn canonical(d: &Data) -> Data {
    d.iter().map(|(s, p, o, g)| (canon(s), canon(p), canon(o), g.as_ref().map(canon))).collect()
}

/// Equality of datasets up to a one-to-one renaming of the blank nodes not in `fixed`.
pub fn isomorphic(a: &Data, b: &Data, fixed: &dyn Fn(&str) -> bool) -> bool {
    if a.len() != b.len() {
        return false;
    }
    if a == b {
        return true;
    }
    // Renamable blank nodes are numbered per dataset, other terms together.
    let mut terms: BTreeMap<Term, u64> = BTreeMap::new();
    let mut number = |d: &Data| -> (Vec<[i64; 4]>, usize) {
        let mut blanks: BTreeMap<String, i64> = BTreeMap::new();
        let mut f = |t: &Term| -> i64 {
            if let Term::Blank(x) = t {
                if !fixed(x) {
                    let n = blanks.len() as i64;
                    return *blanks.entry(x.clone()).or_insert(n);
                }
            }
            let n = terms.len() as u64;
            -2 - *terms.entry(t.clone()).or_insert(n) as i64
        };
        let q: Vec<[i64; 4]> = d.iter().map(|(s, p, o, g)| [f(s), f(p), f(o), g.as_ref().map(&mut f).unwrap_or(-1)]).collect();
        (q, blanks.len())
    };
    let ((qa, na), (qb, nb)) = (number(a), number(b));
    if na != nb {
        return false;
    }
    // When the search gives up, the answer is not known: say equal rather than raise an alarm.
    let mut work = 40_000_000i64;
    let r = search(&qa, &qb, vec![1; na], vec![1; nb], &mut work);
    r || work <= 0
}

fn classes(c: &[u64]) -> usize {
    let mut v = c.to_vec();
    v.sort_unstable();
    v.dedup();
    v.len()
}

fn refine(d: &[[i64; 4]], mut c: Vec<u64>, work: &mut i64) -> Vec<u64> {
    let mut k = classes(&c);
    while k < c.len() {
        *work -= d.len() as i64 + 1;
        // The sum of the hashes of the statements around a node does not depend on their order.
        let mut acc = vec![0u64; c.len()];
        for q in d {
            let col = |t: i64| if t >= 0 { c[t as usize] } else { mix(t as u64) };
            let mut all = 5;
            for (j, t) in q.iter().enumerate() {
                all = mix(all ^ col(*t).wrapping_mul(2 * j as u64 + 3));
            }
            for (i, t) in q.iter().enumerate() {
                if *t >= 0 {
                    acc[*t as usize] = acc[*t as usize].wrapping_add(mix(all ^ (i as u64 + 11)));
                }
            }
        }
        let n: Vec<u64> = c.iter().zip(&acc).map(|(x, y)| mix(x ^ mix(*y))).collect();
        let m = classes(&n);
        c = n;
        if m == k || *work <= 0 {
            return c;
        }
        k = m;
    }
    c
}

fn search(a: &[[i64; 4]], b: &[[i64; 4]], ca: Vec<u64>, cb: Vec<u64>, work: &mut i64) -> bool {
    if *work <= 0 {
        return false;
    }
    *work -= 10;
    let (ca, cb) = (refine(a, ca, work), refine(b, cb, work));
    let group = |c: &[u64]| {
        let mut g: BTreeMap<u64, Vec<usize>> = BTreeMap::new();
        for (x, k) in c.iter().enumerate() {
            g.entry(*k).or_default().push(x);
        }
        g
    };
    let (ga, gb) = (group(&ca), group(&cb));
    if ga.len() != gb.len() || ga.iter().any(|(k, v)| gb.get(k).map(|w| w.len()) != Some(v.len())) {
        return false;
    }
    match ga.iter().find(|(_, v)| v.len() > 1) {
        None => {
            let mut m = vec![0i64; ca.len()];
            for (k, v) in &ga {
                m[v[0]] = gb[k][0] as i64;
            }
            let mut x: Vec<[i64; 4]> = a.iter().map(|q| q.map(|t| if t >= 0 { m[t as usize] } else { t })).collect();
            let mut y = b.to_vec();
            x.sort_unstable();
            y.sort_unstable();
            x == y
        }
        Some((k, v)) => {
            let mut ca2 = ca.clone();
            ca2[v[0]] = mix(*k ^ 0xabc);
            for w in &gb[k] {
                let mut cb2 = cb.clone();
                cb2[*w] = mix(*k ^ 0xabc);
                if search(a, b, ca2.clone(), cb2, work) {
                    return true;
                }
            }
            false
        }
    }
}
