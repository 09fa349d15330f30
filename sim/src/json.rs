//! JSON: a strict parser that keeps entry order, duplicates and number text.

use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

/// Why a text is not JSON, and whether that is certain.
#[derive(Debug, Clone, PartialEq)]
pub enum Bad {
    /// Not JSON by any reading of RFC 8259.
    No,
    /// A reader may or may not take it (lone surrogates, raw control characters, ...).
    Unsure,
}

pub fn s(x: &str) -> J {
    J::Str(x.to_string())
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(o) => o.iter().find(|e| e.0 == k).map(|e| &e.1),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn int(&self) -> Option<i64> {
        match self {
            J::Num(n) => n.parse().ok(),
            _ => None,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            _ => &[],
        }
    }
    pub fn size(&self) -> usize {
        match self {
            J::Arr(a) => 1 + a.iter().map(J::size).sum::<usize>(),
            J::Obj(o) => 1 + o.iter().map(|e| 1 + e.1.size()).sum::<usize>(),
            _ => 1,
        }
    }
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
    unsure: bool,
    depth: usize,
}

/// Parses a whole JSON text.
pub fn parse(bytes: &[u8]) -> Result<J, Bad> {
    if std::str::from_utf8(bytes).is_err() {
        return Err(utf8_verdict(bytes));
    }
    let mut p = P { b: bytes, i: 0, unsure: false, depth: 0 };
    if bytes.starts_with(b"\xef\xbb\xbf") {
        return Err(Bad::Unsure);
    }
    p.ws();
    let r = p.value();
    let v = match r {
        Ok(v) => v,
        Err(()) => return Err(if p.unsure { Bad::Unsure } else { Bad::No }),
    };
    p.ws();
    if p.i != p.b.len() {
        return Err(if p.unsure { Bad::Unsure } else { Bad::No });
    }
    if p.unsure {
        return Err(Bad::Unsure);
    }
    Ok(v)
}

/// Which invalid UTF-8 is certainly refused: a sequence cut at the end of the input, or a lead
/// byte followed by something that is not a continuation byte. Overlong forms, surrogates and
/// stray continuation bytes are left open.
pub fn utf8_verdict(bytes: &[u8]) -> Bad {
    let mut i = 0;
    while i < bytes.len() {
        let b = bytes[i];
        let n = match b {
            0..=0x7f => 1,
            0xc2..=0xdf => 2,
            0xe1..=0xec | 0xee..=0xef => 3,
            0xf1..=0xf3 => 4,
            _ => return Bad::Unsure,
        };
        for k in 1..n {
            match bytes.get(i + k) {
                None => return Bad::No,
                Some(c) if c & 0xc0 != 0x80 => return Bad::No,
                _ => (),
            }
        }
        i += n;
    }
    Bad::No
}

impl P<'_> {
    fn ws(&mut self) {
        while let Some(b' ' | b'\t' | b'\n' | b'\r') = self.b.get(self.i) {
            self.i += 1;
        }
    }
    fn lit(&mut self, t: &[u8]) -> Result<(), ()> {
        if self.b[self.i..].starts_with(t) {
            self.i += t.len();
            Ok(())
        } else {
            Err(())
        }
    }
    fn value(&mut self) -> Result<J, ()> {
        self.depth += 1;
        if self.depth > 400 {
            self.unsure = true;
            return Err(());
        }
        let r = self.value_inner();
        self.depth -= 1;
        r
    }
    fn value_inner(&mut self) -> Result<J, ()> {
        match self.b.get(self.i).ok_or(())? {
            b'n' => self.lit(b"null").map(|_| J::Null),
            b't' => self.lit(b"true").map(|_| J::Bool(true)),
            b'f' => self.lit(b"false").map(|_| J::Bool(false)),
            b'"' => self.string().map(J::Str),
            b'[' => {
                self.i += 1;
                let mut a = vec![];
                self.ws();
                if self.lit(b"]").is_ok() {
                    return Ok(J::Arr(a));
                }
                loop {
                    self.ws();
                    a.push(self.value()?);
                    self.ws();
                    if self.lit(b"]").is_ok() {
                        return Ok(J::Arr(a));
                    }
                    self.lit(b",")?;
                }
            }
            b'{' => {
                self.i += 1;
                let mut o = vec![];
                self.ws();
                if self.lit(b"}").is_ok() {
                    return Ok(J::Obj(o));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    self.lit(b":")?;
                    self.ws();
                    o.push((k, self.value()?));
                    self.ws();
                    if self.lit(b"}").is_ok() {
                        return Ok(J::Obj(o));
                    }
                    self.lit(b",")?;
                }
            }
            b'-' | b'0'..=b'9' => self.number(),
            _ => Err(()),
        }
    }
    fn digits(&mut self) -> Result<(), ()> {
        let st = self.i;
        while let Some(b'0'..=b'9') = self.b.get(self.i) {
            self.i += 1;
        }
        if self.i == st {
            Err(())
        } else {
            Ok(())
        }
    }
    fn number(&mut self) -> Result<J, ()> {
        let st = self.i;
        let _ = self.lit(b"-");
        if self.lit(b"0").is_err() {
            self.digits()?;
        }
        if self.lit(b".").is_ok() {
            self.digits()?;
        }
        if let Some(b'e' | b'E') = self.b.get(self.i) {
            self.i += 1;
            if let Some(b'+' | b'-') = self.b.get(self.i) {
                self.i += 1;
            }
            self.digits()?;
        }
        Ok(J::Num(String::from_utf8(self.b[st..self.i].to_vec()).unwrap()))
    }
    fn hex4(&mut self) -> Result<u32, ()> {
        let h = self.b.get(self.i..self.i + 4).ok_or(())?;
        let t = std::str::from_utf8(h).map_err(|_| ())?;
        if !t.bytes().all(|c| c.is_ascii_hexdigit()) {
            return Err(());
        }
        self.i += 4;
        u32::from_str_radix(t, 16).map_err(|_| ())
    }
    fn string(&mut self) -> Result<String, ()> {
        self.lit(b"\"")?;
        let mut out: Vec<u8> = vec![];
        loop {
            let c = *self.b.get(self.i).ok_or(())?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).map_err(|_| ()),
                b'\\' => {
                    let e = *self.b.get(self.i).ok_or(())?;
                    self.i += 1;
                    let ch = match e {
                        b'"' | b'\\' | b'/' => e as char,
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let a = self.hex4()?;
                            if (0xd800..0xdc00).contains(&a) {
                                if self.lit(b"\\u").is_ok() {
                                    let b = self.hex4()?;
                                    if (0xdc00..0xe000).contains(&b) {
                                        char::from_u32(0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00)).unwrap()
                                    } else {
                                        self.unsure = true;
                                        '?'
                                    }
                                } else {
                                    self.unsure = true;
                                    '?'
                                }
                            } else if (0xdc00..0xe000).contains(&a) {
                                self.unsure = true;
                                '?'
                            } else {
                                char::from_u32(a).unwrap()
                            }
                        }
                        _ => return Err(()),
                    };
                    out.extend(ch.to_string().bytes());
                }
                c => {
                    if c < 0x20 {
                        self.unsure = true;
                    }
                    out.push(c)
                }
            }
        }
    }
}

fn write_str(x: &str, out: &mut String, rng: &mut Option<&mut Rng>) {
    out.push('"');
    for c in x.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => {
                let esc = match rng {
                    Some(r) => r.below(40) == 0,
                    None => false,
                };
                if esc {
                    let mut buf = [0u16; 2];
                    for u in c.encode_utf16(&mut buf) {
                        out.push_str(&format!("\\u{u:04X}"));
                    }
                } else {
                    out.push(c)
                }
            }
        }
    }
    out.push('"');
}

fn write_to(v: &J, out: &mut String, rng: &mut Option<&mut Rng>) {
    fn ws(out: &mut String, rng: &mut Option<&mut Rng>) {
        if let Some(r) = rng {
            match r.below(12) {
                0 => out.push(' '),
                1 => out.push_str("\n\t"),
                2 => out.push_str("\r\n "),
                _ => (),
            }
        }
    }
    match v {
        J::Null => out.push_str("null"),
        J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        J::Num(n) => out.push_str(n),
        J::Str(x) => write_str(x, out, rng),
        J::Arr(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                ws(out, rng);
                write_to(x, out, rng);
                ws(out, rng);
            }
            out.push(']');
        }
        J::Obj(o) => {
            out.push('{');
            for (i, (k, x)) in o.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                ws(out, rng);
                write_str(k, out, rng);
                ws(out, rng);
                out.push(':');
                ws(out, rng);
                write_to(x, out, rng);
                ws(out, rng);
            }
            out.push('}');
        }
    }
}

pub fn text(v: &J) -> String {
    let mut o = String::new();
    write_to(v, &mut o, &mut None);
    o
}

/// Text with random (insignificant) white space and escapes.
pub fn noisy_text(v: &J, rng: &mut Rng) -> String {
    let mut o = String::new();
    let mut r = Some(rng);
    write_to(v, &mut o, &mut r);
    o
}
