//! Tree values with exact numbers, JSON and CBOR readers and writers.

use crate::json::{self, Bad, J};
use crate::rng::Rng;
use num_bigint::{BigInt, BigUint, Sign};
use num_rational::BigRational;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Val {
    Unit,
    Bool(bool),
    Num(BigRational),
    Bytes(Vec<u8>),
    Str(String),
    List(Vec<Val>),
    Map(BTreeMap<Val, Val>),
}

pub fn num(i: i64) -> Val {
    Val::Num(BigRational::from_integer(i.into()))
}

pub fn pow10(n: u32) -> BigInt {
    BigInt::from(10u32).pow(n)
}

/// Exact value of a JSON number or XSD decimal.
pub fn decimal(t: &str) -> Option<BigRational> {
    let (m, e) = match t.find(['e', 'E']) {
        Some(i) => (&t[..i], t[i + 1..].parse::<i64>().ok()?),
        None => (t, 0),
    };
    if e.abs() > 5000 {
        return None;
    }
    let (neg, m) = match m.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, m.strip_prefix('+').unwrap_or(m)),
    };
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    if (i.is_empty() && f.is_empty()) || !i.bytes().chain(f.bytes()).all(|c| c.is_ascii_digit()) {
        return None;
    }
    let n: BigUint = format!("0{i}{f}").parse().ok()?;
    let n = BigInt::from_biguint(if neg { Sign::Minus } else { Sign::Plus }, n);
    let mut r = BigRational::new(n, pow10(f.len() as u32));
    let p = BigRational::from_integer(pow10(e.unsigned_abs() as u32));
    if e >= 0 {
        r *= p
    } else {
        r /= p
    }
    Some(r)
}

/// Finite decimal text of a number, if it has one.
pub fn decimal_text(r: &BigRational) -> Option<String> {
    let mut d = r.denom().clone();
    let (mut twos, mut fives) = (0u32, 0u32);
    while (&d % 2u32).is_zero() {
        d /= 2u32;
        twos += 1
    }
    while (&d % 5u32).is_zero() {
        d /= 5u32;
        fives += 1
    }
    if !d.is_one() {
        return None;
    }
    let k = twos.max(fives);
    let n = r.numer() * pow10(k) / r.denom();
    let digits = n.abs().to_string();
    let neg = if n.is_negative() { "-" } else { "" };
    if k == 0 {
        return Some(format!("{neg}{digits}"));
    }
    let k = k as usize;
    let digits = format!("{digits:0>w$}", w = k + 1);
    let (a, b) = digits.split_at(digits.len() - k);
    Some(format!("{neg}{a}.{b}"))
}

/// Nearest binary64 (ties to even), as an exact rational; `None` when it overflows.
pub fn nearest_f64(r: &BigRational) -> Option<f64> {
    // Through a correctly rounding decimal parser when there is a finite decimal text.
    match decimal_text(r) {
        Some(t) => t.parse::<f64>().ok().filter(|f| f.is_finite()),
        None => r.to_f64().filter(|f| f.is_finite()),
    }
}

pub fn from_f64(f: f64) -> Option<BigRational> {
    BigRational::from_float(f)
}

/// Reads a JSON text as a value (last duplicate entry wins).
pub fn from_json(j: &J) -> Result<Val, Bad> {
    Ok(match j {
        J::Null => Val::Unit,
        J::Bool(b) => Val::Bool(*b),
        J::Num(n) => Val::Num(decimal(n).ok_or(Bad::Unsure)?),
        J::Str(s) => Val::Str(s.clone()),
        J::Arr(a) => Val::List(a.iter().map(from_json).collect::<Result<_, _>>()?),
        J::Obj(o) => {
            let mut m = BTreeMap::new();
            for (k, v) in o {
                m.insert(Val::Str(k.clone()), from_json(v)?);
            }
            Val::Map(m)
        }
    })
}

pub fn parse_json(bytes: &[u8]) -> Result<Val, Bad> {
    from_json(&json::parse(bytes)?)
}

pub fn to_json(v: &Val) -> Option<J> {
    Some(match v {
        Val::Unit => J::Null,
        Val::Bool(b) => J::Bool(*b),
        Val::Num(n) => J::Num(decimal_text(n)?),
        Val::Str(s) => J::Str(s.clone()),
        Val::Bytes(_) => return None,
        Val::List(l) => J::Arr(l.iter().map(to_json).collect::<Option<_>>()?),
        Val::Map(m) => {
            let mut o = vec![];
            for (k, v) in m {
                match k {
                    Val::Str(k) => o.push((k.clone(), to_json(v)?)),
                    _ => return None,
                }
            }
            J::Obj(o)
        }
    })
}

/// JSON text of a value with random choices of number notation, white space and escapes.
pub fn noisy_json(v: &Val, rng: &mut Rng) -> Option<String> {
    fn go(v: &Val, rng: &mut Rng) -> Option<J> {
        Some(match v {
            Val::Num(n) => J::Num(number_text(n, rng)?),
            Val::List(l) => J::Arr(l.iter().map(|x| go(x, rng)).collect::<Option<_>>()?),
            Val::Map(m) => {
                let mut o = vec![];
                for (k, v) in m {
                    match k {
                        Val::Str(k) => o.push((k.clone(), go(v, rng)?)),
                        _ => return None,
                    }
                }
                rng.shuffle(&mut o);
                J::Obj(o)
            }
            v => to_json(v)?,
        })
    }
    let j = go(v, rng)?;
    Some(if rng.pct(50) { json::text(&j) } else { json::noisy_text(&j, rng) })
}

fn number_text(n: &BigRational, rng: &mut Rng) -> Option<String> {
    let t = decimal_text(n)?;
    Some(match rng.below(8) {
        0 => {
            // scientific notation
            let neg = t.starts_with('-');
            let d: String = t.chars().filter(|c| c.is_ascii_digit()).collect();
            let frac = t.split_once('.').map(|x| x.1.len()).unwrap_or(0);
            let d = d.trim_start_matches('0');
            let d = if d.is_empty() { "0" } else { d };
            let mut e = -(frac as i64);
            let mut m = d.to_string();
            if m.len() > 1 && rng.pct(50) {
                e += m.len() as i64 - 1;
                m.insert(1, '.');
            }
            let sign = if e < 0 { "" } else { *rng.pick(&["", "+"]) };
            format!("{}{m}{}{sign}{e}", if neg { "-" } else { "" }, rng.pick(&["e", "E"]))
        }
        1 if !t.contains('.') => format!("{t}.0"),
        2 if t.contains('.') => format!("{t}00"),
        _ => t,
    })
}

// ---- CBOR ----

/// A decoded CBOR item with its tags.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum C {
    Int(BigInt),
    Float(u64),
    Bool(bool),
    Null,
    Undefined,
    Simple(u8),
    Bytes(Vec<u8>),
    Text(String),
    Arr(Vec<C>),
    Map(Vec<(C, C)>),
    Tag(u64, Box<C>),
}

struct D<'a> {
    b: &'a [u8],
    i: usize,
    unsure: bool,
    depth: usize,
}

pub fn half(h: u16) -> f64 {
    let s = if h & 0x8000 != 0 { -1.0 } else { 1.0 };
    let e = ((h >> 10) & 0x1f) as i32;
    let m = (h & 0x3ff) as f64;
    s * match e {
        0 => m * 2f64.powi(-24),
        31 => {
            if m == 0.0 {
                f64::INFINITY
            } else {
                f64::NAN
            }
        }
        _ => (1024.0 + m) * 2f64.powi(e - 25),
    }
}

impl D<'_> {
    fn take(&mut self, n: usize) -> Result<&[u8], ()> {
        if self.b.len() - self.i < n {
            return Err(());
        }
        self.i += n;
        Ok(&self.b[self.i - n..self.i])
    }
    fn arg(&mut self, info: u8) -> Result<Option<u64>, ()> {
        Ok(Some(match info {
            0..=23 => info as u64,
            24 => self.take(1)?[0] as u64,
            25 => u16::from_be_bytes(self.take(2)?.try_into().unwrap()) as u64,
            26 => u32::from_be_bytes(self.take(4)?.try_into().unwrap()) as u64,
            27 => u64::from_be_bytes(self.take(8)?.try_into().unwrap()),
            31 => return Ok(None),
            _ => return Err(()),
        }))
    }
    fn item(&mut self) -> Result<C, ()> {
        self.depth += 1;
        if self.depth > 100 {
            self.unsure = true;
            return Err(());
        }
        let r = self.item_inner();
        self.depth -= 1;
        r
    }
    fn item_inner(&mut self) -> Result<C, ()> {
        let h = self.take(1)?[0];
        let (major, info) = (h >> 5, h & 31);
        if major == 7 {
            return Ok(match info {
                20 => C::Bool(false),
                21 => C::Bool(true),
                22 => C::Null,
                23 => C::Undefined,
                25 => C::Float(half(u16::from_be_bytes(self.take(2)?.try_into().unwrap())).to_bits()),
                26 => C::Float((f32::from_bits(u32::from_be_bytes(self.take(4)?.try_into().unwrap())) as f64).to_bits()),
                27 => C::Float(u64::from_be_bytes(self.take(8)?.try_into().unwrap())),
                24 => {
                    self.unsure = true;
                    C::Simple(self.take(1)?[0])
                }
                0..=19 => {
                    self.unsure = true;
                    C::Simple(info)
                }
                _ => return Err(()),
            });
        }
        let a = self.arg(info)?;
        Ok(match (major, a) {
            (0, Some(n)) => C::Int(n.into()),
            (1, Some(n)) => C::Int(-BigInt::from(n) - 1),
            (2, Some(n)) => C::Bytes(self.take(usize::try_from(n).map_err(|_| ())?)?.to_vec()),
            (3, Some(n)) => {
                let b = self.take(usize::try_from(n).map_err(|_| ())?)?.to_vec();
                C::Text(String::from_utf8(b).map_err(|_| ())?)
            }
            (2, None) => {
                let mut out = vec![];
                loop {
                    if self.b.get(self.i) == Some(&0xff) {
                        self.i += 1;
                        break C::Bytes(out);
                    }
                    match self.item()? {
                        C::Bytes(b) => out.extend(b),
                        _ => return Err(()),
                    }
                }
            }
            (3, None) => {
                let mut out = String::new();
                loop {
                    if self.b.get(self.i) == Some(&0xff) {
                        self.i += 1;
                        break C::Text(out);
                    }
                    match self.item()? {
                        C::Text(b) => out.push_str(&b),
                        _ => return Err(()),
                    }
                }
            }
            (4, Some(n)) => {
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.item()?)
                }
                C::Arr(v)
            }
            (4, None) => {
                let mut v = vec![];
                while self.b.get(self.i) != Some(&0xff) {
                    v.push(self.item()?)
                }
                self.i += 1;
                C::Arr(v)
            }
            (5, Some(n)) => {
                let mut v = vec![];
                for _ in 0..n {
                    let k = self.item()?;
                    v.push((k, self.item()?))
                }
                C::Map(v)
            }
            (5, None) => {
                let mut v = vec![];
                while self.b.get(self.i) != Some(&0xff) {
                    let k = self.item()?;
                    v.push((k, self.item()?))
                }
                self.i += 1;
                C::Map(v)
            }
            (6, Some(t)) => C::Tag(t, Box::new(self.item()?)),
            _ => return Err(()),
        })
    }
}

pub fn parse_cbor(b: &[u8]) -> Result<C, Bad> {
    let mut d = D { b, i: 0, unsure: false, depth: 0 };
    match d.item() {
        Ok(c) if d.i == b.len() => {
            if d.unsure {
                Err(Bad::Unsure)
            } else {
                Ok(c)
            }
        }
        _ => Err(if d.unsure { Bad::Unsure } else { Bad::No }),
    }
}

/// How the value is read from CBOR input: integers and floats are numbers.
/// Whether an integer below -2^63 or a non-finite float is refused is known; `undefined` and
/// tags other than plain annotations are left open.
pub fn cbor_value(c: &C) -> Result<Val, Bad> {
    Ok(match c {
        C::Int(i) => {
            if *i < BigInt::from(i64::MIN) {
                return Err(Bad::No);
            }
            Val::Num(BigRational::from_integer(i.clone()))
        }
        C::Float(b) => Val::Num(from_f64(f64::from_bits(*b)).ok_or(Bad::No)?),
        C::Bool(b) => Val::Bool(*b),
        C::Null => Val::Unit,
        C::Undefined | C::Simple(_) => return Err(Bad::Unsure),
        C::Bytes(b) => Val::Bytes(b.clone()),
        C::Text(t) => Val::Str(t.clone()),
        C::Arr(a) => Val::List(a.iter().map(cbor_value).collect::<Result<_, _>>()?),
        C::Map(m) => {
            let mut o = BTreeMap::new();
            for (k, v) in m {
                o.insert(cbor_value(k)?, cbor_value(v)?);
            }
            Val::Map(o)
        }
        // Refused by the current program; left open.
        C::Tag(..) => return Err(Bad::Unsure),
    })
}

fn head(major: u8, n: u64, out: &mut Vec<u8>, rng: &mut Option<&mut Rng>) {
    let wide = match rng {
        Some(r) => {
            if r.below(16) == 0 {
                r.below(5)
            } else {
                0
            }
        }
        None => 0,
    };
    let m = major << 5;
    if n < 24 && wide == 0 {
        out.push(m | n as u8)
    } else if n < 256 && wide <= 1 {
        out.extend([m | 24, n as u8])
    } else if n < 65536 && wide <= 2 {
        out.push(m | 25);
        out.extend((n as u16).to_be_bytes())
    } else if n < 1 << 32 && wide <= 3 {
        out.push(m | 26);
        out.extend((n as u32).to_be_bytes())
    } else {
        out.push(m | 27);
        out.extend(n.to_be_bytes())
    }
}

/// Encodes a value; `rng` makes random choices among equivalent encodings. Only for values whose
/// numbers are 64-bit integers or exact binary64 numbers.
pub fn to_cbor(v: &Val, rng: &mut Option<&mut Rng>) -> Option<Vec<u8>> {
    let mut o = vec![];
    enc(v, &mut o, rng)?;
    Some(o)
}

fn flip(rng: &mut Option<&mut Rng>, n: usize) -> bool {
    match rng {
        Some(r) => r.below(n) == 0,
        None => false,
    }
}

fn enc(v: &Val, o: &mut Vec<u8>, rng: &mut Option<&mut Rng>) -> Option<()> {
    match v {
        Val::Unit => o.push(0xf6),
        Val::Bool(b) => o.push(if *b { 0xf5 } else { 0xf4 }),
        Val::Num(n) => {
            let int = n.is_integer() && !flip(rng, 10);
            let i = n.numer();
            if int && !i.is_negative() && i.bits() <= 64 {
                head(0, i.to_u64()?, o, rng)
            } else if int && i.is_negative() && *i >= BigInt::from(i64::MIN) {
                head(1, (-(i + BigInt::one())).to_u64()?, o, rng)
            } else {
                let f = nearest_f64(n)?;
                if from_f64(f)? != *n {
                    if n.is_integer() && i.bits() <= 64 {
                        // an integer that no float holds
                        if !i.is_negative() {
                            head(0, i.to_u64()?, o, rng);
                        } else if *i >= BigInt::from(i64::MIN) {
                            head(1, (-(i + BigInt::one())).to_u64()?, o, rng);
                        } else {
                            return None;
                        }
                        return Some(());
                    }
                    return None;
                }
                if (f as f32) as f64 == f && flip(rng, 2) {
                    o.push(0xfa);
                    o.extend((f as f32).to_bits().to_be_bytes())
                } else {
                    o.push(0xfb);
                    o.extend(f.to_bits().to_be_bytes())
                }
            }
        }
        Val::Bytes(b) => {
            head(2, b.len() as u64, o, rng);
            o.extend(b)
        }
        Val::Str(s) => {
            if flip(rng, 20) && s.is_ascii() {
                // indefinite length, in pieces
                o.push(0x7f);
                for c in s.as_bytes().chunks(3) {
                    head(3, c.len() as u64, o, rng);
                    o.extend(c)
                }
                o.push(0xff)
            } else {
                head(3, s.len() as u64, o, rng);
                o.extend(s.as_bytes())
            }
        }
        Val::List(l) => {
            let ind = flip(rng, 8);
            if ind {
                o.push(0x9f)
            } else {
                head(4, l.len() as u64, o, rng)
            }
            for x in l {
                enc(x, o, rng)?
            }
            if ind {
                o.push(0xff)
            }
        }
        Val::Map(m) => {
            let ind = flip(rng, 8);
            if ind {
                o.push(0xbf)
            } else {
                head(5, m.len() as u64, o, rng)
            }
            let mut es: Vec<_> = m.iter().collect();
            if let Some(r) = rng {
                r.shuffle(&mut es)
            }
            for (k, x) in es {
                // keys stay untagged
                let mut none = None;
                enc(k, o, &mut none)?;
                enc(x, o, rng)?
            }
            if ind {
                o.push(0xff)
            }
        }
    }
    Some(())
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn to_base64(b: &[u8]) -> String {
    let mut t = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            t.push(if i <= c.len() { B64[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' });
        }
    }
    t
}

/// Canonical text only.
pub fn from_base64(t: &str) -> Option<Vec<u8>> {
    let mut out = vec![];
    let (mut n, mut k) = (0u32, 0);
    for c in t.trim_end_matches('=').bytes() {
        n = n << 6 | B64.iter().position(|x| *x == c)? as u32;
        k += 6;
        if k >= 8 {
            k -= 8;
            out.push((n >> k) as u8);
            n &= (1 << k) - 1;
        }
    }
    (to_base64(&out) == t).then_some(out)
}

pub fn from_hex(t: &str) -> Option<Vec<u8>> {
    let d: Vec<u8> = t.chars().map(|c| c.to_digit(16).map(|d| d as u8)).collect::<Option<_>>()?;
    (d.len() % 2 == 0).then(|| d.chunks(2).map(|c| c[0] << 4 | c[1]).collect())
}
