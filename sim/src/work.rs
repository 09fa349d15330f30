//! Seeded workloads and fault schedules, by property.

use crate::case::*;
use crate::gen::*;
use crate::json::{self, s, J};
use crate::nq::{self, Data, Term, XSD};
use crate::os::*;
use crate::refm::{self, Layouts};
use crate::rng::Rng;
use crate::scen::Lab;
use crate::val::{self, Val};

pub struct World {
    pub files: Vec<(String, Vec<u8>)>,
    pub cmd: Cmd,
    pub layout: Option<String>,
    pub layouts: Option<Layouts>,
    pub root: Option<String>,
    pub inputs: usize,
    pub o: Opts,
}

fn file_name(r: &mut Rng, i: usize) -> String {
    match r.below(6) {
        0 => format!("sim_é{i}.json"),
        1 => format!("sim_{i} x.txt"),
        _ => format!("sim_{i}.json"),
    }
}

pub fn print(r: &mut Rng, j: &J) -> Vec<u8> {
    if r.pct(70) {
        json::text(j).into_bytes()
    } else {
        json::noisy_text(j, r).into_bytes()
    }
}

pub fn world(r: &mut Rng, o: Opts) -> World {
    let mut g = Gen::new(r, o);
    let depth = g.o.depth;
    let id = if g.r.pct(50) { Some("https://ex.org/Root".to_string()) } else { None };
    let (root, inputs) = g.layout(depth, id.clone());
    let o = g.o.clone();
    let mut js = vec![root];
    js.append(&mut g.files);
    // A file that is not used at all.
    if r.pct(8) {
        let mut g = Gen::new(r, Opts { depth: 1, ..o.clone() });
        js.push(g.layout(1, Some("https://ex.org/unused/L".into())).0);
    }
    if r.pct(12) {
        let suffix = *r.pick(&["0", "_90", "é", "-x", ":y", "日", "‿", "\u{b7}1", "__"]);
        js.iter_mut().for_each(|j| rename_vars(j, if o.code { "_90" } else { suffix }));
    }
    let n = js.len();
    let mut order: Vec<usize> = (1..n).collect();
    r.shuffle(&mut order);
    let mut cmd = Cmd::new(Sub::None);
    cmd.style = if r.pct(30) { 0 } else { r.u64() };
    cmd.no_prelude = !o.prelude && r.pct(60);
    let mut layout = None;
    match &id {
        Some(i) if r.pct(50) => {
            // Designated by name, whatever the role of its file.
            layout = Some(i.clone());
            order.push(0);
            r.shuffle(&mut order);
            for i in order {
                if r.pct(50) {
                    cmd.mains.push(i)
                } else {
                    cmd.includes.push(i)
                }
            }
        }
        _ => {
            cmd.mains.push(0);
            cmd.includes = order;
        }
    }
    let files: Vec<(String, Vec<u8>)> = js.iter().enumerate().map(|(i, j)| (file_name(r, i), print(r, j))).collect();
    let loaded = load(&files, &cmd).ok();
    let root = loaded.as_ref().and_then(|(_, ids)| designated(&layout, ids).ok());
    World { files, cmd, layout, layouts: loaded.map(|l| l.0), root, inputs, o }
}

/// Gives the variables whose name means nothing another name.
fn rename_vars(j: &mut J, suffix: &str) {
    let mine = |n: &str| matches!(n, "s" | "x" | "other" | "lit" | "w" | "h" | "r" | "o" | "obj" | "mid0" | "mid1" | "pred" | "alone") || n.len() == 2 && n.starts_with('i') && n.as_bytes()[1].is_ascii_digit();
    match j {
        J::Str(t) => {
            if t.strip_prefix("_:").is_some_and(mine) {
                t.push_str(suffix);
            }
        }
        J::Arr(a) => a.iter_mut().for_each(|x| rename_vars(x, suffix)),
        J::Obj(o) => {
            for (k, x) in o {
                if matches!(k.as_str(), "input" | "intro" | "head" | "rest") {
                    let one = |x: &mut J| {
                        if let J::Str(t) = x {
                            if mine(t) {
                                t.push_str(suffix);
                            }
                        }
                    };
                    match &mut *x {
                        J::Arr(a) => a.iter_mut().for_each(one),
                        x => one(x),
                    }
                }
                rename_vars(x, suffix);
            }
        }
        _ => (),
    }
}

impl World {
    pub fn value(&self, r: &mut Rng) -> Option<Val> {
        fn size(v: &Val) -> usize {
            1 + match v {
                Val::List(l) => l.iter().map(size).sum(),
                Val::Map(m) => m.values().map(size).sum(),
                Val::Str(t) => t.len() / 30,
                _ => 0,
            }
        }
        let v = value(r, self.layouts.as_ref()?, self.root.as_ref()?, &self.o, 0)?;
        if size(&v) > 4000 {
            return value(r, self.layouts.as_ref()?, self.root.as_ref()?, &Opts { big: false, width: self.o.width.min(2), ..self.o.clone() }, 0);
        }
        Some(v)
    }
    pub fn case(&self, kind: &str, sub: Sub) -> Case {
        let mut c = Case::new(kind, Cmd { sub, ..self.cmd.clone() });
        c.files = self.files.clone();
        c
    }
}

/// A tree value as input bytes.
pub fn tree_bytes(r: &mut Rng, v: &Val, cbor: bool) -> Vec<u8> {
    let b = tree_text(r, v, cbor);
    if b.len() > 150_000 {
        return tree_text(r, &Val::Unit, cbor);
    }
    b
}

fn tree_text(r: &mut Rng, v: &Val, cbor: bool) -> Vec<u8> {
    if cbor {
        if let Some(b) = val::to_cbor(v, &mut Some(&mut *r)) {
            return b;
        }
        return vec![0xf6];
    }
    match val::noisy_json(v, r) {
        Some(t) => t.into_bytes(),
        None => b"null".to_vec(),
    }
}

// ---- schedules without faults ----

pub fn slicing(r: &mut Rng, len: usize) -> Stream {
    let mut st = Stream::default();
    match r.below(6) {
        0 => (),
        1 => st.chunk = *r.pick(&[1, 2, 3, 5]),
        2 => st.chunk = *r.pick(&[7, 16, 64, 100, 255, 1000]),
        _ => {
            let n = r.range(1, 24);
            let max = (len / 2).clamp(2, 5000);
            for _ in 0..n {
                let m = if r.pct(50) { 4 } else { max };
                st.ops.push(if r.pct(30) { Op::Err(libc::EINTR as u32) } else { Op::Xfer(r.range(1, m) as u32) });
            }
            if r.pct(30) {
                st.chunk = r.range(1, max) as u32;
            }
        }
    }
    if len > 20_000 && st.chunk > 0 && st.chunk < 16 {
        st.chunk = 64;
    }
    st
}

pub fn benign(r: &mut Rng, c: &Case, plan: &mut Plan) {
    plan.rand_seed = r.u64();
    plan.stdin = slicing(r, c.stdin.len());
    plan.stdout = slicing(r, 400);
    if r.pct(30) {
        plan.stderr = slicing(r, 200);
    }
    for i in 0..c.files.len().min(MAX_FILES) {
        let mut f = if r.pct(50) { slicing(r, c.files[i].1.len()) } else { Stream::default() };
        f.ops.truncate(MAX_FOPS);
        plan.files.push(f);
    }
}

// ---- per command ----

pub fn dehydrate_case(r: &mut Rng, kind: &str, o: Opts) -> Case {
    let w = world(r, o);
    let v = match w.value(r) {
        Some(v) => match r.below(10) {
            0..=6 => v,
            7 | 8 => mutate_value(r, &v),
            _ => any_value(r, 2),
        },
        None => any_value(r, 2),
    };
    let cbor = r.pct(25) || o_bytes(&v);
    let mut c = w.case(kind, Sub::Dehydrate { layout: w.layout.clone(), cbor });
    c.stdin = tree_bytes(r, &v, cbor);
    if r.pct(4) {
        retype(r, &mut c);
    }
    c
}

/// Changes the kind of one of the literal layouts, whose datatype may be none of the new kind.
fn retype(r: &mut Rng, c: &mut Case) {
    let kinds = ["string", "number", "boolean", "bytes", "id"];
    let from = format!("\"{}\"", kinds[r.below(4)]);
    let to = format!("\"{}\"", r.pick(&kinds));
    let mut places = vec![];
    for (i, (_, f)) in c.files.iter().enumerate() {
        if let Ok(t) = std::str::from_utf8(f) {
            places.extend(t.match_indices(&from).map(|(at, _)| (i, at)));
        }
    }
    if !places.is_empty() {
        let (i, at) = *r.pick(&places);
        c.files[i].1.splice(at..at + from.len(), to.bytes());
    }
}

fn o_bytes(v: &Val) -> bool {
    match v {
        Val::Bytes(_) => true,
        Val::List(l) => l.iter().any(o_bytes),
        Val::Map(m) => m.values().any(o_bytes),
        _ => false,
    }
}

/// A dataset for a world, with its subjects.
pub fn dataset(r: &mut Rng, w: &World) -> (Data, Vec<Term>) {
    let found = (|| {
        let v = w.value(r)?;
        refm::dehydrate(w.layouts.as_ref()?, w.root.as_ref()?, &v).ok()
    })();
    let (d, mut subs) = match found {
        Some(x) => x,
        None => {
            let mut d = Data::new();
            for i in 0..r.below(6) {
                d.insert((Term::Blank(format!("input{}", r.below(2))), Term::Iri(format!("https://ex.org/p{}", i + 4)), Term::Lit(text(r), Ok(format!("{XSD}string"))), None));
            }
            (d, (0..w.inputs).map(|i| Term::Blank(format!("input{i}"))).collect())
        }
    };
    let to_iri = *r.pick(&[0, 0, 30, 100]);
    let mut d = rename(r, &d, &mut subs, to_iri);
    match r.below(10) {
        0..=3 => (),
        4..=5 => d = mutate_data(r, &d, &[3, 3, 5, 6]),
        6 => d = mutate_data(r, &d, &[2, 2, 4]),
        7 => d = mutate_data(r, &d, &[0, 1]),
        _ => d = mutate_data(r, &d, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9]),
    }
    (d, subs)
}

pub fn subject_args(r: &mut Rng, subs: &[Term], d: &Data) -> Vec<String> {
    let mut v: Vec<String> = subs
        .iter()
        .map(|t| match t {
            Term::Iri(i) => i.clone(),
            Term::Blank(b) => format!("_:{b}"),
            Term::Lit(..) => "https://ex.org/root".to_string(),
        })
        .collect();
    if r.pct(4) {
        match r.below(4) {
            0 => {
                v.pop();
            }
            1 => v.push("https://ex.org/extra".into()),
            2 => v.iter_mut().for_each(|x| *x = "_:nobody".into()),
            _ => {
                // another resource of the dataset
                let ts: Vec<&Term> = d.iter().map(|q| &q.0).collect();
                if !ts.is_empty() && !v.is_empty() {
                    v[0] = match *r.pick(&ts) {
                        Term::Iri(i) => i.clone(),
                        Term::Blank(b) => format!("_:{b}"),
                        Term::Lit(..) => "_:nobody".into(),
                    };
                }
            }
        }
    }
    v
}

pub fn hydrate_case(r: &mut Rng, kind: &str, o: Opts) -> Case {
    let w = world(r, o);
    let (d, subs) = dataset(r, &w);
    let mut room = 70_000usize;
    let d: Data = d
        .into_iter()
        .take(1500)
        .take_while(|q| {
            let n = if let Term::Lit(t, _) = &q.2 { t.len() } else { 0 };
            room = room.saturating_sub(n);
            room > 0
        })
        .collect();
    let subjects = subject_args(r, &subs, &d);
    let mut c = w.case(kind, Sub::Hydrate { layout: w.layout.clone(), subjects, cbor: r.pct(if w.o.bytes { 80 } else { 25 }), pretty: r.pct(15) });
    c.stdin = if r.pct(40) { nq::text(&d).into_bytes() } else { nq::noisy_text(&d, r).into_bytes() };
    if c.stdin.len() > 900_000 {
        // Noise may spell every character with ten.
        c.stdin = nq::text(&d).into_bytes();
    }
    if r.pct(5) {
        retype(r, &mut c);
    }
    c
}

pub fn random_data(r: &mut Rng, n: usize) -> Data {
    let mut d = Data::new();
    let node = |r: &mut Rng| match r.below(3) {
        0 => Term::Blank(format!("b{}", r.below(5))),
        _ => Term::Iri(an_iri(r)),
    };
    for _ in 0..n {
        let o = match r.below(6) {
            0 => Term::Lit(text(r), Ok(format!("{XSD}string"))),
            1 => Term::Lit(text(r), Err(r.pick(&["en", "fr", "de", "en-GB"]).to_string())),
            2 => Term::Lit(val::decimal_text(&number(r)).unwrap_or_default(), Ok(format!("{XSD}{}", r.pick(&["integer", "decimal", "byte"])))),
            3 => Term::Lit(text(r), Ok("https://ex.org/dt".into())),
            _ => node(r),
        };
        let p = Term::Iri(format!("https://ex.org/p{}", r.below(4)));
        let g = match r.below(4) {
            0 => Some(node(r)),
            _ => None,
        };
        d.insert((node(r), p, o, g));
    }
    d
}

pub fn convert_case(r: &mut Rng, kind: &str) -> Case {
    let big = r.pct(5);
    if r.pct(30) {
        let n = if big { r.range(50, 400) } else { r.below(8) };
        let d = random_data(r, n);
        let mut c = Case::new(kind, Cmd::new(Sub::ConvRdf));
        c.cmd.style = r.u64();
        c.stdin = nq::noisy_text(&d, r).into_bytes();
        if r.pct(5) {
            c.stdin = nq::text(&d).into_bytes();
        }
        return c;
    }
    let (from_cbor, to_cbor) = (r.pct(50), r.pct(50));
    let depth = *r.pick(&[0, 1, 2, 3, 5]);
    let mut v = any_value(r, depth);
    if big {
        v = Val::List((0..r.range(30, 600)).map(|_| any_value(r, 1)).collect());
    }
    if from_cbor && r.pct(10) {
        // No JSON counterpart.
        let odd = match r.below(3) {
            0 => Val::Bytes(vec![1, 2, 255]),
            1 => Val::Map([(val::num(1), Val::Unit)].into()),
            _ => Val::List(vec![Val::Bytes(vec![])]),
        };
        v = if r.pct(50) { odd } else { Val::List(vec![v, odd]) };
    }
    let mut c = Case::new(kind, Cmd::new(Sub::ConvTree { from_cbor, to_cbor, pretty: r.pct(20) }));
    c.cmd.style = r.u64();
    c.stdin = tree_bytes(r, &v, from_cbor);
    c
}

/// Any command on any input, well formed or not.
pub fn any_case(r: &mut Rng, kind: &str) -> Case {
    let o = Opts::random(r);
    let mut c = match r.below(20) {
        0..=6 => dehydrate_case(r, kind, o),
        7..=13 => hydrate_case(r, kind, o),
        14..=16 => convert_case(r, kind),
        17 => {
            let w = world(r, o);
            w.case(kind, Sub::None)
        }
        _ => crate::codegen::case(r, kind),
    };
    if r.pct(6) {
        c = wrong_args(r, c);
    } else if r.pct(6) {
        // One damaged file.
        damage(r, &mut c);
    }
    c
}

pub fn wrong_args(r: &mut Rng, mut c: Case) -> Case {
    let w: &[&[&str]] = &[
        &["frobnicate"],
        &["hydrate", "--output", "yaml"],
        &["hydrate", "not an iri"],
        &["dehydrate", "-i", "xml"],
        &["dehydrate", "-l", "not an iri"],
        &["convert"],
        &["convert", "tree", "-i", "nq"],
        &["hydrate", "--nope"],
        &["convert", "rdf", "-i", "json"],
    ];
    c.cmd.sub = Sub::Wrong(r.pick(w).iter().map(|s| s.to_string()).collect());
    // Positional file names would be taken for a subcommand's.
    if c.cmd.mains.is_empty() {
        c.cmd.includes.clear();
    }
    c
}

/// Cuts or corrupts the input or a file.
pub fn damage(r: &mut Rng, c: &mut Case) {
    let k = c.files.len();
    let on_file = k > 0 && (c.stdin.is_empty() || r.pct(35));
    let i = if on_file { r.below(k) } else { 0 };
    let b: &mut Vec<u8> = if on_file { &mut c.files[i].1 } else { &mut c.stdin };
    if b.is_empty() {
        return;
    }
    match r.below(12) {
        0..=4 => {
            let n = r.below(b.len());
            b.truncate(n)
        }
        10 | 11 => {
            // Not a character, in the midst of a text.
            let letters: Vec<usize> = (0..b.len()).filter(|i| b[*i].is_ascii_alphanumeric()).collect();
            if !letters.is_empty() {
                let at = *r.pick(&letters);
                let was = b[at];
                let odd: &[u8] = *r.pick(&[&b"\xff"[..], b"\xc3", b"\x80", b"\xc0\xaf", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xf0\x9f\xa6"]);
                b.splice(at..at + 1, odd.iter().copied());
                let used = on_file && (c.cmd.mains.contains(&i) || c.cmd.includes.contains(&i));
                if used && r.pct(60) {
                    // In a text that decides nothing, of a file otherwise fine.
                    b.splice(at..at + odd.len(), [was]);
                    let text = String::from_utf8_lossy(b).into_owned();
                    if let (Some(open), false) = (text.find('{'), text.contains("prefixes")) {
                        if text[open + 1..].trim_start().starts_with('"') {
                            let mut part = b"\"prefixes\":{\"z".to_vec();
                            part.extend_from_slice(odd);
                            part.extend_from_slice(b"\":\"https://ex.org/z\"},");
                            b.splice(open + 1..open + 1, part);
                        }
                    }
                }
            }
        }
        5 => {
            let at = r.below(b.len());
            b[at] = *r.pick(&[0, b'{', b'}', b'"', b'\\', b',', 0xff, 0xc3, b' ', b'\n', b'.', b'<', b'0', b'-', 0x9f]);
        }
        6 => {
            let at = r.below(b.len());
            b[at] ^= 1 << r.below(8);
        }
        7 => {
            let at = r.below(b.len());
            b.remove(at);
        }
        8 => {
            let at = r.below(b.len() + 1);
            b.insert(at, *r.pick(b"{}[]\",:.<> \n09-\\a\xff"));
        }
        _ => {
            // A lost or repeated range, as a torn write leaves.
            let (x, y) = (r.below(b.len()), r.below(b.len()));
            let (x, y) = (x.min(y), x.max(y));
            if r.pct(50) {
                b.drain(x..y);
            } else {
                let part = b[x..y].to_vec();
                let at = y;
                b.splice(at..at, part);
            }
        }
    }
}

// ---- faults ----

const READ_ERRS: &[i32] = &[libc::EIO, libc::EIO, libc::EISDIR, libc::EAGAIN, libc::ENOMEM, libc::ECONNRESET];
const WRITE_ERRS: &[i32] = &[libc::ENOSPC, libc::EPIPE, libc::EIO, libc::EDQUOT, libc::EFBIG, libc::EAGAIN];
const OPEN_ERRS: &[i32] = &[libc::EACCES, libc::ENOENT, libc::EMFILE, libc::EIO];

/// Places faults inside the run, whose course without faults is known.
pub fn faults(r: &mut Rng, c: &Case, base: &Run, plan: &mut Plan, kinds: &[usize]) {
    if r.pct(35) {
        benign(r, c, plan);
    }
    plan.rand_seed = r.u64();
    let n = if r.pct(80) { 1 } else { 2 };
    let nf = (c.cmd.mains.len() + c.cmd.includes.len()).min(MAX_FILES);
    let at = |r: &mut Rng, len: usize| -> u64 {
        match r.below(6) {
            0 => 0,
            1 => len.saturating_sub(1) as u64,
            2 => len as u64,
            _ => r.below(len + 1) as u64,
        }
    };
    let splice = |r: &mut Rng, st: &mut Stream, op: Op, calls: usize| {
        let k = r.below(calls.max(1) + 1);
        while st.ops.len() < k {
            st.ops.push(Op::Xfer(0));
        }
        st.ops.insert(k, op);
    };
    for _ in 0..n {
        match *r.pick(kinds) {
            0 => plan.stdin.fail = Some((at(r, c.stdin.len()), *r.pick(READ_ERRS) as u32)),
            1 => {
                let k = if plan.stdin.chunk > 0 { 6 } else { 2 };
                let e = *r.pick(READ_ERRS) as u32;
                splice(r, &mut plan.stdin, Op::Err(e), k)
            }
            2 | 3 if nf > 0 => {
                let i = r.below(nf);
                while plan.files.len() <= i {
                    plan.files.push(Stream::default());
                }
                let len = c.files.get(*c.cmd.mains.iter().chain(&c.cmd.includes).nth(i).unwrap()).map(|f| f.1.len()).unwrap_or(0);
                if r.pct(40) {
                    plan.files[i].open = Some(*r.pick(OPEN_ERRS) as u32)
                } else {
                    plan.files[i].fail = Some((at(r, len), *r.pick(READ_ERRS) as u32))
                }
            }
            4 | 5 => plan.stdout.fail = Some((at(r, base.out.len()), *r.pick(WRITE_ERRS) as u32)),
            6 => {
                let writes = base.trace.iter().filter(|t| t.what == b'w' && t.stream == 1).count().min(60);
                let e = *r.pick(WRITE_ERRS) as u32;
                let op = if r.pct(80) { Op::Err(e) } else { Op::Zero };
                splice(r, &mut plan.stdout, op, writes)
            }
            7 => plan.crash_call = Some(r.range(1, base.calls as usize + 1) as u64),
            8 => {
                let writes = base.trace.iter().filter(|t| t.what == b'w' && t.stream == 1).count().min(60);
                let k = r.range(1, 30) as u32;
                splice(r, &mut plan.stdout, Op::CrashAfter(k), writes)
            }
            9 => {
                let a = base.allocs.max(1) as usize;
                plan.alloc_fail = Some(if r.pct(70) { (r.range(1, a) as u64, 0) } else { (r.range(1, 6) as u64, *r.pick(&[1024, 4096, 8192])) })
            }
            10 => plan.stderr.fail = Some((r.below(60) as u64, *r.pick(WRITE_ERRS) as u32)),
            _ => benign(r, c, plan),
        }
    }
}

// ---- properties ----

pub fn case(prop: &str, r: &mut Rng, lab: &mut Lab) -> Result<Case, String> {
    let o = Opts::random(r);
    Ok(match prop {
        "C01" => {
            let mut c = if r.pct(3) { ring(r, "sem", true) } else { dehydrate_case(r, "sem", o) };
            let mut p = Plan::default();
            benign(r, &c, &mut p);
            c.plan = p;
            c
        }
        "C02" => {
            let mut c = if r.pct(3) { ring(r, "sem", false) } else { hydrate_case(r, "sem", o) };
            let mut p = Plan::default();
            benign(r, &c, &mut p);
            c.plan = p;
            c
        }
        "C03" => {
            let o = Opts { faithful: true, reuse: 0, ..o };
            let mut c = dehydrate_case(r, "pipe", o);
            for _ in 0..6 {
                if matches!(expect(&c.files, &c.cmd, &c.stdin), Exp::Data(_)) {
                    break;
                }
                let o = Opts { faithful: true, reuse: 0, ..Opts::random(r) };
                c = dehydrate_case(r, "pipe", o);
            }
            c.n = r.below(2) as u64 * r.below(2) as u64 + 2 * (r.below(4) == 0) as u64;
            if r.pct(20) {
                c.n |= 4 | (r.u64() >> 12) << 8;
            }
            let (mut p, mut q) = (Plan::default(), Plan::default());
            benign(r, &c, &mut p);
            benign(r, &c, &mut q);
            if r.pct(25) {
                let base = lab.run(&c, &c.cmd, &c.stdin, &Plan::default())?;
                if r.pct(50) {
                    faults(r, &c, &base, &mut p, &[0, 4, 5, 6, 7, 8, 8, 9]);
                } else {
                    let mut c2 = c.clone();
                    c2.stdin = base.out.clone();
                    faults(r, &c2, &base, &mut q, &[0, 0, 1, 4, 6, 7, 8]);
                }
            }
            c.plan = p;
            c.plan2 = q;
            c
        }
        "C04" => {
            let mut c = if r.pct(70) { convert_case(r, "formats") } else { hydrate_case(r, "formats", Opts { tags: true, ..o }) };
            let (mut p, mut q) = (Plan::default(), Plan::default());
            benign(r, &c, &mut p);
            benign(r, &c, &mut q);
            c.plan = p;
            c.plan2 = q;
            if r.pct(50) {
                c.cmd2 = Some(match &c.cmd.sub {
                    Sub::ConvTree { to_cbor, .. } => Cmd::new(Sub::ConvTree { from_cbor: *to_cbor, to_cbor: r.pct(50), pretty: r.pct(20) }),
                    Sub::Hydrate { layout, subjects, cbor, pretty } => {
                        Cmd { sub: Sub::Hydrate { layout: layout.clone(), subjects: subjects.clone(), cbor: !cbor, pretty: *pretty }, ..c.cmd.clone() }
                    }
                    s => Cmd::new(s.clone()),
                });
            }
            c
        }
        "C05" | "C07" => {
            let mut c = any_case(r, "fault");
            let base = lab.run(&c, &c.cmd, &c.stdin, &Plan::default())?;
            let mut p = Plan::default();
            let kinds: &[usize] = if prop == "C05" { &[0, 0, 1, 2, 3, 4, 4, 5, 6, 6, 7, 8, 9, 11, 11] } else { &[0, 1, 2, 4, 5, 6, 7, 8, 8, 9, 10, 11] };
            faults(r, &c, &base, &mut p, kinds);
            c.plan = p;
            c
        }
        "C06" => {
            let mut c = any_case(r, "vary");
            let mut q = Plan::default();
            benign(r, &c, &mut q);
            c.plan.rand_seed = r.u64();
            q.clock_ns = r.u64() >> 2;
            q.clock_step = r.below(1 << 40) as u64;
            q.heap_shift = *r.pick(&[0, 16, 4096, 100_000, 1 << 20]);
            if r.pct(40) {
                q.env.push(("HOME".into(), "/nonexistent".into()));
                q.env.push(("TZ".into(), "Asia/Tokyo".into()));
                q.env.push(("LANG".into(), "fr_FR.UTF-8".into()));
                q.env.push(("TERM".into(), r.pick(&["dumb", "xterm-256color"]).to_string()));
            }
            c.plan2 = q;
            if matches!(c.cmd.sub, Sub::Hydrate { .. }) && r.pct(70) {
                if let Ok(d) = nq::parse(&c.stdin) {
                    c.stdin2 = Some(nq::noisy_text(&d, r).into_bytes());
                }
            }
            c
        }
        "C08" => {
            let mut c = match r.below(10) {
                0..=3 => dehydrate_case(r, "sem", o),
                4..=7 => hydrate_case(r, "sem", o),
                _ => convert_case(r, "sem"),
            };
            damage(r, &mut c);
            if r.pct(30) {
                let base = lab.run(&c, &c.cmd, &c.stdin, &Plan::default())?;
                let mut p = Plan::default();
                faults(r, &c, &base, &mut p, &[0, 0, 1, 2]);
                c.plan = p;
                c.kind = "fault".into();
            } else {
                let mut p = Plan::default();
                benign(r, &c, &mut p);
                c.plan = p;
            }
            c
        }
        "C09" => {
            let mut c = designation(r, o);
            let mut p = Plan::default();
            benign(r, &c, &mut p);
            c.plan = p;
            c
        }
        "C12" => {
            let mut c = fresh_names(r, o);
            let mut p = Plan::default();
            benign(r, &c, &mut p);
            c.plan = p;
            c
        }
        "C13" => {
            let mut c = crate::codegen::case(r, "sem");
            let mut p = Plan::default();
            match r.below(10) {
                0..=3 => benign(r, &c, &mut p),
                4 | 5 => {
                    c.kind = "vary".into();
                    benign(r, &c, &mut p);
                    c.plan2 = p.clone();
                    p = Plan::default();
                    c.plan2.rand_seed = r.u64();
                    c.plan2.heap_shift = *r.pick(&[0, 4096, 1 << 20]);
                    c.plan2.clock_ns = r.u64() >> 2;
                }
                6 => {
                    damage(r, &mut c);
                    benign(r, &c, &mut p);
                }
                _ => {
                    c.kind = "fault".into();
                    let base = lab.run(&c, &c.cmd, &c.stdin, &Plan::default())?;
                    faults(r, &c, &base, &mut p, &[2, 2, 3, 4, 4, 5, 6, 6, 7, 8, 9, 11]);
                }
            }
            c.plan = p;
            c
        }
        "C14" => bounded(r, o),
        p => return Err(format!("no workload for {p}")),
    })
}

/// Sets of layout files: identifiers, roles, references, precedence, mistakes.
fn designation(r: &mut Rng, o: Opts) -> Case {
    let o = Opts { depth: o.depth.min(2), ..o };
    if r.pct(35) {
        // A world of its own, then a mistake in one of its files.
        let mut c = if r.pct(60) { dehydrate_case(r, "sem", o) } else { hydrate_case(r, "sem", o) };
        if r.pct(80) {
            mistake(r, &mut c);
        }
        return c;
    }
    // Several small layouts that are told apart by what they write.
    let n = r.range(1, 4);
    let mut c = Case::new("sem", Cmd::new(Sub::None));
    c.cmd.style = r.u64();
    c.cmd.no_prelude = r.pct(15);
    let ids: Vec<String> = (0..n).map(|i| if r.pct(12) { format!("{PRE}{}", r.pick(&["string", "unit", "u8"])) } else { format!("https://ex.org/D{i}") }).collect();
    let named: Vec<bool> = (0..n).map(|_| r.pct(80)).collect();
    let mut nested: Vec<String> = vec![];
    let careless = r.pct(20);
    for i in 0..n {
        let mut e = vec![("type".to_string(), s("record"))];
        if named[i] {
            let id = if r.pct(4) { ids[0].clone() } else { ids[i].clone() };
            e.push(("id".to_string(), s(&id)));
        }
        let target = match r.below(4) {
            0 => {
                let known: Vec<&String> = ids.iter().zip(&named).filter(|x| careless || *x.1).map(|x| x.0).collect();
                if known.is_empty() { s(&format!("{PRE}string")) } else { s(r.pick(&known)) }
            }
            1 => s(&format!("{PRE}string")),
            2 => {
                nested.push(format!("https://ex.org/N{i}"));
                J::Obj(vec![("type".into(), s("string")), ("id".into(), s(&format!("https://ex.org/N{i}")))])
            }
            _ if careless || nested.is_empty() => s(r.pick(&["https://ex.org/N0", "https://ex.org/N1", "https://ex.org/undefined"])),
            _ => s(r.pick(&nested)),
        };
        let f = J::Obj(vec![("property".into(), s(&format!("https://ex.org/from{i}"))), ("value".into(), target)]);
        e.push(("fields".to_string(), J::Obj(vec![("a".to_string(), f)])));
        let mut j = J::Obj(e);
        if r.pct(10) {
            j = J::Obj(vec![("type".into(), s("string")), ("id".into(), s(&ids[i]))]);
        }
        if r.pct(4) {
            j = J::Bool(r.pct(50));
        }
        c.files.push((format!("sim_{i}.json"), print(r, &j)));
        if r.pct(50) {
            c.cmd.mains.push(i)
        } else {
            c.cmd.includes.push(i)
        }
    }
    if !careless && r.pct(40) {
        // exactly one main file
        let mut all: Vec<usize> = c.cmd.mains.iter().chain(&c.cmd.includes).copied().collect();
        c.cmd.mains = vec![all.remove(r.below(all.len()))];
        c.cmd.includes = all;
    }
    if r.pct(4) {
        // the same file twice
        let i = r.below(n);
        c.cmd.includes.push(i);
    }
    if r.pct(2) {
        c.cmd.includes.push(99);
    }
    let mut order = c.cmd.mains.clone();
    r.shuffle(&mut order);
    c.cmd.mains = order;
    r.shuffle(&mut c.cmd.includes);
    let layout = match r.below(12) {
        0..=3 => None,
        4 if careless => Some("https://ex.org/undefined".to_string()),
        5 => Some(format!("{PRE}{}", r.pick(&["string", "unit", "u8", "nothing"]))),
        6 => Some(format!("https://ex.org/N{}", r.below(n))),
        _ => Some(r.pick(&ids).clone()),
    };
    let v = match r.below(8) {
        0 => Val::Str("text".into()),
        1 | 3 => Val::Map([(Val::Str("a".into()), Val::Map([(Val::Str("a".into()), Val::Str("deep".into()))].into()))].into()),
        2 => Val::Map(Default::default()),
        _ => Val::Map([(Val::Str("a".into()), Val::Str("text".into()))].into()),
    };
    if r.pct(8) {
        return c; // no command: only reads the files
    }
    c.cmd.sub = Sub::Dehydrate { layout: layout.clone(), cbor: false };
    c.stdin = tree_bytes(r, &v, false);
    if r.pct(30) {
        // the same through hydration
        let mut d = Data::new();
        let sub = Term::Iri("https://ex.org/me".into());
        for i in 0..n {
            if r.pct(60) {
                let o = if r.pct(70) { Term::Lit("t".into(), Ok(format!("{XSD}string"))) } else { Term::Blank("x".into()) };
                d.insert((sub.clone(), Term::Iri(format!("https://ex.org/from{i}")), o, None));
            }
        }
        c.cmd.sub = Sub::Hydrate { layout: layout.clone(), subjects: vec!["https://ex.org/me".into()], cbor: false, pretty: false };
        c.stdin = nq::text(&d).into_bytes();
    }
    if r.pct(60) {
        // what fits the designated layout
        let Ok((m, mains)) = crate::case::load(&c.files, &c.cmd) else { return c };
        let Ok(id) = crate::case::designated(&layout, &mains) else { return c };
        let Some(v) = crate::gen::value(r, &m, &id, &Opts { big: false, ..o.clone() }, 0) else { return c };
        match &mut c.cmd.sub {
            Sub::Hydrate { subjects, .. } => {
                let Ok((d, ts)) = refm::dehydrate(&m, &id, &v) else { return c };
                if ts.iter().any(|t| matches!(t, Term::Lit(..))) {
                    return c;
                }
                *subjects = ts.iter().map(|t| match t { Term::Iri(i) => i.clone(), t => nq::term_text(t, &mut None) }).collect();
                c.stdin = nq::text(&d).into_bytes();
            }
            _ => c.stdin = tree_bytes(r, &v, false),
        }
    }
    c
}

/// A mistake in a layout file.
fn regex(r: &mut Rng) -> String {
    (0..r.below(7)).map(|_| *r.pick(&["a", "b|c", "(a|b)", "[a-z]", "[^x]", "*", "+", "?", ".", "(", ")", "[", "]", "\\", "\\n", "é", "[]", "()", "[z-a]", "{2,3}", "\\u{41}", "-"])).collect()
}

pub fn mistake(r: &mut Rng, c: &mut Case) {
    if c.files.is_empty() {
        return;
    }
    let i = r.below(c.files.len());
    let mut j = match json::parse(&c.files[i].1) {
        Ok(j) => j,
        Err(_) => return,
    };
    // Collect the objects and the strings.
    fn walk<'a>(j: &'a mut J, f: &mut dyn FnMut(&mut J, &mut usize), n: &mut usize) {
        f(j, n);
        match j {
            J::Arr(a) => a.iter_mut().for_each(|x| walk(x, f, n)),
            J::Obj(o) => o.iter_mut().for_each(|x| walk(&mut x.1, f, n)),
            _ => (),
        }
    }
    let what = r.below(12);
    let mut total = 0;
    let mut places = vec![];
    walk(
        &mut j,
        &mut |x, n| {
            let fits = match what {
                0 | 1 | 2 | 7 | 10 | 11 => matches!(x, J::Obj(_)),
                3 | 4 | 9 => matches!(x, J::Str(_)),
                8 => matches!(x, J::Arr(_)),
                _ => true,
            };
            if fits {
                places.push(*n);
            }
            *n += 1
        },
        &mut total,
    );
    if places.is_empty() {
        return;
    }
    let at = *r.pick(&places);
    let mut k = 0;
    let mut rr = Rng::new(r.u64());
    walk(
        &mut j,
        &mut |x, n| {
            if *n == at {
                match (what, &mut *x) {
                    (0, J::Obj(o)) => o.push(("unknown".into(), J::Num("1".into()))),
                    (1, J::Obj(o)) if !o.is_empty() => {
                        let e = rr.pick(o).clone();
                        o.push(e)
                    }
                    (2, J::Obj(o)) if !o.is_empty() => {
                        let k = rr.below(o.len());
                        o.remove(k);
                    }
                    (3, J::Str(t)) => *t = "_:undeclared".into(),
                    (4, J::Str(t)) => *t = rr.pick(&["nowhere:x", "relative", "not an iri", "", "#frag", "record", "https://ex.org/nothing"]).to_string(),
                    (5, _) => *x = J::Null,
                    (6, _) => *x = rr.pick(&[J::Num("3".into()), J::Bool(true), J::Arr(vec![]), J::Obj(vec![])]).clone(),
                    (7, J::Obj(o)) if !o.is_empty() => {
                        let k = rr.below(o.len());
                        o[k].0.push('x');
                    }
                    (9, J::Str(t)) => *t = rr.pick(&["a b", "-x", "é.x", "_:a.b", "_:", "_:-a", "_:a b", "_:a_0-é", "", ".", "\u{300}"]).to_string(),
                    (10, J::Obj(o)) => o.push(("pattern".into(), s(&regex(&mut rr)))),
                    (11, J::Obj(o)) => o.insert(0, (rr.pick(&["Type", "fieldz", "value", "datatype", "resource", "const", "items", "item", "property", "layout", "required"]).to_string(), J::Null)),
                    (8, J::Arr(a)) if !a.is_empty() => {
                        a.pop();
                    }
                    _ => (),
                }
            }
            *n += 1;
        },
        &mut k,
    );
    c.files[i].1 = print(r, &j);
}

/// Values whose parts are easily merged: equal parts, many introduced resources, given names.
/// More introduced resources than small counters count.
fn crowd(r: &mut Rng) -> Case {
    let p = |t: &str| format!("https://ex.org/{t}");
    let root = J::Obj(vec![
        ("type".into(), s("set")),
        (
            "item".into(),
            J::Obj(vec![
                ("intro".into(), s("i")),
                ("dataset".into(), J::Arr(vec![J::Arr(vec![s("_:self"), s(&p("i")), s("_:i")])])),
                (
                    "value".into(),
                    J::Obj(vec![
                        (
                            "layout".into(),
                            J::Obj(vec![
                                ("type".into(), s("record")),
                                ("fields".into(), J::Obj(vec![("n".into(), J::Obj(vec![("property".into(), s(&p("n"))), ("value".into(), s(&format!("{PRE}string")))]))])),
                            ]),
                        ),
                        ("input".into(), s("_:i")),
                    ]),
                ),
            ]),
        ),
    ]);
    let mut c = Case::new("sem", Cmd::new(Sub::Dehydrate { layout: None, cbor: false }));
    c.cmd.mains = vec![0];
    c.files.push(("sim_0.json".into(), print(r, &root)));
    let n = *r.pick(&[255, 4096, 10_000, 32_767, 65_535, 65_535]) + r.below(9);
    let t: Vec<String> = (0..n).map(|i| format!("{{\"n\":\"{i}\"}}")).collect();
    c.stdin = format!("[{}]", t.join(",")).into_bytes();
    c
}

fn fresh_names(r: &mut Rng, o: Opts) -> Case {
    if r.pct(2) && r.pct(4) {
        return crowd(r);
    }
    let leaf = |r: &mut Rng| -> J {
        match r.below(4) {
            0 => s(&format!("{PRE}string")),
            1 => s(&format!("{PRE}u8")),
            2 => s(&format!("{PRE}id")),
            _ => J::Obj(vec![
                ("type".into(), s("record")),
                ("intro".into(), s("extra")),
                ("dataset".into(), J::Arr(vec![J::Arr(vec![s("_:self"), s("https://ex.org/link"), s("_:extra")])])),
                (
                    "fields".into(),
                    J::Obj(vec![
                        ("n".into(), J::Obj(vec![("property".into(), s("https://ex.org/n")), ("value".into(), s(&format!("{PRE}string")))])),
                        (
                            "id".into(),
                            J::Obj(vec![
                                ("intro".into(), J::Arr(vec![])),
                                ("value".into(), J::Obj(vec![("layout".into(), s(&format!("{PRE}id"))), ("input".into(), s(if r.pct(70) { "_:self" } else { "_:extra" }))])),
                            ]),
                        ),
                    ]),
                ),
            ]),
        }
    };
    if r.pct(35) {
        return dehydrate_case(r, "sem", Opts { width: 8, ..o });
    }
    let item = leaf(r);
    let item2 = leaf(r);
    let root = match r.below(4) {
        0 => J::Obj(vec![("type".into(), s("set")), ("item".into(), J::Obj(vec![("property".into(), s("https://ex.org/item")), ("value".into(), item)]))]),
        1 => J::Obj(vec![("type".into(), s("list")), ("node".into(), item)]),
        2 => J::Obj(vec![
            ("type".into(), s("record")),
            (
                "fields".into(),
                J::Obj(vec![
                    ("l".into(), J::Obj(vec![("property".into(), s("https://ex.org/l")), ("value".into(), J::Obj(vec![("type".into(), s("list")), ("node".into(), item)]))])),
                    (
                        "m".into(),
                        J::Obj(vec![
                            ("property".into(), s("https://ex.org/m")),
                            (
                                "value".into(),
                                J::Obj(vec![("type".into(), s("set")), ("item".into(), J::Obj(vec![("property".into(), s("https://ex.org/item")), ("value".into(), item2)]))]),
                            ),
                        ]),
                    ),
                ]),
            ),
        ]),
        _ => J::Obj(vec![
            ("type".into(), s("set")),
            (
                "item".into(),
                J::Obj(vec![
                    ("intro".into(), J::Arr(vec![s("mid"), s("value")])),
                    ("dataset".into(), J::Arr(vec![J::Arr(vec![s("_:self"), s("https://ex.org/a"), s("_:mid")]), J::Arr(vec![s("_:mid"), s("https://ex.org/b"), s("_:value")])])),
                    ("value".into(), J::Obj(vec![("type".into(), s("list")), ("node".into(), item)])),
                ]),
            ),
        ]),
    };
    let mut c = Case::new("sem", Cmd::new(Sub::None));
    c.cmd.mains = vec![0];
    c.files.push(("sim_0.json".into(), print(r, &root)));
    let o = Opts { width: *r.pick(&[2, 5, 9, 14]), big: r.pct(4), ..o };
    let v = load(&c.files, &c.cmd).ok().and_then(|(l, ids)| value(r, &l, &ids[0], &o, 0)).unwrap_or(Val::Unit);
    // Equal parts must stay apart: repeat some.
    let v = match v {
        Val::List(mut l) if !l.is_empty() && r.pct(60) => {
            for _ in 0..r.range(1, 3) {
                let x = r.pick(&l).clone();
                l.push(x);
            }
            Val::List(l)
        }
        v => v,
    };
    let cbor = r.pct(15);
    c.cmd.sub = Sub::Dehydrate { layout: None, cbor };
    c.stdin = tree_bytes(r, &v, cbor);
    c
}

/// Data that could keep a program busy, and hostile slicing.
fn obj(e: Vec<(&str, J)>) -> J {
    J::Obj(e.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

/// Layouts that are parts of each other, in a ring: what is a part of itself without end must be
/// refused, and what only looks like it is not.
fn ring(r: &mut Rng, kind: &str, write: bool) -> Case {
    let name = |i: usize| s(&format!("https://ex.org/T{i}"));
    let g = |i: usize| Term::Iri(format!("https://ex.org/g{i}"));
    let p = |i: usize| Term::Iri(format!("https://ex.org/p{i}"));
    let k = r.range(1, 4);
    let plain = r.pct(30);
    // The same resource in one graph after another.
    let walk = !write && !plain && r.pct(45);
    let mut c = Case::new(kind, Cmd::new(Sub::None));
    // A way to a layout of the ring: through a property or on the same resource, in another graph or not.
    let part = |r: &mut Rng, to: usize, stay: usize| {
        let mut value = vec![("layout".to_string(), name(to))];
        let mut e = vec![];
        if r.pct(if walk { 85 } else { stay }) {
            value.push(("input".into(), s("_:self")));
            if !walk && r.pct(50) {
                e.push(("intro".to_string(), J::Arr(vec![])));
                if r.pct(50) {
                    e.push(("dataset".to_string(), J::Arr(vec![J::Arr(vec![s("_:self"), s("https://ex.org/p0"), s("https://ex.org/C0")])])));
                }
            } else {
                e.push(("property".to_string(), s("https://ex.org/p1")));
            }
        } else {
            value.push(("input".into(), s("_:value")));
            e.push(("property".to_string(), s(&format!("https://ex.org/p{}", r.range(1, 3)))));
        }
        if !plain && r.pct(if walk { 90 } else { 60 }) {
            value.push(("graph".into(), if r.pct(20) { J::Null } else { s(&format!("https://ex.org/g{}", r.below(3))) }));
        }
        e.push(("value".into(), J::Obj(value)));
        e
    };
    let mut shapes = vec![];
    for i in 0..k {
        let to = |r: &mut Rng| if r.pct(75) { (i + 1) % k } else { r.below(k) };
        let leaf = *r.pick(&["string", "id", "unit"]);
        let leaf_value = match leaf {
            "string" => "\"x\"",
            "id" => "\"https://ex.org/r1\"",
            _ => "null",
        };
        let leaf = obj(vec![("type", s(leaf))]);
        let leaf = obj(vec![("value", obj(vec![("layout", leaf), ("input", s("_:self"))]))]);
        let t = to(r);
        let shape = if walk { *r.pick(&[4, 4, 7, 0]) } else { r.below(8) };
        shapes.push((shape, t, leaf_value));
        let mut l = match shape {
            0..=3 => {
                let mut vs = vec![("a".to_string(), J::Obj(variant(part(r, t, 60))))];
                if r.pct(70) {
                    vs.push(("b".into(), leaf));
                }
                if r.pct(30) {
                    let t = to(r);
                    vs.push(("c".into(), J::Obj(variant(part(r, t, 40)))));
                }
                if r.pct(50) {
                    vs.reverse();
                }
                vec![("type".to_string(), s("sum")), ("variants".into(), J::Obj(vs))]
            }
            4 => {
                let mut f = part(r, t, 30);
                if walk || r.pct(70) {
                    f.push(("required".into(), J::Bool(!walk && r.pct(30))));
                }
                vec![("type".to_string(), s("record")), ("fields".into(), J::Obj(vec![("k".into(), J::Obj(f))]))]
            }
            5 => vec![("type".to_string(), s("tuple")), ("items".into(), J::Arr(vec![J::Obj(part(r, t, 30))]))],
            6 => vec![("type".to_string(), s("list")), ("node".into(), obj(vec![("value", name(t))]))],
            _ => vec![("type".to_string(), s("set")), ("item".into(), J::Obj(part(r, t, 15)))],
        };
        l.push(("id".into(), name(i)));
        c.files.push((format!("sim_{i}.json"), print(r, &J::Obj(l))));
    }
    c.cmd.mains = (0..k).collect();
    let layout = Some("https://ex.org/T0".to_string());
    if write {
        c.cmd.sub = Sub::Dehydrate { layout, cbor: false };
        fn value(r: &mut Rng, shapes: &[(usize, usize, &str)], i: usize, fuel: usize) -> String {
            let (shape, t, leaf) = shapes[i];
            let stop = fuel == 0 || r.pct(20);
            match shape {
                0..=3 if stop => leaf.to_string(),
                0..=3 => value(r, shapes, t, fuel - 1),
                4 if stop => "{}".into(),
                4 => format!("{{\"k\":{}}}", value(r, shapes, t, fuel - 1)),
                5 if stop => "[null]".into(),
                6 | 7 if stop => "[]".into(),
                6 | 7 if r.pct(30) => format!("[{},{}]", value(r, shapes, t, fuel - 1), value(r, shapes, t, fuel / 2)),
                _ => format!("[{}]", value(r, shapes, t, fuel - 1)),
            }
        }
        let fuel = r.below(9);
        let t = value(r, &shapes, 0, fuel);
        c.stdin = t.into_bytes();
    } else {
        let nodes = r.range(1, 5);
        let node = |i: usize| match i {
            0 => Term::Iri("https://ex.org/r0".into()),
            _ => Term::Blank(format!("b{i}")),
        };
        let mut d = Data::new();
        let flat = plain || r.pct(20);
        if walk {
            for q in 1..4 {
                for g in [None, Some(g(0)), Some(g(1)), Some(g(2))] {
                    if r.pct(if g.is_none() { 80 } else { 35 }) {
                        d.insert((node(0), p(q), node(r.below(nodes)), g));
                    }
                }
            }
        }
        let more = if walk { r.below(3) } else { r.range(0, 2 + nodes * 3) };
        for _ in 0..more {
            let i = r.below(nodes);
            let j = if r.pct(60) { (i + 1).min(nodes - 1) } else { r.below(nodes) };
            let o = match r.below(8) {
                0 => Term::Lit("v".into(), Ok(format!("{XSD}string"))),
                1 => Term::Iri("https://ex.org/C0".into()),
                _ => node(j),
            };
            let q = if r.pct(12) { Term::Iri(format!("{}{}", nq::RDF, r.pick(&["first", "rest"]))) } else { p(if matches!(&o, Term::Iri(x) if x.ends_with("C0")) { 0 } else { r.range(1, 3) }) };
            let gs: Vec<Option<Term>> = match r.below(4) {
                _ if flat => vec![None],
                0 => vec![None],
                1 => vec![Some(g(r.below(3)))],
                _ => vec![None, Some(g(0)), Some(g(1)), Some(g(2))],
            };
            for g in gs {
                d.insert((node(i), q.clone(), o.clone(), g));
            }
        }
        let subject = if r.pct(98) { "https://ex.org/r0".to_string() } else { format!("\"v\"^^<{XSD}string>") };
        c.cmd.sub = Sub::Hydrate { layout, subjects: vec![subject], cbor: r.pct(15), pretty: false };
        c.stdin = nq::noisy_text(&d, r).into_bytes();
    }
    c.n = 4000;
    c
}

/// A component as a variant, which has no property.
fn variant(e: Vec<(String, J)>) -> Vec<(String, J)> {
    let mut out = vec![];
    for (k, v) in e {
        if k == "property" {
            out.push(("intro".into(), J::Arr(vec![s("value")])));
            out.push(("dataset".into(), J::Arr(vec![J::Arr(vec![s("_:self"), v, s("_:value")])])));
        } else {
            out.push((k, v));
        }
    }
    out
}

fn bounded(r: &mut Rng, o: Opts) -> Case {
    let p = |x: &str| Term::Iri(format!("https://ex.org/{x}"));
    let rdf = |x: &str| Term::Iri(format!("{}{x}", nq::RDF));
    let b = |i: usize| Term::Blank(format!("b{i}"));
    let lit = |i: usize| Term::Lit(format!("v{i}"), Ok(format!("{XSD}string")));
    let mut c = Case::new("bound", Cmd::new(Sub::None));
    let list = J::Obj(vec![("type".into(), s("list")), ("node".into(), s(&format!("{PRE}string")))]);
    let set_of = |x: J| J::Obj(vec![("type".into(), s("set")), ("item".into(), J::Obj(vec![("property".into(), s("https://ex.org/p")), ("value".into(), x)]))]);
    let kind = r.below(21);
    c.cmd.mains = vec![0];
    let n = *r.pick(&[1, 2, 3, 5, 17, 60, 200]);
    match kind {
        0 | 1 => {
            // a chain of list nodes, closed in some way
            let mut d = Data::new();
            for i in 0..n {
                d.insert((b(i), rdf("first"), lit(i), None));
                d.insert((b(i), rdf("rest"), if i + 1 < n { b(i + 1) } else { rdf("nil") }, None));
            }
            if kind == 1 {
                d.remove(&(b(n - 1), rdf("rest"), rdf("nil"), None));
                d.insert((b(n - 1), rdf("rest"), b(r.below(n)), None));
            }
            if r.pct(15) {
                // nil has a rest as well
                d.insert((rdf("nil"), rdf("rest"), b(0), None));
                d.insert((rdf("nil"), rdf("first"), lit(0), None));
            }
            c.files.push(("sim_0.json".into(), print(r, &list)));
            c.cmd.sub = Sub::Hydrate { layout: None, subjects: vec!["_:b0".into()], cbor: r.pct(20), pretty: false };
            c.stdin = nq::noisy_text(&d, r).into_bytes();
        }
        2 => {
            // a set whose items lead back
            let mut d = Data::new();
            for i in 0..n.min(60) {
                d.insert((b(0), p("p"), b(i), None));
                d.insert((b(i), p("p"), b(0), None));
            }
            let inner = set_of(J::Obj(vec![("type".into(), s("unit"))]));
            c.files.push(("sim_0.json".into(), print(r, &set_of(inner))));
            c.cmd.sub = Sub::Hydrate { layout: None, subjects: vec!["_:b0".into()], cbor: false, pretty: false };
            c.stdin = nq::noisy_text(&d, r).into_bytes();
            c.n = 2000;
        }
        3 => {
            // lists shared between the items of a set
            let mut d = Data::new();
            let m = n.min(60);
            for i in 0..m {
                d.insert((b(1000), p("p"), b(i), None));
                d.insert((b(i), rdf("first"), lit(i), None));
                d.insert((b(i), rdf("rest"), if i + 1 < m { b(i + 1) } else { rdf("nil") }, None));
            }
            if r.pct(40) {
                d.remove(&(b(m - 1), rdf("rest"), rdf("nil"), None));
                d.insert((b(m - 1), rdf("rest"), b(r.below(m)), None));
            }
            c.files.push(("sim_0.json".into(), print(r, &set_of(list))));
            c.cmd.sub = Sub::Hydrate { layout: None, subjects: vec!["_:b1000".into()], cbor: false, pretty: false };
            c.stdin = nq::noisy_text(&d, r).into_bytes();
            c.n = 4000;
        }
        4 => {
            // custom nodes with a self-referencing statement
            let j = J::Obj(vec![
                ("type".into(), s("list")),
                (
                    "node".into(),
                    J::Obj(vec![
                        ("dataset".into(), J::Arr(vec![J::Arr(vec![s("_:head"), s("https://ex.org/next"), s("_:rest")]), J::Arr(vec![s("_:head"), s("https://ex.org/v"), s("_:value")])])),
                        ("value".into(), s(&format!("{PRE}string"))),
                    ]),
                ),
                ("tail".into(), s("https://ex.org/end")),
            ]);
            let mut d = Data::new();
            let m = n.min(80);
            for i in 0..m {
                let next = if i + 1 < m { b(i + 1) } else if r.pct(50) { p("end") } else { b(r.below(m)) };
                d.insert((b(i), p("next"), next, None));
                d.insert((b(i), p("v"), lit(i), None));
            }
            c.files.push(("sim_0.json".into(), print(r, &j)));
            c.cmd.sub = Sub::Hydrate { layout: None, subjects: vec!["_:b0".into()], cbor: false, pretty: false };
            c.stdin = nq::noisy_text(&d, r).into_bytes();
        }
        5 => {
            let big = r.pct(30);
            let mut x = dehydrate_case(r, "bound", Opts { big, ..o });
            x.n = 300;
            c = x;
        }
        6 => {
            let mut x = hydrate_case(r, "bound", Opts { big: false, ..o });
            x.n = 4000;
            c = x;
        }
        7 => {
            c = convert_case(r, "bound");
        }
        8 => {
            c = crate::codegen::case(r, "bound");
        }
        13 => {
            // anything, with something wrong in it
            c = any_case(r, "bound");
            damage(r, &mut c);
            c.n = 300;
        }
        14 | 15 => {
            c = designation(r, o);
            if r.pct(50) {
                mistake(r, &mut c);
            }
            c.kind = "bound".into();
            c.n = 300;
        }
        16 => {
            // a dataset whose parts are tied together
            let w = world(r, Opts { big: false, ..o });
            let (d, subs) = dataset(r, &w);
            let d = d.into_iter().take(120).collect();
            let d = mutate_data(r, &d, &[7, 8, 9, 9]);
            let d = mutate_data(r, &d, &[7, 8, 9, 9, 1]);
            let subjects = subject_args(r, &subs, &d);
            c = w.case("bound", Sub::Hydrate { layout: w.layout.clone(), subjects, cbor: r.pct(25), pretty: false });
            c.stdin = nq::noisy_text(&d, r).into_bytes();
            c.n = 4000;
        }
        17 => {
            // very deep
            let depth = if r.pct(60) { r.range(100, 900) } else { *r.pick(&[1500, 3000, 20_000]) };
            let (a, z) = *r.pick(&[("[", "]"), ("{\"k\":", "}")]);
            let text = format!("{}{}{}", a.repeat(depth), if r.pct(70) { "1" } else { "" }, z.repeat(depth)).into_bytes();
            match r.below(4) {
                0 => {
                    c.cmd = Cmd::new(Sub::ConvTree { from_cbor: false, to_cbor: r.pct(50), pretty: false });
                    c.stdin = text;
                }
                1 => {
                    // CBOR, one list in another
                    c.cmd = Cmd::new(Sub::ConvTree { from_cbor: true, to_cbor: r.pct(50), pretty: false });
                    c.stdin = vec![*r.pick(&[0x81, 0x9f, 0xc1]); depth];
                    c.stdin.push(1);
                }
                2 => {
                    c.files.push(("sim_0.json".into(), print(r, &list)));
                    c.cmd.sub = Sub::Dehydrate { layout: None, cbor: false };
                    c.stdin = text;
                }
                _ => {
                    let l = obj(vec![("id", s("https://ex.org/T")), ("type", s("record")), ("fields", obj(vec![("k", obj(vec![("property", s("https://ex.org/p")), ("value", s("https://ex.org/T"))]))]))]);
                    c.files.push(("sim_0.json".into(), print(r, &l)));
                    let mut d = String::new();
                    for i in 0..depth.min(500) {
                        d.push_str(&format!("_:b{i} <https://ex.org/p> _:b{} .\n", i + 1));
                    }
                    c.cmd.sub = Sub::Hydrate { layout: None, subjects: vec!["_:b0".into()], cbor: r.pct(20), pretty: false };
                    c.stdin = d.into_bytes();
                }
            }
            c.n = 20_000;
        }
        18 => {
            // layouts of layouts
            let t = *r.pick(&["union", "intersection", "sum"]);
            let part = |r: &mut Rng| obj(vec![("type", s(r.pick(&["string", "id", "unit", "boolean"])))]);
            let l = match r.below(3) {
                0 => obj(vec![("type", s(t)), ("layouts", J::Arr(vec![part(r), part(r)]))]),
                1 => obj(vec![("type", s(t))]),
                _ => obj(vec![("type", s("list")), ("node", obj(vec![("type", s(t)), ("layouts", J::Arr(vec![part(r)]))]))]),
            };
            c.files.push(("sim_0.json".into(), print(r, &l)));
            c.cmd.sub = Sub::Dehydrate { layout: None, cbor: false };
            c.stdin = b"\"x\"".to_vec();
        }
        19 if r.pct(70) => {
            let write = r.pct(50);
            c = ring(r, "bound", write);
        }
        19 => {
            // a layout that is a part of itself without anything between
            let me = || s("https://ex.org/T");
            let v = |l: J| obj(vec![("value", obj(vec![("layout", l), ("input", s("_:self"))]))]);
            let part = |r: &mut Rng, l: J| {
                let p = if r.pct(60) { ("property", s("https://ex.org/p")) } else { ("intro", J::Arr(vec![])) };
                let input = if p.0 == "intro" { "_:self" } else { "_:value" };
                obj(vec![p, ("value", obj(vec![("layout", l), ("input", s(input))]))])
            };
            let l = match r.below(4) {
                0 => obj(vec![("type", s("sum")), ("variants", obj(vec![("a", v(me())), ("b", v(obj(vec![("type", s("string"))])))]))]),
                1 => obj(vec![("type", s("record")), ("fields", obj(vec![("k", part(r, me()))]))]),
                2 => obj(vec![("type", s("tuple")), ("items", J::Arr(vec![part(r, me())]))]),
                _ => obj(vec![("type", s("set")), ("item", part(r, me()))]),
            };
            let mut e = match l {
                J::Obj(e) => e,
                _ => vec![],
            };
            e.push(("id".into(), me()));
            c.files.push(("sim_0.json".into(), print(r, &J::Obj(e))));
            if r.pct(50) {
                c.cmd.sub = Sub::Dehydrate { layout: None, cbor: false };
                c.stdin = r.pick(&["\"x\"", "{}", "{\"k\":{}}", "[]", "[[]]", "[[[]],[]]", "{\"k\":{\"k\":{\"k\":1}}}"]).as_bytes().to_vec();
            } else {
                let k = r.range(1, 5);
                let mut d = Data::new();
                for i in 0..r.range(1, 6) {
                    d.insert((b(i % k), p("p"), if r.pct(90) { b(r.below(k)) } else { lit(0) }, None));
                }
                c.cmd.sub = Sub::Hydrate { layout: None, subjects: vec!["_:b0".into()], cbor: false, pretty: false };
                c.stdin = nq::noisy_text(&d, r).into_bytes();
            }
            c.n = 4000;
        }
        20 => {
            // many ways to match, all refused as soon as there are two
            let k = r.range(1, 5);
            let m = r.range(1, 14);
            let vars: Vec<String> = (0..k).map(|i| format!("v{i}")).collect();
            let mut q: Vec<J> = vec![];
            let chain = r.pct(40);
            for (i, v) in vars.iter().enumerate() {
                let from = if chain && i > 0 { format!("_:v{}", i - 1) } else { "_:self".into() };
                q.push(J::Arr(vec![s(&from), s(&format!("https://ex.org/q{}", if chain { 0 } else { i })), s(&format!("_:{v}"))]));
            }
            r.shuffle(&mut q);
            let intro = J::Arr(vars.iter().map(|v| s(v)).collect());
            let leaf = obj(vec![("type", s("unit"))]);
            let part = || {
                let mut e = vec![("intro", intro.clone()), ("dataset", J::Arr(q.clone()))];
                e.push(("value", obj(vec![("layout", leaf.clone()), ("input", s(&format!("_:v{}", k - 1)))])));
                obj(e)
            };
            let l = match r.below(5) {
                0 => obj(vec![("type", s("record")), ("intro", intro.clone()), ("dataset", J::Arr(q.clone()))]),
                1 => obj(vec![("type", s("record")), ("fields", obj(vec![("k", part())]))]),
                2 => obj(vec![("type", s("tuple")), ("items", J::Arr(vec![part()]))]),
                3 => obj(vec![("type", s("sum")), ("variants", obj(vec![("a", part())]))]),
                _ => obj(vec![("type", s("unit")), ("intro", intro.clone()), ("dataset", J::Arr(q.clone()))]),
            };
            c.files.push(("sim_0.json".into(), print(r, &l)));
            let mut d = Data::new();
            for i in 0..k {
                for j in 0..m {
                    if chain {
                        d.insert((b(if i == 0 { 0 } else { 100 * i + r.below(m) }), p("q0"), b(100 * (i + 1) + j), None));
                    } else {
                        d.insert((b(0), p(&format!("q{i}")), b(100 + j), None));
                    }
                }
            }
            // The one without a match may come last.
            if r.pct(30) {
                let last = p(&format!("q{}", k - 1));
                d.retain(|q| q.1 != last);
            }
            c.cmd.sub = Sub::Hydrate { layout: None, subjects: vec!["_:b0".into()], cbor: false, pretty: false };
            c.stdin = nq::noisy_text(&d, r).into_bytes();
            c.n = 400;
        }
        9 | 10 => {
            // sums of sums: whatever is tried at one level must not be tried again at each level
            let depth = r.range(6, 26);
            let int = || obj(vec![("type", s("number")), ("datatype", s("http://www.w3.org/2001/XMLSchema#int"))]);
            let end = r.below(4);
            let mut l = match end {
                0 => obj(vec![("type", s("string"))]),
                1 => obj(vec![("type", s("id"))]),
                2 => obj(vec![("type", s("tuple")), ("items", J::Arr(vec![obj(vec![("property", s("https://ex.org/p")), ("value", s(&format!("{PRE}string")))])]))]),
                _ => obj(vec![("type", s("record")), ("fields", obj(vec![("k", obj(vec![("property", s("https://ex.org/p")), ("value", s(&format!("{PRE}string")))]))]))]),
            };
            for _ in 0..depth {
                let next = obj(vec![("value", obj(vec![("layout", l), ("input", s("_:self"))]))]);
                let other = obj(vec![("value", obj(vec![("layout", int()), ("input", s("_:self"))]))]);
                let vs = if r.pct(50) { vec![("a", next), ("b", other)] } else { vec![("a", other), ("b", next)] };
                l = obj(vec![("type", s("sum")), ("variants", obj(vs))]);
            }
            c.files.push(("sim_0.json".into(), print(r, &l)));
            if kind == 9 {
                c.cmd.sub = Sub::Hydrate { layout: None, subjects: vec![r.pick(&["https://ex.org/s", "\"12\"^^<http://www.w3.org/2001/XMLSchema#int>", "\"x\""]).to_string()], cbor: false, pretty: false };
                let mut d = Data::new();
                for i in 0..r.below(3) {
                    d.insert((nq::Term::Iri("https://ex.org/s".into()), p("p"), lit(i), None));
                }
                c.stdin = nq::noisy_text(&d, r).into_bytes();
            } else {
                c.cmd.sub = Sub::Dehydrate { layout: None, cbor: false };
                c.stdin = r.pick(&["\"x\"", "\"https://ex.org/x\"", "[\"x\"]", "{\"k\":\"v\"}", "true", "12", "[]", "{\"k\":1}"]).as_bytes().to_vec();
            }
        }
        _ => {
            // a recursive layout, and data as deep as it goes
            let depth = r.range(3, 40);
            let item = || obj(vec![("property", s("https://ex.org/p")), ("value", s("https://ex.org/T"))]);
            let shape = r.below(3);
            let node = match shape {
                0 => obj(vec![("type", s("tuple")), ("items", J::Arr(vec![item()]))]),
                1 => obj(vec![("type", s("record")), ("fields", obj(vec![("k", item())]))]),
                _ => obj(vec![("type", s("set")), ("item", item())]),
            };
            let leaf = obj(vec![("type", s("string"))]);
            let v = |l: J| obj(vec![("value", obj(vec![("layout", l), ("input", s("_:self"))]))]);
            let vs = if r.pct(50) { vec![("leaf", v(leaf)), ("node", v(node))] } else { vec![("a", v(node)), ("b", v(leaf))] };
            let l = obj(vec![("id", s("https://ex.org/T")), ("type", s("sum")), ("variants", obj(vs))]);
            c.files.push(("sim_0.json".into(), print(r, &l)));
            let good = r.pct(60);
            // A set matches a leaf as well, being empty: what is below stays refused.
            if kind == 11 {
                c.cmd.sub = Sub::Dehydrate { layout: None, cbor: false };
                let (a, z) = match shape {
                    1 => ("{\"k\":", "}"),
                    _ => ("[", "]"),
                };
                c.stdin = format!("{}{}{}", a.repeat(depth), if good { "\"x\"" } else { "1" }, z.repeat(depth)).into_bytes();
            } else {
                let mut d = Data::new();
                for i in 0..depth {
                    let o = if i + 1 == depth { if good { lit(0) } else { b(9999) } } else { b(i + 1) };
                    d.insert((b(i), p("p"), o, None));
                }
                c.cmd.sub = Sub::Hydrate { layout: None, subjects: vec!["_:b0".into()], cbor: r.pct(20), pretty: false };
                c.stdin = nq::noisy_text(&d, r).into_bytes();
            }
            c.n = 100;
        }
    }
    // Hostile slicing: byte by byte, storms of interruptions that stop.
    let storm = |r: &mut Rng, len: usize| -> Stream {
        let mut st = Stream::default();
        match r.below(4) {
            0 if len < 20_000 => st.chunk = 1,
            1 => {
                for _ in 0..r.range(10, 1500) {
                    st.ops.push(Op::Err(libc::EINTR as u32));
                }
                st.chunk = r.range(0, 9) as u32 * (len < 20_000) as u32;
            }
            2 => {
                for _ in 0..r.range(5, 400) {
                    st.ops.push(if r.pct(60) { Op::Err(libc::EINTR as u32) } else { Op::Xfer(1) });
                }
            }
            _ => return slicing(r, len),
        }
        st
    };
    c.plan.rand_seed = r.u64();
    c.plan.stdin = storm(r, c.stdin.len());
    c.plan.stdout = storm(r, 500);
    if r.pct(30) {
        c.plan.stderr = storm(r, 500);
    }
    for i in 0..c.files.len().min(MAX_FILES) {
        let mut f = storm(r, c.files[i].1.len());
        f.ops.truncate(MAX_FOPS);
        c.plan.files.push(f);
    }
    c
}
