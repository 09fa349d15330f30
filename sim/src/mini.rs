//! Minimisation: smaller cases that violate the property in the same way.

use crate::case::*;
use crate::json::{self, J};
use crate::os::*;
use std::time::Instant;

/// Smaller variants of a JSON tree.
pub fn shrink_json(j: &J) -> Vec<J> {
    let mut out = vec![];
    match j {
        J::Arr(a) => {
            if a.len() > 3 {
                out.push(J::Arr(a[..a.len() / 2].to_vec()));
                out.push(J::Arr(a[a.len() / 2..].to_vec()));
            }
            for i in 0..a.len() {
                let mut b = a.clone();
                b.remove(i);
                out.push(J::Arr(b));
            }
            for (i, x) in a.iter().enumerate() {
                for y in shrink_json(x) {
                    let mut b = a.clone();
                    b[i] = y;
                    out.push(J::Arr(b));
                }
            }
        }
        J::Obj(o) => {
            if o.len() > 3 {
                out.push(J::Obj(o[..o.len() / 2].to_vec()));
                out.push(J::Obj(o[o.len() / 2..].to_vec()));
            }
            for i in 0..o.len() {
                let mut b = o.clone();
                b.remove(i);
                out.push(J::Obj(b));
            }
            for (i, x) in o.iter().enumerate() {
                for y in shrink_json(&x.1) {
                    let mut b = o.clone();
                    b[i].1 = y;
                    out.push(J::Obj(b));
                }
            }
        }
        J::Str(s) if s.chars().count() > 3 && !s.contains(':') => {
            let n = s.chars().count();
            out.push(J::Str(s.chars().take(n / 2).collect()));
            out.push(J::Str(s.chars().skip(n / 2).collect()));
        }
        J::Num(n) if n.len() > 1 => {
            if n.parse::<i64>().is_ok_and(|x| x > 9) {
                out.push(J::Num(n[..n.len() / 2].into()));
            }
        }
        _ => (),
    }
    out
}

fn shrink_bytes(b: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    if let Ok(j) = json::parse(b) {
        let t = json::text(&j).into_bytes();
        if t != b {
            out.push(t);
        }
        out.extend(shrink_json(&j).iter().map(|j| json::text(j).into_bytes()));
        return out;
    }
    let lines: Vec<&[u8]> = b.split_inclusive(|c| *c == b'\n').collect();
    if lines.len() > 1 {
        let mut k = lines.len() / 2;
        while k >= 1 {
            let mut i = 0;
            while i < lines.len() {
                let rest: Vec<&[u8]> = lines[..i].iter().chain(&lines[(i + k).min(lines.len())..]).cloned().collect();
                out.push(rest.concat());
                i += k;
            }
            k /= 2;
        }
    } else if b.len() > 1 && b.len() < 4000 {
        let mut k = b.len() / 2;
        while k >= 1 {
            let mut i = 0;
            while i < b.len() {
                out.push([&b[..i], &b[(i + k).min(b.len())..]].concat());
                i += k;
            }
            k /= 2;
        }
    }
    out
}

fn shrink_stream(s: &Stream) -> Vec<Stream> {
    let mut out = vec![];
    if *s != Stream::default() {
        out.push(Stream::default());
    }
    if s.chunk > 0 {
        out.push(Stream { chunk: 0, ..s.clone() });
    }
    if s.fail.is_some() {
        out.push(Stream { fail: None, ..s.clone() });
        let (a, e) = s.fail.unwrap();
        if a > 0 {
            out.push(Stream { fail: Some((0, e)), ..s.clone() });
            out.push(Stream { fail: Some((a / 2, e)), ..s.clone() });
        }
    }
    if s.open.is_some() {
        out.push(Stream { open: None, ..s.clone() });
    }
    if !s.ops.is_empty() {
        out.push(Stream { ops: vec![], ..s.clone() });
        let n = s.ops.len();
        let mut k = n / 2;
        while k >= 1 {
            let mut i = 0;
            while i < n {
                let ops = [&s.ops[..i], &s.ops[(i + k).min(n)..]].concat();
                out.push(Stream { ops, ..s.clone() });
                i += k;
            }
            k /= 2;
        }
    }
    out
}

fn shrink_plan(p: &Plan) -> Vec<Plan> {
    let mut out = vec![];
    let d = Plan::default();
    if *p != d {
        out.push(d.clone());
    }
    out.extend(shrink_stream(&p.stdin).into_iter().map(|s| Plan { stdin: s, ..p.clone() }));
    out.extend(shrink_stream(&p.stdout).into_iter().map(|s| Plan { stdout: s, ..p.clone() }));
    out.extend(shrink_stream(&p.stderr).into_iter().map(|s| Plan { stderr: s, ..p.clone() }));
    if !p.files.is_empty() {
        out.push(Plan { files: vec![], ..p.clone() });
        for i in 0..p.files.len() {
            for s in shrink_stream(&p.files[i]) {
                let mut f = p.files.clone();
                f[i] = s;
                out.push(Plan { files: f, ..p.clone() });
            }
        }
    }
    for q in [
        Plan { alloc_fail: None, ..p.clone() },
        Plan { crash_call: None, ..p.clone() },
        Plan { rand_seed: d.rand_seed, ..p.clone() },
        Plan { clock_ns: d.clock_ns, clock_step: d.clock_step, ..p.clone() },
        Plan { heap_shift: 0, ..p.clone() },
        Plan { env: vec![], ..p.clone() },
    ] {
        if q != *p {
            out.push(q);
        }
    }
    out
}

fn candidates(c: &Case) -> Vec<Case> {
    let mut out = vec![];
    out.extend(shrink_plan(&c.plan).into_iter().map(|p| Case { plan: p, ..c.clone() }));
    out.extend(shrink_plan(&c.plan2).into_iter().map(|p| Case { plan2: p, ..c.clone() }));
    if c.stdin2.is_some() {
        out.push(Case { stdin2: None, ..c.clone() });
    }
    if c.cmd2.is_some() {
        out.push(Case { cmd2: None, ..c.clone() });
    }
    if c.cmd.style != 0 {
        out.push(Case { cmd: Cmd { style: 0, ..c.cmd.clone() }, ..c.clone() });
    }
    if c.kind == "pipe" && c.n != 0 {
        out.push(Case { n: 0, ..c.clone() });
    }
    for k in 0..c.cmd.includes.len() {
        let mut m = c.clone();
        m.cmd.includes.remove(k);
        out.push(m);
    }
    for k in 0..c.cmd.mains.len() {
        let mut m = c.clone();
        m.cmd.mains.remove(k);
        out.push(m);
    }
    // Files no command mentions (the last ones only, to keep the numbering).
    if !c.files.is_empty() && !c.cmd.mains.iter().chain(&c.cmd.includes).any(|i| *i == c.files.len() - 1) {
        let mut m = c.clone();
        m.files.pop();
        out.push(m);
    }
    if let Sub::Hydrate { layout, subjects, pretty: true, cbor } = &c.cmd.sub {
        out.push(Case { cmd: Cmd { sub: Sub::Hydrate { layout: layout.clone(), subjects: subjects.clone(), pretty: false, cbor: *cbor }, ..c.cmd.clone() }, ..c.clone() });
    }
    out.extend(shrink_bytes(&c.stdin).into_iter().map(|b| {
        let mut m = Case { stdin: b, ..c.clone() };
        if m.stdin2.is_some() {
            // Keep the same statements in the other order.
            let keep: std::collections::BTreeSet<&[u8]> = m.stdin.split(|c| *c == b'\n').collect();
            let s: Vec<u8> = m.stdin2.as_ref().unwrap().split_inclusive(|c| *c == b'\n').filter(|l| keep.contains(l.strip_suffix(b"\n").unwrap_or(l))).collect::<Vec<_>>().concat();
            m.stdin2 = Some(s);
        }
        m
    }));
    for i in 0..c.files.len() {
        for b in shrink_bytes(&c.files[i].1) {
            let mut m = c.clone();
            m.files[i].1 = b;
            out.push(m);
        }
    }
    out
}

/// `same(case)` says whether a case still violates the property in the same way.
pub fn minimise(c: &Case, deadline: Instant, same: &mut dyn FnMut(&Case) -> bool) -> Case {
    let mut best = c.clone();
    let mut from = 0;
    loop {
        let cs = candidates(&best);
        let n = cs.len();
        let mut found = None;
        for k in 0..n {
            let i = (from + k) % n;
            if Instant::now() > deadline {
                return best;
            }
            if same(&cs[i]) {
                found = Some((i, cs[i].clone()));
                break;
            }
        }
        match found {
            Some((i, c)) => {
                best = c;
                // Go on from there: earlier candidates were just tried.
                from = i;
            }
            None => return best,
        }
    }
}
