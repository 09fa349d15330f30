//! Runs in processes of their own, so that each starts from pristine statics and may die.

use sim::json::{self, s, J};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicI32, Ordering::SeqCst};

static OUT: AtomicI32 = AtomicI32::new(-1);

pub fn n(x: u64) -> J {
    J::Num(x.to_string())
}
pub fn obj(e: Vec<(&str, J)>) -> J {
    J::Obj(e.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

pub fn switches(r: &sched::Report) -> J {
    J::Arr(r.switches.iter().map(|(a, b)| J::Arr(vec![n(*a), n(*b as u64)])).collect())
}

fn send(j: &J) {
    let fd = OUT.load(SeqCst);
    let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
    let _ = f.write_all(json::text(j).as_bytes());
    std::mem::forget(f);
}

/// The run cannot go on.
fn stopped(why: &str, r: &sched::Report) {
    send(&obj(vec![("stop", s(why)), ("steps", n(r.steps)), ("switches", switches(r))]));
}

/// What a child reports, or how it died.
pub fn run(f: impl FnOnce() -> J) -> Result<J, String> {
    unsafe {
        let mut p = [0i32; 2];
        if libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
            return Err("harness: pipe".into());
        }
        let pid = libc::fork();
        if pid < 0 {
            return Err("harness: fork".into());
        }
        if pid == 0 {
            libc::close(p[0]);
            OUT.store(p[1], SeqCst);
            let set = |what, soft: u64| {
                let l = libc::rlimit { rlim_cur: soft, rlim_max: soft + 5 };
                libc::setrlimit(what, &l);
            };
            set(libc::RLIMIT_CPU, 60);
            set(libc::RLIMIT_CORE, 0);
            let l = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            std::panic::set_hook(Box::new(|_| ()));
            sched::on_stop(stopped);
            // Whatever the process did before the fork.
            sched::seed_randomness(1);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            match r {
                Ok(j) => send(&j),
                Err(e) => send(&obj(vec![("harness", s(&message(e)))])),
            }
            libc::_exit(0);
        }
        libc::close(p[1]);
        let mut b = vec![];
        let mut f = std::fs::File::from_raw_fd(p[0]);
        let _ = f.read_to_end(&mut b);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        match json::parse(&b) {
            Ok(j) => match j.get("harness").and_then(|x| x.str()) {
                Some(m) => Err(format!("harness: {m}")),
                None => Ok(j),
            },
            Err(_) if libc::WIFSIGNALED(st) => match libc::WTERMSIG(st) {
                libc::SIGXCPU | libc::SIGKILL => Err("no-end: used up its processor time".into()),
                k => Err(format!("crash: died of signal {k}")),
            },
            Err(_) => Err(format!("crash: ended with status {}", libc::WEXITSTATUS(st))),
        }
    }
}

pub fn message(e: Box<dyn std::any::Any + Send>) -> String {
    match e.downcast::<String>() {
        Ok(s) => *s,
        Err(e) => match e.downcast::<&'static str>() {
            Ok(s) => s.to_string(),
            Err(_) => "panic".into(),
        },
    }
}

/// Runs a closure as the only simulated thread, within a number of steps.
pub fn solo<T>(limit: u64, f: impl FnOnce() -> T) -> (T, sched::Report) {
    struct Any<T>(T);
    unsafe impl<T> Send for Any<T> {}
    let mut out: Option<T> = None;
    let job = Any((&mut out as *mut Option<T>, f));
    let g: Box<dyn FnOnce() + '_> = Box::new(move || {
        let job = job;
        let Any((out, f)) = job;
        let r = f();
        unsafe { *out = Some(r) };
    });
    // The thread ends within `run`.
    let g: Box<dyn FnOnce() + Send> = unsafe { std::mem::transmute(g) };
    let plan = sched::Plan { fixed: Some(vec![]), mean: 1, ..Default::default() };
    let r = sched::run(&plan, limit, vec![g]);
    (out.expect("the simulated thread panicked"), r)
}
