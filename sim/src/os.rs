//! The simulated operating system: runs one real process under the preloaded `simos` library.
//! A run is a function of its command line, files, standard input and fault plan.

use std::ffi::CString;
use std::os::fd::RawFd;

pub const MAGIC: u64 = 0x53494d4f53303156;
pub const MAX_OPS: usize = 2048;
pub const MAX_FILES: usize = 8;
pub const MAX_FOPS: usize = 128;
pub const MAX_TRACE: usize = 32768;
pub const STDIN_CAP: usize = 1 << 20;
pub const STDOUT_CAP: usize = 8 << 20;
pub const STDERR_CAP: usize = 1 << 18;

#[repr(C)]
#[derive(Clone, Copy)]
struct COp {
    kind: u32,
    arg: u32,
}

#[repr(C)]
#[derive(Clone, Copy)]
struct CStream {
    n_ops: u32,
    pos: u32,
    chunk: u32,
    fail_errno: u32,
    fail_at: u64,
    moved: u64,
    calls: u32,
    faults: u32,
    open_errno: u32,
    opened: u32,
}

#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Trace {
    pub what: u8,
    pub stream: u8,
    pub err: u16,
    pub req: u32,
    pub res: i64,
}

#[repr(C)]
struct Sim {
    magic: u64,
    rand_seed: u64,
    clock_ns: u64,
    clock_step: u64,
    heap_shift: u64,
    alloc_fail_at: u64,
    alloc_fail_size: u64,
    alloc_budget: u64,
    bytes_budget: u64,
    call_budget: u64,
    crash_call: u64,
    cpu_seconds: u64,
    pid: u64,
    prefix: [u8; 256],
    started: u64,
    finished: u64,
    allocs: u64,
    alloc_bytes: u64,
    calls: u64,
    rand_calls: u64,
    clock_calls: u64,
    alloc_failed: u64,
    over_budget: u64,
    crashed: u64,
    write_opens: u64,
    other_mutations: u64,
    n_files: u64,
    n_trace: u64,
    trace_lost: u64,
    stdin_len: u64,
    stdout_len: u64,
    stderr_len: u64,
    s_in: CStream,
    s_out: CStream,
    s_err: CStream,
    s_file: [CStream; MAX_FILES],
    o_in: [COp; MAX_OPS],
    o_out: [COp; MAX_OPS],
    o_err: [COp; MAX_OPS],
    o_file: [[COp; MAX_FOPS]; MAX_FILES],
    mutated: [u8; 256],
    tr: [Trace; MAX_TRACE],
    stdin_data: [u8; STDIN_CAP],
    stdout_data: [u8; STDOUT_CAP],
    stderr_data: [u8; STDERR_CAP],
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    /// At most this many bytes (0: no limit).
    Xfer(u32),
    /// Fail once with this errno.
    Err(u32),
    /// Return 0.
    Zero,
    /// The process dies before the call.
    Crash,
    /// The process dies after at most this many bytes.
    CrashAfter(u32),
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Stream {
    pub ops: Vec<Op>,
    /// After the scripted operations: at most this many bytes per call (0: no limit).
    pub chunk: u32,
    /// From this many bytes on, every call fails.
    pub fail: Option<(u64, u32)>,
    /// Files only: opening fails.
    pub open: Option<u32>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub stdin: Stream,
    pub stdout: Stream,
    pub stderr: Stream,
    pub files: Vec<Stream>,
    pub rand_seed: u64,
    pub clock_ns: u64,
    pub clock_step: u64,
    pub heap_shift: u64,
    /// Fail the n-th allocation of at least this size.
    pub alloc_fail: Option<(u64, u64)>,
    pub crash_call: Option<u64>,
    pub pid: u64,
    pub env: Vec<(String, String)>,
}

impl Default for Plan {
    fn default() -> Self {
        Plan {
            stdin: Stream::default(),
            stdout: Stream::default(),
            stderr: Stream::default(),
            files: vec![],
            rand_seed: 1,
            clock_ns: 1_700_000_000_000_000_000,
            clock_step: 1000,
            heap_shift: 0,
            alloc_fail: None,
            crash_call: None,
            pid: 4242,
            env: vec![],
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Budget {
    pub allocs: u64,
    pub bytes: u64,
    pub calls: u64,
}
impl Default for Budget {
    fn default() -> Self {
        Budget { allocs: 60_000_000, bytes: 6 << 30, calls: 3_000_000 }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    Exit(i32),
    Signal(i32),
}

#[derive(Clone, Debug)]
pub struct Run {
    pub end: End,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub trace: Vec<Trace>,
    pub trace_lost: u64,
    pub calls: u64,
    pub allocs: u64,
    pub alloc_bytes: u64,
    pub rand_calls: u64,
    pub clock_calls: u64,
    pub clock_ns: u64,
    pub alloc_failed: bool,
    pub over_budget: u64,
    pub crashed: bool,
    pub mutated: Option<String>,
    /// Bytes taken from standard input.
    pub stdin_moved: u64,
    pub watchdog: bool,
}

impl Run {
    pub fn ok(&self) -> bool {
        self.end == End::Exit(0)
    }
    pub fn stopped(&self) -> bool {
        self.over_budget != 0 || self.watchdog
    }
    /// A digest of everything observed.
    pub fn digest(&self) -> u64 {
        use crate::rng::{hash, mix};
        let mut h = mix(match self.end {
            End::Exit(i) => i as u64,
            End::Signal(i) => 1000 + i as u64,
        });
        for b in [&self.out, &self.err] {
            h = mix(h ^ hash(b));
        }
        for t in &self.trace {
            h = mix(h ^ ((t.what as u64) << 56 | (t.stream as u64) << 48 | (t.err as u64) << 32 | t.req as u64));
            h = mix(h ^ t.res as u64);
        }
        mix(h ^ self.allocs ^ (self.calls << 32))
    }
    /// A digest of the schedule: the sequence of simulated calls with their results.
    pub fn schedule(&self) -> u64 {
        use crate::rng::mix;
        let mut h = 7;
        for t in &self.trace {
            h = mix(h ^ ((t.what as u64) << 56 | (t.stream as u64) << 48 | (t.err as u64) << 32));
            h = mix(h ^ t.res as u64);
        }
        h
    }
}

pub struct Os {
    fd: RawFd,
    sim: *mut Sim,
    pub dir: String,
    shim: String,
    files: Vec<String>,
}

unsafe impl Send for Os {}

fn set_stream(c: &mut CStream, ops: &mut [COp], s: &Stream) {
    c.n_ops = s.ops.len().min(ops.len()) as u32;
    for (o, x) in ops.iter_mut().zip(&s.ops) {
        *o = match x {
            Op::Xfer(n) => COp { kind: 0, arg: *n },
            Op::Err(e) => COp { kind: 1, arg: *e },
            Op::Zero => COp { kind: 2, arg: 0 },
            Op::Crash => COp { kind: 3, arg: 0 },
            Op::CrashAfter(n) => COp { kind: 4, arg: *n },
        }
    }
    c.pos = 0;
    c.chunk = s.chunk;
    c.fail_errno = s.fail.map(|f| f.1).unwrap_or(0);
    c.fail_at = s.fail.map(|f| f.0).unwrap_or(0);
    c.moved = 0;
    c.calls = 0;
    c.faults = 0;
    c.open_errno = s.open.unwrap_or(0);
    c.opened = 0;
}

impl Os {
    pub fn new(dir: &str, shim: &str) -> Result<Os, String> {
        std::fs::create_dir_all(dir).map_err(|e| e.to_string())?;
        unsafe {
            let fd = libc::memfd_create(c"simos".as_ptr(), 0);
            if fd < 0 {
                return Err("memfd_create".into());
            }
            let len = std::mem::size_of::<Sim>();
            if libc::ftruncate(fd, len as i64) != 0 {
                return Err("ftruncate".into());
            }
            let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
            if p == libc::MAP_FAILED {
                return Err("mmap".into());
            }
            // Found by the child at a fixed number: 100.
            Ok(Os { fd, sim: p as *mut Sim, dir: dir.into(), shim: shim.into(), files: vec![] })
        }
    }

    /// Runs `bin args` with these files in the current directory.
    pub fn run(&mut self, bin: &str, args: &[String], files: &[(String, Vec<u8>)], stdin: &[u8], plan: &Plan, budget: &Budget) -> Result<Run, String> {
        for f in self.files.drain(..) {
            let _ = std::fs::remove_file(&f);
        }
        for (n, b) in files {
            let p = format!("{}/{}", self.dir, n);
            std::fs::write(&p, b).map_err(|e| format!("{p}: {e}"))?;
            self.files.push(p);
        }
        if stdin.len() > STDIN_CAP {
            return Err("input too large".into());
        }
        let s = unsafe { &mut *self.sim };
        s.magic = MAGIC;
        s.rand_seed = plan.rand_seed;
        s.clock_ns = plan.clock_ns;
        s.clock_step = plan.clock_step;
        s.heap_shift = plan.heap_shift;
        s.alloc_fail_at = plan.alloc_fail.map(|a| a.0).unwrap_or(0);
        s.alloc_fail_size = plan.alloc_fail.map(|a| a.1).unwrap_or(0);
        s.alloc_budget = budget.allocs;
        s.bytes_budget = budget.bytes;
        s.call_budget = budget.calls;
        s.crash_call = plan.crash_call.unwrap_or(0);
        s.cpu_seconds = 120;
        s.pid = plan.pid;
        s.prefix = [0; 256];
        s.prefix[..4].copy_from_slice(b"sim_");
        s.started = 0;
        s.finished = 0;
        s.allocs = 0;
        s.alloc_bytes = 0;
        s.calls = 0;
        s.rand_calls = 0;
        s.clock_calls = 0;
        s.alloc_failed = 0;
        s.over_budget = 0;
        s.crashed = 0;
        s.write_opens = 0;
        s.other_mutations = 0;
        s.n_files = 0;
        s.n_trace = 0;
        s.trace_lost = 0;
        s.stdin_len = stdin.len() as u64;
        s.stdout_len = 0;
        s.stderr_len = 0;
        s.mutated = [0; 256];
        s.stdin_data[..stdin.len()].copy_from_slice(stdin);
        set_stream(&mut s.s_in, &mut s.o_in, &plan.stdin);
        set_stream(&mut s.s_out, &mut s.o_out, &plan.stdout);
        set_stream(&mut s.s_err, &mut s.o_err, &plan.stderr);
        let none = Stream::default();
        for i in 0..MAX_FILES {
            set_stream(&mut s.s_file[i], &mut s.o_file[i], plan.files.get(i).unwrap_or(&none));
        }

        let (end, watchdog) = self.spawn(bin, args, &plan.env)?;
        let s = unsafe { &*self.sim };
        if s.started != 1 {
            return Err(format!("the simulated process did not start under simos ({end:?})"));
        }
        Ok(Run {
            end,
            out: s.stdout_data[..s.stdout_len as usize].to_vec(),
            err: s.stderr_data[..s.stderr_len as usize].to_vec(),
            trace: s.tr[..s.n_trace as usize].to_vec(),
            trace_lost: s.trace_lost,
            calls: s.calls,
            allocs: s.allocs,
            alloc_bytes: s.alloc_bytes,
            rand_calls: s.rand_calls,
            clock_calls: s.clock_calls,
            clock_ns: s.clock_ns - plan.clock_ns.min(s.clock_ns),
            alloc_failed: s.alloc_failed != 0,
            over_budget: s.over_budget,
            crashed: s.crashed != 0,
            mutated: match s.mutated[0] {
                0 => None,
                _ => Some(String::from_utf8_lossy(&s.mutated[..s.mutated.iter().position(|c| *c == 0).unwrap_or(256)]).into_owned()),
            },
            stdin_moved: s.s_in.moved,
            watchdog,
        })
    }

    fn spawn(&self, bin: &str, args: &[String], env: &[(String, String)]) -> Result<(End, bool), String> {
        let c = |s: &str| CString::new(s.replace('\0', "")).unwrap();
        let argv: Vec<CString> = std::iter::once(c("tldr")).chain(args.iter().map(|a| c(a))).collect();
        let mut envp = vec![c(&format!("SIMOS_FD={:05}", self.fd)), c(&format!("LD_PRELOAD={}", self.shim)), c("PATH=/usr/bin:/bin"), c("LC_ALL=C.UTF-8")];
        envp.extend(env.iter().map(|(k, v)| c(&format!("{k}={v}"))));
        let mut av: Vec<*mut libc::c_char> = argv.iter().map(|s| s.as_ptr() as *mut _).collect();
        av.push(std::ptr::null_mut());
        let mut ev: Vec<*mut libc::c_char> = envp.iter().map(|s| s.as_ptr() as *mut _).collect();
        ev.push(std::ptr::null_mut());
        let (bin, dir, null) = (c(bin), c(&self.dir), c("/dev/null"));
        unsafe {
            let mut fa: libc::posix_spawn_file_actions_t = std::mem::zeroed();
            libc::posix_spawn_file_actions_init(&mut fa);
            for (fd, fl) in [(0, libc::O_RDONLY), (1, libc::O_WRONLY), (2, libc::O_WRONLY)] {
                libc::posix_spawn_file_actions_addopen(&mut fa, fd, null.as_ptr(), fl, 0);
            }
            posix_spawn_file_actions_addchdir_np(&mut fa, dir.as_ptr());
            let mut pid = 0;
            let r = libc::posix_spawn(&mut pid, bin.as_ptr(), &fa, std::ptr::null(), av.as_ptr(), ev.as_ptr());
            libc::posix_spawn_file_actions_destroy(&mut fa);
            if r != 0 {
                return Err(format!("posix_spawn: errno {r}"));
            }
            let pfd = libc::syscall(libc::SYS_pidfd_open, pid, 0) as i32;
            let mut watchdog = false;
            if pfd >= 0 {
                let mut p = libc::pollfd { fd: pfd, events: libc::POLLIN, revents: 0 };
                loop {
                    let n = libc::poll(&mut p, 1, 120_000);
                    if n < 0 && *libc::__errno_location() == libc::EINTR {
                        continue;
                    }
                    if n == 0 {
                        watchdog = true;
                        libc::kill(pid, libc::SIGKILL);
                    }
                    break;
                }
                libc::close(pfd);
            }
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) < 0 {
                if *libc::__errno_location() != libc::EINTR {
                    return Err("waitpid".into());
                }
            }
            let end = if libc::WIFEXITED(st) { End::Exit(libc::WEXITSTATUS(st)) } else { End::Signal(libc::WTERMSIG(st)) };
            Ok((end, watchdog))
        }
    }
}

extern "C" {
    fn posix_spawn_file_actions_addchdir_np(fa: *mut libc::posix_spawn_file_actions_t, path: *const libc::c_char) -> libc::c_int;
}

/// Children get the same addresses on every run.
pub fn fixed_addresses() {
    unsafe {
        libc::personality(0x0040000);
    }
}
