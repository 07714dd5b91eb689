//! One build script process under the control of the simulator.
use simcore::{choose, count, event, in_sim, yield_point};
use std::cell::Cell;
use std::ffi::OsString;
use std::io::Read;
use std::os::fd::RawFd;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};

mod sys {
    extern "C" {
        pub fn socketpair(d: i32, t: i32, p: i32, fds: *mut i32) -> i32;
        pub fn recv(fd: i32, buf: *mut u8, n: usize, flags: i32) -> isize;
        pub fn send(fd: i32, buf: *const u8, n: usize, flags: i32) -> isize;
        pub fn dup2(a: i32, b: i32) -> i32;
        pub fn close(fd: i32) -> i32;
        pub fn kill(pid: i32, sig: i32) -> i32;
        pub fn prctl(op: i32, a: u64, ...) -> i32;
        pub fn poll(fds: *mut [i32; 2], n: u64, ms: i32) -> i32;
    }
    pub const CLOEXEC_SEQPACKET: i32 = 0o2000000 | 5;
}

struct Fd(RawFd);
impl Drop for Fd {
    fn drop(&mut self) {
        unsafe { sys::close(self.0) };
    }
}
fn pair() -> (Fd, Fd) {
    let mut f = [0i32; 2];
    assert_eq!(unsafe { sys::socketpair(1, sys::CLOEXEC_SEQPACKET, 0, f.as_mut_ptr()) }, 0, "socketpair");
    (Fd(f[0]), Fd(f[1]))
}
impl Fd {
    /// None: nobody is left at the other end
    fn recv(&self) -> Option<Vec<u8>> {
        let mut b = vec![0u8; 200_000];
        loop {
            let n = unsafe { sys::recv(self.0, b.as_mut_ptr(), b.len(), 0) };
            if n < 0 && std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {
                continue;
            }
            if n <= 0 {
                return None;
            }
            b.truncate(n as usize);
            return Some(b);
        }
    }
    fn send(&self, b: &[u8]) {
        unsafe { sys::send(self.0, b.as_ptr(), b.len(), 0x4000) };
    }
    fn ready(&self, ms: i32) -> bool {
        let mut p = [self.0, 1];
        unsafe { sys::poll(&mut p, 1, ms) > 0 }
    }
}

/// Where a fault strikes: the first applicable operation from the `at`-th on.
#[derive(Clone, Debug)]
pub struct Fault {
    pub at: u32,
    pub kind: FaultKind,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FaultKind {
    Fs,
    Spawn,
    Pipe,
    Interrupt,
    /// the compiler is killed before, or after part of its work
    Killed,
    /// the compiler ends with an error although the program is fine
    Internal,
    /// the compiler cannot write its output
    DiskFull,
    /// the scratch directory disappears
    Vanish,
}
impl FaultKind {
    pub fn name(self) -> &'static str {
        match self {
            FaultKind::Fs => "fault:file-system operation fails",
            FaultKind::Spawn => "fault:process cannot be started",
            FaultKind::Pipe => "fault:no pipe to be had",
            FaultKind::Interrupt => "fault:interrupted wait",
            FaultKind::Killed => "fault:compiler killed",
            FaultKind::Internal => "fault:compiler internal error",
            FaultKind::DiskFull => "fault:compiler cannot write",
            FaultKind::Vanish => "fault:scratch directory vanishes",
        }
    }
}

pub struct Called {
    pub cwd: String,
    pub argv: Vec<String>,
    pub env: Vec<(String, String)>,
}
/// What a simulated compiler does: file effects one after the other, text, and its end.
#[derive(Default, Debug)]
pub struct Answer {
    pub effects: Vec<Effect>,
    pub stdout: Vec<u8>,
    pub code: i32,
    pub signal: i32,
    /// it was a compilation
    pub compile: bool,
}
#[derive(Debug, Clone)]
pub enum Effect {
    Mkdir(PathBuf),
    Write(PathBuf, String),
    Remove(PathBuf),
}
impl Effect {
    pub fn path(&self) -> &Path {
        match self {
            Effect::Mkdir(p) | Effect::Write(p, _) | Effect::Remove(p) => p,
        }
    }
    fn apply(&self) -> bool {
        match self {
            // its name is random in reality: what an earlier run left does not matter
            Effect::Mkdir(p) => std::fs::create_dir(p).is_ok() || p.is_dir(),
            Effect::Write(p, t) => std::fs::write(p, t).is_ok(),
            Effect::Remove(p) => std::fs::remove_dir_all(p).is_ok() || std::fs::remove_file(p).is_ok(),
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    /// None: killed by the simulator
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub killed: bool,
    pub stdout: String,
    pub stderr: String,
    pub ops: u32,
    /// faults that really struck: of the scratch directory, and of processes
    pub struck: Vec<FaultKind>,
    /// paths written
    pub written: Vec<(String, PathBuf)>,
    pub compiles: u32,
}
impl Outcome {
    pub fn lines(&self) -> impl Iterator<Item = &str> {
        self.stdout.lines().filter_map(|l| l.strip_prefix("cargo::").or_else(|| l.strip_prefix("cargo:")))
    }
    pub fn cfgs(&self) -> Vec<String> {
        let mut v: Vec<String> = self.lines().filter_map(|l| l.strip_prefix("rustc-cfg=")).map(|s| s.replace(' ', "")).collect();
        v.sort();
        v.dedup();
        v
    }
    pub fn on(&self) -> bool {
        self.cfgs().iter().any(|c| c == "error_generic_member_access")
    }
    pub fn describe(&self) -> String {
        match (self.killed, self.code, self.signal) {
            (true, _, _) => "killed by the simulator".into(),
            (_, Some(c), _) => format!("exit status {c}"),
            (_, _, Some(s)) => format!("ended by signal {s}"),
            _ => "no status".into(),
        }
    }
}

#[derive(Clone, Default)]
pub struct Plan {
    pub crash_at: Option<u32>,
    pub faults: Vec<Fault>,
    /// real compilers are not to be left behind by a crash
    pub real: bool,
}

pub struct Job<'a> {
    pub script: &'a Path,
    pub cwd: &'a Path,
    pub out_dir: &'a Path,
    pub env: Vec<(OsString, OsString)>,
    pub root: &'a Path,
    pub shim: &'a Path,
    pub plan: Plan,
    /// decides what a simulated compiler does
    pub answer: &'a dyn Fn(&Called) -> Answer,
    /// record events, give others a turn
    pub live: bool,
    pub tag: &'a str,
}

fn rel(root: &Path, p: &str) -> String {
    let r = root.to_string_lossy();
    let above = root.parent().map_or(r.clone(), |x| x.to_string_lossy());
    p.replace(&*r, "").replace(&*above, "~")
}

const FS_ERRNO: [i32; 6] = [13, 28, 30, 5, 24, 2]; // EACCES ENOSPC EROFS EIO EMFILE ENOENT
const SPAWN_ERRNO: [i32; 6] = [2, 13, 12, 11, 24, 8];

fn writes(op: &str) -> bool {
    matches!(op, "mkdir" | "rmdir" | "unlink" | "rename" | "symlink" | "link" | "chmod" | "write")
}

pub fn detect(job: &Job) -> Outcome {
    let (ctl, ctl2) = pair();
    let (side, side2) = pair();
    let mut cmd = Command::new(job.script);
    cmd.current_dir(job.cwd).env_clear().stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    for (k, v) in &job.env {
        cmd.env(k, v);
    }
    cmd.env("LD_PRELOAD", job.shim).env("SIM_SHIM_ON", "1");
    let (a, b) = (ctl2.0, side2.0);
    unsafe {
        cmd.pre_exec(move || {
            sys::prctl(1, 9);
            if sys::dup2(a, 200) < 0 || sys::dup2(b, 201) < 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    let mut child = cmd.spawn().expect("the build script cannot be started");
    drop((ctl2, side2));
    let o = drive(job, &ctl, &side, &mut child);
    drop((ctl, side));
    o
}

fn drive(job: &Job, ctl: &Fd, side: &Fd, child: &mut Child) -> Outcome {
    let mut o = Outcome::default();
    let mut faults = job.plan.faults.clone();
    let step = Cell::new(0u32);
    let mut cleaning = false;
    let turn = |what: &dyn Fn() -> String| -> bool {
        step.set(step.get() + 1);
        if job.live {
            event(|| format!("{}{}", job.tag, what()));
            yield_point("op");
        }
        job.plan.crash_at.is_some_and(|c| step.get() > c)
    };
    let strike = |faults: &mut Vec<Fault>, kinds: &[FaultKind]| -> Option<FaultKind> {
        let k = faults.iter().position(|f| f.at <= step.get() && kinds.contains(&f.kind))?;
        let f = faults.remove(k);
        if in_sim() {
            count(f.kind.name());
            event(|| format!("{}{}", job.tag, f.kind.name()));
        }
        Some(f.kind)
    };
    'run: loop {
        let Some(m) = ctl.recv() else { break };
        let text = String::from_utf8_lossy(&m).into_owned();
        let mut parts = text.splitn(3, '\n');
        let (op, a, b) = (parts.next().unwrap_or(""), parts.next().unwrap_or("").to_string(), parts.next().unwrap_or("").to_string());
        o.ops += 1;
        // ending while a real compiler runs would leave it behind
        let may_crash = !(job.plan.real && matches!(op, "wait" | "spawned"));
        let crash = turn(&|| format!("{op} {} {}", rel(job.root, if op == "spawned" { if a.starts_with('-') { &a } else { "" } } else { &a }), rel(job.root, &b)).trim_end().to_string());
        if crash && may_crash && op != "fini" {
            count("fault:build script killed");
            if let ("spawned", Ok(pid)) = (op, a.parse::<i32>()) {
                if pid > 0 {
                    unsafe { sys::kill(pid, 9) };
                }
            }
            ctl.send(b"k");
            o.killed = true;
            break;
        }
        if writes(op) {
            o.written.push((op.to_string(), PathBuf::from(&a)));
            if !b.is_empty() {
                o.written.push((op.to_string(), PathBuf::from(&b)));
            }
        }
        let is_fs = writes(op) || op == "opendir";
        let inside = Path::new(&a).starts_with(job.out_dir);
        // somebody else sweeps the directory: around the compiler's run, or just before the cleanup
        let sweepable = matches!(op, "spawn" | "wait") || (is_fs && inside && !cleaning && op != "mkdir");
        if is_fs && inside {
            cleaning = op != "mkdir" && op != "write";
        }
        if sweepable && strike(&mut faults, &[FaultKind::Vanish]).is_some() {
            o.struck.push(FaultKind::Vanish);
            for e in std::fs::read_dir(job.out_dir).into_iter().flatten().flatten() {
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
        let mut err = 0;
        if is_fs && inside && strike(&mut faults, &[FaultKind::Fs]).is_some() {
            o.struck.push(FaultKind::Fs);
            // a missing directory is an answer of its own when it is to be removed
            err = *simcore::pick("errno", if op == "mkdir" { &FS_ERRNO[..] } else { &FS_ERRNO[..5] });
        } else if op == "spawn" && strike(&mut faults, &[FaultKind::Spawn]).is_some() {
            o.struck.push(FaultKind::Spawn);
            err = *simcore::pick("errno", &SPAWN_ERRNO);
        } else if op == "pipe" && strike(&mut faults, &[FaultKind::Pipe]).is_some() {
            o.struck.push(FaultKind::Pipe);
            err = 24;
        } else if op == "wait" && strike(&mut faults, &[FaultKind::Interrupt]).is_some() {
            err = 4;
        }
        if op == "spawned" && !a.starts_with('-') && !job.plan.real {
            // the child is at its first message, or will never be
            let pid: i32 = a.parse().unwrap_or(0);
            let mut tries = 0;
            while !side.ready(50) {
                tries += 1;
                let st = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
                let gone = st.rsplit(')').next().is_none_or(|s| s.trim_start().starts_with('Z'));
                if (gone || tries > 100) && !side.ready(0) {
                    break;
                }
            }
            if side.ready(0) {
                if let Some(hello) = side.recv() {
                    if !child_life(job, &mut o, side, &hello, pid, &mut faults, &turn, &strike) {
                        // crashed together with its compiler
                        unsafe { sys::kill(pid, 9) };
                        ctl.send(b"k");
                        o.killed = true;
                        break 'run;
                    }
                }
            }
        }
        ctl.send(if err == 0 { "g".to_string() } else { format!("e{err}") }.as_bytes());
    }
    if o.killed {
        // both ends are gone only when every process is
        while ctl.recv().is_some() {}
    }
    let (mut out, mut er) = (Vec::new(), Vec::new());
    if let Some(mut s) = child.stdout.take() {
        let _ = s.read_to_end(&mut out);
    }
    if let Some(mut s) = child.stderr.take() {
        let _ = s.read_to_end(&mut er);
    }
    let st = child.wait().expect("wait");
    o.stdout = String::from_utf8_lossy(&out).into_owned();
    o.stderr = String::from_utf8_lossy(&er).into_owned();
    if !o.killed {
        o.code = st.code();
        o.signal = st.signal();
    }
    if job.live {
        event(|| format!("{}-> {} | {}", job.tag, o.describe(), rel(job.root, o.stdout.trim()).replace('\n', " ; ")));
    }
    o
}

#[allow(clippy::too_many_arguments)]
fn child_life(
    job: &Job, o: &mut Outcome, side: &Fd, hello: &[u8], _pid: i32, faults: &mut Vec<Fault>,
    turn: &dyn Fn(&dyn Fn() -> String) -> bool, strike: &dyn Fn(&mut Vec<Fault>, &[FaultKind]) -> Option<FaultKind>,
) -> bool {
    let text = String::from_utf8_lossy(hello).into_owned();
    let mut it = text.split('\0');
    let _pid = it.next();
    let cwd = it.next().unwrap_or("").to_string();
    let mut argv = Vec::new();
    for a in it.by_ref() {
        if a == "\u{1}" {
            break;
        }
        argv.push(a.to_string());
    }
    let env = it.filter_map(|e| e.split_once('=')).map(|(k, v)| (k.to_string(), v.to_string())).collect();
    let called = Called { cwd, argv, env };
    if turn(&|| rel(job.root, &called.argv.join(" "))) {
        count("fault:build script killed");
        return false;
    }
    let mut ans = (job.answer)(&called);
    o.compiles += u32::from(ans.compile);
    let fault = strike(faults, &[FaultKind::Killed, FaultKind::Internal, FaultKind::DiskFull]);
    let mut upto = ans.effects.len();
    if let Some(k) = fault {
        o.struck.push(k);
        upto = choose("work-done", ans.effects.len() as u32 + 1) as usize;
        match k {
            FaultKind::Killed => {
                ans.signal = *simcore::pick("signal", &[9, 11, 6, 15, 7]);
                if choose("text-too", 2) == 0 {
                    ans.stdout.clear();
                }
            }
            FaultKind::Internal => {
                ans.code = *simcore::pick("code", &[101, 1, 2, 254]);
                ans.stdout.clear();
            }
            _ => {
                upto = upto.min(ans.effects.len().saturating_sub(1));
                ans.code = 1;
                ans.stdout.clear();
            }
        }
    }
    for e in &ans.effects[..upto] {
        let p = e.path().to_path_buf();
        if turn(&|| format!("compiler touches {}", rel(job.root, &p.to_string_lossy()))) {
            count("fault:build script killed");
            return false;
        }
        o.written.push(("compiler".into(), p));
        if !e.apply() {
            ans.code = 1;
            ans.signal = 0;
            ans.stdout.clear();
            break;
        }
    }
    if !ans.stdout.is_empty() {
        let mut m = vec![b'o'];
        m.extend_from_slice(&ans.stdout);
        side.send(&m);
        side.recv();
    }
    side.send(if ans.signal != 0 { format!("s{}", ans.signal) } else { format!("x{}", ans.code) }.as_bytes());
    side.recv();
    true
}
