//! C08: what one detection decides. C09: what detections leave behind.
use crate::host::{detect, Fault, FaultKind, Job, Outcome, Plan};
use crate::model::{Config, Wrapper, World};
use crate::Setup;
use simcore::{chance, choose, count, cover, mix, pick, spawn, violated, violation};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::rc::Rc;

pub struct Expect {
    pub accepts: bool,
    pub stage: bool,
    pub missing: bool,
    /// Some(None): the version cannot be read
    pub minor: Option<Option<u32>>,
    pub std: bool,
    /// the compiler refuses only because of RUSTC_BOOTSTRAP=-1
    pub minus_one: bool,
    pub what: String,
}

pub fn cover_text(s: &str) {
    cover(crate::hash(s));
}

pub fn judge(e: &Expect, o: &Outcome) {
    let subject = "detection";
    let tell = || {
        let err = o.stderr.lines().take(3).collect::<Vec<_>>().join(" / ");
        format!("{}: {}, switched on {:?}, faults {:?}, on stderr {err:?}", e.what, o.describe(), o.cfgs(), o.struck)
    };
    let failed = !o.struck.is_empty();
    match o.code {
        None => return violation("build-crashes", subject, tell()),
        Some(101) => return violation("build-crashes", subject, tell()),
        Some(0) => {}
        Some(_) => {
            if !e.missing && !o.struck.contains(&FaultKind::Fs) {
                violation("build-fails", subject, tell());
            }
            return;
        }
    }
    let on = o.on();
    if on && e.stage {
        return violation("on-inside-bootstrap", subject, tell());
    }
    if on && !e.accepts {
        if e.minus_one && std::env::var("SIM_KNOWN").is_ok_and(|k| k.contains("RUSTC_BOOTSTRAP=-1")) {
            return count("known:RUSTC_BOOTSTRAP=-1");
        }
        return violation("on-though-refused", subject, tell());
    }
    if !on && e.accepts && !e.stage && !e.missing && !failed {
        return violation("off-though-accepted", subject, tell());
    }
    let has = |c: &str| o.cfgs().iter().any(|x| x == c);
    if let (Some(minor), false) = (e.minor, e.missing) {
        let got = (has("thiserror_no_backtrace_type"), has("feature=\"std\""));
        let want = (minor.is_some_and(|m| m < 65), minor.is_some_and(|m| m < 81) && !e.std);
        if got != want && !(failed && got == (false, false)) {
            violation("version-misread", subject, format!("expected (no Backtrace type, std needed) = {want:?}, got {got:?}; {}", tell()));
        }
    }
}

pub fn expect(c: &Config) -> Expect {
    let mut plain = c.clone();
    plain.bootstrap = None;
    let accepts = c.accepts();
    let swapped = c.wrapper == Wrapper::Swaps || c.ws_wrapper == Wrapper::Swaps;
    Expect {
        accepts,
        stage: c.stage,
        missing: c.missing.is_some(),
        minor: (!swapped).then_some(c.compiler.known_minor()),
        std: c.std,
        minus_one: !accepts && c.bootstrap.as_deref() == Some("-1") && plain.accepts(),
        what: format!("{c:?}"),
    }
}

pub fn faults(kinds: &[FaultKind], max: u32) -> Vec<Fault> {
    (0..choose("faults", max + 1)).map(|_| Fault { at: choose("fault-at", 36), kind: *pick("fault-kind", kinds) }).collect()
}

const ALL: [FaultKind; 8] = [FaultKind::Killed, FaultKind::Internal, FaultKind::DiskFull, FaultKind::Spawn, FaultKind::Pipe, FaultKind::Interrupt, FaultKind::Fs, FaultKind::Vanish];

pub fn script<'a>(s: &'a Setup, c: &Config) -> &'a Path {
    if c.std {
        &s.script_std
    } else {
        &s.script_nostd
    }
}

/// OUT_DIR names a build may have.
pub fn out_dir(s: &Setup, n: u32) -> PathBuf {
    let p = s.root.join("target").join(["debug/build/thiserror-0f/out", "rel ease/b\u{fc}ild/out", "x86_64/out", "ref/out"][n as usize]);
    std::fs::create_dir_all(&p).expect("scratch");
    p
}

pub fn c08(s: &Setup) {
    s.clean();
    let c = Config::draw();
    let out = out_dir(s, choose("place", 3));
    if chance("leftovers", 1, 6) {
        leave(&out);
    }
    let world = World { config: &c, profile: &s.profile, cache: None };
    let o = detect(&Job {
        script: script(s, &c), cwd: &s.pkg, out_dir: &out, env: c.env(&s.root, &out), root: &s.root, shim: &s.shim,
        plan: Plan { faults: if chance("any-faults", 2, 3) { faults(&ALL, 3) } else { Vec::new() }, ..Plan::default() },
        answer: &|q| world.answer(q), live: true, tag: "",
    });
    let e = expect(&c);
    cover_text(&format!("{c:?}"));
    count(if o.on() { "decided on" } else { "decided off" });
    judge(&e, &o);
}

/// What a detection killed long ago can have left.
fn leave(out: &Path) {
    simcore::count("fault:leftovers of an older crash");
    let d = out.join("probe");
    let _ = std::fs::create_dir(&d);
    let _ = std::fs::write(d.join("thiserror.d"), "x");
    if choose("leftover", 2) == 1 {
        let _ = std::fs::create_dir(d.join("rmetaOld"));
        let _ = std::fs::write(d.join("rmetaOld").join("lib.rmeta"), "x");
    }
}

thread_local! {
    static CLEAN: RefCell<BTreeMap<Config, Outcome>> = const { RefCell::new(BTreeMap::new()) };
}
/// The same detection in a clean directory, undisturbed.
pub fn fresh(s: &Setup, c: &Config) -> Outcome {
    let probe = std::fs::read_to_string(s.pkg.join("build/probe.rs")).unwrap_or_default();
    let mut key = c.clone();
    key.more_env = c.more_env | (crate::hash(&probe) as u32) << 2;
    if let Some(o) = CLEAN.with(|m| m.borrow().get(&key).cloned()) {
        return o;
    }
    // nothing of an earlier detection may stand in its way
    let _ = std::fs::remove_dir_all(s.root.join("target/ref"));
    let out = out_dir(s, 3);
    let world = World { config: c, profile: &s.profile, cache: None };
    let o = detect(&Job {
        script: script(s, c), cwd: &s.pkg, out_dir: &out, env: c.env(&s.root, &out), root: &s.root, shim: &s.shim, plan: Plan::default(),
        answer: &|q| world.answer(q), live: false, tag: "",
    });
    CLEAN.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() > 30_000 {
            m.clear();
        }
        m.insert(key, o.clone());
    });
    o
}

fn stray(dir: &Path, ok: &dyn Fn(&Path) -> bool) -> Option<PathBuf> {
    for e in std::fs::read_dir(dir).ok()?.flatten() {
        if !ok(&e.path()) {
            return Some(e.path());
        }
    }
    None
}

/// Nothing but `own` may have been written to.
fn confined(s: &Setup, own: &Path, o: &Outcome, what: &str) {
    for (op, p) in &o.written {
        if !p.starts_with(own) && !violated() {
            let p = p.to_string_lossy().replace(&*s.root.to_string_lossy(), "");
            violation("writes-elsewhere", "detection", format!("{what}: {op} of {p}, outside its OUT_DIR"));
        }
    }
}
fn left(own: &Path, s: &Setup, o: &Outcome, what: &str) {
    if o.code == Some(0) {
        if let Some(p) = stray(own, &|_| false) {
            violation("leaves-scratch", "detection", format!("{what}: a detection that ended with status 0 left {}; faults {:?}", p.to_string_lossy().replace(&*s.root.to_string_lossy(), ""), o.struck));
        }
    }
}

pub fn c09(s: &Rc<Setup>) {
    s.clean();
    let n = 1 + choose("instances", 3);
    let shared = Config { missing: None, ..Config::draw() };
    simcore::set_preempt_den(2);
    let mut tasks = Vec::new();
    for k in 0..n {
        let s = s.clone();
        let c = if chance("own-settings", 1, 3) { Config { missing: None, ..Config::draw() } } else { Config { std: if chance("other-features", 1, 3) { !shared.std } else { shared.std }, ..shared.clone() } };
        tasks.push(spawn(move || life(&s, k, &c)));
    }
    for t in tasks {
        let _ = t.join();
    }
    for (d, keep) in [("", "bin home pkg target tmp"), ("home", ""), ("tmp", ""), ("pkg", "Cargo.toml build build.rs src"), ("pkg/build", "probe.rs"), ("pkg/src", "lib.rs"), ("bin", "rustc wrap wswrap")] {
        let keep: Vec<&str> = keep.split_whitespace().collect();
        if let Some(p) = stray(&s.root.join(d), &|p| keep.contains(&p.file_name().unwrap().to_string_lossy().as_ref())) {
            if !violated() {
                violation("writes-elsewhere", "detection", format!("after all detections there is a file {}", p.to_string_lossy().replace(&*s.root.to_string_lossy(), "")));
            }
            s.reset();
        }
    }
    if std::fs::read_to_string(s.pkg.join("build/probe.rs")).ok().as_deref() != Some(s.probe.as_str()) {
        if !violated() {
            violation("writes-elsewhere", "detection", "the probe's source has changed");
        }
        s.reset();
    }
}

/// One output directory: crashes and failures, then a build nothing disturbs.
fn life(s: &Setup, k: u32, c: &Config) {
    let own = out_dir(s, k);
    let clean = fresh(s, c);
    let world = World { config: c, profile: &s.profile, cache: None };
    let tag = ["A: ", "B: ", "C: "][k as usize];
    let go = |plan: Plan| {
        detect(&Job {
            script: script(s, c), cwd: &s.pkg, out_dir: &own, env: c.env(&s.root, &own), root: &s.root, shim: &s.shim, plan,
            answer: &|q| world.answer(q), live: true, tag,
        })
    };
    for _ in 0..choose("disturbed-runs", 4) {
        let crash_at = if chance("no-crash", 1, 5) { None } else { Some(choose("crash-at", clean.ops + 16)) };
        let o = go(Plan { crash_at, faults: if chance("any-faults", 1, 3) { faults(&ALL[..7], 2) } else { Vec::new() }, real: false });
        cover(mix(u64::from(crash_at.unwrap_or(99)), u64::from(o.ops)));
        confined(s, &own, &o, &format!("{c:?}"));
        left(&own, s, &o, &format!("{c:?}"));
        if violated() {
            return;
        }
    }
    let vanish = if chance("vanish", 1, 4) { vec![Fault { at: choose("fault-at", 36), kind: FaultKind::Vanish }] } else { Vec::new() };
    let o = go(Plan { crash_at: None, faults: vanish, real: false });
    count("recoveries");
    confined(s, &own, &o, &format!("{c:?}"));
    left(&own, s, &o, &format!("{c:?}"));
    if violated() {
        return;
    }
    let swept = !o.struck.is_empty();
    let mut a: Vec<&str> = clean.lines().collect();
    let mut b: Vec<&str> = o.lines().collect();
    a.sort_unstable();
    b.sort_unstable();
    if o.code != clean.code {
        violation("does-not-recover", "detection", format!("{c:?}: {} (stderr {:?}), but {} in a clean directory; swept: {swept}", o.describe(), o.stderr.lines().next(), clean.describe()));
    } else if swept && o.on() && !clean.on() || !swept && a != b {
        violation("decides-differently", "detection", format!("{c:?}: said {b:?}, but {a:?} in a clean directory; swept: {swept}"));
    }
}
