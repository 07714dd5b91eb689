//! The real build script against the installed compilers. What it must decide
//! is settled by compiling the crate itself in the same environment.
use crate::detect::{cover_text, faults, judge, out_dir, Expect};
use crate::host::{detect, FaultKind, Job, Outcome, Plan};
use crate::{var, Setup};
use simcore::{chance, choose, count, event, pick, violated, violation};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::rc::Rc;

pub struct Real {
    pub s: Rc<Setup>,
    pub toolchains: Vec<PathBuf>,
    minors: Vec<u32>,
    stubs: Vec<PathBuf>,
    tools: PathBuf,
    verdicts: RefCell<BTreeMap<Case, bool>>,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Case {
    pub toolchain: usize,
    pub bootstrap: Option<&'static str>,
    pub flags: Option<Vec<&'static str>>,
    target: Option<&'static str>,
    wrapper: Option<&'static str>,
    ws_wrapper: Option<&'static str>,
}

pub const FLAGS: [&[&str]; 20] = [
    &[], &["-Copt-level=1"], &["-Zallow-features="], &["-Zallow-features=error_generic_member_access"], &["-Zallow-features=core_intrinsics"], &["-Zallow-features=a,error_generic_member_access"],
    &["--cfg", "k=\"two words\""], &["-Dwarnings"], &["-Funstable_features"], &["-Cbogus"], &["-Zunstable-options"], &["-Cpanic=abort"], &["--cfg=docsrs"],
    &["-Copt-level=3", "-Cdebug-assertions=off"], &["-Cdebug-assertions=on", "-Coverflow-checks=on"], &["-Ctarget-feature=+crt-static"], &["-Ctarget-cpu=native"], &["-Crelocation-model=static"],
    &["--cfg=loom", "--cfg", "fuzzing"], &["-Copt-level=s", "-Zallow-features=error_generic_member_access"],
];
const BOOT: [Option<&str>; 10] = [None, Some("1"), Some("thiserror"), None, Some("0"), Some("other"), Some("-1"), Some(""), Some("other,thiserror"), Some("thiserror_impl")];
const WRAPPERS: [(&str, &str); 4] = [
    ("through", "#!/bin/sh\nexec \"$@\"\n"),
    ("sets", "#!/bin/sh\nRUSTC_BOOTSTRAP=1 exec \"$@\"\n"),
    ("clears", "#!/bin/sh\nunset RUSTC_BOOTSTRAP\nexec \"$@\"\n"),
    ("fails", "#!/bin/sh\nexit 3\n"),
];

pub fn toolchains() -> Vec<PathBuf> {
    std::env::var("SIM_TOOLCHAINS").unwrap_or_default().lines().map(PathBuf::from).collect()
}

impl Real {
    fn new(s: Rc<Setup>) -> Real {
        let tools = var("SIM_SCRATCH").join("tools");
        std::fs::create_dir_all(&tools).expect("scratch");
        for (n, text) in WRAPPERS {
            std::fs::write(tools.join(n), text).expect("scratch");
            std::fs::set_permissions(tools.join(n), std::fs::Permissions::from_mode(0o755)).expect("scratch");
        }
        std::fs::write(tools.join("stub.rs"), "#![no_std]\n").expect("scratch");
        let (mut minors, mut stubs) = (Vec::new(), Vec::new());
        let toolchains = toolchains();
        for (k, t) in toolchains.iter().enumerate() {
            let v = Command::new(t).arg("--version").output().expect("rustc");
            let v = String::from_utf8_lossy(&v.stdout).into_owned();
            minors.push(v.split('.').nth(1).and_then(|m| m.parse().ok()).expect("rustc version"));
            let stub = tools.join(format!("libthiserror_impl{k}.rmeta"));
            let st = Command::new(t).args(["--edition=2021", "--crate-name=thiserror_impl", "--crate-type=lib", "--emit=metadata", "-o"]).arg(&stub).arg(tools.join("stub.rs")).status().expect("rustc");
            assert!(st.success(), "stub");
            stubs.push(stub);
        }
        Real { s, toolchains, minors, stubs, tools, verdicts: RefCell::new(BTreeMap::new()) }
    }

    fn wrapper(&self, w: Option<&str>) -> Option<OsString> {
        w.map(|w| if w.is_empty() { "".into() } else { self.tools.join(w).into() })
    }

    /// Does the crate itself, using the feature, compile here?
    fn accepts(&self, c: &Case) -> bool {
        if let Some(v) = self.verdicts.borrow().get(c) {
            return *v;
        }
        let out = self.tools.join("verdict");
        std::fs::create_dir_all(&out).expect("scratch");
        let mut chain: Vec<OsString> = [self.wrapper(c.wrapper), self.wrapper(c.ws_wrapper)].into_iter().flatten().filter(|w| !w.is_empty()).collect();
        chain.push(self.toolchains[c.toolchain].clone().into());
        let mut cmd = Command::new(&chain[0]);
        cmd.args(&chain[1..])
            .args(["--edition=2021", "--crate-name=thiserror", "--crate-type=lib", "--cap-lints=allow", "--emit=metadata", "--cfg=error_generic_member_access", "--cfg=feature=\"std\"", "--out-dir"])
            .arg(&out)
            .arg("--extern")
            .arg(format!("thiserror_impl={}", self.stubs[c.toolchain].display()))
            .arg(var("SIM_REPO").join("src/lib.rs"))
            .env_clear()
            .env("PATH", "/usr/bin:/bin")
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null());
        if let Some(b) = c.bootstrap {
            cmd.env("RUSTC_BOOTSTRAP", b);
        }
        if let Some(t) = c.target {
            cmd.args(["--target", t]);
        }
        cmd.args(c.flags.iter().flatten());
        let ok = cmd.status().is_ok_and(|s| s.success());
        self.verdicts.borrow_mut().insert(c.clone(), ok);
        ok
    }

    fn env(&self, c: &Case, out: &Path) -> Vec<(OsString, OsString)> {
        let s = &self.s;
        let mut v: Vec<(OsString, OsString)> = Vec::new();
        let mut put = |k: &str, x: OsString| v.push((k.into(), x));
        put("PATH", "/usr/bin:/bin".into());
        put("HOME", s.root.join("home").into());
        put("TMPDIR", s.root.join("tmp").into());
        put("CARGO_MANIFEST_DIR", s.pkg.clone().into());
        put("RUSTC", self.toolchains[c.toolchain].clone().into());
        put("OUT_DIR", out.into());
        if let Some(b) = c.bootstrap {
            put("RUSTC_BOOTSTRAP", b.into());
        }
        if let Some(t) = c.target {
            put("TARGET", t.into());
        }
        if let Some(f) = &c.flags {
            put("CARGO_ENCODED_RUSTFLAGS", f.join("\u{1f}").into());
        }
        if let Some(w) = self.wrapper(c.wrapper) {
            put("RUSTC_WRAPPER", w);
        }
        if let Some(w) = self.wrapper(c.ws_wrapper) {
            put("RUSTC_WORKSPACE_WRAPPER", w);
        }
        v
    }

    fn draw(&self) -> Case {
        let w = |l| *pick(l, &[None, None, None, None, None, None, Some(""), Some("through"), Some("sets"), Some("clears"), Some("fails"), Some("not there")]);
        Case {
            toolchain: choose("toolchain", self.toolchains.len() as u32) as usize,
            bootstrap: *pick("bootstrap", &BOOT),
            flags: match choose("flags", FLAGS.len() as u32 + 6) {
                0 => None,
                k => Some(FLAGS.get(k as usize).map_or(Vec::new(), |f| f.to_vec())),
            },
            target: *pick("target", &[Some("x86_64-unknown-linux-gnu"), Some("x86_64-unknown-linux-gnu"), None, Some("thumbv7em-none-eabihf")]),
            wrapper: w("wrapper"),
            ws_wrapper: w("workspace-wrapper"),
        }
    }

    fn once(&self, c: &Case, std: bool, out: &Path, plan: Plan) -> Outcome {
        let s = &self.s;
        detect(&Job {
            script: if std { &s.script_std } else { &s.script_nostd }, cwd: &s.pkg, out_dir: out, env: self.env(c, out), root: &s.root, shim: &s.shim,
            plan: Plan { real: true, ..plan }, answer: &|_| unreachable!(), live: true, tag: "",
        })
    }

    fn expect(&self, c: &Case, std: bool) -> Expect {
        let accepts = self.accepts(c);
        Expect {
            accepts,
            stage: false,
            missing: false,
            minor: Some(Some(self.minors[c.toolchain])),
            std,
            minus_one: !accepts && c.bootstrap == Some("-1") && self.accepts(&Case { bootstrap: None, ..c.clone() }),
            what: format!("{} {c:?}", self.toolchains[c.toolchain].display()),
        }
    }

    fn run(&self, prop: &str) {
        self.s.clean();
        let c = self.draw();
        let std = !chance("no-std", 1, 2);
        let out = out_dir(&self.s, choose("place", 3));
        event(|| format!("{c:?}"));
        cover_text(&format!("{c:?}"));
        let kinds = [FaultKind::Fs, FaultKind::Spawn, FaultKind::Pipe, FaultKind::Interrupt, FaultKind::Vanish];
        if prop == "C08" {
            let o = self.once(&c, std, &out, Plan { faults: if chance("any-faults", 1, 3) { faults(&kinds, 2) } else { Vec::new() }, ..Plan::default() });
            count(if o.on() { "decided on" } else { "decided off" });
            judge(&self.expect(&c, std), &o);
            return;
        }
        for _ in 0..choose("disturbed-runs", 3) {
            let o = self.once(&c, std, &out, Plan { crash_at: Some(choose("crash-at", 32)), ..Plan::default() });
            self.tidy(&out, &o, &c);
        }
        if violated() {
            return;
        }
        let o = self.once(&c, std, &out, Plan::default());
        count("recoveries");
        self.tidy(&out, &o, &c);
        if violated() {
            return;
        }
        if o.code != Some(0) {
            violation("does-not-recover", "detection", format!("{c:?}: {} (stderr {:?})", o.describe(), o.stderr.lines().next()));
        }
        let e = self.expect(&c, std);
        if !e.minus_one {
            judge(&e, &o);
        }
    }

    fn tidy(&self, out: &Path, o: &Outcome, c: &Case) {
        let s = &self.s;
        for (op, p) in &o.written {
            if !p.starts_with(out) {
                violation("writes-elsewhere", "detection", format!("{c:?}: {op} of {}", p.display()));
            }
        }
        let first = |d: &Path, keep: &[&str]| std::fs::read_dir(d).ok().and_then(|r| r.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).find(|n| !keep.contains(&n.as_str())));
        for (d, keep) in [("home", &[][..]), ("tmp", &[]), ("pkg", &["Cargo.toml", "build", "build.rs", "src"]), ("pkg/build", &["probe.rs"])] {
            if let Some(n) = first(&s.root.join(d), keep) {
                violation("writes-elsewhere", "detection", format!("{c:?}: left {d}/{n}"));
                s.reset();
            }
        }
        if o.code == Some(0) {
            if let Some(n) = first(out, &[]) {
                violation("leaves-scratch", "detection", format!("{c:?}: left {n} in its OUT_DIR"));
            }
        }
    }
}

pub fn body(s: Rc<Setup>, prop: &str) -> Box<dyn Fn()> {
    let r = Real::new(s);
    let prop = prop.to_string();
    Box::new(move || r.run(&prop))
}
