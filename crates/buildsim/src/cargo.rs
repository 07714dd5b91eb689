//! C10 with the installed cargo: the same questions as in `history`, answered
//! by real builds. It keeps the model of cargo there honest.
use crate::real::toolchains;
use crate::{var, Setup};
use simcore::{chance, choose, count, cover, event, pick, violation};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::rc::Rc;

const BOOT: [Option<&str>; 5] = [None, Some("1"), Some("thiserror"), Some("0"), Some("other")];
const FLAGS: [&str; 5] = ["", "-Copt-level=1", "-Zallow-features=", "-Zallow-features=error_generic_member_access", "--cfg=other"];

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Build {
    toolchain: usize,
    bootstrap: Option<&'static str>,
    flags: &'static str,
    target: bool,
    std: bool,
    edit: &'static str,
}

struct Cargo {
    s: Rc<Setup>,
    toolchains: Vec<PathBuf>,
    cargo: PathBuf,
    fresh: RefCell<BTreeMap<Build, Option<Vec<String>>>>,
}

impl Cargo {
    /// None: the build fails.
    fn build(&self, b: &Build, target_dir: &Path) -> Option<(Vec<String>, bool)> {
        let s = &self.s;
        let mut c = Command::new(&self.cargo);
        c.args(["build", "--offline", "--message-format=json", "-q"]).current_dir(&s.pkg).env_clear();
        c.env("PATH", "/usr/bin:/bin").env("HOME", s.root.join("home")).env("CARGO_HOME", s.root.join("home/cargo")).env("TMPDIR", s.root.join("tmp"));
        c.env("CARGO_TARGET_DIR", target_dir).env("RUSTC", &self.toolchains[b.toolchain]).stdin(Stdio::null()).stderr(Stdio::piped());
        if let Some(x) = b.bootstrap {
            c.env("RUSTC_BOOTSTRAP", x);
        }
        if !b.flags.is_empty() {
            c.env("RUSTFLAGS", b.flags);
        }
        if b.target {
            c.args(["--target", "x86_64-unknown-linux-gnu"]);
        }
        if !b.std {
            c.arg("--no-default-features");
        }
        let o = c.output().expect("cargo");
        simcore::PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if !o.status.success() {
            return None;
        }
        let text = String::from_utf8_lossy(&o.stdout).into_owned();
        let l = text.lines().find(|l| l.contains("\"reason\":\"build-script-executed\""))?;
        let l = l.split_once("\"cfgs\":[")?.1.split_once("],\"")?.0;
        let mut v: Vec<String> = l.split(',').map(|x| x.replace(['"', '\\'], "")).filter(|x| !x.is_empty()).collect();
        v.sort();
        Some((v, true))
    }

    fn probe(&self, edit: &str) {
        // as seen by a clock that has moved on
        std::thread::sleep(std::time::Duration::from_millis(25));
        std::fs::write(self.s.pkg.join("build/probe.rs"), format!("{}{edit}", self.s.probe)).expect("scratch");
        std::thread::sleep(std::time::Duration::from_millis(25));
    }

    fn fresh(&self, b: &Build) -> Option<Vec<String>> {
        if let Some(v) = self.fresh.borrow().get(b) {
            return v.clone();
        }
        let d = self.s.root.join("target/fresh");
        let _ = std::fs::remove_dir_all(&d);
        let v = self.build(b, &d).map(|x| x.0);
        let _ = std::fs::remove_dir_all(&d);
        self.fresh.borrow_mut().insert(b.clone(), v.clone());
        v
    }

    fn run(&self) {
        let s = &self.s;
        s.clean();
        self.probe("");
        let mut b = Build { toolchain: choose("toolchain", self.toolchains.len() as u32) as usize, bootstrap: *pick("bootstrap", &BOOT), flags: "", target: false, std: true, edit: "" };
        let d = s.root.join("target/history");
        for step in 0..(2 + choose("builds", 4)) {
            if step > 0 {
                match choose("change", 8) {
                    0..=2 => b.bootstrap = *pick("bootstrap", &BOOT),
                    3 => b.toolchain = choose("toolchain", self.toolchains.len() as u32) as usize,
                    4 => b.flags = *pick("flags", &FLAGS),
                    5 => b.std = !b.std,
                    6 => {
                        b.edit = *pick("edit", &["", "\ncompile_error!();\n", "\n// edited\n"]);
                        self.probe(b.edit);
                    }
                    _ => b.target = chance("target", 1, 2),
                }
            }
            let got = self.build(&b, &d).map(|x| x.0);
            let now = self.fresh(&b);
            count("builds by the real cargo");
            cover(crate::hash(&format!("{b:?} {step} {got:?}")));
            event(|| format!("build {step}: {} {b:?} -> {got:?}", self.toolchains[b.toolchain].display()));
            if got != now {
                violation("stale", "detection", format!("build {step} in an existing target directory goes by {got:?}, one in a new directory by {now:?}: {} {b:?}", self.toolchains[b.toolchain].display()));
                return;
            }
        }
    }
}

pub fn body(s: Rc<Setup>) -> Box<dyn Fn()> {
    let manifest = "[package]\nname = \"thiserror\"\nversion = \"2.0.12\"\nedition = \"2021\"\nbuild = \"build.rs\"\n[features]\ndefault = [\"std\"]\nstd = []\n[workspace]\n";
    std::fs::write(s.pkg.join("Cargo.toml"), manifest).expect("scratch");
    std::fs::write(s.pkg.join("src/lib.rs"), "#![allow(unexpected_cfgs)]\n").expect("scratch");
    let c = Cargo { s, toolchains: toolchains(), cargo: var("SIM_CARGO"), fresh: RefCell::new(BTreeMap::new()) };
    Box::new(move || c.run())
}
