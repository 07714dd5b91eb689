//! The build script of /repo under the simulator: the real program, compiled
//! from build.rs, runs with its file-system and process operations decided by
//! the run, against simulated compilers (`SIM_MODE=fake`) or the installed ones
//! (`SIM_MODE=real`), and under the installed cargo (`SIM_MODE=cargo`).
mod cargo;
mod detect;
mod history;
mod host;
mod model;
mod real;

use std::path::PathBuf;
use std::rc::Rc;

pub struct Setup {
    pub root: PathBuf,
    pub pkg: PathBuf,
    pub script_std: PathBuf,
    pub script_nostd: PathBuf,
    pub shim: PathBuf,
    pub profile: model::Profile,
    pub probe: String,
    repo: PathBuf,
    fake: PathBuf,
}
pub fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3))
}
pub fn var(k: &str) -> PathBuf {
    PathBuf::from(std::env::var_os(k).unwrap_or_else(|| panic!("{k}")))
}

impl Setup {
    fn new() -> Setup {
        let repo = var("SIM_REPO");
        let root = var("SIM_SCRATCH").join("w\u{f6}rld 1");
        let prof = std::env::var("SIM_PROFILE").expect("SIM_PROFILE");
        let f: Vec<&str> = prof.split(',').collect();
        let s = Setup {
            pkg: root.join("pkg"),
            root,
            script_std: var("SIM_SCRIPT_STD"),
            script_nostd: var("SIM_SCRIPT_NOSTD"),
            shim: var("SIM_SHIM"),
            profile: model::Profile { sound: f[0] == "1", gated: f[1] == "1", env_deps: f[2..].iter().map(|s| s.to_string()).collect() },
            probe: std::fs::read_to_string(repo.join("build/probe.rs")).expect("probe.rs"),
            fake: var("SIM_FAKE"),
            repo,
        };
        s.reset();
        s
    }
    /// The world as it is before every run.
    pub fn reset(&self) {
        let _ = std::fs::remove_dir_all(&self.root);
        for d in ["bin", "home", "tmp", "target", "pkg/build", "pkg/src"] {
            std::fs::create_dir_all(self.root.join(d)).expect("scratch");
        }
        for f in ["build.rs", "build/probe.rs", "src/lib.rs", "Cargo.toml"] {
            std::fs::copy(self.repo.join(f), self.pkg.join(f)).expect("scratch");
        }
        if self.fake.is_file() {
            for n in ["rustc", "wrap", "wswrap"] {
                if std::fs::hard_link(&self.fake, self.root.join("bin").join(n)).is_err() {
                    std::fs::copy(&self.fake, self.root.join("bin").join(n)).expect("scratch");
                }
            }
        }
    }
    /// A run before this one may have edited it.
    pub fn restore_probe(&self) {
        let f = self.pkg.join("build/probe.rs");
        if std::fs::read_to_string(&f).ok().as_deref() != Some(self.probe.as_str()) {
            std::fs::write(&f, &self.probe).expect("scratch");
        }
    }
    pub fn clean(&self) {
        let t = self.root.join("target");
        let _ = std::fs::remove_dir_all(&t);
        std::fs::create_dir_all(&t).expect("scratch");
    }
}

fn main() {
    let s = Rc::new(Setup::new());
    let mode = std::env::var("SIM_MODE").expect("SIM_MODE");
    simcore::runner::main(&|prop, _| {
        let s = s.clone();
        let body: Box<dyn Fn()> = match (mode.as_str(), prop) {
            ("fake", "C08") => Box::new(move || detect::c08(&s)),
            ("fake", "C09") => Box::new(move || detect::c09(&s)),
            ("fake", "C10") => Box::new(move || history::c10(&s)),
            ("real", _) => real::body(s, prop),
            ("cargo", _) => cargo::body(s),
            _ => panic!("no such mode"),
        };
        body
    })
}
