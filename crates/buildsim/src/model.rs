//! Compilers, wrappers and settings as a detection may meet them, and what
//! such a compiler does when it is called.
use crate::host::{Answer, Called, Effect};
use simcore::{chance, choose, pick};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::path::{Path, PathBuf};

pub const FEATURE: &str = "error_generic_member_access";

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Compiler {
    pub nightly: bool,
    pub minor: u32,
    /// has the feature in the form the crate needs
    pub api: bool,
    /// RUSTC_BOOTSTRAP=-1 turns unstable features off
    pub minus_one: bool,
    pub version: Version,
    /// knows the target asked for
    pub target_ok: bool,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Version {
    Plain(u32),
    Garbage(u32),
}
const GARBAGE: [&[u8]; 14] = [
    b"", b"\n", b"rustc", b"rustc 1", b"rustc 1.", b"rustc 1.x.0 (abc)\n", b"rustc 2.0.0 (deadbeef 2031-01-01)\n", b"clippy 0.1.70\n", b"rustc 1.-5.0\n",
    b"rustc 1.99999999999999999999.0\n", b"\xff\xfe\x00rustc 1.70.0\n", b"rustc 1.70.0\xff\n", b"error: toolchain '1.x' is not installed\n", b"sccache: rustc 1.70.0\n",
];
impl Compiler {
    pub fn draw(rich: bool) -> Compiler {
        let nightly = choose("nightly", 2) == 0;
        let minor = *pick("minor", &[90, 56, 61, 64, 65, 66, 70, 80, 81, 82, 87, 100, 123]);
        let api = choose("api", 6) != 5;
        Compiler {
            nightly,
            minor,
            api,
            minus_one: chance("minus-one", 1, 2),
            version: if rich && chance("garbage-version", 1, 8) { Version::Garbage(choose("garbage", GARBAGE.len() as u32)) } else { Version::Plain(choose("version-style", 5)) },
            target_ok: !chance("unknown-target", 1, 10),
        }
    }
    pub fn version_line(&self) -> Vec<u8> {
        let m = self.minor;
        match &self.version {
            Version::Garbage(k) => GARBAGE[*k as usize].to_vec(),
            Version::Plain(k) => match (self.nightly, k) {
                (true, 0 | 1) => format!("rustc 1.{m}.0-nightly (92b5b8c87 2026-10-29)\n"),
                (true, _) => format!("rustc 1.{m}.0-dev\n"),
                (false, 0) => format!("rustc 1.{m}.1 (9fc6b4312 2025-03-15)\n"),
                (false, 1) => format!("rustc 1.{m}.0-beta.3 (9fc6b4312 2025-03-15)\n"),
                (false, 2) => format!("rustc 1.{m}.0 (9fc6b4312 2025-03-15) (Fedora 1.{m}.0-2.fc40)\n"),
                (false, 3) => format!("rustc 1.{m}.0\n"),
                (false, _) => format!("rustc 1.{m}.0 (9fc6b4312 2025-03-15) (built from a source tarball)\n"),
            }
            .into_bytes(),
        }
    }
    /// As a user reads it; None if nobody can.
    pub fn known_minor(&self) -> Option<u32> {
        matches!(self.version, Version::Plain(_)).then_some(self.minor)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Wrapper {
    None,
    /// the variable is set, but empty
    Empty,
    Through,
    SetsBootstrap,
    ClearsBootstrap,
    AddsFlag,
    /// runs another compiler than the one it is given
    Swaps,
    Broken,
    Missing,
    /// caches results of compilations
    Caching,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Config {
    pub compiler: Compiler,
    /// the one a swapping wrapper runs
    pub other: Compiler,
    pub bootstrap: Option<String>,
    pub stage: bool,
    pub target: Option<String>,
    /// None: the variable is not set
    pub flags: Option<Vec<String>>,
    pub wrapper: Wrapper,
    pub ws_wrapper: Wrapper,
    pub bare_rustc: bool,
    pub std: bool,
    pub missing: Option<&'static str>,
    pub more_env: u32,
}

const FLAG_SETS: [&[&str]; 16] = [
    &[],
    &["-Copt-level=3"],
    &["-Zallow-features="],
    &["-Zallow-features=error_generic_member_access"],
    &["-Zallow-features=core_intrinsics,error_generic_member_access"],
    &["-Zallow-features=core_intrinsics"],
    &["-Z", "allow-features=core_intrinsics"],
    &["-Cbogus"],
    &["--cfg", "name=\"two words\""],
    &["-C", "link-arg=-s", "--cfg", "x"],
    &["-Zunstable-options"],
    &["-Ctarget-cpu=native", "-Zallow-features="],
    &["--cfg", "a=\"-Zallow-features=\""],
    &["-Dwarnings", "-Aunused"],
    &["-L", "native=/opt/some where", "-lfoo"],
    &["--cfg=thiserror_nightly_testing"],
];

impl Config {
    pub fn draw() -> Config {
        let wrapper = |l| *pick(l, &[Wrapper::None, Wrapper::None, Wrapper::None, Wrapper::None, Wrapper::None, Wrapper::None, Wrapper::None, Wrapper::None, Wrapper::None, Wrapper::Empty, Wrapper::Empty, Wrapper::Through, Wrapper::Through, Wrapper::Through, Wrapper::SetsBootstrap, Wrapper::ClearsBootstrap, Wrapper::AddsFlag, Wrapper::Swaps, Wrapper::Broken, Wrapper::Missing]);
        Config {
            compiler: Compiler::draw(true),
            other: Compiler::draw(false),
            bootstrap: pick("bootstrap", &[None, Some("1"), Some("0"), Some("-1"), Some("thiserror"), Some("other"), Some("other,thiserror"), Some("thiserror_impl"), Some(""), Some("thiserror,x"), Some("1,thiserror_impl"), None, Some("1"), Some("1"), Some("thiserror"), None]).map(String::from),
            stage: chance("stage", 1, 24),
            target: pick("target", &[Some("x86_64-unknown-linux-gnu"), Some("thumbv7em-none-eabihf"), Some("/opt/my targets/board.json"), None]).map(String::from),
            flags: match choose("flags", FLAG_SETS.len() as u32 + 9) {
                0 => None,
                k if k > FLAG_SETS.len() as u32 => Some(Vec::new()),
                k => Some(FLAG_SETS[k as usize - 1].iter().map(|s| s.to_string()).collect()),
            },
            wrapper: wrapper("wrapper"),
            ws_wrapper: wrapper("workspace-wrapper"),
            bare_rustc: chance("bare-rustc", 1, 3),
            std: !chance("no-std", 1, 2),
            missing: match choose("missing", 40) {
                39 => Some("RUSTC"),
                38 => Some("OUT_DIR"),
                _ => None,
            },
            more_env: choose("more-env", 4),
        }
    }
    pub fn env(&self, root: &Path, out: &Path) -> Vec<(OsString, OsString)> {
        let bin = root.join("bin");
        let mut v: Vec<(OsString, OsString)> = Vec::new();
        let mut put = |k: &str, x: OsString| v.push((k.into(), x));
        put("PATH", bin.clone().into());
        put("HOME", root.join("home").into());
        put("TMPDIR", root.join("tmp").into());
        put("CARGO_MANIFEST_DIR", root.join("pkg").into());
        put("CARGO_PKG_NAME", "thiserror".into());
        put("HOST", "x86_64-unknown-linux-gnu".into());
        put("NUM_JOBS", "4".into());
        put("PROFILE", "debug".into());
        if self.std {
            put("CARGO_FEATURE_STD", "1".into());
        }
        if self.missing != Some("RUSTC") {
            put("RUSTC", if self.bare_rustc { "rustc".into() } else { bin.join("rustc").into() });
        }
        if self.missing != Some("OUT_DIR") {
            put("OUT_DIR", out.into());
        }
        if let Some(b) = &self.bootstrap {
            put("RUSTC_BOOTSTRAP", b.into());
        }
        if self.stage {
            put("RUSTC_STAGE", "1".into());
        }
        if let Some(t) = &self.target {
            put("TARGET", t.into());
        }
        if let Some(f) = &self.flags {
            put("CARGO_ENCODED_RUSTFLAGS", f.join("\u{1f}").into());
        }
        for (var, w, name) in [("RUSTC_WRAPPER", self.wrapper, "wrap"), ("RUSTC_WORKSPACE_WRAPPER", self.ws_wrapper, "wswrap")] {
            match w {
                Wrapper::None => {}
                Wrapper::Empty => put(var, "".into()),
                Wrapper::Missing => put(var, bin.join("no such wrapper").into()),
                _ => put(var, bin.join(name).into()),
            }
        }
        match self.more_env {
            1 => {
                put("RUSTFLAGS", "-Zallow-features=".into());
                put("RUST_BACKTRACE", "1".into());
            }
            2 => {
                put("RUSTDOC", "rustdoc".into());
                put("RUSTC_LINKER", "ld".into());
                put("DEBUG", "true".into());
            }
            3 => {
                put("CARGO_CFG_TARGET_OS", "none".into());
                put("RUST_MIN_STACK", "1000000".into());
                put("LANG", "C".into());
            }
            _ => {}
        }
        v
    }
    /// Does the build of the crate itself, in this environment, get through
    /// with the feature used?
    pub fn accepts(&self) -> bool {
        let mut c = &self.compiler;
        let mut bootstrap = self.bootstrap.clone();
        let mut flags: Vec<String> = self.flags.clone().unwrap_or_default();
        for w in [self.wrapper, self.ws_wrapper] {
            match w {
                Wrapper::Broken | Wrapper::Missing => return false,
                Wrapper::SetsBootstrap => bootstrap = Some("1".into()),
                Wrapper::ClearsBootstrap => bootstrap = None,
                Wrapper::AddsFlag => flags.push("-Zallow-features=".into()),
                Wrapper::Swaps => c = &self.other,
                Wrapper::None | Wrapper::Empty | Wrapper::Through | Wrapper::Caching => {}
            }
        }
        compiles(c, bootstrap.as_deref(), "thiserror", &flags, self.target.is_some(), true)
    }
}

/// The compiler's rule for a crate that turns the feature on and uses it.
pub fn compiles(c: &Compiler, bootstrap: Option<&str>, krate: &str, flags: &[String], target: bool, feature: bool) -> bool {
    if target && !c.target_ok {
        return false;
    }
    let cheat = bootstrap.is_some_and(|b| b == "1" || b.split(',').any(|x| x == krate));
    let unstable = if cheat { true } else if bootstrap == Some("-1") && c.minus_one { false } else { c.nightly };
    let mut allowed: Option<Vec<String>> = None;
    let mut i = 0;
    while i < flags.len() {
        let f = &flags[i];
        let joined;
        let f = if matches!(f.as_str(), "-Z" | "-C") && i + 1 < flags.len() {
            i += 1;
            joined = format!("{f}{}", flags[i]);
            &joined
        } else {
            f
        };
        if let Some(z) = f.strip_prefix("-Z") {
            if !unstable {
                return false;
            }
            if let Some(l) = z.strip_prefix("allow-features=") {
                allowed = Some(l.split(',').map(String::from).collect());
            }
        }
        if f == "-Cbogus" {
            return false;
        }
        i += 1;
    }
    if !feature {
        return true;
    }
    unstable && c.api && allowed.is_none_or(|a| a.iter().any(|x| x == FEATURE))
}

/// What the real compilers say about the probe in /repo.
#[derive(Clone, Debug)]
pub struct Profile {
    /// compiles where the feature is available
    pub sound: bool,
    /// fails to compile where it is not
    pub gated: bool,
    /// environment variables its dependency information names
    pub env_deps: Vec<String>,
}

/// Cache of a caching wrapper: results keyed by compiler, arguments, source and the
/// values of the variables named by the dependency information of that source.
pub type Cache = RefCell<BTreeMap<String, Vec<Effect>>>;

pub struct World<'a> {
    pub config: &'a Config,
    pub profile: &'a Profile,
    pub cache: Option<&'a Cache>,
}

const WITH_VALUE: [&str; 18] = ["-C", "-Z", "--cfg", "--check-cfg", "--target", "--out-dir", "-L", "-l", "--extern", "--emit", "--edition", "--crate-name", "--crate-type", "--cap-lints", "-A", "-W", "-D", "-o"];

fn fail(code: i32) -> Answer {
    Answer { code, ..Answer::default() }
}

impl World<'_> {
    pub fn answer(&self, called: &Called) -> Answer {
        let mut env: BTreeMap<String, String> = called.env.iter().cloned().collect();
        let mut argv: Vec<String> = called.argv.clone();
        let mut c = &self.config.compiler;
        let mut extra = Vec::new();
        let mut caching = false;
        loop {
            let Some(prog) = argv.first().cloned() else { return fail(2) };
            let base = prog.rsplit('/').next().unwrap_or("").to_string();
            let w = match base.as_str() {
                "wrap" => self.config.wrapper,
                "wswrap" => self.config.ws_wrapper,
                "rustc" => break,
                _ => return fail(127),
            };
            argv.remove(0);
            if argv.is_empty() {
                return fail(2);
            }
            match w {
                Wrapper::Broken => return fail(1),
                Wrapper::SetsBootstrap => {
                    env.insert("RUSTC_BOOTSTRAP".into(), "1".into());
                }
                Wrapper::ClearsBootstrap => {
                    env.remove("RUSTC_BOOTSTRAP");
                }
                Wrapper::AddsFlag => extra.push("-Zallow-features=".to_string()),
                Wrapper::Swaps => c = &self.config.other,
                Wrapper::Caching => caching = true,
                _ => {}
            }
        }
        let mut args: Vec<String> = argv[1..].to_vec();
        args.extend(extra);
        if args.iter().any(|a| matches!(a.as_str(), "--version" | "-V" | "-vV" | "-Vv")) {
            let mut text = c.version_line();
            if args.iter().any(|a| matches!(a.as_str(), "-vV" | "-Vv")) || args.iter().any(|a| a == "-v" || a == "--verbose") {
                text.extend_from_slice(format!("binary: rustc\nhost: x86_64-unknown-linux-gnu\nrelease: 1.{}.0{}\n", c.minor, if c.nightly { "-nightly" } else { "" }).as_bytes());
            }
            let code = i32::from(matches!(c.version, Version::Garbage(12)));
            return Answer { stdout: text, code, ..Answer::default() };
        }
        self.compile(c, called, &args, &env, caching)
    }

    fn compile(&self, c: &Compiler, called: &Called, args: &[String], env: &BTreeMap<String, String>, caching: bool) -> Answer {
        let mut val: BTreeMap<String, String> = BTreeMap::new();
        let (mut inputs, mut flags) = (Vec::new(), Vec::new());
        let mut key = Vec::new();
        let mut i = 0;
        while i < args.len() {
            let a = &args[i];
            if WITH_VALUE.contains(&a.as_str()) {
                let Some(v) = args.get(i + 1) else { return fail(1) };
                if a.starts_with("--") || a == "-o" {
                    val.insert(a.trim_start_matches('-').into(), v.clone());
                }
                if a != "--out-dir" {
                    key.push(format!("{a}={v}"));
                }
                flags.push(a.clone());
                flags.push(v.clone());
                i += 2;
                continue;
            }
            if let Some((k, v)) = a.strip_prefix("--").and_then(|x| x.split_once('=')) {
                val.insert(k.into(), v.into());
                if k != "out-dir" {
                    key.push(a.clone());
                }
                flags.push(a.clone());
            } else if a.starts_with('-') {
                flags.push(a.clone());
                key.push(a.clone());
            } else {
                inputs.push(a.clone());
            }
            i += 1;
        }
        if inputs.len() != 1 {
            return fail(1);
        }
        let Ok(text) = std::fs::read_to_string(Path::new(&called.cwd).join(&inputs[0])) else { return fail(1) };
        let krate = val.get("crate-name").cloned().unwrap_or_else(|| Path::new(&inputs[0]).file_stem().map_or(String::new(), |s| s.to_string_lossy().replace('-', "_")));
        let out = Path::new(&called.cwd).join(val.get("out-dir").map_or(".", String::as_str));
        // what the tests of this model stand for: the text of the probe, or one edited by its maintainers
        let feature = self.profile.gated;
        let mut ok = compiles(c, env.get("RUSTC_BOOTSTRAP").map(String::as_str), &krate, &flags, val.contains_key("target"), feature) && (self.profile.sound || !feature);
        if text.contains("sim-edit: broken") {
            ok = false;
        }
        if text.contains("sim-edit: needs 85") && c.minor < 85 {
            ok = false;
        }
        let emit = val.get("emit").cloned().unwrap_or_else(|| "link".into());
        let mut effects = Vec::new();
        let name = |pre: &str, ext: &str| -> PathBuf { out.join(format!("{pre}{krate}{ext}")) };
        let tmp = out.join("rmetaK3x9Qa");
        let full = |effects: &mut Vec<Effect>| {
            for e in emit.split(',') {
                match e {
                    "dep-info" => {
                        let mut t = format!("{}: {}\n", name("", ".d").display(), inputs[0]);
                        for d in &self.profile.env_deps {
                            t.push_str(&match env.get(d) {
                                Some(v) => format!("# env-dep:{d}={v}\n"),
                                None => format!("# env-dep:{d}\n"),
                            });
                        }
                        effects.push(Effect::Write(name("", ".d"), t));
                    }
                    "metadata" => {
                        effects.push(Effect::Mkdir(tmp.clone()));
                        effects.push(Effect::Write(tmp.join("lib.rmeta"), "metadata".into()));
                        effects.push(Effect::Write(name("lib", ".rmeta"), "metadata".into()));
                        effects.push(Effect::Remove(tmp.clone()));
                    }
                    "link" => effects.push(Effect::Write(name("lib", ".rlib"), "code".into())),
                    "obj" => effects.push(Effect::Write(name("", ".o"), "code".into())),
                    "llvm-ir" => effects.push(Effect::Write(name("", ".ll"), "code".into())),
                    "asm" => effects.push(Effect::Write(name("", ".s"), "code".into())),
                    "mir" => effects.push(Effect::Write(name("", ".mir"), "code".into())),
                    _ => {}
                }
            }
        };
        if caching {
            let mut k = format!("{c:?}\u{1}{}\u{1}{text}", key.join("\u{1}"));
            for d in &self.profile.env_deps {
                k.push_str(&format!("\u{1}{d}={:?}", env.get(d)));
            }
            if let Some(cache) = self.cache {
                if cache.borrow().contains_key(&k) {
                    if simcore::in_sim() {
                        simcore::count("compilations answered from a cache");
                    }
                    full(&mut effects);
                    return Answer { effects, compile: true, ..Answer::default() };
                }
                if ok {
                    cache.borrow_mut().insert(k, Vec::new());
                }
            }
        }
        if ok {
            full(&mut effects);
            return Answer { effects, compile: true, ..Answer::default() };
        }
        // dependency information comes before the errors
        if emit.contains("dep-info") {
            effects.push(Effect::Write(name("", ".d"), format!("{}\n", inputs[0])));
        }
        Answer { effects, code: 1, compile: true, ..Answer::default() }
    }
}
