//! C10: many builds in one target directory, with cargo's rules for when the
//! build script runs again.
use crate::detect::{cover_text, expect, fresh, out_dir, script};
use crate::host::{detect, Job, Outcome, Plan};
use crate::model::{Cache, Compiler, Config, World, Wrapper};
use crate::Setup;
use simcore::{chance, choose, count, event, pick, violated, violation};
use std::collections::BTreeMap;

/// What cargo keeps of a run of the build script.
struct Kept {
    rustc: Vec<u8>,
    flags: Vec<String>,
    env: Vec<(String, Option<String>)>,
    /// file, stamp when the script ran; no entry: any file of the package
    files: Vec<(String, u64)>,
    out: Outcome,
}

struct Tree {
    probe: (String, u64),
    other: u64,
    clock: u64,
}

fn value(c: &Config, s: &Setup, var: &str) -> Option<String> {
    c.env(&s.root, &s.root).into_iter().find(|(k, _)| k == var).map(|(_, v)| v.to_string_lossy().into_owned())
}

fn stamp(t: &Tree, file: &str) -> u64 {
    if file.trim_start_matches("./") == "build/probe.rs" || file == "build" || file.ends_with("/build/probe.rs") {
        t.probe.1
    } else if file == "build.rs" {
        0
    } else {
        // a file that is not there always counts as changed
        u64::MAX
    }
}

pub fn c10(s: &Setup) {
    s.clean();
    s.restore_probe();
    let mut c = Config { wrapper: Wrapper::None, ws_wrapper: Wrapper::None, missing: None, stage: false, bare_rustc: false, more_env: 0, ..Config::draw() };
    c.compiler = Compiler::draw(false);
    let cache = Cache::default();
    let mut tree = Tree { probe: (s.probe.clone(), 1), other: 1, clock: 1 };
    let mut kept: BTreeMap<(u32, bool), Kept> = BTreeMap::new();
    let steps = 2 + choose("builds", 7);
    for step in 0..steps {
        if step > 0 {
            for _ in 0..=choose("changes", 2) {
                change(&mut c, &mut tree, s);
            }
        }
        // what cargo keeps apart: the target and the features
        let place = match c.target.as_deref() {
            None => 0,
            Some("x86_64-unknown-linux-gnu") => 1,
            _ => 2,
        };
        let out = out_dir(s, place);
        let key = (place, c.std);
        let why = match kept.get(&key) {
            None => Some("never ran"),
            Some(k) if k.rustc != c.compiler.version_line() => Some("other compiler"),
            Some(k) if k.flags != c.flags.clone().unwrap_or_default() => Some("other flags"),
            Some(k) if k.env.iter().any(|(v, x)| value(&c, s, v) != *x) => Some("variable changed"),
            Some(k) if k.files.iter().any(|(f, x)| *x == u64::MAX || stamp(&tree, f) != *x) => Some("file changed"),
            Some(_) => None,
        };
        event(|| format!("build {step}: {} | {:?} flags {:?} bootstrap {:?} wrapper {:?} target {:?} std {}", why.unwrap_or("fresh"), c.compiler, c.flags, c.bootstrap, c.wrapper, c.target, c.std));
        if why.is_some() {
            let world = World { config: &c, profile: &s.profile, cache: Some(&cache) };
            // a first attempt may be cut short: cargo runs the script again
            let crash_at = if chance("crash", 1, 8) { Some(choose("crash-at", 40)) } else { None };
            let mut o = None;
            for crash_at in [crash_at, None] {
                let r = detect(&Job {
                    script: script(s, &c), cwd: &s.pkg, out_dir: &out, env: c.env(&s.root, &out), root: &s.root, shim: &s.shim,
                    plan: Plan { crash_at, ..Plan::default() }, answer: &|q| world.answer(q), live: true, tag: "",
                });
                if !r.killed {
                    o = Some(r);
                    break;
                }
            }
            let o = o.expect("a detection without a crash");
            if o.code != Some(0) {
                return; // the build fails; C08 judges that
            }
            let mut env = Vec::new();
            let mut files = Vec::new();
            for l in o.lines() {
                if let Some(v) = l.strip_prefix("rerun-if-env-changed=") {
                    env.push((v.to_string(), value(&c, s, v)));
                }
                if let Some(f) = l.strip_prefix("rerun-if-changed=") {
                    files.push((f.to_string(), stamp(&tree, f)));
                }
            }
            if env.is_empty() && files.is_empty() {
                files.push(("build/probe.rs".into(), tree.probe.1));
            }
            count("detections run");
            kept.insert(key, Kept { rustc: c.compiler.version_line(), flags: c.flags.clone().unwrap_or_default(), env, files, out: o });
        } else {
            count("detections reused");
        }
        let k = &kept[&key];
        let now = fresh(s, &Config { wrapper: Wrapper::None, ..c.clone() });
        cover_text(&format!("{:?} {:?} {:?} {:?} {}", c.bootstrap, c.compiler, c.wrapper, why, k.out.on()));
        // the known weakness is the same with and without a history
        if k.out.cfgs() != now.cfgs() {
            violation(
                "stale", "detection",
                format!("build {step} ({}) goes by {:?}, but a fresh detection says {:?}; now bootstrap {:?}, compiler {:?}, flags {:?}, wrapper {:?}, accepted {}", why.unwrap_or("nothing cargo looks at has changed"), k.out.cfgs(), now.cfgs(), c.bootstrap, c.compiler, c.flags, c.wrapper, expect(&c).accepts),
            );
        }
        if violated() {
            break;
        }
    }
}

fn change(c: &mut Config, t: &mut Tree, s: &Setup) {
    match choose("change", 9) {
        0 | 1 => {
            c.bootstrap = pick("bootstrap", &[None, Some("1"), Some("0"), Some("-1"), Some("thiserror"), Some("other"), Some("other,thiserror"), Some("")]).map(String::from);
            count("fault:bootstrap setting changed");
        }
        2 => {
            let old = c.compiler.clone();
            c.compiler = Compiler::draw(false);
            // distinct compilers say so in their version
            if c.compiler.version_line() == old.version_line() {
                c.compiler = Compiler { minor: old.minor + 1, ..c.compiler.clone() };
            }
            count("fault:compiler replaced");
        }
        3 => {
            c.flags = Config::draw().flags;
            count("fault:flags changed");
        }
        4 => {
            c.wrapper = if c.wrapper == Wrapper::Caching { Wrapper::None } else { Wrapper::Caching };
            count("fault:caching wrapper switched");
        }
        5 => {
            c.std = !c.std;
            count("fault:features changed");
        }
        6 => {
            c.target = if chance("no-target", 1, 2) { None } else { Some("x86_64-unknown-linux-gnu".into()) };
            count("fault:target changed");
        }
        7 => {
            t.clock += 1;
            let edit = *pick("edit", &["", "\n// sim-edit: broken\n", "\n// sim-edit: needs 85\n"]);
            t.probe = (format!("{}{edit}", s.probe), t.clock);
            std::fs::write(s.pkg.join("build/probe.rs"), &t.probe.0).expect("scratch");
            count("fault:probe edited");
        }
        _ => {
            t.clock += 1;
            t.other = t.clock;
            count("fault:unrelated file changed");
        }
    }
}
