//! The same items in real compiler processes, one session against another.
use crate::{corpus, diff, hash, Item};
use simcore::{choose, count, cover, event, mix, pick, violation};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::rc::Rc;

struct Setup {
    items: Vec<Item>,
    rustc: PathBuf,
    libs: PathBuf,
    lib: PathBuf,
    shim: PathBuf,
    scratch: PathBuf,
}

/// What one compiler process sees besides the items.
#[derive(Clone, Default)]
struct World {
    hash_seed: u64,
    clock: i64,
    pid: u32,
    place: u32,
    env: u32,
    threads: u32,
    strategy: u32,
    indent: u32,
}
impl World {
    fn other() -> World {
        let w = World {
            hash_seed: u64::from(choose("hash-seed", 1 << 16)),
            clock: i64::from(choose("clock", 1 << 16)) * 86_413,
            pid: choose("pid", 4),
            place: choose("place", 3),
            env: choose("environment", 6),
            threads: choose("threads", 3),
            strategy: choose("strategy", 2),
            indent: choose("indent", 3),
        };
        for (on, name) in [(w.hash_seed != 0, "fault:hash seed changed"), (w.clock != 0, "fault:clock jump"), (w.pid != 0, "fault:other process id"), (w.place != 0, "fault:other directory and file name"),
            (w.env != 0, "fault:other environment"), (w.threads != 0, "fault:parallel compiler front end"), (w.strategy != 0, "fault:macro on another thread"), (w.indent != 0, "fault:items moved within the file")] {
            if on {
                count(name);
            }
        }
        w
    }
}

fn source(s: &Setup, order: &[usize], w: &World) -> String {
    let mut o = String::new();
    for (k, i) in order.iter().enumerate() {
        for _ in 0..(w.indent * (3 + k as u32)) {
            o.push('\n');
        }
        let pad = " ".repeat((w.indent * 5) as usize);
        o.push_str(&format!("{pad}mod m {{ const BEGIN_{k}: () = ();\n{pad}#[derive(thiserror::Error)]\n{pad}{}\nconst END_{k}: () = (); }}\n", s.items[*i].text.trim()));
    }
    o
}

/// The printer's line breaks depend on where things stand in the file; its tokens do not.
fn tokens(text: &str) -> String {
    match text.parse() {
        Ok(ts) => crate::inproc::text_of(ts),
        Err(_) => text.split_whitespace().collect::<Vec<_>>().join(" "),
    }
}

fn compile(s: &Setup, order: &[usize], w: &World) -> Vec<Option<String>> {
    let dir = s.scratch.join(["one", "another place/deep", "sess:x"][w.place as usize]);
    std::fs::create_dir_all(&dir).expect("scratch");
    let file = ["lib.rs", "m\u{e4}in.rs", "z9.rs"][w.place as usize];
    std::fs::write(dir.join(file), source(s, order, w)).expect("scratch");
    for attempt in 0..3 {
        let mut c = Command::new(&s.rustc);
        c.current_dir(&dir)
            .args(["-Zunpretty=expanded", "--edition=2021", "--crate-type=lib"])
            .arg(file)
            .arg("-L")
            .arg(format!("dependency={}", s.libs.display()))
            .arg("--extern")
            .arg(format!("thiserror={}", s.lib.display()))
            .env_clear()
            .env("PATH", "/usr/bin:/bin")
            .env("LD_PRELOAD", &s.shim)
            .env("TMPDIR", &s.scratch)
            .env("SIM_HASH_SEED", w.hash_seed.to_string())
            .env("SIM_CLOCK", w.clock.to_string())
            .stdin(Stdio::null());
        if w.pid > 0 {
            c.env("SIM_PID", (1000 + w.pid * 7919).to_string());
        }
        if w.threads > 0 {
            c.arg(format!("-Zthreads={}", 1 << w.threads));
        }
        if w.strategy > 0 {
            c.arg("-Zproc-macro-execution-strategy=cross-thread");
        }
        match w.env {
            1 => {
                c.env("RUST_BACKTRACE", "1").env("CARGO_PKG_NAME", "a").env("CARGO_MANIFEST_DIR", &dir).env("CARGO_CRATE_NAME", "a");
            }
            2 => {
                c.env("OUT_DIR", &s.scratch).env("TERM", "dumb").env("HOME", "/nonexistent").env("DEBUG", "true").args(["-Copt-level=3", "--cfg", "docsrs", "--crate-name", "other"]);
            }
            3 => {
                c.env("LANG", "C").env("CARGO", "/bin/true").env("THISERROR_DEBUG", "1").env("RUSTC_WRAPPER", "sccache").env("NUM_JOBS", "1").env("CI", "1").args(["-Cdebuginfo=2", "-Cmetadata=x"]);
            }
            4 => {
                c.env("PROFILE", "release").env("OPT_LEVEL", "3").env("CARGO_PRIMARY_PACKAGE", "1").env("CARGO_ENCODED_RUSTFLAGS", "").env("TARGET", "wasm32-unknown-unknown").env("DOCS_RS", "1").env("CARGO_BIN_NAME", "x").arg("-Cdebug-assertions=off");
            }
            5 => {
                c.env("PROFILE", "debug").env("DEBUG", "0").env("RUST_LIB_BACKTRACE", "0").env("USER", "nobody").env("PWD", "/").env("TZ", "Asia/Tokyo").env("COLUMNS", "40").env("LC_ALL", "de_DE.UTF-8").env("CARGO_TERM_COLOR", "always").env("CARGO_PKG_VERSION", "0.1.0");
            }
            _ => {}
        }
        let out = c.output().expect("rustc");
        if out.status.code().is_none() && attempt < 2 {
            continue; // killed from outside
        }
        assert!(out.status.code().is_some(), "rustc was killed");
        let text = String::from_utf8_lossy(&out.stdout);
        return (0..order.len())
            .map(|k| {
                let a = text.find(&format!("const BEGIN_{k}:"))?;
                let a = a + text[a..].find('\n')?;
                let b = text[a..].find(&format!("const END_{k}:"))?;
                Some(tokens(&text[a..a + b]))
            })
            .collect();
    }
    unreachable!()
}

fn run(s: &Setup) {
    let n = 6 + choose("items", 24);
    let watched: Vec<usize> = (0..n).map(|_| choose("item", s.items.len() as u32) as usize).collect();
    let reference = compile(s, &watched, &World::default());
    for (k, i) in watched.iter().enumerate() {
        event(|| format!("{} -> {:016x}", s.items[*i].name, reference[k].as_deref().map_or(0, hash)));
    }
    let w = World::other();
    let mut order = watched.clone();
    if choose("reorder", 2) == 1 {
        count("fault:other order");
        for k in (1..order.len()).rev() {
            order.swap(k, choose("swap", k as u32 + 1) as usize);
        }
    }
    for _ in 0..choose("neighbours", 20) {
        count("fault:other items before or between");
        let at = choose("neighbour-at", order.len() as u32 + 1) as usize;
        let it = if choose("neighbour-kind", 3) == 2 { *pick("again", &watched) } else { choose("item", s.items.len() as u32) as usize };
        order.insert(at, it);
    }
    let session = compile(s, &order, &w);
    for (k, i) in order.iter().enumerate() {
        count("expansions");
        cover(mix(*i as u64, w.hash_seed));
        let name = &s.items[*i].name;
        event(|| format!("{name} -> {:016x}", session[k].as_deref().map_or(0, hash)));
        // its first appearance anywhere
        let first = watched.iter().position(|x| x == i).map(|p| &reference[p]).or_else(|| order[..k].iter().position(|x| x == i).map(|p| &session[p]));
        if let Some(first) = first {
            match (first, &session[k]) {
                (Some(a), Some(b)) if a != b => {
                    violation("expansion-differs", name.as_str(), format!("two compiler sessions expanded {name} differently, {}\nitem:\n{}", diff(a, b), s.items[*i].text));
                }
                (Some(_), None) | (None, Some(_)) => count("incomparable (no output)"),
                _ => {}
            }
        }
    }
}

fn var(k: &str) -> PathBuf {
    PathBuf::from(std::env::var_os(k).unwrap_or_else(|| panic!("{k}")))
}
fn find(libs: &Path) -> PathBuf {
    let mut v: Vec<PathBuf> = std::fs::read_dir(libs).expect("SIM_LIBS").map(|e| e.unwrap().path()).filter(|p| {
        let n = p.file_name().unwrap().to_string_lossy().into_owned();
        n.starts_with("libthiserror-") && n.ends_with(".rlib")
    }).collect();
    v.sort();
    v.pop().expect("libthiserror")
}

pub fn main() -> ! {
    let libs = var("SIM_LIBS");
    let lib = find(&libs);
    let items = corpus();
    let s = Rc::new(Setup { items, rustc: var("SIM_RUSTC"), lib, libs, shim: var("SIM_SHIM"), scratch: var("SIM_SCRATCH") });
    simcore::runner::main(&|_, _| {
        let s = s.clone();
        Box::new(move || run(&s))
    })
}
