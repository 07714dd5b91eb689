//! Command line shared by every simulation binary.
//!
//! Search:  `--prop P --seed S --start A --count N --stride K --max-secs T
//!           [--tag TAG] [--sets FILE] [--at FILE] [--digests FILE]`
//!          runs indices A, A+K, A+2K, ... and prints one `STATS {json}` line.
//! Replay:  `--prop P --replay FILE [--verbose]` executes the `run` lines of
//!          FILE in order in this one process.
//!
//! A violation prints `FAIL {json}` and exits with status 10.  Status 0 means
//! no violation; 3 is a harness error (unexpected panic of the root task).
use super::*;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::io::Write as _;
use std::time::{Duration, Instant};

pub const EXIT_FAIL: i32 = 10;
pub const EXIT_HARNESS: i32 = 3;
/// The root task runs code under test: a panic nobody planned is a violation.
pub static ROOT_PANIC_IS_VIOLATION: AtomicBool = AtomicBool::new(false);

static CURRENT: Mutex<Option<(Arc<Sim>, RunId)>> = Mutex::new(None);

#[derive(Clone)]
pub enum RunId {
    Seed(u64),
    Choices(Vec<u32>),
}

pub fn set_current(sim: &Arc<Sim>) {
    if let Ok(mut g) = CURRENT.lock() {
        if let Some(c) = g.as_mut() {
            c.0 = sim.clone();
        }
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Args(Vec<String>);
impl Args {
    pub fn from_env() -> Self {
        Args(std::env::args().skip(1).collect())
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.0.iter().position(|a| a == k).and_then(|i| self.0.get(i + 1)).map(String::as_str)
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
    pub fn has(&self, k: &str) -> bool {
        self.0.iter().any(|a| a == k)
    }
}

fn fail_json(v: &Violation, run: u64, idx: i64, digest: u64, choices: &[Choice], trace: &[String]) -> String {
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\"class\":{},\"subject\":{},\"detail\":{},\"run_seed\":{},\"index\":{},\"digest\":\"{:016x}\",\"choices\":[",
        js(&v.class), js(&v.subject), js(&v.detail), run, idx, digest
    );
    for (i, c) in choices.iter().enumerate() {
        let _ = write!(s, "{}[{},{},{}]", if i > 0 { "," } else { "" }, js(c.label), c.n, c.v);
    }
    s.push_str("],\"trace\":[");
    for (i, t) in trace.iter().enumerate() {
        let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, js(t));
    }
    s.push_str("]}");
    s
}

/// Ends the process when the code under test stops making progress for
/// `secs` seconds of real time while it holds the baton (it blocks or loops
/// where the simulator cannot see it).
fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let mut last = PROGRESS.load(Ordering::Relaxed);
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(250));
            let p = PROGRESS.load(Ordering::Relaxed);
            if p != last || !IN_RUN.load(Ordering::Relaxed) {
                last = p;
                since = Instant::now();
                continue;
            }
            if since.elapsed() < Duration::from_secs(secs) {
                continue;
            }
            let g = CURRENT.lock().unwrap_or_else(|e| e.into_inner());
            let (mut log, mut trace, mut seed) = (Vec::new(), Vec::new(), 0);
            if let Some((sim, id)) = g.as_ref() {
                if let Ok(i) = sim.inner.try_lock() {
                    log = i.src.log.clone();
                    trace = i.verbose.clone().unwrap_or_default();
                }
                if let RunId::Seed(s) = id {
                    seed = *s;
                }
            }
            let v = Violation {
                class: "stall".into(),
                subject: "run".into(),
                detail: format!("no progress for {secs} s of real time: a task holding the baton waits for one that does not"),
            };
            println!("FAIL {}", fail_json(&v, seed, -1, 0, &log, &trace));
            let _ = std::io::stdout().flush();
            std::process::exit(EXIT_FAIL);
        }
    });
}

pub fn execute(id: RunId, verbose: bool, body: &dyn Fn()) -> RunResult {
    let src = match &id {
        RunId::Seed(s) => Src::seeded(*s),
        RunId::Choices(c) => Src::forced(c.clone()),
    };
    let placeholder = Arc::new(Sim { inner: Mutex::new(new_inner(Src::seeded(0), false)) });
    *CURRENT.lock().unwrap_or_else(|e| e.into_inner()) = Some((placeholder, id));
    let mut r = run(src, verbose, body);
    if ROOT_PANIC_IS_VIOLATION.load(Ordering::Relaxed) && r.violation.is_none() && !r.root_panic.as_ref().map_or(true, |p| p.starts_with("spawn")) {
        let p = r.root_panic.take().unwrap_or_default();
        r.violation = Some(Violation { class: "panic".into(), subject: "run".into(), detail: format!("unexpected panic: {p}") });
    }
    r
}

pub fn parse_replay(text: &str) -> Vec<RunId> {
    let mut v = Vec::new();
    for l in text.lines() {
        let l = l.trim();
        if let Some(r) = l.strip_prefix("run seed ") {
            v.push(RunId::Seed(r.trim().parse().expect("seed")));
        } else if let Some(r) = l.strip_prefix("run choices") {
            v.push(RunId::Choices(r.trim().split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().expect("choice")).collect()));
        }
    }
    v
}

/// `body_for(prop)` gives the root task of one run.
pub fn main(body_for: &dyn Fn(&str, &Args) -> Box<dyn Fn()>) -> ! {
    let args = Args::from_env();
    let prop = args.get("--prop").expect("--prop").to_string();
    if !args.has("--panics") {
        panic::set_hook(Box::new(|_| {}));
    }
    let body = body_for(&prop, &args);
    watchdog(args.num("--stall-secs", 20));
    if let Some(f) = args.get("--replay") {
        let runs = parse_replay(&std::fs::read_to_string(f).expect("replay file"));
        for (k, id) in runs.iter().enumerate() {
            let seed = if let RunId::Seed(s) = id { *s } else { 0 };
            let r = execute(id.clone(), args.has("--verbose"), &*body);
            if let Some(p) = &r.root_panic {
                if r.violation.is_none() {
                    println!("HARNESS root task panicked: {p}");
                    std::process::exit(EXIT_HARNESS);
                }
            }
            if let Some(v) = &r.violation {
                println!("FAIL {}", fail_json(v, seed, k as i64, r.digest, &r.choices, &r.trace));
                std::process::exit(EXIT_FAIL);
            }
            if args.has("--verbose") {
                for t in &r.trace {
                    println!("{t}");
                }
            }
            println!("RUN {k} digest={:016x} steps={}", r.digest, r.steps);
        }
        std::process::exit(0);
    }
    let base = args.num("--seed", 1);
    let list_seeds = args.has("--list-seeds");
    let mut ph = 0u64;
    for b in prop.bytes() {
        ph = mix(ph, u64::from(b));
    }
    let (start, countn, stride) = (args.num("--start", 0), args.num("--count", 100), args.num("--stride", 1).max(1));
    let max = Duration::from_secs(args.num("--max-secs", 3600));
    let mut at = args.get("--at").map(|f| std::fs::File::create(f).expect("--at"));
    let mut digests = args.get("--digests").map(|f| std::io::BufWriter::new(std::fs::File::create(f).expect("--digests")));
    let t0 = Instant::now();
    let (mut runs, mut sim_time, mut steps, mut switches, mut choices) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut scheds: HashSet<u64> = HashSet::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut counters: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut idx = start;
    while runs < countn && t0.elapsed() < max {
        let rs = mix(mix(base, ph), idx);
        if list_seeds {
            println!("SEED {rs}");
            runs += 1;
            idx += stride;
            continue;
        }
        if let Some(f) = &mut at {
            use std::io::{Seek, SeekFrom};
            let _ = f.seek(SeekFrom::Start(0));
            let _ = write!(f, "{rs:020} {idx:012}");
        }
        let sample = samples.len() < 2 && runs < 2;
        let r = execute(RunId::Seed(rs), sample, &*body);
        if let Some(v) = &r.violation {
            println!("FAIL {}", fail_json(v, rs, idx as i64, r.digest, &r.choices, &r.trace));
            std::process::exit(EXIT_FAIL);
        }
        if let Some(p) = &r.root_panic {
            println!("HARNESS root task panicked in run seed {rs} index {idx}: {p}");
            std::process::exit(EXIT_HARNESS);
        }
        if sample {
            let mut t = format!("run seed {rs}:");
            for l in r.trace.iter().take(25) {
                let _ = write!(t, " | {l}");
            }
            t.truncate(t.char_indices().nth(1500).map_or(t.len(), |x| x.0));
            samples.push(t);
        }
        if let Some(f) = &mut digests {
            let _ = writeln!(f, "{idx} {:016x} {:016x}", r.digest, r.sched_hash);
        }
        runs += 1;
        sim_time += r.now;
        steps += r.steps;
        switches += r.switches;
        choices += r.choices.len() as u64;
        if scheds.len() < 300_000 {
            scheds.insert(mix(r.sched_hash, 0));
        }
        if states.len() < 300_000 {
            states.extend(r.cover.iter().copied());
        }
        let faulty = r.counters.iter().any(|(k, v)| *v > 0 && k.starts_with("fault:")) || r.switches > 0;
        if faulty && nontrivial.len() < 300_000 {
            nontrivial.insert(r.digest);
        }
        for (k, v) in r.counters {
            *counters.entry(k).or_default() += v;
        }
        idx += stride;
    }
    if let Some(mut f) = digests {
        f.flush().expect("--digests");
    }
    if let Some(f) = args.get("--sets") {
        let mut out = Vec::new();
        for (tag, set) in [(b'I', &scheds), (b'S', &states), (b'N', &nontrivial)] {
            for v in set {
                out.push(tag);
                out.extend_from_slice(&v.to_le_bytes());
            }
        }
        std::fs::write(f, out).expect("--sets");
    }
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\"runs\":{runs},\"last_index\":{idx},\"sim_time\":{sim_time},\"steps\":{steps},\"switches\":{switches},\"choices\":{choices},\"wall\":{:.3},\"counters\":{{",
        t0.elapsed().as_secs_f64()
    );
    for (i, (k, v)) in counters.iter().enumerate() {
        let _ = write!(s, "{}{}:{}", if i > 0 { "," } else { "" }, js(k), v);
    }
    s.push_str("},\"samples\":[");
    for (i, t) in samples.iter().enumerate() {
        let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, js(t));
    }
    s.push_str("]}");
    println!("STATS {s}");
    std::process::exit(0);
}
