//! Deterministic simulator core.
//!
//! * Every nondeterministic decision of a run is one call of [`choose`]; the
//!   sequence of chosen values *is* the run.  A seeded PRNG produces it during
//!   search, a recorded sequence reproduces it during replay (value 0 is
//!   always the most benign alternative, and is what an exhausted recording
//!   yields, so shortening or zeroing a recording simplifies the run).
//! * Tasks are real OS threads of which exactly one runs at any time: the one
//!   holding the baton.  The baton moves only inside [`yield_point`],
//!   [`sleep`], blocking operations and task exit, and where it moves to is a
//!   [`choose`].
//! * Time is simulated: when no task is runnable the clock jumps to the next
//!   timer.
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

pub const STEP_CAP: u64 = 400_000;

/// splitmix64
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u32) -> u32 {
        ((self.next() >> 32) * u64::from(n) >> 32) as u32
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.rotate_left(17) ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next()
}

#[derive(Clone, Debug)]
pub struct Choice {
    pub label: &'static str,
    pub n: u32,
    pub v: u32,
}

pub struct Src {
    rng: Rng,
    forced: Option<Vec<u32>>,
    pos: usize,
    pub log: Vec<Choice>,
}
impl Src {
    pub fn seeded(seed: u64) -> Self {
        Src { rng: Rng::new(seed), forced: None, pos: 0, log: Vec::new() }
    }
    pub fn forced(values: Vec<u32>) -> Self {
        Src { rng: Rng::new(0), forced: Some(values), pos: 0, log: Vec::new() }
    }
    fn choose(&mut self, label: &'static str, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = match &self.forced {
            Some(f) => f.get(self.pos).copied().unwrap_or(0).min(n - 1),
            None => self.rng.below(n),
        };
        self.pos += 1;
        self.log.push(Choice { label, n, v });
        v
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum TState {
    Runnable,
    Sleeping,
    Blocked(u64),
    Done,
}

pub struct Inner {
    src: Src,
    now: u64,
    current: usize,
    tasks: Vec<TState>,
    /// set when a blocked receive was released because nobody can send any more
    released: Vec<bool>,
    cvs: Vec<Arc<Condvar>>,
    timers: BTreeMap<(u64, u64), usize>,
    seq: u64,
    next_key: u64,
    next_id: u32,
    steps: u64,
    switches: u64,
    preempt_den: u32,
    digest: u64,
    verbose: Option<Vec<String>>,
    counters: BTreeMap<&'static str, u64>,
    cover: Vec<u64>,
    sched_hash: u64,
    violation: Option<Violation>,
    dead: bool,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub subject: String,
    pub detail: String,
}

pub struct Sim {
    inner: Mutex<Inner>,
}

/// Payload of a simulated crash.
pub struct SimCrash(pub u32);
/// Payload used to tear down the tasks of a run that has to be abandoned.
pub struct SimAbort;

/// The task on this thread. Touched first of all thread-locals, so dropped last:
/// the destructors of the others still belong to the task and run before the
/// next one does.
struct Cur(Option<(Arc<Sim>, usize)>);
impl Drop for Cur {
    fn drop(&mut self) {
        let Some((sim, id)) = self.0.take() else { return };
        let mut i = lock(&sim);
        i.tasks[id] = TState::Done;
        wake(&mut i, JOIN_KEY + id as u64);
        if !i.dead {
            if let Some(to) = pick_or_release(&mut i) {
                handoff(&mut i, to);
            }
        }
    }
}
thread_local! {
    static CUR: RefCell<Cur> = const { RefCell::new(Cur(None)) };
}

pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
pub static IN_RUN: AtomicBool = AtomicBool::new(false);

fn cur() -> (Arc<Sim>, usize) {
    CUR.with(|c| c.borrow().0.clone()).expect("simulator call outside a run")
}
pub fn in_sim() -> bool {
    CUR.try_with(|c| c.borrow().0.is_some()).unwrap_or(false)
}
fn lock(sim: &Sim) -> MutexGuard<'_, Inner> {
    sim.inner.lock().unwrap_or_else(|e| e.into_inner())
}

pub fn choose(label: &'static str, n: u32) -> u32 {
    let (sim, _) = cur();
    let mut i = lock(&sim);
    i.src.choose(label, n)
}
/// True with probability num/den; the benign value is false.
pub fn chance(label: &'static str, num: u32, den: u32) -> bool {
    choose(label, den) >= den - num
}
pub fn pick<'a, T>(label: &'static str, items: &'a [T]) -> &'a T {
    &items[choose(label, items.len() as u32) as usize]
}
pub fn now() -> u64 {
    let (sim, _) = cur();
    let n = lock(&sim).now;
    n
}
pub fn fresh_id() -> u32 {
    let (sim, _) = cur();
    let mut i = lock(&sim);
    i.next_id += 1;
    i.next_id
}
pub fn task_id() -> usize {
    cur().1
}
pub fn count(name: &'static str) {
    let (sim, _) = cur();
    *lock(&sim).counters.entry(name).or_default() += 1;
}
/// Record a state reached (for the distinct-states measure).
pub fn cover(h: u64) {
    let (sim, _) = cur();
    lock(&sim).cover.push(h);
}
pub fn set_preempt_den(den: u32) {
    let (sim, _) = cur();
    lock(&sim).preempt_den = den;
}
/// Append to the event log: a digest always, text only when replaying.
pub fn event(f: impl FnOnce() -> String) {
    if !in_sim() {
        return;
    }
    let (sim, me) = cur();
    let s = f();
    let mut i = lock(&sim);
    let mut d = i.digest;
    for b in s.bytes() {
        d = (d ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
    }
    i.digest = d ^ (me as u64).wrapping_mul(0x9E37_79B9);
    let (now, steps) = (i.now, i.steps);
    if let Some(v) = &mut i.verbose {
        if v.len() < 4000 {
            v.push(format!("t={now} step={steps} task={me} {s}"));
        }
    }
}
/// Record a violation (the first one of a run counts).
pub fn violation(class: &str, subject: impl Into<String>, detail: impl Into<String>) {
    let (sim, _) = cur();
    let v = Violation { class: class.to_string(), subject: subject.into(), detail: detail.into() };
    let mut i = lock(&sim);
    if i.violation.is_none() {
        i.violation = Some(v);
    }
}
pub fn violated() -> bool {
    let (sim, _) = cur();
    let v = lock(&sim).violation.is_some();
    v
}

fn wait_turn<'a>(sim: &'a Sim, mut g: MutexGuard<'a, Inner>, me: usize) -> MutexGuard<'a, Inner> {
    let cv = g.cvs[me].clone();
    while g.current != me && !g.dead {
        g = cv.wait(g).unwrap_or_else(|e| e.into_inner());
    }
    let _ = sim;
    g
}
fn abort_if_dead(g: MutexGuard<'_, Inner>) {
    if g.dead {
        drop(g);
        if !std::thread::panicking() {
            panic::panic_any(SimAbort);
        }
    }
}

/// Choose who runs next among the runnable tasks; `me` (if runnable) is alternative 0.
fn pick_next(i: &mut Inner, me: Option<usize>, label: &'static str) -> Option<usize> {
    loop {
        let mut cand: Vec<usize> = Vec::new();
        if let Some(m) = me {
            if i.tasks[m] == TState::Runnable {
                cand.push(m);
            }
        }
        for (t, s) in i.tasks.iter().enumerate() {
            if *s == TState::Runnable && Some(t) != me {
                cand.push(t);
            }
        }
        if !cand.is_empty() {
            let k = i.src.choose(label, cand.len() as u32) as usize;
            return Some(cand[k]);
        }
        // nobody runnable: jump the clock
        let ((at, _), t) = i.timers.pop_first()?;
        i.now = i.now.max(at);
        if i.tasks[t] == TState::Sleeping {
            i.tasks[t] = TState::Runnable;
        }
    }
}

/// As `pick_next`, but when every task is blocked releases those waiting for messages.
fn pick_or_release(i: &mut Inner) -> Option<usize> {
    if let Some(t) = pick_next(i, None, "next") {
        return Some(t);
    }
    let mut any = false;
    for t in 0..i.tasks.len() {
        if matches!(i.tasks[t], TState::Blocked(k) if k < JOIN_KEY) {
            i.tasks[t] = TState::Runnable;
            i.released[t] = true;
            any = true;
        }
    }
    if any {
        pick_next(i, None, "next")
    } else {
        None
    }
}

const JOIN_KEY: u64 = 1 << 40;

fn handoff(i: &mut Inner, to: usize) {
    if i.current != to {
        i.switches += 1;
        i.sched_hash = mix(i.sched_hash, (i.steps << 8) | to as u64);
        i.current = to;
        i.cvs[to].notify_all();
    }
}

/// A point at which the scheduler may switch to another task.
pub fn yield_point(_label: &'static str) {
    if !in_sim() {
        return;
    }
    let (sim, me) = cur();
    let mut i = lock(&sim);
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    i.steps += 1;
    if i.steps > STEP_CAP {
        if i.violation.is_none() {
            i.violation = Some(Violation { class: "no-progress".into(), subject: "run".into(), detail: format!("step cap {STEP_CAP} exceeded") });
        }
        i.dead = true;
        for c in &i.cvs {
            c.notify_all();
        }
    }
    if i.dead {
        return abort_if_dead(i);
    }
    if !i.tasks.iter().enumerate().any(|(t, s)| t != me && *s == TState::Runnable) {
        return;
    }
    let den = i.preempt_den;
    if den == 0 || (den > 1 && i.src.choose("preempt", den) != den - 1) {
        return;
    }
    let to = pick_next(&mut i, Some(me), "next").unwrap();
    if to != me {
        handoff(&mut i, to);
        i = wait_turn(&sim, i, me);
        abort_if_dead(i);
    }
}

/// As `yield_point`, but the caller waits for another task: switches whenever one is runnable.
pub fn yield_to_other() {
    if !in_sim() {
        return;
    }
    let (sim, me) = cur();
    let mut i = lock(&sim);
    i.steps += 1;
    if i.steps > STEP_CAP {
        if i.violation.is_none() {
            i.violation = Some(Violation { class: "no-progress".into(), subject: "run".into(), detail: format!("step cap {STEP_CAP} exceeded") });
        }
        i.dead = true;
        for c in &i.cvs {
            c.notify_all();
        }
    }
    if i.dead {
        return abort_if_dead(i);
    }
    let cand: Vec<usize> = (0..i.tasks.len()).filter(|t| *t != me && i.tasks[*t] == TState::Runnable).collect();
    if cand.is_empty() {
        return; // PROGRESS stays: the watchdog ends a lock nobody will release
    }
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    let k = i.src.choose("lock-wait", cand.len() as u32) as usize;
    handoff(&mut i, cand[k]);
    let i = wait_turn(&sim, i, me);
    abort_if_dead(i);
}

fn block(sim: &Arc<Sim>, mut i: MutexGuard<'_, Inner>, me: usize, st: TState) -> bool {
    i.tasks[me] = st;
    i.released[me] = false;
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    match pick_or_release(&mut i) {
        Some(to) => {
            handoff(&mut i, to);
            let i = wait_turn(sim, i, me);
            let r = !i.released[me];
            abort_if_dead(i);
            r
        }
        None => {
            // only joins left: cannot happen unless tasks join in a cycle
            i.dead = true;
            for c in &i.cvs {
                c.notify_all();
            }
            abort_if_dead(i);
            false
        }
    }
}

pub fn sleep(ticks: u64) {
    let (sim, me) = cur();
    let mut i = lock(&sim);
    if i.dead {
        return abort_if_dead(i);
    }
    let at = i.now + ticks;
    let s = i.seq;
    i.seq += 1;
    i.timers.insert((at, s), me);
    block(&sim, i, me, TState::Sleeping);
}

fn wake(i: &mut Inner, key: u64) {
    for s in &mut i.tasks {
        if *s == TState::Blocked(key) {
            *s = TState::Runnable;
        }
    }
}

pub struct Task {
    id: usize,
    os: Option<std::thread::JoinHandle<()>>,
    result: Arc<Mutex<Option<std::thread::Result<()>>>>,
}
impl Task {
    /// Wait (in simulated time) for the task to end; Err carries its panic payload.
    pub fn join(mut self) -> std::thread::Result<()> {
        let (sim, me) = cur();
        loop {
            let i = lock(&sim);
            if i.dead || i.tasks[self.id] == TState::Done {
                break;
            }
            block(&sim, i, me, TState::Blocked(JOIN_KEY + self.id as u64));
        }
        if let Some(h) = self.os.take() {
            let _ = h.join();
        }
        let r = self.result.lock().unwrap_or_else(|e| e.into_inner()).take();
        r.unwrap_or(Ok(()))
    }
}

pub fn spawn(f: impl FnOnce() + 'static) -> Task {
    struct Force<F>(F);
    // Only one task runs at a time and every baton pass goes through a mutex,
    // so moving non-Send simulation values between task threads is sound.
    unsafe impl<F> Send for Force<F> {}
    impl<F: FnOnce()> Force<F> {
        fn call(self) {
            (self.0)()
        }
    }
    let (sim, _) = cur();
    let id;
    {
        let mut i = lock(&sim);
        id = i.tasks.len();
        i.tasks.push(TState::Runnable);
        i.released.push(false);
        i.cvs.push(Arc::new(Condvar::new()));
    }
    let f = Force(f);
    let result = Arc::new(Mutex::new(None));
    let r2 = result.clone();
    let s2 = sim.clone();
    let os = std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            CUR.with(|c| c.borrow_mut().0 = Some((s2.clone(), id)));
            let dead = {
                let i = lock(&s2);
                let i = wait_turn(&s2, i, id);
                i.dead
            };
            let f = f;
            let r = if dead {
                let _ = panic::catch_unwind(AssertUnwindSafe(move || drop(f)));
                Ok(())
            } else {
                panic::catch_unwind(AssertUnwindSafe(|| f.call()))
            };
            *r2.lock().unwrap_or_else(|e| e.into_inner()) = Some(r);
            // the end of the task is in Cur's drop
        })
        .expect("spawn");
    Task { id, os: Some(os), result }
}

/// Mailbox between tasks; delivery order and delay are simulator decisions.
pub struct Chan<T> {
    q: Mutex<VecDeque<T>>,
    key: u64,
}
impl<T> Chan<T> {
    pub fn new() -> Arc<Self> {
        let (sim, _) = cur();
        let mut i = lock(&sim);
        i.next_key += 1;
        Arc::new(Chan { q: Mutex::new(VecDeque::new()), key: i.next_key })
    }
    /// `jump`: deliver before everything already queued (reordering).
    pub fn send(&self, v: T, jump: bool) {
        {
            let mut q = self.q.lock().unwrap_or_else(|e| e.into_inner());
            if jump {
                q.push_front(v);
            } else {
                q.push_back(v);
            }
        }
        let (sim, _) = cur();
        wake(&mut lock(&sim), self.key);
        yield_point("send");
    }
    pub fn recv(&self) -> Option<T> {
        let (sim, me) = cur();
        loop {
            if let Some(v) = self.q.lock().unwrap_or_else(|e| e.into_inner()).pop_front() {
                return Some(v);
            }
            let i = lock(&sim);
            if !block(&sim, i, me, TState::Blocked(self.key)) {
                return None; // nobody left who could send
            }
        }
    }
    pub fn drain(&self) -> Vec<T> {
        self.q.lock().unwrap_or_else(|e| e.into_inner()).drain(..).collect()
    }
}

pub struct RunResult {
    pub violation: Option<Violation>,
    pub choices: Vec<Choice>,
    pub digest: u64,
    pub now: u64,
    pub steps: u64,
    pub switches: u64,
    pub sched_hash: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub cover: Vec<u64>,
    pub trace: Vec<String>,
    /// an unexpected panic of the root task (harness or code under test)
    pub root_panic: Option<String>,
}

pub fn payload_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(c) = p.downcast_ref::<SimCrash>() {
        format!("SimCrash({})", c.0)
    } else if p.is::<SimAbort>() {
        "SimAbort".into()
    } else {
        "<panic>".into()
    }
}

fn new_inner(src: Src, verbose: bool) -> Inner {
    Inner {
        src,
        now: 0,
        current: 0,
        tasks: vec![TState::Runnable],
        released: vec![false],
        cvs: vec![Arc::new(Condvar::new())],
        timers: BTreeMap::new(),
        seq: 0,
        next_key: 0,
        next_id: 0,
        steps: 0,
        switches: 0,
        preempt_den: 3,
        digest: 0xcbf2_9ce4_8422_2325,
        verbose: verbose.then(Vec::new),
        counters: BTreeMap::new(),
        cover: Vec::new(),
        sched_hash: 0,
        violation: None,
        dead: false,
    }
}

/// Execute one run; `body` is the root task and runs on the calling thread.
pub fn run(src: Src, verbose: bool, body: impl FnOnce()) -> RunResult {
    let sim = Arc::new(Sim { inner: Mutex::new(new_inner(src, verbose)) });
    runner::set_current(&sim);
    CUR.with(|c| c.borrow_mut().0 = Some((sim.clone(), 0)));
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    IN_RUN.store(true, Ordering::Relaxed);
    let r = panic::catch_unwind(AssertUnwindSafe(body));
    // let every remaining task finish or unwind
    loop {
        let mut i = lock(&sim);
        let Some(t) = (1..i.tasks.len()).find(|t| i.tasks[*t] != TState::Done) else { break };
        if i.dead || r.is_err() {
            i.dead = true;
            for c in &i.cvs {
                c.notify_all();
            }
            drop(i);
            std::thread::yield_now();
            continue;
        }
        let _ = panic::catch_unwind(AssertUnwindSafe(|| {
            block(&sim, i, 0, TState::Blocked(JOIN_KEY + t as u64));
        }));
    }
    IN_RUN.store(false, Ordering::Relaxed);
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    CUR.with(|c| c.borrow_mut().0 = None);
    let mut i = lock(&sim);
    RunResult {
        violation: i.violation.take(),
        choices: std::mem::take(&mut i.src.log),
        digest: i.digest,
        now: i.now,
        steps: i.steps,
        switches: i.switches,
        sched_hash: i.sched_hash,
        counters: std::mem::take(&mut i.counters),
        cover: std::mem::take(&mut i.cover),
        trace: i.verbose.take().unwrap_or_default(),
        root_panic: match &r {
            Ok(()) => None,
            Err(p) if p.is::<SimAbort>() => None,
            Err(p) => Some(payload_text(&**p)),
        },
    }
}

pub mod runner;
