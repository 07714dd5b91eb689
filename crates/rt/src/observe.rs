//! Sinks with planned failures, and transcripts of observations.
use crate::alloc::Suspend;
use crate::fields::{Ctx, FieldEv, FieldFault, FieldPanic, How, When, CTX};
use crate::model::{addr, LONGEST, node_name, request, Obj, Provided};
use simcore::{chance, choose, count, event, yield_point, SimAbort, SimCrash};
use std::error::Error;
use std::fmt::{self, Display, Formatter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

type Spec = (&'static str, fn(&mut dyn Write, &dyn Display) -> fmt::Result);
macro_rules! specs { ($($s:literal)*) => { &[$(($s, |w, d| w.write_fmt(format_args!($s, d)))),*] } }
pub static SPECS: &[Spec] = specs!("{}" "{:>40}" "{:*<30}" "{:^25.4}" "{:#}" "{:+}" "{:05}" "{:.2}" "{:-^+#012.3}" "{:1}" "{:.0}" "{:é^60}");

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum SinkPlan {
    Ok,
    /// the k-th write fails; transient: later ones would succeed again
    FailAt(u32, bool),
    /// capacity in bytes; partial: the overflowing write is delivered in part
    Cap(u32, bool),
    PanicAt(u32),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Plan {
    pub spec: usize,
    pub sink: SinkPlan,
    pub field: Option<FieldFault>,
    pub yields: bool,
}
impl Plan {
    pub fn clean(spec: usize) -> Self {
        Plan { spec, sink: SinkPlan::Ok, field: None, yields: false }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Outcome {
    Ok,
    Err,
    FieldPanic(u32),
    SinkPanic,
    Crash,
    OtherPanic(String),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Transcript {
    pub bytes: Vec<u8>,
    pub pieces: Vec<u32>,
    pub outcome: Outcome,
    pub log: Vec<FieldEv>,
    pub sink_failed: bool,
    pub after_fail: u32,
    pub field_fired: bool,
    pub after_fired: u32,
    pub writes_after_field_err: u32,
    pub nested: u32,
}

pub struct SinkPanic;

pub struct Sink {
    pub buf: Vec<u8>,
    pub pieces: Vec<u32>,
    plan: SinkPlan,
    n: u32,
    failed: bool,
    after: u32,
    after_field: u32,
}
impl Sink {
    pub fn new(plan: SinkPlan) -> Self {
        Sink { buf: Vec::new(), pieces: Vec::new(), plan, n: 0, failed: false, after: 0, after_field: 0 }
    }
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let _s = Suspend::new();
        let (yields, fired) = CTX.with(|c| {
            let mut c = c.borrow_mut();
            c.writes += 1;
            (c.yields, c.fired.is_some())
        });
        if yields {
            yield_point("write");
        }
        if fired {
            self.after_field += 1;
        }
        let k = self.n;
        self.n += 1;
        if self.failed {
            self.after += 1;
            // a transiently failing sink accepts this
            if let SinkPlan::FailAt(_, false) | SinkPlan::Cap(..) = self.plan {
                return Err(fmt::Error);
            }
        }
        match self.plan {
            SinkPlan::FailAt(at, _) if k == at => {
                self.failed = true;
                return Err(fmt::Error);
            }
            SinkPlan::PanicAt(at) if k == at => {
                self.failed = true;
                std::panic::panic_any(SinkPanic);
            }
            SinkPlan::Cap(n, partial) if self.buf.len() + s.len() > n as usize => {
                if partial {
                    let room = n as usize - self.buf.len();
                    self.buf.extend_from_slice(&s.as_bytes()[..room]);
                    self.pieces.push(room as u32);
                }
                self.failed = true;
                return Err(fmt::Error);
            }
            _ => {}
        }
        self.buf.extend_from_slice(s.as_bytes());
        self.pieces.push(s.len() as u32);
        Ok(())
    }
}

/// Display by the handwritten model.
pub struct Twin<'a>(pub &'a dyn Obj);
impl Display for Twin<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        self.0.t_fmt(f)
    }
}

pub fn classify(p: Box<dyn std::any::Any + Send>) -> Outcome {
    if p.is::<SimAbort>() {
        std::panic::resume_unwind(p);
    }
    if let Some(f) = p.downcast_ref::<FieldPanic>() {
        Outcome::FieldPanic(f.0)
    } else if p.is::<SinkPanic>() {
        Outcome::SinkPanic
    } else if p.is::<SimCrash>() {
        Outcome::Crash
    } else {
        Outcome::OtherPanic(simcore::payload_text(&*p))
    }
}

pub fn watch(d: &dyn Display, plan: Plan, twin: bool) -> Transcript {
    let _s = Suspend::new();
    let saved = CTX.with(|c| {
        std::mem::replace(
            &mut *c.borrow_mut(),
            Ctx { active: true, twin, yields: plan.yields, fault: plan.field, ..Ctx::default() },
        )
    });
    let mut sink = Sink::new(plan.sink);
    let r = catch_unwind(AssertUnwindSafe(|| (SPECS[plan.spec].1)(&mut sink, d)));
    let ctx = CTX.with(|c| std::mem::replace(&mut *c.borrow_mut(), saved));
    let outcome = match r {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(_)) => Outcome::Err,
        Err(p) => classify(p),
    };
    Transcript {
        bytes: sink.buf,
        pieces: sink.pieces,
        outcome,
        log: ctx.log,
        sink_failed: sink.failed,
        after_fail: sink.after,
        field_fired: ctx.fired.is_some(),
        after_fired: ctx.after_fired,
        writes_after_field_err: sink.after_field,
        nested: ctx.nested,
    }
}

pub fn derived(o: &dyn Obj, plan: Plan) -> Transcript {
    struct D<'a>(&'a dyn Obj);
    impl Display for D<'_> {
        fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
            Display::fmt(self.0, f)
        }
    }
    watch(&D(o), plan, false)
}
pub fn by_hand(o: &dyn Obj, plan: Plan) -> Transcript {
    watch(&Twin(o), plan, true)
}

/// Choose a fault for an observation whose clean run made `writes` writes of
/// `bytes` bytes and formatted `fields` fields.
pub fn choose_fault(spec: usize, writes: u32, bytes: u32, fields: u32, yields: bool) -> Plan {
    let mut p = Plan { spec, sink: SinkPlan::Ok, field: None, yields };
    match choose("fault-kind", 8) {
        0 => {}
        1 => p.sink = SinkPlan::FailAt(choose("at", writes.max(1)), false),
        2 => p.sink = SinkPlan::FailAt(choose("at", writes.max(1)), true),
        3 => p.sink = SinkPlan::Cap(choose("cap", bytes.max(1)), false),
        4 => p.sink = SinkPlan::Cap(choose("cap", bytes.max(1)), true),
        5 => p.sink = SinkPlan::PanicAt(choose("at", writes.max(1))),
        k if fields > 0 => {
            p.field = Some(FieldFault {
                nth: choose("nth", fields),
                when: [When::Before, When::Mid, When::After][choose("when", 3) as usize],
                how: if k == 6 { How::Err } else { How::Panic },
            });
            if chance("also-sink", 1, 4) {
                p.sink = SinkPlan::FailAt(choose("at", writes.max(1)), chance("transient", 1, 2));
            }
        }
        _ => {}
    }
    p
}
pub fn count_fault(p: &Plan, t: &Transcript) {
    if t.sink_failed {
        count(match p.sink {
            SinkPlan::Ok => "fault:none",
            SinkPlan::FailAt(_, false) => "fault:sink write error, permanent",
            SinkPlan::FailAt(_, true) => "fault:sink write error, transient",
            SinkPlan::Cap(_, false) => "fault:sink full (write refused)",
            SinkPlan::Cap(_, true) => "fault:sink full (short write)",
            SinkPlan::PanicAt(_) => "fault:panic in the sink",
        });
    }
    if t.field_fired {
        count(match p.field.map(|f| (f.how, f.when)) {
            Some((How::Err, When::Before)) => "fault:field error before its first write",
            Some((How::Err, _)) => "fault:field error after a partial write",
            Some((_, When::Before)) => "fault:panic in a field before its first write",
            _ => "fault:panic in a field after a partial write",
        });
    }
}

pub fn lossy(b: &[u8]) -> String {
    let s: String = String::from_utf8_lossy(b).escape_debug().collect();
    if s.len() > 300 {
        format!("{}...", s.chars().take(300).collect::<String>())
    } else {
        s
    }
}

/// Run `f` in a destructor while this thread unwinds from a panic, as a guard
/// that logs an error does.
pub fn while_unwinding<R>(f: impl FnOnce() -> R) -> R {
    struct Guard<F: FnMut()>(F);
    impl<F: FnMut()> Drop for Guard<F> {
        fn drop(&mut self) {
            (self.0)();
        }
    }
    struct Unwind;
    let mut f = Some(f);
    let mut out = None;
    let r = catch_unwind(AssertUnwindSafe(|| {
        let _g = Guard(|| out = f.take().map(|f| f()));
        std::panic::panic_any(Unwind);
    }));
    count("fault:observed while unwinding");
    match r {
        Err(p) if !p.is::<Unwind>() => std::panic::resume_unwind(p),
        _ => out.expect("guard"),
    }
}
/// Sometimes that, mostly just `f`.
pub fn somewhere<R>(f: impl FnOnce() -> R) -> R {
    if chance("unwinding", 1, 12) {
        while_unwinding(f)
    } else {
        f()
    }
}

/// Run `f` when this thread's thread-locals are being destroyed.
pub fn at_thread_end(f: impl FnOnce() + 'static) {
    struct End(Option<Box<dyn FnOnce()>>);
    impl Drop for End {
        fn drop(&mut self) {
            if let Some(f) = self.0.take() {
                f();
            }
        }
    }
    thread_local! { static END: std::cell::RefCell<End> = const { std::cell::RefCell::new(End(None)) }; }
    CTX.with(|_| ()); // destroyed after END
    END.with(|e| e.borrow_mut().0 = Some(Box::new(f)));
    count("fault:observed while the thread ends");
}

/// Sometimes in one of those two places, mostly here. What runs on a thread that
/// ends comes after other uses of errors there, whose thread-locals are gone.
pub fn anywhere<R: 'static>(f: impl FnOnce() -> R + 'static) -> R {
    match choose("where", 16) {
        1 => while_unwinding(f),
        2 => {
            let cell = std::rc::Rc::new(std::cell::Cell::new(None));
            let c = cell.clone();
            let warm = chance("warm", 3, 4);
            let _ = simcore::spawn(move || {
                at_thread_end(move || c.set(Some(f())));
                if warm {
                    crate::work::ordinary_use();
                }
            })
            .join();
            cell.take().expect("ran when the thread ended")
        }
        _ => f(),
    }
}

/// What an error says and what stands below it (content, not place).
pub fn digest(e: &(dyn Error + 'static)) -> (Vec<u8>, Vec<String>) {
    struct D<'a>(&'a dyn Error);
    impl Display for D<'_> {
        fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
            Display::fmt(self.0, f)
        }
    }
    let t = watch(&D(e), Plan::clean(0), false);
    (t.bytes, walk(e, false).nodes.into_iter().map(|n| n.1).collect())
}

/// Everything an observer can learn about an error without formatting it.
#[derive(Clone)]
pub struct Walk {
    pub nodes: Vec<(usize, String)>,
    pub prov: Provided,
}
pub fn walk(e: &(dyn Error + 'static), yields: bool) -> Walk {
    let saved = CTX.with(|c| std::mem::replace(&mut *c.borrow_mut(), Ctx { active: true, yields, ..Ctx::default() }));
    let mut nodes = Vec::new();
    let mut cur = Some(e);
    let prov = catch_unwind(AssertUnwindSafe(|| {
        while let Some(n) = cur {
            nodes.push((addr(n), node_name(n)));
            if nodes.len() > LONGEST {
                break;
            }
            if yields {
                yield_point("walk");
            }
            cur = n.source();
        }
        request(e)
    }));
    CTX.with(|c| *c.borrow_mut() = saved);
    match prov {
        Ok(prov) => Walk { nodes, prov },
        Err(p) => std::panic::resume_unwind(p),
    }
}
pub fn same_walk(a: &Walk, b: &Walk) -> bool {
    a.nodes == b.nodes && crate::model::same_provided(&a.prov, &b.prov)
}

pub fn log_transcript(who: &str, name: &str, p: &Plan, t: &Transcript) {
    event(|| format!("{who} {name} spec={} sink={:?} field={:?} -> {:?} {:?} fields={}", SPECS[p.spec].0, p.sink, p.field, t.outcome, lossy(&t.bytes), t.log.len()));
}
