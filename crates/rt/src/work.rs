//! Workloads and oracles, one per property.
use crate::alloc::{arm, disarm, Mode};
use crate::ledger;
use crate::model::Src;
use crate::model::*;
use crate::observe::*;
use crate::stack::{hash_str, run_stack};
use simcore::runner::Args;
use simcore::*;
use std::backtrace::{Backtrace, BacktraceStatus};
use std::cell::Cell;
use std::error::Error;
use std::fmt::{Display, Formatter, Write};
use std::rc::Rc;
use std::sync::Arc;

pub fn body(w: &'static World, prop: &str, args: &Args) -> Box<dyn Fn()> {
    set_prop(prop);
    let only: Option<String> = args.get("--only").map(str::to_string);
    let pick_from = move |flags: u32, without: u32| -> Vec<&'static Entry> {
        w.entries
            .iter()
            .filter(|e| e.flags & flags == flags && e.flags & without == 0)
            .filter(|e| only.as_ref().map_or(true, |o| e.name == o))
            .collect()
    };
    let known: Vec<&'static Known> = w.known.iter().filter(|k| k.prop == prop).collect();
    let listed = std::env::var("SIM_KNOWN").unwrap_or_default();
    let f: Box<dyn Fn()> = match prop {
        "C01" => {
            let es = pick_from(F_DISPLAY, 0);
            Box::new(move || c01(&es))
        }
        "C02" => {
            let es = pick_from(F_ERROR, 0);
            Box::new(move || c02(&es))
        }
        "C03" => {
            let es = pick_from(F_BT, 0);
            let all = pick_from(F_ERROR, F_LEAKS);
            Box::new(move || c03(&es, &all))
        }
        "C04" => {
            let es = pick_from(0, F_LEAKS);
            Box::new(move || c04(&es))
        }
        "C05" => {
            let es = pick_from(0, F_LEAKS);
            Box::new(move || c05(&es))
        }
        "C06" => {
            let es = pick_from(0, 0);
            Box::new(move || c06(&es))
        }
        "C11" => {
            let es = pick_from(0, F_LEAKS);
            Box::new(move || c11(&es))
        }
        "C12" => {
            let es = pick_from(F_TRANSPARENT, 0);
            Box::new(move || c12(&es))
        }
        p => panic!("unknown property {p}"),
    };
    Box::new(move || {
        crate::seams::start_run();
        if !known.is_empty() && chance("recorded", 1, 50) {
            recorded(known[choose("case", known.len() as u32) as usize], &listed);
        }
        f()
    })
}

fn recorded(k: &'static Known, listed: &str) {
    let got = (k.got)();
    event(|| format!("recorded case {}: {got}", k.name));
    if got == k.want {
        count("recorded-case-holds");
    } else if got == k.is && listed.contains(k.name) {
        count(match k.prop {
            "C01" => "known:C01",
            "C02" => "known:C02",
            _ => "known:C03",
        });
    } else {
        violation("recorded-case", k.name, format!("wanted {:?}, got {got:?}", k.want));
    }
}

fn pick_entry(es: &[&'static Entry]) -> &'static Entry {
    es[choose("type", es.len() as u32) as usize]
}
fn pick_spec() -> usize {
    if chance("any-spec", 2, 3) {
        choose("spec", SPECS.len() as u32) as usize
    } else {
        0
    }
}
fn make(e: &'static Entry) -> Box<dyn Obj> {
    let o = (e.make)();
    event(|| format!("make {}", o.name()));
    o
}
fn show(e: &Entry, b: &[u8]) -> String {
    let _ = e;
    lossy(b)
}
fn prefix<T: PartialEq>(a: &[T], b: &[T]) -> bool {
    a.len() <= b.len() && a == &b[..a.len()]
}
fn ev(e: &Entry, who: &str, name: &str, p: &Plan, t: &Transcript) {
    if e.flags & F_ADDR == 0 {
        log_transcript(who, name, p, t);
    } else {
        event(|| format!("{who} {name} {:?} -> {:?} {} bytes", p.sink, t.outcome, t.pieces.len()));
    }
}

// ---------------------------------------------------------------- C01
fn c01(es: &[&'static Entry]) {
    let e = pick_entry(es);
    let o = make(e);
    let spec = pick_spec();
    let clean = Plan::clean(spec);
    let want = by_hand(&*o, clean);
    let got = somewhere(|| derived(&*o, clean));
    ev(e, "clean", o.name(), &clean, &got);
    count("observations");
    let subject = o.name();
    if got.outcome != want.outcome {
        violation("wrong-result", subject, format!("spec {}: derived impl ended {:?}, handwritten one {:?}", SPECS[spec].0, got.outcome, want.outcome));
        return;
    }
    if got.bytes != want.bytes {
        violation("wrong-text", subject, format!("spec {}: derived {} handwritten {}", SPECS[spec].0, show(e, &got.bytes), show(e, &want.bytes)));
        return;
    }
    if got.log != want.log {
        violation("wrong-fields", subject, format!("spec {}: fields formatted (id, trait, flags) {:?}, expected {:?}", SPECS[spec].0, got.log, want.log));
        return;
    }
    cover(mix(hash_str(subject), spec as u64));
    let full = &want.bytes;
    for _ in 0..1 + choose("faulted", 4) {
        let p = choose_fault(spec, got.pieces.len() as u32, full.len() as u32, got.log.len() as u32, false);
        let t = somewhere(|| derived(&*o, p));
        count("observations");
        count_fault(&p, &t);
        ev(e, "faulted", subject, &p, &t);
        let say = |m: &str| format!("{m}: spec {} sink {:?} field {:?}: ended {:?} having delivered {} of {}", SPECS[spec].0, p.sink, p.field, t.outcome, show(e, &t.bytes), show(e, full));
        if !prefix(&t.bytes, full) {
            violation("not-a-prefix", subject, say("delivered text is not a prefix of the message"));
            return;
        }
        if t.after_fail > 0 {
            violation("write-after-failure", subject, say(&format!("{} writes after the sink had failed", t.after_fail)));
            return;
        }
        let opaque = e.flags & F_FAULTY_OPAQUE != 0;
        if t.field_fired && !t.sink_failed && !opaque {
            if t.writes_after_field_err > 0 || t.after_fired > 0 {
                violation("write-after-failure", subject, say(&format!("{} writes and {} fields after a field had failed", t.writes_after_field_err, t.after_fired)));
                return;
            }
        }
        let expect = if t.field_fired || t.sink_failed {
            let hand = by_hand(&*o, p);
            if t.sink_failed && !t.field_fired {
                match p.sink {
                    SinkPlan::PanicAt(_) => Outcome::SinkPanic,
                    _ => Outcome::Err,
                }
            } else if t.sink_failed == hand.sink_failed {
                hand.outcome
            } else {
                t.outcome.clone()
            }
        } else {
            Outcome::Ok
        };
        if t.outcome != expect {
            violation("failure-not-returned", subject, say(&format!("expected {expect:?}")));
            return;
        }
        if !t.sink_failed && !t.field_fired && &t.bytes != full {
            violation("wrong-text", subject, say("no fault fired, text differs"));
            return;
        }
        if !prefix(&t.log, &got.log) {
            violation("wrong-fields", subject, say(&format!("fields formatted {:?}", t.log)));
            return;
        }
        cover(mix(mix(hash_str(subject), spec as u64), kind(&p)));
    }
}
fn kind(p: &Plan) -> u64 {
    let s = match p.sink {
        SinkPlan::Ok => 0,
        SinkPlan::FailAt(k, t) => 1 + u64::from(t) + 16 * u64::from(k.min(7)),
        SinkPlan::Cap(_, t) => 3 + u64::from(t),
        SinkPlan::PanicAt(k) => 5 + 16 * u64::from(k.min(7)),
    };
    let f = p.field.map_or(0, |f| 1 + f.when as u64 + 3 * f.how as u64 + 16 * u64::from(f.nth.min(7)));
    mix(s, f)
}

// ---------------------------------------------------------------- C12
fn c12(es: &[&'static Entry]) {
    let e = pick_entry(es);
    let o = make(e);
    let Some(inner) = o.t_inner() else { return }; // a non-transparent variant was picked
    let subject = o.name();
    let spec = pick_spec();
    if let Err(m) = somewhere(|| check_source(&*o)) {
        violation("wrong-source", subject, m);
        return;
    }
    let clean = Plan::clean(spec);
    let base = watch(inner, clean, false);
    for k in 0..2 + choose("faulted", 4) {
        let p = if k == 0 { clean } else { choose_fault(spec, base.pieces.len() as u32, base.bytes.len() as u32, base.log.len() as u32, false) };
        let want = watch(inner, p, false);
        let got = somewhere(|| derived(&*o, p));
        count("observations");
        count_fault(&p, &got);
        ev(e, "transparent", subject, &p, &got);
        if got != want {
            violation("distinguishable", subject, format!("spec {} sink {:?} field {:?}: layer wrote {} in pieces {:?}, ended {:?}; wrapped error alone wrote {} in pieces {:?}, ended {:?}", SPECS[spec].0, p.sink, p.field, show(e, &got.bytes), got.pieces, got.outcome, show(e, &want.bytes), want.pieces, want.outcome));
            return;
        }
        cover(mix(mix(hash_str(subject), spec as u64), kind(&p)));
    }
}

/// A conversion and an observation that nobody looks at.
pub fn ordinary_use() {
    let all: Vec<&'static Entry> = world().entries.iter().filter(|e| e.flags & F_LEAKS == 0).collect();
    if all.is_empty() {
        return;
    }
    let e = all[choose("entry", all.len() as u32) as usize];
    let o = match e.convs.first() {
        Some(c) => (c.apply)((c.src)(), false),
        None => make(e),
    };
    let _ = (derived(&*o, Plan::clean(0)), walk(o.as_err(), false));
}

// ---------------------------------------------------------------- C02
fn c02(es: &[&'static Entry]) {
    if chance("mode", 1, 3) {
        return run_stack("C02", false);
    }
    let e = pick_entry(es);
    if !e.convs.is_empty() && chance("conv", 1, 2) {
        let c = &e.convs[choose("which", e.convs.len() as u32) as usize];
        let src = (c.src)();
        let name = node_name((c.src_obj)(&*src));
        let before = digest((c.src_obj)(&*src));
        let second = chance("site", 1, 2);
        let o = anywhere(move || (c.apply)(src, second));
        count("conversions");
        event(|| format!("convert {name} via {} -> {}", c.label, o.name()));
        if o.name() != c.expect {
            violation("wrong-variant", c.expect, format!("conversion {} produced {}", c.label, o.name()));
            return;
        }
        let (found, after) = match held(&*o) {
            None => ("none".to_string(), None),
            Some(s) => (node_name(s), Some(digest(s))),
        };
        if found != name {
            violation("wrong-cause", c.expect, format!("converted {name}, the error holds {found}"));
            return;
        }
        if after.as_ref() != Some(&before) {
            violation("changed-cause", c.expect, format!("converted {name} saying {} over {:?}, now it says {:?}", lossy(&before.0), before.1, after.map(|a| (lossy(&a.0), a.1))));
            return;
        }
        walk_check(&*o);
    } else {
        let o = make(e);
        walk_check(&*o);
    }
}
/// The error a value was made from, if it keeps one.
fn held(o: &dyn Obj) -> Option<&(dyn Error + 'static)> {
    match o.t_source() {
        Src::None => None,
        Src::Is(s) | Src::IsEither(s, _) | Src::Via(s) => Some(s),
    }
}
fn walk_check(o: &dyn Obj) {
    somewhere(|| walk_check_here(o));
}
fn walk_check_here(o: &dyn Obj) {
    let mut cur: Option<&dyn Obj> = Some(o);
    let mut depth = 0;
    let mut h = 0;
    while let Some(x) = cur {
        count("nodes checked");
        h = mix(h, hash_str(x.name()));
        if let Err(m) = check_source(x) {
            violation("wrong-source", x.name(), format!("at depth {depth}: {m}"));
            return;
        }
        // continue into the first derived error below
        let mut n = x.as_err().source();
        cur = None;
        while let Some(s) = n {
            depth += 1;
            if let Some(d) = as_obj(s) {
                cur = Some(d);
                break;
            }
            n = s.source();
            if depth > LONGEST {
                violation("endless", o.name(), "source chain longer than any built");
                return;
            }
        }
    }
    event(|| format!("walked {} depth {depth}", o.name()));
    cover(h);
}

// ---------------------------------------------------------------- C03
pub fn check_provide(o: &dyn Obj, subject: &str) {
    let want = expected(o);
    let got = somewhere(|| request(o.as_err()));
    count("requests checked");
    let d = |p: &Provided| format!("backtrace {} tag {} root-tag {} value {:?}", p.bt.map_or("none".into(), |a| which_bt(o, a)), p.tag.is_some(), p.root.is_some(), p.num);
    if !want.iter().any(|w| same_provided(w, &got)) {
        violation("wrong-backtrace", subject, format!("{} provides {}, expected {}", o.name(), d(&got), want.iter().map(d).collect::<Vec<_>>().join(" or ")));
        return;
    }
    cover(mix(hash_str(subject), u64::from(got.bt.is_some()) | u64::from(got.tag.is_some()) << 1 | (want.len() as u64) << 2));
}
/// Which backtrace an address is, in words.
fn which_bt(o: &dyn Obj, a: usize) -> String {
    if own_bt(o).map(|b| b as *const Backtrace as usize) == Some(a) {
        return "of the error itself".into();
    }
    let mut n = o.as_err().source();
    let mut k = 1;
    while let Some(s) = n {
        if let Some(b) = as_obj(s).and_then(own_bt) {
            if b as *const Backtrace as usize == a {
                return format!("of the derived source {k} levels down");
            }
        }
        n = s.source();
        k += 1;
    }
    "of something below".into()
}
pub fn own_bt(o: &dyn Obj) -> Option<&Backtrace> {
    match o.t_bt() {
        Bt::None => None,
        Bt::Own(b) => Some(b),
        Bt::Fwd(_, b) | Bt::Either(_, b) => b,
    }
}
fn enabled() -> bool {
    match std::env::var("RUST_LIB_BACKTRACE").or_else(|_| std::env::var("RUST_BACKTRACE")) {
        Ok(v) => v != "0",
        Err(_) => false,
    }
}
/// The error was just converted in a function named like one of `sites`.
pub fn check_capture(o: &dyn Obj, sites: &[&str], not: &[&str], subject: &str) {
    let Some(b) = own_bt(o) else {
        violation("no-capture", subject, "the conversion left the backtrace field empty");
        return;
    };
    count("captures checked");
    let st = b.status();
    if enabled() {
        if st != BacktraceStatus::Captured {
            violation("no-capture", subject, format!("capture is enabled but the conversion stored a backtrace with status {st:?}"));
            return;
        }
        if chance("frames", 1, 6) {
            let text = b.to_string();
            count("backtraces resolved");
            for s in sites {
                if !text.contains(s) {
                    violation("wrong-capture", subject, format!("the stored backtrace does not pass through the conversion in {s}"));
                    return;
                }
            }
            for s in not {
                if text.contains(s) {
                    violation("wrong-capture", subject, format!("the stored backtrace was taken in another conversion, {s}"));
                    return;
                }
            }
        }
    } else if st != BacktraceStatus::Disabled {
        violation("forced-capture", subject, format!("capture is disabled but the conversion stored a backtrace with status {st:?}"));
    }
}
fn c03(es: &[&'static Entry], all: &[&'static Entry]) {
    match choose("mode", 8) {
        0 | 1 => run_stack("C03", false),
        2 => {
            let o = make(pick_entry(all));
            check_chain_provide(&*o);
        }
        m => {
            if es.is_empty() {
                return;
            }
            let e = pick_entry(es);
            if m >= 5 && !e.convs.is_empty() {
                let c = &e.convs[choose("which", e.convs.len() as u32) as usize];
                let second = chance("site", 1, 2);
                let src = (c.src)();
                let o = anywhere(move || (c.apply)(src, second));
                count("conversions");
                event(|| format!("convert via {} -> {}", c.label, o.name()));
                check_chain_provide(&*o);
                if c.own_bt && o.name() == c.expect {
                    check_capture(&*o, &[c.sites[usize::from(second)]], &[c.sites[usize::from(!second)]], o.name());
                }
            } else {
                let o = make(e);
                check_chain_provide(&*o);
            }
        }
    }
}
fn check_chain_provide(o: &dyn Obj) {
    check_provide(o, o.name());
    let mut n = o.as_err().source();
    let mut k = 0;
    while let Some(s) = n {
        if k < 12 || k % 7 == 0 {
            if let Some(d) = as_obj(s) {
                check_provide(d, d.name());
            }
        }
        n = s.source();
        k += 1;
        if k as usize > LONGEST {
            break;
        }
    }
    event(|| format!("requests on {} levels={k}", o.name()));
}

// ---------------------------------------------------------------- C11
fn everything(o: &dyn Obj, spec: usize) -> (Transcript, Walk) {
    somewhere(|| everything_here(o, spec))
}
fn everything_here(o: &dyn Obj, spec: usize) -> (Transcript, Walk) {
    (derived(o, Plan::clean(spec)), walk(o.as_err(), false))
}
/// Values of one type that live one after the other, mostly in the same
/// memory: each is observed, perhaps interrupted, and dropped. What an earlier
/// one left behind must not show in a later one.
fn later(e: &'static Entry) -> bool {
    let spec = pick_spec();
    for n in 0..2 + choose("values", 5) {
        let o = make(e);
        let clean = Plan::clean(spec);
        let got = derived(&*o, clean);
        let want = by_hand(&*o, clean);
        ev(e, "later", o.name(), &clean, &got);
        count("observations");
        count("later values");
        if got.bytes != want.bytes || got.outcome != want.outcome || got.log != want.log {
            violation("residue", o.name(), format!("after {n} earlier values of its type were observed and dropped it formats as {} ({:?}), handwritten {} ({:?})", show(e, &got.bytes), got.outcome, show(e, &want.bytes), want.outcome));
            return false;
        }
        if chance("also-faulted", 1, 2) {
            let p = choose_fault(spec, got.pieces.len() as u32, got.bytes.len() as u32, got.log.len() as u32, false);
            let t = derived(&*o, p);
            count_fault(&p, &t);
            ev(e, "faulted", o.name(), &p, &t);
        }
        if chance("also-walk", 1, 3) {
            check_chain_provide(&*o);
        }
    }
    true
}
fn c11(es: &[&'static Entry]) {
    let n = 1 + choose("objects", 3) as usize;
    let mut objs: Vec<(&'static Entry, Rc<Box<dyn Obj>>, usize)> = Vec::new();
    for k in 0..n {
        // often two values of one type
        let e = if k > 0 && chance("same-type", 1, 2) { objs[0].0 } else { pick_entry(es) };
        objs.push((e, Rc::new(make(e)), pick_spec()));
    }
    if chance("later", 1, 4) && !later(objs[0].0) {
        return;
    }
    let base: Vec<(Transcript, Walk)> = objs.iter().map(|(_, o, s)| everything(&***o, *s)).collect();
    let steps = 2 + choose("steps", 6);
    for _ in 0..steps {
        let k = choose("object", n as u32) as usize;
        let (e, o, s) = (objs[k].0, objs[k].1.clone(), objs[k].2);
        let b = &base[k].0;
        let p = choose_fault(s, b.pieces.len() as u32, b.bytes.len() as u32, b.log.len() as u32, false);
        let crash = choose("interrupt", 4);
        let run = {
            let o = o.clone();
            move || {
                if crash == 3 {
                    // interrupted while its sources or its data are requested
                    set_crash_den(2);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| walk(o.as_err(), false)));
                    set_crash_den(0);
                    if r.is_err() {
                        count("fault:panic during source()/provide()");
                    }
                } else {
                    let t = somewhere(|| derived(&**o, p));
                    count_fault(&p, &t);
                    ev(e, "faulted", o.name(), &p, &t);
                }
                count("observations");
            }
        };
        if chance("other-thread", 1, 3) {
            let at_end = chance("at-end", 1, 3);
            let _ = spawn(move || if at_end { at_thread_end(run) } else { run() }).join();
        } else {
            run();
        }
        // everything must look as before
        let on_thread = chance("look-on-thread", 1, 4);
        for (j, (_, o, s)) in objs.iter().enumerate() {
            let got: (Transcript, Walk) = if on_thread {
                let cell = Rc::new(Cell::new(None));
                let (c2, o2, s2) = (cell.clone(), o.clone(), *s);
                let at_end = chance("at-end", 1, 3);
                let look = move || c2.set(Some(everything(&**o2, s2)));
                let _ = spawn(move || if at_end { at_thread_end(look) } else { look() }).join();
                match cell.take() {
                    Some(g) => g,
                    None => {
                        violation("residue", o.name(), "observation on a fresh thread after a fault ended in a panic");
                        return;
                    }
                }
            } else {
                everything(&***o, *s)
            };
            count("observations");
            let (bt, bw) = &base[j];
            if &got.0 != bt {
                violation("residue", o.name(), format!("after a faulted observation of {} it formats as {} ({:?}, fields {:?}), before as {} ({:?}, fields {:?})", objs[k].1.name(), lossy(&got.0.bytes), got.0.outcome, got.0.log.len(), lossy(&bt.bytes), bt.outcome, bt.log.len()));
                return;
            }
            if !same_walk(&got.1, bw) {
                violation("residue", o.name(), format!("after a faulted observation its source chain or provided data changed: {:?} before {:?}", got.1.nodes.iter().map(|n| &n.1).collect::<Vec<_>>(), bw.nodes.iter().map(|n| &n.1).collect::<Vec<_>>()));
                return;
            }
        }
        cover(mix(mix(hash_str(objs[k].1.name()), kind(&p)), crash.into()));
    }
}

// ---------------------------------------------------------------- C04
#[derive(Clone)]
struct Look {
    obj: usize,
    plan: Plan,
    walk: bool,
}
fn look(o: &dyn Obj, l: &Look) -> (Option<Transcript>, Option<Walk>) {
    if l.walk {
        (None, Some(walk(o.as_err(), l.plan.yields)))
    } else {
        (Some(derived(o, l.plan)), None)
    }
}
fn same_look(a: &(Option<Transcript>, Option<Walk>), b: &(Option<Transcript>, Option<Walk>)) -> bool {
    a.0 == b.0
        && match (&a.1, &b.1) {
            (None, None) => true,
            (Some(x), Some(y)) => same_walk(x, y),
            _ => false,
        }
}
fn c04(es: &[&'static Entry]) {
    let n = 1 + choose("objects", 2) as usize;
    let mut objs: Vec<(&'static Entry, Box<dyn Obj>)> = Vec::new();
    for k in 0..n {
        let e = if k > 0 && chance("same-type", 2, 3) { objs[0].0 } else { pick_entry(es) };
        objs.push((e, make(e)));
    }
    // re-entrant formatting equals the handwritten composition
    for (e, o) in &objs {
        if e.flags & F_NEST != 0 {
            let (d, h) = (derived(&**o, Plan::clean(0)), by_hand(&**o, Plan::clean(0)));
            if d.nested > 0 && (d.bytes != h.bytes || d.outcome != h.outcome) {
                violation("re-entrancy", o.name(), format!("formatting another error from within gives {} ({:?}), expected {}", lossy(&d.bytes), d.outcome, lossy(&h.bytes)));
                return;
            }
            count("nested formattings");
        }
    }
    // now and then a crowd
    let (observers, most) = if chance("crowd", 1, 25) { (8 + choose("observers", 13), 1) } else { (2 + choose("observers", 4), 3) };
    let mut looks: Vec<Vec<Look>> = Vec::new();
    for _ in 0..observers {
        let mut v = Vec::new();
        for _ in 0..1 + choose("looks", most) {
            let obj = choose("object", n as u32) as usize;
            let spec = pick_spec();
            let base = derived(&*objs[obj].1, Plan::clean(spec));
            let plan = choose_fault(spec, base.pieces.len() as u32, base.bytes.len() as u32, base.log.len() as u32, true);
            v.push(Look { obj, plan, walk: chance("walk", 1, 4) });
        }
        looks.push(v);
    }
    // alone
    let solo: Vec<Vec<_>> = looks.iter().map(|v| v.iter().map(|l| look(&*objs[l.obj].1, l)).collect()).collect();
    if observers >= 8 {
        count("crowds");
    }
    // together
    set_preempt_den([1, 2, 4][choose("preempt-rate", 3) as usize]);
    let objs = Rc::new(objs);
    let results = Rc::new(std::cell::RefCell::new(vec![Vec::new(); looks.len()]));
    let mut tasks = Vec::new();
    for (t, v) in looks.iter().enumerate() {
        let (objs, v, results) = (objs.clone(), v.clone(), results.clone());
        tasks.push(spawn(move || {
            for l in &v {
                let r = look(&*objs[l.obj].1, l);
                if let Some(t) = &r.0 {
                    count_fault(&l.plan, t);
                    ev(objs[l.obj].0, "observer", objs[l.obj].1.name(), &l.plan, t);
                }
                count("observations");
                results.borrow_mut()[t].push(r);
            }
        }));
    }
    for t in tasks {
        if let Err(p) = t.join() {
            if !p.is::<SimAbort>() {
                violation("panic", objs[0].1.name(), format!("observer died: {}", payload_text(&*p)));
            }
        }
    }
    let results = results.borrow();
    for (t, v) in looks.iter().enumerate() {
        for (k, l) in v.iter().enumerate() {
            let o = &*objs[l.obj].1;
            let Some(got) = results[t].get(k) else { return };
            if !same_look(got, &solo[t][k]) {
                let d = |x: &(Option<Transcript>, Option<Walk>)| match x {
                    (Some(t), _) => format!("{} ({:?}, {} fields)", lossy(&t.bytes), t.outcome, t.log.len()),
                    (_, Some(w)) => format!("{:?}", w.nodes.iter().map(|n| n.1.clone()).collect::<Vec<_>>()),
                    _ => String::new(),
                };
                violation("interference", o.name(), format!("observer {t} of {} saw {} among {} others, {} alone", o.name(), d(got), observers - 1, d(&solo[t][k])));
                return;
            }
            cover(mix(hash_str(o.name()), kind(&l.plan)));
        }
    }
    drop(results);
}

// ---------------------------------------------------------------- C05
struct Holder {
    entry: &'static Entry,
    obj: Rc<Box<dyn Obj>>,
    ids: Rc<Vec<u32>>,
}
fn alive(h: &Holder, what: &str) -> bool {
    for i in h.ids.iter() {
        if ledger::drops(*i) != 0 {
            violation("lost", h.obj.name(), format!("token {i} held by {} was dropped ({} times) during {what}", h.obj.name(), ledger::drops(*i)));
            return false;
        }
    }
    true
}
fn discard(h: Holder) {
    let name = h.obj.name();
    let last = Rc::strong_count(&h.obj) == 1;
    let ids = h.ids.clone();
    drop(h);
    if last {
        for i in ids.iter() {
            let n = ledger::drops(*i);
            if n != 1 {
                violation(if n == 0 { "leak" } else { "double-drop" }, name, format!("token {i} was dropped {n} times after the last holder went away"));
                return;
            }
        }
    }
}
fn c05(es: &[&'static Entry]) {
    ledger::reset();
    if chance("mode", 1, 4) {
        run_stack("C05", true);
        return settle();
    }
    set_preempt_den([1, 2, 4][choose("preempt-rate", 3) as usize]);
    let den = if chance("crashes", 2, 3) { 12 } else { 0 };
    let tasks_n = 1 + choose("tasks", 3);
    let ch: Arc<Chan<Holder>> = Chan::new();
    let es: Rc<Vec<&'static Entry>> = Rc::new(es.to_vec());
    let mut tasks = Vec::new();
    for t in 0..tasks_n {
        let (es, ch) = (es.clone(), ch.clone());
        tasks.push(spawn(move || {
            let mut mine: Vec<Holder> = Vec::new();
            for _ in 0..2 + choose("ops", 8) {
                match choose("op", 8) {
                    0 | 1 => {
                        let e = pick_entry(&es);
                        let mark = ledger::max_id();
                        let o = make(e);
                        let ids = ledger::born_since(mark);
                        mine.push(Holder { entry: e, obj: Rc::new(o), ids: Rc::new(ids) });
                    }
                    2 | 3 => {
                        let cs: Vec<&'static Entry> = es.iter().copied().filter(|e| !e.convs.is_empty()).collect();
                        if cs.is_empty() {
                            continue;
                        }
                        let e = pick_entry(&cs);
                        let c = &e.convs[choose("which", e.convs.len() as u32) as usize];
                        let mark = ledger::max_id();
                        let src = (c.src)();
                        let before = ledger::born_since(mark);
                        let said = chance("digest", 1, 3).then(|| digest((c.src_obj)(&*src)));
                        set_crash_den(if den > 0 { 4 } else { 0 });
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| somewhere(|| (c.apply)(src, false))));
                        set_crash_den(0);
                        count("conversions");
                        match r {
                            Ok(o) => {
                                event(|| format!("task {t} converted via {}", c.label));
                                if let (Some(b), Some(h)) = (said, held(&*o)) {
                                    let now = digest(h);
                                    if now != b {
                                        violation("replaced", c.expect, format!("what was converted said {} over {:?}, what is held says {} over {:?}", lossy(&b.0), b.1, lossy(&now.0), now.1));
                                    }
                                }
                                mine.push(Holder { entry: e, obj: Rc::new(o), ids: Rc::new(ledger::born_since(mark)) });
                                alive(mine.last().unwrap(), "conversion");
                            }
                            Err(p) => {
                                if p.is::<SimAbort>() {
                                    std::panic::resume_unwind(p);
                                }
                                if !p.is::<SimCrash>() {
                                    violation("panic", c.expect, format!("conversion panicked: {}", payload_text(&*p)));
                                }
                                count("fault:crash inside a conversion");
                                for i in before {
                                    if ledger::drops(i) != 1 {
                                        violation("leak", c.expect, format!("token {i} was dropped {} times after its conversion was interrupted", ledger::drops(i)));
                                    }
                                }
                            }
                        }
                    }
                    4 | 5 if !mine.is_empty() => {
                        let k = choose("mine", mine.len() as u32) as usize;
                        let h = &mine[k];
                        let spec = pick_spec();
                        let p = choose_fault(spec, 6, 40, 3, true);
                        let hold = Holder { entry: h.entry, obj: h.obj.clone(), ids: h.ids.clone() };
                        let tr = derived(&**hold.obj, p);
                        count_fault(&p, &tr);
                        event(|| format!("task {t} observed {} {:?}", hold.obj.name(), tr.outcome));
                        alive(&hold, "formatting");
                        set_crash_den(den / 2);
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| walk(hold.obj.as_err(), true)));
                        set_crash_den(0);
                        if let Err(p) = r {
                            if p.is::<SimAbort>() {
                                std::panic::resume_unwind(p);
                            }
                            count("fault:panic during source()/provide()");
                        }
                        count("observations");
                        alive(&hold, "source()/provide()");
                        discard(hold);
                    }
                    6 if !mine.is_empty() => {
                        let h = mine.swap_remove(choose("mine", mine.len() as u32) as usize);
                        if chance("share", 1, 2) {
                            ch.send(Holder { entry: h.entry, obj: h.obj.clone(), ids: h.ids.clone() }, chance("reorder", 1, 4));
                            mine.push(h);
                        } else {
                            ch.send(h, chance("reorder", 1, 4));
                        }
                        count("hand-offs");
                    }
                    _ => {
                        if let Some(h) = ch.drain().pop() {
                            alive(&h, "hand-off");
                            mine.push(h);
                        }
                        if !mine.is_empty() && chance("discard", 1, 2) {
                            discard(mine.swap_remove(choose("mine", mine.len() as u32) as usize));
                        }
                    }
                }
                set_crash_den(den);
                crate::fields::crash_point("task");
                set_crash_den(0);
                yield_point("op");
            }
            for h in mine {
                discard(h);
            }
        }));
    }
    for t in tasks {
        match t.join() {
            Ok(()) => {}
            Err(p) if p.is::<SimCrash>() => count("tasks crashed"),
            Err(p) if p.is::<SimAbort>() => {}
            Err(p) => violation("panic", "task", format!("unexpected panic: {}", payload_text(&*p))),
        }
    }
    for h in ch.drain() {
        alive(&h, "hand-off");
        discard(h);
    }
    drop(ch);
    settle();
}
pub fn settle() {
    let (leaked, twice) = ledger::settle();
    cover(mix(leaked.len() as u64, ledger::max_id() as u64 % 64));
    if !leaked.is_empty() {
        violation("leak", "run", format!("tokens {leaked:?} were never dropped although every holder is gone"));
    }
    if !twice.is_empty() {
        violation("double-drop", "run", format!("tokens {twice:?} were dropped more than once"));
    }
}

// ---------------------------------------------------------------- C06
/// Fixed-size buffer, as an out-of-memory handler would use.
struct Fixed {
    buf: [u8; 4096],
    n: usize,
}
impl Write for Fixed {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let b = s.as_bytes();
        if self.n + b.len() > self.buf.len() {
            return Err(std::fmt::Error);
        }
        self.buf[self.n..self.n + b.len()].copy_from_slice(b);
        self.n += b.len();
        Ok(())
    }
}
struct Pass<'a>(&'a dyn Obj, bool);
impl Display for Pass<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        if self.1 {
            self.0.t_fmt(f)
        } else {
            Display::fmt(self.0, f)
        }
    }
}
fn format_armed(o: &dyn Obj, spec: usize, twin: bool, mode: Mode, out: &mut Fixed) -> (u64, bool) {
    crate::fields::CTX.with(|c| c.borrow_mut().twin = twin);
    out.n = 0;
    let p = Pass(o, twin);
    arm(mode);
    let r = (SPECS[spec].1)(out, &p);
    let n = disarm();
    crate::fields::CTX.with(|c| c.borrow_mut().twin = false);
    (n, r.is_ok())
}
fn c06(es: &[&'static Entry]) {
    let e = pick_entry(es);
    let mut d = Box::new(Fixed { buf: [0; 4096], n: 0 });
    let mut h = Box::new(Fixed { buf: [0; 4096], n: 0 });
    let o = if !e.convs.is_empty() && chance("conv", 1, 3) {
        let c = &e.convs[choose("which", e.convs.len() as u32) as usize];
        let src = (c.src)();
        let must = match c.hand {
            Some(hand) if c.own_bt => {
                // std reads the capture setting once, and allocates then
                drop(Backtrace::capture());
                set_conv_mode(Mode::Count);
                hand();
                conv_count()
            }
            _ => 0,
        };
        {
            let deny = must == 0 && chance("deny", 1, 2);
            set_conv_mode(if deny { Mode::Deny } else { Mode::Count });
            count(if deny { "fault:every allocation fails" } else { "windows counted" });
            let o = (c.apply)(src, chance("site", 1, 2));
            set_conv_mode(Mode::Off);
            count("conversions");
            event(|| format!("convert via {} -> {}", c.label, o.name()));
            if conv_count() > must {
                violation("allocates", c.expect, format!("the conversion {} made {} heap allocations, storing its backtrace by hand makes {must}", c.label, conv_count()));
                return;
            }
            o
        }
    } else {
        make(e)
    };
    let subject = o.name();
    let spec = pick_spec();
    let (nh, okh) = format_armed(&*o, spec, true, Mode::Count, &mut h);
    let (nd, okd) = format_armed(&*o, spec, false, Mode::Count, &mut d);
    count("observations");
    count("windows counted");
    event(|| format!("format {subject} spec {} allocations {nd} by hand {nh}", SPECS[spec].0));
    if nd > nh {
        violation("allocates", subject, format!("formatting with {} made {nd} heap allocations, a handwritten impl makes {nh}", SPECS[spec].0));
        return;
    }
    if nh == 0 && nd == 0 && okd && okh {
        let (before, len) = (d.buf[..d.n].to_vec(), d.n);
        let (n, ok) = format_armed(&*o, spec, false, Mode::Deny, &mut d);
        count("fault:every allocation fails");
        if n > 0 || !ok || d.n != len || d.buf[..d.n] != before[..] {
            violation("fails-without-memory", subject, format!("formatting with {} under a failing allocator: refused {n} allocations, ok={ok}, wrote {}", SPECS[spec].0, lossy(&d.buf[..d.n])));
            return;
        }
    }
    // walking and requesting
    let deny = chance("deny", 1, 2);
    arm(if deny { Mode::Deny } else { Mode::Count });
    let mut k = 0;
    let mut cur: Option<&(dyn Error + 'static)> = Some(o.as_err());
    while let Some(n) = cur {
        let _ = request(n);
        cur = n.source();
        k += 1;
        if k as usize > LONGEST {
            break;
        }
    }
    let n = disarm();
    count(if deny { "fault:every allocation fails" } else { "windows counted" });
    if n > 0 {
        violation("allocates", subject, format!("walking its sources and requesting data made {n} heap allocations (chain of {k})"));
        return;
    }
    cover(mix(mix(hash_str(subject), spec as u64), k));
}
