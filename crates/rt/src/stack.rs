//! Layered programs: faults raised by devices travel upwards through generated
//! layers of derived errors, under retries, timeouts, hand-off between tasks,
//! lost messages and crashes.
use crate::dev::Dev;
use crate::ledger;
use crate::model::*;
use crate::observe::{anywhere, somewhere};
use simcore::*;
use std::any::Any;
use std::error::Error;
use std::sync::{Arc, Mutex};

pub const K_PLAIN: u8 = 0;
pub const K_TRANSPARENT: u8 = 1;
pub const K_NOSOURCE: u8 = 2;

pub struct LayerConv {
    pub label: &'static str,
    pub kind: u8,
    pub expect: &'static str,
    pub own_bt: bool,
    pub custom_bt: bool,
    pub apply: fn(Box<dyn Any>) -> Box<dyn Any>,
    pub site: &'static str,
    /// one shared cause, two surfaced errors
    pub fork: Option<fn(Box<dyn Any>) -> [Box<dyn Any>; 2]>,
}
pub struct LayerSpec {
    pub name: &'static str,
    pub convs: &'static [LayerConv],
    pub view: fn(&dyn Any) -> &dyn Obj,
}
pub struct StackSpec {
    pub name: &'static str,
    pub layers: &'static [LayerSpec],
    pub cast: for<'a> fn(&'a (dyn Error + 'static)) -> Option<&'a dyn Obj>,
    pub decl: &'static str,
}

#[derive(Clone)]
struct Step {
    name: String,
    transparent: bool,
}

/// An error on its way up, with what the model knows about it.
struct Carried {
    err: Box<dyn Any>,
    level: usize,
    path: Vec<Step>,
    root: String,
    ids: Vec<u32>,
    stack: &'static StackSpec,
}

impl Carried {
    fn expected_chain(&self) -> Vec<String> {
        let mut all: Vec<&Step> = self.path.iter().rev().collect();
        let root = Step { name: self.root.clone(), transparent: false };
        if !self.root.is_empty() {
            all.push(&root);
        }
        let mut out = Vec::new();
        let mut i = 0;
        while i < all.len() {
            out.push(all[i].name.clone());
            while i < all.len() && all[i].transparent {
                i += 1;
            }
            i += 1;
        }
        out
    }
}

fn device(cfg: &Cfg, stack: &'static StackSpec) -> Result<u32, Carried> {
    yield_point("device");
    if chance("latency", 1, 3) {
        sleep(1 + u64::from(choose("ticks", 40)));
    }
    crate::fields::crash_point("device");
    if chance("dev-fault", cfg.fault, 4) {
        count("fault:device error");
        let mark = ledger::max_id();
        let d = Dev::<0>::new(chance("dev-root", 2, 3), chance("dev-bt", 1, 2), chance("dev-tag", 1, 2));
        let root = d.root.as_ref().map(|r| format!("Root({})", r.tok.id)).unwrap_or_default();
        let path = vec![Step { name: format!("Dev0({})", d.tok.id), transparent: false }];
        event(|| format!("device fault {} {}", path[0].name, root));
        return Err(Carried { err: Box::new(d), level: 0, path, root, ids: ledger::born_since(mark), stack });
    }
    Ok(choose("value", 100))
}

fn convert(mut c: Carried, conv: &'static LayerConv, prop: &str) -> Carried {
    let subject = c.stack.name;
    let level = c.level;
    if conv.kind == K_NOSOURCE {
        // the cause is dropped; the new error has no source
        c.path = vec![Step { name: conv.expect.into(), transparent: false }];
        c.root.clear();
        let mark = ledger::max_id();
        let old = std::mem::take(&mut c.ids);
        let err = std::mem::replace(&mut c.err, Box::new(()));
        c.err = somewhere(|| (conv.apply)(err));
        c.ids = ledger::born_since(mark);
        if prop == "C05" {
            for i in old {
                if ledger::drops(i) != 1 {
                    violation("leak-or-double-drop", subject, format!("token {i} of a discarded cause was dropped {} times", ledger::drops(i)));
                }
            }
        }
    } else {
        c.path.push(Step { name: conv.expect.into(), transparent: conv.kind == K_TRANSPARENT });
        let err = std::mem::replace(&mut c.err, Box::new(()));
        let (err, ids) = anywhere(move || {
            let mark = ledger::max_id();
            let err = (conv.apply)(err);
            (err, ledger::born_since(mark))
        });
        c.err = err;
        c.ids.extend(ids);
    }
    c.level = level + 1;
    count("conversions");
    event(|| format!("convert {} via {}", c.stack.layers[level].name, conv.label));
    verify(&c, prop, Some(conv));
    c
}

/// Property checks on one error in flight.
fn verify(c: &Carried, prop: &str, conv: Option<&'static LayerConv>) {
    if c.level == 0 {
        return;
    }
    let o = (c.stack.layers[c.level - 1].view)(&*c.err);
    let subject = format!("{}/{}", c.stack.name, o.name());
    match prop {
        "C02" => {
            let mut got = vec![node_name(o.as_err())];
            let mut cur = o.as_err().source();
            while let Some(n) = cur {
                got.push(node_name(n));
                if got.len() > LONGEST {
                    break;
                }
                cur = n.source();
            }
            let want = c.expected_chain();
            if got != want {
                violation("wrong-chain", subject.clone(), format!("chain is {got:?}, the fault travelled {want:?}"));
            }
        }
        "C03" => {
            crate::work::check_provide(o, &subject);
            if let Some(conv) = conv {
                if conv.own_bt {
                    crate::work::check_capture(o, &[conv.site], &[], &subject);
                }
            }
        }
        "C05" => {
            for i in &c.ids {
                if ledger::drops(*i) != 0 {
                    violation("lost", subject.clone(), format!("token {i} was dropped while {} is still held", o.name()));
                }
            }
        }
        _ => {}
    }
    cover(mix(hash_str(&subject), c.path.iter().fold(0, |h, s| mix(h, hash_str(s.name.split('(').next().unwrap_or(""))))));
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3))
}

#[derive(Clone)]
struct Cfg {
    fault: u32,
    retries: u32,
    handoff: u32,
    loss: u32,
    prop: String,
}

type Post = Arc<Chan<(Carried, &'static LayerConv, Arc<Chan<Option<Carried>>>)>>;

fn op(stack: &'static StackSpec, k: usize, cfg: &Cfg, post: &Post, shared: &Arc<Mutex<Vec<Carried>>>) -> Result<u32, Carried> {
    if k == 0 {
        return device(cfg, stack);
    }
    let spec = &stack.layers[k - 1];
    let deadline = if chance("deadline", 1, 4) { now() + u64::from(choose("budget", 60)) } else { u64::MAX };
    let mut left = cfg.retries;
    loop {
        let e = match op(stack, k - 1, cfg, post, shared) {
            Ok(v) => return Ok(v),
            Err(e) => e,
        };
        yield_point("layer");
        crate::fields::crash_point("layer");
        if now() > deadline {
            if let Some(t) = spec.convs.iter().find(|c| c.kind == K_NOSOURCE) {
                count("fault:deadline exceeded");
                return Err(convert(e, t, &cfg.prop));
            }
        }
        if left > 0 && chance("retry", 1, 2) {
            left -= 1;
            count("fault:retry after a failed attempt");
            let ids = e.ids.clone();
            let (name, drops_due) = (e.path.last().map(|s| s.name.clone()).unwrap_or_default(), e.level);
            drop(e);
            if cfg.prop == "C05" {
                for i in ids {
                    if ledger::drops(i) != 1 {
                        violation("leak-or-double-drop", format!("{}/{name}", stack.name), format!("token {i} dropped {} times after its only holder (level {drops_due}) was discarded", ledger::drops(i)));
                    }
                }
            }
            sleep(1 + u64::from(choose("backoff", 20)));
            continue;
        }
        let conv = &spec.convs[choose("conv", spec.convs.len() as u32) as usize];
        if let Some(fork) = conv.fork {
            if cfg.prop != "C05" && chance("fork", 1, 2) {
                // one shared cause delivered to two waiters
                count("fault:one failure delivered to two waiters");
                let mut path = e.path.clone();
                path.push(Step { name: conv.expect.into(), transparent: conv.kind == K_TRANSPARENT });
                let [a, b] = fork(e.err);
                let mk = |err| Carried { err, level: k, path: path.clone(), root: e.root.clone(), ids: vec![], stack };
                let (a, b) = (mk(a), mk(b));
                verify(&a, &cfg.prop, None);
                verify(&b, &cfg.prop, None);
                shared.lock().unwrap_or_else(|x| x.into_inner()).push(b);
                return Err(a);
            }
        }
        if chance("handoff", cfg.handoff, 4) {
            count("fault:error handed to another task");
            let reply = Chan::new();
            post.send((e, conv, reply.clone()), chance("reorder", 1, 4));
            match reply.recv() {
                Some(Some(c)) => return Err(c),
                _ => {
                    // lost, or the converting task crashed
                    count("fault:error lost in hand-off");
                    if left > 0 {
                        left -= 1;
                        continue;
                    }
                    return Ok(0);
                }
            }
        }
        return Err(convert(e, conv, &cfg.prop));
    }
}

pub fn run_stack(prop: &str, crashes: bool) {
    let w = world();
    if w.stacks.is_empty() {
        return;
    }
    let stack: &'static StackSpec = &w.stacks[choose("stack", w.stacks.len() as u32) as usize];
    let cfg = Cfg {
        fault: 1 + choose("fault-rate", 3),
        retries: choose("retries", 3),
        handoff: choose("handoff-rate", 3),
        loss: choose("loss-rate", 3),
        prop: prop.to_string(),
    };
    set_preempt_den([1, 2, 3, 6][choose("preempt-rate", 4) as usize]);
    let clients = 1 + choose("clients", 3);
    let crash_den = if crashes && chance("crashes", 2, 3) { 40 } else { 0 };
    let post: Post = Chan::new();
    let shared = Arc::new(Mutex::new(Vec::new()));
    let worker = {
        let (post, cfg) = (post.clone(), cfg.clone());
        spawn(move || {
            while let Some((e, conv, reply)) = post.recv() {
                yield_point("worker");
                set_crash_den(crash_den);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    crate::fields::crash_point("worker");
                    if chance("loss", cfg.loss, 12) {
                        return None;
                    }
                    if chance("delay", 1, 3) {
                        sleep(1 + u64::from(choose("ticks", 30)));
                    }
                    Some(convert(e, conv, &cfg.prop))
                }));
                set_crash_den(0);
                match r {
                    Ok(c) => reply.send(c, false),
                    Err(p) => {
                        if p.is::<SimAbort>() {
                            std::panic::resume_unwind(p);
                        }
                        reply.send(None, false); // restarted after the crash
                    }
                }
            }
        })
    };
    let mut tasks = Vec::new();
    for t in 0..clients {
        let (post, cfg, shared) = (post.clone(), cfg.clone(), shared.clone());
        tasks.push(spawn(move || {
            set_crash_den(crash_den);
            let ops = 1 + choose("ops", 3);
            let mut kept: Vec<Carried> = Vec::new();
            for n in 0..ops {
                let top = if chance("depth", 1, 3) { 1 + choose("top", stack.layers.len() as u32) as usize } else { stack.layers.len() };
                match op(stack, top, &cfg, &post, &shared) {
                    Ok(v) => event(|| format!("client {t} op {n} ok {v}")),
                    Err(e) => {
                        count("errors surfaced");
                        event(|| format!("client {t} op {n} error {:?}", e.expected_chain()));
                        verify(&e, &cfg.prop, None);
                        if chance("keep", 1, 2) {
                            kept.push(e);
                        }
                    }
                }
                yield_point("client");
                if chance("inspect-again", 1, 3) {
                    for e in &kept {
                        verify(e, &cfg.prop, None);
                    }
                }
            }
            for e in &kept {
                verify(e, &cfg.prop, None);
            }
        }));
    }
    for t in tasks {
        match t.join() {
            Ok(()) => {}
            Err(p) if p.is::<SimCrash>() => count("tasks crashed"),
            Err(p) if p.is::<SimAbort>() => {}
            Err(p) => violation("panic", stack.name, format!("unexpected panic: {}", payload_text(&*p))),
        }
    }
    for e in shared.lock().unwrap_or_else(|x| x.into_inner()).drain(..) {
        verify(&e, prop, None);
    }
    let _ = worker.join(); // ends when nobody can send any more
}
