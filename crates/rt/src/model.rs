//! What the generated worlds tell the workloads about their types.
use crate::alloc::Suspend;
use crate::dev::{AnyErr, Big, Wide64, Dev, Root, RootTag, Slim, Tag, Thin, Tiny};
use simcore::{chance, choose};
use std::any::Any;
use std::backtrace::Backtrace;
use std::cell::Cell;
use std::error::{request_ref, request_value, Error};
use std::fmt::{self, Formatter};
use std::sync::{Arc, Mutex, OnceLock};

/// Handwritten statement of what the derived impls of a value must do.
pub trait Obj: Error + 'static {
    /// `Type` or `Type::Variant`
    fn name(&self) -> &'static str;
    /// Display, written by hand
    fn t_fmt(&self, f: &mut Formatter<'_>) -> fmt::Result;
    /// Error::source, written by hand
    fn t_source(&self) -> Src<'_>;
    /// the backtrace request, written by hand
    fn t_bt(&self) -> Bt<'_> {
        Bt::None
    }
    /// the wrapped error of a transparent value
    fn t_inner(&self) -> Option<&dyn fmt::Display> {
        None
    }
    fn as_err(&self) -> &(dyn Error + 'static);
    fn as_any(&self) -> &dyn Any;
}

pub enum Src<'a> {
    None,
    /// exactly this object (or, for references, what it refers to)
    Is(&'a (dyn Error + 'static)),
    IsEither(&'a (dyn Error + 'static), &'a (dyn Error + 'static)),
    /// whatever this one's source is
    Via(&'a (dyn Error + 'static)),
}

pub enum Bt<'a> {
    None,
    Own(&'a Backtrace),
    /// ask this source first, then fall back
    Fwd(&'a (dyn Error + 'static), Option<&'a Backtrace>),
    /// explicitly marked separate field next to a source: either answer is right
    Either(&'a (dyn Error + 'static), Option<&'a Backtrace>),
}

pub const F_DISPLAY: u32 = 1; // part of the Display sweep
pub const F_ERROR: u32 = 2; // has an interesting Error impl
pub const F_TRANSPARENT: u32 = 4;
pub const F_ADDR: u32 = 8; // output contains addresses or is otherwise not comparable between values
pub const F_LEAKS: u32 = 16; // make() leaks on purpose ('static references)
pub const F_BT: u32 = 32; // some variant has a backtrace field
pub const F_NEST: u32 = 64; // formats another derived error
pub const F_FAULTY_OPAQUE: u32 = 128; // user expressions allocate or swallow faults themselves
pub const F_NOUNWIND: u32 = 256;
/// make() always asks dyn_ss() for something to wrap: a link of a deep chain
pub const F_LINK: u32 = 512;
/// No chain in a world is longer than this.
pub const LONGEST: usize = 400;

pub struct Entry {
    pub name: &'static str,
    pub flags: u32,
    pub make: fn() -> Box<dyn Obj>,
    /// view of an error node that is a value of (or smart pointer to) this type
    pub cast: for<'a> fn(&'a (dyn Error + 'static)) -> Option<&'a dyn Obj>,
    pub dyn_ss: Option<fn() -> Box<dyn Error + Send + Sync>>,
    pub convs: &'static [Conv],
    pub decl: &'static str,
}

/// One From impl, called from two distinct functions.
pub struct Conv {
    pub label: &'static str,
    pub expect: &'static str,
    /// build the argument (faults and allocation belong to the caller)
    pub src: fn() -> Box<dyn Any>,
    /// (argument, call site) -> converted value in place; the conversion alone
    /// happens between `conv_begin` and `conv_end`
    pub apply: fn(Box<dyn Any>, bool) -> Box<dyn Obj>,
    pub sites: [&'static str; 2],
    /// number of allocations the conversion itself may perform (user impls)
    pub own_bt: bool,
    pub custom_bt: bool,
    pub src_obj: for<'a> fn(&'a dyn Any) -> &'a (dyn Error + 'static),
    /// captures and stores a backtrace as the conversion must, by hand
    pub hand: Option<fn()>,
}

pub struct World {
    pub entries: &'static [Entry],
    pub stacks: &'static [crate::stack::StackSpec],
    pub std: bool,
    pub known: &'static [Known],
}

/// A program that is recorded as a genuine defect of the tree: the property
/// wants `want`, the tree gives `is`. Anything else is a violation, and so is
/// `is` once the finding is no longer listed (SIM_KNOWN).
pub struct Known {
    pub prop: &'static str,
    pub name: &'static str,
    pub got: fn() -> String,
    pub want: &'static str,
    pub is: &'static str,
}

static WORLD: OnceLock<&'static World> = OnceLock::new();
pub fn set_world(w: &'static World) {
    let _ = WORLD.set(w);
}
pub fn world() -> &'static World {
    WORLD.get().expect("world")
}

static PROP: Mutex<String> = Mutex::new(String::new());
pub fn set_prop(p: &str) {
    *PROP.lock().unwrap_or_else(|e| e.into_inner()) = p.to_string();
}
pub fn prop_is(p: &str) -> bool {
    let _s = Suspend::new();
    *PROP.lock().unwrap_or_else(|e| e.into_inner()) == p
}
/// Real backtraces are only made where a property looks at them.
pub fn want_bt() -> bool {
    prop_is("C03")
}
pub fn backtrace() -> Backtrace {
    if want_bt() {
        Backtrace::force_capture()
    } else {
        Backtrace::disabled()
    }
}

thread_local! {
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    /// links still to go in the deep chain being built, and whether one is
    static LINKS: Cell<u32> = const { Cell::new(0) };
    static IN_CHAIN: Cell<bool> = const { Cell::new(false) };
    static SAME_LINK: Cell<Option<usize>> = const { Cell::new(None) };
    static CRASH_DEN: Cell<u32> = const { Cell::new(0) };
    static CONV_MODE: Cell<crate::alloc::Mode> = const { Cell::new(crate::alloc::Mode::Off) };
    static CONV_COUNT: Cell<u64> = const { Cell::new(0) };
}

pub fn set_crash_den(d: u32) {
    CRASH_DEN.with(|c| c.set(d));
}
pub fn crash_here() -> bool {
    let d = CRASH_DEN.with(Cell::get);
    d > 1 && simcore::in_sim() && !std::thread::panicking() && simcore::chance("crash", 1, d)
}
pub fn set_conv_mode(m: crate::alloc::Mode) {
    CONV_MODE.with(|c| c.set(m));
}
pub fn conv_count() -> u64 {
    CONV_COUNT.with(Cell::get)
}
/// Brackets exactly the conversion call in generated code.
pub fn conv_begin() {
    let m = CONV_MODE.with(Cell::get);
    if m != crate::alloc::Mode::Off {
        crate::alloc::arm(m);
    }
}
pub fn conv_end() {
    if CONV_MODE.with(Cell::get) != crate::alloc::Mode::Off {
        let n = crate::alloc::disarm();
        CONV_COUNT.with(|c| c.set(n));
    }
}

fn deeper<R>(max: u32, f: impl FnOnce(bool) -> R) -> R {
    let d = DEPTH.with(|d| {
        d.set(d.get() + 1);
        d.get()
    });
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            DEPTH.with(|d| d.set(d.get() - 1));
        }
    }
    let _g = G;
    f(d > max)
}

/// Some error behind a trait object: a device, another derived error, or now
/// and then a chain far deeper than a test would build.
pub fn dyn_ss() -> Box<dyn Error + Send + Sync> {
    let left = LINKS.with(Cell::get);
    if left > 0 || !IN_CHAIN.with(Cell::get) && chance("chain", 1, 30) {
        let links: Vec<fn() -> Box<dyn Error + Send + Sync>> = world().entries.iter().filter(|e| e.flags & F_LINK != 0).filter_map(|e| e.dyn_ss).collect();
        if !links.is_empty() {
            struct G(bool);
            impl Drop for G {
                fn drop(&mut self) {
                    if self.0 {
                        LINKS.with(|l| l.set(0));
                        IN_CHAIN.with(|l| l.set(false));
                    }
                }
            }
            let _g = G(left == 0);
            let left = if left > 0 { left } else { [6, 12, 20, 35, 70, 140][choose("links", 6) as usize] };
            if !IN_CHAIN.with(|l| l.replace(true)) {
                // half of the chains are made of one type only
                let same = if chance("one-type", 1, 2) { Some(choose("link", links.len() as u32) as usize) } else { None };
                SAME_LINK.with(|l| l.set(same));
            }
            LINKS.with(|l| l.set(left - 1));
            let k = SAME_LINK.with(Cell::get).unwrap_or_else(|| choose("link", links.len() as u32) as usize);
            return links[k]();
        }
    }
    deeper(3, |leaf| {
        let makers: Vec<fn() -> Box<dyn Error + Send + Sync>> = world().entries.iter().filter_map(|e| e.dyn_ss).collect();
        if leaf || makers.is_empty() || choose("dyn-kind", 3) == 0 {
            match choose("dyn-leaf", 10) {
                0 => Box::new(Tiny) as Box<dyn Error + Send + Sync>,
                1 => Box::new(Slim::make()),
                2 => Box::new(Thin::make()),
                3 => Box::new(Big::make()),
                4 => Box::new(Wide64::make()),
                _ => Box::new(Dev::<3>::make()),
            }
        } else {
            makers[choose("dyn", makers.len() as u32) as usize]()
        }
    })
}
/// An error to be formatted from within another one.
pub fn nested_obj() -> Box<dyn Obj> {
    deeper(1 + choose("nest-depth", 4), |leaf| {
        let es: Vec<&Entry> = world().entries.iter().filter(|e| e.flags & F_ADDR == 0 && e.flags & F_LEAKS == 0 && (!leaf || e.flags & F_NEST == 0)).collect();
        (es[choose("nested", es.len() as u32) as usize].make)()
    })
}
/// Recursion limit for derived sources: true = make a leaf instead.
pub fn too_deep() -> bool {
    DEPTH.with(Cell::get) > 4
}
pub fn nested<R>(f: impl FnOnce() -> R) -> R {
    deeper(99, |_| f())
}

type ArcDyn = Arc<dyn Error + Send + Sync>;

/// The error behind a reference that stands in a chain itself.
fn behind<'a>(e: &'a (dyn Error + 'static)) -> Option<&'a (dyn Error + 'static)> {
    if let Some(r) = e.downcast_ref::<&'static (dyn Error + Send + Sync)>() {
        return Some(*r);
    }
    if let Some(r) = e.downcast_ref::<&'static (dyn Error + Send)>() {
        return Some(*r);
    }
    e.downcast_ref::<&'static dyn Error>().map(|r| *r)
}

pub fn as_obj<'a>(e: &'a (dyn Error + 'static)) -> Option<&'a dyn Obj> {
    if let Some(r) = behind(e) {
        return as_obj(r);
    }
    if let Some(a) = e.downcast_ref::<ArcDyn>() {
        return as_obj(&**a);
    }
    world().entries.iter().find_map(|en| (en.cast)(e)).or_else(|| world().stacks.iter().find_map(|s| (s.cast)(e)))
}

/// Casts for a value or the usual owners of one.
pub fn cast_as<'a, T: Obj>(e: &'a (dyn Error + 'static)) -> Option<&'a dyn Obj> {
    if let Some(t) = e.downcast_ref::<T>() {
        return Some(t);
    }
    if let Some(t) = e.downcast_ref::<Box<T>>() {
        return Some(&**t);
    }
    if let Some(t) = e.downcast_ref::<Arc<T>>() {
        return Some(&**t);
    }
    if let Some(t) = e.downcast_ref::<&'static T>() {
        return Some(*t);
    }
    None
}

pub fn addr(e: &(dyn Error + 'static)) -> usize {
    e as *const dyn Error as *const u8 as usize
}

/// A stable description of one node of a source chain (no addresses).
pub fn node_name(e: &(dyn Error + 'static)) -> String {
    if let Some(r) = behind(e) {
        return node_name(r);
    }
    if let Some(a) = e.downcast_ref::<ArcDyn>() {
        return node_name(&**a);
    }
    if let Some(o) = as_obj(e) {
        return o.name().to_string();
    }
    if let Some(r) = e.downcast_ref::<Root>() {
        return format!("Root({})", r.tok.id);
    }
    macro_rules! dev { ($($k:literal)*) => { $(
        if let Some(d) = e.downcast_ref::<Dev<$k>>() { return format!("Dev{}({})", $k, d.tok.id); }
        if let Some(d) = e.downcast_ref::<Box<Dev<$k>>>() { return format!("Dev{}({})", $k, d.tok.id); }
        if let Some(d) = e.downcast_ref::<Arc<Dev<$k>>>() { return format!("Dev{}({})", $k, d.tok.id); }
        if let Some(d) = e.downcast_ref::<&'static Dev<$k>>() { return format!("Dev{}({})", $k, d.tok.id); }
    )* } }
    dev!(0 1 2 3 4 5);
    macro_rules! sized { ($($t:ident)*) => { $(
        if let Some(d) = e.downcast_ref::<$t>() { return format!("{}({})", stringify!($t), d.id()); }
        if let Some(d) = e.downcast_ref::<Box<$t>>() { return format!("{}({})", stringify!($t), d.id()); }
        if let Some(d) = e.downcast_ref::<Arc<$t>>() { return format!("{}({})", stringify!($t), d.id()); }
    )* } }
    sized!(Tiny Slim Thin Big Wide64);
    if e.is::<crate::dev::Cause>() {
        return "Cause".into();
    }
    if e.is::<std::io::Error>() {
        return "io::Error".into();
    }
    if e.is::<fmt::Error>() {
        return "fmt::Error".into();
    }
    "foreign".into()
}

pub fn walk_len(e: &(dyn Error + 'static)) -> usize {
    let mut n = 0;
    let mut cur = e.source();
    while let Some(s) = cur {
        n += 1;
        cur = s.source();
        if n > LONGEST {
            break;
        }
    }
    n
}

/// Compare one derived node's source with its handwritten model; returns a complaint.
pub fn check_source(o: &dyn Obj) -> Result<(), String> {
    let got = o.as_err().source();
    let want = o.t_source();
    let name = |e: Option<&(dyn Error + 'static)>| e.map_or("none".to_string(), node_name);
    let (ok, exp) = match &want {
        Src::None => (got.is_none(), "none".to_string()),
        Src::Is(w) => (got.map_or(false, |g| addr(g) == addr(*w) && node_name(g) == node_name(*w)), node_name(*w)),
        Src::IsEither(a, b) => (got.map_or(false, |g| (addr(g) == addr(*a) && node_name(g) == node_name(*a)) || (addr(g) == addr(*b) && node_name(g) == node_name(*b))), node_name(*b)),
        Src::Via(i) => {
            let w = i.source();
            (
                match (got, w) {
                    (None, None) => true,
                    (Some(g), Some(w)) => addr(g) == addr(w) && node_name(g) == node_name(w),
                    _ => false,
                },
                name(w),
            )
        }
    };
    if ok {
        Ok(())
    } else {
        Err(format!("source of {} is {}, expected {}{}", o.name(), name(got), exp, if name(got) == exp { " (a different object)" } else { "" }))
    }
}

#[derive(Clone, Copy, Default)]
pub struct Provided {
    pub bt: Option<usize>,
    pub tag: Option<usize>,
    pub root: Option<usize>,
    pub num: Option<u64>,
}
pub fn request(e: &(dyn Error + 'static)) -> Provided {
    Provided {
        bt: request_ref::<Backtrace>(e).map(|b| b as *const Backtrace as usize),
        tag: request_ref::<Tag>(e).map(|t| t as *const Tag as usize),
        root: request_ref::<RootTag>(e).map(|t| t as *const RootTag as usize),
        num: request_value::<u64>(e),
    }
}
pub fn same_provided(a: &Provided, b: &Provided) -> bool {
    a.bt == b.bt && a.tag == b.tag && a.root == b.root && a.num == b.num
}

fn expected_of(e: &(dyn Error + 'static)) -> Vec<Provided> {
    match as_obj(e) {
        Some(o) => expected(o),
        None => vec![request(e)], // not derived code: take its word
    }
}

/// The acceptable answers of a derived value to data requests.
pub fn expected(o: &dyn Obj) -> Vec<Provided> {
    let p = |b: &Backtrace| b as *const Backtrace as usize;
    match o.t_bt() {
        Bt::None => vec![Provided::default()],
        Bt::Own(b) => vec![Provided { bt: Some(p(b)), ..Provided::default() }],
        Bt::Fwd(s, own) => {
            let mut v = expected_of(s);
            for x in &mut v {
                if x.bt.is_none() {
                    x.bt = own.map(p);
                }
            }
            v
        }
        Bt::Either(s, own) => {
            let mut v = expected_of(s);
            let fwd = v.clone();
            for x in &mut v {
                if x.bt.is_none() {
                    x.bt = own.map(p);
                }
            }
            // own only
            v.push(Provided { bt: own.map(p), ..Provided::default() });
            // the own one first, the rest forwarded
            for mut x in fwd {
                if own.is_some() {
                    x.bt = own.map(p);
                    v.push(x);
                }
            }
            let mut few: Vec<Provided> = Vec::new();
            for x in v {
                if !few.iter().any(|f| same_provided(f, &x)) {
                    few.push(x);
                }
            }
            few
        }
    }
}

pub fn any_err(a: &AnyErr) -> &(dyn Error + 'static) {
    &**a
}
