//! Fields with observable, faultable formatting.
use crate::alloc::Suspend;
use crate::ledger::Token;
use crate::model::Obj;
use simcore::{choose, event, fresh_id, mix, yield_point, SimCrash};
use std::cell::RefCell;
use std::fmt::{self, Formatter};
use std::ops::Deref;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum When {
    Before,
    Mid,
    After,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum How {
    Err,
    Panic,
    Crash,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct FieldFault {
    pub nth: u32,
    pub when: When,
    pub how: How,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct FieldEv {
    pub id: u32,
    pub tr: u8,
    pub flags: u64,
}

/// State of the observation in progress on this thread.
#[derive(Default)]
pub struct Ctx {
    pub active: bool,
    pub twin: bool,
    pub yields: bool,
    pub fault: Option<FieldFault>,
    pub n: u32,
    pub log: Vec<FieldEv>,
    pub fired: Option<How>,
    pub after_fired: u32,
    pub nested: u32,
    /// writes seen by the sink when the field fault fired
    pub writes_at_fire: u32,
    pub writes: u32,
}
impl Default for FieldFault {
    fn default() -> Self {
        FieldFault { nth: u32::MAX, when: When::Before, how: How::Err }
    }
}

thread_local! {
    pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
}

pub struct FieldPanic(pub u32);

/// A field is being formatted: log it and apply the planned fault.
fn point(id: u32, tr: u8, f: Option<&Formatter<'_>>, when: When) -> fmt::Result {
    let _s = Suspend::new();
    let act = CTX.with(|c| {
        let mut c = c.borrow_mut();
        if !c.active {
            return None;
        }
        if when == When::Before {
            if c.fired.is_some() {
                c.after_fired += 1;
            }
            let flags = f.map_or(0, |f| {
                let mut h = mix(u64::from(f.fill() as u32), f.width().map_or(0, |w| w as u64 + 1));
                h = mix(h, f.precision().map_or(0, |w| w as u64 + 1));
                h = mix(h, match f.align() {
                    None => 0,
                    Some(fmt::Alignment::Left) => 1,
                    Some(fmt::Alignment::Right) => 2,
                    Some(fmt::Alignment::Center) => 3,
                });
                mix(h, u64::from(f.alternate()) | u64::from(f.sign_plus()) << 1 | u64::from(f.sign_minus()) << 2 | u64::from(f.sign_aware_zero_pad()) << 3)
            });
            c.log.push(FieldEv { id, tr, flags });
            c.n += 1;
        }
        match c.fault {
            Some(p) if p.nth + 1 == c.n && p.when == when && c.fired.is_none() && (tr < 20 || p.how != How::Err) => {
                c.fired = Some(p.how);
                c.writes_at_fire = c.writes;
                Some(p.how)
            }
            _ => None,
        }
    });
    let yields = CTX.with(|c| c.borrow().active && c.borrow().yields);
    match act {
        None => {
            if yields {
                yield_point("field");
            }
            Ok(())
        }
        Some(How::Err) => Err(fmt::Error),
        Some(How::Panic) => std::panic::panic_any(FieldPanic(id)),
        Some(How::Crash) => std::panic::panic_any(SimCrash(id)),
    }
}

fn show(id: u32, tr: u8, name: &str, f: &mut Formatter<'_>) -> fmt::Result {
    point(id, tr, Some(f), When::Before)?;
    f.write_str("<")?;
    f.write_str(name)?;
    point(id, tr, None, When::Mid)?;
    write!(f, "{}", id)?;
    if let Some(w) = f.width() {
        write!(f, ":w{w}")?;
    }
    if let Some(p) = f.precision() {
        write!(f, ":p{p}")?;
    }
    if f.fill() != ' ' {
        write!(f, ":f{}", f.fill())?;
    }
    match f.align() {
        None => {}
        Some(fmt::Alignment::Left) => f.write_str(":l")?,
        Some(fmt::Alignment::Right) => f.write_str(":r")?,
        Some(fmt::Alignment::Center) => f.write_str(":c")?,
    }
    if f.alternate() {
        f.write_str("#")?;
    }
    if f.sign_plus() {
        f.write_str("+")?;
    }
    if f.sign_minus() {
        f.write_str("-")?;
    }
    if f.sign_aware_zero_pad() {
        f.write_str("0")?;
    }
    f.write_str(">")?;
    point(id, tr, None, When::After)
}

macro_rules! all_traits {
    ($t:ty, |$s:ident| $id:expr, $gen:ident) => {
        all_traits!(@ $t, $s, $id, Display 0 "D", LowerHex 2 "x", UpperHex 3 "X", Octal 4 "o", Binary 5 "b", LowerExp 6 "e", UpperExp 7 "E", Pointer 8 "p", Debug 1 "?");
    };
    (@ $t:ty, $s:ident, $id:expr, $($tr:ident $n:literal $name:literal),*) => {
        $(impl fmt::$tr for $t {
            fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
                let $s = self;
                show($id, $n, $name, f)
            }
        })*
    };
}

/// Plain field: implements every formatting trait and says which one ran.
#[derive(PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Probe {
    pub id: u32,
}
all_traits!(Probe, |s| s.id, x);
impl Probe {
    pub fn make() -> Self {
        Probe { id: fresh_id() }
    }
    pub fn len(&self) -> usize {
        (self.id % 7) as usize
    }
    pub fn is_empty(&self) -> bool {
        false
    }
    pub fn get(&self) -> &Probe {
        self
    }
    pub fn num(&self) -> u32 {
        self.id
    }
}

/// The same types under other names.
pub type Place = std::path::PathBuf;
pub trait Same {
    type This: ?Sized;
}
impl<T: ?Sized> Same for T {
    type This = T;
}
/// Types that only carry the names of types the derive knows.
pub mod lookalike {
    pub struct Backtrace<T>(pub crate::Probe, pub std::marker::PhantomData<T>);
    pub struct PathBuf(pub crate::Probe);
    pub struct Path<T>(pub T);
    macro_rules! pass {
        ($([$($g:tt)*] $t:ty, $f:tt;)*) => { $(
            impl $($g)* std::fmt::Display for $t { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(&self.$f, f) } }
            impl $($g)* std::fmt::Debug for $t { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Debug::fmt(&self.$f, f) } }
            impl $($g)* std::fmt::LowerHex for $t { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::LowerHex::fmt(&self.$f, f) } }
        )* };
    }
    pass! { [<T>] Backtrace<T>, 0; [] PathBuf, 0; [] Path<crate::Probe>, 0; }
}

/// Field owning a ledger token.
pub struct Tok(pub Token);
all_traits!(Tok, |s| s.0.id, x);
impl Tok {
    pub fn make() -> Self {
        Tok(Token::new())
    }
}

/// Pair of probes reachable by `.0.1`-like and `.a.b`-like expressions.
#[derive(Debug)]
pub struct Pair(pub Probe, pub Probe);
impl Pair {
    pub fn make() -> Self {
        Pair(Probe::make(), Probe::make())
    }
}
#[derive(Debug)]
pub struct Limits {
    pub lo: usize,
    pub hi: usize,
    pub at: Probe,
    pub r#type: u8,
}
impl Limits {
    pub fn make() -> Self {
        Limits { lo: choose("lo", 9) as usize, hi: 10 + choose("hi", 9) as usize, at: Probe::make(), r#type: choose("ty", 200) as u8 }
    }
    pub fn mid(&self) -> usize {
        (self.lo + self.hi) / 2
    }
}

/// A field whose formatting formats another derived error (re-entrancy).
pub struct Nest(pub Box<dyn Obj>);
impl Nest {
    pub fn make() -> Self {
        Nest(crate::model::nested_obj())
    }
}
impl fmt::Display for Nest {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        let twin = CTX.with(|c| {
            let mut c = c.borrow_mut();
            c.nested += 1;
            c.twin
        });
        f.write_str("[")?;
        if twin {
            self.0.t_fmt(f)?;
        } else {
            fmt::Display::fmt(&*self.0, f)?;
        }
        f.write_str("]")
    }
}
impl fmt::Debug for Nest {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        f.write_str("Nest")
    }
}

/// Argument expressions of messages call these: an event and a fault point.
pub fn touch<T: ?Sized>(x: &T) -> &T {
    let _ = point(0, 20, None, When::Before);
    x
}
pub fn plen(p: &Probe) -> usize {
    let _ = point(p.id, 21, None, When::Before);
    p.len()
}
/// Fails where the plan says so.
pub fn try_num(p: &Probe) -> Result<u32, fmt::Error> {
    point(p.id, 10, None, When::Before)?;
    Ok(p.num())
}
pub fn pick2<'a>(c: bool, a: &'a Probe, b: &'a Probe) -> &'a Probe {
    let _ = point(0, 22, None, When::Before);
    if c {
        a
    } else {
        b
    }
}
pub fn join(a: &Probe, n: usize) -> Joined<'_> {
    let _ = point(a.id, 23, None, When::Before);
    Joined(a, n)
}
pub struct Joined<'a>(&'a Probe, usize);
impl fmt::Display for Joined<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        write!(f, "{}+{}", self.0, self.1)
    }
}
impl fmt::Debug for Joined<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}+{:?}", self.0, self.1)
    }
}

/// Smart pointer to a probe (auto-deref cases).
#[derive(Debug)]
pub struct Ptr(pub Box<Probe>);
impl Ptr {
    pub fn make() -> Self {
        Ptr(Box::new(Probe::make()))
    }
}
impl Deref for Ptr {
    type Target = Probe;
    fn deref(&self) -> &Probe {
        &self.0
    }
}
impl fmt::Display for Ptr {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&*self.0, f)
    }
}
impl fmt::Pointer for Ptr {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        fmt::Pointer::fmt(&*self.0, f)
    }
}

static WORDS: &[&str] = &["", "a", "disk", "tape", "naïve", "日本", "two words", "{}", "{0}", "tab\there", "line\nbreak", "\"quoted\"", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "\u{1F980}", SLAB_TEXT];
const fn slab<const N: usize>() -> [u8; N] {
    let mut a = [b'/'; N];
    let mut i = 1;
    while i < N {
        if (i + 1 & i == 0 && i > 60 || i % 31 == 0) && i + 1 < N {
            // characters that reach over the ends of round sizes
            a[i] = 0xc3;
            a[i + 1] = 0xa9;
            i += 1;
        } else if i % 17 != 0 {
            a[i] = b'a' + (i % 26) as u8;
        }
        i += 1;
    }
    a
}
static SLAB: [u8; 1500] = slab();
/// Longer than any buffer that is meant for ordinary values.
static SLAB_TEXT: &str = match std::str::from_utf8(&SLAB) {
    Ok(s) => s,
    Err(_) => panic!(),
};
pub fn count_of() -> usize {
    let n = choose("usize", 14) as usize;
    if n < 12 { n } else { [300, 1100][n - 12] }
}
pub fn word() -> &'static str {
    WORDS[choose("word", WORDS.len() as u32) as usize]
}
pub fn string() -> String {
    word().to_string()
}
pub fn int(label: &'static str) -> i64 {
    [0, 1, -1, 42, i64::MAX, i64::MIN, 1_000_000, -77][choose(label, 8) as usize]
}
pub fn float() -> f64 {
    [0.0, 1.5, -2.25, f64::NAN, f64::INFINITY, 1e300, -0.0, 123456.789][choose("float", 8) as usize]
}
pub fn ch() -> char {
    ['a', 'é', '\u{1F980}', '\'', '\n', '{'][choose("char", 6) as usize]
}
pub fn path() -> std::path::PathBuf {
    use std::os::unix::ffi::OsStringExt;
    let raw: &[u8] = [&b"/etc/conf"[..], b"", b"/bad\xff\xfe/x", b"rel/\xc3\xa9", b"\xffstart", b"end\xff", b"/a b/{}", b"mid\xc3dle\xe2\x82", b"/oka\xfd\xfc/y", b"\xfeother", b"/var/conf", &SLAB[..300], &SLAB][choose("path", 13) as usize];
    let mut raw = raw.to_vec();
    if raw.len() > 99 && choose("path-end", 2) == 1 {
        raw.extend(b"\xff/\xe6\x97");
    }
    std::path::PathBuf::from(std::ffi::OsString::from_vec(raw))
}
pub fn boxed_path() -> Box<std::path::Path> {
    path().into_boxed_path()
}

/// A crash can be injected here (only when the workload enabled crashes on this thread).
pub fn crash_point(what: &'static str) {
    let _s = Suspend::new();
    if crate::model::crash_here() {
        simcore::count("fault:task crash (panic at a crash point)");
        event(|| format!("CRASH at {what}"));
        std::panic::panic_any(SimCrash(7));
    }
    if CTX.with(|c| c.borrow().yields) {
        yield_point(what);
    }
}
