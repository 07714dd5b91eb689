//! Devices: the low-level faults every error chain starts from, plus the
//! foreign wrappers a source can sit in.
use crate::fields::crash_point;
use crate::ledger::Token;
use simcore::{chance, choose, fresh_id};
use std::backtrace::Backtrace;
use std::error::{Error, Request};
use std::fmt::{self, Formatter};
use std::ops::Deref;

/// Deepest cause.
pub struct Root {
    pub tok: Token,
}
impl fmt::Display for Root {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        write!(f, "root{}", self.tok.id)
    }
}
impl fmt::Debug for Root {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        write!(f, "Root({})", self.tok.id)
    }
}
impl Error for Root {
    fn provide<'a>(&'a self, r: &mut Request<'a>) {
        r.provide_ref::<RootTag>(&ROOT_TAG);
    }
}
pub struct RootTag(#[allow(dead_code)] u8);
static ROOT_TAG: RootTag = RootTag(1);

/// Data provided by devices besides backtraces.
pub struct Tag {
    pub id: u32,
}

/// Handwritten device error; `K` only makes distinct types.
pub struct Dev<const K: usize> {
    pub tok: Token,
    pub code: u32,
    pub root: Option<Box<Root>>,
    pub bt: Option<Box<Backtrace>>,
    pub tag: Option<Tag>,
    pub num: Option<u64>,
}
impl<const K: usize> Dev<K> {
    pub fn make() -> Self {
        Self::new(chance("dev-root", 1, 2), chance("dev-bt", 1, 2), chance("dev-tag", 1, 2))
    }
    pub fn new(root: bool, bt: bool, tag: bool) -> Self {
        let _s = crate::alloc::Suspend::new();
        Dev {
            tok: Token::new(),
            code: fresh_id(),
            root: root.then(|| Box::new(Root { tok: Token::new() })),
            bt: (bt && crate::model::want_bt()).then(|| Box::new(Backtrace::force_capture())),
            tag: tag.then(|| Tag { id: fresh_id() }),
            num: tag.then(|| u64::from(fresh_id()) << 8),
        }
    }
}
impl<const K: usize> fmt::Display for Dev<K> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        let p = crate::fields::Probe { id: self.code };
        write!(f, "dev{K}:")?;
        fmt::Display::fmt(&p, f)
    }
}
impl<const K: usize> fmt::Debug for Dev<K> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        let p = crate::fields::Probe { id: self.code };
        write!(f, "Dev{K}(")?;
        fmt::Debug::fmt(&p, f)?;
        f.write_str(")")
    }
}
impl<const K: usize> Error for Dev<K> {
    fn source(&self) -> Option<&(dyn Error + 'static)> {
        crash_point("dev-source");
        self.root.as_deref().map(|r| r as _)
    }
    fn provide<'a>(&'a self, r: &mut Request<'a>) {
        crash_point("dev-provide");
        if let Some(b) = &self.bt {
            r.provide_ref::<Backtrace>(b);
        }
        if let Some(t) = &self.tag {
            r.provide_ref::<Tag>(t);
        }
        if let Some(n) = self.num {
            r.provide_value::<u64>(n);
        }
    }
}

// ---- errors of unusual size, each with a cause of its own
pub struct Cause;
impl fmt::Display for Cause {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&crate::fields::Probe { id: 901 }, f)
    }
}
impl fmt::Debug for Cause {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        f.write_str("Cause")
    }
}
impl Error for Cause {}
static TINY_TAG: Tag = Tag { id: 902 };

/// Takes no space at all.
pub struct Tiny;
/// One byte.
pub struct Slim(pub u8);
/// One pointer.
pub struct Thin(pub Box<Root>);
/// Several kilobytes.
pub struct Big {
    pub pad: [u64; 300],
    pub tok: Token,
    pub root: Root,
}
/// Over-aligned.
#[repr(align(64))]
pub struct Wide64 {
    pub tok: Token,
    pub root: Root,
}
impl Wide64 {
    pub fn make() -> Self {
        Wide64 { tok: Token::new(), root: Root { tok: Token::new() } }
    }
    pub fn id(&self) -> u32 {
        self.tok.id
    }
}
impl Tiny {
    pub fn make() -> Self {
        Tiny
    }
}
impl Slim {
    pub fn make() -> Self {
        Slim(choose("slim", 4) as u8)
    }
}
impl Thin {
    pub fn make() -> Self {
        let _s = crate::alloc::Suspend::new();
        Thin(Box::new(Root { tok: Token::new() }))
    }
}
impl Big {
    pub fn make() -> Self {
        Big { pad: [7; 300], tok: Token::new(), root: Root { tok: Token::new() } }
    }
}
macro_rules! sized {
    ($($t:ident |$s:ident| $id:expr, $src:expr;)*) => { $(
        impl fmt::Display for $t {
            fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
                let $s = self;
                f.write_str(stringify!($t))?;
                fmt::Display::fmt(&crate::fields::Probe { id: $id }, f)
            }
        }
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
                f.write_str(stringify!($t))
            }
        }
        impl Error for $t {
            fn source(&self) -> Option<&(dyn Error + 'static)> {
                crash_point("dev-source");
                let $s = self;
                $src
            }
            fn provide<'a>(&'a self, r: &mut Request<'a>) {
                crash_point("dev-provide");
                let $s = self;
                if $id % 2 == 0 {
                    r.provide_ref::<Tag>(&TINY_TAG);
                }
            }
        }
    )* };
}
sized! {
    Tiny |_s| 902, Some(&Cause);
    Slim |s| 910 + u32::from(s.0), (s.0 != 3).then_some(&Cause as _);
    Thin |s| s.0.tok.id, Some(&*s.0);
    Wide64 |s| { assert!(s as *const Wide64 as usize % 64 == 0); s.tok.id }, Some(&s.root);
    Big |s| s.tok.id + (s.pad.iter().sum::<u64>() - 2100) as u32, Some(&s.root);
}
impl Tiny {
    pub fn id(&self) -> u32 {
        0
    }
}
impl Slim {
    pub fn id(&self) -> u32 {
        u32::from(self.0)
    }
}
impl Thin {
    pub fn id(&self) -> u32 {
        self.0.tok.id
    }
}
impl Big {
    pub fn id(&self) -> u32 {
        self.tok.id
    }
}

/// Like anyhow::Error: not itself an Error, dereferences to one.
pub struct AnyErr(pub Box<dyn Error + Send + Sync>);
impl Deref for AnyErr {
    type Target = dyn Error + Send + Sync;
    fn deref(&self) -> &Self::Target {
        &*self.0
    }
}
impl fmt::Display for AnyErr {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&*self.0, f)
    }
}
impl fmt::Debug for AnyErr {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&*self.0, f)
    }
}
impl AnyErr {
    pub fn make() -> Self {
        AnyErr(crate::model::dyn_ss())
    }
}

pub fn io_error() -> std::io::Error {
    match choose("io", 4) {
        0 => std::io::Error::from(std::io::ErrorKind::NotFound),
        1 => std::io::Error::from_raw_os_error(28),
        2 => std::io::Error::new(std::io::ErrorKind::Other, crate::model::dyn_ss()),
        _ => std::io::Error::new(std::io::ErrorKind::Other, Dev::<0>::make()),
    }
}
pub fn leaked<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}
