//! Instrumented runtime of the generated worlds: everything around the
//! derived code under test (fields, sinks, devices, allocator, ledger) and the
//! workloads and oracles of the properties.
#![feature(error_generic_member_access)]
#![allow(clippy::all)]
pub mod alloc;
pub mod dev;
pub mod fields;
pub mod ledger;
pub mod model;
pub mod observe;
pub mod seams;
pub mod stack;
pub mod work;

pub use dev::*;
pub use fields::*;
pub use ledger::*;
pub use model::*;
pub use simcore::{chance, choose};
pub use stack::*;

/// A user-defined `Backtrace` type (detected by name like the real one) whose
/// construction from a captured backtrace is a point where a crash can happen.
pub mod custom {
    use std::ops::Deref;
    #[derive(Debug)]
    pub struct Backtrace(pub std::backtrace::Backtrace, pub crate::Token);
    impl From<std::backtrace::Backtrace> for Backtrace {
        fn from(b: std::backtrace::Backtrace) -> Self {
            let _s = crate::alloc::Suspend::new();
            let t = crate::Token::new();
            crate::crash_point("from-backtrace");
            Backtrace(b, t)
        }
    }
    impl Deref for Backtrace {
        type Target = std::backtrace::Backtrace;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
}

pub fn main(world: &'static World) -> ! {
    model::set_world(world);
    simcore::runner::ROOT_PANIC_IS_VIOLATION.store(true, std::sync::atomic::Ordering::Relaxed);
    simcore::runner::main(&|prop, args| work::body(world, prop, args))
}

pub fn entry_copy(e: &'static Entry) -> Entry {
    Entry { name: e.name, flags: e.flags, make: e.make, cast: e.cast, dyn_ss: e.dyn_ss, convs: e.convs, decl: e.decl }
}
pub fn stack_copy(s: &'static StackSpec) -> StackSpec {
    StackSpec { name: s.name, layers: s.layers, cast: s.cast, decl: s.decl }
}
