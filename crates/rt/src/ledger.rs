//! Drop ledger: every `Token` is born once and must die exactly once.
use simcore::{fresh_id, in_sim, mix, violation};
use std::collections::BTreeMap;
use std::sync::Mutex;

#[derive(Default)]
pub struct Ledger {
    /// id -> number of drops
    pub tokens: BTreeMap<u32, u32>,
}

static LEDGER: Mutex<Ledger> = Mutex::new(Ledger { tokens: BTreeMap::new() });

fn with<R>(f: impl FnOnce(&mut Ledger) -> R) -> R {
    let _s = crate::alloc::Suspend::new();
    f(&mut LEDGER.lock().unwrap_or_else(|e| e.into_inner()))
}

/// Start of a run.
pub fn reset() {
    with(|l| l.tokens.clear());
}
/// Tokens never dropped, tokens dropped more than once.
pub fn settle() -> (Vec<u32>, Vec<u32>) {
    with(|l| {
        (
            l.tokens.iter().filter(|(_, n)| **n == 0).map(|(i, _)| *i).collect(),
            l.tokens.iter().filter(|(_, n)| **n > 1).map(|(i, _)| *i).collect(),
        )
    })
}
pub fn drops(id: u32) -> u32 {
    with(|l| l.tokens.get(&id).copied().unwrap_or(0))
}
/// All ids known so far; the ids born during a construction are those
/// missing from an earlier call (only meaningful without a yield in between).
pub fn max_id() -> u32 {
    with(|l| l.tokens.keys().next_back().copied().unwrap_or(0))
}
pub fn born_since(mark: u32) -> Vec<u32> {
    with(|l| l.tokens.range(mark + 1..).map(|(i, _)| *i).collect())
}
pub fn live() -> usize {
    with(|l| l.tokens.values().filter(|n| **n == 0).count())
}

#[derive(Debug)]
pub struct Token {
    pub id: u32,
    ck: u64,
}
impl Token {
    pub fn new() -> Self {
        let _s = crate::alloc::Suspend::new();
        let id = fresh_id();
        with(|l| {
            l.tokens.insert(id, 0);
        });
        Token { id, ck: mix(u64::from(id), 77) }
    }
    pub fn intact(&self) -> bool {
        self.ck == mix(u64::from(self.id), 77)
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        let _s = crate::alloc::Suspend::new();
        let ok = self.intact();
        let n = with(|l| {
            let e = l.tokens.entry(self.id).or_insert(0);
            *e += 1;
            *e
        });
        if in_sim() && crate::model::prop_is("C05") {
            if !ok {
                violation("corrupted", "token", format!("token {} has a wrong checksum when dropped", self.id));
            } else if n > 1 {
                violation("double-drop", "token", format!("token {} dropped {n} times", self.id));
            }
        }
    }
}
