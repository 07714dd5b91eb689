//! The macro of /repo in a simulated compiler session.
//!
//! `SIM_MODE=inproc`: the real expansion code runs as an ordinary library on
//! the tasks of a simulated long-lived server. `SIM_MODE=session`: the same
//! items are given to real rustc processes whose randomness, clock and process
//! id are decided by the run.
#![feature(alloc_error_hook)]
mod inproc;
mod seams;
mod session;

pub struct Item {
    pub name: String,
    pub text: String,
}
pub fn corpus() -> Vec<Item> {
    let text = std::fs::read_to_string(std::env::var_os("SIM_CORPUS").expect("SIM_CORPUS")).expect("corpus");
    let mut out: Vec<Item> = Vec::new();
    for l in text.lines() {
        if let Some(n) = l.strip_prefix("%%%% ") {
            out.push(Item { name: n.to_string(), text: String::new() });
        } else if let Some(i) = out.last_mut() {
            i.text.push_str(l);
            i.text.push('\n');
        }
    }
    out
}
/// Where two texts part.
pub fn diff(a: &str, b: &str) -> String {
    let k = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| {
        let mut from = k.saturating_sub(120);
        while !s.is_char_boundary(from) {
            from -= 1;
        }
        let mut to = (k + 160).min(s.len());
        while !s.is_char_boundary(to) {
            to += 1;
        }
        s[from..to].to_string()
    };
    format!("at byte {k}: `{}` against `{}`", cut(a), cut(b))
}
pub fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3))
}

fn main() {
    if std::env::var("SIM_MODE").as_deref() == Ok("session") {
        session::main()
    } else {
        inproc::main()
    }
}
