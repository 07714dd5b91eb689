//! A long-lived multi-threaded server that expands items on request.
use crate::{corpus, diff, hash, seams};
use proc_macro2::{Delimiter, Group, Ident, Literal, Spacing, Span, TokenStream, TokenTree};
use simcore::{choose, count, cover, event, mix, violation};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

fn write_tokens(ts: TokenStream, out: &mut String) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("«", "»"),
                };
                out.push_str(a);
                out.push(' ');
                write_tokens(g.stream(), out);
                out.push_str(b);
                out.push(' ');
            }
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                if p.spacing() == Spacing::Alone {
                    out.push(' ');
                }
            }
            TokenTree::Ident(i) => {
                out.push_str(&i.to_string());
                out.push(' ');
            }
            TokenTree::Literal(l) => {
                out.push_str(&l.to_string());
                out.push(' ');
            }
        }
    }
}
pub fn text_of(ts: TokenStream) -> String {
    let mut s = String::new();
    write_tokens(ts, &mut s);
    s
}

/// None: interrupted by the refused allocation.
fn expand(text: &str, fail_at: Option<u64>) -> (Option<String>, u64) {
    let input: TokenStream = match text.parse() {
        Ok(i) => i,
        Err(_) => return (Some("<not tokens>".into()), 0),
    };
    let (r, allocs) = seams::enter(fail_at, || thiserror_impl_sim::derive_error(input));
    let r = match r {
        Ok(ts) => Some(text_of(ts)),
        Err(p) if p.is::<seams::Oom>() => None,
        Err(p) if p.is::<simcore::SimAbort>() => std::panic::resume_unwind(p),
        Err(p) => Some(format!("<panic: {}>", simcore::payload_text(&*p))),
    };
    (r, allocs)
}

// ------------------------------------------------------------------ mutants
fn flatten(ts: &TokenStream, path: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, TokenTree)>) {
    for (k, t) in ts.clone().into_iter().enumerate() {
        path.push(k);
        out.push((path.clone(), t.clone()));
        if let TokenTree::Group(g) = &t {
            flatten(&g.stream(), path, out);
        }
        path.pop();
    }
}
fn edit(ts: TokenStream, path: &[usize], f: &mut dyn FnMut(&mut Vec<TokenTree>, usize)) -> TokenStream {
    let mut v: Vec<TokenTree> = ts.into_iter().collect();
    if path.len() == 1 {
        f(&mut v, path[0]);
    } else if let Some(TokenTree::Group(g)) = v.get(path[0]).cloned() {
        v[path[0]] = TokenTree::Group(Group::new(g.delimiter(), edit(g.stream(), &path[1..], f)));
    }
    v.into_iter().collect()
}
const WORDS: [&str; 12] = ["source", "backtrace", "from", "error", "transparent", "fmt", "T", "U", "Error", "self", "Backtrace", "name"];
const TEXTS: [&str; 8] = ["{}", "{0}", "{x} {y:?}", "plain", "{0:?}{1:>2$}", "{{", "{source}", "{name:x}{name}"];
/// A neighbour of an item: as many users' items are, nearly but not quite the same.
fn mutate(text: &str) -> String {
    let Ok(mut ts) = text.parse::<TokenStream>() else { return text.into() };
    for _ in 0..=choose("edits", 3) {
        let mut all = Vec::new();
        flatten(&ts, &mut Vec::new(), &mut all);
        if all.is_empty() {
            break;
        }
        let (path, tok) = all[choose("edit-at", all.len() as u32) as usize].clone();
        let (_, other) = all[choose("edit-with", all.len() as u32) as usize].clone();
        let kind = choose("edit", 6);
        ts = edit(ts, &path, &mut |v, k| match (kind, &tok) {
            (0 | 1, TokenTree::Ident(_)) => v[k] = TokenTree::Ident(Ident::new(WORDS[choose("word", 12) as usize], Span::call_site())),
            (0 | 1, TokenTree::Literal(_)) => v[k] = TokenTree::Literal(Literal::string(TEXTS[choose("text", 8) as usize])),
            (0..=2, _) => {
                v.remove(k);
            }
            (3, _) => v.insert(k, tok.clone()),
            (4, _) => {
                if k + 1 < v.len() {
                    v.swap(k, k + 1);
                }
            }
            _ => v[k] = other.clone(),
        });
    }
    ts.to_string()
}

struct Base {
    name: String,
    text: String,
    out: String,
    allocs: u64,
}
struct Shared {
    base: Rc<Vec<Base>>,
    hot: Vec<Job>,
    seen: RefCell<HashMap<String, String>>,
}
#[derive(Clone)]
struct Job {
    name: String,
    text: String,
    allocs: u64,
}

fn job_of(base: &[Base], k: usize) -> Job {
    Job { name: base[k].name.clone(), text: base[k].text.clone(), allocs: base[k].allocs }
}
fn mutant(base: &[Base]) -> Job {
    let k = choose("mutant-of", base.len() as u32) as usize;
    let m = mutate(&base[k].text);
    count("mutated items");
    Job { name: format!("{}~{:08x}", base[k].name, hash(&m) as u32), text: m, allocs: base[k].allocs.max(8) }
}
fn do_job(sh: &Shared, j: &Job, interrupt: bool) {
    let fail = interrupt.then(|| 1 + u64::from(choose("refuse-allocation", j.allocs.clamp(1, 60_000) as u32)));
    let (out, _) = expand(&j.text, fail);
    let Some(out) = out else {
        count("fault:interrupted expansion");
        event(|| format!("{} interrupted at allocation {}", j.name, fail.unwrap_or(0)));
        cover(mix(hash(&j.name), fail.unwrap_or(0)));
        return;
    };
    count("expansions");
    event(|| format!("{} -> {:016x}", j.name, hash(&out)));
    cover(mix(hash(&j.text), 0));
    let first = {
        let mut seen = sh.seen.borrow_mut();
        seen.entry(j.text.clone()).or_insert_with(|| out.clone()).clone()
    };
    if first != out {
        violation("expansion-differs", subject(&j.name), format!("expanding {} gave different code than before, {}\nitem:\n{}", j.name, diff(&first, &out), j.text));
    }
}
fn subject(name: &str) -> String {
    name.split('~').next().unwrap_or(name).to_string()
}

fn run(base: &Rc<Vec<Base>>) {
    let plain = choose("session", 4) == 0;
    let hash_seed = u64::from(choose("hash-seed", 1 << 16));
    let layout = u64::from(choose("memory-layout", 4));
    let clock = u64::from(choose("clock", 1 << 20)) * 1_000_000_007;
    let tasks = if plain { 0 } else { choose("servers", 4) };
    let preempt = tasks > 0 && choose("preempt-inside", 4) != 3;
    seams::start_run(hash_seed, u64::from(choose("environment", 1 << 8)), clock, layout, preempt);
    simcore::set_preempt_den([3, 1, 2][choose("preempt-rate", 3) as usize]);
    seams::start_thread();
    if hash_seed != 0 {
        count("fault:hash seed changed");
    }
    if layout != 0 {
        count("fault:memory layout changed");
    }
    let mut hot = Vec::new();
    for _ in 0..=choose("hot-items", 4) {
        hot.push(if choose("hot-kind", 3) == 2 { mutant(base) } else { job_of(base, choose("item", base.len() as u32) as usize) });
    }
    if choose("sibling", 2) == 1 {
        // the same item with other contents, both requested again and again
        let j = hot[0].clone();
        let m = mutate(&j.text);
        hot.push(Job { name: format!("{}~{:08x}", subject(&j.name), hash(&m) as u32), text: m, allocs: j.allocs.max(8) });
        count("near-identical siblings");
    }
    let sh = Rc::new(Shared { base: base.clone(), hot, seen: RefCell::new(HashMap::new()) });
    {
        let mut seen = sh.seen.borrow_mut();
        for b in base.iter() {
            if sh.hot.iter().any(|j| j.text == b.text) {
                seen.insert(b.text.clone(), b.out.clone());
            }
        }
    }
    let work = {
        let sh = sh.clone();
        move || {
            for _ in 0..=choose("jobs", 6) {
                let j = match choose("job", 8) {
                    6 => {
                        let k = choose("item", sh.base.len() as u32) as usize;
                        let b = &sh.base[k];
                        sh.seen.borrow_mut().entry(b.text.clone()).or_insert_with(|| b.out.clone());
                        job_of(&sh.base, k)
                    }
                    7 => mutant(&sh.base),
                    _ => sh.hot[choose("hot", sh.hot.len() as u32) as usize].clone(),
                };
                let interrupt = choose("interrupt", 5) == 4;
                do_job(&sh, &j, interrupt);
                simcore::yield_point("job");
            }
        }
    };
    let mut servers = Vec::new();
    for _ in 0..tasks {
        let w = work.clone();
        servers.push(simcore::spawn(move || {
            seams::start_thread();
            w();
        }));
        count("server threads");
    }
    work();
    for s in servers {
        if let Err(p) = s.join() {
            if !p.is::<simcore::SimAbort>() {
                panic!("server task panicked: {}", simcore::payload_text(&*p));
            }
        }
    }
    // and the session goes on
    for j in &sh.hot {
        do_job(&sh, j, false);
    }
    for (k, name) in [(seams::RANDOM, "random numbers asked for"), (seams::ENV, "environment lookups"), (seams::TIME, "clock readings"), (seams::FUTEX, "waits for a lock"), (seams::SWITCH, "preemption points inside an expansion")] {
        for _ in 0..seams::USED[k].load(std::sync::atomic::Ordering::Relaxed).min(50) {
            count(name);
        }
    }
}

pub fn main() -> ! {
    std::alloc::set_alloc_error_hook(|_| std::panic::resume_unwind(Box::new(seams::Oom)));
    seams::map_arena();
    let mut listing = false;
    for a in std::env::args() {
        listing |= a == "--list-seeds";
    }
    std::panic::set_hook(Box::new(|_| {}));
    let mut base = Vec::new();
    if !listing {
        seams::start_run(0, 0, 0, 0, false);
        seams::start_thread();
        for i in corpus() {
            // every item on a fresh thread, as the first of its session
            let (out, allocs) = std::thread::scope(|s| {
                let text = &i.text;
                s.spawn(move || {
                    seams::start_thread();
                    expand(text, None)
                })
                .join()
                .expect("baseline")
            });
            base.push(Base { name: i.name, text: i.text, out: out.unwrap_or_default(), allocs });
        }
    }
    if std::env::args().any(|a| a == "--baseline") {
        for b in &base {
            println!("{} {} {}", b.name, b.allocs, b.out);
        }
        std::process::exit(0);
    }
    let base = Rc::new(base);
    simcore::runner::main(&|_, _| {
        let base = base.clone();
        Box::new(move || {
            // the simulated session starts on a thread of its own
            let base = base.clone();
            let main = simcore::spawn(move || run(&base));
            if let Err(p) = main.join() {
                std::panic::resume_unwind(p);
            }
        })
    })
}
