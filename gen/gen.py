#!/usr/bin/env python3
"""Generate one world crate: derived error types together with a handwritten
statement (twin) of what each must do.

    gen.py --seed S --shard K --size N [--variant std|nostd|synfull] --out DIR --repo /repo [--skip a,b]

The output is a pure function of the arguments (world-format 6)."""
import argparse
import os
import random

HERE = os.path.dirname(os.path.abspath(__file__))

# ------------------------------------------------------------------ fields
FLAGS = [":>8", ":<5", ":^9", ":*^11", ":+", ":#", ":08", ":.3", ":-^+#012.3", ":é>6", ":1"]
INT_SPECS = ["", "", ":?", ":x", ":#X", ":o", ":#b", ":e", ":E", ":>8", ":+", ":08", ":#010x", ":^+9", ":x?", ":#X?", ":#?", ":<{W}$", ":>{W}$x", ":{W}$?"]
PROBE_SPECS = ["", "", "", ":?", ":#?", ":x", ":#x", ":X", ":o", ":b", ":e", ":E", ":p", ":#012x", ":*^9?", ":>{W}$", ":*^{W}$.{P}$", ":.{P}$", ":<7.{P}$?", ":x?", ":+e", ":}>9", ":}^9x", ":p"] + FLAGS
STR_SPECS = ["", "", ":?", ":>10", ":.3", ":*^12.2", ":#?", ":<{W}$", ":.{P}$", ":>12.{P}$", ":-<9"]
FLOAT_SPECS = ["", ":?", ":.2", ":e", ":E", ":+", ":010.3", ":>9.{P}$", ":+.1e"]
DBG_SPECS = [":?", ":#?", ":>9?", ":02x?"]


class FT:
    def __init__(self, ty, make, specs, sync=True, addr=False, leaks=False, kind="", nest=False):
        self.ty, self.make, self.specs = ty, make, specs
        self.sync, self.addr, self.leaks, self.kind, self.nest = sync, addr, leaks, kind, nest


FIELD_TYPES = [
    (8, FT("Probe", "Probe::make()", PROBE_SPECS, kind="probe")),
    (3, FT("Tok", "Tok::make()", PROBE_SPECS, kind="tok")),
    (2, FT("u32", 'int("u32") as u32', INT_SPECS, kind="int")),
    (1, FT("i64", 'int("i64")', INT_SPECS, kind="int")),
    (1, FT("u8", 'int("u8") as u8', INT_SPECS, kind="int")),
    (2, FT("usize", "count_of()", INT_SPECS, kind="usize")),
    (1, FT("f64", "float()", FLOAT_SPECS, kind="float")),
    (2, FT("&'static str", "word()", STR_SPECS, kind="str")),
    (2, FT("String", "string()", STR_SPECS, kind="str")),
    (1, FT("char", "ch()", ["", ":?", ":>4", ":*^5"], kind="char")),
    (1, FT("bool", 'choose("bool", 2) == 1', ["", ":?", ":>7", ":.2"], kind="bool")),
    (2, FT("std::path::PathBuf", "path()", ["", "", ":?", ":#?", ":>9?"], kind="path")),
    (1, FT("Box<std::path::Path>", "boxed_path()", ["", "", ":?"], kind="path")),
    (1, FT("Option<u8>", '(choose("o", 2) == 1).then_some(7)', DBG_SPECS, kind="opt")),
    (1, FT("Vec<Probe>", 'vec![Probe::make(), Probe::make()]', [":?", ":#?"], kind="vec")),
    (2, FT("Pair", "Pair::make()", [":?", ":#?"], kind="pair")),
    (2, FT("Limits", "Limits::make()", [":?", ":#?"], kind="limits")),
    (1, FT("(Probe, (u8, Probe))", "(Probe::make(), (3, Probe::make()))", [":?"], kind="tup")),
    (2, FT("Nest", "Nest::make()", ["", "", "", ":?"], sync=False, kind="nest", nest=True)),
    (1, FT("Ptr", "Ptr::make()", ["", ":?", ":p", ":p", ":}>20p", ":}<3p", ":p<9"], kind="ptr")),
    (1, FT("Box<Probe>", "Box::new(Probe::make())", ["", ":?", ":p"], addr=True, kind="boxp")),
    (1, FT("std::sync::Arc<u32>", "std::sync::Arc::new(5)", ["", ":?", ":p", ":#p", ":>20p"], addr=True, kind="other")),
    (1, FT("&'static u32", "&9", ["", ":?", ":p", ":x"], addr=True, kind="other")),
    (1, FT("&'static Probe", "leaked(Probe::make())", ["", ":?", ":x"], leaks=True, kind="other")),
    (0.6, FT("std::sync::Arc<std::path::Path>", "std::sync::Arc::from(boxed_path())", ["", "", ":?"], kind="path")),
    (0.4, FT("std::rc::Rc<std::path::Path>", "std::rc::Rc::from(boxed_path())", ["", "", ":?"], sync=False, kind="path")),
    (0.6, FT("&'static std::path::Path", 'std::path::Path::new("/a/b é")', ["", "", ":?"], kind="path")),
    (0.6, FT("std::borrow::Cow<'static, std::path::Path>", "std::borrow::Cow::Owned(path())", ["", "", ":?"], kind="path")),
    (0.4, FT("Box<std::path::PathBuf>", "Box::new(path())", ["", "", ":?"], kind="path")),
    (0.5, FT("std::borrow::Cow<'static, str>", "std::borrow::Cow::Owned(string())", STR_SPECS, kind="str")),
    (0.5, FT("Box<str>", "string().into_boxed_str()", STR_SPECS, kind="str")),
    (0.5, FT("std::num::NonZeroU16", "std::num::NonZeroU16::new(1 + (int(\"u32\") as u16 & 0xff)).unwrap()", [s for s in INT_SPECS if "e" not in s.lower()], kind="nz")),
    (0.4, FT("i128", 'int("i64") as i128 * 3', INT_SPECS, kind="int")),
    (0.4, FT("f32", "float() as f32", FLOAT_SPECS, kind="float")),
    (0.4, FT("fn(u32) -> u32", "while_ok", [":p", ":#p", ":>24p"], addr=True, kind="fnp")),
    (0.4, FT("*const u8", "std::ptr::without_provenance(0x1f30)", [":p", ":?", ":#p", ":>14p", ":<{W}$p"], sync=False, kind="raw")),
    (0.4, FT("[Probe; 2]", "[Probe::make(), Probe::make()]", [":?", ":#?", ":x?"], kind="vec")),
    (0.4, FT("std::time::Duration", "std::time::Duration::from_millis(1 + choose(\"ms\", 5000) as u64)", [":?", ":.1?", ":>12?"], kind="dur")),
    (0.4, FT("std::net::Ipv4Addr", "std::net::Ipv4Addr::new(10, 0, 0, choose(\"ip\", 9) as u8)", ["", ":?", ":>18", ":*^{W}$"], kind="ip")),
    (0.5, FT("lookalike::Backtrace<u8>", "lookalike::Backtrace(Probe::make(), std::marker::PhantomData)", ["", ":?", ":x", ":>9"], kind="like")),
    (0.3, FT("lookalike::PathBuf", "lookalike::PathBuf(Probe::make())", ["", ":?", ":x", ":>9"], kind="like")),
    (0.3, FT("lookalike::Path<Probe>", "lookalike::Path(Probe::make())", ["", ":?", ":x", ":+.2"], kind="like")),
    (0.6, FT("Place", "path()", ["", "", ":?", ":#?"], kind="path")),
    (0.4, FT("<Probe as Same>::This", "Probe::make()", PROBE_SPECS, kind="probe")),
    (0.3, FT("<std::path::PathBuf as Same>::This", "path()", ["", "", ":?"], kind="path")),
    (0.3, FT("[Probe; { 1 + 1 }]", "[Probe::make(), Probe::make()]", [":?", ":#?"], kind="vec")),
    (0.3, FT("()", "()", [":?", ":>4?"], kind="unit")),
    (0.3, FT("std::marker::PhantomData<Probe>", "std::marker::PhantomData", [":?"], kind="unit")),
    (0.3, FT("std::fmt::Alignment", "std::fmt::Alignment::Left", [":?", ":>9?"], kind="unit")),
    (0.3, FT("std::num::Wrapping<i8>", 'std::num::Wrapping(int("i64") as i8)', ["", ":?", ":x", ":>6", ":+"], kind="wrap")),
]

# expression templates: @ = reference to the field (.name / .0 in the derive,
# the bare binding in the twin), by field kind; value must implement Display
EXPRS = {
    "probe": [
        "@.num()", "plen(@)", "touch(@)", "@.get()", "join(@, 3)", "&@", "*@", "@",
        "if @.num() % 2 == 0 { @ } else { @.get() }",
        'match @.num() { 0 => "zero", _n if @.num() > 100 => "big", _ => "other" }',
        "(@.num() as u64) + 1", "@.num().max(1) << 2", "-(@.num() as i64)", "!@.num()",
        "[@.num(), 1][0]", "{ let x = @.num(); x + 1 }", "vec![@.num(), @.num()].len()",
        "(|x: u32| x + @.num())(3)", "(|| @.num())()", "u32::from(@.num() > 3)",
        "<u32 as Into<u64>>::into(@.num())", "std::cmp::max::<u32>(@.num(), 2)",
        "@.num() == 3", "@.num() >= 3 && !@.is_empty()", "loop { break @.num() }",
        "unsafe { @.num() }", "if let Some(x) = Some(@.num()) { x } else { 0 }",
        "match (@.num(), 1) { (x, y) => x + y }", "@.num() as f32 as u8",
        "&@ as &Probe", "@.num() < 5", "@.num() > LIMIT", "@.num().to_string()",
        "std::collections::BTreeMap::<u8, Vec<Vec<u8>>>::new().len() + @.len()",
        "Some(@.num()).map_or(0, |n| n)", 'matches!(@.num(), 1 | 2 | 3)', "*&@", "touch(touch(@))",
        "join(if @.is_empty() { @ } else { @.get() }, @.len() * 2)", "@.num() & 0xff | 1", "@.num() ^ 3",
        "@.num() % 7 - 0", "1 + @.num() / 2", "@.num() != 4 || @.is_empty()", "pick2(@.is_empty(), @, @.get())",
        "const { 3 + 4 }", "{ fn fnp(p: &Probe) -> u32 { p.num() } fnp(@) }", "if @.num() < 3 { 1 } else if @.num() < 9 { 2 } else { 3 }",
        "match @ { Probe { id } if *id == 0 => 0, p => p.num() }", "format_args!(\"<{}>\", @.num())",
        "(@.num(), 2).0", "[[@.num()]; 2][1][0]", "while_ok(@.num())", "'x'", '"lit, n = {}"', "1.5e3", "-1i32", "b'x'", "r#\"raw {x}\"#", "LIMIT == 3", "LIMIT",
        "Wide::<3>::of(@.num())", "Wide::<{ 1 + 2 }> { v: (@.num()) }.v", "move_it(move || @.num())", "&mut *Box::new(@.num())", "{ #[allow(unused)] let q = 1; @.num() }", "true as u8 as char",
        "@.num() as u64 % 5", "(@.num() as i64) << 1", "{ let mut n = @.num(); while n > 9 { n /= 2; } n }", "if true && @.num() == 1 { \"one\" } else { \"many\" }",
        "match @.num() { x @ 0..=9 => x, 10.. => 10 }",
        "try_num(@)?", "try_num(@)? + try_num(@)?", "if @.num() == u32::MAX { return Err(std::fmt::Error) } else { @.num() }", "'l: { if @.is_empty() { break 'l 3 } 4 }",
        "(|a: u32, b: &Probe| -> u32 { a + b.num() })(1, @)", "<[u32]>::len(&[@.num()])", "Vec::<u32>::from([@.num()])[0]", "std::mem::size_of::<[u8; 4]>()", "@.num() as usize <= 3", "@.num() as i64 >> 1", "@.num() as u64 | 1",
        "match Some(@.num()) { Some(n) if n > 3 => \"x\", None | Some(_) => \"y\" }", "match @.num() { 0 | 1 => 'a', 2..=5 => 'b', _ => 'c' }", "match &(@.num(), true) { (n, true) => *n, &(ref n, _) => *n }", "match -1i32 { -1 => 1, _ => 2 }",
        "matches!(Some(@.num()), Some(n) if n > 2)", "stringify!(a, b)", "concat!(\"a\", 1)", "if cfg!(all()) { @.num() } else { 2 }", "vec![1u8; 3].len()", "unsafe { *(&@.num() as *const u32) }", "&*(&@.num() as &dyn std::fmt::Display)",
        "1_000u64", "b\"ab\".len()", "c\"x\".to_bytes().len()", "match 0..9u32 { r => r.end }", "match @.num()..=9 { r => *r.end() }", "if (0..3).contains(&@.num()) { 1 } else { 0 }",
        "unsafe { @.num() } + 1", "const { 3 } + @.num()", "loop { break 1 } + 1", "match @ { p => p.num() } + 1", "if @.is_empty() { 1 } else { 2 } + 3", "-(-(@.num() as i64))", "!!@.is_empty()", "&mut @.num()", "**&&@.num()", "move_it(|| @.num())",
        "@.num() as u32 as u64 as u128", "0 - 1i32 * 2 / 1 % 3", "1 << 2 >> 1 & 3 | 4 ^ 1", "1 == 1 && 2 != 3 || 4 <= 5", "{ @ }", "({ @ })", "((@))", "(@, 1).1", "[@, @][1]",
        "(&@).num()", "(@).get()", "::std::cmp::min(1, @.num())", "<Probe>::num(@)", "Probe::num(&@)",
        "{ let clo = |p: &Probe| -> u32 { p.num() }; clo(@) }",
        "@ == @", "@ == @", "@ != &Probe { id: 3 } && true", "&raw const (@) == std::ptr::null()", "Some(3) == try { @.num() }", "Some(0) != try { @.num() } && @.num() == 1", "std::ptr::null() != &raw const (@)", "&raw const (@) != std::ptr::null() && @.num() == 1",
        "match @.num() { 0 => @, _ => @.get() }", "{ for _n in [@.num()] {} 3 }", "{ let x = @; x }", "(|| -> &Probe { @ })()", "(move || @.num())()", "{ let v = [@, @]; v.len() }", "-1 + @.num() as i64",
        "@.num().pow(0).checked_rem(7).unwrap_or_default()", "[1u8, 2, 3].iter().filter(|n| u32::from(**n) < @.num()).count()", "<Probe as Clone_>::twice(@)", "match @ { p if p.num() > 2 && !p.is_empty() => 1, _ => 0 }",
        "{ let Probe { id } = @; *id }", "{ let mut s = 0; for n in 0..(@.num().min(3)) { s += n; } s }", "@.num() / 2 * 2 == @.num()", "{ const K: u32 = 4; K + @.num() }", "{ use std::cmp::min; min(@.num(), 2) }",
        "{ macro_rules! one { () => { 1 } } one!() + @.num() }", "{ static S: u32 = 1; S + @.num() }", "(&@ as &Probe).num()", "Option::<&Probe>::Some(@).map(Probe::num).unwrap_or(0)", "std::convert::identity::<&Probe>(@)",
    ],
    "tok": ["@", "touch(@)", "&@", "*@"],
    "int": ["@", "@ == &3", "*@", "touch(@)", "@.wrapping_add(1)", "*@ == 3", "-(*@ as i128)", "&&@", "[*@, 0][0]", "*@ as u8 as char", "@.count_ones() + LIMIT", "&raw const (*@) == std::ptr::null()", "Some(false) == try { *@ == 3 }", "*@ == 1 && &raw const (*@) == std::ptr::null()"],
    "usize": ["@", "*@ + 1", "touch(@)", "LIMIT as usize * *@", '"abcdefghijkl".get(..*@).unwrap_or("?")', "*@ * 2 - 0"],
    "float": ["@", "@.abs()", "*@ * 2.0", "@.is_nan()", "1.0e3"],
    "str": ["@", "@.len()", 'if @.is_empty() { "empty" } else { "some" }', "@.trim()", "touch(@)", "@.chars().count()", "@.to_uppercase()", '@.split(", ").next().unwrap_or("none")', "*@"],
    "char": ["@", "*@ as u32", "@.len_utf8()", "@.is_ascii()"],
    "bool": ["@", "!*@", 'if *@ { "yes" } else { "no" }', "*@ as u8", "*@ && LIMIT > 2"],
    "path": ["@.display()", "@.components().count()", 'touch(@).display()'],
    "opt": ['@.map_or(0, |n| n)', "@.is_some()", "@.unwrap_or(1)", 'match @ { Some(n) => *n, None => 0 }', 'if let Some(n) = @ { *n } else { 255 }'],
    "vec": ["@.len()", "@[0]", "&@[1]", "@.first().unwrap()", "@.iter().map(|p| p.num()).sum::<u32>()"],
    "pair": ["@.0", "&@.1", "@.1.num()", "touch(&@.0)", "@.0.num() + @.1.num()", "join(&@.1, @.0.len())", "-(@.0.num() as i64)", "[@.0.num()][0]"],
    "limits": ["@.mid()", "@.lo + @.hi", "@.r#type", "@.at.num()", "&@.at", "touch(&@.at)", "@.hi - @.lo", "@.lo < @.hi"],
    "tup": ["@.0", "@.1.0", "@.1.1", "touch(&@.1.1)", "@.1.1.num()"],
    "nest": ["@", "&@"],
    "ptr": ["@", "@.num()", "*@", "&**@"],
    "boxp": ["@", "@.num()", "**@"],
    "other": ["@", "**@"],
    "": ["LIMIT"],
    "nz": ["@", "@.get()", "@.get() + 1", "u32::from(@.get())"],
    "fnp": ["@(3)", "(@)(4)", "@(@(1))", "move_it(|| @(2))"],
    "raw": ["@.is_null()", "@.is_null() as u8"],
    "dur": ["@.as_millis()", "@.as_secs() * 2", "@.subsec_nanos()"],
    "ip": ["@", "@.octets()[3]", "@.is_loopback()"],
    "unit": ["LIMIT", '"unit"'],
    "wrap": ["@", "@.0", "@.0 as i32 + 1"],
    "like": ["@", "touch(&@.0)", "@.0.num()"],
}
# only with {:?}
EXPRS_DBG = ["@.num()..=9", "@.num()..", "..5u8", "..", "..=7i8", "-1..=1", "!0u8..3", "1..2", "Some(@.num())", "(@.num(), @.len())", "[@.num(); 2]", "if @.is_empty() { None } else { Some(@.get()) }", "@.num().checked_sub(3)",
             "Some::<u32>(@.num())", "(@, @)", "&[@, @.get()][..]", "Ok::<_, ()>(@.num())", "match @.num() { n => n..n + 1 }", "(1, (2, @))", "vec![@; 1]", "()", "(@,)", "&&@", "std::cmp::Reverse(@.num())"]
HELPERS = """
#[allow(dead_code)] pub const LIMIT: u32 = 3;
#[allow(dead_code)] pub const NAME: &str = "konst";
#[allow(dead_code)] pub struct Wide<const N: usize> { pub v: u32 }
#[allow(dead_code)] impl<const N: usize> Wide<N> { pub fn of(v: u32) -> u32 { v + N as u32 } }
#[allow(dead_code)] pub fn while_ok(n: u32) -> u32 { n }
#[allow(dead_code)] pub trait Plain {}
impl<T> Plain for T {}
#[allow(dead_code)] pub trait HasOut { type Out; }
#[allow(dead_code)] #[derive(Debug)] pub struct Maker;
impl HasOut for Maker { type Out = Probe; }
#[allow(dead_code)] pub trait Service { type Err; }
#[allow(dead_code)] #[derive(Debug)] pub struct Svc;
impl Service for Svc { type Err = Dev<2>; }
#[allow(dead_code)] pub trait Clone_ { fn twice(&self) -> u32; }
impl Clone_ for Probe { fn twice(&self) -> u32 { self.num() } }
#[allow(dead_code)] pub type Trace = std::backtrace::Backtrace;
#[allow(dead_code)] pub fn move_it(f: impl Fn() -> u32) -> u32 { f() }
"""
# recorded findings (known_findings.txt), the same in every world
KNOWN = """
pub mod known {
#![allow(unused, clippy::all)]
use super::*;
pub struct Shy;
impl std::fmt::Display for Shy { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("shy") } }
impl std::fmt::Debug for Shy { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Shy") } }
impl Shy { pub fn as_display(&self) -> &'static str { "not shy" } }
#[derive(Error, Debug)] #[error("{0}")] pub struct InherentAsDisplay(Shy);
#[derive(Debug)] pub struct Sly(Tail);
#[derive(Debug)] pub struct Tail;
impl std::fmt::Display for Sly { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("sly") } }
impl std::fmt::Display for Tail { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("tail") } }
impl std::error::Error for Sly {}
impl std::error::Error for Tail {}
impl Sly { pub fn as_dyn_error(&self) -> &(dyn std::error::Error + 'static) { &self.0 } }
#[derive(Error, Debug)] #[error("x")] pub struct InherentAsDynError(#[source] Sly);
%s
pub static KNOWN: &[Known] = &[
    Known { prop: "C01", name: "InherentAsDisplay", got: || InherentAsDisplay(Shy).to_string(), want: "shy", is: "not shy" },
    Known { prop: "C02", name: "InherentAsDynError", got: || std::error::Error::source(&InherentAsDynError(Sly(Tail))).map_or("none".into(), |e| e.to_string()), want: "sly", is: "tail" },
    %s
];
}
"""
KNOWN_BT = """
macro_rules! backtrace_by_fragment { ($t:ty) => { #[derive(Error, Debug)] #[error("x")] pub struct BacktraceByFragment { pub backtrace: $t } } }
backtrace_by_fragment!(Backtrace);
""", """Known { prop: "C03", name: "BacktraceByFragment", got: || std::error::request_ref::<Backtrace>(&BacktraceByFragment { backtrace: Backtrace::disabled() }).is_some().to_string(), want: "true", is: "false" },"""
WIDE_NAMES = ["a", "b", "code", "path", "name", "len", "r#type", "r#fn", "_hidden", "f", "fmt", "formatter", "request", "error",
              "transparent", "x1", "camelCase", "r#match", "__a", "__display_b", "__field_a", "msg", "write", "core", "core_", "r#in", "args", "value", "r#where", "Upper", "result", "option", "thiserror", "r#async", "ok", "err", "this", "__formatter_", "std_", "source_", "backtrace_", "sources",
              "r#source", "größe", "naïve_x", "クラス", "क्षेत्र", "é", "ñandú2", "x_ß"]
LITS = ["", "x", "failed: ", " at ", "naïve ", "日本語", "a{b}c", "{}", "{{", "}", "{0}", "{name}", "tab\t", "line\nbreak", "\"quoted\"", "back\\slash", "\U0001F980 ", "%d $s ", " - ", "'", "\r\n", "\0", "/* */", "// ", "#", "}{", "{:?}", "e\u0301", "trailing "]


def text(rng):
    """A piece of literal text, now and then a very long one."""
    if rng.random() < 0.004:
        unit = rng.choice(["x", "ab ", "é", "日本", "{}", "\U0001F980"])
        return unit * (rng.choice([70, 300, 1000, 4100]) // len(unit.encode()))
    return rng.choice(LITS)


def rust_lit(rng, value):
    """A Rust string literal denoting exactly `value`."""
    if rng.random() < 0.15 and "\r" not in value and "\0" not in value and '"#' not in value:
        h = "#" if '"' in value or rng.random() < 0.5 else ""
        return f'r{h}"{value}"{h}'
    out = []
    for ch in value:
        r = rng.random()
        if ch == '"':
            out.append('\\"')
        elif ch == "\\":
            out.append("\\\\")
        elif ch == "\n":
            out.append("\\n")
        elif ch == "\r":
            out.append("\\r")
        elif ch == "\t":
            out.append("\\t")
        elif ch == "\0":
            out.append("\\0")
        elif r < 0.02 and ch.isascii() and ch.isalpha():
            out.append("\\x%02x" % ord(ch))
        elif r < 0.05 and not ch.isascii():
            out.append("\\u{%x}" % ord(ch))
        elif r < 0.01 and ch != " ":
            out.append("\\\n        " + ch)
        else:
            out.append(ch)
    return '"' + "".join(out) + '"'


def esc(value):
    return value.replace("{", "{{").replace("}", "}}")


def plainly(text):
    return text.replace("«", "(").replace("»", ")")


def wchoice(rng, pairs):
    t = rng.random() * sum(w for w, _ in pairs)
    for w, x in pairs:
        t -= w
        if t < 0:
            return x
    return pairs[-1][1]


class Field:
    """One field: member is an identifier or an index."""

    def __init__(self, member, ft, ty=None, attrs="", make=None, role=""):
        self.member, self.ft, self.attrs, self.role = member, ft, attrs, role
        self.ty = ty or ft.ty
        self.make = make or ft.make

    @property
    def named(self):
        return not isinstance(self.member, int)

    @property
    def bind(self):
        return self.member if self.named else f"_{self.member}"

    @property
    def short(self):
        m = str(self.member)
        return m[2:] if m.startswith("r#") else m

    @property
    def dot(self):
        return f".{self.member}"


class Msg:
    def __init__(self, attr, twin, flags=()):
        self.attr, self.twin, self.flags = attr, twin, set(flags)
        self.lit = None


def expr_for(rng, field):
    t = rng.choice(EXPRS[field.ft.kind])
    return t


def subst(t, ref):
    return t.replace("@.", ref + ".").replace("x @ 0", "x \0 0").replace("@", ref).replace("\0", "@")


class MsgBuilder:
    def __init__(self, rng, fields, style, extra=()):
        self.rng, self.fields, self.style = rng, [f for f in fields if f.ft.specs or f.ft.kind in EXPRS and f.ft.kind], style
        self.dfmt, self.tfmt = [], []
        self.pos_d, self.pos_t = [], []  # unnamed user arguments
        self.named = {}  # name -> (derive expr, twin expr)
        self.short_t = []
        self.flags = set()
        self.numeric_short = False

    def lit(self, s):
        self.dfmt.append(esc(s))
        self.tfmt.append(esc(s))

    def width_arg(self, spec):
        """Fill in {W}/{P} placeholders with named arguments."""
        d = t = spec
        for ph, base in (("{W}", "width"), ("{P}", "prec")):
            if ph in spec:
                name = self.rng.choice([base, base[0] + "0", "__" + base])
                if name in self.named and self.named[name][2] != "usize":
                    name = base + "_2"
                while name not in self.named and any(f.short == name for f in self.fields):
                    name += "_"
                if name not in self.named:
                    us = [f for f in self.fields if f.ft.kind == "usize"]
                    if us and self.rng.random() < 0.5:
                        f = self.rng.choice(us)
                        self.named[name] = (f"*{f.dot}", f"*{f.bind}", "usize")
                    else:
                        e = self.rng.choice(["7", "LIMIT as usize", "2 + 9", "12usize", "plen(&Probe { id: 5 })"])
                        self.named[name] = (e, e, "usize")
                d = d.replace(ph, name)
                t = t.replace(ph, "tn_" + name)
        return d, t

    def shorthand(self, f):
        specs = f.ft.specs
        if not specs:
            return
        spec = self.rng.choice(specs)
        if f.short in self.named:
            return
        d, t = self.width_arg(spec)
        if f.short in self.named:  # the width argument took the name
            return
        if spec.endswith("p") and f.ft.addr:
            self.flags.add("F_ADDR")
        if f.ft.nest and spec == "":
            self.flags.add("F_NEST")
        if not f.named:
            self.numeric_short = True
        # whitespace may follow everything else
        sp = self.rng.choice([" ", "  ", "\n"]) if self.rng.random() < 0.06 else ""
        self.dfmt.append("{" + f.short + d + sp + "}")
        idx = len(self.short_t)
        arg = f"*{f.bind}"
        if f.ft.kind == "path" and spec == "":
            arg = f"{f.bind}.display()"
        self.short_t.append(arg)
        self.tfmt.append(("S", idx, t))

    def value(self):
        if self.fields and self.rng.random() < 0.9:
            f = self.rng.choice(self.fields)
            t = expr_for(self.rng, f)
            ref_d = f.dot
            if f.named and self.rng.random() < 0.15 and f.short not in self.named:
                ref_d = f.bind
            if f.ft.nest:
                self.flags.add("F_NEST")
            # a.0.1 must stay a single nested access in the derive
            return subst(t, ref_d), subst(t, f.bind), f
        # a fragment is atomic: rustc drops the invisible group around it (rust-lang/rust#67062)
        t = self.rng.choice(["LIMIT", "LIMIT + 1", '"const"', "1 + 2", "NAME", "LIMIT == 3", "touch(&LIMIT)", "«(LIMIT + 1)».max(2)", "«NAME».len()", "-«3i32»", "«1 + 2»", "«LIMIT» * 2", "«[1, 2, 3]»[0]", "touch(«&LIMIT»)"])
        return t, t, None

    def positional(self):
        probes = [f for f in self.fields if f.ft.kind == "probe"]
        if probes and self.rng.random() < 0.12:
            f, e = self.rng.choice(probes), self.rng.choice(EXPRS_DBG)
            self.pos_d.append(subst(e, f.dot))
            self.pos_t.append(subst(e, f.bind))
            n = len(self.pos_t) - 1
            spec = self.rng.choice([":?", ":?", ":#?", ":6?"])
            self.dfmt.append(("I", n, spec))
            self.tfmt.append(("P", n, spec))
            return
        d, t, _ = self.value()
        spec = self.rng.choice(["", "", "", ":>12", ":<4", ":#", ":{W}$"])
        sd, st = self.width_arg(spec)
        if self.rng.random() < 0.08 and spec == "":
            # {:.*} takes the precision from the argument before the value
            self.dfmt.append("{:.*}")
            self.pos_d += ["5usize", d]
            self.pos_t += ["5usize", t]
            n = len(self.pos_t)
            self.tfmt.append(("P", n - 1, f":.{n - 2}$"))
            return
        self.pos_d.append(d)
        self.pos_t.append(t)
        n = len(self.pos_t) - 1
        if self.style == "named" and self.rng.random() < 0.3:
            # explicit number of an extra argument
            self.dfmt.append(("N", n, sd))
            self.tfmt.append(("P", n, st))
            return
        self.dfmt.append(("I", n, sd))
        self.tfmt.append(("P", n, st))

    def collide(self):
        """A field used by shorthand together with named arguments that carry
        the very names a generated formatting variable for it could have."""
        cands = [f for f in self.fields if f.ft.specs and f.short not in self.named]
        if not cands:
            return
        f = self.rng.choice(cands)
        stem = f.short if f.named else ""
        names = []
        for pre in self.rng.sample(["__display", "__field", "__pointer"], self.rng.choice([1, 1, 2, 3])):
            base = f"{pre}_{stem}" if f.named else f"{pre}{f.short}"
            names += [base, "_" + base, "__" + base][: self.rng.choice([1, 1, 2, 3])]
        if not f.named and self.rng.random() < 0.5:
            names.append("_" + f.short)
        steps = [("arg", n) for n in names] + [("field", None)] * self.rng.choice([1, 2, 2])
        self.rng.shuffle(steps)
        for k, n in steps:
            if k == "arg":
                self.named_arg(n)
            else:
                self.shorthand(f)
            if self.rng.random() < 0.6:
                self.lit(text(self.rng))

    def named_arg(self, name=None):
        d, t, f = self.value()
        pool = ["n", "extra", "r_name", "__display_a", "__field_0", "__pointer_a", "count", "_n1", "Type", "source_line", "r#fn", "r#impl"]
        # shadowing a field of that name is legal
        if self.fields and self.rng.random() < 0.25:
            named = [x for x in self.fields if x.named]
            if named:
                pool = [self.rng.choice(named).member]
        if name is None:
            name = self.rng.choice(pool)
        key = name[2:] if name.startswith("r#") else name
        if key not in self.named:
            if any(isinstance(s, str) and s.startswith("{" + key) for s in self.dfmt):
                return  # already used as a field shorthand
            # the expression must not see the name through a bare binding; .name still means the field
            self.named[key] = (d, t, "any", name)
        elif self.named[key][2] == "usize":
            spec = ""
        spec = self.rng.choice(["", "", ":>9", ":<6"])
        self.dfmt.append("{" + key + spec + (" " if self.rng.random() < 0.05 else "") + "}")
        self.tfmt.append("{tn_" + key + spec + "}")

    def const_capture(self):
        if any(f.short in ("LIMIT", "NAME") for f in self.fields):
            return
        n = self.rng.choice(["LIMIT", "NAME"])
        spec = self.rng.choice(["", ":?", ":>7"])
        self.dfmt.append("{" + n + spec + "}")
        self.tfmt.append("{" + n + spec + "}")

    def build(self):
        rng = self.rng
        mode = rng.choice("AAAABBBCCCDE")
        if mode == "E":
            if rng.random() < 0.5:
                self.lit(text(rng))
            self.collide()
        if not self.fields and mode == "A" and rng.random() < 0.6:
            mode = "L"
        probes = [f for f in self.fields if f.named and f.ft.kind in ("probe", "path") and f.ft.specs]
        if mode == "D" and self.style == "named" and probes and rng.random() < 0.5:
            # comparisons that look like named arguments from afar
            f = rng.choice(probes)
            for e in rng.sample(["@ == @", "Some(3) == try { @.num() }", "@ == @.get()"] if f.ft.kind == "probe" else ["@ == @", "Some(3) == try { @.components().count() }"], 2):
                self.pos_d.append(subst(e, f.bind))
                self.pos_t.append(subst(e, f.bind))
                self.dfmt.append(("I", len(self.pos_t) - 1, ""))
                self.tfmt.append(("P", len(self.pos_t) - 1, ""))
            self.shorthand(f)
        n = rng.choice([1, 2, 2, 3, 3, 4, 6] * 4 + [20])
        for _ in range(n):
            if rng.random() < 0.75:
                self.lit(text(rng))
            k = rng.random()
            if mode == "L" or mode == "E":
                self.lit(text(rng))
            elif k < 0.08:
                self.const_capture()
            elif mode == "A" or (mode == "B" and k < 0.5) or (mode == "D" and k < 0.4 and self.style == "named"):
                if self.fields:
                    self.shorthand(rng.choice(self.fields))
            elif mode == "B":
                self.named_arg()
            elif mode == "C":
                self.positional()
            elif mode == "D":
                if k < 0.7:
                    self.positional()
                else:
                    self.named_arg()
        if rng.random() < 0.5:
            self.lit(text(rng))
        return self.finish()

    def finish(self):
        rng = self.rng
        # in-order {} placeholders must come in argument order: renumber the
        # unnumbered ones, explicit numbers are free
        d = ""
        nexti = 0
        ok_inorder = True
        for s in self.dfmt:
            if isinstance(s, str):
                if s == "{:.*}":
                    nexti += 2
                d += s
            else:
                k, n, spec = s
                if k == "I" and n == nexti:
                    d += "{" + spec + "}"
                    nexti += 1
                elif self.style == "named" or not self.fields_numeric():
                    d += "{" + str(n) + spec + "}"
                else:
                    ok_inorder = False
        if not ok_inorder:
            raise Retry()
        if self.numeric_short and self.pos_d:
            raise Retry()
        if self.style == "tuple" and self.pos_d and any(not isinstance(s, str) and s[0] == "N" for s in self.dfmt):
            raise Retry()
        t = ""
        np = len(self.pos_t)
        for s in self.tfmt:
            if isinstance(s, str):
                t += s
            else:
                k, n, spec = s
                i = n if k == "P" else np + n
                t += "{" + str(i) + spec + "}"
        if "{:.*}" in d and any(not isinstance(s, str) and s[0] == "N" for s in self.dfmt):
            raise Retry()
        dargs = list(self.pos_d)
        targs = list(self.pos_t) + list(self.short_t)
        for key, v in self.named.items():
            dargs.append(f"{v[3] if len(v) > 3 else key} = {v[0]}")
            targs.append(f"tn_{key} = {v[1]}")
        tail = "," if dargs and rng.random() < 0.2 else ""
        if not dargs and rng.random() < 0.05:
            tail = ","
        lit = rust_lit(rng, d)
        attr = "#[error(" + ", ".join([lit] + dargs) + tail + ")]"
        twin = "write!(__f, " + ", ".join([rust_lit(random.Random(0), t)] + targs) + ")"
        m = Msg(attr, plainly(twin), self.flags)
        m.lit = lit
        return m

    def fields_numeric(self):
        return any(not f.named for f in self.fields)


class Retry(Exception):
    pass


def message(rng, fields, style):
    for _ in range(200):
        try:
            return MsgBuilder(rng, fields, style).build()
        except Retry:
            continue
    return Msg('#[error("plain")]', 'write!(__f, "plain")')


# ------------------------------------------------------------------ types
FIELD_DECOR = ["/// the #[source] of\n", "#[doc = \"field\"] ", "#[allow(dead_code)] ", "#[cfg(all())] ", "/** long */ "]
ITEM_DECOR = ["/// An error {0}.", "#[doc = \"text\"]", "#[allow(clippy::all)]", "#[cfg(all())]", "#[must_use]", "#[non_exhaustive]"]
VARIANT_DECOR = ["/// when {it} fails", "#[doc(hidden)]", "#[allow(dead_code)]", "#[cfg(all())]"]
VNAMES = ["Alpha", "Beta", "Gamma", "Delta", "Eps", "r#type", "Some", "None", "Ok", "Err", "Error", "Box", "String", "snake_case", "_Under", "V7", "Source", "Backtrace", "r#match", "Display", "From", "Option",
          "ALL_CAPS", "Transparent", "Fmt", "X", "Formatter", "Result", "Send", "Sync"]
class Variant:
    def __init__(self, name, style, fields, msg, attr_here=True):
        self.name, self.style, self.fields, self.msg, self.attr_here = name, style, fields, msg, attr_here
        self.src = "Src::None"
        self.bt = "Bt::None"
        self.inner = None
        self.conv = None
        self.discriminant = ""
        self.prelude = ""

    def pattern(self, prefix):
        if self.style == "unit":
            return f"{prefix}"
        if self.style == "named":
            return prefix + " { " + ", ".join(f.member for f in self.fields) + " }"
        return prefix + "(" + ", ".join(f.bind for f in self.fields) + ")"

    def construct(self, prefix):
        if self.style == "unit":
            return prefix
        if self.style == "named":
            return prefix + " { " + ", ".join(f"{f.member}: {f.make}" for f in self.fields) + " }"
        return prefix + "(" + ", ".join(f.make for f in self.fields) + ")"

    def decl(self, rng, is_struct):
        def fdecl(f):
            vis = rng.choice(["pub ", "pub ", "pub(crate) ", "pub(super) "]) if is_struct else ""
            a, b = (rng.choice(FIELD_DECOR), "") if rng.random() < 0.1 else ("", "")
            if a and rng.random() < 0.5:
                a, b = b, a
            return a + (f.attrs + " " if f.attrs else "") + b + vis + (f"{f.member}: {f.ty}" if f.named else f.ty)
        if self.style == "unit":
            return ""
        if self.style == "named":
            return " { " + ", ".join(fdecl(f) for f in self.fields) + " }"
        return "(" + ", ".join(fdecl(f) for f in self.fields) + ")"


# what the item itself is called in the source text (None: by its name in the world)
IDENTS = ["Error", "Formatter", "Request", "Source", "Var", "Transparent", "r#type", "r#enum", "error", "source", "backtrace", "_Hidden", "__Private", "Fehler_Übergröße", "Ошибка",
          "An_Error_With_A_Name_That_Goes_On_And_On_For_Longer_Than_Anyone_Would_Normally_Write_One", "E0", "Display_", "Kind", "Inner", "thiserror_error", "Err_", "Any", "Location", "Fmt", "fmt"]
DERIVES = ["#[derive(Error, Debug)]"] * 5 + ["#[derive(Debug, Error)]"] * 2 + ["#[derive(thiserror::Error, Debug)]", "#[derive(Debug, ::thiserror::Error)]", "#[derive(Debug)]\n#[derive(Error)]", "#[derive(Error)]\n#[derive(Debug)]",
           "#[cfg_attr(all(), derive(Error, Debug))]", "#[derive(Debug)]\n#[cfg_attr(all(), derive(Error))]"]


class Type:
    def __init__(self, name, is_struct, variants, generics="", inst="", enum_attr="", flags=(), where=""):
        self.ident = name
        self.derive = DERIVES[0]
        self.repr = ""
        self.byhand = False
        self.name, self.is_struct, self.variants = name, is_struct, variants
        self.generics, self.inst, self.enum_attr, self.where = generics, inst, enum_attr, where
        self.flags = set(flags)
        self.sync = True
        self.prelude = ""
        self.wrap = None
        self.qualified = False

    def mod(self):
        return self.name.lower()

    def dress(self, key):
        """How the item is written around its variants and fields; from draws
        of its own."""
        rng = random.Random(f"dress:{key}:{self.name}")
        if rng.random() < 0.18:
            name = rng.choice(IDENTS)
            # (a tuple struct is also a value: it would be in the way of
            # variables of that name)
            if not name.replace("r#", "")[0].islower() or not self.is_struct or self.variants[0].style == "named":
                self.ident = name
        self.derive = rng.choice(DERIVES)
        if not self.is_struct and rng.random() < 0.12:
            kinds = ["i64", "u16"] + (["C, u16", "C, i32"] if any(v.fields for v in self.variants) else ["C"])
            if len(self.variants) < 200:
                kinds += ["u8", "i8" if len(self.variants) < 50 else "u8"]
            kind = rng.choice(kinds)
            self.repr = f"#[repr({kind})]"
            at, low = 0, "i" in kind
            if rng.random() < 0.7:
                for v in self.variants:
                    if rng.random() < 0.4:
                        at += rng.choice([0, 1])
                        v.discriminant = f" = {at}"
                    at += 1
                if low and self.variants[0].discriminant and len(self.variants) < 50:
                    self.variants[0].discriminant = " = -3"
                    for v in self.variants[1:2]:
                        v.discriminant = v.discriminant or " = 0"

    def decl(self, rng):
        v = self.variants
        if self.is_struct:
            end = ";" if v[0].style != "named" else ""
            where = f" {self.where}" if self.where else ""
            if v[0].style == "named":
                body = where + v[0].decl(rng, True)
            else:
                body = v[0].decl(rng, True) + where
            deco = rng.choice(ITEM_DECOR) + "\n" if rng.random() < 0.15 else ""
            return f"{deco}{self.derive}\n{v[0].msg.attr}\npub struct {self.ident}{self.generics}{body}{end}"
        out = [rng.choice(ITEM_DECOR)] if rng.random() < 0.15 else []
        out.append(self.derive)
        if self.enum_attr:
            out.append(self.enum_attr)
        if self.repr:
            out.append(self.repr)
        out.append(f"pub enum {self.ident}{self.generics} {self.where} {{")
        for x in v:
            if rng.random() < 0.08:
                out.append("    " + rng.choice(VARIANT_DECOR))
            if x.attr_here:
                out.append("    " + x.msg.attr)
            if rng.random() < 0.04:
                out.append("    " + rng.choice(VARIANT_DECOR))
            out.append(f"    {x.name}{x.decl(rng, False)}{x.discriminant},")
        out.append("}")
        return "\n".join(out)

    def fragments(self, rng, state):
        """The item made by a macro whose parameters are its types, messages
        and parts of its arguments. (An Option or Backtrace that arrives as a
        $t:ty is not recognized: recorded finding.)"""
        params, args = [], []

        def param(kind, text):
            params.append(f"$p{len(params)}:{kind}")
            args.append(text)
            return f"$p{len(params) - 1}"
        saved = []
        kinds = random.Random(self.name)
        for v in self.variants:
            for f in v.fields:
                last = f.ty.split("<")[0].split("::")[-1]
                if kinds.random() < 0.7 and not self.generics and last != "Backtrace" and not (last == "Option" and f.role in ("source", "bt")) and "'a" not in f.ty:
                    saved.append((f, "ty", f.ty))
                    f.ty = param("ty", f.ty)
        for m in {id(v.msg): v.msg for v in self.variants}.values():
            saved.append((m, "attr", m.attr))
            shared = self.enum_attr and m.attr == self.enum_attr
            if m.lit and kinds.random() < 0.6 and not shared:
                assert m.attr.startswith("#[error(" + m.lit)
                m.attr = "#[error(" + param("literal", m.lit) + m.attr[8 + len(m.lit):]
            while "«" in m.attr and not shared:
                i, j = m.attr.index("«"), m.attr.index("»")
                m.attr = m.attr[:i] + param("expr", m.attr[i + 1:j]) + m.attr[j + 1:]
        after = rng.getstate()
        rng.setstate(state)
        decl = self.decl(rng)
        rng.setstate(after)
        for o, a, x in saved:
            setattr(o, a, x)
        name = param("ident", self.ident)
        kw = "struct" if self.is_struct else "enum"
        head, tail = decl.split(f"pub {kw} {self.ident}", 1)
        head += f"pub {kw}"
        decl = plainly(head + " " + name + tail)
        return "macro_rules! pass { (" + "; ".join(params) + ") => {\n" + decl + "\n} }\npass! { " + "; ".join(args) + " }"

    def emit(self, rng, convs_src):
        this = self.name + self.inst
        state = rng.getstate()
        decl = self.text = plainly(self.decl(rng))
        body = decl
        if self.wrap == "tt":
            body = "macro_rules! pass { ($($t:tt)*) => { $($t)* } }\npass! {\n" + decl + "\n}"
        elif self.wrap == "item":
            body = "macro_rules! pass { ($t:item) => { $t } }\npass! {\n" + decl + "\n}"
        elif self.wrap == "frag":
            body = self.fragments(rng, state)
        if self.ident != self.name:
            body += f"\npub use self::{self.ident} as {self.name};"

        def arms(f, fallback=None):
            out = []
            for x in self.variants:
                p = x.pattern("Self" if self.is_struct else f"Self::{x.name}")
                out.append(f"            {p} => {f(x)},")
            return "\n".join(out)

        if self.byhand:
            body += f"\nimpl std::fmt::Display for {self.name} {{ fn fmt(&self, __f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ match self {{\n" + arms(lambda x: x.msg.twin) + "\n} } }"

        def qname(x):
            return self.name if self.is_struct else f"{self.name}::{x.name}"

        n = len(self.variants)
        mk = ["#[allow(clippy::all)]", f"pub fn mk() -> {this} {{", "    nested(|| match " + (f'choose("variant", {n})' if n > 1 else "0u32") + " {"]
        for i, x in enumerate(self.variants):
            label = str(i) if i < n - 1 else "_"
            mk.append(f"        {label} => {x.construct(self.name if self.is_struct else self.name + '::' + x.name)},")
        mk += ["    })", "}"]
        flags = " | ".join(["0"] + sorted(self.flags))
        dyn = f"Some(|| Box::new(mk()))" if self.sync and not self.flags & {"F_ADDR", "F_LEAKS"} else "None"
        dyn = "None" if "F_NODYN" in self.flags else dyn
        flags = flags.replace(" | F_NODYN", "").replace("F_NODYN | ", "").replace("F_NODYN", "0")
        hashes = "###"
        src = f"""
pub mod {self.mod()} {{
#![allow(unused, non_snake_case, non_camel_case_types, non_upper_case_globals, deprecated, clippy::all)]
use super::*;
{self.prelude}
{chr(10).join(v.prelude for v in self.variants if v.prelude)}
{body}
pub type This = {this};
{chr(10).join(mk)}
impl Obj for This {{
    fn name(&self) -> &'static str {{
        match self {{
{arms(lambda x: '"' + qname(x) + '"')}
        }}
    }}
    fn t_fmt(&self, __f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{
        match self {{
{arms(lambda x: x.msg.twin)}
        }}
    }}
    fn t_source(&self) -> Src<'_> {{
        match self {{
{arms(lambda x: x.src)}
        }}
    }}
    fn t_bt(&self) -> Bt<'_> {{
        match self {{
{arms(lambda x: x.bt)}
        }}
    }}
    fn t_inner(&self) -> Option<&dyn std::fmt::Display> {{
        match self {{
{arms(lambda x: 'Some(' + x.inner + ')' if x.inner else 'None')}
        }}
    }}
    fn as_err(&self) -> &(dyn std::error::Error + 'static) {{ self }}
    fn as_any(&self) -> &dyn std::any::Any {{ self }}
}}
{convs_src}
pub static ENTRY: Entry = Entry {{
    name: "{self.name}",
    flags: {flags},
    make: || Box::new(mk()),
    cast: cast_as::<This>,
    dyn_ss: {dyn},
    convs: CONVS,
    decl: r{hashes}"{decl}"{hashes},
}};
}}
"""
        return src


def field_names(rng, n):
    names = rng.sample(WIDE_NAMES, n)
    if n > 1 and rng.random() < 0.12:
        # a name that a variable generated for another field could have
        of, at = rng.sample(range(n), 2)
        stem = names[of].removeprefix("r#")
        name = rng.choice(["__display_", "__display_", "__field_", "__pointer_", "___display_", "___field_"]) + stem
        if name not in names:
            names[at] = name
    return names


def plain_fields(rng, style, n, std=True, types=None):
    out = []
    names = field_names(rng, n) if style == "named" else list(range(n))
    pool = types or FIELD_TYPES
    if not std:
        pool = [(w, f) for w, f in pool if f.kind != "path"]
    for m in names:
        ft = wchoice(rng, pool)
        if ft.kind == "nest" and rng.random() < 0.5:
            ft = wchoice(rng, pool)
        out.append(Field(m, ft))
    return out


def style_of(rng):
    return rng.choice(["named", "named", "tuple", "tuple", "unit"])


def absorb(t):
    for v in t.variants:
        t.flags |= v.msg.flags
        for f in v.fields:
            if f.ft.leaks:
                t.flags.add("F_LEAKS")
            if not f.ft.sync:
                t.sync = False
    # naming the flags once: addresses make output unusable across values
    return t


def giant_type(rng, name, cfg):
    """More variants, or more fields, than anyone would write in a test."""
    if rng.random() < 0.5:
        vs = []
        for i in range(rng.choice([130, 257, 300])):
            vn = f"V{i}"
            k = rng.random()
            if k < 0.4:
                vs.append(Variant(vn, "unit", [], Msg(f'#[error("v{i}")]', f'write!(__f, "v{i}")')))
            elif k < 0.55:
                vs.append(transparent_variant(rng, vn, pick_base(rng, []), cfg, {"Dev<0>", "Dev<1>", "Dev<2>"}))
            elif k < 0.7:
                vs.append(error_variant(rng, vn, False, ErrTy("Dev<1>", "Dev::<1>::make()"), cfg, {"Dev<1>"}, name + "::", name))
                vs[-1].conv = None if not vs[-1].conv else vs[-1].conv
            else:
                st = rng.choice(["named", "tuple"])
                fields = plain_fields(rng, st, rng.choice([1, 1, 1, 2, 7]), cfg.std, FIELD_TYPES[:9])
                vs.append(Variant(vn, st, fields, message_shorthand_only(rng, fields)))
        seen = set()
        for v in vs:
            if v.conv:
                if v.conv["ty"] in seen:
                    f = next(f for f in v.fields if f.role == "source")
                    f.attrs = f.attrs.replace("#[from]", "#[source]")
                    if not v.inner:
                        v.conv = None
                        continue
                    f.attrs, v.conv = f.attrs.replace("#[source]", "").replace("#[backtrace]", "").strip(), None
                    v.bt = "Bt::None"
                    continue
                seen.add(v.conv["ty"])
        t = Type(name, False, vs)
    else:
        style = rng.choice(["named", "tuple"])
        n = rng.choice([40, 66, 130])
        fields = [Field(f"f{i}" if style == "named" else i, wchoice(rng, [x for x in FIELD_TYPES[:12] if cfg.std or x[1].kind != "path"])) for i in range(n)]
        mb = MsgBuilder(rng, fields, style)
        for f in rng.sample(fields, rng.choice([n, n // 2, 3])):
            mb.lit(rng.choice(LITS))
            mb.shorthand(f)
        t = Type(name, True, [Variant(name, style, fields, mb.finish())])
    t.flags |= {"F_DISPLAY", "F_ERROR"}
    return absorb(t)


def display_type(rng, name, cfg):
    kind = rng.random()
    if kind < 0.45:
        style = style_of(rng)
        n = 0 if style == "unit" else rng.choice([1, 1, 2, 2, 3, 4, 13]) if style == "tuple" else rng.choice([1, 1, 2, 2, 3, 3, 4, 4, 17])
        fields = plain_fields(rng, style, n, cfg.std)
        v = Variant(name, style, fields, message(rng, fields, "named" if style != "tuple" else "tuple"))
        t = Type(name, True, [v])
        g = rng.random()
        if g < 0.2 and fields:
            generalize(rng, t)
        elif g < 0.25 and style != "unit":
            t.generics, t.inst = "<const N: usize>", "<5>"
            if not any(f.short == "N" for f in fields):
                v.msg = Msg('#[error("n={N} {N:>4}")]', 'write!(__f, "n={} {:>4}", 5, 5)')
        elif g < 0.31 and style == "named":
            t.generics, t.inst = "<'a>", "<'static>"
            fields.append(Field("borrowed", FT("&'static str", "word()", STR_SPECS, kind="str"), ty="&'a str"))
            v.msg = message(rng, fields, "named")
        if rng.random() < 0.25:
            t.wrap = rng.choice(["tt", "item", "frag", "frag", "frag"])
    else:
        nvar = rng.choice([1, 2, 3, 4, 5] * 3 + [26])
        vnames = ["Alpha", "Beta", "Gamma", "Delta", "Eps"] if nvar <= 5 and rng.random() < 0.5 else rng.sample(VNAMES, nvar)
        vs = []
        t_attr = ""
        inherit = rng.random() < 0.2
        shared = None
        if inherit:
            sf = Field(rng.choice(["code", "a", "r#type"]), wchoice(rng, [x for x in FIELD_TYPES if x[1].kind in ("probe", "int", "str", "tok")]))
            shared = (sf, message_shorthand_only(rng, [sf]))
            t_attr = shared[1].attr
        fns = []
        for i in range(nvar):
            vname = vnames[i]
            if inherit and rng.random() < 0.6:
                fields = [Field(shared[0].member, shared[0].ft)]
                if rng.random() < 0.5:
                    fields.append(Field("other_field", wchoice(rng, FIELD_TYPES[:8])))
                vs.append(Variant(vname, "named", fields, shared[1], attr_here=False))
                continue
            style = style_of(rng)
            n = 0 if style == "unit" else rng.choice([1, 1, 2, 3, 11]) if style == "tuple" else rng.choice([1, 1, 2, 3])
            fields = plain_fields(rng, style, n, cfg.std)
            if rng.random() < 0.12:
                fn = f"show_{vname.lower()}".replace("r#", "")
                body, twin_flags = fmt_path_fn(rng, fn, fields)
                fns.append(body)
                call = f"{fn}(" + ", ".join([f.bind for f in fields] + ["__f"]) + ")"
                m = Msg(f"#[error(fmt = {rng.choice(['', 'self::', ''])}{fn})]", call, twin_flags)
            else:
                m = message(rng, fields, "tuple" if style == "tuple" else "named")
            vs.append(Variant(vname, style, fields, m))
        if inherit and not any(not v.attr_here for v in vs):
            t_attr = ""
        t = Type(name, False, vs, enum_attr=t_attr)
        t.prelude += "\n".join(fns)
        if not t_attr and not fns and rng.random() < 0.25:
            generalize(rng, t)
        if rng.random() < 0.25:
            t.wrap = rng.choice(["tt", "item", "frag", "frag", "frag"])
        if rng.random() < 0.08 and not t_attr:
            # enum-level fmt = path over variants of one shape
            fields = [Field(0, FIELD_TYPES[0][1])]
            body, fl = fmt_path_fn(rng, "show_all", fields)
            t = Type(name, False, [Variant(n, "tuple", [Field(0, FIELD_TYPES[0][1])], Msg("", "show_all(_0, __f)", fl), attr_here=False) for n in ("One", "Two")], enum_attr="#[error(fmt = show_all)]")
            t.prelude = body
    t.flags.add("F_DISPLAY")
    absorb(t)
    return t


def generalize(rng, t):
    """Make some Probe and Tok fields generic, with messages that use them by
    shorthand only."""
    params = {}
    for v in t.variants:
        hit = False
        for f in v.fields:
            want = {"probe": rng.choice(["T", "T", "U"]), "tok": "V"}.get(f.ft.kind)
            if want and rng.random() < 0.7 and not any(x.short == want for x in v.fields):
                if f.ft.ty == "Probe" and rng.random() < 0.25:
                    # by way of an associated type
                    want = "A"
                    if any(x.short == want for x in v.fields):
                        continue
                    f.ty = rng.choice(["A::Out", "<A as HasOut>::Out"])
                    t.qualified |= f.ty[0] == "<"
                    params[want] = "Maker"
                    hit = True
                    continue
                f.ty = want
                params[want] = f.ft.ty
                hit = True
                if f.ft.ty == "Probe" and rng.random() < 0.25:
                    w, m, specs = rng.choice([("Box<{}>", "Box::new({})", ["", ":?", ":x?"]), ("std::sync::Arc<{}>", "std::sync::Arc::new({})", ["", ":?", ":>9"]), ("Vec<{}>", "vec![{}]", [":?", ":#?"]),
                                              ("Option<{}>", "Some({})", [":?", ":.2?"]), ("std::cmp::Reverse<{}>", "std::cmp::Reverse({})", [":?"])])
                    f.ft = FT(w.format("Probe"), f.ft.make, specs, kind="other")
                    f.ty, f.make = w.format(want), m.format(f.make)
        if hit:
            mb = MsgBuilder(rng, v.fields, "named" if v.style != "tuple" else "tuple")
            for f in rng.sample(v.fields, len(v.fields)):
                if rng.random() < 0.85:
                    mb.lit(text(rng))
                    mb.shorthand(f)
                    if rng.random() < 0.3:
                        mb.shorthand(f)
            v.msg = mb.finish()
    if not params:
        return
    names = sorted(params)
    rng.shuffle(names)
    decl, inst, where = [], [], []
    for n in names:
        b = rng.choice(["", "", "", ": Sized", ": 'static", ": Plain"])
        if b and rng.random() < 0.5:
            where.append(n + b)
            b = ""
        if n == "A":
            b = ": HasOut"
            if rng.random() < 0.4:
                where.append(n + b)
                b = ""
            if t.qualified:  # which derive(Debug) does not see to
                where.append("<A as HasOut>::Out: std::fmt::Debug")
        decl.append(n + b)
        inst.append(params[n])
    if rng.random() < 0.3:
        decl[-1] += f" = {inst[-1]}"
    if rng.random() < 0.2:
        decl.append("const N: usize" + (" = 3" if "=" in decl[-1] else ""))
        inst.append("3")
    if rng.random() < 0.2 and where:
        where.append("")
    t.generics, t.inst = f"<{', '.join(decl)}>", f"<{', '.join(inst)}>"
    t.where = "where " + ", ".join(where) if where else ""


def message_shorthand_only(rng, fields):
    mb = MsgBuilder(rng, fields, "named")
    mb.lit(text(rng))
    for f in fields:
        mb.shorthand(f)
        mb.lit(text(rng))
    return mb.finish()


def fmt_path_fn(rng, fn, fields):
    params = ", ".join([f"{f.bind}: &{f.ty}" for f in fields] + ["__w: &mut std::fmt::Formatter<'_>"])
    parts = []
    flags = set()
    for f in fields:
        spec = rng.choice(f.ft.specs)
        if "{W}" in spec or "{P}" in spec:
            spec = ""
        if spec == "" and ("" not in f.ft.specs or f.ft.kind == "path"):
            spec = ":?"
        if spec.endswith("p") and f.ft.addr:
            flags.add("F_ADDR")
        if f.ft.nest and spec == "":
            flags.add("F_NEST")
        parts.append(f'write!(__w, "{{{spec}}};", *{f.bind})?;')
    flagcode = 'if __w.alternate() { __w.write_str("#alt")?; } if let Some(w) = __w.width() { write!(__w, "w{w}")?; } touch(&0u8);'
    return (f"#[allow(unused)] pub fn {fn}({params}) -> std::fmt::Result {{ {flagcode} " + " ".join(parts) + ' __w.write_str("end") }', flags)


# ------------------------------------------------------------------ errors
class ErrTy:
    """Something that can be a concrete source."""

    def __init__(self, ty, make, sync=True, leaks=False, nest=False, link=False):
        self.ty, self.make, self.sync, self.leaks, self.nest, self.link = ty, make, sync, leaks, nest, link


DYNS = ["dyn std::error::Error", "dyn std::error::Error + Send", "dyn std::error::Error + Send + Sync", "dyn std::error::Error + Send + Sync + std::panic::UnwindSafe"]

OPTION_PATHS = ["Option", "Option", "std::option::Option", "::core::option::Option"]


def recursive_kind(rng, tname):
    """A source that is another value of the same type."""
    me = rng.choice(["Self", tname])
    k = rng.choice(["Box", "Box", "std::sync::Arc"])
    opt = rng.choice(OPTION_PATHS)
    n = f"{k}::new({tname.lower()}::mk())"
    return dict(kind="rec", sync=True, leaks=False, option=True, ty=f"{opt}<{k}<{me}>>", make=f'if !too_deep() && choose("present", 3) > 0 {{ Some({n}) }} else {{ None }}',
                view="{b} as &(dyn std::error::Error + 'static)", inner_ty=f"{k}<{tname}>", inner_make=n, disp=False)


def source_kind(rng, base, allow_option=True, allow_ref=True, for_from=False):
    """-> (field type, make, how to view a binding `b: &Field` as Src (python fn), dyn view fn, from type, from make, sync, leaks, display ok)"""
    E = base
    opt = rng.choice(OPTION_PATHS)
    kinds = [(6, "plain"), (2, "box"), (2, "arc"), (2, "boxdyn"), (1, "arcdyn"), (2, "any")]
    if allow_option:
        kinds += [(4, "opt"), (2, "optbox"), (2, "optboxdyn"), (1, "optany"), (1, "optarc")]
    if allow_ref and E.make.startswith("Dev"):
        kinds += [(1, "ref")]
    if allow_ref and E.make != "unused()":
        kinds += [(0.3, "refdyn")]
        if allow_option:
            kinds += [(0.25, "optrefdyn")]
    if E.link:
        kinds = [(3, "boxdyn"), (1, "arcdyn"), (1, "any")]
    k = wchoice(rng, kinds)
    maybe = lambda m: f'if choose("present", 3) > 0 {{ Some({m}) }} else {{ None }}'
    d = dict(kind=k, sync=E.sync, leaks=E.leaks, option=False)
    if k == "plain":
        d.update(ty=E.ty, make=E.make, view="{b} as &(dyn std::error::Error + 'static)", disp=True)
    elif k == "box":
        d.update(ty=f"Box<{E.ty}>", make=f"Box::new({E.make})", view="{b} as &(dyn std::error::Error + 'static)", disp=True)
    elif k == "arc":
        d.update(ty=f"std::sync::Arc<{E.ty}>", make=f"std::sync::Arc::new({E.make})", view="{b} as &(dyn std::error::Error + 'static)", disp=True)
    elif k == "ref":
        d.update(ty=f"&'static {E.ty}", make=f"leaked({E.make})", view="*{b} as &(dyn std::error::Error + 'static)", alt="{b} as &(dyn std::error::Error + 'static)", leaks=True, disp=True)
    elif k == "boxdyn":
        dy = rng.choice(DYNS if E.make != "unused()" else DYNS[:3]) if not E.link else DYNS[2]
        mk = f"Box::new({E.make})"
        if E.link:
            mk = "dyn_ss()"
        elif "UnwindSafe" in dy:
            mk = rng.choice(["Box::new(Dev::<1>::make())"] * 2 + ["Box::new(Tiny::make())", "Box::new(Slim::make())", "Box::new(Thin::make())", "Box::new(Big::make())"])
        elif "Sync" in dy and not E.sync:
            mk = "dyn_ss()"
        elif "Send" in dy and not E.sync:
            mk = "dyn_ss()"
        elif rng.random() < 0.4:
            mk = "dyn_ss()" if "UnwindSafe" not in dy else mk
        d.update(ty=f"Box<{dy}>" + "", make=mk, view="&**{b} as &(dyn std::error::Error + 'static)", sync="Sync" in dy, disp=True)
        d["leaks"] = False
    elif k in ("refdyn", "optrefdyn"):
        dy = rng.choice(DYNS[:3] + [DYNS[2] + " + 'static"])
        paren = dy.endswith("'static") or "+" in dy
        ty, mk = (f"&'static ({dy})" if paren else f"&'static {dy}"), "&*Box::leak(dyn_ss())"
        d.update(ty=ty, make=mk, view="*{b} as &(dyn std::error::Error + 'static)", alt="{b} as &(dyn std::error::Error + 'static)", sync="Sync" in dy, leaks=True, disp=True)
        if k == "optrefdyn":
            d.update(ty=f"{opt}<{ty}>", make=maybe(mk + " as _"), option=True, inner_ty=ty, inner_make=mk, disp=False)
    elif k == "arcdyn":
        d.update(ty="std::sync::Arc<dyn std::error::Error + Send + Sync>", make="std::sync::Arc::from(dyn_ss())", view="{b} as &(dyn std::error::Error + 'static)", alt="&**{b} as &(dyn std::error::Error + 'static)", sync=True, disp=True, leaks=False)
    elif k == "any":
        d.update(ty="AnyErr", make="AnyErr::make()", view="any_err({b})", sync=True, disp=True, leaks=False)
    elif k == "opt":
        d.update(ty=f"{opt}<{E.ty}>", make=maybe(E.make), view="{b} as &(dyn std::error::Error + 'static)", option=True, inner_ty=E.ty, inner_make=E.make, disp=False)
    elif k == "optbox":
        d.update(ty=f"{opt}<Box<{E.ty}>>", make=maybe(f"Box::new({E.make})"), view="{b} as &(dyn std::error::Error + 'static)", option=True, inner_ty=f"Box<{E.ty}>", inner_make=f"Box::new({E.make})", disp=False)
    elif k == "optarc":
        d.update(ty=f"{opt}<std::sync::Arc<{E.ty}>>", make=maybe(f"std::sync::Arc::new({E.make})"), view="{b} as &(dyn std::error::Error + 'static)", option=True, inner_ty=f"std::sync::Arc<{E.ty}>", inner_make=f"std::sync::Arc::new({E.make})", disp=False)
    elif k == "optboxdyn":
        dy = rng.choice(DYNS[:3])
        d.update(ty=f"{opt}<Box<{dy}>>", make=maybe("dyn_ss() as _"), view="&**{b} as &(dyn std::error::Error + 'static)", option=True, sync="Sync" in dy, inner_ty=f"Box<{dy}>", inner_make="dyn_ss() as _", disp=False, leaks=False)
    elif k == "optany":
        d.update(ty=f"{opt}<AnyErr>", make=maybe("AnyErr::make()"), view="any_err({b})", option=True, inner_ty="AnyErr", inner_make="AnyErr::make()", sync=True, disp=False, leaks=False)
    return d


BT_KINDS = ["none", "none", "implicit", "implicit", "explicit", "opt", "arc", "box", "on_source", "custom", "both"]


def error_variant(rng, vname, is_struct, base, cfg, used_from, prefix, tname, bts=BT_KINDS, recursive=False):
    """A variant (or struct) with a source."""
    style = rng.choice(["named", "named", "tuple"])
    mark = rng.choice(["name", "attr", "from", "from"]) if style == "named" else rng.choice(["attr", "from", "from"])
    sk = source_kind(rng, base)
    if recursive and base.make.startswith("Dev::<") and rng.random() < 0.12:
        sk = recursive_kind(rng, tname)
    from_ty = sk.get("inner_ty", sk["ty"])
    if mark == "from" and (from_ty in used_from or sk["kind"] in ("ref", "refdyn", "optrefdyn")):
        mark = "attr"
    bt = rng.choice(bts) if cfg.std else "none"
    if is_struct is None:
        pass
    # who is the backtrace field
    fields = []
    sname = {"name": "source", "attr": rng.choice(["cause", "inner", "r#try", "reason", "error", "backtrace_"]), "from": rng.choice(["source", "origin", "r#from", "inner"])}[mark]
    sattrs = {"name": "", "attr": "#[source]", "from": "#[from]"}[mark]
    if mark == "from" and rng.random() < 0.1:
        sattrs = "#[from] #[source]" if False else "#[from]"
    if bt == "both" and mark == "from":
        bt = "on_source"
    if mark != "from" and rng.random() < 0.06:
        # another derive's attribute of that name
        other = rng.choice(["#[from(forward)]", "#[from(skip)]", '#[from = "x"]'])
        sattrs = rng.choice([f"{other} {sattrs}", f"{sattrs} {other}"]).strip()
    if bt in ("on_source", "both"):
        sattrs = (sattrs + " #[backtrace]").strip() if rng.random() < 0.5 else ("#[backtrace] " + sattrs).strip()
    sty, smake = sk["ty"], sk["make"]
    sft = FT(sty, smake, ["", ":>9"] if sk["disp"] else [], sync=sk["sync"], leaks=sk["leaks"], kind="src", nest=False)
    src_field = Field(None, sft, attrs=sattrs, role="source")
    fields.append(src_field)
    bt_field = None
    if bt not in ("none", "on_source"):
        bty, bmake, battr = {
            "implicit": (rng.choice(["Backtrace", "std::backtrace::Backtrace"]), "backtrace()", ""),
            "both": ("Backtrace", "backtrace()", ""),
            "explicit": (rng.choice(["Backtrace", "Backtrace", "Trace", "crate::Trace"]), "backtrace()", "#[backtrace]"),
            "opt": (rng.choice(["Option<Backtrace>", "Option<Backtrace>", "core::option::Option<Trace>"]), 'if choose("bt", 3) > 0 { Some(backtrace()) } else { None }', "#[backtrace]"),
            "arc": ("std::sync::Arc<Backtrace>", "std::sync::Arc::new(backtrace())", "#[backtrace]"),
            "box": ("Box<Backtrace>", "Box::new(backtrace())", "#[backtrace]"),
            "custom": ("custom::Backtrace", "custom::Backtrace(backtrace(), Token::new())", rng.choice(["", "#[backtrace]"])),
        }[bt]
        bt_field = Field(None, FT(bty, bmake, [], kind=""), attrs=battr, role="bt")
        if rng.random() < 0.5:
            fields.append(bt_field)
        else:
            fields.insert(0, bt_field)
    if bt in ("explicit", "opt", "arc", "box") and mark != "from" and rng.random() < 0.25:
        # a field of that type beside the one that is marked
        fields.insert(rng.randrange(len(fields) + 1), Field(None, FT("Backtrace", "backtrace()", [], kind=""), role="spare"))
    extra = 0 if mark == "from" else rng.choice([0, 1, 1, 2] * 5 + [9, 13])
    for _ in range(extra):
        ft = wchoice(rng, [x for x in FIELD_TYPES[:9] if cfg.std or x[1].kind != "path"])
        fields.insert(rng.randrange(len(fields) + 1), Field(None, ft, role="payload"))
    # decoys
    decoy = None
    if style == "named" and mark == "attr" and rng.random() < 0.5:
        # a field named source beside the field marked as the source; half of
        # the time it is an error of its own
        dft = FIELD_TYPES[rng.choice([0, 2, 3])][1]
        if rng.random() < 0.5:
            dk = source_kind(rng, pick_base(rng, []), allow_option=rng.random() < 0.3)
            if dk["kind"] not in ("ref", "refdyn", "optrefdyn"):
                dft = FT(dk["ty"], dk["make"], [""] if dk["disp"] else [], sync=dk["sync"], leaks=dk["leaks"], kind="src", nest=False)
        decoy = Field("source", dft, role="decoy")
        fields.insert(rng.randrange(len(fields) + 1), decoy)
    names = field_names(rng, len(fields))
    for i, f in enumerate(fields):
        if style == "tuple":
            f.member = i
        elif f.member is None:
            if f.role == "source":
                f.member = sname
            elif f.role == "bt":
                f.member = rng.choice(["backtrace", "bt", "trace"])
            elif f.role == "spare":
                f.member = rng.choice(["backtrace", "spare"])
            else:
                f.member = names[i]
    if style == "named":
        seen = set()
        for f in sorted(fields, key=lambda f: f.role == "payload"):
            while f.short in seen:
                f.member = f.member + "_x"
            seen.add(f.short)
    mfields = [f for f in fields if f.role in ("payload", "decoy") or (f.role == "source" and f.ft.specs)]
    for f in mfields:
        if f.role == "source":
            f.ft.kind = "src"
    msg = error_message(rng, mfields, style)
    v = Variant(vname, style, fields, msg)
    if not is_struct and rng.random() < 0.08:
        v.msg, v.prelude = error_fmt_path(rng, vname, fields, [f for f in mfields if f is not src_field or base.ty not in [g[0] for g in GENERIC]])
    b = src_field.bind
    if sk["option"]:
        inner = sk["view"].format(b="__s")
        found = f"Src::Is({inner})" if "alt" not in sk else f"Src::IsEither({sk['alt'].format(b='__s')}, {inner})"
        v.src = f"match {b} {{ Some(__s) => {found}, None => Src::None }}"
        view_opt = f"match {b} {{ Some(__s) => Some({inner}), None => None }}"
    else:
        inner = sk["view"].format(b=b)
        v.src = f"Src::Is({inner})" if "alt" not in sk else f"Src::IsEither({sk['alt'].format(b=b)}, {inner})"
        view_opt = f"Some({inner})"
    own = None
    if bt_field is not None:
        own = {
            "implicit": f"Some({bt_field.bind})", "both": None, "explicit": f"Some({bt_field.bind})",
            "opt": f"{bt_field.bind}.as_ref()", "arc": f"Some(&**{bt_field.bind})", "box": f"Some(&**{bt_field.bind})",
            "custom": f"Some(&**{bt_field.bind})",
        }[bt]
    ownx = own or "None"
    owned = f"match {ownx} {{ Some(__b) => Bt::Own(__b), None => Bt::None }}"
    if bt == "none":
        v.bt = "Bt::None"
    else:
        explicit_sep = bt in ("explicit", "opt", "arc", "box") or (bt == "custom" and bt_field.attrs)
        ctor = "Bt::Either" if explicit_sep else "Bt::Fwd"
        v.bt = f"match {view_opt} {{ Some(__e) => {ctor}(__e, {ownx}), None => {owned} }}"
    flags = {"F_ERROR"}
    if bt != "none":
        flags.add("F_BT")
    if sk["leaks"] or (decoy is not None and decoy.ft.leaks):
        flags.add("F_LEAKS")
    v.msg.flags |= flags
    if mark == "from":
        used_from.add(from_ty)
        v.conv = dict(ty=from_ty, make=sk.get("inner_make", sk["make"]), own=bt in ("implicit", "explicit", "opt", "arc", "box", "custom"), custom=bt == "custom",
                      view=sk["view"], bt=bt_field.ft.ty if bt_field is not None else None)
    return v


def error_message(rng, mfields, style):
    """Literals and shorthands only (expressions are covered by display types)."""
    mb = MsgBuilder(rng, [], style)
    mb.fields = mfields
    mb.lit(text(rng))
    for f in mfields:
        if rng.random() < 0.7 and f.ft.specs:
            mb.shorthand(f)
            mb.lit(text(rng))
    try:
        return mb.finish()
    except Retry:
        return Msg('#[error("x")]', 'write!(__f, "x")')


def error_fmt_path(rng, vname, fields, shown):
    """A message by fmt = path for a variant with a source."""
    fn = f"show_{vname.lower()}".replace("r#", "")
    shown = [f for f in shown if f.ft.specs and "" in f.ft.specs and rng.random() < 0.8]
    params = ", ".join([f"{f.bind}: &impl " + ("std::fmt::Display" if f in shown else "Sized") for f in fields] + ["__w: &mut std::fmt::Formatter<'_>"])
    parts = [rng.choice([f'write!(__w, "{{}} / ", {f.bind})?;', f'std::fmt::Display::fmt({f.bind}, __w)?;']) for f in shown]
    body = f"#[allow(unused)] pub fn {fn}({params}) -> std::fmt::Result {{ {' '.join(parts)} __w.write_str({rust_lit(rng, text(rng))}) }}"
    return Msg(f"#[error(fmt = {rng.choice(['', 'self::', ''])}{fn})]", f"{fn}(" + ", ".join([f.bind for f in fields] + ["__f"]) + ")"), body


def transparent_variant(rng, vname, base, cfg, used_from, inherit=False):
    sk = source_kind(rng, base, allow_option=False)
    style = rng.choice(["named", "tuple", "tuple"])
    from_ = rng.random() < 0.5 and sk["ty"] not in used_from and sk["kind"] not in ("ref", "refdyn")
    name = rng.choice(["inner", "source", "r#type", "error"])
    attrs = "#[from]" if from_ else ""
    fwd = False
    if cfg.std and rng.random() < 0.4 and (from_ or (style == "named" and name == "source")):
        attrs = (attrs + " #[backtrace]").strip()
        fwd = True
    ft = FT(sk["ty"], sk["make"], [], sync=sk["sync"], leaks=sk["leaks"], kind="src")
    f = Field(name if style == "named" else 0, ft, attrs=attrs, role="source")
    msg = Msg("#[error(transparent)]", f"std::fmt::Display::fmt({f.bind}, __f)", {"F_ERROR", "F_TRANSPARENT"})
    v = Variant(vname, style, [f], msg, attr_here=not inherit)
    view = sk["view"].format(b=f.bind)
    v.src = f"Src::Via({view})"
    v.inner = f.bind
    if fwd:
        v.bt = f"Bt::Fwd({view}, None)"
        msg.flags.add("F_BT")
    if from_:
        used_from.add(sk["ty"])
        v.conv = dict(ty=sk["ty"], make=sk["make"], own=False, custom=False, view=sk["view"])
    return v


def sourceless_variant(rng, vname, cfg):
    style = style_of(rng)
    n = 0 if style == "unit" else rng.choice([1, 2])
    fields = plain_fields(rng, style, n, cfg.std, FIELD_TYPES[:9])
    if cfg.std and rng.random() < 0.3 and style != "unit":
        f = Field("backtrace" if style == "named" else n, FT("Backtrace", "backtrace()", [], kind=""), attrs=rng.choice(["", "#[backtrace]"]))
        fields.append(f)
        v = Variant(vname, style, fields, message(rng, fields[:-1], "tuple" if style == "tuple" else "named"))
        v.bt = f"Bt::Own({f.bind})"
        v.msg.flags |= {"F_BT", "F_ERROR"}
        return v
    if style == "named" and rng.random() < 0.3:
        # a raw identifier is not the magic name
        fields.append(Field("r#source", FIELD_TYPES[2][1], role="decoy")) if False else None
    v = Variant(vname, style, fields, message(rng, fields, "tuple" if style == "tuple" else "named"))
    v.msg.flags.add("F_ERROR")
    return v


# sources that are no devices: of unusual size, or from std
ODD = [("Tiny", "Tiny::make()"), ("Tiny", "Tiny::make()"), ("Slim", "Slim::make()"), ("Thin", "Thin::make()"), ("Big", "Big::make()"),
       ("Wide64", "Wide64::make()"), ("std::io::Error", "io_error()"), ("std::fmt::Error", "std::fmt::Error")]


def pick_base(rng, pool):
    if rng.random() < 0.45 or not pool:
        if rng.random() < 0.35:
            ty, make = rng.choice(ODD)
            return ErrTy(ty, make)
        k = rng.choice([0, 1, 2])
        return ErrTy(f"Dev<{k}>", f"Dev::<{k}>::make()")
    return rng.choice(pool)


# (type of the source, parameters, instance, where clause)
GENERIC = [("E", "<E>", "<Dev<2>>", ""), ("E", "<E>", "<Dev<2>>", ""), ("E", "<E, const N: usize>", "<Dev<2>, 4>", "where E: Sized"),
           ("S::Err", "<S: Service>", "<Svc>", ""), ("<S as Service>::Err", "<S>", "<Svc>", "where S: Service, <S as Service>::Err: std::fmt::Debug,")]


def settle_generic(v, g):
    """Whether a variant with a source of generic type g makes an acceptable
    item; its conversion is named by what g stands for."""
    if not any(g == f.ty or f"<{g}>" in f.ty for f in v.fields) or any("&'static " + g in f.ty for f in v.fields):
        return False
    if v.conv:
        if v.conv["ty"] == g or "S" in g:
            return False  # From<E> would conflict with From<T> for T
        v.conv["ty"] = v.conv["ty"].replace(f"<{g}>", "<Dev<2>>")
    return True


def error_type(rng, name, cfg, pool):
    used = set()
    if rng.random() < 0.4:
        g = rng.random()
        base = pick_base(rng, pool)
        if g < 0.2:
            gp = rng.choice(GENERIC)
            base = ErrTy(gp[0], "Dev::<2>::make()")
            v = error_variant(rng, name, True, base, cfg, used, "", name)
            if not settle_generic(v, gp[0]):
                return error_type(rng, name, cfg, pool)
            t = Type(name, True, [v], generics=gp[1], inst=gp[2], where=gp[3])
        else:
            v = error_variant(rng, name, True, base, cfg, used, "", name, recursive=True)
            t = Type(name, True, [v])
    else:
        vs = []
        generic = rng.random() < 0.15
        nv = rng.choice([1, 2, 3, 4, 5] * 4 + [14])
        vnames = ["Io", "Parse", "Net", "Other", "Last"] if nv <= 5 and rng.random() < 0.6 else rng.sample(VNAMES, nv)
        at = rng.randrange(nv)
        gp = rng.choice(GENERIC)
        for i in range(nv):
            vn = vnames[i]
            r = rng.random()
            if generic and i == at:
                base = ErrTy(gp[0], "Dev::<2>::make()")
                if rng.random() < 0.3:
                    f = Field(0, FT(gp[0], base.make, [], kind="src"), role="source")
                    v = Variant(vn, "tuple", [f], Msg("#[error(transparent)]", "std::fmt::Display::fmt(_0, __f)", {"F_ERROR", "F_TRANSPARENT"}))
                    v.src, v.inner = "Src::Via(_0 as &(dyn std::error::Error + 'static))", "_0"
                else:
                    v = error_variant(rng, vn, False, base, cfg, used, name + "::", name)
                vs.append(v)
            elif r < 0.6:
                vs.append(error_variant(rng, vn, False, pick_base(rng, pool), cfg, used, name + "::", name, recursive=not generic))
            elif r < 0.8:
                vs.append(transparent_variant(rng, vn, pick_base(rng, pool), cfg, used))
            else:
                vs.append(sourceless_variant(rng, vn, cfg))
        attr = ""
        if rng.random() < 0.1:
            # one message for all the variants that bring none of their own
            m = error_message(rng, [], "named")
            for v in vs:
                if not v.prelude and not v.inner and rng.random() < 0.6:
                    v.msg, v.attr_here, attr = Msg(m.attr, m.twin, v.msg.flags), False, m.attr
        t = Type(name, False, vs, enum_attr=attr)
        if generic:
            v = vs[at]
            if v.conv and any(x.conv for x in vs if x is not v) or not settle_generic(v, gp[0]):
                return error_type(rng, name, cfg, pool)
            t.generics, t.inst, t.where = gp[1:]
    if not t.generics and not t.enum_attr and not any(v.prelude or v.inner for v in t.variants) and rng.random() < 0.08:
        # Display written by hand: no message for the derive
        t.byhand = True
        for v in t.variants:
            v.msg = Msg("", v.msg.twin, v.msg.flags)
            v.attr_here = False
    words = [] if t.byhand else [f for v in t.variants for f in v.fields if f.role == "payload" and f.ty in ("&'static str", "String")]
    if words and not t.generics and rng.random() < 0.5 and not any("Self>" in f.ty or f"<{name}>" in f.ty for v in t.variants for f in v.fields):
        for f in words:
            f.ty, f.make = "&'a str", "word()"
        t.generics, t.inst = "<'a>", "<'static>"
    t.flags |= {"F_ERROR", "F_DISPLAY"}
    if rng.random() < 0.2:
        t.wrap = rng.choice(["tt", "item", "frag", "frag", "frag"])
    return absorb(t)


def transparent_type(rng, name, cfg, pool):
    used = set()
    if rng.random() < 0.6:
        g = rng.random()
        if g < 0.12:
            base = ErrTy("E", "Dev::<2>::make()")
            ft = FT("E", base.make, [], kind="src")
            f = Field("inner", ft)
            v = Variant(name, "named", [f], Msg("#[error(transparent)]", "std::fmt::Display::fmt(inner, __f)", {"F_ERROR", "F_TRANSPARENT"}))
            v.src, v.inner = "Src::Via(inner as &(dyn std::error::Error + 'static))", "inner"
            t = Type(name, True, [v], generics="<E>", inst="<Dev<2>>")
        else:
            t = Type(name, True, [transparent_variant(rng, name, pick_base(rng, pool), cfg, used)])
    else:
        inherit = rng.random() < 0.3
        vs = [transparent_variant(rng, ["A", "B", "C"][i], pick_base(rng, pool), cfg, used, inherit) for i in range(rng.choice([1, 2, 3]))]
        if inherit and rng.random() < 0.5:
            vs.insert(rng.randrange(len(vs) + 1), error_variant(rng, "Own", False, pick_base(rng, pool), cfg, used, name + "::", name))
        t = Type(name, False, vs, enum_attr="#[error(transparent)]" if inherit else "")
    t.flags |= {"F_ERROR", "F_TRANSPARENT"}
    if rng.random() < 0.2:
        t.wrap = rng.choice(["tt", "item", "frag", "frag"])
    return absorb(t)


def link_type(rng, name, cfg, bts=BT_KINDS):
    """A type every value of which wraps another error, for long chains."""
    base = ErrTy("unused", "unused()", link=True)
    if rng.random() < 0.5:
        v = transparent_variant(rng, name, base, cfg, set()) if rng.random() < 0.4 else error_variant(rng, name, True, base, cfg, set(), "", name, bts=bts)
        t = Type(name, True, [v])
    else:
        used, vs = set(), []
        for n in ("One", "Two", "Three")[: rng.choice([2, 3])]:
            vs.append(transparent_variant(rng, n, base, cfg, used) if rng.random() < 0.4 else error_variant(rng, n, False, base, cfg, used, name + "::", name, bts=bts))
        t = Type(name, False, vs)
    t.flags |= {"F_ERROR", "F_DISPLAY"}
    absorb(t)
    if t.sync and not t.flags & {"F_ADDR", "F_LEAKS"}:
        t.flags.add("F_LINK")
    return t


def conv_src(t):
    """Conversion functions and the CONVS table of a type."""
    out, table = [], []
    this = "This"
    for i, v in enumerate(t.variants):
        c = v.conv
        if not c:
            continue
        q = t.name if t.is_struct else f"{t.name}::{v.name}"
        fa, fb = f"conv_{t.name}_{i}_first", f"conv_{t.name}_{i}_other"
        view = c["view"].format(b="__s")
        out.append(f"""
#[inline(never)] pub fn {fa}(s: {c['ty']}) -> This {{ let r = This::from(s); std::hint::black_box(&r); r }}
#[inline(never)] pub fn {fb}(s: {c['ty']}) -> This {{
    fn go(s: {c['ty']}) -> Result<(), This> {{ Err(s)? }}
    let r = match go(s) {{ Err(e) => e, Ok(()) => unreachable!() }};
    std::hint::black_box(&r);
    r
}}
fn src_{i}() -> Box<dyn std::any::Any> {{ let s: {c['ty']} = nested(|| {c['make']}); Box::new(s) }}
fn apply_{i}(s: Box<dyn std::any::Any>, other: bool) -> Box<dyn Obj> {{
    let s: {c['ty']} = *s.downcast::<{c['ty']}>().expect("type");
    conv_begin();
    let r = if other {{ {fb}(s) }} else {{ {fa}(s) }};
    conv_end();
    Box::new(r)
}}
fn view_{i}(s: &dyn std::any::Any) -> &(dyn std::error::Error + 'static) {{ let __s = s.downcast_ref::<{c['ty']}>().expect("type"); {view} }}
""")
        hand = "None"
        if c.get("bt") and c["own"]:
            made = "std::backtrace::Backtrace::capture()"
            made = f"Some({made})" if "Option<" in c["bt"] else f"From::from({made})"
            out.append(f"fn hand_{i}() {{ conv_begin(); let b: {c['bt']} = {made}; conv_end(); drop(b); }}")
            hand = f"Some(hand_{i})"
        table.append(f"Conv {{ label: \"From<{c['ty']}> for {q}\", expect: \"{q}\", src: src_{i}, apply: apply_{i}, sites: [\"{fa}\", \"{fb}\"], own_bt: {str(c['own']).lower()}, custom_bt: {str(c['custom']).lower()}, src_obj: view_{i}, hand: {hand} }}")
    out.append("pub static CONVS: &[Conv] = &[" + ", ".join(table) + "];")
    return "\n".join(out)


# ------------------------------------------------------------------ stacks
def stack(rng, name, cfg):
    depth = rng.choice([2, 3, 3, 4, 5, 6] * 2 + [11])
    prev = ErrTy("Dev<0>", "Dev::<0>::new(true, false, false)")
    prevpath = "Dev<0>"
    mods, specs, casts, decls = [], [], [], []
    for k in range(depth):
        tname = f"{name}L{k}"
        used = set()
        vs = []
        forms = []
        base = ErrTy(prevpath, "unused()")
        is_struct = rng.random() < 0.25
        nforms = 1 if is_struct else rng.choice([2, 3, 4, 5])
        for i in range(nforms):
            vn = f"V{i}"
            r = rng.random()
            if r < 0.3:
                v = transparent_variant(rng, tname if is_struct else vn, base, cfg, used)
                kind = "K_TRANSPARENT"
            else:
                v = error_variant(rng, tname if is_struct else vn, is_struct, base, cfg, used, "", tname)
                kind = "K_PLAIN"
            vs.append(v)
            forms.append(kind)
        if not is_struct and rng.random() < 0.7:
            v = sourceless_variant(rng, "Timeout", cfg)
            vs.append(v)
            forms.append("K_NOSOURCE")
        t = Type(tname, is_struct, vs)
        absorb(t)
        # constructors: how a previous-layer error becomes this layer's
        for v in vs:
            for f in v.fields:
                if f.role == "source":
                    f.smake = {"E": "e"}
        fns, table = [], []
        for i, v in enumerate(vs):
            q = tname if is_struct else f"{tname}::{v.name}"
            site = f"layer_{tname}_{i}_conv"
            if forms[i] == "K_NOSOURCE":
                fns.append(f"#[inline(never)] pub fn {site}(e: {prevpath}) -> This {{ drop(e); {v.construct(q)} }}")
                table.append(f'LayerConv {{ label: "replace by {q}", kind: K_NOSOURCE, expect: "{q}", own_bt: false, custom_bt: false, apply: apply_{i}, site: "{site}", fork: None }}')
            else:
                sf = next(f for f in v.fields if f.role == "source")
                wrap = wrap_expr(sf.ty, prevpath)
                conv = v.conv
                fork = "None"
                if conv:
                    inner = wrap_expr(conv["ty"], prevpath)
                    fns.append(f"#[inline(never)] pub fn {site}(e: {prevpath}) -> This {{ fn go(e: {prevpath}) -> Result<(), This> {{ let s: {conv['ty']} = {inner}; Err(s)? }} let r = go(e).unwrap_err(); std::hint::black_box(&r); r }}")
                else:
                    parts = []
                    for f in v.fields:
                        m = wrap if f.role == "source" else f.make
                        parts.append(f"{f.member}: {m}" if f.named else m)
                    body = f"{q} {{ " + ", ".join(parts) + " }" if v.style == "named" else f"{q}(" + ", ".join(parts) + ")"
                    fns.append(f"#[inline(never)] pub fn {site}(e: {prevpath}) -> This {{ let r = {body}; std::hint::black_box(&r); r }}")
                if sf.ty == f"std::sync::Arc<{prevpath}>":
                    def mk(var):
                        if conv:
                            return f"This::from({var})"
                        parts = []
                        for f in v.fields:
                            m = var if f.role == "source" else f.make
                            parts.append(f"{f.member}: {m}" if f.named else m)
                        return f"{q} {{ " + ", ".join(parts) + " }" if v.style == "named" else f"{q}(" + ", ".join(parts) + ")"
                    fns.append(f"fn fork_{i}(e: Box<dyn std::any::Any>) -> [Box<dyn std::any::Any>; 2] {{ let a = std::sync::Arc::new(*e.downcast::<{prevpath}>().expect(\"layer\")); let b = a.clone(); [Box::new({mk('a')}), Box::new({mk('b')})] }}")
                    fork = f"Some(fork_{i})"
                own = "true" if conv and conv["own"] else "false"
                cust = "true" if conv and conv["custom"] else "false"
                table.append(f'LayerConv {{ label: "{"?" if conv else "wrap"} into {q}", kind: {forms[i]}, expect: "{q}", own_bt: {own}, custom_bt: {cust}, apply: apply_{i}, site: "{site}", fork: {fork} }}')
            fns.append(f"fn apply_{i}(e: Box<dyn std::any::Any>) -> Box<dyn std::any::Any> {{ Box::new({site}(*e.downcast::<{prevpath}>().expect(\"layer\"))) }}")
        extra = "\n".join(fns) + f"""
pub static LAYER_CONVS: &[LayerConv] = &[{", ".join(table)}];
pub fn view(e: &dyn std::any::Any) -> &dyn Obj {{ e.downcast_ref::<This>().expect("layer") }}
pub static CONVS: &[Conv] = &[];
"""
        # values of layers are only made by conversions
        t.dress(cfg.key)
        t.flags.add("F_NODYN")
        mods.append(t.emit(rng, extra).replace("make: || Box::new(mk())", "make: || unreachable!()").replace(_mk_fn(t), ""))
        decls.append(t.text)
        specs.append(f'LayerSpec {{ name: "{tname}", convs: {tname.lower()}::LAYER_CONVS, view: {tname.lower()}::view }}')
        casts.append(f"cast_as::<{tname.lower()}::This>(e)")
        prevpath = f"{tname.lower()}::{tname}"
        if not cfg.std:
            pass
        prev = ErrTy(prevpath, "unused()")
        base_sync = t.sync
        if not base_sync:
            break
    cast = "|e| " + ".or_else(|| ".join(casts) + ")" * (len(casts) - 1)
    hashes = "###"
    src = "\n".join(mods)
    src += f"""
pub static {name}: StackSpec = StackSpec {{ name: "{name}", layers: &[{", ".join(specs)}], cast: {cast}, decl: r{hashes}"{chr(10).join(decls)}"{hashes} }};
"""
    return src


def _mk_fn(t):
    this = t.name + t.inst
    n = len(t.variants)
    mk = ["#[allow(clippy::all)]", f"pub fn mk() -> {this} {{", "    nested(|| match " + (f'choose("variant", {n})' if n > 1 else "0u32") + " {"]
    for i, x in enumerate(t.variants):
        label = str(i) if i < n - 1 else "_"
        mk.append(f"        {label} => {x.construct(t.name if t.is_struct else t.name + '::' + x.name)},")
    mk += ["    })", "}"]
    return "\n".join(mk)


def wrap_expr(ty, prev):
    """Expression of type `ty` from `e: prev`."""
    for o in ("::core::option::Option<", "std::option::Option<", "Option<"):
        if ty.startswith(o):
            return f"Some({wrap_expr(ty[len(o):-1], prev)})"
    if ty == prev:
        return "e"
    if ty.startswith("Box<"):
        return "Box::new(e)"
    if ty.startswith("std::sync::Arc<"):
        return "std::sync::Arc::new(e)"
    if ty == "AnyErr":
        return "AnyErr(Box::new(e))"
    raise ValueError(ty)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, required=True)
    ap.add_argument("--shard", type=int, required=True)
    ap.add_argument("--size", type=int, default=60)
    ap.add_argument("--variant", default="std")
    ap.add_argument("--out", required=True)
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--skip", default="")
    a = ap.parse_args()
    skip = set(x for x in a.skip.split(",") if x)

    class Cfg:
        std = a.variant != "nostd"
        key = f"{a.seed}:{a.shard}:{a.variant}"

    cfg = Cfg()
    rng = random.Random(f"world1:{a.seed}:{a.shard}:{a.variant}")
    n = a.size
    mods, entries = [], []
    pool = []

    def add(t, convs=None):
        if t.name in skip:
            return
        t.dress(cfg.key)
        mods.append((t.name, t.emit(rng, convs if convs is not None else "pub static CONVS: &[Conv] = &[];")))
        entries.append(f"{t.mod()}::ENTRY")

    for i in range(n):
        t = display_type(random.Random(rng.random()), f"D{i}", cfg)
        add(t)
        if t.name in skip:
            continue
        if not t.flags & {"F_ADDR", "F_LEAKS"} and not t.generics and random.Random(i).random() < 0.3:
            pool.append(ErrTy(f"{t.mod()}::{t.name}", f"{t.mod()}::mk()", sync=t.sync, nest="F_NEST" in t.flags))
    for i in range(n):
        t = error_type(random.Random(rng.random()), f"G{i}", cfg, pool)
        cs = conv_src(t)
        add(t, cs)
        if t.name in skip:
            continue
        if not t.flags & {"F_ADDR", "F_LEAKS"} and not t.generics:
            pool.append(ErrTy(f"{t.mod()}::{t.name}", f"{t.mod()}::mk()", sync=t.sync))
    for i in range(n // 2):
        t = transparent_type(random.Random(rng.random()), f"X{i}", cfg, pool)
        cs = conv_src(t)
        add(t, cs)
        if t.name in skip:
            continue
        if not t.flags & {"F_ADDR", "F_LEAKS"} and not t.generics:
            pool.append(ErrTy(f"{t.mod()}::{t.name}", f"{t.mod()}::mk()", sync=t.sync))
    for i in range(2 if n > 40 else 1):
        t = giant_type(random.Random(rng.random()), f"B{i}", cfg)
        add(t, conv_src(t))
    for i in range(max(2, n // 12)):
        t = link_type(random.Random(rng.random()), f"K{i}", cfg, ["on_source", "both", "implicit"] if i == 0 else BT_KINDS)
        add(t, conv_src(t))
    stacks = []
    for i in range(max(1, n // 8)):
        s = f"S{i}"
        src = stack(random.Random(rng.random()), s, cfg)
        if s in skip:
            continue
        mods.append((s, src))
        stacks.append(s)

    os.makedirs(os.path.join(a.out, "src"), exist_ok=True)
    feat = "" if cfg.std else ", default-features = false"
    dep = '\nsynfull = { path = "%s" }' % os.path.join(HERE, "..", "crates", "synfull") if a.variant == "synfull" else ""
    write(os.path.join(a.out, "Cargo.toml"), f"""[package]
name = "world"
version = "0.0.0"
edition = "2021"
publish = false

[dependencies]
rt = {{ path = "{os.path.join(HERE, '..', 'crates', 'rt')}" }}
simcore = {{ path = "{os.path.join(HERE, '..', 'crates', 'simcore')}" }}
thiserror = {{ path = "{a.repo}"{feat} }}{dep}

[profile.dev]
opt-level = 0
debug = "line-tables-only"
panic = "unwind"

[profile.dev.package.simcore]
opt-level = 2
[profile.dev.package.rt]
opt-level = 1

[workspace]
""")
    # group modules into files of the crate root by inclusion order
    body = ["#![feature(error_generic_member_access, try_blocks)]", "#![allow(unused, clippy::all)]", "#![recursion_limit = \"256\"]",
            "use rt::*;", "use thiserror::Error;", "use std::backtrace::Backtrace;", HELPERS]
    if a.variant == "synfull":
        body.append("#[allow(unused_imports)] use synfull as _;")
    body.append(KNOWN % (KNOWN_BT if cfg.std else ("", "")))
    for name, src in mods:
        body.append(src)
    body.append("pub static ENTRIES: &[Entry] = &[" + ", ".join(f"{e_mod(e)}" for e in entries) + "];" if False else "")
    body.append(f"""
fn main() {{
    let entries: Vec<Entry> = vec![{", ".join("rt::entry_copy(&" + e + ")" for e in entries)}];
    let stacks: Vec<StackSpec> = vec![{", ".join("rt::stack_copy(&" + s + ")" for s in stacks)}];
    let world: &'static World = Box::leak(Box::new(World {{ entries: Box::leak(entries.into_boxed_slice()), stacks: Box::leak(stacks.into_boxed_slice()), std: {str(cfg.std).lower()}, known: known::KNOWN }}));
    rt::main(world)
}}
""")
    write(os.path.join(a.out, "src", "main.rs"), "\n".join(body))


def write(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


if __name__ == "__main__":
    main()
