#!/usr/bin/env python3
"""Items for the expansion simulator: seeded free-form error declarations, valid
and invalid, together with those of the repository's own tests (repo_items.txt).
They are expanded, never compiled."""
import argparse
import os
import random

HERE = os.path.dirname(os.path.abspath(__file__))
SPECS = ["", ":?", ":#?", ":x", ":X", ":#x", ":o", ":b", ":e", ":E", ":p", ":>8", ":<5?", ":^#10x", ":08.3", ":+", ":02x?", ":é^7", ":-^+#012.3e", ":#X?", ":p$", ":w$.p$", ":.p$?", ":1$", ":>0$.1$"]
NAMES = ["name", "path", "code", "r#type", "inner", "source_id", "value", "v", "kind", "limit", "r#fn", "_under", "cause", "größe", "名前", "r#try", "f", "w", "p"]
PLAIN = ["String", "&'static str", "u8", "i64", "usize", "PathBuf", "std::path::PathBuf", "&'static std::path::Path", "Option<u32>", "[u8; 4]", "(u8, char)", "fn() -> u8", "Box<Self>", "*const u8", "for<'x> fn(&'x str) -> &'x str", "impls![u8]", "Box<dyn Fn(u8) -> Result<u8, ()> + Send>",
         "<Vec<u8> as IntoIterator>::Item", "dyn_box::Dyn<{ 1 + 2 }>", "Cow<'static, [u8]>", "core::num::NonZeroU8", "!"]
OTHER = ["#[serde(skip)] ", "#[from(skip)] ", "#[from = \"x\"] ", "#[from(forward, x)] ", "#[cfg(any())] ", "#[doc = \"d\"] ", "#[allow(unused)] "]
HEADS = ["#[derive(Clone, Copy)]\n", "#[repr(u8)]\n", "#[repr(C, align(8))]\n", "#[from(forward)]\n", "#[display(\"{0}\")]\n", "#[must_use = \"x\"]\n", "#[cfg(feature = \"y\")]\n", "#[deprecated(since = \"1\", note = \"n\")]\n", "#[path::to::attr{ a b }]\n"]
EXPRS = [".{f}.len()", "{f:expr}", ".{f} + 1", "crate::helper(.{f}, 3)", "if .{f}.is_empty() {{ \"a\" }} else {{ \"b\" }}", "&.{f}[..2]", "|x: u8| x", ".{f}.iter().map(|e| e + 1).sum::<u8>()",
         "format!(\"<{{}}>\", .{f})", "vec![1, 2]", "match .{f} {{ Some(n) => n, None => 0 }}", "<u8 as Into<u16>>::into(.{f})", "{{ let q = .{f}; q }}", "-.{f} as u8", "\"lit\"", "Self::NAME", "MAX - 1", "&[.{f}, .{f}]", ".{f}.0.1", "1.0 + .{f}", "0..=.{f}", "HashMap::<u8, Vec<u8>>::new().len()", "move || .{f}", "a < b, c > d", "*.{f} as *const _", "loop {{ break .{f}; }}",
         "|a, b| a + b", "unsafe {{ go(.{f}) }}", "stringify!(.{f}, {{ }} x = 3)", "S {{ x: .{f}, ..D }}", "!.{f}", ".{f}?", "'\\''", "b\"x\"", "&mut *.{f}", "x.await.{f}", "if let Some(q) = .{f} {{ q }} else {{ 0 }}", "[.{f}; 3][0]", ".{f}[.{f}.len()..]", "x == .{f}", "a = b = c", "\"{{nested}}\".len()"]


class Gen:
    def __init__(self, rng, idx):
        self.r, self.idx, self.life = rng, idx, False

    def types(self, params):
        r = self.r
        if self.life and r.random() < 0.3:
            p = r.choice(params) if params else "u8"
            return r.choice(["&'a str", "&'a Path", f"Cow<'a, {p}>", f"&'a {p}", f"Box<dyn Error + 'a>", f"Wrap<'a, {p}>", f"&'a mut [{p}]"])
        if params and r.random() < 0.65:
            p = r.choice(params)
            return r.choice([p, p, p, f"Vec<{p}>", f"Option<{p}>", f"Box<{p}>", f"&'static {p}", f"[{p}; 2]", f"({p}, u8)", f"{p}::Assoc", f"<{p} as Trait>::Out", f"std::sync::Arc<{p}>", f"HashMap<{p}, {r.choice(params)}>", f"PhantomData<{p}>"])
        return r.choice(PLAIN)

    def common(self, fields):
        """One text in several items, each time meaning something else: with the
        fields there are, with named arguments of the same names, or without."""
        r = self.r
        text = r.choice(["{0} of {1}", "{path}: {code}", "{name}", "{value:?} {value}", "{__display_name} {name}", "{__display0} {0}", "{kind:p}/{kind:x}"])
        args = [f"{n} = {r.choice(['1', 'LIMIT', '.' + r.choice(fields) if fields else '2'])}" for n in ("path", "code", "name", "value", "__display_name", "__display0", "kind") if "{" + n in text and r.random() < 0.35]
        return f"#[error(\"{text}\"" + "".join(", " + a for a in args) + ")]"

    def message(self, fields, named):
        r = self.r
        if r.random() < 0.12:
            return self.common(fields)
        parts, args, used = [], [], 0
        nargs = 0
        style = r.choice([0.0, 2.0]) if not named and r.random() < 0.93 else 0.55
        for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6, 9])):
            spec = r.choice(SPECS) if r.random() < 0.6 else ""
            k = r.random()
            if k < style and fields:
                f = r.choice(fields)
                n = f[2:] if f.startswith("r#") else f
                w = r.random() if style < 2 else 1
                if w < 0.08 and named:
                    spec = ":>" + r.choice(fields).replace("r#", "") + "$"
                elif w < 0.12:
                    spec = ":.*"
                    args.append("3")
                    args.append("." + f)
                    n = ""
                parts.append("{" + n + spec + "}")
            elif k < 0.75 and style < 2:
                f = r.choice(fields) if fields else "0"
                e = r.choice(EXPRS).replace("{f:expr}", f).replace("{f}", f).replace("{{", "{").replace("}}", "}")
                v = r.choice(fields).replace("r#", "") if fields else "0"
                taken = r.choice(["__display", "__field", "__pointer", "___display", "___field"]) + ("" if v.isdigit() else "_") + v
                n = taken if r.random() < 0.12 else f"a{nargs}" if r.random() < 0.55 else (r.choice(fields).replace("r#", "") if named and r.random() < 0.3 and fields else "")
                nargs += 1
                if n:
                    args.append(f"{n} = {e}")
                    parts.append("{" + n + spec + "}")
                else:
                    args.insert(0, e)
                    parts.append("{" + spec + "}")
            else:
                parts.append(r.choice(["{{", "}}", "text ", "é", "\\n", ": ", "0", "\\\"", "{{}}"]))
            parts.append(r.choice(["", " ", "-", "/", "x"]))
        text = "".join(parts) or "plain"
        lit = f"\"{text}\"" if r.random() < 0.9 else (f"r#\"{text}\"#" if "\\" not in text else f"\"{text}\"")
        tail = "".join(", " + a for a in args) + ("," if r.random() < 0.1 else "")
        return f"#[error({lit}{tail})]"

    def fields(self, params, lo=0, hi=6):
        r = self.r
        named = r.random() < 0.6
        n = r.randint(lo, hi)
        out, names = [], []
        role = r.random()
        strict = r.random() < 0.9
        pool = NAMES[:]
        r.shuffle(pool)
        for i in range(n):
            ty, attr = self.types(params), ""
            name = pool[i] if named else str(i)
            if i == 0 and role < 0.55:
                k = r.choice(["source", "from", "named", "opt", "box", "arc", "fromopt"])
                ty = {"source": self.types(params), "from": self.types(params), "named": self.types(params), "opt": "Option<io::Error>", "box": "Box<dyn std::error::Error + Send + Sync>",
                      "arc": "Arc<dyn Error>", "fromopt": "Option<" + (r.choice(params) if params else "u8") + ">"}[k]
                if r.random() < 0.12:
                    ty = r.choice(["Box<Self>", "Box<Error>", "&'static dyn Error", "&'static (dyn Error + Send)", "std::option::Option<io::Error>", "core::option::Option<Box<dyn Error>>", "Option<&'static dyn Error>", "Box<dyn std::error::Error>", "anyhow::Error", "io::Error"])
                if k in ("source", "opt", "box", "arc"):
                    attr = "#[source] "
                elif k in ("from", "fromopt"):
                    attr = "#[from] "
                    if strict:
                        n = 2 if role < 0.3 else 1
                if named and k == "named":
                    name = "source"
            elif i == 1 and role < 0.3:
                ty = r.choice(["Backtrace", "std::backtrace::Backtrace", "Option<Backtrace>", "Arc<Backtrace>"])
                attr = r.choice(["", "#[backtrace] "])
                if named:
                    name = r.choice(["backtrace", "bt"])
            names.append(name)
            if i >= n:
                break
            vis = r.choice(["", "", "pub ", "pub(crate) ", "pub(in crate::x) "])
            if r.random() < 0.08:
                attr = r.choice([attr + r.choice(OTHER), r.choice(OTHER) + attr])
            out.append(f"{attr}{vis if self.struct else ''}{name + ': ' if named else ''}{ty}")
        return named, names, out

    def body(self, fs):
        named, names, out = fs
        if not out:
            return self.r.choice(["", "", " {}", "()"]), False
        if named:
            return " { " + ", ".join(out) + (", " if self.r.random() < 0.5 else "") + " }", False
        return "(" + ", ".join(out) + ")", True

    def generics(self):
        r = self.r
        k = r.choice([0, 0, 1, 2, 3, 4, 6])
        ps = [f"{c}{r.randint(0, 3)}" if r.random() < .3 else c for c in r.sample("TUVWXYZABC", k)]
        self.life = False
        if not ps and r.random() < 0.7:
            return "", [], ""
        decl = []
        self.life = r.random() < 0.2
        if self.life:
            decl.append(r.choice(["'a", "'a", "'a: 'static", "'b, 'a: 'b"]))
        for p in ps:
            decl.append(p + (": " + r.choice(["Debug", "Trait", "Clone + 'static", "Iterator<Item = u8>", "?Sized"]) if r.random() < 0.3 else "") + (" = u8" if r.random() < .07 else ""))
        if r.random() < 0.12:
            decl.append(r.choice(["const N: usize", "const N: bool = true", "const N: char = 'x'"]))
        where = ""
        if ps and r.random() < 0.25:
            where = " where " + ", ".join(f"{r.choice(ps + ['Self', 'Vec<' + ps[0] + '>', 'String'])}: {r.choice(['Trait', 'Display', 'Send', 'for<' + chr(39) + 'x> Fn(&' + chr(39) + 'x u8)', 'Debug + Clone', ''])}" for _ in range(r.randint(1, 3)))
            if r.random() < 0.2:
                where += ","
        return "<" + ", ".join(decl) + ">" if decl else "", ps, where

    def item(self):
        r = self.r
        name = r.choice(["Error", "Fault", "Kind", "Oops", f"E{self.idx}", "r#type", "Größe", "core", "Self_", "Option", "Backtrace", "__display0", "T"])
        g, ps, where = self.generics()
        docs = r.choice(["", "", "/// doc\n", "#[allow(dead_code)]\n", "#[non_exhaustive]\n", "#[cfg_attr(x, y)]\n"])
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            docs += r.choice(HEADS)
        vis = r.choice(["pub ", "", "pub(crate) ", "pub(super) "])
        bad = r.random() < 0.27
        if r.random() < 0.45:
            self.struct = True
            k = r.random()
            fs = self.fields(ps) if k < 0.85 or r.random() < 0.2 else self.fields(ps, 1, 1)
            b, tuple_ = self.body(fs)
            attr = self.message(fs[1], fs[0]) if k < 0.85 else ("#[error(transparent)]" if k < 0.98 else "#[error(fmt = crate::show)]")
            if bad:
                attr = self.spoil(attr)
            semi = ";" if tuple_ or not b.endswith("}") else ""
            if semi:
                return f"{docs}{attr}\n{vis}struct {name}{g}{b}{where};"
            return f"{docs}{attr}\n{vis}struct {name}{g}{where}{b}"
        self.struct = False
        head = ""
        if r.random() < 0.12:
            head = r.choice(["#[error(\"outer {0}\")]\n", "#[error(transparent)]\n", "#[error(fmt = crate::show_all)]\n", "#[error(\"{field} {}\", .field)]\n"])
        vs = []
        for i in range(r.choice([0, 1, 2, 2, 3, 4, 5, 8])):
            k = r.random()
            fs = self.fields(ps, 0, 4) if not 0.8 <= k < 0.93 or r.random() < 0.2 else self.fields(ps, 1, 1)
            b, _ = self.body(fs)
            attr = self.message(fs[1], fs[0]) if k < 0.8 else ("#[error(transparent)]" if k < 0.93 else "#[error(fmt = crate::show)]")
            if head and r.random() < 0.6:
                attr = ""
            if bad and r.random() < 0.4:
                attr = self.spoil(attr)
            vn = r.choice([f"V{i}", f"V{i}", f"V{i}", f"r#v{i}", f"Ünit{i}", ["Error", "Ok", "Some", "None", "Err", "Io", "Source", "Display"][i % 8]])
            dress = r.choice(OTHER + HEADS).strip() + "\n    " if r.random() < 0.06 else ""
            vs.append(f"    {attr}\n    {dress}{vn}{b}" + (f" = {r.choice([i, -1, '1 << 3'])}" if r.random() < 0.05 else "") + ",")
        return f"{docs}{head}{vis}enum {name}{g}{where} {{\n" + "\n".join(vs) + "\n}"

    def scratch(self, attr):
        """The message itself damaged: cut short, a brace or a digit too many or missing."""
        r = self.r
        a, b = attr.find('"'), attr.rfind('"')
        b = attr.find('"', a + 1) if a >= 0 else b
        if a < 0 or b <= a or "\\" in attr:
            return attr
        t = attr[a + 1:b]
        for _ in range(r.choice([1, 1, 2])):
            k = r.randint(0, len(t))
            t = r.choice([t[:k], t[:k] + t[k + 1:], t[:k] + r.choice(["{", "}", "{0", "{name", "{0:", "{r#fn}", "{_}", ":", "?", "#", "{0}"]) + t[k:], t + r.choice([" {", " {0", "{name", "}", " {0:?", "{1"])])
        return attr[:a + 1] + t + attr[b:]

    def spoil(self, attr):
        r = self.r
        if r.random() < 0.4:
            return self.scratch(attr)
        return r.choice(["", attr + " " + attr, attr + " #[error(transparent)]", "#[error]", "#[error = \"x\"]", "#[error()]", "#[error(transparent, \"x\")]", "#[error(\"{missing}\")]", "#[error(\"{9}\")]",
                         "#[error(\"{\")]", "#[error(\"{0\", .0 .)]", "#[error(\"{}\", )]", "#[error(\"{}\", .)]", "#[error(\"{x}\", x = )]", "#[error(concat!(\"a\", \"b\"))]", "#[error(unknown)]", "#[from] " + attr, "#[source] " + attr, "#[backtrace] " + attr, "#[error(fmt)]", "#[error(fmt = )]", attr + " #[error(skip)]", attr + " #[source(ignore)]", "#[backtrace(never)] " + attr])


def corpus(seed, n):
    rng = random.Random(f"items/{seed}")
    repo = [x.strip() for x in open(os.path.join(HERE, "repo_items.txt")).read().split("%%%%")]
    out = [("X%d" % i, Gen(rng, i).item()) for i in range(n)]
    out += [("R%d" % i, x) for i, x in enumerate(repo)]
    out += [("U0", "pub union U { a: u8, b: u16 }"), ("U1", "#[error(\"x\")] pub struct S where;")]
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, required=True)
    ap.add_argument("--count", type=int, default=300)
    ap.add_argument("--out", required=True)
    a = ap.parse_args()
    with open(a.out, "w", encoding="utf-8") as f:
        for name, text in corpus(a.seed, a.count):
            f.write(f"%%%% {name}\n{text}\n")


if __name__ == "__main__":
    main()
