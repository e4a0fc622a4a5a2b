"""C21: users who write Drop or Unpin themselves for an enum with pinned traits.

Every program exists twice: without the user's implementation (it has to build and, pinned and polled in the simulator,
to stay where it is) and with it (it must not build; where it does, it is run and moves the pinned value)."""
import os, random, re
from simlib import HARNESS

#: trait, what has to be listed with it -> operation
PINNED = {
    "C21": {"Future": ([], "future"), "futures03::Stream": ([], "stream"), "futures03::Sink": ([], "sink"), "futures03::AsyncRead": ([], "fread"),
            "futures03::AsyncBufRead": (["futures03::AsyncRead"], "fbuf"), "futures03::AsyncWrite": ([], "fwrite"), "futures03::AsyncSeek": ([], "fseek"),
            "tokio1::AsyncRead": ([], "tread"), "tokio1::AsyncBufRead": (["tokio1::AsyncRead"], "tbuf"), "tokio1::AsyncWrite": ([], "twrite"),
            "tokio1::AsyncSeek": ([], "tseek"), "http_body1::Body": ([], "body"), "Coroutine": ([], "cor")},
    "C21b": {f"tokio02::Async{t}": (["tokio02::AsyncRead"] if t == "BufRead" else [], op) for t, op in (("Read", "tread"), ("BufRead", "tbuf"), ("Write", "twrite"), ("Seek", "tseek"))},
    "C21c": {f"tokio03::Async{t}": (["tokio03::AsyncRead"] if t == "BufRead" else [], op) for t, op in (("Read", "tread"), ("BufRead", "tbuf"), ("Write", "twrite"), ("Seek", "tseek"))},
}
OTHER = {"C21": ["Iterator", "Deref", "Display", "Debug", "fmt::Write", "AsRef", "Read", "Write", "io::Seek", "Extend", "FnOnce", "Error", "serde::Serialize", "rayon::ParallelIterator", "RangeBounds",
                 "transpose", "Clone", "PartialEq", "Hash"],
         "C21b": ["Iterator", "Display", "Debug", "Clone", "PartialEq", "Read"], "C21c": ["Iterator", "Display", "Debug", "Clone", "Hash", "Write"]}
CRATE = {"C21": ("main", "c05"), "C21b": ("tokio02", "c05_tokio02"), "C21c": ("tokio03", "c05_tokio03")}


def program(prop, r):
    used = {}

    def use(f):
        used[f] = used.get(f, 0) + 1
    pinned = PINNED[prop]
    k = list(pinned)
    ks = r.sample(k, min(len(k), r.choice([1, 1, 1, 2, 2, 3, 5])))
    ops = [pinned[t][1] for t in ks]
    ks = list(dict.fromkeys(ks + [d for t in ks for d in pinned[t][0]]))
    # parameters and fields
    shape = r.choice(["generic", "generic", "concrete", "mixed", "mixed", "mixed"])
    life, konst, mark = (shape == "mixed" and r.random() < p for p in (0.4, 0.3, 0.3))
    nt = {"generic": r.choice([1, 2, 2, 3]), "concrete": 0, "mixed": r.choice([0, 1, 1, 2])}[shape]
    if shape == "mixed" and not (life or konst or mark or nt):
        nt = 1
    types = ["A", "B", "C"][:nt]
    fields = list(types)
    if life:
        fields.append(f"DevL<'a, {r.choice(['PP', '()', 'PP', 'P'] if mark else ['PP', '()'])}>")
    if konst:
        fields.append(f"DevN<N, {r.choice(['PP', '()'])}>")
    if mark and not any("P>" in f.replace("PP", "") for f in fields):
        fields.append("Dev<P>")
    while len(fields) < 2 or (shape != "generic" and len(fields) < 4 and r.random() < 0.4):
        fields.append(r.choice(["Dev<PP>", "Dev<PP>", "Dev<()>", "DevN<2, PP>", "DevL<'static, ()>", "std::pin::Pin<Box<Dev<PP>>>"]) if shape != "generic" else r.choice(types))
    # types that differ in a lifetime alone are ambiguous in where clauses
    seen = set()
    fields = [f for f in fields if not (f.startswith("DevL") and "DevL" in seen) and (not f.startswith("DevL") or not seen.add("DevL"))]
    if len(fields) < 2:
        fields.append("Dev<PP>")
    r.shuffle(fields)
    if any(t.endswith(("Future", "Stream", "Sink", "Body", "Coroutine")) for t in ks):
        # the types of a parameter follow those of the first field
        fields = [f if not f.startswith("std::pin") or not types else "Dev<PP>" for f in fields]
        fields.sort(key=lambda f: (f in types, "P>" in f.replace("PP", ""), f.startswith("std::pin")))
    bound = {t: r.choice(["", "", "", ": Sized", ": Send"]) for t in types}
    wh = r.choice(["", "", "where " + ", ".join(f"{t}: Sized" for t in types) + " "]) if types else ""
    params = (["'a"] if life else []) + [t + bound[t] for t in types] + (["P: Mark" + (" + 'a" if life else "")] if mark else []) + (["const N: usize"] if konst else [])
    args = (["'a"] if life else []) + types + (["P"] if mark else []) + (["N"] if konst else [])
    g = lambda l: "<" + ", ".join(l) + ">" if l else ""
    if shape == "generic":
        for t in r.sample(OTHER[prop], r.choice([0, 0, 1, 2, 4])):
            if t not in ("transpose",) and not (t == "FnOnce" and False):
                ks.append(t)
    r.shuffle(ks)
    names = [f"V{i}" for i in range(len(fields))]
    r.shuffle(names)
    attr = f"#[auto_enums::enum_derive({', '.join(ks)})]"
    decl = f"pub enum E{g(params)} {wh}{{ " + ", ".join(f"{n}({f})" for n, f in zip(names, fields)) + " }"
    # one instance
    sub = {t: r.choice(["Dev<PP>", "Dev<()>"]) for t in types}
    if mark:
        sub["P"] = r.choice(["PP", "()"])

    def inst(f, lt="'static"):
        f = re.sub(r"\b(" + "|".join(sub) + r")\b", lambda m: sub[m.group(1)], f) if sub else f
        return re.sub(r"\bN\b", "1", f).replace("'a", lt)
    fi = [inst(f) for f in fields]
    sticky = any("PP" in f and not f.startswith("std::pin") for f in fi)
    v = r.randrange(len(fi))

    def mk(f):
        if f.startswith("std::pin"):
            return "Box::pin(Dev::<PP>::mk())"
        t, rest = f.split("<", 1)
        a = [x.strip() for x in rest[:-1].split(",")]
        return {"Dev": f"Dev::<{a[0]}>::mk()", "DevL": f"DevL::<{a[-1]}>::mk(&())", "DevN": f"DevN::<{a[0]}, {a[-1]}>::mk()"}[t]
    ty = "E" + g([inst(a) for a in args])
    turbo = ty.replace("E<", "E::<")
    exp = "false" if sticky else "true"
    run = (f"fn op<T: {' + '.join(BOUND[o] for o in dict.fromkeys(ops))}>(t: Pin<&mut T>) {{ match choose({len(ops)}) {{ "
           + " ".join(f"{i if i < len(ops) - 1 else '_'} => op_{o}(t)," for i, o in enumerate(ops)) + " } }\n"
           f"pub fn run() {{ let x = {mk(fi[v])}; if is_ref() {{ relocate(x, {exp}, |t| op(t)); }} else {{ let e = {turbo}::{names[v]}(x); let unpin = probe_of(&e).is_unpin(); "
           f"if unpin != {exp} {{ violate(\"wrong-unpin\", format!(\"{{}}: Unpin is {{unpin}}\", std::any::type_name_of_val(&e))); }} relocate(e, unpin, |t| op(t)); }} }}")
    use("shape: " + shape)
    for t in ks:
        use("trait: " + t)
    # the user's own implementation
    kind = r.choice(["drop", "drop", "unpin", "unpin", "unpin instance", "unpin bounded"])
    if kind == "unpin instance" and not args:
        kind = "unpin"
    if kind == "unpin bounded" and not types:
        kind = "unpin"
    use("the user's " + kind)
    place = r.choice(["here", "here", "const", "mod", "fn", "macro"])
    use("written in: " + place)
    E = "super::E" if place == "mod" else "E"
    un = r.choice(["Unpin", "std::marker::Unpin", "::core::marker::Unpin"])
    if kind == "drop":
        # with safe code alone, the field can be moved out
        arms = "".join(f"{E}::{n}(x) => drop(std::mem::replace(x, {mk(f)})), " for n, f in zip(names, fields) if f in ("Dev<PP>", "Dev<()>", "DevN<2, PP>"))
        h = f"impl{g(params)} {r.choice(['Drop', '::core::ops::Drop'])} for {E}{g(args)} {wh}{{ fn drop(&mut self) {{ ev!(\"the user's drop\"); match self {{ {arms}_ => {{}} }} }} }}"
    elif kind == "unpin":
        h = f"impl{g(params)} {un} for {E}{g(args)} {wh}{{}}"
    elif kind == "unpin instance":
        h = f"impl {un} for {E}{g([inst(a, chr(39) + '_') for a in args])} {{}}"
    else:
        h = f"impl{g(params)} {un} for {E}{g(args)} where {r.choice(types)}: {r.choice(['Send', 'Copy', 'Clone + Send', 'Sized'])} {{}}"
    if place == "const":
        h = f"const _: () = {{ {h} }};"
    elif place == "mod":
        h = f"mod m {{ use super::*; {h} }}"
    elif place == "fn":
        h = f"fn never_called() {{ {h} }}"
    elif place == "macro":
        h = f"macro_rules! my {{ ($($t:tt)*) => {{ $($t)* }} }} my! {{ {h} }}"
    return attr, decl, run, h, used


BOUND = {"future": "Future<Output = u8>", "stream": "futures::Stream<Item = u8>", "sink": "futures::Sink<u8, Error = ()>", "fread": "futures::io::AsyncRead", "fbuf": "futures::io::AsyncBufRead",
         "fwrite": "futures::io::AsyncWrite", "fseek": "futures::io::AsyncSeek", "tread": "tokio::io::AsyncRead", "tbuf": "tokio::io::AsyncBufRead", "twrite": "tokio::io::AsyncWrite",
         "tseek": "tokio::io::AsyncSeek", "body": "http_body::Body", "cor": "std::ops::Coroutine<u8, Yield = u8, Return = u8>"}


def make(prop):
    crate, b = CRATE[prop]

    class gen:
        hostile_impls = True
        template = crate

        def programs(prop_, seed, count, hostile=False):
            res = []
            for i in range(count):
                attr, decl, run, h, used = program(prop, random.Random(f"{prop}/{seed}/{i}"))
                res.append((i, f"{attr} {decl}" + (f"\n{h}" if hostile else ""), "", run, "", used, False))
            return res

        def source(progs):
            t = open(os.path.join(HARNESS, crate, "src", "bin", b + ".rs")).read()
            lines = t[:t.index("macro_rules! shapes")].replace("#![allow(clippy::all)]", "#![allow(warnings)]").replace("//!", "//").replace("coroutine_trait)", "coroutine_trait, fn_traits, unboxed_closures)").splitlines()
            lines.append("use simcore::pinning::*; use std::marker::PhantomPinned as PP;")
            where = {}
            for i, e, p, run, *_ in progs:
                lines.append(f"mod p{i} {{ use super::*;")
                for side, text in (("e", e), ("e", run)):
                    for x in text.splitlines():
                        lines.append(x)
                        where[len(lines)] = (i, side)
                lines.append("}")
            lines.append("fn main() { main_with(&[")
            lines += [f"Scenario {{ name: \"p{i}\", run: p{i}::run, weight: 1 }}," for i, *_ in progs]
            lines.append("]); }")
            return "\n".join(lines) + "\n", where
    return gen


C21, C21b, C21c = make("C21"), make("C21b"), make("C21c")
