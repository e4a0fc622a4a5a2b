"""Generator of C17 programs: enums with many traits, listed in many ways."""
import random

# key: (spellings, bound, drivers, by-value drivers, flags, implied, listed with it)
#  s: standard derive  p: pinned  g: needs generic fields
T = {
    "Clone": (["Clone", "::core::clone::Clone", "std::clone::Clone"], "Clone", ["clone"], [], "s", [], []),
    "Copy": (["Copy", "::core::marker::Copy"], "Copy", ["copy"], [], "s", [], ["Clone"]),
    "PartialEq": (["PartialEq", "core::cmp::PartialEq"], "PartialEq", ["eq"], [], "s", [], []),
    "Eq": (["Eq", "std::cmp::Eq"], "Eq", ["full_eq"], [], "s", [], ["PartialEq"]),
    "PartialOrd": (["PartialOrd", "::std::cmp::PartialOrd"], "PartialOrd", ["partial_ord"], [], "s", [], ["PartialEq"]),
    "Ord": (["Ord", "std::cmp::Ord"], "Ord", ["full_ord"], [], "s", [], ["Eq", "PartialOrd", "PartialEq"]),
    "Hash": (["Hash", "core::hash::Hash"], "Hash", ["hash"], [], "s", [], []),
    "Debug": (["Debug", "fmt::Debug"], "fmt::Debug", ["debug"], [], "", [], []),
    "Display": (["Display", "fmt::Display"], "fmt::Display", ["display"], [], "", [], []),
    "Binary": (["fmt::Binary"], "fmt::Binary", ["binary"], [], "", [], []),
    "Octal": (["fmt::Octal"], "fmt::Octal", ["octal"], [], "", [], []),
    "UpperHex": (["fmt::UpperHex"], "fmt::UpperHex", ["upper_hex"], [], "", [], []),
    "LowerHex": (["fmt::LowerHex"], "fmt::LowerHex", ["lower_hex"], [], "", [], []),
    "UpperExp": (["fmt::UpperExp"], "fmt::UpperExp", ["upper_exp"], [], "", [], []),
    "LowerExp": (["fmt::LowerExp"], "fmt::LowerExp", ["lower_exp"], [], "", [], []),
    "Pointer": (["fmt::Pointer"], "fmt::Pointer", ["pointer"], [], "", [], []),
    "FmtWrite": (["fmt::Write"], "fmt::Write", ["fmt_write"], [], "", [], []),
    "Iterator": (["Iterator"], "Iterator<Item = u32>", ["iterator", "iterator_sized"], ["iterator_end"], "", [], []),
    "DoubleEndedIterator": (["DoubleEndedIterator"], "DoubleEndedIterator<Item = u32>", ["double_ended", "double_ended_sized"], ["double_ended_end"], "", ["Iterator"], []),
    "ExactSizeIterator": (["ExactSizeIterator"], "ExactSizeIterator<Item = u32>", ["exact_size"], [], "", ["Iterator"], []),
    "FusedIterator": (["FusedIterator"], "FusedIterator<Item = u32>", ["fused"], [], "", ["Iterator"], []),
    "TrustedLen": (["TrustedLen"], "TrustedLen<Item = u32>", ["trusted"], [], "", ["Iterator"], []),
    "Extend": (["Extend"], "Extend<u32>", ["extend"], [], "g", [], []),
    "Deref": (["Deref"], "Deref<Target = u32>", ["deref"], [], "", [], []),
    "DerefMut": (["DerefMut"], "DerefMut<Target = u32>", ["deref_mut"], [], "", ["Deref"], []),
    "Index": (["Index"], "Index<usize, Output = u32>", ["index"], [], "g", [], []),
    "IndexMut": (["IndexMut"], "IndexMut<usize, Output = u32>", ["index_mut"], [], "g", ["Index"], []),
    "RangeBounds": (["RangeBounds"], "RangeBounds<u32>", ["range_bounds"], [], "g", [], []),
    "AsRef": (["AsRef"], "AsRef<u32>", ["as_ref"], [], "g", [], []),
    "AsMut": (["AsMut"], "AsMut<u32>", ["as_mut"], [], "g", [], []),
    "Fn": (["Fn"], "Fn(u32) -> u32", ["call"], [], "g", ["FnMut", "FnOnce"], []),
    "FnMut": (["FnMut"], "FnMut(u32) -> u32", ["call_mut"], [], "g", ["FnOnce"], []),
    "FnOnce": (["FnOnce"], "FnOnce(u32) -> u32", [], ["call_once"], "g", [], []),
    "Coroutine": (["Coroutine"], "Coroutine<u32, Yield = u32, Return = u32>", ["coroutine"], [], "pg", [], []),
    "Future": (["Future"], "std::future::Future<Output = u32>", ["future"], [], "p", [], []),
    "Error": (["Error", "error::Error"], "std::error::Error", ["error"], [], "", ["Display", "Debug"], []),
    "Read": (["Read", "io::Read"], "io::Read", ["read"], [], "", [], []),
    "BufRead": (["BufRead", "io::BufRead"], "io::BufRead", ["buf_read"], [], "", ["Read"], []),
    "Write": (["Write", "io::Write"], "io::Write", ["write"], [], "", [], []),
    "Seek": (["Seek", "io::Seek"], "io::Seek", ["seek"], [], "", [], []),
    "Stream": (["futures03::Stream"], "futures::Stream<Item = u32>", ["stream"], [], "p", [], []),
    "Sink": (["futures03::Sink"], "futures::Sink<u32, Error = u32>", ["sink"], [], "pg", [], []),
    "FRead": (["futures03::AsyncRead"], "futures::AsyncRead", ["f_read"], [], "p", [], []),
    "FBufRead": (["futures03::AsyncBufRead"], "futures::AsyncBufRead", ["f_buf_read"], [], "p", [], ["FRead"]),
    "FWrite": (["futures03::AsyncWrite"], "futures::AsyncWrite", ["f_write"], [], "p", [], []),
    "FSeek": (["futures03::AsyncSeek"], "futures::AsyncSeek", ["f_seek"], [], "p", [], []),
    "TRead": (["tokio1::AsyncRead"], "tokio::io::AsyncRead", ["t_read"], [], "p", [], []),
    "TBufRead": (["tokio1::AsyncBufRead"], "tokio::io::AsyncBufRead", ["t_buf_read"], [], "p", [], ["TRead"]),
    "TWrite": (["tokio1::AsyncWrite"], "tokio::io::AsyncWrite", ["t_write"], [], "p", [], []),
    "TSeek": (["tokio1::AsyncSeek"], "tokio::io::AsyncSeek", ["t_seek"], [], "p", [], []),
    "Body": (["http_body1::Body"], "http_body::Body<Data = &'static [u8], Error = u32>", ["body"], [], "p", [], []),
    "Serialize": (["serde::Serialize"], "serde::Serialize", ["serialize"], [], "", [], []),
    "ParIter": (["rayon::ParallelIterator"], "rayon::iter::ParallelIterator<Item = u32>", ["par_iter"], ["par_end"], "", [], []),
    "Indexed": (["rayon::IndexedParallelIterator"], "rayon::iter::IndexedParallelIterator<Item = u32>", ["indexed"], ["indexed_end"], "", ["ParIter"], []),
    "ParExtend": (["rayon::ParallelExtend"], "rayon::iter::ParallelExtend<u32>", ["par_extend"], [], "g", [], []),
}
KEYS = list(T)
HEAVY = [k for k in KEYS if T[k][5] or T[k][6] or len(T[k][0]) > 1]


def closure(ks):
    ks = set(ks)
    while True:
        n = ks | {d for k in ks for d in T[k][5]}
        if n == ks:
            return [k for k in KEYS if k in ks]
        ks = n


def program(r, i, keys=None):
    used = {}

    def use(f):
        used[f] = used.get(f, 0) + 1
    shape = r.choice(["generic", "generic", "generic", "bounded", "concrete", "lifetime", "anonymous", "anonymous"])
    if keys is None:
        n = r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12, 20, 60])
        pool = KEYS if r.random() < 0.5 else HEAVY
        if r.random() < 0.2:
            pool = [k for k in KEYS if "s" in T[k][4] or r.random() < 0.1]
        ks = set(r.sample(pool, min(n, len(pool))))
    else:
        ks = set(keys)
    if shape in ("concrete", "lifetime") and any("g" in T[k][4] for k in closure(ks)):
        shape = "generic"
    if shape == "anonymous" and keys is None:
        pass
    for k in list(ks):
        ks |= set(T[k][6])
    for k in list(ks):
        ks |= set(T[k][6])
    implied = [k for k in closure(ks) if k not in ks]
    # listing what is implied is allowed too
    if implied and r.random() < 0.5:
        for k in implied:
            if r.random() < 0.5:
                ks.add(k)
                use("list: implied trait listed")
    if any(k not in ks for k in implied):
        use("list: implied trait left out")
    full = closure(ks)
    order = list(ks)
    r.shuffle(order)

    def spell(k):
        s = r.choice(T[k][0])
        use("trait: " + s)
        if k in ("Error", "Display", "Debug", "Read", "BufRead", "Write", "Seek") and r.random() < 0.06:
            use("list: both spellings")
            l = list(T[k][0])
            r.shuffle(l)
            return ", ".join(l)
        return s
    # attributes: a trait's implied traits stay in its attribute, pinned traits share one
    groups = [order]
    if shape != "anonymous" and len(order) > 1 and r.random() < 0.4:
        free = [k for k in order if not T[k][5] and not T[k][6] and "p" not in T[k][4] and not any(k in closure([o]) and k != o or k in T[o][6] for o in order)]
        second = [k for k in free if r.random() < 0.5]
        if second and len(second) < len(order):
            groups = [[k for k in order if k not in second], second]
            use("list: two attributes")
    trail = r.choice(["", ","])
    attrs = []
    stds = []
    for g in groups:
        attrs.append("#[enum_derive(%s%s)]" % (", ".join(map(spell, g)), trail))
        s = [k for k in g if "s" in T[k][4]]
        stds.append("#[derive(%s)]" % ", ".join(s) if s else "")
    use("shape: " + shape)
    use("traits: %d" % len(full))
    nv = r.choice([2, 2, 3, 4])
    vs = list(range(nv))
    std = [k for k in full if "s" in T[k][4]]
    dev = [k for k in full if "s" not in T[k][4]]
    bounds = lambda ks: " + ".join(["Unpin"] + [T[k][1] for k in ks])
    e, plain = [], []
    names = [f"V{v}" for v in vs]
    r.shuffle(names)
    if shape == "anonymous":
        a = ", ".join(map(spell, order)) + trail
        arms = " ".join(f"{v if v < nv - 1 else '_'} => Omni::<{v}>::new()," for v in vs)
        b = " + ".join([T[k][1] for k in full])
        e.append(f"#[auto_enum({a})] pub fn mk(k: usize) -> impl {b} {{ match k {{ {arms} }} }}")
        gp = ", ".join("ABCD"[v] for v in vs)
        decl = "enum %s<" + gp + "> { " + ", ".join(f"{names[v]}({'ABCD'[v]})" for v in vs) + " }"
    else:
        if shape == "concrete":
            decl = "pub enum %s { " + ", ".join(f"{names[v]}(Omni<'static, {v}>)" for v in vs) + " }"
        elif shape == "lifetime":
            decl = ("pub enum %s<'a, 'b: 'a" + "".join(f", {'ABCD'[v]}: 'b" for v in vs if v % 2) + "> { "
                    + ", ".join(f"{names[v]}({'ABCD'[v] if v % 2 else ('Omni<' + chr(39) + 'ab'[v // 2] + f', {v}>')})" for v in vs) + (", Z(Omni<'b, 9>)" if nv < 3 else "") + " }")
        elif shape == "generic":
            gt, vt, ft = r.choice([("", "", ""), (",", ",", ","), ("", ",", ""), (",", "", "")])
            va = r.choice(["", "", "/// a variant\n", "#[allow(unused)] #[cfg(all())] "])
            if gt or ft:
                use("shape: trailing commas")
            wh = r.choice(["", "", " where", " where A: Sized, B: Sized,"])
            decl = "pub enum %s<" + ", ".join("ABCD"[v] for v in vs) + gt + ">" + wh + " { " + ", ".join(f"{va}{names[v]}({'ABCD'[v]}{ft})" for v in vs) + vt + " }"
        else:
            decl = ("pub enum %s<" + ", ".join("ABCD"[v] + (": Marked" if v % 2 else "") for v in vs) + ", const N: usize> where A: Marked { "
                    + ", ".join(f"/** variant */ {names[v]}({'ABCD'[v]})" for v in vs) + " }")
        other = r.choice(["", "", "#[allow(dead_code)] ", "/// documented\n"])
        e.append(other + " ".join(attrs) + " " + decl % "E")
        args = {"concrete": "", "lifetime": "::<'static, 'static" + "".join(f", Omni<'static, {v}>" for v in vs if v % 2) + ">", "generic": "::<" + ", ".join(f"Omni<'static, {v}>" for v in vs) + ">", "bounded": "::<" + ", ".join(f"Omni<'static, {v}>" for v in vs) + ", 3>"}[shape]
        arms = " ".join(f"{v if v < nv - 1 else '_'} => E{args}::{names[v]}(Omni::<{v}>::new())," for v in vs)
        ty = "E" + args.replace("::<", "<")
        e.append(f"pub fn mk(k: usize) -> {ty} {{ match k {{ {arms} }} }}")
    # the standard derives: the same enum with #[derive]
    if std:
        if shape == "anonymous":
            # the anonymous enum declares its variants in the order of the branches
            decl = "enum %s<" + gp + "> { " + ", ".join(f"P{v}({'ABCD'[v]})" for v in vs) + " }"
            names = [f"P{v}" for v in vs]
            d = "#[derive(%s)]" % ", ".join(k for k in order if "s" in T[k][4])
            args = "::<" + ", ".join(f"Omni<'static, {v}>" for v in vs) + ">"
        else:
            d = " ".join(stds)
        plain.append(d + " " + decl % "P")
        arms = " ".join(f"{v if v < nv - 1 else '_'} => P{args}::{names[v]}(Omni::<{v}>::new())," for v in vs)
        plain.append(f"fn mkp(k: usize) -> P{args.replace('::<', '<')} {{ match k {{ {arms} }} }}")
        dr = [d for k in std for d in T[k][2]]
        plain.append(f"fn gostd<T: {bounds(std)}>(mut a: T, mut b: T) {{ for _ in 0..1 + choose(5) {{ match choose({len(dr)}) {{ "
                     + " ".join(f"{n if n < len(dr) - 1 else '_'} => {d}(&mut a, &mut b)," for n, d in enumerate(dr)) + " } } }")
    dr = [d for k in dev for d in T[k][2]]
    en = [d for k in dev for d in T[k][3]]
    if dev:
        loop = (f"for _ in 0..1 + choose(8) {{ match choose({len(dr)}) {{ "
                + " ".join(f"{n if n < len(dr) - 1 else '_'} => {d}(&mut t)," for n, d in enumerate(dr)) + " } } ") if dr else ""
        end = (f"match choose({len(en) + 1}) {{ " + " ".join(f"{n} => {d}(t)," for n, d in enumerate(en)) + " _ => drop(t) }")
        plain.append(f"fn go<T: {bounds(dev)}>(mut t: T) {{ {loop}{end} }}")
    run = ["pub fn run() { start();"]
    if std:
        run.append(f"{{ let (a, b) = (choose({nv}), choose({nv})); if is_ref() {{ gostd(mkp(a), mkp(b)) }} else {{ gostd(mk(a), mk(b)) }} }}")
    if dev:
        ref = " ".join(f"{v if v < nv - 1 else '_'} => go(Omni::<{v}>::new())," for v in vs)
        run.append(f"let k = choose({nv}); if is_ref() {{ match k {{ {ref} }} }} else {{ go(mk(k)) }}")
    run.append("}")
    return "\n".join(e), "\n".join(plain), "\n".join(run), used


def programs(prop, seed, count):
    """[(id, annotated text, reference text, run annotated, run reference, features, byhand)]"""
    res = []
    for i in range(count):
        r = random.Random(f"{prop}/{seed}/{i}")
        # every trait alone first, then every trait with its implied ones, then subsets
        keys = [KEYS[i]] if i < len(KEYS) else None
        e, p, run, used = program(r, i, keys)
        res.append((i, e, p, run, "", used, False))
    return res


HEAD = """// generated
#![allow(warnings)]
#![feature(fn_traits, unboxed_closures, coroutine_trait, trusted_len)]
use c17rt::*; use auto_enums::*; use std::{fmt, io, error, ops::*, iter::*, hash::Hash}; use std::error::Error as _;
pub trait Marked {} impl<const V: usize> Marked for Omni<'_, V> {}
"""


def source(progs, head=HEAD):
    lines = head.splitlines()
    where = {}
    for i, e, p, run, *_ in progs:
        lines.append(f"mod p{i} {{ use super::*;")
        for side, text in (("e", e), ("r", p), ("e", run)):
            for t in text.splitlines():
                lines.append(t)
                where[len(lines)] = (i, side)
        lines.append("}")
    lines.append("fn main() { main_with(&[")
    for i, *_ in progs:
        lines.append(f"Scenario {{ name: \"p{i}\", run: p{i}::run, weight: 1 }},")
    lines.append("]); }")
    return "\n".join(lines) + "\n", where
