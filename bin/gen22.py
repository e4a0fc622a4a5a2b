"""C22: valid generated programs with a mistake of the user put in at a place of the seed.

programs22(part, seed, count) -> [(id, kind, text, [(class, first line, last line) ...])]: the text of one module; line
numbers (0-based, within the text) of what is wrong. No mistakes: a control."""
import os, random, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen, gen17
from gen import Gen, render

A, B, C = "\x01", "\x02", "\x03"


def bad(text):
    return A + text + B


def tag(cls, text):
    return text.replace(A, A + cls + C)


BAD_ARGS = ["{t};", "{t},;", "marker{{f}}, {t}", "marker[f], {t}", "marker(f), {t}", "{t}, marker(f)", "marker = f, marker = g, {t}", "{t}, marker = f, marker = f", "marker = , {t}", "{t}, marker =",
            "marker = f t, {t}", "marker = \"f\", {t}", "marker == f, {t}", "{t} Clone", "{t}, =>", "{t}, foo::", "\"{t}\"", "1, {t}", "{t} = x", "{t}, x = {t}", "{t}(x)", ",{t}", "{t},,", "marker = f g = h",
            "{t}, !Clone", "{t}, 'a", "{t} + Clone", "&{t}", "{t}, ..", "marker = self::f, {t}", "{t}, NoSuchTrait", "no_such::Path, {t}", "{t}, Iterator::", "{t}, [Clone]", "{t}, (Clone)", "{t}.", "nested = {t}, {t}"]
BAD_DERIVE = [x for x in BAD_ARGS if "marker" not in x and "nested" not in x] + ["marker = f, {t}"]
ITEMS = ["struct {s};", "struct {s} {{ a: u32 }}", "enum {s} {{ A(u8), B(u16) }}", "mod {s} {{ }}", "const {s}: u32 = 1;", "static {s}: u32 = 1;", "use std::fmt as {s};", "trait {s} {{ }}", "type {s} = u8;",
         "union {s} {{ a: u32, b: f32 }}", "extern \"C\" {{ }}", "impl Clone for NoSuch {{ fn clone(&self) -> Self {{ loop {{}} }} }}", "trait {s} {{ fn f() {{ }} }}", "extern crate std as {s};"]
BAD_NOTES = ["#[never(x)]", "#[never = 1]", "#[never()]", "#[nested(x)]", "#[nested = \"y\"]", "#[rec]", "#[rec(x)]", "#[nested[x]]", "#[never{}]"]


class Faulty(Gen):
    """a generator which goes wrong at the places of `targets`"""

    def __init__(self, seed, prop, targets=()):
        super().__init__(seed, prop)
        self.targets = set(targets)
        self.ops = []          # kinds of the places passed
        self.w = random.Random(f"wrong {seed}")

    def here(self, kind):
        self.ops.append(kind)
        return len(self.ops) - 1 in self.targets

    def program(self):
        for _ in range(400):
            r = super().program()
            if not self.byhand:
                return r
        raise RuntimeError("no program")

    def stmt(self, c):
        hit = not c.plain and self.here("statement")
        if hit:
            cls, t = statement(self.w, c)
            return f"⟦A:{tag(cls, t)}⟧", c
        return super().stmt(c)

    def attr(self, scope):
        a = super().attr(scope)
        if self.here("arguments"):
            t = self.traits(scope.kind)
            mk = f"marker = {scope.marker}, " if scope.marker != "marker" else ""
            return f"⟦A:{tag('arguments', bad('#[auto_enum(' + mk + self.w.choice(BAD_ARGS).format(t=t) + ')]'))}⟧"
        return a

    def arm(self, scope, pat, c):
        t = super().arm(scope, pat, c)
        if self.here("annotation"):
            return f"⟦A:{tag('annotation', bad(self.w.choice(BAD_NOTES)))}⟧ {t}"
        return t

    def tail_if(self, scope, c):
        if self.here("else"):
            d = c.deeper()
            out = ""
            for _ in range(self.r.randrange(0, 3)):
                h, ci = self.cond_head(d)
                out += f"if {h} {{ {self.block_branch(scope, ci)} }} else "
            h, ci = self.cond_head(d)
            return out + f"{tag('if without else', bad('if'))} {h} {{ {self.block_branch(scope, ci)} }}"
        return super().tail_if(scope, c)

    def marked(self, scope, c):
        if self.here("marker"):
            super().marked(scope, c)
            return f"⟦W:{scope.k}:{tag('content of a marker', bad(scope.marker + '!(' + self.w.choice(['1 2', '1 +', 'let', 'a b', ', 1', '1; 2', '=> 1', '1, 2']) + ')'))}⟧"
        return super().marked(scope, c)


def statement(r, c):
    """(class, text of a wrong statement)"""
    t = r.choice(["Debug", "fmt::Debug", "Debug, Clone", "Clone, Debug,", "fmt::Display", "Copy, Clone"])
    n = r.randrange(10 ** 6)
    a = f"#[auto_enum({t})]"
    own = r.choice([f"#[auto_enum({t})]", f"#[auto_enum(marker = m{n}, {t})]"])
    m = "marker" if "marker" not in own else f"m{n}"
    vals = ["1u8", "2u16", "3u32", "\"x\"", "'y'", "1.5", "String::new()"]
    v = lambda: r.choice(vals)
    lets = [f"let x{n} =", f"let mut x{n} =", "let _ =", f"let x{n}: _ ="]
    let = lambda: r.choice(lets)
    never = lambda: r.choice(["panic!()", "unreachable!(\"no\")", "{ panic!(\"a\") }", "std::panic!()", "{ op(1); core::unreachable!() }", "(panic!())"])
    k = r.choices(["few", "few", "uninit", "else", "args", "notes", "marker content", "marker scope", "marker twice", "item", "fn", "stmt", "eq", "deep"], [4, 4, 1, 4, 4, 3, 2, 2, 2, 3, 3, 2, 1, 3])[0]
    child = lambda: f"#[auto_enum(Debug)] let {r.choice(['_c', '_'])} = " + r.choice([f"match pick(3, 2) {{ 0 => {v()}, _ => {v()} }};", f"if cond(3) {{ {v()} }} else {{ {v()} }};"])
    if k == "few":
        body = r.choice([
            lambda: f"match pick(1, 2) {{ 0 => {{ {child()} panic!() }} _ => {v()} }}", lambda: f"match pick(1, 2) {{ 0 => {never()}, _ => {{ {child()} {v()} }} }}", lambda: f"if cond(1) {{ {child()} {v()} }} else {{ panic!() }}",
            lambda: f"loop {{ {child()} break {v()}; }}", lambda: f"{{ {child()} if cond(1) {{ {v()} }} else {{ {never()} }} }}", lambda: f"|a: u8| match a {{ 0 => {{ {child()} panic!() }} _ => {v()} }}",
            lambda: v(), lambda: f"({v()})", lambda: f"{{ {v()} }}", lambda: f"match pick(1, 2) {{ _ => {v()} }}", lambda: f"match pick(1, 2) {{ 0 => {never()}, _ => {v()} }}",
            lambda: f"match pick(1, 3) {{ 0 => {never()}, 1 => {{ {v()} }} _ => #[never] diverge(1), }}", lambda: f"if cond(1) {{ {v()} }} else {{ panic!() }}", lambda: f"loop {{ break {v()}; }}",
            lambda: f"'k: loop {{ if cond(1) {{ break 'k {v()}; }} }}", lambda: "loop { panic!() }", lambda: "match 1 {}", lambda: f"unsafe {{ {v()} }}", lambda: f"{m}!({v()})",
            lambda: f"match pick(1, 2) {{ #[nested] 0 => match pick(2, 2) {{ _ => {v()} }}, _ => {never()} }}", lambda: f"if cond(1) {{ {never()} }} else {{ #[nested] match pick(2, 2) {{ _ => {v()} }} }}",
            lambda: f"|a: u8| {{ {v()} }}", lambda: f"|a: u8| match a {{ 0 => {never()}, _ => {v()} }}", lambda: f"|a: u8| {{ if a == 1 {{ return {v()}; }} panic!() }}",
            lambda: f"match pick(1, 2) {{ 0 => {{ let f = || {{ return {v()}; }}; panic!() }} _ => {v()} }}", lambda: f"loop {{ loop {{ break {v()}; }}; break {v()}; }}",
            lambda: f"loop {{ (|| loop {{ break {v()}; }})(); break {v()}; }}", lambda: f"loop {{ if cond(1) {{ #[never] break {v()}; }} break {v()}; }}"])()
        return "too few branches", bad(f"{own} {let()} {body};")
    if k == "uninit":
        return "uninitialised let", bad(f"{own} " + r.choice([f"let x{n};", f"let mut x{n};", f"let x{n}: _;"]))
    if k == "else":
        i = f"{bad(f'if cond({n % 9})')} {{ {v()} }}"
        body = r.choice([f"if cond(1) {{ {v()} }} else {i}", f"if cond(1) {{ {v()} }} else if cond(2) {{ {v()} }} else {i}", f"{{ op(1); if cond(1) {{ {v()} }} else {i} }}", f"({i})", f"unsafe {{ {i} }}", i,
                         f"match pick(1, 3) {{ 0 => {v()}, #[nested] 1 => {i}, _ => {v()} }}", f"match pick(1, 3) {{ 0 => {v()}, 1 => {{ #[nested] {i} }} _ => {v()} }}",
                         f"if cond(1) {{ {v()} }} else {{ #[nested] {i} }}", f"if cond(1) {{ #[nested] let y = {i}; y }} else {{ {v()} }}", f"|a: u32| {{ {i} }}"])
        return "if without else", f"{own} {let()} {body};"
    if k == "args":
        return "arguments", f"{bad('#[auto_enum(' + r.choice(BAD_ARGS).format(t=r.choice(['Debug', 'fmt::Display', 'Clone'])) + ')]')} {let()} match pick(1, 2) {{ 0 => {v()}, _ => {v()} }};"
    if k == "eq":
        return "arguments", f"{bad(f'#[auto_enum = {chr(34)}Debug{chr(34)}]')} {let()} match pick(1, 2) {{ 0 => {v()}, _ => {v()} }};"
    if k == "notes":
        x = bad(r.choice(BAD_NOTES))
        return "annotation", r.choice([
            f"{own} {let()} match pick(1, 3) {{ 0 => {v()}, {x} 1 => {v()}, _ => {v()} }};", f"{own} {let()} match pick(1, 3) {{ {x} 0 => {v()}, 1 => {v()}, _ => {v()} }};",
            f"{own} {let()} match pick(1, 3) {{ 0 => {v()}, 1 => {{ op(1); {x} if cond(1) {{ {v()} }} else {{ {v()} }} }} _ => {v()} }};",
            f"{own} {let()} if cond(1) {{ {x} let y = {v()}; y }} else {{ {v()} }};", f"{own} {let()} if cond(1) {{ {v()} }} else {{ {x} match pick(1, 2) {{ 0 => {v()}, _ => {v()} }} }};",
            f"{own} {let()} match pick(1, 2) {{ 0 => {v()}, _ => {{ {x} op(1); {v()} }} }};", f"{own} {let()} loop {{ {x} if cond(1) {{ break {v()}; }} break {v()}; }};"])
    if k == "marker content":
        x = r.choice(["1 2", "1 +", "let", "a b", ", 1", "1; 2", "1, 2", "1u8 as", "=>", "match", "|", "..=", "fn f() {}"])
        i = bad(f"{m}!({x})")
        return "content of a marker", f"{own} {let()} " + r.choice([f"match pick(1, 2) {{ 0 => {v()}, 1 => {i}, _ => {v()} }};", f"if cond(1) {{ {v()} }} else {{ op(1); {i} }};", f"loop {{ if cond(1) {{ break {i}; }} break {v()}; }};",
                                                                       f"match pick(1, 2) {{ 0 => {v()}, 1 => {{ let y = {i}; y }} _ => {v()} }};"]) if r.random() < 0.8 else bad(f"{own} {let()} match pick(1, 2) {{ 0 => {v()}, 1 => {m}!(), _ => {v()} }};")
    if k == "marker scope":
        i = bad(f"marker!({v()})")
        cust = f"#[auto_enum(marker = m{n}, {t})]"
        return "marker out of scope", r.choice([
            f"fn k{n}() -> u8 {{ {i}; 1 }}", f"{own} {let()} match pick(1, 3) {{ 0 => {v()}, 1 => {{ fn k() -> u8 {{ {i}; 1 }} {v()} }} _ => {v()} }};",
            f"{own} {let()} match pick(1, 3) {{ 0 => {v()}, 1 => {{ struct K; impl K {{ fn k() -> u8 {{ {i}; 1 }} }} {v()} }} _ => {v()} }};",
            f"{cust} {let()} match pick(1, 3) {{ 0 => {v()}, _ => {v()} }}; {let()} {bad(f'm{n}!(1u8)')};", f"let _ = {bad(f'm{n}!(1u8)')}; {cust} {let()} match pick(1, 3) {{ 0 => {v()}, _ => {v()} }};",
            f"{cust} {let()} match pick(1, 3) {{ 0 => m{n}!({v()}), 1 => {bad(f'k{n}!({v()})')}, _ => {v()} }};"])
    if k == "marker twice":
        o = f"#[auto_enum(marker = m{n}, {t})]"
        i = bad(f"#[auto_enum({r.choice([f'marker = m{n}, Debug', f'Clone, marker = m{n}', f'marker = m{n}, fmt::Display,'])})]")
        il = f"{i} let _y = match pick(2, 2) {{ 0 => {v()}, _ => {v()} }};"
        ret = r.choice([f"match pick(1, 2) {{ 0 => {v()}, _ => {v()} }}", f"if cond(1) {{ {v()} }} else {{ {v()} }}", f"loop {{ if cond(1) {{ break {v()}; }} break {v()}; }}"])
        il = r.choice([il, il, f"let f = || {{ {il} }};", f"for i in 0..2 {{ {il} }}", f"if cond(1) {{ {il} }}", f"let f = async {{ {il} }};", f"match pick(1, 2) {{ 0 => {{ {il} }} _ => {{}} }}"])
        return "marker of an outer scope again", r.choice([
            f"{o} fn k{n}() -> impl Debug {{ {il} {ret} }}", f"{o} fn k{n}() -> impl Debug {{ if cond(1) {{ return {v()}; }} loop {{ {il} break {v()}; }} }}",
            f"{o} fn k{n}() -> impl Debug {{ match pick(1, 2) {{ 0 => {{ {il} {v()} }} _ => {v()} }} }}", f"{o} fn k{n}() -> impl Debug {{ if cond(1) {{ {il} return {v()}; }} match pick(3, 2) {{ 0 => {v()}, _ => {v()} }} }}",
            f"{o} fn k{n}() -> impl Debug {{ if cond(1) {{ {v()} }} else {{ #[nested] match pick(1, 2) {{ 0 => {v()}, _ => {{ {il} {v()} }} }} }} }}"])
    if k == "item":
        return "unsupported item", bad(f"{own} " + r.choice(ITEMS).format(s=f"S{n}"))
    if k == "fn":
        body = r.choice([
            lambda: f"fn k{n}() -> impl Debug {{ {child()} match pick(1, 2) {{ 0 => {never()}, _ => {v()} }} }}", lambda: f"fn k{n}() -> impl Debug {{ {child()} return {v()}; }}",
            lambda: f"fn k{n}() -> impl Debug {{ }}", lambda: f"fn k{n}() -> impl Debug {{ {v()} }}", lambda: f"fn k{n}() -> impl Debug {{ return {v()} }}", lambda: f"fn k{n}() -> impl Debug {{ if cond(1) {{ return {v()}; }} panic!() }}",
            lambda: f"fn k{n}() -> impl Debug {{ match pick(1, 2) {{ 0 => {never()}, _ => {v()} }} }}", lambda: f"fn k{n}() -> Result<u8, impl Debug> {{ fail(1)?; Ok(1) }}", lambda: f"fn k{n}() {{ let x = 1; }}",
            lambda: f"fn k{n}() -> impl Debug {{ let f = || {{ return {v()}; }}; f(); {v()} }}", lambda: f"fn k{n}() -> impl Debug {{ fn g() -> u8 {{ return 1; }} {v()} }}", lambda: f"async fn k{n}() {{ op(1); }}",
            lambda: f"fn k{n}() -> Result<u8, impl Debug> {{ let f = || {{ fail(1)?; Ok::<u8, u8>(1) }}; fail(1)?; Ok(1) }}", lambda: f"unsafe fn k{n}() -> impl Debug {{ loop {{ break {v()}; }} }}"])()
        return "too few branches in a function", bad(f"{own} {body}")
    if k == "stmt":
        body = r.choice([f"match pick(1, 2) {{ 0 => {{ let _x = {m}!({v()}); }} _ => {{}} }};", f"match pick(1, 2) {{ 0 => {{ op(1); }} _ => {{}} }};", f"if cond(1) {{ drop({m}!({v()})); }};", f"for i in 0..2 {{ let _x = {m}!({v()}); }};"])
        return "too few markers in a statement", bad(f"{own} {body}")
    # two annotated places, the inner one wrong
    cls, inner = statement(r, c) if r.random() < 0.9 else ("too few branches", bad(f"{a} let _ = {v()};"))
    o = f"#[auto_enum(marker = d{n}, {t})]"
    return cls, r.choice([f"{o} {let()} match pick(1, 2) {{ 0 => {v()}, _ => {{ {inner} {v()} }} }};", f"{o} {let()} if cond(1) {{ {inner} {v()} }} else {{ {v()} }};", f"{o} {let()} loop {{ {inner} if cond(1) {{ break {v()}; }} break {v()}; }};",
                          f"let f{n} = || {{ {inner} }};", f"if cond(1) {{ for i in 0..2 {{ {inner} }} }}", f"let f{n} = async {{ {inner} }};",
                          f"{o} let f{n} = |a: u8| {{ {inner} if a == 0 {{ return {v()}; }} if a == 1 {{ {v()} }} else {{ {v()} }} }};"])


# ------------------------------------------------------------------ enum_derive

def enum_program(r, wrong):
    """(class, text)"""
    names = [k for k in gen17.T if "s" not in gen17.T[k][4] and not re.search("tokio|rayon|serde|http_body|futures01|futures03::(Async|Sink)|Coroutine|TrustedLen|Fn", str(gen17.T[k][0]))]
    ts = [r.choice(gen17.T[k][0]) if isinstance(gen17.T[k][0], (list, tuple)) else gen17.T[k][0] for k in r.sample(names, r.choice([1, 1, 2, 3]))]
    d = f"#[enum_derive({', '.join(ts)})]"
    n = r.randrange(2, 5)
    good = ", ".join(f"V{i}({'ABCDE'[i]})" for i in range(n))
    gs = "<" + ", ".join("ABCDE"[:n]) + ">"
    if not wrong:
        return "", f"{d} pub enum E{gs} {{ {good} }}"
    k = r.choice(["args", "variant", "variant", "item", "empty", "transpose", "unknown"])
    if k == "args":
        return "arguments of enum_derive", f"{bad('#[enum_derive(' + r.choice(BAD_DERIVE).format(t=r.choice(ts + ['Clone'])) + ')]')} pub enum E{gs} {{ {good} }}"
    if k == "unknown":
        return "unknown trait", bad(f"#[enum_derive({', '.join(r.sample(ts + [r.choice(['NoSuch', 'no::Such', 'futures09::Future', 'Iter', 'std::io::Reed'])], len(ts) + 1))})]") + f" pub enum E{gs} {{ {good} }}"
    if k == "variant":
        i = r.randrange(n)
        w = r.choice(["V", "V {{ x: {g} }}", "V({g}, {g})", "V()", "V({g}, u8)", "V {{ }}", "V = 1", "V {{ x: {g}, y: u8 }}", "V({g}, (), u8)", "V(pub {g}, pub {g})", "V({g}) = 3"]).format(g="ABCDE"[i])
        vs = [f"V{j}({'ABCDE'[j]})" for j in range(n)]
        vs[i] = w
        return "variant", bad(f"{d} pub enum E{gs} {{ {', '.join(vs)} }}")
    if k == "empty":
        return "no variants", bad(f"{d} pub enum E {{ }}")
    if k == "transpose":
        return "Transpose of concrete fields", bad(r.choice(["#[enum_derive(Transpose)]", "#[enum_derive(Debug, Transpose)]"]) + " pub enum E<A, B> { " + r.choice(["A(Option<A>), B(B)", "A(A), B(u8)", "A(B), B(A)", "A(A), B([B; 2])", "A((A,)), B(B)"]) + " }")
    return "unsupported item", bad(f"{d} " + r.choice(["pub struct E(u8);", "pub struct E { a: u8 }", "pub fn e() {}", "pub union E { a: u8, b: i8 }", "pub trait E {}", "pub type E = u8;", "pub mod e {}", "pub const E: u8 = 1;", "pub static E: u8 = 1;",
                                                      "impl Clone for NoSuch { fn clone(&self) -> Self { loop {} } }"]))



def programs22(part, seed, count):
    out = []
    for i in range(count):
        r = random.Random(f"{part}/{seed}/{i}")
        wrong = r.choices([0, 1, 2], [2, 8, 2])[0]
        if part == "C22" and r.random() < 0.3:
            text = tag(*enum_program(r, wrong))
            kind = "derive"
        else:
            kind = r.choice(["C12", "C13", "C14", "C15"]) if part == "C22" else "C16"
            for att in range(60):
                s = f"{part}/{seed}/{i}/{att}"
                g = Faulty(s, kind)
                text = g.program()[0]
                if not wrong:
                    break
                # kinds of mistakes evenly
                ks = {}
                for j, o in enumerate(g.ops):
                    ks.setdefault(o, []).append(j)
                w = {"statement": 6, "arguments": 2, "annotation": 2, "else": 3, "marker": 2}
                l = sorted(ks)
                if not l:
                    continue
                g = Faulty(s, kind, [r.choice(ks[r.choices(l, [w[x] for x in l])[0]]) for _ in range(wrong)])
                try:
                    text = g.program()[0]
                except (RuntimeError, ValueError, KeyError, IndexError):
                    continue
                if A in render(text, True):
                    break
            text = render(text, True)
            if wrong and A not in text:
                continue
        lines, regions = [""], []
        for piece in re.split(f"([{A}{B}])", text):
            if piece == A:
                lines.append("")
            elif piece == B:
                regions.append((cls, start, len(lines) - 1))
                lines.append("")
            else:
                if C in piece:
                    cls, piece = piece.split(C)
                    start = len(lines) - 1
                new = piece.split("\n")
                lines[-1] += new[0]
                lines += new[1:]
        out.append((i, kind, "\n".join(lines), regions))
    return out


def source(progs):
    """text, [(first line, last line, id)] (1-based)"""
    # where the mistake stops a macro, rustc expands what is left of the other annotations, on statements too
    lines = gen.HEAD.replace("try_blocks)", "try_blocks, proc_macro_hygiene)").splitlines()
    where = []
    for i, kind, text, regions in progs:
        lines.append(f"mod p{i} {{ use super::*; " + ("use auto_enums::enum_derive;" if kind == "derive" else f"use std::num::Wrapping; {gen.IMPORTS} use auto_enums::auto_enum;"))
        where.append((len(lines) + 1, len(lines) + len(text.splitlines()), i))
        lines += text.splitlines()
        lines.append("}")
    lines.append("fn main() {}")
    return "\n".join(lines) + "\n", where
