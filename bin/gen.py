"""Seeded generator of annotated programs and their reference.

A program is one text with marks:
  ⟦W:kind:  ... ⟧      a branch value the macro has to wrap    (reference: bx_kind(...))
  ⟦M:name:kind: ... ⟧  the same through an explicit marker     (reference: bx_kind(...))
  ⟦A:...⟧              only in the annotated program (attributes)
  ⟦R:...⟧              only in the reference
from which the annotated and the reference program are printed.
"""
import itertools, random, re
from dataclasses import dataclass, field, replace

# kind -> (trait names to list, `impl` type, boxed type)
KINDS = {
    "iter": (["Iterator"], "impl Iterator<Item = u32>", "Box<dyn Iterator<Item = u32>>"),
    "disp": (["Display", "fmt::Display"], "impl std::fmt::Display", "Box<dyn std::fmt::Display>"),
    "fn": (["Fn"], "impl Fn(u32) -> u32", "Box<dyn Fn(u32) -> u32>"),
    "read": (["Read", "io::Read"], "impl std::io::Read", "Box<dyn std::io::Read>"),
    "fut": (["Future"], "impl std::future::Future<Output = u32>", "std::pin::Pin<Box<dyn std::future::Future<Output = u32>>>"),
    "stream": (["futures03::Stream"], "impl futures::Stream<Item = u32>", "std::pin::Pin<Box<dyn futures::Stream<Item = u32>>>"),
}
# With type analysis: kind -> [(declared opaque type, traits it stands for)]; the types of `TA` kinds are not boxed,
# their reference is the same program with the traits listed by hand.
TA_SPELL = {
    "iter": [("impl Iterator<Item = u32>", "Iterator"), ("impl Iterator<Item = u32> + 'static", "Iterator"), ("impl Sized + Iterator<Item = u32>", "Iterator")],
    "disp": [("impl Display", "Display"), ("impl fmt::Display", "fmt::Display"), ("impl fmt::Display + 'static", "fmt::Display")],
    "fn": [("impl Fn(u32) -> u32", "Fn")],
    "read": [("impl Read", "Read"), ("impl io::Read", "io::Read")],
    "fut": [("impl Future<Output = u32>", "Future")],
}
TA = {
    "rev": ("it", [("impl DoubleEndedIterator<Item = u32>", "DoubleEndedIterator"), ("impl DoubleEndedIterator<Item = u32> + Iterator<Item = u32>", "DoubleEndedIterator, Iterator")]),
    "clone": ("it", [("impl Iterator<Item = u32> + Clone", "Iterator, Clone"), ("impl Clone + Iterator<Item = u32>", "Clone, Iterator")]),
    "exact": ("it", [("impl ExactSizeIterator<Item = u32> + DoubleEndedIterator + fmt::Debug", "ExactSizeIterator, DoubleEndedIterator, fmt::Debug"),
                     ("impl Debug + DoubleEndedIterator<Item = u32> + ExactSizeIterator", "DoubleEndedIterator, ExactSizeIterator, Debug")]),
    "fused": ("it", [("impl FusedIterator<Item = u32>", "FusedIterator"), ("impl FusedIterator + Iterator<Item = u32>", "Iterator, FusedIterator")]),
    "fn_mut": ("func", [("impl FnMut(u32) -> u32", "FnMut")]),
    "fn_once": ("func", [("impl FnOnce(u32) -> u32", "FnOnce")]),
    "buf": ("rd", [("impl BufRead", "BufRead"), ("impl io::BufRead + Read", "io::BufRead, Read"), ("impl Read + BufRead", "BufRead, Read")]),
    "seek": ("rd", [("impl Read + Seek", "Read, Seek"), ("impl io::Seek + io::Read", "io::Read, io::Seek")]),
    "write": ("wr", [("impl Write", "Write"), ("impl io::Write", "io::Write")]),
    "fmt_write": ("wr", [("impl fmt::Write", "fmt::Write")]),
    "show": ("disp", [("impl Display + Debug", "Display, Debug"), ("impl fmt::Debug + fmt::Display", "fmt::Display, fmt::Debug")]),
    "deref": ("seq", [("impl Deref<Target = u32>", "Deref")]),
    "deref_mut": ("seq", [("impl DerefMut<Target = u32>", "DerefMut"), ("impl DerefMut + Deref<Target = u32>", "Deref, DerefMut")]),
    "index": ("seq", [("impl Index<u8, Output = u32>", "Index")]),
    "asref": ("seq", [("impl AsRef<u32>", "AsRef")]),
    "extend": ("seq", [("impl Extend<u32>", "Extend")]),
    "bounds": ("seq", [("impl RangeBounds<u32>", "RangeBounds")]),
}
EXTRA = {"it": ["Debug", "fmt::Debug", "Clone", "Iterator", "DoubleEndedIterator", "ExactSizeIterator", "FusedIterator"], "disp": ["Debug", "fmt::Debug", "Display"], "rd": ["Seek", "io::BufRead", "Read"],
         "wr": ["fmt::Write", "io::Write"], "seq": ["Deref", "AsRef", "Index"], "func": ["FnOnce", "FnMut"], "fut": []}
MAKE = {"iter": "it", "disp": "disp", "fn": "func", "read": "rd", "fut": "fut", "stream": "stream"}
MAKE.update({k: v[0] for k, v in TA.items()})


IDS = itertools.count(1)


def render(text, annotated, byhand=False):
    out, stack, i = [], [], 0
    while i < len(text):
        if text[i] == "⟦":
            t = text[i + 1]
            i += 3
            if t == "W":
                j = text.index(":", i)
                kind = text[i:j].split("#")[0]
                i = j + 1
                stack.append((t, len(out)))
                out.append("" if annotated or byhand else f"bx_{kind}(")
            elif t == "M":
                j = text.index(":", i)
                name = text[i:j]
                i = j + 1
                j = text.index(":", i)
                kind = text[i:j].split("#")[0]
                i = j + 1
                stack.append((t, len(out)))
                out.append(f"{name}!(" if annotated or byhand else f"bx_{kind}(")
            else:
                stack.append((t, len(out)))
        elif text[i] == "⟧":
            t, n = stack.pop()
            i += 1
            if t == "W":
                out.append("" if annotated or byhand else ")")
            elif t == "M":
                out.append(")")
            elif t == "Q" or (t == "A") != annotated:
                del out[n:]
        else:
            out.append(text[i])
            i += 1
    assert not stack, text
    return "".join(out)


@dataclass
class Scope:
    """One annotated place; its branches and `?` carry its number in the text."""
    kind: str
    marker: str = "marker"
    declared: str = ""         # the opaque type as written, when the traits come from it
    listed: str = ""           # the traits it stands for
    given: str = ""            # traits listed besides
    id: int = field(default_factory=lambda: next(IDS))

    def branches(self, text):
        return len(re.findall(rf"⟦[WM]:[^⟧]*?#{self.id}:", text))

    def tries(self, text):
        return text.count(f"⟦Q:{self.id}⟧")

    @property
    def k(self):
        return f"{self.kind}#{self.id}"


@dataclass
class Ret:
    """What `return` gives here: mode is `wrap` (a branch of the scope), `marker` (a branch, explicit, inside
    `pre ... post`), `u32`, `unit`, `res` (own Result with error I), `try` (opaque Result), `opt`."""
    mode: str
    scope: Scope = None
    pre: str = ""
    post: str = ""
    err: int = 0
    explicit: bool = True      # may use the explicit marker


@dataclass
class Loop:
    label: str
    brk: str                   # none | u32 | wrap
    scope: Scope = None


@dataclass(frozen=True)
class Ctx:
    ret: Ret = None
    loops: tuple = ()
    vars: tuple = ()
    acc: bool = False
    aw: bool = False
    depth: int = 3
    err: str = ""              # what `?` does: "" not allowed | try | own | ownopt
    erri: int = 0
    scopes: tuple = ()         # annotated scopes around, innermost last
    nest: int = 1              # further nested annotations allowed
    closure: bool = False
    child: bool = False        # inside an annotated place of an annotated function
    plain: bool = False        # in a plain inner function: the compiler, not the macro around, finds the annotation
    own: tuple = ()            # guards a branch may take with it

    def deeper(self, **k):
        return replace(self, depth=self.depth - 1, **k)


class Gen:
    operand = 0.12            # how often an annotated expression is an operand of something else

    def __init__(self, seed, prop):
        self.r = random.Random(seed)
        self.prop = prop
        self.n = 0
        self.used = {}
        self.ta = prop in WITH_TYPE_ANALYSIS
        self.kinds = list(KINDS)
        self.byhand = False    # reference: the traits listed by hand, instead of boxes
        self.own = prop == "C19" or prop in ("C12", "C13", "C14", "C15") and self.p(0.2)   # guards all over

    # -------------------------------------------------------- small things
    def use(self, f):
        self.used[f] = self.used.get(f, 0) + 1

    def a(self, attr):
        """an attribute of the annotated program (by hand: of both)"""
        return attr if self.byhand else f"⟦A:{attr}⟧"

    def site(self):
        self.n += 1
        return self.n

    def name(self, p="v"):
        self.n += 1
        return f"{p}{self.n}"

    def p(self, x):
        return self.r.random() < x

    def atom(self, c):
        r = self.r.random()
        if c.vars and r < 0.5:
            return self.r.choice(c.vars)
        if c.acc and r < 0.65:
            return "acc"
        return str(self.r.randrange(5))

    def u32(self, c):
        """a u32 expression"""
        k = self.r.randrange(9)
        if k < 4 or c.depth <= 0:
            return self.atom(c)
        if k == 4:
            return f"op({self.site()})"
        if k == 5:
            return f"({self.atom(c)} + op({self.site()}))"
        if self.own and self.p(0.25):
            self.use("own: temporary in an expression")
            t = self.site()
            return self.r.choice([f"guard({t}).get()", f"{{ guard({t}).get() }}", f"(&guard({t})).get()", f"{{ let g = guard({t}); g.get() }}", f"(guard({t}), guard({self.site()})).0.get()",
                                  f"hand(guard({t})).get()"] + ([f"aw(guard({t}).get()).await", f"aw_with(&guard({t})).await"] if c.aw else []))
        if k == 6 and c.aw:
            self.use("await in expression")
            return f"aw({self.site()}).await"
        if k == 7 and c.err:
            return self.question(c)
        return f"if cond({self.site()}) {{ {self.atom(c)} }} else {{ {self.atom(c)} }}" if False else f"({self.atom(c)} ^ 1)"

    def question(self, c):
        """a fallible step with `?`, of type u32"""
        s = self.site()
        if c.err == "ownopt":
            self.use("? on Option")
            return f"maybe({s})?"
        if c.err == "try":
            i = self.r.randrange(16)
            q = f"⟦Q:{c.scopes[-1].id}⟧"
            self.use("? of an opaque error")
        else:
            q = ""
            i = c.erri
            self.use("? of an own error")
        k = self.r.randrange(8)
        if self.own and self.p(0.5):
            self.use("own: ? on a step that holds or gives values")
            return q + self.r.choice([f"fails::<{i}>(guard({s}).get())?", f"fails_val::<{i}>({s})?.get()", f"fails_with::<{i}>({s}, guard({self.site()}))?.get()",
                                      f"fails_ref::<{i}>(&guard({s}))?", f"(guard({s}), fails::<{i}>({s})?).1", f"{{ let g = guard({s}); fails_with::<{i}>({s}, g)? }}.get()"]
                                     + ([f"aw_fails::<{i}>(guard({s}).get()).await?"] if c.aw else []))
        if c.aw and k < 3:
            self.use("? after await")
            return q + f"aw_fails::<{i}>({s}).await?"
        if k == 3:
            return q + f"fails::<{i}>({s}).map(|x| x + 1)?"
        if k == 4:
            return q + f"(fails::<{i}>({s}))?"
        if k == 5 and c.err == "try":
            self.use("? on foreign error")
            return q + self.r.choice([
                f"[\"7\", \"x\"][pick({s}, 2)].parse::<u32>()?",
                f"if cond({s}) {{ Ok(3) }} else {{ Err(std::fmt::Error) }}?".replace("if", "(if").replace("}?", "})?"),
                f"maybe({s}).ok_or_else(|| er::<{i}>({s}))?",
                f"fails::<{(i + 1) % 16}>({s}).or_else(|e| if e.to_string().len() > {self.r.randrange(9, 16)} {{ Err(er::<{i}>({s})) }} else {{ Ok(1) }})?",
            ])
        if k == 6 and c.err == "try" and c.depth > 0:
            self.use("? on a block")
            return q + f"match {self.u32(c.deeper())} {{ t => {{ log({s}, t); fails::<{i}>({s}) }} }}?"
        if k == 7 and c.err == "try" and c.depth > 1 and self.p(0.5):
            self.use("? inside ?")
            j = self.r.randrange(16)
            return q + f"fails::<{i}>({q}fails::<{j}>({s})? + {self.site()})?"
        return q + f"fails::<{i}>({s})?"

    # -------------------------------------------------------- branch values
    def leaf(self, kind, c):
        """an expression of one concrete type which implements the kind"""
        m = MAKE[kind]
        s = self.site()
        i = self.r.randrange(60)
        k = self.r.randrange(17)
        if self.own and c.own and self.p(0.5):
            self.use("own: branch takes a value along")
            g = self.r.choice(c.own)
            return self.r.choice([f"{m}_with::<{i}>({s}, {g})", f"{m}_with::<{i}>({s}, hand({g}))", f"{{ op({s}); {m}_with::<{i}>({s}, {g}) }}", f"{m}::<{i}>({s}, {g}.get())"])
        base = f"{m}::<{i}>({s}, {self.u32(c)})"
        if self.own and k < 3:
            k = 11 + k % 2
        if c.depth <= 0 or k < 7:
            return base
        if k == 7:
            self.use("leaf: plain if")
            return f"if cond({s}) {{ {base} }} else {{ {m}::<{i}>({self.site()}, {self.atom(c)}) }}"
        if k == 8:
            self.use("leaf: block")
            st, c2 = self.stmts(c.deeper(), 1)
            return f"{{ {st} {m}::<{i}>({s}, {self.atom(c2)}) }}"
        if k == 9:
            self.use("leaf: plain match")
            return f"match pick({s}, 3) {{ 0 => {base}, 1 => {m}::<{i}>({self.site()}, 1), _ => {m}::<{i}>({self.site()}, 2) }}"
        if k == 10:
            self.use("leaf: plain loop")
            l = f"'q{s}"
            return self.r.choice([
                f"loop {{ if exit({s}) {{ break {base}; }} log({s}, 0); }}",
                f"{l}: loop {{ loop {{ if exit({s}) {{ break {l} {base}; }} if cond({self.site()}) {{ break; }} }} }}",
            ])
        if k == 11:
            self.use("leaf: holds a guard")
            return f"{m}_with::<{i}>({s}, guard({self.site()}))" if m not in ("rd",) else f"rd_with::<{i}>({s}, guard({self.site()}))"
        if k == 12:
            self.use("leaf: temporary")
            return f"{m}::<{i}>({s}, guard({self.site()}).get())"
        if k == 13:
            self.use("leaf: made by a closure")
            return f"(|a: u32| {{ if a > {s} {{ return {m}::<{i}>({s}, a); }} {m}::<{i}>({s}, a + 1) }})({self.atom(c)})"
        if k == 16:
            simple = f"{m}::<{i}>({s}, {self.atom(c)})"
            if self.p(0.6):
                self.use("leaf: macro named like a diverging one, by path")
                n = self.r.choice(["panic", "unreachable", "todo"])
                return self.r.choice([f"decoys::{n}!({simple})", f"genrt::decoys::{n}!({simple})", f"self::decoys::{n}![{simple}]", f"crate::decoys::{n}!({simple})"])
            self.use("leaf: parenthesised or with attributes")
            return self.r.choice([f"({base})", f"(({simple}))", f"{{ {{ {simple} }} }}", f"#[allow(unused)] {simple}", f"#[rustfmt::skip] {{ #[allow(unused_parens)] ({simple}) }}", f"{{ #![allow(unused)] {simple} }}",
                                  f"{{ #[cfg(any())] op(0); #[cfg(all())] {{ {simple} }} }}"])
        return self.real_leaf(kind, c, base, s)

    def real_leaf(self, kind, c, base, s):
        a = self.atom(c)
        self.use("leaf: std type")
        if kind == "iter":
            return self.r.choice([f"std::iter::once({a})", f"Some({a}).into_iter()", f"vec![{a}, 2, 3].into_iter()", "std::iter::empty::<u32>()",
                                  f"(0..{a}).map(move |x| x + {s})", f"{base}.take(2)", f"{base}.filter(|x| x % 2 == 0)", f"{base}.map(|x| x + {s})",
                                  f"(0..4u32).rev()", f"[1u32, {a}].into_iter().chain({base})"])
        if kind == "disp":
            return self.r.choice([f"{a}", f"String::from(\"text {s}\")", f"\"lit {s}\"", f"'c'", "std::net::Ipv4Addr::LOCALHOST", "true"]) if a.isdigit() else \
                self.r.choice([f"format!(\"{s}-{{}}\", {a})", f"\"lit {s}\"", "1.5f32"])
        if kind == "fn":
            if "acc" in a or not (a.isdigit()):
                return f"{{ let k = {a}; move |x: u32| {{ log({s}, x); x ^ k }} }}"
            return self.r.choice([f"|x: u32| {{ log({s}, x); if x > 3 {{ return x - 1; }} x + {a} }}", f"move |x: u32| x.wrapping_mul({a})",
                                  f"|x: u32| {{ for i in 0..x {{ if i > 2 {{ break; }} log({s}, i); }} x }}"])
        if kind == "read":
            return self.r.choice([f"std::io::empty()", f"std::io::repeat(b'r')", "&b\"bytes\"[..]", f"std::io::Cursor::new(vec![1u8, {s % 250}])", f"std::io::Read::take({base}, 1)",
                                  f"std::io::Read::chain({base}, std::io::repeat(7))"])
        if kind == "fut":
            self.use("leaf: async block")
            k = self.name("k")
            st = f"let {k} = {a};" if not a.isdigit() else f"let {k} = {a}u32;"
            return self.r.choice([
                f"{{ {st} async move {{ let t = aw({s}).await; if cond({s}) {{ return t; }} log({s}, t); t + {k} }} }}",
                f"std::future::ready({a})" if a.isdigit() else base,
                f"{{ {st} async move {{ let g = guard({s}); let t = aw({s}).await + {k}; drop(g); t }} }}",
                f"{{ {st} async move {{ let r: Result<u32, Er<3>> = async {{ Ok(fails::<3>({s})? + aw({s}).await) }}.await; r.unwrap_or({k}) }} }}",
            ])
        return base

    def wrap(self, scope, c, leaf=None):
        """a branch value of the scope (wrapped by the macro at this place)"""
        leaf = leaf or self.leaf(scope.kind, c)
        if leaf.startswith("'"):
            leaf = f"({leaf})"
        return f"⟦W:{scope.k}:{leaf}⟧"

    def mark(self, scope, c):
        self.use("explicit marker")
        return f"⟦M:{scope.marker}:{scope.k}:{self.leaf(scope.kind, replace(c, err='') if c.err == 'try' else c).replace('return', 'return')}⟧"

    def branch(self, scope, c, explicit=True):
        if explicit and scope.marker and self.p(0.15):
            # tokens inside a macro are not visited: nothing inside may need rewriting
            return self.marked(scope, c)
        return self.wrap(scope, c)

    def noise(self, p=0.08):
        """attributes and comments that mean nothing to the macro"""
        if not self.p(p):
            return ""
        self.use("attributes of others")
        return self.r.choice(["#[allow(unused)] ", "#[rustfmt::skip] ", "#[cfg(all())] ", "/** doc */ ", "#[allow(unused_doc_comments)] #[doc = \"x\"] ", "#[cfg_attr(any(), nested)] ", "#[cfg_attr(any(), never)] "])

    def marked(self, scope, c):
        self.use("explicit marker")
        m = MAKE[scope.kind]
        i = self.r.randrange(60)
        s = self.site()
        leaf = self.r.choice([f"{m}::<{i}>({s}, {self.atom(c)})", f"{{ log({s}, {self.atom(c)}); {m}::<{i}>({s}, 1) }}",
                              f"if cond({s}) {{ {m}::<{i}>({s}, 1) }} else {{ {m}::<{i}>({s}, {self.atom(c)}) }}"])
        return f"⟦M:{scope.marker}:{scope.k}:{leaf}⟧"

    # -------------------------------------------------------- diverging
    def retval(self, c):
        t = c.ret
        if t.mode == "wrap":
            return self.branch(t.scope, c, t.explicit)
        if t.mode == "marker":
            return f"{t.pre}{self.marked(t.scope, c)}{t.post}"
        if t.mode == "u32":
            return self.u32(c)
        if t.mode == "unit":
            return ""
        if t.mode == "opt":
            return self.r.choice([f"Some({self.atom(c)})", "None"])
        if t.mode == "res":
            return self.r.choice([f"Ok({self.atom(c)})", f"Err(er::<{t.err}>({self.site()}))"])
        if t.mode == "try":
            if t.scope.marker and self.p(0.4):
                self.use("explicit Err with marker")
                return f"Err(⟦M:{t.scope.marker}:{t.scope.k}:er::<{self.r.randrange(16)}>({self.site()})⟧)"
            return f"Ok({self.atom(c)})"
        raise AssertionError(t.mode)

    def diverge(self, c, stmt=False):
        """an expression which does not complete, of a form the macro recognises"""
        opts = ["panic", "panic", "unreachable"]
        if c.ret:
            opts += ["return"] * 6
        if c.loops:
            opts += ["loop"] * 4
        if c.err == "try" and not c.child:
            opts += ["err"] * 3
        if c.err == "own":
            opts += ["ownerr"]
        k = self.r.choice(opts)
        s = self.site()
        if k == "return":
            self.use("return")
            return f"return {self.retval(c)}".rstrip()
        if k == "loop":
            return self.jump(c)
        if k == "err":
            self.use("Err(..)?")
            e = self.r.choice(["Err", "Err", "std::result::Result::Err", "core::result::Result::Err", "::std::result::Result::Err", "Result::Err"])
            if e == "Result::Err":
                e = "Err"
            return f"⟦Q:{c.scopes[-1].id}⟧{e}(er::<{self.r.randrange(16)}>({s}))?"
        if k == "ownerr":
            return f"return Err(er::<{c.erri}>({s}))" if c.ret and c.ret.mode == "res" else f"panic!(\"p{s}\")"
        if k == "unreachable":
            self.use("unreachable!")
            return self.r.choice(["unreachable!()", "std::unreachable!(\"u{}\", 1)", "core::unreachable!()"])
        self.use("panic!")
        return self.r.choice([f"panic!(\"p{s}\")", f"std::panic!(\"p{{}}\", {s})", f"core::panic!(\"p{s}\")", f"::std::panic!(\"p{s}\")"])

    def jump(self, c):
        """break or continue of an enclosing loop, with the value it takes"""
        i = self.r.randrange(len(c.loops))
        if self.p(0.6):
            i = len(c.loops) - 1
        l = c.loops[i]
        inner = i == len(c.loops) - 1
        if not inner and not l.label:
            l, inner = c.loops[-1], True
        lab = f" {l.label}" if l.label and (not inner or self.p(0.6)) else ""
        if self.p(0.3):
            self.use("continue")
            return f"continue{lab}"
        if l.brk == "none":
            self.use("break")
            return f"break{lab}"
        if l.brk == "u32":
            self.use("break with plain value")
            return f"break{lab} {self.atom(c)}"
        self.use("break with branch")
        return f"break{lab} {self.branch(l.scope, c)}"

    def diverging_block(self, c):
        """the inside of a block that does not complete"""
        st, c2 = self.stmts(c, self.r.randrange(2))
        d = self.diverge(c2)
        k = self.r.randrange(7)
        if d.endswith("?"):
            return f"{st} {d}"
        if k == 4:
            self.use("diverging: unsafe")
            return f"{st} unsafe {{ {d} }}"
        if k == 5:
            self.use("diverging: let")
            return f"{st} let {self.name('z')}: u32 = {d};"
        if k == 6 and not d.startswith(("break", "continue")):
            self.use("diverging: receiver")
            return f"{st} ({d}).same()"
        if k == 0 and not d.startswith(("break", "continue")):
            self.use("diverging: parenthesised")
            return f"{st} ({d})"
        if k == 1:
            self.use("diverging: inner block")
            return f"{st} {{ {d} }}"
        if k == 2 and c.depth > 0 and self.p(0.5):
            self.use("diverging: match")
            e = self.diverge(c2)
            if not e.endswith("?"):
                return f"{st} match cond({self.site()}) {{ true => {d}, false => {{ {e} }} }}"
        return f"{st} {d}" + ("" if self.p(0.5) else ";")

    # -------------------------------------------------------- statements
    def stmts(self, c, n):
        out = []
        for _ in range(n):
            t, c = self.stmt(c)
            out.append(t)
        return " ".join(out), c

    def bind(self, c, v):
        return replace(c, vars=c.vars + (v,))

    def stmt(self, c):
        s = self.site()
        if c.depth <= 0:
            k = self.r.choice(["op", "let", "log"])
        else:
            w = {"op": 3, "let": 4, "acc": 2 if c.acc else 0, "guard": 3, "if": 4, "for": 3, "valueloop": 3, "exit": 5 if (c.ret or c.loops) else 0,
                 "letelse": 2 if (c.ret or c.loops) else 0, "closure": 3, "closure_loop": 1, "item": 2, "impl": 1, "match": 2, "async": 2, "block": 1, "labelled": 1,
                 "await": 5 if c.aw else 0, "question": 5 if c.err else 0, "closure_q": 2, "async_q": 1, "try_q": 2, "fn_q": 1,
                 "annotated": 3 if c.nest > 0 else 0, "iflet": 2, "while": 2, "shadow": 1 if c.loops else 0, "annotated_closure": 2 if c.nest > 0 else 0,
                 "annotated_item": (7 if self.prop == "C14" else 3) if c.nest > 0 else 0, "plain_item": 1,
                 "nested_label": 1 if c.loops else 0, "drop": 1, "decoy": 2 if self.prop == "C14" else 1, "own": 12 if self.own else 0}
            k = self.r.choices(list(w), list(w.values()))[0]
        d = c.deeper()
        if k == "op":
            return f"op({s});", c
        if k == "log":
            return f"log({s}, {self.atom(c)});", c
        if k == "let":
            v = self.name()
            return f"{self.noise(0.05)}let {v}: u32 = {self.u32(c)};", self.bind(c, v)
        if k == "acc":
            return f"acc = acc.wrapping_mul(3).wrapping_add({self.u32(c)}) % 97;", c
        if k == "guard":
            g = self.name("_g")
            return f"let {g} = guard({s});", c
        if k == "drop":
            g = self.name("g")
            st, _ = self.stmts(d, 1)
            return f"let {g} = guard({s}); {st} drop({g});", c
        if k == "if":
            a, _ = self.stmts(d, self.r.randrange(1, 3))
            if self.p(0.5):
                return f"if cond({s}) {{ {a} }}", c
            b, _ = self.stmts(d, 1)
            return f"if cond({s}) {{ {a} }} else {{ {b} }}", c
        if k == "iflet":
            v = self.name()
            a, _ = self.stmts(self.bind(d, v), self.r.randrange(1, 3))
            return f"if let Some({v}) = opt({s}) {{ {a} }}", c
        if k == "for":
            v = self.name("i")
            l, lab = self.label()
            a, _ = self.stmts(self.bind(d, v) if False else replace(self.bind(d, v), own=(), loops=c.loops + (Loop(l, "none"),)), self.r.randrange(1, 3))
            return f"{lab}for {v} in 0..{self.r.randrange(1, 4)}u32 {{ {a} log({s}, {v}); }}", c
        if k == "while":
            l, lab = self.label()
            a, _ = self.stmts(replace(d, own=(), loops=c.loops + (Loop(l, "none"),)), self.r.randrange(1, 3))
            head = self.r.choice([f"while !exit({s})", f"while let (Some(_), false) = (opt({s}), exit({s}))"])
            return f"{lab}{head} {{ {a} }}", c
        if k == "valueloop":
            v = self.name()
            l, lab = self.label()
            self.use("loop with plain value")
            c2 = replace(d, own=(), loops=c.loops + (Loop(l, "u32"),))
            a, _ = self.stmts(c2, self.r.randrange(0, 3))
            return f"let {v} = {lab}loop {{ {a} if exit({s}) {{ break {self.atom(c)}; }} }};", self.bind(c, v)
        if k == "exit":
            b = self.diverging_block(d)
            return f"if cond({s}) {{ {b} }}" if not b.rstrip().endswith("?") else f"if cond({s}) {{ let _: u32 = {{ {b} }}; }}", c
        if k == "letelse":
            v = self.name()
            x = self.diverge(d)
            if x.endswith("?"):
                x = "panic!(\"else\")"
            self.use("let else")
            return f"let Some({v}) = opt({s}) else {{ {x} }};", self.bind(c, v)
        if k == "closure":
            self.use("inner closure with return")
            f, a = self.name("f"), self.name("a")
            ci = Ctx(ret=Ret("u32"), vars=(a,), depth=c.depth - 1, nest=0)
            st, ci = self.stmts(ci, self.r.randrange(1, 3))
            v = self.name()
            return f"let {f} = |{a}: u32| {{ {st} if cond({s}) {{ return {a} + 1; }} {self.atom(ci)} }}; let {v} = {f}({self.atom(c)});", self.bind(c, v)
        if k == "closure_loop":
            self.use("inner closure with loops")
            f = self.name("f")
            v = self.name()
            return f"let {f} = || loop {{ if exit({s}) {{ break {self.atom(Ctx())}u32; }} }}; let {v} = {f}();", self.bind(c, v)
        if k == "closure_q":
            self.use("inner closure with ?")
            f, i = self.name("f"), self.r.randrange(16)
            ci = Ctx(ret=Ret("res", err=i), depth=c.depth - 1, err="own", erri=i, nest=0)
            st, ci = self.stmts(ci, self.r.randrange(1, 3))
            v = self.name()
            return f"let {f} = || -> Result<u32, Er<{i}>> {{ {st} Ok(fails::<{i}>({s})? + fails::<{i}>({self.site()})?) }}; let {v} = {f}().unwrap_or(0);", self.bind(c, v)
        if k == "async_q":
            self.use("async block with ?")
            i = self.r.randrange(16)
            ci = Ctx(ret=Ret("res", err=i), depth=c.depth - 1, err="own", erri=i, nest=0, aw=True)
            st, ci = self.stmts(ci, 1)
            v = self.name()
            run = f"async {{ {st} Ok::<u32, Er<{i}>>(fails::<{i}>({s})? + {self.atom(ci)}) }}"
            return (f"let {v} = {run}.await.unwrap_or(1);" if c.aw and self.p(0.5) else f"let {v} = now({run}).unwrap_or(1);"), self.bind(c, v)
        if k == "try_q":
            self.use("try block")
            x, v = self.name("t"), self.name()
            if self.p(0.3):
                st, _ = self.stmts(replace(c, err="ownopt", depth=c.depth - 1), self.r.randrange(0, 2))
                return f"let {x}: Option<u32> = try {{ {st} maybe({s})? + maybe({self.site()})? }}; let {v} = {x}.unwrap_or(1);", self.bind(c, v)
            i = self.r.randrange(16)
            st, _ = self.stmts(replace(c, err="own", erri=i, depth=c.depth - 1), self.r.randrange(0, 3))
            return f"let {x}: Result<u32, Er<{i}>> = try {{ {st} fails::<{i}>({s})? + fails::<{i}>({self.site()})? }}; let {v} = {x}.unwrap_or(0);", self.bind(c, v)
        if k == "fn_q":
            self.use("inner function with ?")
            f, i = self.name("f"), self.r.randrange(16)
            v = self.name()
            ret = self.r.choice([f"if cond({s}) {{ return Ok(1); }}", f"if cond({s}) {{ return Err(er::<{i}>({s})); }}", ""])
            return f"fn {f}() -> Result<u32, Er<{i}>> {{ {ret} Ok(fails::<{i}>({s})? + fails::<{i}>({s})?) }} let {v} = {f}().unwrap_or(0);", self.bind(c, v)
        if k == "item":
            self.use("inner item with return")
            f = self.name("f")
            v = self.name()
            ci = Ctx(ret=Ret("u32"), vars=("a",), depth=c.depth - 1, nest=0)
            st, ci = self.stmts(ci, 1)
            return f"fn {f}(a: u32) -> u32 {{ {st} if cond({s}) {{ return a; }} let l = loop {{ if exit({s}) {{ break 5; }} }}; l + a }} let {v} = {f}({self.atom(c)});", self.bind(c, v)
        if k == "impl":
            self.use("inner impl with return")
            t = self.name("S")
            v = self.name()
            return (f"struct {t}(u32); impl {t} {{ const K: u32 = 2; fn get(&self) -> u32 {{ if cond({s}) {{ return self.0; }} self.0 + Self::K }} }} "
                    f"let {v} = {t}({self.atom(c)}).get();"), self.bind(c, v)
        if k == "match":
            a, _ = self.stmts(d, 1)
            b, _ = self.stmts(d, 1)
            return f"match pick({s}, 3) {{ 0 => {{ {a} }} 1 if cond({s}) => {{ {b} }} _ => {{}} }}", c
        if k == "async":
            self.use("inner async block with return")
            v = self.name()
            ci = Ctx(ret=Ret("u32"), depth=c.depth - 1, nest=0, aw=True)
            st, ci = self.stmts(ci, 1)
            run = f"async {{ {st} if cond({s}) {{ return 1u32; }} {self.atom(ci)} }}"
            return (f"let {v} = {run}.await;" if c.aw and self.p(0.6) else f"let {v} = now({run});"), self.bind(c, v)
        if k == "block":
            a, _ = self.stmts(d, self.r.randrange(1, 3))
            return self.r.choice([f"{{ {a} }}", f"unsafe {{ {a} }}"]), c
        if k == "labelled":
            v = self.name()
            self.use("labelled block")
            b = f"'b{s}"
            return f"let {v} = {b}: {{ op({s}); if cond({s}) {{ break {b} {self.atom(c)}; }} {self.atom(c)} }};", self.bind(c, v)
        if k == "await":
            v = self.name()
            self.use("await")
            return f"let {v} = aw({s}).await;", self.bind(c, v)
        if k == "question":
            v = self.name()
            q = self.question(c)
            kk = self.r.randrange(6)
            if kk == 0 and c.err != "ownopt":
                self.use("? in a condition")
                a, _ = self.stmts(d, 1)
                return f"if {q} > 1 {{ {a} }}", c
            if kk == 1:
                self.use("? in a match head")
                a, _ = self.stmts(d, 1)
                return f"match {q} {{ 0 => {{ {a} }} _ => {{}} }}", c
            if kk == 2:
                self.use("two ? in one expression")
                return f"let {v} = {q} + {self.question(c)};", self.bind(c, v)
            if kk == 3:
                return f"{q};", c
            if kk == 4 and c.depth > 0:
                self.use("? in a loop")
                return f"for i in 0..2u32 {{ log({s}, i + {q}); }}" if False else f"for i in 0..2u32 {{ let t = i + {q}; log({s}, t); }}", c
            return f"let {v} = {q};", self.bind(c, v)
        if k == "shadow":
            l = self.r.choice(c.loops)
            lab = l.label or "'s"
            v = self.name()
            self.use("shadowed label")
            return self.r.choice([
                f"let {v} = {lab}: loop {{ if exit({s}) {{ break {lab} {self.atom(c)}; }} }};",
                f"let {v} = {lab}: {{ if cond({s}) {{ break {lab} 3; }} {self.atom(c)} }};",
                f"let mut {v} = 0u32; {lab}: while !exit({s}) {{ {v} += 1; if cond({s}) {{ break {lab}; }} }}",
                f"let mut {v} = 0u32; {lab}: for i in 0..3u32 {{ {v} = i; if cond({s}) {{ continue {lab}; }} if cond({s}) {{ break {lab}; }} }}",
            ]), self.bind(c, v)
        if k == "nested_label":
            outer = [l for l in c.loops if l.label]
            if not outer:
                return f"op({s});", c
            l = self.r.choice(outer)
            self.use("jump out of an inner loop")
            if l.brk == "none":
                j = f"break {l.label}"
            elif l.brk == "u32":
                j = f"break {l.label} {self.atom(c)}"
            else:
                j = f"break {l.label} {self.branch(l.scope, d)}"
            inner = self.r.choice(["loop", f"while !exit({s})", "for _ in 0..2"])
            tail = f"if exit({s}) {{ break; }}"
            return f"{inner} {{ if cond({s}) {{ {j}; }} {tail} }}", c
        if k == "own":
            return self.own_stmt(s, c, d)
        if k == "decoy":
            # a macro with the name of a marker, called by its path, is the user's own
            self.use("macro named like a marker, by path")
            m, v = self.name("d"), self.name()
            mk = self.r.choice([x.marker for x in c.scopes if x.marker] + ["marker"])
            call = self.r.choice([f"{m}::{mk}!({self.atom(c)})", f"{m}::{mk}![{self.atom(c)}] + op({s})", f"self::decoys::marker!({self.atom(c)})", f"{m}::{mk}!{{ {self.atom(c)} }}.max(2)"])
            mod = f"mod {m} {{ pub macro {mk}($e:expr) {{ u32::wrapping_add($e, {s % 9}) }} }} " if m in call else ""
            return f"{mod}let {v}: u32 = {call};", self.bind(c, v)
        if k == "annotated":
            return self.annotated_let(c)
        if k == "annotated_closure":
            return self.annotated_closure(c)
        if k == "annotated_item":
            return self.annotated_item(c)
        if k == "plain_item":
            self.use("inner items")
            t, v = self.name("T"), self.name()
            return self.r.choice([
                f"const {t}: u32 = {{ let mut i = 0; loop {{ if i > {s % 5} {{ break i; }} i += 1; }} }}; let {v} = {t} + op({s});",
                f"macro_rules! {t} {{ ($e:expr) => {{ if cond({s}) {{ $e }} else {{ {s % 7} }} }}; }} let {v}: u32 = {t}!({self.atom(c)});",
                f"#[derive(Clone, Copy)] enum {t} {{ A(u32), B {{ x: u32 }} }} let {v} = match ({t}::A({self.atom(c)}), {t}::B {{ x: op({s}) }}) {{ ({t}::A(x), {t}::B {{ x: y }}) if x < y => y, ({t}::A(x), _) => x, _ => 9 }};",
                f"trait {t} {{ fn up(self) -> u32; }} impl {t} for u32 {{ fn up(self) -> u32 {{ for i in 0..9 {{ if exit({s}) {{ return i; }} if i > 2 {{ break; }} }} self + 1 }} }} let {v} = {t}::up(std::convert::identity::<u32>({self.atom(c)}));",
                f"static {t}: [u32; 2] = [{s % 3}, match {s % 4} {{ 0 => 1, x => x }}]; let {v} = {t}[pick({s}, 2)];",
                f"use std::convert::identity as {t}; let {v} = {t}(op({s}));",
                f"mod {t} {{ pub fn twice(x: u32) -> u32 {{ if x > 3 {{ return x; }} 'l: loop {{ loop {{ break 'l x * 2; }} }} }} }} let {v} = {t}::twice({self.atom(c)});",
            ]), self.bind(c, v)
        raise AssertionError(k)

    def own_stmt(self, s, c, d):
        g, h, v = self.name("g"), self.name("h"), self.name()
        t = self.site()
        a, _ = self.stmts(d, self.r.randrange(0, 2))
        al, _ = self.stmts(replace(d, own=()), self.r.randrange(0, 2))
        k = self.r.randrange(14)
        self.use("own: statement")
        if k == 0:
            return self.r.choice([f"let _ = guard({s});", f"_ = guard({s});", f"guard({s});", f"let {g} = &guard({s}); {a}", f"let ({g}, _) = (guard({s}), guard({t})); {a}",
                                  f"let ref {g} = guard({s}); {a}", f"let [{g}, {h}] = [guard({s}), guard({t})]; drop({g}); {a}"]), c
        if k == 1:
            return f"match guard({s}).get() % 3 {{ 0 => {{ {a} }} 1 if cond({s}) => {{ log({s}, 1); }} _ => {{}} }}", c
        if k == 2:
            return f"if guard({s}).get() % 2 == 0 && cond({s}) {{ {a} }}", c
        if k == 3:
            l, lab = self.label()
            al, _ = self.stmts(replace(d, own=(), loops=c.loops + (Loop(l, "none"),)), self.r.randrange(0, 2))
            return f"{lab}while guard({s}).get() > 0 && !exit({s}) {{ {al} }}", c
        if k == 4:
            l, lab = self.label()
            al, _ = self.stmts(replace(d, own=(), loops=c.loops + (Loop(l, "none"),)), self.r.randrange(0, 2))
            return f"{lab}for {v} in holding(guard({s})) {{ log({s}, {v}.get()); {al} }}", c
        if k == 5:
            return f"let {g} = guard({s}); if cond({s}) {{ {self.r.choice([f'drop({g});', f'let _ = hand({g});', f'let {h} = {g};'])} {a} }}", c
        if k == 6:
            return f"let {g} = guard({s}); let f{g} = move || {g}.get(); {a} let {v} = f{g}();", self.bind(c, v)
        if k == 7:
            x = self.diverge(d) if (c.ret or c.loops) else 'panic!("none")'
            if x.endswith("?"):
                x = "panic!(\"else\")"
            return f"let Some({g}) = opt_val({s}) else {{ {x} }}; {a}", replace(c, own=c.own + (g,))
        if k == 8:
            return f"if let Some({g}) = opt_val({s}) {{ {a} }} else {{ op({t}); }}", c
        if k == 9:
            return f"if let Some({v}) = guard({s}).opt() {{ {a} }}", c
        if k == 10:
            return f"let mut {g} = guard({s}); {a} {g} = guard({t}); {'drop(' + g + ');' if self.p(0.3) else ''}", c
        if k == 11 and c.err in ("try", "own"):
            i = self.r.randrange(16) if c.err == "try" else c.erri
            q = f"⟦Q:{c.scopes[-1].id}⟧" if c.err == "try" else ""
            return f"let {g} = {q}fails_val::<{i}>({s})?;", replace(c, own=c.own + (g,))
        if k == 12 and c.aw:
            return f"let {g} = guard({s}); let {v} = aw({s}).await + {g}.get();", self.bind(c, v)
        return f"let {g} = guard({s});", replace(c, own=c.own + (g,))

    def label(self):
        if self.p(0.5):
            l = f"'l{self.site()}"
            return l, f"{l}: "
        return "", ""

    # -------------------------------------------------------- annotated places
    def traits(self, kind):
        if kind in TA:
            return self.r.choice(TA[kind][1])[1]
        return self.r.choice(KINDS[kind][0])

    def declare(self, scope, x=0.85):
        """the traits come from a declared type here"""
        k = scope.kind
        if not self.ta or not (k in TA or k in TA_SPELL and self.p(x)):
            return
        t, l = self.r.choice(TA[k][1] if k in TA else TA_SPELL[k])
        scope.declared, scope.listed = t, l
        self.use("declared: " + re.sub(r"<.*?>|\(.*?\) -> u32", "", t))
        if self.byhand and self.p(0.25):
            names = l.replace(" ", "").split(",")
            r = self.r.choice([names[0], names[-1], self.r.choice(EXTRA[MAKE[k]] or [names[0]])])
            implied = {"Iterator": ("DoubleEndedIterator", "ExactSizeIterator", "FusedIterator"), "Deref": ("DerefMut",)}
            scope.given = r
            self.use("declared and listed")

    def nest_declared(self, scope):
        """opaque types inside the declared one (the declared type of a let binding is dropped, so anything goes)"""
        have = {x.split("::")[-1] for x in scope.listed.split(", ")}
        extra = []
        def one(m):
            t = self.r.choice(["Clone", "Debug", "fmt::Debug", "fmt::Display", "Display", "Extend<u32>", "AsRef<u32>", "Debug + Clone", "Sized + fmt::Display"])
            if self.p(0.3):
                t = self.r.choice([f"AsRef<impl {t}>", f"Deref<Target = &'static (u8, impl {t})>"])
            for n in re.findall(r"(?:fmt::)?[A-Z]\w+", t):
                if n not in ("Sized", "Target") and n.split("::")[-1] not in have:
                    have.add(n.split("::")[-1])
                    extra.append(n)
            if "+" in t:
                return m.group(1) + self.r.choice([f"(impl {t})", f"Box<impl {t}>", f"&'static (impl {t})"])
            return m.group(1) + self.r.choice([f"impl {t}", f"(u32, impl {t})", f"&'static impl {t}", f"Box<impl {t}>", f"Option<impl {t}>", f"Result<impl {t}, [u8; 2]>"])
        d = re.sub(r"((?:Item|Output|Target) = |-> )u32", one, scope.declared)
        if extra:
            self.use("declared: opaque types within")
            scope.declared, scope.listed = d, ", ".join(extra + scope.listed.split(", "))

    def opaque(self, scope):
        """return type of a function (both sides)"""
        if scope.declared:
            return scope.declared if self.byhand else f"⟦A:{scope.declared}⟧⟦R:{KINDS[scope.kind][2]}⟧"
        return KINDS[scope.kind][1] if self.byhand else f"⟦A:{KINDS[scope.kind][1]}⟧⟦R:{KINDS[scope.kind][2]}⟧"

    def attr(self, scope):
        if scope.declared:
            mk = [f"marker = {scope.marker}"] if scope.marker != "marker" else []
            a = ", ".join(self.r.sample(mk + ([scope.given] if scope.given else []), len(mk) + bool(scope.given)))
            a = f"#[auto_enum({a})]" if a or self.p(0.1) else "#[auto_enum]"
            if not self.byhand:
                return f"⟦A:{a}⟧"
            listed = scope.listed.split(", ")
            short = lambda t: t.split("::")[-1] if t != "fmt::Write" else t
            if scope.given and short(scope.given) not in map(short, listed):
                listed.insert(0, scope.given)
            return f"⟦A:{a}⟧⟦R:#[auto_enum({', '.join(mk + listed)})]⟧"
        t = self.traits(scope.kind)
        if scope.marker != "marker":
            self.use("custom marker")
            a = self.r.choice([f"marker = {scope.marker}, {t}", f"{t}, marker = {scope.marker}", f"{t}, marker = {scope.marker},"])
        else:
            a = self.r.choice([t, t, t + ","])
        return f"#[auto_enum({a})]" if self.byhand else f"⟦A:#[auto_enum({a})]⟧"

    def new_scope(self, c, kind=None):
        kind = kind or self.r.choice(self.kinds)
        taken = [s.marker for s in c.scopes]
        marker = "marker" if self.p(0.75) else self.name("mk")
        return Scope(kind, marker)

    def inner_ctx(self, c, scope):
        """inside another annotated place: an outer default-named marker is not visible there"""
        ret = c.ret
        if ret and ret.mode in ("wrap", "marker", "try") and ret.scope:
            vis = ret.scope.marker != "marker"
            if ret.mode == "marker" and not vis:
                ret = None
            elif ret.mode == "try" and not vis:
                ret = replace(ret, scope=replace(ret.scope, marker=""))
                ret.scope = ret.scope
            else:
                ret = replace(ret, explicit=ret.explicit and vis)
        loops = tuple(l if l.brk != "wrap" else Loop(l.label, "forbidden", l.scope) for l in c.loops)
        # a loop around which takes branches of an outer scope is not left from here
        loops = tuple(l for l in loops if l.brk != "forbidden") if not any(l.brk == "forbidden" for l in loops) else ()
        return replace(c, ret=ret, loops=loops, own=(), child=True, nest=c.nest - 1, depth=min(c.depth, 2), scopes=c.scopes[:1] if c.err == "try" else (scope,))

    def consume(self, kind, var, c):
        v = self.name()
        if kind in ("fut",) and c.aw and self.p(0.7):
            self.use("await of an annotated value")
            return f"let {v} = {var}.await;", self.bind(c, v)
        return f"let {v} = use_{kind}({self.site()}, {var});", self.bind(c, v)

    def annotated_let(self, c):
        for _ in range(50):
            scope = self.new_scope(c)
            self.declare(scope)
            if self.byhand and scope.declared and self.p(0.35):
                self.nest_declared(scope)
            ci = self.inner_ctx(c, scope)
            body = self.tail(scope, ci, top=True)
            if scope.branches(body) >= 2:
                break
        else:
            return f"op({self.site()});", c
        self.use("annotated let")
        x = self.name("x")
        before = c
        use, c = self.consume(scope.kind, x, c)
        if self.p(0.15) and scope.kind in ("iter", "disp"):
            # the value is the receiver of a call
            self.use("annotated receiver")
            if scope.kind == "iter":
                body = f"({body}).map(|x| x + 1).take(4)" if self.p(0.5) else f"{self.stmt_like(body)}.step_by(2)"
                if body.startswith("("):
                    self.use("annotated parenthesised receiver")
            elif not scope.declared:
                body = f"({body}).to_string()"
        ty = f"⟦A:: {scope.declared}⟧" if scope.declared else ""
        probe = ""
        if self.byhand and self.p(0.6):
            self.use("traits of the anonymous enum compared")
            probe = f"traits_of!({self.site()}, {x});"
        mut = self.r.choice(["mut ", "mut ", "mut ", "", "", "", "", "", ""])
        if not scope.declared and self.p(0.1):
            ty = ": _"
        if self.p(self.operand) and not self.own and not probe and not ty and not c.plain and "traits" not in body:
            # the annotated expression is an operand of something else
            self.use("annotated operand")
            e = f"{self.attr(scope)} {self.stmt_like(body)}"
            if not body.startswith(("match", "if", "loop", "{", "unsafe")):
                e = f"{self.attr(scope)} {body}" if body.startswith(("(", "'")) else None
            if e:
                s = self.site()
                v = self.name()
                form = self.r.choice([f"let {v} = use_{scope.kind}({s}, {e});", f"let {v} = (op({s}), use_{scope.kind}({s}, {e})).1;", f"let ({x}, {v}) = ({e}, op({s})); let {v} = {v} + use_{scope.kind}({s}, {x});",
                                      f"let {v} = [1, use_{scope.kind}({s}, {e})][1];", f"let {x} = Some({e}); let {v} = {x}.map_or(0, |x| use_{scope.kind}({s}, x));",
                                      f"let {v} = {{ let {x} = ({e},); use_{scope.kind}({s}, {x}.0) }};"])
                return form, self.bind(before, v)
        n = self.noise(0.1)
        at = self.attr(scope)
        at = f"{n}{at}" if self.p(0.5) else f"{at} {n}"
        return f"{at} let {mut}{x}{ty} = {body}; {probe} {use}", c

    def stmt_like(self, body):
        return body if body.startswith(("match", "(", "unsafe", "if", "loop", "{")) else f"({body})"

    def annotated_closure(self, c):
        for _ in range(50):
            scope = self.new_scope(c)
            a = self.name("a")
            ci = Ctx(ret=Ret("wrap", scope), vars=(a,), depth=min(c.depth, 2), nest=0, scopes=(scope,))
            body = self.fn_body(scope, ci)
            if scope.branches(body) >= 2:
                break
        else:
            return f"op({self.site()});", c
        self.use("annotated closure")
        f, x = self.name("f"), self.name("x")
        use, c2 = self.consume(scope.kind, x, c)
        ret = "" if self.byhand else f"⟦R: -> {KINDS[scope.kind][2]}⟧"
        return f"{self.attr(scope)} let {f} = |{a}: u32|{ret} {{ {body} }}; let {x} = {f}({self.atom(c)}); {use}", c2

    def branch_item(self, c):
        """at times, an item with nested branches of its own in front of the value of a branch"""
        if c.nest <= 0 or not self.p(0.2 if self.prop == "C14" else 0.02):
            return "", c
        self.use("annotated inner item in a branch")
        return self.annotated_item(replace(c, depth=max(c.depth, 1)), "#[nested]")

    def annotated_item(self, c, want=None):
        """an item with an annotation of its own inside other code: the macro around it has nothing to do with it"""
        n = self.name("inner")
        x = self.name("x")
        if want is None and not self.byhand and self.prop not in ("C20",) and self.p(0.25):
            scope = Scope("err", "marker" if self.p(0.8) else self.name("mk"))
            ci = Ctx(ret=Ret("try", scope), vars=("a",), depth=min(c.depth, 2), scopes=(scope,), nest=0, err="try")
            st, ci = self.stmts(ci, self.r.randrange(0, 3))
            st += f" let q1 = {self.question(ci)}; let q2 = {self.question(ci)}; log({self.site()}, q1 + q2);"
            ret = " -> ⟦A:Result<u32, impl std::error::Error>⟧⟦R:Result<u32, Box<dyn std::error::Error>>⟧"
            t = "Error" if scope.marker == "marker" else f"Error, marker = {scope.marker}"
            self.use("annotated inner fn with ?")
            return f"⟦A:#[auto_enum({t})]⟧ fn {n}(a: u32){ret} {{ {st} {self.try_tail(scope, ci)} }} ⟦A:done_enum⟧⟦R:done_ref⟧({n}({self.atom(c)}));", c
        want = want or ("#[nested]" if self.p(0.5) else "")
        for _ in range(50):
            scope = self.new_scope(c)
            self.declare(scope)
            form = self.r.randrange(6)
            ci = Ctx(ret=Ret("wrap", scope), vars=("a",), depth=min(c.depth, 2), nest=0, scopes=(scope,))
            body = self.fn_body(scope, ci)
            if scope.branches(body) >= 2 and want in body:
                break
        else:
            return f"op({self.site()});", c
        use, c2 = self.consume(scope.kind, x, c)
        head = f"{self.attr(scope)} fn {n}({{}}a: u32) -> {self.opaque(scope)} {{{{ "
        fn = lambda first="": head.format(first) + body + " }"
        a = self.atom(c)
        self.use(f"annotated inner item {form}")
        if form < 2:
            return f"{fn()} let {x} = {n}({a}); {use}", c2
        t = self.name("S")
        if form == 2:
            return f"struct {t}; impl {t} {{ {fn()} fn own(&self) -> u32 {{ if cond({self.site()}) {{ return 1; }} 2 }} }} let {x} = {t}::{n}({a}); log({self.site()}, {t}.own()); {use}", c2
        if form == 3:
            return f"mod {t} {{ use super::*; {IMPORTS} use auto_enums::auto_enum; pub {fn()} }} let {x} = {t}::{n}({a}); {use}".replace("pub ⟦A:", "⟦A:").replace(f"fn {n}", f"pub fn {n}").replace("pub #[", "#["), c2
        if form == 4:
            # reached from a plain inner function
            return f"fn {t}(a: u32) {{ {fn()} if a > 100 {{ return; }} use_{scope.kind}({self.site()}, {n}(a)); }} {t}({a});", c
        # an annotated let in a plain inner function
        ci = Ctx(ret=Ret("unit"), vars=("a",), depth=min(c.depth, 2), nest=1, plain=True)
        st, _ = self.annotated_let(ci)
        return f"{self.a('#[auto_enum]')} fn {t}(a: u32) {{ {st} }} {t}({a});", c

    def fn_body(self, scope, c):
        st, c2 = self.stmts(c, self.r.randrange(0, 4))
        return f"{st} {self.tail(scope, c2, top=True)}"

    # -------------------------------------------------------- tails
    def tail(self, scope, c, top=False, nested=False):
        """an expression whose branches the macro finds by itself"""
        s = self.site()
        if c.depth <= 0:
            k = self.r.choice(["if", "match"])
        else:
            k = self.r.choices(["if", "match", "loop", "block", "unsafe", "paren", "marked", "leave", "match_shape", "receiver"],
                               [7, 7, 4, 2, 1, 1, 1 if top and not nested else 0, 1 if top and c.ret and c.ret.mode == "wrap" else 0, 3, 1 if scope.kind in KINDS else 0])[0]
        d = c.deeper()
        self.use(f"tail: {k}")
        if k == "marked":
            return self.marked(scope, c)
        if k == "leave":
            return f"return {self.retval(c)}"
        if k == "block":
            st, c2 = self.stmts(d, self.r.randrange(0, 3))
            return f"{{ {st} {self.tail(scope, c2, top)} }}"
        if k == "unsafe":
            st, c2 = self.stmts(d, self.r.randrange(0, 2))
            return f"unsafe {{ {st} {self.tail(scope, c2, top)} }}"
        if k == "paren":
            return f"({self.tail(scope, d, top)})"
        if k == "receiver":
            # (one branch completes: the type of a receiver has to be known)
            st, c2 = self.stmts(d, self.r.randrange(0, 2))
            leaf = self.block_leaf(scope, c2)
            x = self.r.choice(["if {h} {{ {l} }} else {{ {b} }}", "match {h} {{ true => {{ {l} }} false => {{ {b} }} }}", "if {h} {{ {l} }} else {t}"])
            x = x.format(h=f"cond({self.site()})", l=f"{st} {leaf}", b=self.block_branch(scope, d), t=self.tail_if(scope, c))
            return f"({x}).same()"
        if k == "if":
            return self.tail_if(scope, c)
        if k == "match":
            return self.tail_match(scope, c)
        if k == "match_shape":
            return self.tail_match_shape(scope, c)
        if k == "loop":
            l, lab = self.label()
            c2 = replace(d, own=(), loops=c.loops + (Loop(l, "wrap", scope),))
            st, _ = self.stmts(c2, self.r.randrange(0, 3))
            lb = f" {l}" if l and self.p(0.5) else ""
            more = ""
            if self.p(0.5):
                more = f"if cond({s}) {{ break{lb} {self.branch(scope, c2)}; }}"
            end = f"if exit({s}) {{ break{lb} {self.branch(scope, c2)}; }}"
            if self.p(0.3):
                self.use("break as an arm")
                end = f"match pick({s}, 3) {{ 0 if !exit({s}) => continue, 1 => break{lb} {self.branch(scope, c2)}, _ => {{ break{lb} {self.branch(scope, c2)} }} }}"
            return f"{lab}loop {{ {st} {more} {end} }}"
        raise AssertionError(k)

    def block_branch(self, scope, c):
        """inside of the block of an `if` branch"""
        k = self.r.randrange(12)
        if k < 6 or c.depth <= 0:
            it, c = self.branch_item(c)
            st, c2 = self.stmts(c, self.r.randrange(0, 3))
            return f"{it} {st} {self.block_leaf(scope, c2)}"
        if k < 8:
            b = self.diverging_block(c)
            if b.rstrip().endswith("?"):
                # has to have the type of the branch: the value never arrives
                return b if False else f"{self.stmts(c, 1)[0]} {self.block_leaf(scope, c)}"
            return b
        if k < 10:
            self.use("#[nested] in a block")
            st, c2 = self.stmts(c, self.r.randrange(0, 2))
            return f"{st} {self.a('#[nested]')} {self.tail(scope, c2.deeper(), nested=True)}"
        if k == 10:
            self.use("#[nested] let")
            st, c2 = self.stmts(c, self.r.randrange(0, 2))
            x = self.name("x")
            return f"{st} {self.a('#[nested]')} let {x} = {self.tail(scope, c2.deeper(), nested=True)}; op({self.site()}); {x}"
        if self.p(0.5):
            self.use("block: #[never]")
            st, c2 = self.stmts(c, self.r.randrange(0, 2))
            return f"{st} {self.a('#[never]')} {self.never_value(scope, c2)}"
        self.use("marker as a block's value")
        st, c2 = self.stmts(c, self.r.randrange(0, 2))
        return f"{st} {self.marked(scope, c2)}"

    def never_value(self, scope, c):
        """what #[never] may stand before: it does not complete, or has the type already"""
        s = self.site()
        if scope.marker and self.p(0.5):
            m = self.name("m")
            self.use("#[never]: of the type already")
            if self.p(0.2):
                return f"same({self.marked(scope, c)})"
            e = self.r.choice([f"same({m})", f"({m})", f"{{ op({s}); {m} }}", f"({m}, {s}).0", f"*Box::new({m})", f"Some({m}).unwrap()", f"unsafe {{ {m} }}", f"match {m} {{ y => y }}", f"Some({m}).into_iter().next().unwrap()",
                               f"Same {{ v: {m} }}.v", f"{m}.same()" if scope.kind in KINDS else m, f"if cond({s}) {{ op({s}); {m} }} else {{ {m} }}", f"loop {{ break {m}; }}", f"'z: {{ break 'z {m}; }}", f"std::convert::identity({m})", f"(|| {m})()", m, f"{{ let y = {m}; y }}"]
                              + ([f"async {{ {m} }}.await", f"std::future::ready({m}).await"] if c.aw else []))
            return f"{{ let {m} = {self.marked(scope, c)}; log({s}, 1); {self.a('#[never]')} {e} }}" if self.p(0.5) else f"{{ let {m} = {self.marked(scope, c)}; {e} }}"
        self.use("#[never]: does not complete")
        opts = [f"diverge({s})", f"(diverge({s}))", f"{{ op({s}); diverge({s}) }}", f"unsafe {{ diverge({s}) }}", f"loop {{ op({s}); diverge({s}) }}", f"loop {{ if exit({s}) {{ diverge({s}) }} }}",
                f"match pick({s}, 2) {{ 0 => diverge({s}), _ => diverge({s}) }}", f"if cond({s}) {{ diverge({s}) }} else {{ diverge({s}) }}", f"(diverge({s}), 1).0", f"*Box::new(diverge({s}))", f"(|| diverge({s}))()",
                f"Same {{ v: diverge({s}) }}.v", f"Same {{ v: {s} }}.never({s})", f"todo!(\"t{s}\")", f"unimplemented!()", f"'z: {{ break 'z diverge({s}) }}", f"same(diverge({s}))"]
        if c.aw:
            opts += [f"never({s}).await", f"async {{ diverge({s}) }}.await"] * 3
        if c.err == "own":
            opts += [f"Ok::<_, Er<{c.erri}>>(diverge({s}))?", f"never_ok::<{c.erri}>({s})?"] * 3
        if c.err == "try" and not c.child:
            q = f"⟦Q:{c.scopes[-1].id}⟧never_ok::<{self.r.randrange(16)}>({s})?"
            opts += [f"({q})", f"{{ {q} }}", f"{{ op({s}); {q} }}", f"Same {{ v: {q} }}.v"] * 2
        return self.r.choice(opts)

    def block_leaf(self, scope, c):
        leaf = self.leaf(scope.kind, c)
        return self.wrap(scope, c, leaf)

    def cond_head(self, c):
        s = self.site()
        if self.own and self.p(0.4):
            self.use("own: temporary in the head of a branch")
            v = self.name()
            k = self.r.randrange(4)
            if k == 0:
                return f"guard({s}).get() % 2 == 0 && cond({s})", c
            if k == 1:
                return f"let Some({v}) = guard({s}).opt()", self.bind(c, v)
            if k == 2:
                return f"let Some({v}) = opt_val({s})", replace(c, own=c.own + (v,))
            return f"{{ let g = guard({s}); cond(g.get()) }}", c
        k = self.r.randrange(6)
        if k < 3:
            return f"cond({s})", c
        if k == 3:
            v = self.name()
            self.use("if let")
            return f"let Some({v}) = opt({s})", self.bind(c, v)
        if k == 4:
            return f"cond({s}) && {self.atom(c)} < 3", c
        v = self.name()
        self.use("if let with alternatives")
        return f"let Shape::Pair({v}, _) | Shape::Rec {{ a: {v}, .. }} = shape({s})", self.bind(c, v)

    def tail_if(self, scope, c):
        d = c.deeper()
        out = ""
        n = self.r.randrange(1, 4)
        for _ in range(n):
            h, ci = self.cond_head(d)
            out += f"if {h} {{ {self.block_branch(scope, ci)} }} else "
        return out + f"{{ {self.block_branch(scope, d)} }}"

    def arm(self, scope, pat, c):
        s = self.site()
        d = c.deeper()
        k = self.r.randrange(20)
        comma = "," if self.p(0.7) else ""
        if k < 7 or c.depth <= 0:
            return f"{self.noise()}{pat} => {self.wrap(scope, d)},"
        if k < 10:
            self.use("arm: block")
            it, d = self.branch_item(d)
            st, c2 = self.stmts(d, self.r.randrange(1, 3))
            return f"{self.noise()}{pat} => ⟦W:{scope.k}:{{ {it} {st} {self.leaf(scope.kind, c2)} }}⟧{'⟦A:' + comma + '⟧⟦R:,⟧' if not self.byhand else comma}"
        if k < 13:
            x = self.diverge(d)
            if x.endswith("?"):
                return f"{pat} => {x},"
            self.use("arm: diverges")
            if self.p(0.2):
                return self.r.choice([f"{pat} => unsafe {{ {x} }}{comma}", f"{pat} => ({x}),", f"{pat} => ({{ {x} }}),"])
            return f"{pat} => {x},"
        if k == 13:
            self.use("arm: diverging block")
            b = self.diverging_block(d)
            if b.rstrip().endswith("?"):
                return f"{pat} => {self.wrap(scope, d)},"
            return f"{pat} => {{ {b} }}{comma}"
        if k < 16:
            self.use("arm: #[nested]")
            t = self.tail(scope, d.deeper(), nested=True)
            return self.r.choice([f"{self.a('#[nested]')} {pat} => {t},", f"{self.a('#[nested]')} {pat} => {{ op({s}); {t} }}{comma}", f"{pat} => {self.a('#[nested]')} {t},",
                                  f"{pat} => {{ op({s}); {self.a('#[nested]')} {t} }}{comma}"])
        if k == 16:
            self.use("arm: #[never]")
            if self.p(0.5):
                x = self.never_value(scope, d)
                if self.p(0.4):
                    st, d = self.stmts(d, self.r.randrange(1, 3))
                    x = self.never_value(scope, d)
                    return f"{pat} => {{ {st} {self.a('#[never]')} {x} }}{comma}"
                return f"{self.a('#[never]')} {pat} => {x}," if self.p(0.5) else f"{pat} => {self.a('#[never]')} {x},"
            return self.r.choice([f"{self.a('#[never]')} {pat} => diverge({s}),", f"{pat} => {self.a('#[never]')} diverge({s}),", f"{self.a('#[never]')} {pat} => {{ op({s}); diverge({s}) }}"])
        if k == 17:
            self.use("arm: marker")
            return f"{pat} => {self.marked(scope, d)},"
        if k == 18:
            self.use("arm: block with #[nested] let")
            x = self.name("x")
            return f"{pat} => {{ {self.a('#[nested]')} let {x} = {self.tail(scope, d.deeper(), nested=True)}; log({s}, 0); {x} }}{comma}"
        return f"{pat} => {self.wrap(scope, d)},"

    def tail_match(self, scope, c):
        s = self.site()
        n = self.r.randrange(2, 6)
        head = f"pick({s}, {n})"
        if self.own and self.p(0.4):
            self.use("own: temporary in the head of a branch")
            head = self.r.choice([f"pick(guard({s}).get(), {n})", f"*guard({s}).pick({n})", f"{{ let g = guard({s}); pick(g.get(), {n}) }}", f"guard({s}).opt().map_or(0, |x| x as usize)"])
        if c.err and self.p(0.3):
            q = self.question(c)
            head = f"{q} as usize"
        arms = []
        for i in range(n - 1):
            v = self.name("p")
            pat = self.r.choice([f"{i}", f"{i}", f"{i} | {i + 10}", f"{i} if cond({s})", f"{v} @ {i} if {v} < 9", f"{i}..={i}"])
            c2 = c
            arms.append(self.arm(scope, pat, c2))
        arms.append(self.arm(scope, "_", c))
        return f"match {head} {{ {' '.join(arms)} }}"

    def tail_match_shape(self, scope, c):
        s = self.site()
        a, b = self.name("a"), self.name("b")
        arms = [self.arm(scope, "Shape::Unit", c),
                self.arm(scope, f"Shape::Pair({a}, {b}) if {a} < {b} || cond({s})", replace(c, vars=c.vars + (a, b))),
                self.arm(scope, f"Shape::Pair({a}, ..)", self.bind(c, a)),
                self.arm(scope, f"Shape::Rec {{ a: {a} @ (0 | 1), b: true }}", self.bind(c, a)),
                self.arm(scope, f"Shape::Rec {{ a: {a}, .. }}", self.bind(c, a))]
        return f"match shape({s}) {{ {' '.join(arms)} }}"

    # -------------------------------------------------------- whole programs
    def program(self):
        for _ in range(200):
            n, used = self.n, dict(self.used)
            prog = self.r.choice(PROGS[self.prop])
            self.byhand = self.ta and prog not in ("try", "dummy") and self.p(0.6)
            self.kinds = list(KINDS) + (list(TA) * 2 if self.byhand else [])
            r = getattr(self, "prog_" + prog)()
            if r is not None:
                return r
            self.n, self.used = n, used
        raise RuntimeError("no program")

    def fn_frame(self, sig, retp, body, run, attr):
        """one module text with fn `f`; `run` is the expression that executes it"""
        return f"{attr} {sig}{retp} {{ {body} }}", run

    def extras(self):
        return self.r.choice(["", "", "", "#[inline] ", "/// doc\n", "#[allow(unused_mut)] ", "pub ", "pub(crate) ", "unsafe "])

    def sig(self, name="f", refs=False):
        self.params = ()
        head, args, vs = self.sig_(name, refs)
        n = self.noise(0.1)
        return (n if "cfg_attr" not in n and "skip" not in n else "") + head, args, vs

    def sig_(self, name, refs=False):
        """function head, arguments at the call, variables"""
        k = self.r.randrange(8)
        pre = self.r.choice(["", "", "", "pub ", "pub(crate) "])
        if self.own and self.p(0.7):
            k = self.r.randrange(4)
            self.use("own: values as arguments")
            self.params = ("g0",)
            if k == 0:
                return f"{pre}fn {name}(g0: Guard, a: u32)", "(guard(0), 1)", ("a",)
            if k == 1:
                self.params = ("g0", "h0")
                return f"{pre}fn {name}((g0, h0): (Guard, Guard), a: u32, _: Guard)", "((guard(0), guard(0)), 1, guard(0))", ("a",)
            if k == 2:
                return f"{pre}fn {name}(_: Guard, g0: Guard, mut a: u32)", "(guard(0), guard(0), 2)", ("a",)
            self.params = ()
            return f"{pre}fn {name}<T: Into<u32> + Copy + 'static>(_t: T, Hold(_, ref _r): Hold, a: u32)", "(3u8, Hold(guard(0), guard(0)), 1)", ("a",)
        if k == 5 and refs:
            self.use("lifetimes in the signature")
            return self.r.choice([(f"{pre}fn {name}<'x>(a: &'x u32, b: &u32)", "(&1, &2)", ("(*a)", "(*b)")), (f"{pre}fn {name}<'x: 'y, 'y, T: Copy + Into<u32> + 'x>(a: &'x u32, t: &'y T)", "(&1, &4u8)", ("(*a)", "(*t).into()")),
                                  (f"{pre}fn {name}(a: &[u32], &b: &u32)", "(&[3, 4], &5)", ("a[0]", "b"))])
        if k == 0:
            return f"{pre}fn {name}()", "()", ()
        if k == 1:
            return f"{pre}fn {name}<T: Into<u32> + Copy + 'static>(t: T, a: u32)", "(3u8, 2)", ("a", "t.into()")
        if k == 2:
            return f"{pre}fn {name}<const N: usize>(a: [u32; N])", "([1, 2, 3])", ("a[0]", "(N as u32)")
        if k == 3:
            return f"{pre}fn {name}(mut a: u32, _: &'static str)", "(1, \"\")", ("a",)
        if k == 4:
            return f"{pre}fn {name}((a, b): (u32, u32), Wrapping(w): Wrapping<u32>)", "((0, 1), Wrapping(2))", ("a", "b", "w")
        return f"{pre}fn {name}(a: u32, b: u32)", "(1, 2)", ("a", "b")

    def with_acc(self, c):
        return replace(c, acc=True)

    def head_stmts(self):
        return "let mut acc = 0u32;"

    def prog_fn(self):
        """fn -> impl Trait: branches are the tail's and every `return`"""
        kind = self.r.choice(["iter", "iter", "disp", "fn", "read", "fut", "stream"])
        scope = Scope(kind, "marker" if self.p(0.8) else self.name("mk"))
        self.declare(scope)
        sig, args, vs = self.sig(refs=True)
        c = Ctx(own=self.params, ret=Ret("wrap", scope), vars=vs, acc=True, depth=3, scopes=(scope,))
        body = self.fn_body(scope, c)
        if scope.branches(body) < 2:
            return None
        ret = f" -> {self.opaque(scope)}"
        self.use("program: fn -> impl Trait")
        return f"{self.attr(scope)} {sig}{ret} {{ {self.head_stmts()} {body} }}", f"use_{kind}(0, f{args});", f"use_{kind}(0, f{args});"

    def prog_method(self):
        kind = self.r.choice(self.kinds)
        scope = Scope(kind)
        self.declare(scope)
        c = Ctx(ret=Ret("wrap", scope), vars=("self.0", "a"), acc=True, depth=3, scopes=(scope,), nest=1)
        body = self.fn_body(scope, c)
        if scope.branches(body) < 2 or "fn " in body or "struct" in body or "|" in body and "self" in body and "closure" in body:
            return None
        ret = f" -> {self.opaque(scope)}"
        if re.search(r"\|[^|]*\|[^;]*self\.0|async [^;]*self\.0", body) or kind in ("iter", "fn", "fut", "read") and "move" in body:
            return None
        self.use("program: method")
        recv = self.r.choice(["&self", "self", "&mut self"])
        return (f"pub struct S(u32); impl S {{ {self.attr(scope)} fn f({recv}, a: u32){ret} {{ {self.head_stmts()} {body} }} }}",
                f"use_{kind}(0, S(2).f(1));", f"use_{kind}(0, S(2).f(1));")

    def prog_let(self):
        """annotated lets and expressions inside a function that is not annotated otherwise"""
        sig, args, vs = self.sig(refs=True)
        c = Ctx(own=self.params, ret=Ret("u32"), vars=vs, acc=True, depth=3, nest=2)
        out = []
        c = replace(c)
        st, c = self.stmts(c, self.r.randrange(0, 3))
        out.append(st)
        for _ in range(self.r.randrange(1, 3)):
            t, c = self.r.choice([self.annotated_let, self.annotated_closure])(c)
            out.append(t)
            st, c = self.stmts(c, self.r.randrange(0, 2))
            out.append(st)
        body = " ".join(out)
        if "auto_enum" not in body:
            return None
        self.use("program: annotated lets")
        text = f"{self.a('#[auto_enum]')} {sig} -> u32 {{ {self.head_stmts()} {body} acc + {self.atom(c)} }}"
        return text, f"ev!(\"result {{}}\", f{args});", f"ev!(\"result {{}}\", f{args});"

    def prog_expr(self):
        """an annotated expression as the tail of a plain function"""
        kind = self.r.choice(["iter", "disp", "read"])
        scope = Scope(kind, "marker" if self.p(0.8) else self.name("mk"))
        sig, args, vs = self.sig(refs=True)
        c = Ctx(own=self.params, vars=vs, acc=True, depth=3, scopes=(scope,))
        st, c = self.stmts(replace(c, nest=1), self.r.randrange(0, 3))
        t = self.tail(scope, replace(c, nest=0), top=True)
        if scope.branches(st + t) < 2 or not t.startswith(("match", "if", "loop", "'", "{", "unsafe")) or t.startswith("'"):
            return None
        self.use("program: annotated tail expression")
        ret = f" -> {self.opaque(scope)}"
        return f"{self.a('#[auto_enum]')} {sig}{ret} {{ {self.head_stmts()} {st} {self.attr(scope)} {t} }}", f"use_{kind}(0, f{args});", f"use_{kind}(0, f{args});"

    def prog_option(self):
        """fn -> Option<impl Trait> and tuples: explicit markers only (plus returns, which stay as they are)"""
        kind = self.r.choice(self.kinds)
        scope = Scope(kind, "marker" if self.p(0.5) else self.name("mk"))
        self.declare(scope)
        sig, args, vs = self.sig(refs=True)
        form = self.r.choice([("Option<{}>", "Some(", ")"), ("Option<{}>", "Some(", ")"), ("({}, u32)", "(", ", 5)"), ("Option<Option<{}>>", "Some(Some(", "))")])
        c = Ctx(own=self.params, ret=Ret("marker", scope, form[1], form[2]), vars=vs, acc=True, depth=3, scopes=(scope,), nest=1)
        st, c = self.stmts(c, self.r.randrange(1, 4))
        tail = f"{form[1]}{self.marked(scope, c)}{form[2]}"
        none = "None" if form[0].startswith("Option") else tail
        for _ in range(self.r.randrange(2)):
            st2, c2 = self.stmts(c.deeper(), 1)
            other = self.r.choice([none, f"return {form[1]}{self.marked(scope, c)}{form[2]}"])
            if other.startswith("return"):
                tail_ = f"{{ {st2} {other} }}"
            else:
                tail_ = None
            if tail_:
                st += f" if cond({self.site()}) {tail_}"
        if scope.branches(st + tail) < 2:
            st += f" if cond({self.site()}) {{ return {form[1]}{self.marked(scope, c)}{form[2]}; }}"
        self.use("program: markers inside " + form[0].format("impl"))
        ret = " -> " + form[0].format(f"{self.opaque(scope)}")
        use = {"Option<{}>": f"if let Some(x) = f{args} {{ use_{kind}(0, x); }} else {{ log(0, 0) }}", "({}, u32)": f"use_{kind}(0, f{args}.0);",
               "Option<Option<{}>>": f"if let Some(Some(x)) = f{args} {{ use_{kind}(0, x); }}"}[form[0]]
        return f"{self.attr(scope)} {sig}{ret} {{ {self.head_stmts()} {st} {tail} }}", use, use

    def prog_try(self):
        """fn -> Result<T, impl Error>"""
        scope = Scope("err", "marker" if self.p(0.8) else self.name("mk"))
        sig, args, vs = self.sig(refs=True)
        c = Ctx(own=self.params, ret=Ret("try", scope), vars=vs, acc=True, depth=3, scopes=(scope,), nest=1, err="try")
        st, c = self.stmts(c, self.r.randrange(2, 6))
        tail = self.try_tail(scope, c)
        if scope.tries(st + tail) < 2:
            st += f" let q1 = {self.question(c)}; let q2 = {self.question(c)}; log(0, q1 + q2);"
        self.use("program: fn -> Result<T, impl Error>")
        t = self.r.choice(["Error", "Error", "error::Error"])
        if self.ta and self.p(0.8):
            scope.declared = f"impl {t}"
            self.use(f"declared: impl {t} in a Result")
            t = "" if scope.marker == "marker" else f"marker = {scope.marker}"
        elif scope.marker != "marker":
            t += f", marker = {scope.marker}"
        res = self.r.choice(["Result", "Result", "std::result::Result", "core::result::Result", "::std::result::Result"])
        imp = scope.declared or self.r.choice(["impl std::error::Error", "impl std::error::Error + 'static"])
        ret = f" -> ⟦A:{res}<u32, {imp}>⟧⟦R:Result<u32, Box<dyn std::error::Error>>⟧"
        return f"⟦A:#[auto_enum({t})]⟧ {sig}{ret} {{ {self.head_stmts()} {st} {tail} }}", f"done_enum(f{args});", f"done_ref(f{args});"

    def try_tail(self, scope, c):
        s = self.site()
        k = self.r.randrange(6)
        ok = f"Ok({self.u32(c)})"
        if k < 2:
            return ok
        if k == 2:
            return f"match pick({s}, 3) {{ 0 => {ok}, 1 => Err(er::<{self.r.randrange(16)}>({s}))?, _ => Ok({self.question(c)}) }}"
        if k == 3:
            return f"if cond({s}) {{ {ok} }} else {{ Err(⟦M:{scope.marker}:{scope.k}:er::<2>({s})⟧) }}"
        if k == 4:
            return f"loop {{ if exit({s}) {{ break Ok({self.question(c)}); }} if cond({s}) {{ Err::<u32, _>(er::<3>({s}))?; }} }}"
        return f"match {self.question(c)} {{ 0 => {ok}, x => Ok(x) }}"

    def prog_try_closure(self):
        """closures with two or more `?` and an opaque error"""
        self.use("program: annotated closure with ?")
        scope = Scope("err")
        c = Ctx(ret=Ret("try", scope), vars=("b",), depth=2, scopes=(scope,), nest=0, err="try")
        st, c = self.stmts(c, self.r.randrange(1, 4))
        q = f"let q1 = {self.question(c)}; let q2 = {self.question(c)};"
        body = f"{st} {q} Ok::<u32, _>(q1 + q2 + {self.atom(c)})"
        n = self.r.randrange(1, 3)
        calls = " ".join(f"⟦A:done_enum⟧⟦R:done_ref⟧(g({i}));" for i in range(n))
        text = (f"{self.a('#[auto_enum]')} fn f() {{ op(0); ⟦A:#[auto_enum(Error)]⟧ let g = |b: u32|⟦R: -> Result<u32, Box<dyn std::error::Error>>⟧ {{ {body} }}; {calls} }}")
        return text, "f();", "f();"

    def prog_async(self):
        """async code around annotated expressions"""
        sig, args, vs = self.sig()
        c = Ctx(own=self.params, ret=Ret("u32"), vars=vs, acc=True, depth=3, nest=2, aw=True)
        out = []
        for _ in range(self.r.randrange(1, 3)):
            st, c = self.stmts(c, self.r.randrange(1, 3))
            out.append(st)
            t, c = self.annotated_let(c)
            out.append(t)
        st, c = self.stmts(c, self.r.randrange(0, 3))
        body = " ".join(out) + st
        if "auto_enum" not in body:
            return None
        self.use("program: async fn with annotated lets")
        if self.p(0.5):
            text = f"{self.a('#[auto_enum]')} {sig.replace('fn ', 'async fn ')} -> u32 {{ {self.head_stmts()} {body} acc + {self.atom(c)} }}"
        else:
            self.use("program: fn with async block")
            if "t.into()" in sig or True:
                text = (f"{self.a('#[auto_enum]')} {sig} -> impl std::future::Future<Output = u32> {{ async move {{ {self.head_stmts()} {body} acc + {self.atom(c)} }} }}")
        return text, f"ev!(\"result {{:?}}\", run_task(f{args}));", f"ev!(\"result {{:?}}\", run_task(f{args}));"

    def prog_async_fn(self):
        """async fn whose own result is the annotated value"""
        kind = self.r.choice(["iter", "disp", "fn", "read", "stream"])
        scope = Scope(kind, "marker" if self.p(0.8) else self.name("mk"))
        self.declare(scope)
        sig, args, vs = self.sig()
        c = Ctx(own=self.params, ret=Ret("wrap", scope), vars=vs, acc=True, depth=3, scopes=(scope,), aw=True)
        body = self.fn_body(scope, c)
        if scope.branches(body) < 2:
            return None
        ret = f" -> {self.opaque(scope)}"
        self.use("program: async fn -> impl Trait")
        run = f"if let Some(x) = run_task(f{args}) {{ use_{kind}(0, x); }}"
        return f"{self.attr(scope)} {sig.replace('fn ', 'async fn ')}{ret} {{ {self.head_stmts()} {body} }}", run, run

    def prog_async_try(self):
        """async fn -> Result<T, impl Error>"""
        scope = Scope("err", "marker" if self.p(0.8) else self.name("mk"))
        sig, args, vs = self.sig()
        c = Ctx(own=self.params, ret=Ret("try", scope), vars=vs, acc=True, depth=3, scopes=(scope,), nest=1, err="try", aw=True)
        st, c = self.stmts(c, self.r.randrange(2, 6))
        tail = self.try_tail(scope, c)
        if scope.tries(st + tail) < 2:
            st += f" let q1 = {self.question(c)}; let q2 = {self.question(c)}; log(0, q1 + q2);"
        self.use("program: async fn -> Result<T, impl Error>")
        t = "Error" if scope.marker == "marker" else f"Error, marker = {scope.marker}"
        ret = " -> ⟦A:Result<u32, impl std::error::Error>⟧⟦R:Result<u32, Box<dyn std::error::Error>>⟧"
        return (f"⟦A:#[auto_enum({t})]⟧ {sig.replace('fn ', 'async fn ')}{ret} {{ {self.head_stmts()} {st} {tail} }}",
                f"if let Some(r) = run_task(f{args}) {{ done_enum(r) }}", f"if let Some(r) = run_task(f{args}) {{ done_ref(r) }}")

    def prog_dummy(self):
        """the function declares an opaque type but has one branch only: its annotation is there for the inner ones"""
        kind = self.r.choice(list(TA_SPELL))
        scope = Scope(kind, "")
        self.declare(scope, 1)
        sig, args, vs = self.sig()
        c = Ctx(own=self.params, vars=vs, acc=True, depth=3, nest=2)
        out = []
        self.operand = 0.6
        for _ in range(self.r.randrange(1, 3)):
            st, c = self.stmts(c, self.r.randrange(0, 2))
            before = c
            for _ in range(4):
                # (markers of inner annotations do not count for the function)
                t, c = self.annotated_let(before)
                if "⟦M" in t:
                    break
            out += [st, t]
        body = " ".join(out)
        if "auto_enum" not in body:
            return None
        m, s, i = MAKE[kind], self.site(), self.r.randrange(60)
        leaf = f"⟦R:bx_{kind}(⟧{m}::<{i}>({s}, {self.atom(c)})⟦R:)⟧"
        if self.p(0.5):
            two = f"⟦R:bx_{kind}(⟧{m}::<{i}>({self.site()}, {self.atom(c)})⟦R:)⟧"
            leaf = self.r.choice([f"return {leaf}", f"return {leaf};", f"if cond({s}) {{ return {two}; }} {leaf}", f"return if cond({s}) {{ {two} }} else {{ {leaf} }};"])
        self.use("program: declared type of a single branch")
        return f"⟦A:#[auto_enum]⟧ {sig} -> {self.opaque(scope)} {{ {self.head_stmts()} {body} {leaf} }}", f"use_{kind}(0, f{args});", f"use_{kind}(0, f{args});"

    def prog_stmt(self):
        """statements with a semicolon: only explicit markers count"""
        kind = self.r.choice(self.kinds)
        scope = Scope(kind, "marker" if self.p(0.6) else self.name("mk"))
        sig, args, vs = self.sig(refs=True)
        c = Ctx(own=self.params, vars=vs, acc=True, depth=2, scopes=(scope,), nest=0)
        st, c = self.stmts(c, self.r.randrange(0, 3))
        s = self.site()
        one = lambda: self.marked(scope, c)
        forms = [
            f"use_{kind}({s}, if cond({s}) {{ {one()} }} else {{ {one()} }});",
            f"use_{kind}({s}, match pick({s}, 3) {{ 0 => {one()}, 1 => {{ op({s}); {one()} }} _ => {one()} }});",
            f"{{ let x = match cond({s}) {{ true => {one()}, false => {{ let t = {one()}; op({s}); t }} }}; use_{kind}({s}, x); }};",
            f"use_{kind}({s}, loop {{ if cond({s}) {{ break {one()}; }} if exit({s}) {{ break {one()}; }} }});",
        ]
        at = "⟦at⟧"
        ch = lambda: self.r.choice([f"if cond({s}) {{ {one()} }} else {{ {one()} }}", f"match pick({s}, 3) {{ 0 => {one()}, _ => {{ op({s}); {one()} }} }}", f"{{ let x = {one()}; if cond({s}) {{ {one()} }} else {{ x }} }}"])
        use = lambda e: f"use_{kind}({s}, {e})"
        more = [
            lambda: f"for y in [{one()}, {one()}] {{ {use('y')}; }}", lambda: f"while let Some(y) = if cond({s}) {{ Some({one()}) }} else if cond({s}) {{ Some({one()}) }} else {{ None }} {{ {use('y')}; }}",
             lambda: f"({use(ch())}, 1);", lambda: f"(1, {use(ch())});", lambda: f"[1u32, {use(ch())}];", lambda: f"let z = cond({s}) && {{ {use(ch())}; true }}; log({s}, z as u32);", lambda: f"let z = {{ {use(ch())}; true }} || cond({s}); log({s}, z as u32);",
            lambda: f"if let Some(y) = Some({ch()}) {{ {use('y')}; }};", lambda: f"drop([Same {{ v: {one()} }}, Same {{ v: {one()} }}]);", lambda: f"{use(f'({ch()}, 1).0')};", lambda: f"{use(f'*Box::new({ch()})')};",
            lambda: f"Same {{ v: {ch()} }}.same();", lambda: f"Same {{ v: {use(ch())} }}.v;", lambda: f"({use(ch())}) as u64;", lambda: f"for _ in 0..({{ {use(ch())}; 2u32 }}) {{ op({s}); }}", lambda: f"for _ in 0..2 {{ {use(ch())}; }}", lambda: f"0..{{ {use(ch())}; 2 }};",
            lambda: f"(|| {{ {use(f'Some({ch()})?')}; None::<()> }})();", lambda: f"unsafe {{ {use(ch())} }};", lambda: f"return drop({use(ch())});", lambda: f"loop {{ {at} break drop({use(ch())}); }}", lambda: f"&mut ({ch()});",
            lambda: f"let z = now(async {{ {at} std::future::ready({use(ch())}).await; 0u32 }}); log({s}, z);", lambda: f"let z = now(async {{ {at} {use(f'std::future::ready({ch()}).await')}; 0u32 }}); log({s}, z);",
            lambda: f"drop(async {{ {ch()} }});", lambda: f"run_task(async {{ {use(ch())}; }});", lambda: f"let z = (|| {{ {at} Some({use(ch())})?; Some(1u32) }})(); log({s}, z.unwrap());", lambda: f"!{{ {use(ch())}; false }};",
            lambda: f"({use(ch())},).0;", lambda: f"[{use(ch())}; 1];",  lambda: f"[1u32, 2][{{ {use(ch())}; 1 }}];", lambda: f"while {{ {use(ch())}; false }} {{}}", lambda: f"while !exit({s}) {{ {use(ch())}; }}",
            lambda: f"'k: {{ if cond({s}) {{ break 'k drop({use(ch())}); }} op({s}); }};", lambda: f"loop {{ {use(ch())}; break }};", lambda: f"let y = || {{ {use(ch())}; }}; y();", lambda: f"let Some(y) = Some({ch()}) else {{ return }}; {use('y')};",
            lambda: f"let [y, z] = [{one()}, {one()}]; {use('z')}; {use('y')};", lambda: f"let (y, z) = ({ch()}, 1u32); log({s}, z); {use('y')};", lambda: f"let Same {{ v: ref y }} = Same {{ v: {ch()} }}; drop(y);"]
        form = self.r.choice(forms) if self.p(0.4) else self.r.choice(more)()
        form = form.replace(at, self.attr(scope)) if at in form else f"{self.attr(scope)} {form}"
        self.use("program: annotated statement")
        text = f"{self.a('#[auto_enum]')} {sig} {{ {self.head_stmts()} {st} {form} log(0, acc); }}"
        return text, f"f{args};", f"f{args};"

    def prog_pair(self):
        """two annotated functions of the same text in one module, calling each other's values"""
        kind = self.r.choice(["iter", "disp"])
        scope = Scope(kind)
        c = Ctx(ret=Ret("wrap", scope), vars=("a", "b"), acc=True, depth=2, scopes=(scope,))
        body = self.fn_body(scope, c)
        if scope.branches(body) < 2:
            return None
        ret = f" -> {self.opaque(scope)}"
        a = self.attr(scope)
        fn = f"{a} pub fn f(a: u32, b: u32){ret} {{ {self.head_stmts()} {body} }}"
        s2 = Scope(kind)
        outer = (f"{self.attr(s2)} fn g(){ret} {{ {fn} match pick({self.site()}, 3) {{ 0 => {self.wrap(s2, Ctx(depth=0), 'f(1, 2)')}, "
                 f"1 => {self.wrap(s2, Ctx(depth=0), 'inner::f(0, 1)')}, _ => {self.wrap(s2, Ctx(depth=0))} }} }}")
        self.use("program: same text twice")
        return f"pub mod inner {{ use super::*; {fn} }} {outer}", f"use_{kind}(0, g()); use_{kind}(0, inner::f(1, 1));", f"use_{kind}(0, g()); use_{kind}(0, inner::f(1, 1));"


WITH_TYPE_ANALYSIS = {"C16"}
PROGS = {
    "C12": ["fn", "fn", "fn", "fn", "let", "let", "let", "method", "expr", "stmt"],
    "C13": ["try", "try", "try", "try_closure", "async_try"],
    "C14": ["let", "let", "option", "option", "pair", "stmt", "fn", "expr", "try"],
    "C16": ["fn", "fn", "fn", "let", "let", "let", "option", "option", "method", "try", "try", "dummy", "async_fn", "async"],
    "C15": ["async", "async", "async", "async_fn", "async_try"],
    "C19": ["fn", "fn", "fn", "fn", "let", "let", "option", "method", "expr", "stmt", "try", "try", "try", "try_closure", "async", "async_fn", "async_try"],
    "C20": ["fn", "fn", "fn", "fn", "let", "let", "option", "method", "expr", "stmt", "pair", "async", "async_fn"],
}


def programs(prop, seed, count):
    """[(id, annotated text, reference text, run annotated, run reference, features)]"""
    res = []
    for i in range(count):
        g = Gen(f"{prop}/{seed}/{i}", prop)
        text, run_e, run_r = g.program()
        if g.byhand:
            g.use("reference: traits listed by hand")
        res.append((i, render(text, True, g.byhand), render(text, False, g.byhand), run_e, run_r, g.used, g.byhand))
    return res


HEAD = """// generated
#![allow(warnings)]
#![feature(fn_traits, unboxed_closures, stmt_expr_attributes, decl_macro, try_blocks)]
use genrt::*;
"""


IMPORTS = ("use std::fmt::{self, Debug, Display}; use std::io::{self, BufRead, Read, Seek, Write}; use std::future::Future; use std::error::{self, Error}; "
           "use std::iter::FusedIterator; use std::ops::{Deref, DerefMut, Index, RangeBounds};")


def source(progs):
    """one binary: every program in its own module; returns (text, {line: (id, side)})"""
    lines = HEAD.splitlines()
    where = {}
    for i, e, r, run_e, run_r, *_ in progs:
        lines.append(f"mod p{i} {{ use super::*;")
        for side, text, run in (("r", r, run_r), ("e", e, run_e)):
            lines.append(f"pub mod {side} {{ use super::*; use std::num::Wrapping; {IMPORTS} use auto_enums::auto_enum;")
            for t in text.splitlines() + [f"pub fn run() {{ {run} }}"]:
                lines.append(t)
                where[len(lines)] = (i, side)
            lines.append("}")
        lines.append("pub fn run() { start(); for i in 0..2 { catch(\"run\", || if is_ref() { r::run() } else { e::run() }); } } }")
    lines.append("fn main() { main_with(&[")
    for i, *_ in progs:
        lines.append(f"Scenario {{ name: \"p{i}\", run: p{i}::run, weight: 1 }},")
    lines.append("]); }")
    return "\n".join(lines) + "\n", where
