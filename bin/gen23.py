"""C23: the programs of C17 with the annotated code in a module which shadows everything around it."""
import random, re
import gen17

# types, traits and functions of the prelude (and modules), all meaning something else
TYPES = "Option Result Box String Vec Pin Context Poll Range PhantomData Cow Ordering Formatter Waker IoSlice Request".split()
VALUES = "Some None Ok Err drop".split()
TRAITS = ("Iterator IntoIterator DoubleEndedIterator ExactSizeIterator FusedIterator TrustedLen Extend Clone Copy Send Sync Sized Drop Fn FnMut FnOnce AsRef AsMut From Into "
          "Default ToString ToOwned Unpin Future Deref DerefMut Index IndexMut RangeBounds Debug Display Write Read BufRead Seek Error Eq PartialEq Ord PartialOrd Hash "
          "Stream Sink AsyncRead AsyncWrite AsyncSeek AsyncBufRead Serialize Serializer ParallelIterator IndexedParallelIterator ParallelExtend Body Coroutine "
          "TryFrom TryInto FromIterator").split()
MODULES = "std core alloc fmt io ops iter pin task error futures tokio rayon serde http_body future marker convert option result".split()
# methods that a generated method call could pick up
METHODS = {
    "&self": "len is_empty deref as_ref index size_hint fmt description source cause start_bound end_bound contains call poll_is_ready serialize is_end_stream opt_len is_write_vectored to_string clone "
             "stream_position is_read_vectored",
    "&mut self": "next next_back nth nth_back fold rfold count last read write write_all flush seek fill_buf consume read_until read_line read_to_end read_exact write_str write_char write_fmt by_ref "
                 "deref_mut as_mut index_mut call_mut poll poll_next poll_read poll_write poll_flush poll_close poll_shutdown start_seek poll_seek poll_complete extend rewind resume poll_frame "
                 "read_vectored write_vectored rewind_ all any find position rposition try_fold try_rfold find_map rfind partition collect",
    "self": "into_iter into map_ok drive drive_unindexed with_producer par_extend poll_ready start_send poll_fill_buf transpose call_once get_mut get_ref get_unchecked_mut unwrap ok err ok_or",
}


STD = {"Clone": "clone::", "Copy": "marker::", "PartialEq": "cmp::", "Eq": "cmp::", "PartialOrd": "cmp::", "Ord": "cmp::", "Hash": "hash::"}


MACROS = "panic unreachable assert assert_eq vec format matches write todo debug_assert unimplemented".split()


def items(r, macro=lambda m: True):
    t = [f"pub struct {x};" for x in TYPES if r.random() < 0.8]
    t += [f"pub fn {x}() {{}}" for x in VALUES if r.random() < 0.8]
    t += [f"pub trait {x} {{}}" for x in TRAITS if r.random() < 0.8]
    t += [f"pub mod {x} {{}}" for x in MODULES if r.random() < 0.8]
    r.shuffle(t)
    # a macro is in scope from its definition on
    return [f"macro_rules! {x} {{ ($($t:tt)*) => {{ ::core::compile_error!(\"captured\") }} }}" for x in MACROS if r.random() < 0.5 and macro(x)] + t


def evil(r, method, captured):
    ms = []
    for recv, names in METHODS.items():
        ms += [f"fn {x}({recv}, _: ()) where Self: ::core::marker::Sized {{ {captured}(\"{x}\") }}" for x in dict.fromkeys(names.split()) if r.random() < 0.9 and method(x)]
    r.shuffle(ms)
    return "pub trait Evil { " + " ".join(ms) + " } impl<T: ?::core::marker::Sized> Evil for T {}"


def hostile(r):
    return "\n".join(items(r) + [evil(r, lambda m: True, "::c17rt::captured")])


def absolute(e):
    """the user's own text has to say what it means"""
    e = re.sub(r"(?<![\w:])(fmt|io|std|core|error)::", lambda m: {"std": "::std::", "core": "::core::"}.get(m.group(1), f"::std::{m.group(1)}::"), e)
    e = re.sub(r"(?<![\w:])(futures|tokio|http_body|serde|rayon)::", r"::\1::", e)
    return e


# names for the user's generic parameters and variants that generated code might use itself
GENERICS = "T U R F S B P I C D W K V O H G Item Output Error Data Idx Args Return Yield Fut Init Func Ret Target Iter Fold Acc St Ty Fields Buf Key Value".split()
VARIANTS = "Some None Ok Err Ready Pending Box Pin Iterator Future Yielded Complete Included Unbounded Default Left Right A B x Wrap Std".split()


def rename(r, b, names):
    return re.sub(r"(?<![\w'])([ABCD]|V[0-3]|N|E)\b", lambda m: names.get(m.group(1), m.group(1)), b)


def programs(prop, seed, count):
    res = []
    found = gen17.programs(prop, seed, count)
    if prop == "C23c":
        found = [gen17_core(prop, seed, i) for i in range(count)]
    for i, e, p, run, _, used, byhand in found:
        r = random.Random(f"hostile/{prop}/{seed}/{i}")
        used = dict(used, **{"hostile module": 1})
        np = r.random() < 0.3
        names = {}
        if r.random() < 0.7:
            used["names: nasty"] = 1
            names = dict(zip(["A", "B", "C", "D"], r.sample(GENERICS, 4))) | dict(zip(["V0", "V1", "V2", "V3"], r.sample(VARIANTS, 4)))
            # (a type of the same name would win over a const parameter, with every macro)
            names["N"] = r.choice([x for x in ["N", "T", "U", "S", "I", "LEN", "Args"] if x not in names.values()])
            names["E"] = r.choice(["Enum", "Option", "Poll", "Self_", "E", "This"])
        lines = []
        for l in e.split("\n"):
            # attributes stay as they are, the types written by the user do not
            m = re.match(r"^(.*#\[(?:enum_derive|auto_enum)\([^\]]*\)\])(.*)$", l)
            a, b = (m.group(1), m.group(2)) if m else ("", l)
            b = absolute(b)
            b = re.sub(r"(?<![\w:<])(Iterator|DoubleEndedIterator|ExactSizeIterator|FusedIterator|TrustedLen|Extend|Deref|DerefMut|Index|IndexMut|RangeBounds|AsRef|AsMut|Fn|FnMut|FnOnce|"
                       r"Coroutine|Clone|Copy|PartialEq|Eq|PartialOrd|Ord|Hash)(?=<|\(|\b)(?!::)", lambda m: "::c17rt::names::" + m.group(1), b)
            b = re.sub(r"(?<![\w:])Sized\b", "::core::marker::Sized", rename(r, b, names))
            # names of standard derives are resolved where the user wrote them
            a = re.sub(r"(?<![\w:])(std|core)::(?=clone|cmp|marker|hash)", r"::\1::", a)
            if np:
                a = re.sub(r"(?<=[(\s])(Clone|Copy|PartialEq|Eq|PartialOrd|Ord|Hash)(?=[,)])", lambda m: "::core::" + STD[m.group(1)] + m.group(1), a)
            a = a.replace("#[enum_derive", "#[::auto_enums::enum_derive").replace("#[auto_enum", "#[::auto_enums::auto_enum")
            lines.append(a + b)
        if np:
            used["no_implicit_prelude"] = 1
        shadows = hostile(r)
        if names:
            shadows = re.sub(rf"pub struct {names['E']};", "", shadows)
        body = f"pub mod hostile {{ {'#![no_implicit_prelude]' if np else ''} use ::c17rt::Omni; use super::Marked;\n{shadows}\n" + "\n".join(lines) + "\n} use hostile::mk;"
        res.append((i, body, p, run, "", used, False))
    return res


CORE = [k for k in gen17.KEYS if k not in ("Error", "Read", "BufRead", "Write", "Seek", "FRead", "FBufRead", "FWrite", "FSeek", "TRead", "TBufRead", "TWrite", "TSeek", "ParIter", "Indexed", "ParExtend")]


def gen17_core(prop, seed, i):
    """traits that live in core (or in crates that need no std)"""
    r = random.Random(f"{prop}/{seed}/{i}")
    keys = [CORE[i]] if i < len(CORE) else r.sample(CORE, min(len(CORE), r.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 12, 40])))
    e, p, run, used = gen17.program(r, i, keys)
    return i, e, p, run, "", used, False


def no_std(text):
    """the user's own std goes by another name; there is none for the generated code"""
    text = re.sub(r"(?<!\w)std::(?=(panic|unreachable|todo|unimplemented)!)", "core::", text)
    text = re.sub(r"(break '\w+ )(?=(format|vec)!)", r"\1real_std::", text)  # (as in gen23b.absolute)
    return re.sub(r"(?<![\w:])(format|vec)!(?=[(\[])", r"::real_std::\1!", re.sub(r"(?<![\w])(::)?std::", r"\1real_std::", text))


source = gen17.source
HEAD = gen17.HEAD


def variants_named_like_types():
    """enums with a variant named like an associated type of the trait: [(trait, variant, text, use)]"""
    res = []
    for k, (spellings, bound, *_x) in gen17.T.items():
        for a in dict.fromkeys(re.findall(r"(\w+) = ", bound) + (["Output"] if k in ("Fn", "FnMut", "FnOnce") else [])):
            listed = ", ".join(gen17.T[d][0][0] for d in [k])
            e = f"#[enum_derive({listed})] pub enum E<A, B> {{ {a}(A), Other(B) }}"
            run = f"fn need<T: Unpin + {bound}>() {{}} pub fn run() {{ need::<E<Omni<0>, Omni<1>>>() }}"
            res.append((k, a, e, run))
    return res


class core:
    HEAD = "#![no_std]\n" + no_std(gen17.HEAD) + "extern crate std as real_std; use real_std::prelude::rust_2021::*;\n"
    programs = programs

    def source(progs):
        s, where = gen17.source([(i, no_std(e), no_std(p), no_std(run), *x) for i, e, p, run, *x in progs], core.HEAD)
        return s, where
