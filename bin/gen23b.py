"""C23, second half: the programs of C12-C15 in modules which shadow everything around them."""
import random, re
import gen, gen23

gen.PROGS["C23b"] = gen.PROGS["C12"] + gen.PROGS["C13"] * 2 + gen.PROGS["C14"] + gen.PROGS["C15"]
HEAD = gen.HEAD
FULL = {"Some": "::core::option::Option::Some", "None": "::core::option::Option::None", "Ok": "::core::result::Result::Ok", "Err": "::core::result::Result::Err",
        "Option": "::core::option::Option", "Result": "::core::result::Result", "Box": "::std::boxed::Box", "String": "::std::string::String", "Vec": "::std::vec::Vec",
        "drop": "::core::mem::drop"}
TRAITS = {"Iterator": "::core::iter::Iterator", "Fn": "::core::ops::Fn", "Into": "::core::convert::Into", "Copy": "::core::marker::Copy", "Clone": "::core::clone::Clone"}


def absolute(e):
    """the user's own text has to say what it means (attributes and their arguments stay)"""
    out = []
    for n, part in enumerate(re.split(r"(#\[auto_enum\([^\]]*\)\]|#\[derive\([^\]]*\)\])", e)):
        if n % 2:
            out.append(part)
            continue
        p = re.sub(r"(?<![\w:.'!])(Some|None|Ok|Err|Option|Result|Box|String|Vec|drop)(?=[\s(<>:,;|)}\]?.]|$)(?!\s*=>\s*\{\s*macro)", lambda m: FULL[m.group(1)], part)
        p = re.sub(r"(?:(?<=impl )|(?<=dyn ))(?:Iterator|Fn)\b|(?<=: )(Into|Copy|Clone)\b|(?<=\+ )(Copy|Clone|Iterator)\b", lambda m: TRAITS[m.group(0)], p)
        p = re.sub(r"(?<![\w:])(std|core|futures|auto_enums)::", r"::\1::", p)
        p = re.sub(r"(?<![\w:])(fmt|io|error)::(?=\w)", r"::std::\1::", p)
        # (syn takes `break 'a ::b` for `break 'a: :b`)
        p = re.sub(r"(break '\w+ )::(std|core|futures)::", r"\1real_\2::", p)
        out.append(p)
    return "".join(out)


def hostile(r, text):
    t = gen23.items(r, macro=lambda m: f"{m}!" not in text and m not in ("panic", "write", "assert", "matches"))
    t.append(gen23.evil(r, lambda m: not re.search(rf"\.{m}\b", text), "::genrt::captured"))
    return "\n".join(t)


def programs(prop, seed, count):
    return gen.programs("C23b", seed, count)


class core:
    """the same in a crate without std, for the traits that need none"""
    HEAD = "#![no_std]\n" + gen23.no_std(HEAD) + "extern crate std as real_std; use real_std::prelude::rust_2021::*;\n"

    def programs(prop, seed, count):
        found = gen.programs("C23b", f"core/{seed}", 3 * count)
        return [p for p in found if not re.search(r"#\[auto_enum\([^\]]*(Read|Error|Write)", p[1])][:count]

    def source(progs):
        return source(progs, core.HEAD, gen23.no_std)


def source(progs, head=HEAD, user=lambda t: t):
    lines = head.splitlines()
    where = {}
    for i, e, ref, run_e, run_r, *_ in progs:
        r = random.Random(f"hostile/{e}")
        lines.append(f"mod p{i} {{ use super::*;")
        shadows = hostile(r, absolute(e + ref))
        for side, text, run in (("r", ref, run_r), ("e", e, run_e)):
            text += f"\npub fn run() {{ {run} }}"
            text = user(absolute(text))
            lines.append(f"pub mod {side} {{ use super::*; use ::core::num::Wrapping; use ::auto_enums::auto_enum; use ::{{core as real_core, futures as real_futures}}; {'use ::real_std::string::ToString as _;' if user("std::") != "std::" else "use ::std as real_std;"}")
            lines += shadows.split("\n")
            for t in text.splitlines():
                lines.append(t)
                where[len(lines)] = (i, side)
            lines.append("}")
        lines.append("pub fn run() { start(); for i in 0..2 { catch(\"run\", || if is_ref() { r::run() } else { e::run() }); } } }")
    lines.append("fn main() { main_with(&[")
    for i, *_ in progs:
        lines.append(f"Scenario {{ name: \"p{i}\", run: p{i}::run, weight: 1 }},")
    lines.append("]); }")
    return "\n".join(lines) + "\n", where
