#!/usr/bin/env python3
"""check.py <property>: quick (default) or thorough (VERIF_TIER=thorough) check."""
import os, re, subprocess, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from simlib import *
import gen, gencheck

RULE = ("One evaluation is one seeded simulated run, executed on the reference side (inner values used directly) and on "
        "the generated side from the same choices, event logs compared. It counts as distinct and non-trivial when "
        "its event log differs from every other run of the same worker and has at least 4 events.")

# property -> list of (crate, binary, quick runs, thorough runs)
BINS = {
    "C01": [("main", "c01", 960_000, 72_000_000)],
    "C02": [("main", "c02", 960_000, 72_000_000), ("tokio03", "c02_tokio03", 320_000, 24_000_000),
            ("tokio03", "c02_tokio03_vectored", 4_000, 4_000), ("tokio02", "c02_tokio02", 320_000, 24_000_000),
            ("old01", "c02_tokio01", 320_000, 24_000_000)],
    "C03": [("main", "c03", 640_000, 60_000_000), ("old01", "c03_futures01", 180_000, 24_000_000)],
    "C04": [("main", "c04", 180_000, 36_000_000)],
    "C05": [("main", "c05", 800_000, 60_000_000), ("tokio03", "c05_tokio03", 180_000, 24_000_000),
            ("tokio02", "c05_tokio02", 180_000, 24_000_000)],
    "C06": [("main", "c06", 800_000, 60_000_000)],
    "C07": [("main", "c07", 480_000, 36_000_000)],
    "C08": [("main", "c08", 640_000, 60_000_000)],
    "C09": [("main", "c09", 640_000, 60_000_000)],
    "C10": [("main", "c10", 960_000, 72_000_000)],
    "C11": [("main", "c11", 640_000, 60_000_000)],
}
BINS["C18"] = [("c18", "c18", 14_000, 900_000)]
# every run again with another eye: values that panic when dropped; where memory is allocated
MAIN = [("main", f"c{n:02}") for n in range(1, 12)]
OTHER = [("tokio03", "c02_tokio03"), ("tokio03", "c05_tokio03"), ("tokio02", "c02_tokio02"), ("tokio02", "c05_tokio02"), ("old01", "c02_tokio01"), ("old01", "c03_futures01")]
BINS["C19"] = [("main", b, 40_000, 2_000_000) for b in ("c03", "c05", "c06", "c07", "c09", "c10", "c11")]
BINS["C20"] = [(c, b, 16_000, 1_000_000) for c, b in MAIN + OTHER + [("main", "c20")]]
OPTS = {"C19": ["drop-panic"], "C20": ["alloc", "alloc-limit"]}
REAL = {
    "C19": "real: auto_enum expansion of generated programs, all generated impls of the C03 and C05-C11 scenarios, rustc's drop elaboration; simulated: owned values with a ledger, panics anywhere including in drops, failures, cancellation",
    "C20": "real: auto_enum expansion of generated programs, the generated impls and std/crate adapters of the scenarios of C01-C11; simulated: the global allocator (place of every allocation noted; may fail), everything those scenarios simulate",
    "C18": "real: the macros of /repo/src built as a library by the hook (proc_macro2's own token streams instead of rustc's bridge), real threads; simulated: the compiler process (histories, handover between threads at allocations, environment), malformed token streams; second part: rustc's real bridge, every program expanded several times in one compiler process at different places",
    "C09": "real: generated impls, core::error, std errors and io::Error; simulated: carried errors and causes, destinations, panics",
    "C10": "real: generated impls, core ops, collections indexed by ranges, closures; simulated: inner objects, callables, panics",
    "C11": "real: generated transpose methods, Option and Result; simulated: payloads, failure pattern, panics of the consumers",
    "C06": "real: generated impls, core::iter provided methods and adapters, std collections; simulated: iterators, closures, panics",
    "C07": "real: generated impls, rayon adapters and bridges; simulated: the splitter/stealer (own Consumer/ProducerCallback schedules), consumers, panics; rayon's thread pool runs on one thread",
    "C08": "real: generated impls, core::fmt, serde; simulated: destinations, serializers, values, faults",
    "C01": "real: generated impls of std::io traits, std::io adapters; simulated: devices, faults",
    "C03": "real: generated impls, futures 0.3/0.1, http-body and core coroutine traits and combinators; simulated: sources, sinks, wakers, faults",
    "C04": "real: generated impls, futures-util combinators and io helpers, tokio io-util; simulated: executor, clock, timers, channels, pipes, sources, faults",
    "C05": "real: generated impls, generated Unpin impls; simulated: address-sensitive devices, relocation by safe code, panics",
    "C02": "real: generated impls, tokio 0.1/0.2/0.3/1 and futures 0.3 traits with their provided methods; simulated: devices, wakers, buffers, faults",
}

HOOKS = {"guard": "cfg auto_enums_sim", "enable": "harness/subject builds /repo/src/lib.rs as a library with --cfg auto_enums_sim from its build script (only for C18)",
         "source_commits": ["1dd07bad46f4a3f07f1d7d02e61768c5dc66795c"]}
# property -> (programs per batch, runs per batch, batches when thorough)
GEN = {
    "C12": (3200, 640_000, 60),
    "C13": (3200, 640_000, 60),
    "C14": (3200, 640_000, 60),
    "C15": (3200, 480_000, 60),
    "C16": (3200, 480_000, 60),
    "C17": (2000, 480_000, 60),
    "C19": (1600, 640_000, 60),
    "C20": (800, 160_000, 30),
}
# generators of one property: shadowing modules (lists of traits; annotated code), crates without std (the same two)
PARTS = {"C23": {"C23": (500, 120_000, 40), "C23b": (500, 120_000, 40), "C23c": (250, 60_000, 40), "C23d": (250, 60_000, 40)}}
PARTS["C21"] = {"C21": (500, 200_000, 60), "C21b": (150, 50_000, 60), "C21c": (150, 50_000, 60)}
GEN["C21"] = (800, 300_000, 60)
GEN["C23"] = (1500, 360_000, 40)
OWN_SEED = {"C19", "C20"}
GENRULE = ("Programs are generated from a grammar, annotated and as a reference (branches boxed by hand; C16 also: traits listed by hand), "
           "both compiled from /repo's macro. One evaluation is one seeded simulated run of one program: every condition, "
           "fallible step, suspension, wake-up, cancellation and panic comes from the seed, the event logs of both sides are compared. "
           "It counts as distinct and non-trivial when its event log differs from every other run of the same worker and has at least 4 events.")
REAL.update({
    "C12": "real: auto_enum expansion of generated programs, rustc, std types as branch values; simulated: conditions, branch values, panics",
    "C13": "real: auto_enum expansion of generated programs, rustc; simulated: fallible steps, conditions, errors and causes, panics, suspensions",
    "C14": "real: auto_enum expansion of generated programs, rustc; simulated: conditions, branch values, fallible steps, panics",
    "C15": "real: auto_enum expansion of generated async programs, rustc's coroutines; simulated: executor, wakers, suspensions, cancellation, faults",
    "C17": "real: enum_derive and auto_enum expansion of generated trait lists, the std derives, futures, tokio 1, rayon, serde and http-body traits; simulated: one device with every trait, faults, panics, wakers",
    "C16": "real: auto_enum expansion with type_analysis, rustc; simulated: conditions, branch values, faults, panics",
})
REAL["C23"] = ("real: auto_enum and enum_derive expansion in modules which shadow the prelude, crate names, macros and method names, some without prelude, and in no_std crates; rustc's name resolution; "
               "simulated: the devices, conditions and faults of C12-C15 and C17")
REAL["C21"] = ("real: enum_derive expansion and rustc's coherence checks; simulated: the user who writes Drop or Unpin by hand (one injected implementation per program), devices that notice when they are moved, "
               "executor, wakers, relocations")
REAL["C22"] = ("real: auto_enum and enum_derive expansion and rustc up to name resolution; simulated: the user, who makes one or two mistakes at seeded places of a valid generated program (the injected faults); "
               "controls without mistakes share the compiler process")
TECH = {i: "deterministic simulation of generated programs: seeded search over programs, decisions and faults, against the un-annotated program" for i in GEN}
TECH["C21"] = "deterministic simulation with hostile users as the injected fault: seeded programs with a hand-written Drop or Unpin; rejected, or run in the simulator, where moving pinned values is noticed"
TECH["C22"] = "deterministic simulation of users who make mistakes: seeded faults put into valid generated programs, real compiler processes; every mistake has to be reported where it is, controls must stay quiet"
TECH["C23"] = "deterministic simulation of generated programs in hostile name environments (shadowed names as the injected fault) and in no_std crates: against the same program used directly"
TECH["C19"] = "deterministic simulation: seeded search over programs and runs with owned values, panics (also in drops), failures and cancellation; ledger of every value, against the un-annotated program"
TECH["C20"] = "deterministic simulation with the allocator behind a seam: every allocation placed in the run, failing allocations injected, nested calls; against direct use"
RULES = {"C18": "One evaluation is one seeded life of a compiler process: one to three threads expanding a history of valid, mutated, truncated or random items, "
                "handing over at seeded allocations; every expansion is compared with the same expansion made first and alone in a freshly forked process, and must "
                "end in code that parses or in a compile error. It counts as distinct and non-trivial when its event log differs from every other run of the same worker and has at least 4 events."}
ALL = sorted(set(BINS) | set(GEN) | {"C22"})


def options(chk, execs, runs):
    """{name: executable} -> the same for every option of the property"""
    if chk.prop not in OPTS:
        return execs, runs
    o = OPTS[chk.prop]
    r2 = {}
    e2 = {}
    for b, x in execs.items():
        for opt in o:
            if opt == "alloc-limit" and b == "c07":
                continue  # rayon's own one-time allocations
            e2[f"{b}+{opt}"] = [x, "--opt", opt]
            r2[f"{b}+{opt}"] = max(1, runs[b] // len(o))
    return e2, r2


def simple(chk):
    execs, runs = {}, {}
    crates = {}
    for crate, b, q, t in BINS[chk.prop]:
        crates.setdefault(crate, []).append(b)
        runs[b] = sizes(chk, q, t)
    for crate, bs in crates.items():
        try:
            execs.update(cargo_build(crate, [a for b in bs for a in ("--bin", b)]))
            continue
        except CompileFailure as cf:
            if len(bs) == 1:
                chk.compile_violation(cf)
                continue
        for b in bs:
            try:
                execs.update(cargo_build(crate, ["--bin", b]))
            except CompileFailure as cf:
                chk.compile_violation(cf)
    execs = {b: x for b, x in execs.items() if b in runs}
    if chk.prop == "C18":
        c18_rustc(chk)
    if execs:
        search(chk, *options(chk, execs, runs), chunk_secs=sizes(chk, 240, 3000))
    chk.cov["rule"] = RULES.get(chk.prop, RULE)
    chk.cov["components"] = REAL[chk.prop]


def generated(chk):
    """Generated programs: compile, then search."""
    parts = PARTS.get(chk.prop) or {chk.prop: GEN[chk.prop]}
    feats = {}
    chk.cov.update(programs=0, invalid_programs=0)
    if chk.prop == "C21":
        chk.cov.update(hostile_programs=0, hostile_programs_rejected=0)
    seen = {}
    for batch in range(max(t for *_, t in parts.values()) if chk.thorough else 1):
        for part, (count, runs, _) in parts.items():
            chk.cov["scenarios"] = {}
            chk.invalid = set()
            programs(chk, part, batch, count, runs, feats)
            if chk.prop == "C21":
                hostile_users(chk, part, batch, count)
            seen.update({f"{part}/{k}": v for k, v in chk.cov["scenarios"].items()})
        if chk.violations:
            break
    if chk.prop == "C17":
        std_deps(chk)
    if chk.prop == "C23":
        variants_named_like_types(chk)
    sc = {k: v for k, v in seen.items() if re.search(r"/p\d+$", k)}
    if chk.prop in BINS:
        chk.cov["scenarios"] = {}
        simple(chk)
        chk.cov["other_scenarios"] = chk.cov["scenarios"]
    chk.cov["scenarios"] = {"programs run": len(sc), "runs per program (min, max)": [min(sc.values(), default=0), max(sc.values(), default=0)]}
    chk.cov["program_features"] = dict(sorted(feats.items()))
    chk.cov["rule"] = GENRULE + (" " + RULE if chk.prop in BINS else "")
    chk.cov["components"] = REAL[chk.prop]


def programs(chk, part, batch, count, runs, feats, nbins=8):
    progs = gencheck.generator(part).programs(part, f"{chk.seed}/{batch}", count)
    for p in progs:
        for f, n in p[5].items():
            feats[f] = feats.get(f, 0) + 1
    execs, failures, dropped = gencheck.build(part, progs, nbins)
    byid = {p[0]: p for p in progs}
    for i in [i for i in dropped if byid[i][6]]:
        failures[i] = dropped.pop(i)
    chk.cov["programs"] += len(progs)
    chk.cov["invalid_programs"] += len(dropped)
    chk.invalid = set(failures) | set(dropped)
    for n, (i, texts) in enumerate(sorted(failures.items())):
        if n < 3:
            chk.violation(f"compile:{i}", {"kind": "program", "generator": part, "batch": batch, "program": i, "annotated": byid[i][1], "reference": byid[i][2],
                                           "text": "\n".join(texts)[:6000]},
                          f"valid program {i} does not compile when annotated ({len(failures)} of {len(progs)}):\n{byid[i][1]}\n" + "\n".join(texts)[:1500])
    where = lambda b, sc: {"generator": part, "batch": batch, "annotated": byid[int(sc[1:])][1], "reference": byid[int(sc[1:])][2],
                           "run_annotated": byid[int(sc[1:])][3], "run_reference": byid[int(sc[1:])][4]}
    search(chk, *options(chk, execs, {b: max(1, runs // max(1, len(execs))) for b in execs}), chunk_secs=sizes(chk, 240, 1200), describe=where, limit=4)


def hostile_users(chk, part, batch, count):
    """The same programs with the user's own Drop or Unpin: rejected, or run and seen to move a pinned value."""
    g = gencheck.generator(part)
    fine = {p[0] for p in g.programs(part, f"{chk.seed}/{batch}", count)} - chk.invalid
    progs = [p for p in g.programs(part, f"{chk.seed}/{batch}", count, True) if p[0] in fine]
    execs, failures, dropped = gencheck.build(part, progs, 8)
    chk.cov["hostile_programs"] += len(progs)
    chk.cov["hostile_programs_rejected"] += len(failures)
    accepted = [p for p in progs if p[0] not in failures and p[0] not in dropped]
    if not accepted:
        return
    for i, e, _, run, *_ in accepted[:3]:
        chk.violation(f"accepted:{i}", {"kind": "accepted", "generator": part, "batch": batch, "program": i, "annotated": e, "run_annotated": run, "text": e},
                      f"a user's own implementation on an enum with a pinned trait is accepted ({len(accepted)} of {len(progs)}):\n{e}")
    # what such a user can do with it
    byid = {p[0]: p for p in progs}
    where = lambda b, sc: {"generator": part, "batch": batch, "annotated": byid[int(sc[1:])][1], "reference": "", "run_annotated": byid[int(sc[1:])][3], "run_reference": ""}
    search(chk, execs, {b: 4000 for b in execs}, chunk_secs=60, describe=where, limit=3)


def mistakes(chk):
    """C22: valid programs with mistakes put in; what rustc says about each."""
    import gen22
    chk.cov.update(mistakes={}, programs_without_mistake=0, errors_reported=0, rustc_processes=0)
    distinct = set()
    for batch in range(sizes(chk, 1, 40)):
        for part, count in (("C22", 3200), ("C22b", 1200)):
            progs = gen22.programs22(part, f"{chk.seed}/{batch}", count)
            said = gencheck.diagnose(part, progs, 8)
            chk.cov["rustc_processes"] += 8
            chk.cov["evaluations"] += len(progs)
            wrong = []
            for prog in progs:
                i, kind, text, regions = prog
                e = said.get(i, [])
                chk.cov["errors_reported"] += len(e)
                chk.cov["programs_without_mistake"] += not regions
                for c, *_ in regions:
                    chk.cov["mistakes"][c] = chk.cov["mistakes"].get(c, 0) + 1
                if regions:
                    distinct.add(hash(text))
                if gencheck.misdiagnosed(regions, e):
                    wrong.append(prog)
                elif regions and len(chk.cov["samples"]) < 4 and len(text) < 700:
                    chk.cov["samples"].append(f"{part} program {i}: {regions[0][0]}\n{text}\n" + "\n".join(x[3] for x in e))
            # alone
            for prog in wrong[:40]:
                if len(chk.violations) >= 3:
                    break
                i, kind, text, regions = prog
                e = gencheck.diagnose(part, [prog], 1).get(i, [])
                why = gencheck.misdiagnosed(regions, e)
                if why:
                    chk.violation(f"{why}:{part}:{i}", {"kind": "mistake", "generator": part, "batch": batch, "program": i, "mode": kind, "annotated": text, "mistakes": regions, "class": why,
                                                        "errors": [x[:4] for x in e]},
                                  f"{why} ({', '.join(c for c, *_ in regions) or 'none'}; {len(wrong)} of {len(progs)} programs):\n{text[:1500]}\n" + "\n".join(x[4] for x in e)[:1200])
        if chk.violations:
            break
    chk.cov["distinct_nontrivial"] = len(distinct)
    chk.cov["runs_per_hour"] = round(chk.cov["evaluations"] / max(1e-9, time.time() - chk.t0) * 3600)
    chk.cov["rule"] = ("One evaluation is one generated program which is valid but for the mistakes of a user put in at seeded places (none in the controls), given to rustc with real macros together with hundreds of others. "
                       "Distinct and non-trivial: different text, at least one mistake.")
    chk.cov["components"] = REAL["C22"]


def variants_named_like_types(chk):
    """A variant named like an associated type of the derived trait (Iterator: Item)."""
    import gen23
    cases = gen23.variants_named_like_types()
    _, failures, _ = gencheck.build(chk.prop, [(i, e, "", run, "", {}, False) for i, (_, _, e, run) in enumerate(cases)], 1)
    for i in sorted(failures):
        k, a, e, _ = cases[i]
        ambiguous = all("ambiguous associated item" in t for t in failures[i])
        chk.violation(f"variant-named:{k}:{a}" + ("" if ambiguous else ":other"), {"kind": "program", "generator": "C17", "program": i, "annotated": e, "run_annotated": cases[i][3], "text": "\n".join(failures[i])[:3000]},
                      f"enum_derive({k}) on an enum with a variant named {a} does not compile:\n" + "\n".join(failures[i])[:600])


def std_deps(chk):
    """enum_derive(X) alone, where X is a standard derive with a documented dependency."""
    import gen17
    progs = []
    for t in ("Copy", "Eq", "PartialOrd", "Ord"):
        e = f"#[enum_derive({t})] enum E<A, B> {{ A(A), B(B) }}"
        progs.append((t, e, "", f"fn need<T: {t}>() {{}} pub fn run() {{ need::<E<u8, u16>>() }}", "", {}, False))
    _, failures, _ = gencheck.build(chk.prop, progs, 1)
    for t in sorted(failures):
        chk.violation(f"std-deps:{t}", {"kind": "program", "program": t, "annotated": f"#[enum_derive({t})] enum E<A, B> {{ A(A), B(B) }}", "text": "\n".join(failures[t])[:3000]},
                      f"enum_derive({t}) alone does not compile: the dependency is not added")


def c18_rustc(chk):
    """The same items several times in one real compiler process, in a seeded order: every copy expands alike."""
    import gen17
    n = 500 if not chk.thorough else 1500
    mods = []
    for p in ("C12", "C13", "C14", "C15", "C16"):
        mods += [(x[1], "use super::*; use std::num::Wrapping; " + gen.IMPORTS + " use auto_enums::auto_enum;") for x in gen.programs(p, f"C18/{chk.seed}", n // 5)]
    mods17 = [(x[1], "use super::*;") for x in gen17.programs("C17", f"C18/{chk.seed}", n // 2)]
    chk.cov["rustc_expansions_compared"] = sum(ThreadPoolExecutor(2).map(lambda a: rustc_copies(chk, *a), [("C18", gen.HEAD, mods), ("C18b", gen17.HEAD, mods17)]))


def rustc_copies(chk, crate, head, mods):
    import random
    r = random.Random(f"{crate}/{chk.seed}")
    copies = [(i, c) for i in range(len(mods)) for c in range(3)]
    r.shuffle(copies)
    # items that are the same although nothing around them is
    lines = head.splitlines()
    for i, c in copies:
        lines += [""] * r.randrange(3)
        lines.append(f"mod p{i}_{c} {{ {mods[i][1]}")
        lines += mods[i][0].splitlines()
        lines.append("}")
    lines.append("fn main() {}")
    b = crate.lower() + "x"
    d = gencheck.write_crate(crate, {b: "\n".join(lines) + "\n"})
    out = os.path.join(d, "expanded.rs")
    if os.path.exists(out):
        os.unlink(out)
    os.utime(os.path.join(d, "src", "bin", b + ".rs"))
    p = subprocess.run(["cargo", "rustc", "--offline", "--bin", b, "--", "-Zunpretty=expanded", "-o", out], cwd=d, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    if not os.path.exists(out):
        if "proc macro panicked" in p.stderr or "custom attribute panicked" in p.stderr:
            chk.violation("rustc:panic", {"kind": "rustc", "text": p.stderr[-3000:]}, "the macro panics in rustc:\n" + p.stderr[-1500:])
            return 0
        raise HarnessError("rustc does not expand the programs:\n" + p.stderr[-3000:])
    bodies, cur = {}, None
    for l in open(out):
        if l.startswith("mod p"):
            cur = tuple(map(int, l[5:].split(" ")[0].split("_")))
            bodies[cur] = []
        elif l.startswith("}"):
            cur = None
        elif cur:
            bodies[cur].append(l)
    if len(bodies) != len(copies):
        raise HarnessError(f"{len(bodies)} of {len(copies)} modules in the expanded text")
    for i in range(len(mods)):
        # the pretty printer lays code out after its place in the source
        b = ["".join("".join(bodies[i, c]).split()) for c in range(3)]
        if len(set(b)) > 1:
            o = b[1] if b[1] != b[0] else b[2]
            k = next(k for k in range(len(o) + 1) if b[0][:k] != o[:k])
            diff = [b[0][max(0, k - 80):k + 80] + "\n", o[max(0, k - 80):k + 80]]
            chk.violation("rustc:expansion depends on its place", {"kind": "rustc", "annotated": mods[i][0], "expansions": b},
                          f"one item expands differently at different places of one compilation:\n{mods[i][0][:800]}\n" + "".join(diff))
            break
    return len(copies)


def main():
    prop = sys.argv[1]
    chk = Check(prop)
    if prop in OWN_SEED:
        # not the runs of the other checks
        chk.seed = chk.seed * 1000 + int(prop[1:])
    try:
        (mistakes if prop == "C22" else generated if prop in GEN else simple)(chk)
        chk.finish()
    except HarnessError as e:
        print(f"harness error: {e}", file=sys.stderr, flush=True)
        sys.exit(2)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
