"""Builds generated programs; attributes rustc errors to programs."""
import json, os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simlib, gen, gen17, gen21, gen22, gen23, gen23b
from simlib import BUILD, HARNESS, ROOT, HarnessError, env

FEATURES = {"base": ["std", "fn_traits", "unstable", "futures03", "fmt", "ops", "convert", "transpose_methods", "coroutine_trait", "trusted_len"]}
FEATURES["all"] = ["std", "transpose_methods", "ops", "convert", "fmt", "futures03", "tokio1", "rayon", "serde", "http_body1", "unstable",
                   "coroutine_trait", "fn_traits", "trusted_len"]
FEATURES["c18"] = FEATURES["all"] + ["type_analysis"]
FEATURES["type_analysis"] = FEATURES["base"] + ["type_analysis"]


FEATURES["core"] = [f for f in FEATURES["base"] if f != "std"] + ["serde", "http_body1"]
CONFIG = {"C17": "all", "C23": "all", "C18": "c18", "C18b": "c18", "C23c": "core", "C23d": "core", "C22b": "type_analysis"}
GENERATOR = {"C17": gen17, "C23": gen23, "C23b": gen23b, "C23c": gen23.core, "C23d": gen23b.core, "C21": gen21.C21, "C21b": gen21.C21b, "C21c": gen21.C21c}
TEMPLATE = {"C17": "gen17", "C18b": "gen17", "C23": "gen17", "C23c": "gen17"}


def generator(prop):
    return GENERATOR.get(prop, gen)


def crate_dir(prop):
    return os.path.join(BUILD, "gen", prop)


def write_crate(prop, bins):
    """bins: {name: source}"""
    d = crate_dir(prop)
    os.makedirs(os.path.join(d, "src", "bin"), exist_ok=True)
    feats = FEATURES[CONFIG.get(prop) or ("type_analysis" if prop in gen.WITH_TYPE_ANALYSIS else "base")]
    like = getattr(generator(prop), "template", None)
    if like:
        # the crate of hand-written scenarios, with other programs
        name = re.search(r'name = "(\w+)"', open(os.path.join(HARNESS, like, "Cargo.toml")).read()).group(1)
        new = "gen" + prop.lower()
        toml = open(os.path.join(HARNESS, like, "Cargo.toml")).read().replace(f'"{name}"', f'"{new}"').replace('"../', f'"{HARNESS}/')
        put(os.path.join(d, "Cargo.toml"), toml.replace('[lib]\npath = "src/lib.rs"\n', "").replace("opt-level = 1", "opt-level = 0"))
        lock = open(os.path.join(HARNESS, like, "Cargo.lock")).read()
        put(os.path.join(d, "Cargo.lock"), lock.replace(f'name = "{name}"', f'name = "{new}"'))
        return sources(d, bins)
    tpl = os.path.join(HARNESS, TEMPLATE.get(prop, "gen"))
    toml = open(os.path.join(tpl, "Cargo.toml.in")).read()
    toml = toml.replace("@NAME@", prop.lower()).replace("@ROOT@", ROOT).replace("@FEATURES@", ", ".join(f'"{f}"' for f in feats))
    if generator(prop) in (gen, gen22):
        # every other program file in the newest edition
        for b in sorted(bins)[1::2]:
            toml += f'\n[[bin]]\nname = "{b}"\npath = "src/bin/{b}.rs"\nedition = "2024"\n'
    put(os.path.join(d, "Cargo.toml"), toml)
    lock = open(os.path.join(tpl, "Cargo.lock.in")).read().replace("@NAME@", prop.lower())
    put(os.path.join(d, "Cargo.lock"), lock)
    return sources(d, bins)


def sources(d, bins):
    for f in os.listdir(os.path.join(d, "src", "bin")):
        if f[:-3] not in bins:
            os.unlink(os.path.join(d, "src", "bin", f))
    for b, s in bins.items():
        put(os.path.join(d, "src", "bin", b + ".rs"), s)
    return d


def put(path, s):
    if os.path.exists(path) and open(path).read() == s:
        return
    with open(path, "w") as f:
        f.write(s)


def compile_once(d, timeout=600):
    """returns ({bin: exe}, {bin: [(line, text)]} errors)"""
    try:
        p = subprocess.run(["cargo", "build", "--offline", "--keep-going", "--message-format=json"], cwd=d, env=env(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise HarnessError("building generated programs timed out")
    execs, errs, other = {}, {}, []
    for line in p.stdout.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") == "compiler-artifact" and m.get("executable"):
            execs[m["target"]["name"]] = m["executable"]
        elif m.get("reason") == "compiler-message" and m["message"]["level"].startswith("error"):
            if os.path.realpath(d) not in os.path.realpath(m["manifest_path"]) and d not in m["package_id"]:
                other.append(m["message"].get("rendered") or "")
                continue
            # the place of the error, through the macros it is in; otherwise any place it mentions
            for primary in (True, False):
                lines = set()
                for s in m["message"].get("spans", []):
                    if primary and not s.get("is_primary", True):
                        continue
                    while s:
                        if s["file_name"].startswith("src/bin/"):
                            lines.add(s["line_start"])
                        s = (s.get("expansion") or {}).get("span")
                if lines:
                    break
            if not m["message"].get("spans") and ("aborting due" in m["message"]["message"]):
                continue
            errs.setdefault(m["target"]["name"], []).append((sorted(lines), m["message"].get("rendered") or m["message"]["message"]))
    if p.returncode != 0 and not errs:
        raise HarnessError("build of generated programs failed outside them:\n" + ("\n".join(other) or p.stderr)[-4000:])
    return execs, errs, p


def build(prop, progs, nbins, tries=12, log=None):
    """Returns (execs, failures {id: [texts]} of annotated programs, dropped ids of invalid programs)."""
    live = {p[0]: p for p in progs}
    failures, dropped = {}, {}
    for _ in range(tries):
        ids = sorted(live)
        groups = [ids[i::nbins] for i in range(nbins)]
        bins, where = {}, {}
        for n, g in enumerate(groups):
            if g:
                s, w = generator(prop).source([live[i] for i in g])
                bins[f"{prop.lower()}g{n}"] = s
                where[f"{prop.lower()}g{n}"] = w
        if not bins:
            return {}, failures, dropped
        d = write_crate(prop, bins)
        execs, errs, p = compile_once(d)
        if not errs:
            return execs, failures, dropped
        bad_r, bad_e = {}, {}
        for b, l in errs.items():
            for lines, text in l:
                hit = False
                for ln in lines:
                    w = where[b].get(ln)
                    if w:
                        hit = True
                        (bad_r if w[1] == "r" else bad_e).setdefault(w[0], []).append(text)
                if not hit and lines == [] and not re.match(r"error: (aborting|could not)", text):
                    # no place: one program at a time will tell
                    bad_r.setdefault(("?", b), []).append(text)
        unplaced = [v[0] for k, v in bad_r.items() if isinstance(k, tuple)]
        bad_r = {k: v for k, v in bad_r.items() if not isinstance(k, tuple)}
        if not bad_r and not bad_e:
            raise HarnessError("generated programs fail without a place:\n" + "\n".join(unplaced)[:3000])
        for i, t in bad_r.items():
            dropped[i] = t + bad_e.get(i, [])
            live.pop(i)
        for i, t in bad_e.items():
            if i not in bad_r:
                failures[i] = t
                live.pop(i)
    raise HarnessError("generated programs keep failing to compile")


FALLOUT = ("E0425", "E0599", "E0433", "E0432", "E0412")     # names of what the macro could not make


def diagnose(part, progs, nbins, timeout=600):
    """What rustc says about programs with mistakes: {id: [(first line, last line, code, message, rendered)]}."""
    bins, places = {}, {}
    for n in range(nbins):
        g = progs[n::nbins]
        if g:
            b = f"{part.lower()}g{n}"
            bins[b], where = gen22.source(g)
            places[b] = {l: (i, l - a) for a, z, i in where for l in range(a, z + 1)}
    d = write_crate(part, bins)
    try:
        p = subprocess.run(["cargo", "check", "--offline", "--keep-going", "--message-format=json"], cwd=d, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise HarnessError("checking generated programs timed out")
    errs, seen = {}, set()
    for line in p.stdout.splitlines():
        m = json.loads(line) if line.startswith("{") else {}
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] in bins:
            seen.add(m["target"]["name"])
        if m.get("reason") != "compiler-message" or not m["message"]["level"].startswith("error"):
            continue
        b, m = m["target"]["name"], m["message"]
        if b not in bins:
            raise HarnessError("build of generated programs failed outside them:\n" + (m.get("rendered") or m["message"])[-3000:])
        seen.add(b)
        for s in m["spans"]:
            if s["is_primary"]:
                while s.get("expansion") and not s["file_name"].startswith("src/bin/"):
                    s = s["expansion"]["span"]
                if s["line_start"] in places[b]:
                    i, first = places[b][s["line_start"]]
                    errs.setdefault(i, []).append((first, first + s["line_end"] - s["line_start"], (m["code"] or {}).get("code"), m["message"], m.get("rendered") or ""))
    if seen != set(bins):
        raise HarnessError("rustc says nothing about some generated programs:\n" + p.stderr[-3000:])
    return errs


def misdiagnosed(regions, errs):
    """What is wrong with the diagnostics of one program, or None. regions: where its mistakes are."""
    at = lambda e: any(a <= e[0] and e[1] <= b for _, a, b in regions)
    touches = lambda e: any(a <= e[1] and e[0] <= b for _, a, b in regions)
    panics = [e for e in errs if "panicked" in e[3]]
    if panics:
        return "the macro panics"
    if not regions:
        return "errors without a mistake" if errs else None
    # what ends too early has no token to point at: the annotation it is in will do
    if not any(at(e) or "unexpected end of input" in e[3] for e in errs):
        return "no error at the mistake"
    if any(touches(e) and e[2] and e[2] != "E0433" for e in errs):
        return "the compiler stumbles over the generated code"
    if any(not touches(e) and e[2] not in FALLOUT and "unexpected end of input" not in e[3] for e in errs):
        return "errors away from the mistake"
    return None


if __name__ == "__main__":
    # gencheck.py PROP SEED COUNT BINS: compile only
    prop, seed, count, nb = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    progs = generator(prop).programs(prop, seed, count)
    import time
    t = time.time()
    ex, fail, drop = build(prop, progs, nb)
    print(f"{prop} {seed}: {len(progs)} programs, {len(fail)} failures, {len(drop)} dropped, {time.time()-t:.1f}s")
    byid = {p[0]: p for p in progs}
    for what, dct in (("DROP", drop), ("FAIL", fail)):
        for i, t in list(dct.items())[:int(os.environ.get("SHOW", 3))]:
            print("=====", what, i); print(byid[i][1]); print("--- ref"); print(byid[i][2]); print("\n".join(t)[:2500])
