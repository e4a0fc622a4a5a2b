"""Common driver code: building scenario crates, running seeded search in worker
processes, attributing crashes, minimising, writing replay and evidence files."""
import json, os, re, shutil, signal, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(ROOT, "harness")
REPO = "/repo"
BUILD = os.path.join(ROOT, ".build")
REPLAYS = os.path.join(ROOT, "replays")
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known-findings.txt")
JOBS = min(8, os.cpu_count() or 1)


class HarnessError(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") or k in ("RUSTFLAGS", "RUSTDOCFLAGS", "RUSTC_WRAPPER"):
            del e[k]
    e.update(HOME="/root", PATH="/root/.cargo/bin:" + e.get("PATH", ""),
             RUSTUP_TOOLCHAIN="nightly-2025-03-20", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_TARGET_DIR=BUILD,
             CARGO_INCREMENTAL="0", RUST_BACKTRACE="0")
    e.pop("SIM_VERBOSE", None)
    return e


class CompileFailure(Exception):
    """A scenario no longer compiles although the library does."""
    def __init__(self, crate, target, text, files=()):
        self.crate, self.target, self.text, self.files = crate, target, text, files


def cargo_build(crate, args, extra_env=None, lib_names=("auto_enums",), timeout=800, target_dir=None):
    """Builds; raises HarnessError when the library itself (or a dependency) does not
    build, CompileFailure when a scenario does not."""
    e = env()
    if target_dir:
        e["CARGO_TARGET_DIR"] = target_dir
    if extra_env:
        e.update(extra_env)
    cmd = ["cargo", "build", "--offline", "--message-format=json"] + args
    try:
        p = subprocess.run(cmd, cwd=os.path.join(HARNESS, crate) if not os.path.isabs(crate) else crate,
                           env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise HarnessError(f"building {crate} timed out")
    execs, errors = {}, []
    for line in p.stdout.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") == "compiler-artifact" and m.get("executable"):
            execs[m["target"]["name"]] = m["executable"]
        elif m.get("reason") == "compiler-message" and m["message"]["level"].startswith("error"):
            errors.append(m)
    if p.returncode == 0:
        return execs
    mine = [m for m in errors if "/harness/" in m["package_id"] or "/gen" in m["package_id"]
            or BUILD in m["package_id"]]
    other = [m for m in errors if m not in mine]
    if other or not mine:
        txt = "\n".join(m["message"].get("rendered") or "" for m in other)[:4000] or p.stderr[-4000:]
        raise HarnessError(f"build of {crate} failed outside the scenarios:\n{txt}")
    texts, files = [], []
    for m in mine:
        texts.append(m["message"].get("rendered") or m["message"]["message"])
        for s in m["message"].get("spans", []):
            files.append(s["file_name"])
            x = s.get("expansion")
            while x:
                files.append(x["span"]["file_name"])
                x = x["span"].get("expansion")
    raise CompileFailure(crate, mine[0]["target"]["name"], "\n".join(texts)[:20000], sorted(set(files)))


# ------------------------------------------------------------------ known findings

def known_findings(prop):
    """lines `finding: property=C02 key=<key> <what>`"""
    res = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


# ------------------------------------------------------------------ a check

class Check:
    def __init__(self, prop):
        self.prop = prop
        self.seed = self.verif_seed = int(os.environ.get("VERIF_SEED") or 1)
        self.tier = os.environ.get("VERIF_TIER") or "quick"
        self.t0 = time.time()
        self.violations = []
        self.known_hit = []
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "samples": []}
        self.assumptions = []
        self.known = known_findings(prop)
        os.makedirs(REPLAYS, exist_ok=True)
        os.makedirs(EVID, exist_ok=True)
        for f in os.listdir(REPLAYS):
            if f.startswith(prop + "-"):
                os.unlink(os.path.join(REPLAYS, f))

    @property
    def thorough(self):
        return self.tier == "thorough"

    def violation(self, key, data, note=""):
        """Reports (or recognises as known) one violation."""
        if key in self.known:
            if key not in self.known_hit:
                self.known_hit.append(key)
                print(f"KNOWN-FINDING: property={self.prop} {key}: {self.known[key]}", flush=True)
            return
        path = os.path.join(REPLAYS, f"{self.prop}-{len(self.violations)}.json")
        data = dict(data, property=self.prop, seed=self.seed, key=key, note=note)
        with open(path, "w") as f:
            json.dump(data, f, indent=1)
        self.violations.append(path)
        print(f"VIOLATION property={self.prop} replay={path}", flush=True)
        if note:
            print("  " + note.replace("\n", "\n  ")[:3000], flush=True)

    def compile_violation(self, cf):
        self.violation(f"compile:{cf.crate}:{cf.target}",
                       {"kind": "compile", "crate": cf.crate, "target": cf.target, "text": cf.text,
                        "files": list(cf.files)},
                       f"scenario {cf.crate}/{cf.target} no longer compiles:\n{cf.text}")

    def finish(self):
        wall = time.time() - self.t0
        ev = {"property": self.prop, "tier": self.tier, "seed": self.verif_seed, "level": "exploration",
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(wall, 2),
              "violations": len(self.violations)}
        if not self.cov["samples"]:
            self.cov["samples"] = ["none"]
        self.cov["known_findings_hit"] = self.known_hit
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        n = self.cov["evaluations"]
        print(f"{self.prop}: {n} runs, {self.cov['distinct_nontrivial']} distinct, "
              f"{len(self.violations)} violations, {wall:.1f}s", flush=True)
        sys.exit(1 if self.violations else 0)


def _run(exe, args, timeout, e=None):
    p = subprocess.Popen(([exe] if isinstance(exe, str) else list(exe)) + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, env=e or env(), cwd="/tmp", start_new_session=True)
    try:
        o, er = p.communicate(timeout=timeout)
        return p.returncode, o, er
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, er = p.communicate()
        return "timeout", o, er


def jlines(o):
    r = []
    for l in o.splitlines():
        if l.startswith("{"):
            try:
                r.append(json.loads(l))
            except ValueError:
                pass
    return r


def merge(cov, st, exe):
    cov["evaluations"] += st["runs"]
    cov["distinct_nontrivial"] += st["nontrivial"]
    for k in ("events", "steps", "sim_time"):
        cov[k] = cov.get(k, 0) + st[k]
    for k in ("faults", "probes", "scenarios"):
        d = cov.setdefault(k, {})
        for a, b in st[k].items():
            d[a] = d.get(a, 0) + b
    if len(cov["samples"]) < 4:
        cov["samples"] += st["samples"][:1]
    if st["capped"]:
        cov["time_capped_workers"] = cov.get("time_capped_workers", 0) + 1


def find_crash(chk, exe, name, start, count, timeout):
    rc, o, er = _run(exe, ["--seed", chk.seed, "--mode", "trace", "--start", start, "--count", count], timeout)
    if rc == 0 and "DONE" in o:
        return None
    last = [l for l in o.splitlines() if l.startswith("START ")]
    if not last:
        raise HarnessError(f"{name}: worker dies before its first run: {rc} {er[-500:]}")
    _, run, sc = last[-1].split(" ", 2)
    return int(run), sc, rc, er


def crash_class(rc):
    if rc == "timeout":
        return "hang"
    if isinstance(rc, int) and rc < 0:
        return "crash:" + signal.Signals(-rc).name
    return f"exit:{rc}"


def search(chk, execs, runs, chunk_secs=300, det=200, describe=None, limit=50):
    """Seeded search over all binaries in execs {name: path} with {name: runs}."""
    jobs = []
    for name, exe in execs.items():
        n = runs[name] if isinstance(runs, dict) else runs
        per = max(1, (n + JOBS - 1) // JOBS)
        for w in range(JOBS):
            lo = w * per
            c = min(per, n - lo)
            if c > 0:
                jobs.append((name, exe, lo, c))
    t0 = time.time()
    # determinism: the same runs in other processes with another partition have the same logs
    digests = {}

    def dig(args):
        name, exe, start, count = args
        rc, o, er = _run(exe, ["--seed", chk.seed, "--mode", "digest", "--start", start, "--count", count], 120)
        return name, start, count, rc, o

    def work(job):
        name, exe, lo, c = job
        rc, o, er = _run(exe, ["--seed", chk.seed, "--mode", "search", "--start", lo, "--count", c,
                               "--max-secs", chunk_secs], chunk_secs + 120)
        return job, rc, o, er

    with ThreadPoolExecutor(JOBS) as ex:
        results = list(ex.map(work, jobs))
    seen_keys = set()
    for (name, exe, lo, c), rc, o, er in results:
        js = jlines(o)
        st = [j for j in js if j["type"] == "stats"]
        for j in js:
            if j["type"] == "harness_error":
                raise HarnessError(f"{name}: {j}")
        for j in js:
            if j["type"] == "violation":
                key = f"{name}:{j['scenario']}:{j['class']}"
                if key in seen_keys:
                    continue
                seen_keys.add(key)
                if len(seen_keys) > limit:
                    continue
                # confirm in a fresh process
                r2 = [_run(exe, ["--mode", "replay", "--scenario", j["scenario"], "--choices",
                                 ",".join(map(str, j["choices"]))], 120) for _ in range(2)]
                v2 = [[x for x in jlines(r[1]) if x["type"] == "violation"] for r in r2]
                exact = all(v and v[0]["digest"] == j["digest"] for v in v2)
                if not exact and not all(v or r[0] != 0 for v, r in zip(v2, r2)):
                    # undefined behaviour in the subject can make the outcome vary; the search itself saw it
                    j["replay_note"] = "minimised replay varies between processes"
                chk.violation(key, {"kind": "choices", "bin": name, "command": [exe] if isinstance(exe, str) else exe, **{k: j[k] for k in j if k != "type"},
                                    "replay_exact": exact, **(describe(name, j["scenario"]) if describe else {})},
                              f"{j['scenario']} run {j['run']} class {j['class']}: {j['detail']}")
        if st:
            merge(chk.cov, st[0], exe)
        if rc != 0 or not st:
            f = find_crash(chk, exe, name, lo, c, chunk_secs + 120)
            if f is None:
                raise HarnessError(f"{name}: worker ended with {rc} but the runs complete on their own: {er[-800:]}")
            run, sc, rc2, er2 = f
            key = f"{name}:{sc}:{crash_class(rc2)}"
            if key in seen_keys:
                continue
            seen_keys.add(key)
            if len(seen_keys) > limit:
                continue
            data = {"kind": "crash", **(describe(name, sc) if describe else {}), "bin": name, "command": [exe] if isinstance(exe, str) else exe, "search_seed": chk.seed, "scenario": sc, "run": run, "class": crash_class(rc2),
                    "stderr": er2[-2000:]}
            data.update(minimise_crash(chk, exe, sc, run, crash_class(rc2)))
            chk.violation(key, data, f"{sc} run {run}: process {crash_class(rc2)} {er2[-300:]}")
    # determinism self check
    dj = []
    for name, exe in execs.items():
        n = min(det, runs[name] if isinstance(runs, dict) else runs)
        dj += [(name, exe, 0, n), (name, exe, 0, n // 3), (name, exe, n // 3, n - n // 3)]
    if not chk.violations:
        with ThreadPoolExecutor(5) as ex:
            for name, start, count, rc, o in ex.map(dig, dj):
                for l in o.splitlines():
                    r, d = l.split()
                    k = (name, int(r))
                    if digests.setdefault(k, d) != d:
                        raise HarnessError(f"nondeterministic run {k}")
        chk.cov["determinism_checked_runs"] = chk.cov.get("determinism_checked_runs", 0) + len(digests)
    dt = max(time.time() - t0, 1e-6)
    chk.cov["search_wall_s"] = round(chk.cov.get("search_wall_s", 0) + dt, 2)
    chk.cov["runs_per_hour"] = int(chk.cov["evaluations"] / max(chk.cov["search_wall_s"], 1e-6) * 3600)


def minimise_crash(chk, exe, sc, run, cls):
    rc, o, er = _run(exe, ["--seed", chk.seed, "--mode", "record", "--start", run], 60)
    js = [j for j in jlines(o) if j["type"] == "record"]
    if not js:
        return {"choices": None}
    best = js[0]["choices"]

    def bad(c):
        rc, o, er = _run(exe, ["--mode", "replay", "--scenario", sc, "--choices", ",".join(map(str, c))], 20)
        return crash_class(rc) == cls and rc != 0
    if not bad(best):
        return {"choices": None, "record_note": "crash reproduces by seed and run only"}
    t = time.time() + 30
    size = max(1, len(best) // 2)
    while size >= 1 and time.time() < t:
        i = 0
        while i < len(best) and time.time() < t:
            c = best[:i] + best[i + size:]
            if bad(c):
                best = c
            else:
                i += size
        if size == 1:
            break
        size //= 2
    return {"choices": best}


def sizes(chk, quick, thorough):
    return thorough if chk.thorough else quick
