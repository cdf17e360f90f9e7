#!/usr/bin/env python3
"""Runs the check of one property.

  check.py setup                     build every binary the checks need
  check.py ID [quick|thorough]       check property ID
  check.py replay FILE               judge a reported violation again

Exit 0: the property held on everything explored.  Exit 1, with a line
"VIOLATION property=ID replay=PATH": it is broken.  Exit 2: the check itself
failed and says nothing.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HARNESS, "target")
SPEC = os.path.join(HERE, "spec")
WORK = os.path.join(HERE, "work")
REPLAYS = os.path.join(HERE, "replays")
TLA = "/opt/veriftools/tla"
CORES = os.cpu_count() or 8
sys.path.insert(0, HERE)
from plan import PLAN  # noqa: E402


class ToolError(Exception):
    pass


def say(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ building
def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def rust_sources():
    fs = [os.path.join(REPO, "Cargo.toml")]
    for d in (os.path.join(REPO, "src"), os.path.join(HARNESS, "src")):
        for r, _, names in os.walk(d):
            fs += [os.path.join(r, n) for n in names]
    fs += [os.path.join(HARNESS, n) for n in ("Cargo.toml", "Cargo.lock", "rust-toolchain.toml")]
    return [f for f in fs if os.path.isfile(f)]


def cargo_env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR="never",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    return e


def build(config):
    """The harness built with the given features of the library; its path.

    cargo goes by modification times, which a copied tree need not keep, so
    the sources are compared by content."""
    os.makedirs(os.path.join(TARGET, "bin"), exist_ok=True)
    with open(os.path.join(TARGET, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = tree_hash(rust_sources())
        name = config.replace(",", "+") or "none"
        binary = os.path.join(TARGET, "bin", "vh-" + name)
        stamp = binary + ".hash"
        if os.path.exists(binary) and os.path.exists(stamp) and open(stamp).read() == want:
            return binary
        last = os.path.join(TARGET, "sources.hash")
        env = cargo_env()
        if not os.path.exists(last) or open(last).read() != want:
            for pat in ("vcard4-*", "vcheck-harness-*"):
                for d in glob.glob(os.path.join(TARGET, "debug", ".fingerprint", pat)):
                    shutil.rmtree(d, ignore_errors=True)
        cmd = ["cargo", "build", "--offline", "--locked", "--no-default-features"]
        if config:
            cmd += ["--features", config]
        r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError("the harness does not build:\n" + r.stdout[-4000:])
        with open(last, "w") as f:
            f.write(want)
        tmp = binary + ".new"
        shutil.copy2(os.path.join(TARGET, "debug", "vh"), tmp)
        os.replace(tmp, binary)
        with open(stamp, "w") as f:
            f.write(want)
        return binary


# ------------------------------------------------------------------- running
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_vh(binary, args, out, timeout=600):
    """Run the harness.  Returns (stats, fatal): fatal is a record of the run
    that hung or ended the process, or None."""
    for p in (out, out + ".hang", out + ".current"):
        if os.path.exists(p):
            os.remove(p)

    def go(env):
        return subprocess.run([binary] + args + [out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                              env=env, preexec_fn=limits, timeout=timeout, errors="replace")
    env = dict(os.environ)
    env.pop("VH_CURRENT", None)
    env["RUST_BACKTRACE"] = "0"
    try:
        r = go(env)
        if r.returncode < 0 or r.returncode == 134:
            env["VH_CURRENT"] = "1"
            r = go(env)
    except subprocess.TimeoutExpired:
        raise ToolError("recording takes too long: " + " ".join(args))
    if r.returncode == 86:
        rec = json.load(open(out + ".hang"))
        return {"ran": 0, "written": 0}, rec
    if (r.returncode < 0 or r.returncode == 134) and os.path.exists(out + ".current"):
        rec = json.load(open(out + ".current"))
        rec["res"] = "killed"
        rec["why"] = "signal %d: %s" % (-r.returncode, r.stderr[-300:])
        return {"ran": 0, "written": 0}, rec
    if r.returncode != 0:
        raise ToolError("the harness fails (%d): %s" % (r.returncode, r.stderr[-2000:]))
    line = r.stdout.strip().splitlines()
    return (json.loads(line[-1]) if line else {}), None


def tlc(module, config, env, workers, out, timeout=800, heap="6g", extra=()):
    """Run TLC; returns its output.  Anything but a completed exploration
    is an error of the check."""
    e = dict(os.environ)
    e.update(env)
    meta = out + ".meta"
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(2, workers // 2),
           "-cp", TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar", "tlc2.TLC",
           "-metadir", meta, "-noGenerateSpecTE", "-deadlock", "-workers", str(workers), "-seed", "1", "-fp", "1",
           *extra, "-config", config, module]
    try:
        with open(out, "w") as f:
            subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC takes too long on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    text = open(out, errors="replace").read()
    if "Model checking completed. No error has been found." not in text:
        lines = [l for l in text.splitlines() if not l.startswith(("Parsing", "Semantic", "Linting", '"{'))]
        raise ToolError("TLC fails on %s:\n%s" % (module, "\n".join(lines)[-3500:]))
    return text


def counts(text):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
    return (int(m[1]), int(m[2])) if m else (0, 0)


def coverage(text):
    """How often each action of the specification was taken."""
    return {m[1]: int(m[2]) for m in re.finditer(r'<<"COUNT", "(\w+)", (\d+)>>', text)}


# ------------------------------------------------------------------ findings
def readable(v):
    if isinstance(v, list):
        if v and all(isinstance(x, int) for x in v) and all(9 <= x < 0x110000 for x in v):
            return "".join(map(chr, v))
        return [readable(x) for x in v]
    if isinstance(v, dict):
        return {k: readable(x) for k, x in v.items() if k != "gr"}
    return v


def short(rec, n=600):
    s = json.dumps(readable(rec), ensure_ascii=False)
    return s if len(s) <= n else s[:n] + "..."


# Actions without which the runs would say nothing about the property.
FRAME = ("SkipBlank", "Begin", "BadBegin", "Version", "BadVersion", "Accept", "Reject", "End", "NestedBegin",
         "MisplacedVersion", "Unfinished")
READ = ("Begin", "Version", "Accept", "End", "Judge")
NEEDED = {
    "C01": READ, "C02": READ, "C06": FRAME, "C07": ("YieldCard", "YieldError", "YieldEnd"),
    "C08": READ + ("Ignore", "Reject"), "C09": READ + ("Reject", "Ignore"), "C10": READ + ("Reject",), "C11": READ + ("Reject",),
    "C12": READ + ("Reject",), "C13": READ + ("Reject",), "C15": READ, "C16": READ, "C19": ("BuildCall",), "C22": READ,
}


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "known-findings.jsonl")
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "open":
                    out.append(d)
    return out


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.bad = []           # (reason, record, how to record it again)
        self.states = self.transitions = self.traces = self.ran = 0
        self.model_states = 0
        self.actions = {}
        self.samples = []
        self.parts = []
        self.dir = os.path.join(WORK, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)

    def path(self, name):
        return os.path.join(self.dir, name)

    # -- recorded runs against the specification
    def record(self, binary, seeds, limit):
        files = []

        def one(s):
            out = self.path("run-%d.nd" % s)
            st, fatal = run_vh(binary, ["run", self.prop, str(s), str(limit)], out)
            return s, out, st, fatal
        with cf.ThreadPoolExecutor(CORES) as ex:
            for s, out, st, fatal in ex.map(one, seeds):
                self.ran += st.get("ran", 0)
                if fatal:
                    self.bad.append(("%s: %s" % (fatal["fn"], fatal["res"]), fatal, {"seed": s, "limit": limit}))
                else:
                    files.append((s, out))
        n = 0
        for s, out in files:
            recs = open(out).read().split("\n")
            recs = [r for r in recs if r]
            n += len(recs)
        self.parts.append({"part": "recorded runs", "seeds": list(seeds), "records": n})
        seed_of = {o: s for s, o in files}
        self.judge_files(list(seed_of), lambda f: {"seed": seed_of[f], "limit": limit})

    def judge_files(self, files, how_of):
        """Judge trace files; one TLC per file, a few at a time."""
        par = max(1, min(len(files), CORES))
        workers = 2 if par <= CORES // 2 else 1

        def one(f):
            if os.path.getsize(f) == 0:
                return f, ""
            return f, tlc("Conform", "Conform.cfg", {"PROP": self.prop, "TRACE": f}, workers, f + ".tlc",
                          heap="%dg" % max(2, 20 // par))
        with cf.ThreadPoolExecutor(par) as ex:
            for f, text in ex.map(one, files):
                recs = [r for r in open(f).read().split("\n") if r]
                g, d = counts(text)
                self.transitions += g
                self.states += d
                self.traces += len(recs)
                took = coverage(text)
                if took.pop("done", 0) != len(recs):
                    raise ToolError("not every record of %s was judged" % f)
                for a, n in took.items():
                    if n:
                        self.actions[a] = self.actions.get(a, 0) + n
                if recs:
                    self.samples.append(short(json.loads(recs[len(recs) // 2]), 400))
                for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', text):
                    rec = json.loads(recs[int(m[1]) - 1])
                    if m[2].startswith("tool:"):
                        raise ToolError("%s: %s" % (m[2], short(rec)))
                    self.bad.append((m[2], rec, dict(how_of(f), index=int(m[1]))))

    # -- behaviours of the specification against the implementation
    def model(self, m, binary):
        """Explore a model exhaustively, check its theorems, and run every
        case it emits through the implementation."""
        t0 = time.time()
        cases, out = self.path(m.label + ".cases"), self.path(m.label + ".tlc")
        text = tlc(m.name, m.name + ".cfg", dict(m.env, CASES=cases), m.workers or CORES, out, heap="12g")
        g, d = counts(text)
        self.states += d
        self.transitions += g
        self.model_states += d
        t1 = time.time()
        part = {"part": "model " + m.label, "states": d, "transitions": g, "tlc_s": round(t1 - t0, 1)}
        n = sum(1 for _ in open(cases, "rb")) if os.path.exists(cases) else 0
        said = re.search(r'<<"CASES", (\d+)>>', text)
        if not said or int(said[1]) != n:
            raise ToolError("%s emits %s cases, %d were written" % (m.label, said and said[1], n))
        self.replay_cases(m, binary, cases, n, part)
        if n > 100000:
            os.remove(cases)
        part["wall_s"] = round(time.time() - t0, 1)
        self.parts.append(part)

    def replay_cases(self, m, binary, cases, n, part):
        how = {"model": m.label, "mode": m.mode, "trace": m.trace}
        of = CORES if n > 500 else 1
        traces = []

        def one(k):
            tr = "%s.%d.trace" % (cases, k) if m.trace else "-"
            out = "%s.%d.replay" % (cases, k)
            return run_vh(binary, ["replay", cases, m.mode, str(k), str(of), tr, str(m.trace or 1)], out), out, tr
        ran = decided = 0
        with cf.ThreadPoolExecutor(CORES) as ex:
            for (st, fatal), out, tr in ex.map(one, range(of)):
                if fatal:
                    self.bad.append(("%s: %s" % (fatal["fn"], fatal["res"]), fatal, how))
                    continue
                ran += st["ran"]
                decided += st["decided"]
                for l in open(out):
                    r = json.loads(l)
                    self.bad.append(("%s (model %s)" % (r["what"], m.label), r, how))
                if m.trace:
                    traces.append(tr)
        self.ran += ran
        self.traces += decided
        part.update(cases=n, replayed=ran, outcomes_named=decided, mode=m.mode)
        if traces:
            before = self.traces
            self.judge_files(traces, lambda f: how)
            part["encodings_judged"] = self.traces - before

    # -- the end
    def finish(self):
        seen, listed = [], []
        known = known_findings(self.prop)
        for why, rec, how in self.bad:
            if any(matches(k, rec) for k in known):
                listed.append(rec)
            else:
                seen.append((why, rec, how))
        for k in known:
            say("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "implementation_runs": self.ran,
                "actions_taken": self.actions, "parts": self.parts,
                "samples": self.samples[:6] or ["none"],
            },
            "violations": len(seen), "wall_s": round(time.time() - self.t0, 1),
            "assumptions": PLAN[self.prop].get("assumptions", []),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        if not seen:
            idle = [a for a in NEEDED.get(self.prop, ()) if not self.actions.get(a)]
            if idle:
                raise ToolError("actions of the specification never taken: " + " ".join(idle))
            say("%s %s: held; %d states, %d transitions, %d traces, %d runs, %.1f s" % (
                self.prop, self.tier, self.states, self.transitions, self.traces, self.ran, ev["wall_s"]))
            return 0
        os.makedirs(REPLAYS, exist_ok=True)
        for i, (why, rec, how) in enumerate(seen[:3]):
            p = os.path.join(REPLAYS, "%s-%d.json" % (self.prop, i + 1))
            with open(p, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier, "why": why, "how": how, "readable": readable(rec), "record": rec},
                          f, indent=1, ensure_ascii=False)
            say("  %s: %s" % (why, short(rec)))
            say("VIOLATION property=%s replay=%s" % (self.prop, p))
        if len(seen) > 3:
            say("  and %d more" % (len(seen) - 3))
        return 1


def matches(k, rec):
    return all(rec.get(f) == v for f, v in k.get("match", {"": None}).items())


# --------------------------------------------------------- feature comparison
def feature_runs(run, tier, seeds, n):
    """C21: the same documents in builds with different features."""
    sets = PLAN["C21"]["builds"][tier]
    bins = [(s, build(s)) for s in sets]
    for seed in seeds:
        docs = run.path("docs-%d.nd" % seed)
        _, fatal = run_vh(bins[0][1], ["docs", str(seed), str(n)], docs)
        outs = []
        for s, b in bins:
            o = run.path("out-%d-%s.nd" % (seed, s.replace(",", "+") or "none"))
            _, fatal = run_vh(b, ["outcomes", docs], o)
            if fatal:
                run.bad.append(("%s: %s with features %s" % (fatal["fn"], fatal["res"], s), fatal, {"seed": seed}))
                return
            outs.append([json.loads(l) for l in open(o)])
            run.ran += len(outs[-1])
        merged = run.path("configs-%d.nd" % seed)
        with open(merged, "w") as f:
            for i, l in enumerate(open(docs)):
                d = json.loads(l)
                runs = []
                for (s, _), o in zip(bins, outs):
                    fs = s.split(",")
                    full = "full" in fs
                    runs.append(dict(o[i], tags=full or "language-tags" in fs, mime=full or "mime" in fs, features=s))
                f.write(json.dumps({"op": "configs", "in": d["in"], "strict": d["strict"], "runs": runs}, ensure_ascii=False) + "\n")
        run.judge_files([merged], lambda f: {"seed": seed, "n": n})
    run.parts.append({"part": "feature builds", "builds": sets, "seeds": list(seeds), "documents": n * len(list(seeds))})


# ------------------------------------------------------------------ commands
def check(prop, tier):
    plan = PLAN[prop]
    run = Run(prop, tier)
    t = plan[tier]
    seeds = [run.seed * 100003 + k for k in range(t.get("seeds", 0))]
    if prop == "C21":
        feature_runs(run, tier, seeds, t["limit"])
        binary = build("full")
    else:
        binary = build(plan.get("build", "zeroize"))
        if seeds:
            run.record(binary, seeds, t["limit"])
    for m in t.get("models", []):
        run.model(m, build(m.build) if m.build else binary)
    return run.finish()


def setup():
    for s in sorted({p.get("build", "zeroize") for p in PLAN.values()} | set(PLAN["C21"]["builds"]["quick"])):
        say("building", s or "no features")
        build(s)
    return 0


def replay(path):
    d = json.load(open(path))
    prop = d["property"]
    how = d["how"]
    run = Run(prop, "quick")
    binary = build(PLAN[prop].get("build", "zeroize"))
    rec = d["record"]
    if "seed" in how and "limit" in how:
        out = run.path("again.nd")
        _, fatal = run_vh(binary, ["run", prop, str(how["seed"]), str(how["limit"])], out)
        if fatal:
            say("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        recs = [l for l in open(out).read().split("\n") if l]
        one = run.path("one.nd")
        with open(one, "w") as f:
            f.write(recs[how["index"] - 1] + "\n")
        run.judge_files([one], lambda f: how)
    elif "model" in how and ("case" in rec or rec.get("op") == "encode"):
        case = rec["case"] if "case" in rec else {"op": "encode", "card": rec["card"]}
        cases = run.path("one.cases")
        with open(cases, "w") as f:
            f.write(json.dumps(case) + "\n")
        m = next(m for t in ("quick", "thorough") for m in PLAN[prop][t]["models"] if m.label == how["model"])
        m = m._replace(mode=how["mode"], trace=1 if how["trace"] else None)
        run.replay_cases(m, build(m.build) if m.build else binary, cases, 1, {})
    else:
        return check(prop, d.get("tier", "quick"))
    if run.bad:
        say("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    say("not reproduced")
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["setup"]:
            return setup()
        if a[:1] == ["replay"] and len(a) == 2:
            return replay(a[1])
        if a and a[0] in PLAN:
            tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
            return check(a[0], "thorough" if tier == "thorough" else "quick")
        say(__doc__)
        return 2
    except ToolError as e:
        say("CHECK ERROR:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
