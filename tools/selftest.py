#!/usr/bin/env python3
"""Shows that the specification and the library are bound to each other.

  selftest.py records   falsify recorded runs, and see Conform reject them
  selftest.py spec      change the specification, and see the replay of its
                        behaviours in the (unchanged) library fail, or a
                        theorem of the specification break

Run by hand; DESIGN.md has the outcome.  Writes nothing but under /tmp.
"""
import copy
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check  # noqa: E402
from plan import PLAN  # noqa: E402

TMP = "/tmp/selftest"


def bump(text):
    """Another text."""
    return (text[:-1] + [text[-1] ^ 1]) if text else [120]


def false_card(c):
    c = copy.deepcopy(c)
    if not c:
        return [{"s": "FN", "g": [], "n": [], "p": [], "t": "text", "x": [[120]]}]
    x = c[len(c) // 2]["x"]
    if x:
        x[-1] = bump(x[-1])
    else:
        c.pop()
    return c


def falsify(r, prop):
    """Wrong versions of a record, with what is wrong."""
    def w(what, **kw):
        out.append((what, dict(copy.deepcopy(r), **kw)))
    out = []
    other = {"ok": "err", "err": "ok"}
    op = r["op"]
    if op in ("decode", "photo", "validate", "value", "first") and r["res"] in other:
        w("outcome", res=other[r["res"]])
    if op == "decode" and r["res"] == "ok":
        w("a value", cards=[false_card(r["cards"][0])] + r["cards"][1:])
        w("a card less", cards=r["cards"][1:])
        c = r["cards"][0]
        w("a property less", cards=[c[:-1]] + r["cards"][1:])
        w("a group", cards=[[dict(c[0], g=[[97, 98]])] + c[1:]] + r["cards"][1:])
    if op == "iter":
        i = len(r["items"]) // 2
        was = r["items"][i]
        w("an item", items=r["items"][:i] + [dict(was, item="error" if was["item"] != "error" else "end", card=[])] + r["items"][i + 1:])
        w("the end", items=r["items"][:-1] + [dict(r["items"][-1], item="error")])
    if op == "encode" and r["res"] == "ok":
        if prop in ("C03", "C22"):
            w("line breaks", out=[c for c in r["out"] if c != 13])
        w("what is read back", back=dict(r["back"], cards=[false_card(r["card"])]))
        i = r["out"].index(10, 15)
        w("what is written", out=r["out"][:i - 1] + [7] + r["out"][i - 1:])
        w("a fold too late", out=r["out"][:-14] + [32, 13, 10] + r["out"][-14:])
    if op == "same" and r["variants"]:
        w("a variant", variants=[dict(r["variants"][0], eq=False)] + r["variants"][1:])
    if op == "concat":
        if r["all"]["res"] == "ok":
            w("a card less", all=dict(r["all"], cards=r["all"]["cards"][:-1]))
        w("repetition", repeat=False)
    if op == "drop" and r["private"]:
        w("freed memory", dirty=[r["private"][-1]["id"]])
    if op == "photo" and r["res"] == "ok":
        w("bytes", bytes=r["bytes"] + [[1]])
    if op in ("value",) and r["res"] == "ok" and r["v"]:
        w("the value", v=r["v"][:-1] + ([bump(r["v"][-1])] if isinstance(r["v"][-1], list) else []))
    if op in ("show", "print") and r["res"] == "ok":
        w("what is written", out=[120] + r["out"])
    if op == "serde":
        w("the card behind JSON", back=false_card(r["card"]))
        w("equality", eq=False)
    if op == "build":
        w("a state", states=r["states"][:-1] + [false_card(r["states"][-1])])
    if op == "configs":
        w("one build", runs=[dict(r["runs"][0], res=other.get(r["runs"][0]["res"], "err"), cards=[], outs=[])] + r["runs"][1:])
    if op == "total":
        w("outcome", res="panic")
    if op == "first" and r["res"] == "ok":
        w("a value", card=false_card(r["card"]))
    return out


def records(props):
    os.makedirs(TMP, exist_ok=True)
    total = [0, 0]
    for prop in props:
        if prop == "C21":
            continue
        binary = check.build(PLAN[prop]["build"])
        f = os.path.join(TMP, prop + ".nd")
        check.run_vh(binary, ["run", prop, "77", "300"], f)
        recs = [json.loads(l) for l in open(f)]
        g = os.path.join(TMP, prop + "-false.nd")
        what = []
        with open(g, "w") as o:
            for r in recs:
                for name, bad in falsify(r, prop):
                    what.append((r["op"], name, bad))
                    o.write(json.dumps(bad, ensure_ascii=False) + "\n")
        text = check.tlc("Conform", "Conform.cfg", {"PROP": prop, "TRACE": g}, 8, g + ".tlc")
        hit = {int(m[1]) for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),', text)}
        table = {}
        for i, (op, name, bad) in enumerate(what):
            t = table.setdefault(op + ": " + name, [0, 0, None])
            t[0] += 1
            if i + 1 in hit:
                t[1] += 1
            elif t[2] is None:
                t[2] = bad
        for k, (n, h, miss) in sorted(table.items()):
            total[0] += n
            total[1] += h
            print("%s %-32s %4d falsified %4d rejected%s" % (prop, k, n, h, "" if n == h or "-v" not in sys.argv else "   " + check.short(miss, 300)))
    print("%d of %d falsified records rejected" % (total[1], total[0]))


def spec():
    sys.path.insert(0, os.path.join(HERE, "tools"))
    from mutants import MUTANTS as ms
    binary = check.build("zeroize")
    caught = 0
    for k, (mod, old, new, model, env, mode) in enumerate(ms):
        d = os.path.join(TMP, "spec")
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(os.path.join(HERE, "spec"), d)
        p = os.path.join(d, mod + ".tla")
        s = open(p).read()
        if s.count(old) < 1:
            print("STALE", mod, repr(old))
            continue
        open(p, "w").write(s.replace(old, new, 1))
        check.SPEC = d
        cases = os.path.join(TMP, "m.cases")
        if os.path.exists(cases):
            os.remove(cases)
        try:
            check.tlc(model, model + ".cfg", dict(env, CASES=cases), 8, os.path.join(TMP, "m.tlc"))
            st, fatal = check.run_vh(binary, ["replay", cases, mode, "0", "1", "-", "1"], os.path.join(TMP, "m.out"))
            n = sum(1 for _ in open(os.path.join(TMP, "m.out")))
            how = "%d cases differ" % n if n else "SURVIVES"
        except check.ToolError as e:
            how = "a theorem breaks: " + (re.search(r"Invariant (\w+) is violated", str(e)) or re.search(r"(.{0,60})", str(e).split("\n")[-1]))[1]
        caught += how != "SURVIVES"
        print("%-12s %-55s %-11s %s" % (mod, (old + " -> " + new).replace("\n", " ")[:55], model, how), flush=True)
    print("%d of %d changes of the specification noticed" % (caught, len(ms)))


if __name__ == "__main__":
    os.makedirs(TMP, exist_ok=True)
    if sys.argv[1] == "records":
        records([a for a in sys.argv[2:] if a.startswith("C")] or list(PLAN))
    else:
        spec()
