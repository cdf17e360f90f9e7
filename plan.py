"""What the check of each property explores."""
from typing import NamedTuple, Optional

# Features the library knows of; C21 builds their combinations.
FEATURES = ["zeroize", "serde", "mime", "language-tags"]


def combos():
    out = []
    for k in range(16):
        out.append(",".join(f for i, f in enumerate(FEATURES) if k >> i & 1))
    return out


COMMON = [
    "terminal: a run that takes more than 20 s counts as endless",
    "inputs outside the stated quantifier are not generated, or are left open by the specification (status any)",
]


class Model(NamedTuple):
    """A bounded model, the environment that sets its bounds, and what the
    harness does with the cases it emits (see harness/src/replay.rs)."""
    name: str
    env: dict
    mode: str = "compare"
    trace: Optional[int] = None    # judge one encoding out of this many
    workers: Optional[int] = None  # 1 where cases are longer than 8 KB: TLC's workers share a file
    build: Optional[str] = None

    @property
    def label(self):
        v = [str(x) for _, x in sorted(self.env.items())]
        return "-".join([self.name] + v + ([] if self.mode == "compare" else [self.mode]))


def M(name, n, mode="compare", trace=None, workers=None, build=None, **env):
    return Model(name, dict(env, N=str(n)), mode, trace, workers, build)


def reader(n, alphabet="wide", emit="decode", mode="compare"):
    return M("MC_Reader", n, mode, ALPHABET=alphabet, EMIT=emit)


def text(s, n=3, mode="compare", trace=None):
    return M("MC_Text", n, mode, trace, SET=s)


def temporal(s, n=3, emit="read", mode="compare", trace=None):
    return M("MC_Temporal", n, mode, trace, SET=s, EMIT=emit)


def cards(n, emit, mode="compare", trace=None, build=None):
    return M("MC_Cards", n, mode, trace, build=build, EMIT=emit)


def params(n, pool="all", mode="compare", trace=None):
    return M("MC_Params", n, mode, trace, POOL=pool)


def near(s, width="narrow", n=1, mode="compare"):
    return M("MC_Near", n, mode, SET=s, WIDTH=width)


def entry(limit, seeds, tlimit, tseeds, models=(), more=(), build="zeroize", assumptions=()):
    """The quick check, and what the thorough one explores on top of it."""
    return {
        "build": build,
        "quick": {"seeds": seeds, "limit": limit, "models": list(models)},
        "thorough": {"seeds": tseeds, "limit": tlimit, "models": list(models) + list(more)},
        "assumptions": COMMON + list(assumptions),
    }


PLAN = {
    "C01": entry(1500, 4, 6000, 16,
                 [cards(2, "decode", "encode", 4), params(1, mode="encode", trace=4), text("values", mode="encode", trace=20)],
                 [cards(3, "decode", "encode", 300), params(2, mode="encode", trace=20),
                  M("MC_Routing", 1, "encode", 40), M("MC_Names", 1, "encode", 40), text("params", mode="encode", trace=20)]),
    "C02": entry(1500, 4, 6000, 16,
                 [cards(2, "encode", "encode", 4), text("encode", mode="encode", trace=20)],
                 [cards(3, "encode", "encode", 300), text("encode", 4, "encode", 300),
                  temporal("days", emit="encode", mode="encode", trace=100), M("MC_FoldOut", 1, "encode", 10, 1)]),
    "C03": entry(1200, 4, 6000, 16, [M("MC_FoldOut", 1, "fold", 2, 1)], [M("MC_FoldOut", 2, "fold", 8, 1)]),
    "C04": entry(1200, 4, 6000, 16, [M("MC_Fold", 1), near("breaks")], [M("MC_Fold", 2), near("docs"), near("breaks", n=2)]),
    "C05": entry(2500, 4, 6000, 24,
                 [reader(5, mode="total"), text("wide", mode="total"), params(1, mode="total"), temporal("tokens", 3, mode="total"),
                  M("MC_Photo", 2, "total", SET="base64"), near("params", mode="total"), near("breaks", mode="total")],
                 [near("values", "wide", mode="total"), near("docs", mode="total"), reader(6, mode="total"), reader(6, "once", mode="total"), text("values", 4, "total"), text("params", 4, "total"), params(2, mode="total"),
                  M("MC_Routing", 1, "total"), M("MC_Names", 2, "total"), temporal("tokens", 4, mode="total"), temporal("zones", mode="total"),
                  M("MC_Compose", 4, "total"), reader(9, "deep", "iter", "total")]),
    "C06": entry(2000, 4, 6000, 16, [reader(5), M("MC_Compose", 3), near("docs")], [near("breaks", n=2), reader(6), reader(6, "once"), M("MC_Compose", 4)]),
    "C07": entry(2000, 4, 6000, 16, [reader(5, emit="iter"), M("MC_Compose", 3), near("breaks")],
                 [near("docs"), near("breaks", n=2), reader(6, emit="iter"), reader(9, "deep", "iter"), M("MC_Compose", 4)]),
    "C08": entry(2000, 4, 6000, 16, [reader(5), params(1), text("values", 2), near("params")],
                 [near("values", "wide"), reader(6), reader(6, "once"), params(2), M("MC_Routing", 1)]),
    "C09": entry(2000, 4, 6000, 16, [reader(5, "once"), cards(2, "validate"), cards(2, "decode")],
                 [reader(6, "once"), cards(3, "validate"), cards(3, "decode")]),
    "C10": entry(2000, 4, 6000, 16, [M("MC_Names", 1), cards(2, "decode"), near("values")], [M("MC_Names", 2), near("values", "wide"), cards(3, "decode")]),
    "C11": entry(2000, 4, 6000, 16, [params(2), text("params", 3), near("params", "wide")], [params(3, "small"), text("params", 4)]),
    "C12": entry(2000, 4, 6000, 16, [M("MC_Routing", 1), near("values")], [near("values", "wide"), params(2), cards(3, "decode")]),
    "C13": entry(2000, 4, 6000, 16, [temporal("tokens", 3), temporal("digits", 8), temporal("marks", 5), temporal("days"), temporal("zones")],
                 [temporal("tokens", 4), temporal("digits", 10), temporal("marks", 6), temporal("clock"), temporal("years"), temporal("seconds")]),
    "C14": entry(2000, 4, 6000, 16,
                 [temporal("days", emit="encode", mode="encode", trace=100), temporal("clock", emit="encode", mode="encode", trace=40),
                  temporal("zones", emit="encode", mode="encode", trace=40)],
                 [temporal("years", emit="encode", mode="encode", trace=200)]),
    "C15": entry(2000, 4, 6000, 16, [text("values"), text("encode", mode="encode", trace=20), near("values")],
                 [text("values", 4), text("encode", 4, "encode", 300)]),
    "C16": entry(2000, 4, 6000, 16, [text("wide"), text("values"), text("encode", mode="encode", trace=20)],
                 [text("values", 4), text("encode", 4, "encode", 300)]),
    "C17": entry(2000, 4, 6000, 16, [M("MC_Memory", 1, workers=1)], [M("MC_Memory", 2, workers=1)],
                 assumptions=["freed blocks are looked at as they are freed; copies the allocator or the stack keeps are not"]),
    "C18": entry(1500, 4, 6000, 16, [cards(2, "serde"), params(1, mode="serde"), text("encode", mode="serde")],
                 [cards(3, "serde"), params(2, mode="serde"), M("MC_Routing", 1, "serde"), M("MC_Names", 1, "serde"),
                  temporal("days", emit="encode", mode="serde"), text("values", mode="serde")], build="full"),
    "C19": entry(2000, 4, 6000, 16, [M("MC_Builder", 2)], [M("MC_Builder", 3)]),
    "C20": entry(2000, 4, 6000, 16, [M("MC_Photo", 2, SET=s) for s in ("marks", "base64", "bytes")],
                 [M("MC_Photo", 5, SET=s) for s in ("base64", "bytes")]),
    "C21": entry(1000, 2, 3000, 4, build="full"),
    "C22": entry(1500, 4, 6000, 16, [cards(2, "encode", "encode", 2), M("MC_FoldOut", 1, "encode", 8, 1)],
                 [cards(3, "encode", "encode", 200), M("MC_FoldOut", 2, "encode", 30, 1), text("encode", mode="encode", trace=10)]),
    "C23": entry(1500, 4, 6000, 16, [M("MC_Compose", 3)], [M("MC_Compose", 4), reader(6)]),
    "C24": entry(2000, 4, 6000, 16, [M("MC_Values", 2, "print", 2), reader(5, emit="iter", mode="first")],
                 [M("MC_Values", 3, "print", 20), reader(6, emit="iter", mode="first")]),
}
PLAN["C21"]["builds"] = {
    "quick": ["", "zeroize", "serde", "mime", "language-tags", "full"],
    "thorough": combos()[:-1] + ["full"],
}

# What the bounded models range over.
ABOUT = {
    "MC_Reader": "documents of at most N lines from an alphabet of line kinds",
    "MC_Text": "values and parameters of at most N tokens in every text property",
    "MC_Cards": "cards of at most N properties from a catalogue of every kind",
    "MC_Params": "lines with at most N parameters from a pool of every parameter",
    "MC_Names": "names of properties, groups and parameters in every case",
    "MC_Routing": "every property with every VALUE and value",
    "MC_Temporal": "dates, times, date-times and offsets",
    "MC_Fold": "places to fold a line, for N lines",
    "MC_FoldOut": "line lengths around the folding limit with characters of every width",
    "MC_Builder": "sequences of at most N builder calls",
    "MC_Photo": "photos and base64 texts of at most N parts",
    "MC_Memory": "cards holding N marked secrets in every place",
    "MC_Near": "everything at most N character edits away from a text that is right",
    "MC_Compose": "sequences of at most N documents",
    "MC_Values": "texts of at most N tokens for every value parser",
}


def note(p):
    e = PLAN[p]
    def names(t):
        out = {}
        for m in e[t]["models"]:
            v = ["%s=%s" % kv for kv in sorted(m.env.items())]
            out.setdefault(m.name, []).append("(" + ", ".join(v) + ")")
        return "; ".join("%s%s: %s" % (k, "".join(v), ABOUT[k]) for k, v in out.items())
    s = "Validated against the specification by TLC: %d recorded runs or fewer per seed, from inputs generated from the seed (%d seeds quick, %d thorough), so what is not generated is not covered. " % (
        e["quick"]["limit"], e["quick"]["seeds"], e["thorough"]["seeds"])
    if e["quick"]["models"]:
        s += "Exhaustive within bounds: every behaviour of the bounded models is checked by TLC against the specification's own invariants and replayed into the library. Quick: " + names("quick") + ". "
        if names("thorough") != names("quick"):
            s += "Thorough: " + names("thorough") + ". "
    return s + "Trusted: TLC, the harness that records and replays, the specification; what the specification leaves open is listed in DESIGN.md."


T = ("TLA+ specification checked with TLC: behaviours of bounded models replayed into the library, and recorded runs of the "
     "library validated against the specification")
NOTES = {p: (T, note(p)) for p in PLAN}
