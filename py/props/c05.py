"""C05: exactly the well-formed chains are accepted."""
from fractions import Fraction

import numpy as np
import pandas as pd

from core import caught, q

SPECIAL = {"nan": float("nan"), "inf": float("inf"), "-inf": float("-inf")}


def fl(v):
    return SPECIAL[v] if v in SPECIAL else float(Fraction(v))


def run(case):
    from chainconsumer import Chain
    from chainconsumer.statistics import SummaryStatistic

    d = case["d"]
    data = {}
    for i, c in enumerate(d["cols"]):
        odd = [i, (c["name"], "u"), float(i) + 0.5, c["name"].encode(), None][case.get("odd", 0) if len(d["cols"]) > 1 else 0]
        data[c["name"] if c["text"] else odd] = np.array([fl(v) for v in c["vals"]], dtype=float)
    df = pd.DataFrame(data)
    if case.get("index") == "rev":
        df.index = list(range(len(df)))[::-1]
    if case.get("ints"):
        for c in df.columns:
            if len(df) and np.all(np.isfinite(df[c])) and np.all(df[c] == np.round(df[c])):
                df[c] = df[c].astype(int)
    before = df.copy(deep=True)
    kw = {"weight_column": d["wcol"], "posterior_column": d["pcol"], "multimodal": d["multimodal"], "shift_params": d["shift"]}
    if d["color"] != "none":
        kw["color_param"] = d["color"]
    if d["stat"] != "none":
        kw["statistics"] = SummaryStatistic(d["stat"])
    for f, v in d["set"]:
        kw[f] = int(Fraction(v)) if f in ("walkers", "num_free_params") else fl(v)
    if case.get("lean"):  # leave defaults unsaid
        kw = {k: v for k, v in kw.items() if not (k == "weight_column" and v == "weight") and not (k == "posterior_column" and v == "log_posterior")
              and v is not False}
    r = caught(lambda: Chain(samples=df, name="c", **kw))
    kept = before.equals(df) and list(before.columns) == list(df.columns) and list(before.index) == list(df.index)
    out = {"ok": r["ok"], "kinds": r.get("kinds", []), "frameKept": bool(kept), "cols": [], "weights": [], "stat": "-"}
    if r["ok"]:
        ch = r["v"]
        out["cols"] = [{"name": c, "vals": [q(v) if np.isfinite(v) else str(v) for v in ch.samples[c].to_numpy()]} for c in ch.samples.columns]
        out["weights"] = [q(v) if np.isfinite(v) else str(v) for v in ch.weights]
        out["stat"] = ch.statistics.value
    ins = dict(d)
    ins["scale"] = q(max([abs(fl(v)) for c in d["cols"] for v in c["vals"] if v not in SPECIAL] or [0.0]))
    ins["cols"] = [{"name": c["name"], "text": c["text"], "vals": [v if v in SPECIAL else q(fl(v)) for v in c["vals"]]} for c in d["cols"]]
    return [{"op": "build", "in": ins, "out": out}]


def bigger(rng):
    n = rng.choice([1, 2, 3, 12, 30, 60])
    names = rng.sample(["x", "y", "z", "Weight", "LOG_POSTERIOR", "omega m", "weights", "log_posterior", "w", "β"], rng.randint(1, 6))
    wcol = rng.choice(["weight", "weight", "weight", "w", "x", "weights", "Weight"])
    if rng.random() < 0.5 and wcol not in names:
        names.insert(rng.randint(0, len(names)), wcol)
    sc = 10.0 ** rng.choice([-200, -6, 0, 0, 3, 8, 60, 150])
    few = rng.random() < 0.3  # many rows alike, as samplers which reject give
    cols = []
    for nm in names:
        if nm == wcol:
            vals = ["2"] * n if few else [q(rng.choice([1e-300, 0.5, 1.0, 2.0, rng.random() + 1e-9])) for _ in range(n)]
        else:
            vals = [q((rng.randint(0, 1) if few else rng.gauss(rng.choice([0, 5]), 1)) * sc) for _ in range(n)]
        cols.append({"name": nm, "text": True, "vals": vals})
    if rng.random() < 0.45:
        c = rng.choice(cols)
        c["vals"][rng.choice([0, -1, rng.randrange(n)])] = rng.choice(["nan", "inf", "-inf", "0", "-1", "-1/1000000000000"])
    sets = []
    if rng.random() < 0.4:
        sets.append(["walkers", str(rng.choice([1, 2, 3, 4, 5, 6, n, n + 1]))])
    return {"cols": cols, "wcol": wcol, "pcol": rng.choice(["log_posterior", "log_posterior", "y"]),
            "color": rng.choice(["none", "none", "none", names[0], "nope", "weight"]), "multimodal": rng.random() < 0.2,
            "stat": rng.choice(["none", "none", "hdi", "mean"]), "set": sets, "shift": rng.random() < 0.3}


def long(rng):
    """Many rows, at most one bad value among them."""
    n = rng.choice([5000, 12000, 20000])
    cols = [{"name": nm, "text": True, "vals": [str(rng.randint(1, 9)) for _ in range(n)]} for nm in ("x", "weight")]
    if rng.random() < 0.8:
        c = rng.choice(cols)
        c["vals"][rng.randrange(n)] = rng.choice(["nan", "inf", "-inf"] if c["name"] == "x" else ["nan", "0", "-1"])
    return {"cols": cols, "wcol": "weight", "pcol": "log_posterior", "color": "none", "multimodal": False, "stat": "none",
            "set": [["walkers", rng.choice(["1", "7", "10", "1000"])]] if rng.random() < 0.5 else [], "shift": False}


def main(ck):
    m = ck.model("MCAcceptance", """INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Total
INVARIANT NoBadCell
INVARIANT PositiveWeights
INVARIANT ShiftCentres
CONSTANTS MAXEDITS = 2
""")
    rng = ck.rng
    one = [b["d"] for b in m.out if b["n"] == 1]
    two, seen = [], set()
    for b in m.out:
        k = str(b["d"])
        if b["n"] == 2 and k not in seen:
            seen.add(k)
            two.append(b["d"])
    rng.shuffle(two)
    cases = [{"d": d} for d in one] + [{"d": d} for d in two[: ck.pick(900, 10**6)]]
    for c in cases:
        c["lean"] = rng.random() < 0.5
        c["index"] = rng.choice(["", "rev"])
        c["odd"] = rng.randrange(5)
        c["ints"] = rng.random() < 0.3
    cases += [{"d": bigger(rng), "lean": rng.random() < 0.5, "index": rng.choice(["", "rev"])} for _ in range(ck.pick(500, 8000))]
    cases += [{"d": long(rng)} for _ in range(ck.pick(10, 80))]
    ck.run("JAcceptance", cases, run)


RUN = {"JAcceptance": run}
