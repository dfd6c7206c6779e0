"""C08: summary statistics have their defining properties."""
import math

import numpy as np
import pandas as pd

from core import caught, nums, q, qs

STATS = ["max", "mean", "cumulative", "max_central", "hdi"]


def ramp(counts, n):
    """n values spread over equal cells in proportion to counts (jittered evenly, no randomness)."""
    tot = sum(counts)
    out = []
    for i, c in enumerate(counts):
        k = int(round(n * c / tot))
        out.append(i + (np.arange(k) + 0.5) / max(k, 1))
    return np.concatenate(out)


def normal_q(n):
    from scipy.stats import norm

    return norm.ppf((np.arange(n) + 0.5) / n)


def values(col):
    """Samples, weights and (for powered densities) the samples whose density is the powered one."""
    rng = np.random.default_rng(col["seed"])
    n = col["n"]
    k = col["kind"]
    w = np.ones(n)
    if k == "shape":
        x = ramp(col["counts"], n)
        x = x + 1e-6 * (x.max() - x.min()) * rng.random(len(x))  # no sample on the edge of a bin
        w = np.ones(len(x))
    elif k == "normal" and col["power"] == 1.0:
        x = normal_q(n)
    elif k == "normal":  # evenly spaced: the density is known whatever the power
        x = np.linspace(-5, 5, 2000)
        w = np.exp(-0.5 * x * x)
    elif k == "gauss":
        x = rng.normal(size=n)
    elif k == "skew":
        x = rng.gamma(2.0, size=n)
    elif k == "edge":
        x = rng.exponential(size=n)
    elif k == "two":
        x = np.where(rng.random(n) < col["mix"], rng.normal(-4, 1, n), rng.normal(3, 0.7, n))
    elif k == "t":
        x = rng.standard_t(3, size=n)
    elif k == "grid":
        x = np.linspace(-3, 3, n)
        w = np.exp(-0.5 * (x - col["mix"]) ** 2) + 1e-6
        if col["rep"]:
            kk = rng.permutation(2 * n)
            x, w = np.concatenate([x, x])[kk], np.concatenate([w, w * 0.5])[kk]
    else:
        raise AssertionError(k)
    if k != "grid":
        if col["weights"] == "random":
            w = rng.random(len(x)) + 1e-3
        elif col["weights"] == "importance":  # a tilt of the density
            w = np.exp(0.7 * (x - x.mean()) / x.std())
        elif col["weights"] == "heavy":
            w[rng.integers(len(x))] = len(x) * 0.4
        if col["weights"] != "one":  # light samples at both ends: the outermost 2000th of the range may be left out
            r = x.max() - x.min()
            x = np.concatenate([[x.min() - 0.002 * r], x, [x.max() + 0.002 * r]])
            w = np.concatenate([[w.sum() * 2e-4], w, [w.sum() * 2e-4]])
        if col["shuffle"]:
            kk = rng.permutation(len(x))
            x, w = x[kk], w[kk]
    p = col["power"]
    m = (x * w).sum() / w.sum()
    ps = x if p == 1.0 else (x - m) / math.sqrt(p) + m
    sc, off = col["scale"], col["offset"]
    return x * sc + off, w * col["wscale"], ps * sc + off


def run(case):
    """One consumer, several chains with their own settings; a summary event per chain."""
    from chainconsumer import Chain, ChainConsumer
    from chainconsumer.statistics import SummaryStatistic

    cons = ChainConsumer()
    ev = []
    for i, c in enumerate(case["chains"]):
        x, w, ps = values(c)
        s = c["set"]
        df = pd.DataFrame({"x": x, "weight": w})
        ch = Chain(samples=df, name=f"c{i}", statistics=SummaryStatistic(s["stat"]), summary_area=s["area"], smooth=s["smooth"],
                   bins=s["bins"], kde=s["kde"], grid=c["kind"] == "grid", power=c["power"])
        cons.add_chain(ch)
        grid = c["kind"] == "grid"
        if grid and c["power"] != 1.0:  # the density a grid states, powered
            w = (w / w.max()) ** c["power"]
        d = {"xs": qs(x), "ws": qs(w), "ps": qs(x if grid else ps), "stat": s["stat"], "area": q(s["area"]), "cols": 2, "grid": grid,
             "smooth": s["smooth"] if s["smooth"] is not None else (0 if grid else 3), "bins": "none" if s["bins"] is None else str(s["bins"]),
             "kde": "none" if s["kde"] is False else q(float(s["kde"])), "clean": c["kind"] == "normal" and s["smooth"] != 0 and s["area"] < 0.95}
        ev.append({"op": "summary", "in": d, "out": {}})
    r = caught(lambda: cons.analysis.get_summary())
    for i, e in enumerate(ev):
        o = {"ok": r["ok"], "k": "-", "b": []}
        if r["ok"]:
            b = r["v"][f"c{i}"].get("x")
            if b is not None and not isinstance(b, list):
                o["k"], o["b"] = "one", nums([b.lower, b.center, b.upper])
        e["out"] = o
    return ev


def column(rng, kind, counts=None):
    n = rng.choice([60, 150, 400, 400, 900])
    c = {"kind": kind, "n": n, "seed": rng.randrange(10**6), "power": 1.0, "mix": rng.choice([0.3, 0.5, 0.8]), "counts": counts or [],
         "weights": rng.choice(["one", "one", "random", "importance", "heavy"]), "shuffle": rng.random() < 0.5, "rep": rng.random() < 0.5,
         "scale": rng.choice([1.0, 1.0, 1e-4, 3e5, 1e-9]), "offset": rng.choice([0.0, 0.0, 1.0, -40.0]), "wscale": rng.choice([1.0, 1.0, 1e-6, 50.0])}
    if abs(c["offset"]) > 1e4 * c["scale"]:
        c["offset"] = 0.0
    s = {"stat": rng.choice(STATS), "area": rng.choice([0.6827, 0.6827, 0.9, 0.5, 0.3, 0.95, 0.98, 0.99, 0.997, round(rng.uniform(0.1, 0.97), 3)]),
         "smooth": rng.choice([None, None, 1, 2, 3, 5, 0]), "bins": rng.choice([None, None, 20, 60, 120]), "kde": False}
    if kind == "normal":
        c["n"] = rng.choice([400, 1000])
        c["weights"] = "one"
        c["power"] = rng.choice([1.0, 1.0, 0.5, 2.0])
        if c["power"] != 1.0:
            s["smooth"] = rng.choice([2, 3])
            s["bins"] = 20
    if kind == "grid":
        c["n"] = rng.choice([15, 40, 101])
        c["mix"] = rng.choice([0.0, 1.0, 2.9])
        c["scale"] = rng.choice([1.0, 1e-4, 1e3])
        c["offset"] = 0.0
        s["smooth"] = rng.choice([None, None, 0, 1])
        s["bins"] = None
        if not s["smooth"]:
            c["power"] = rng.choice([1.0, 1.0, 2.0, 0.5])
    elif rng.random() < 0.2 and c["weights"] != "heavy":
        s["kde"] = rng.choice([True, 0.5, 1.7] if kind in ("t", "edge", "shape") else [True, 0.5, 1.7, 2])
        if c["power"] != 1.0:
            c["power"] = 1.0
    if kind == "two" or c["n"] < 400:
        s["kde"] = False
    if c["n"] < 400 and s["bins"] == 120:
        s["bins"] = 60
    if kind in ("shape", "normal"):  # evenly laid samples: keep enough of them in every cell
        c["n"] = max(c["n"], 400)
        s["bins"] = 20 if s["smooth"] != 0 and c["n"] < 900 else s["bins"] and min(s["bins"], 60)
    c["set"] = s
    return c


def main(ck):
    rng = ck.rng
    inv = "\n".join("INVARIANT " + x for x in ("Ordered", "Nested", "HDINarrowest", "HDIHolds", "Mirror", "LevelIsHDI", "BandsPartition", "BandsDisjoint"))
    m = ck.model("MCSummary", f"INIT Init\nNEXT Next\nCONSTRAINT Emit\n{inv}\nCONSTANTS CELLS = {ck.pick(5, 6)} TOP = 3\n").out
    rng.shuffle(m)
    shapes = m[: ck.pick(90, 2500)]
    cols = [column(rng, "shape", s) for s in shapes]
    kinds = ["normal", "normal", "gauss", "skew", "edge", "two", "t", "grid"]
    cols += [column(rng, kinds[i % len(kinds)]) for i in range(ck.pick(170, 5000))]
    rng.shuffle(cols)
    cases = []
    while cols:
        k = rng.choice([1, 1, 2, 3])
        cases.append({"chains": cols[:k]})
        cols = cols[k:]
    ck.run("JSummary", cases, run, limit=200)


RUN = {"JSummary": run}
