"""C29: results follow a change of units and of origin, and no more than names follow a renaming."""
from fractions import Fraction

import numpy as np
import pandas as pd

from core import num, q
from observe import observe

N = 160


def values(case):
    rng = np.random.default_rng(case["seed"])
    if case["grid"]:
        gx, gy = np.meshgrid(np.linspace(-1, 3, 14), np.linspace(10, 16, 11), indexing="ij")
        x, y = gx.ravel(), gy.ravel()
        lp = -0.5 * ((x - 0.7) / 0.8) ** 2 - 0.5 * ((y - 13.4 - 0.6 * x) / 1.1) ** 2
        w = np.exp(lp) * (1 + 0.05 * rng.random(len(x)))
    else:
        x = rng.normal(size=N)
        if case["modes"] == 2:
            x[: N // 3] += 8
        y = rng.gamma(2.0, size=N) + 0.4 * x
        k = rng.permutation(N)
        x, y = x[k], y[k]
        lp = -0.5 * ((x - x.mean()) / x.std()) ** 2 - 0.5 * ((y - y.mean()) / y.std()) ** 2 + rng.normal(size=N) * 0.1
        w = rng.random(N) + 0.3
    return x, y, lp, w, rng.normal(size=len(x))


def run(case):
    from chainconsumer import Chain
    from chainconsumer.statistics import SummaryStatistic

    x, y, lp, w, u = values(case)
    v = [x, y]
    st = {"names": ["x", "y"], "name": "c", "order": [0, 1], "extra": False, "chain": False}
    s = dict(case["set"])
    s["statistics"] = SummaryStatistic(s["statistics"])

    def look():
        cols = {st["names"][k]: v[k] for k in st["order"]}
        if st["extra"]:
            cols = {"unrelated": u * 1e3, **cols} if case["first"] else {**cols, "unrelated": u * 1e3}
        df = pd.DataFrame(cols | {"log_posterior": lp, "weight": w})
        ref = pd.DataFrame({"x": [0.0, 1.0, 2.0], "log_posterior": [-900.0, -901.0, -902.5]})
        extra = [Chain(samples=ref, name="ref", num_free_params=1, num_eff_data_points=30)]
        if st["chain"]:
            r = np.random.default_rng(5)
            extra.append(Chain(samples=pd.DataFrame({st["names"][0]: r.normal(size=50) * 1e4, "z": r.normal(size=50)}), name="unrelated chain"))
        wk = {} if case["grid"] else {"walkers": 4}
        ch = Chain(samples=df, name=st["name"], color="#112233", num_free_params=2, num_eff_data_points=50, grid=case["grid"], sigmas=[0, 1, 2], **wk, **s)
        return observe(ch, list(st["names"]), extra=extra, diag=not case["grid"])

    base = look()
    ev = [{"op": "base", "in": {}, "out": base}]
    top = [max([float(Fraction(z["v"])) for z in c["y"] if z["k"] == "num"] or [1.0]) for c in base["fig"]["v"]["curves"]] if base["fig"]["ok"] else [1.0]
    mirrored, size = False, [1.0, 1.0]
    power = case["set"]["power"]
    for o in case["path"]:
        if o["op"] == "map":
            a, b = float(Fraction(o["a"])), float(Fraction(o["b"]))
            k = o["p"] - 1
            size[k] *= abs(a)
            b *= size[k] * case["unit"]
            v[k] = a * v[k] + b
            mirrored = mirrored or a < 0
            o = {**o, "a": q(a), "b": q(b)}
        elif o["op"] == "rename":
            st["names"] = ["$\\beta_%$"[:6] + "$", "a b"] if case["first"] else ["y", "x"]
        elif o["op"] == "rechain":
            st["name"] = "another name"
        elif o["op"] == "chain":
            st["chain"] = True
        elif o["op"] == "extra":
            st["extra"] = True
        elif o["op"] == "swap":
            st["order"] = [1, 0]
        ev.append({"op": "see", "in": {"op": o, "tol": case["rtol"] if mirrored else "1/50000", "ctol": "1/50" if mirrored else "1/100000", "habs": num(max(top) * (2e-2 if mirrored else 1e-6))["v"], "boxf": case["boxf"] if mirrored else "1",
                                       "power": q(power), "smoothed": bool(case["set"]["kde"]) or case["smoothed"]}, "out": look()})
    return ev


def settings(rng):
    stat = rng.choice(["max", "mean", "cumulative", "max_central", "hdi"])
    s = {"statistics": stat, "smooth": rng.choice([None, 0, 0, 1, 3, 5]), "bins": rng.choice([None, 10, 23, 40]), "kde": rng.choice([False, False, False, True, 1.5]),
         "power": rng.choice([1.0, 1.0, 1.0, 2.0, 0.5]), "summary_area": rng.choice([0.6827, 0.5, 0.9])}
    if s["kde"]:  # the joint estimate costs one loop per cell
        s["bins"], s["smooth"] = 10, rng.choice([0, 1])
    if stat == "hdi" and rng.random() < 0.5:
        s["multimodal"] = True
    if s["smooth"] == 5 and s["bins"] == 40:  # the largest sample would be on the edge of a bin
        s["bins"] = 39
    return s


def main(ck):
    rng = ck.rng
    inv = "\n".join("INVARIANT " + x for x in ("Never", "Ordered", "Follows", "Undone", "Notices"))
    m = []
    for depth, n in ck.pick(((1, 47), (2, 220)), ((1, 47), (2, 900), (3, 900))):
        k = ck.model("MCUnits", f"INIT Init\nNEXT Next\nACTION_CONSTRAINT Emit\n{inv}\nCONSTANT DEPTH = {depth}\n").out
        k = [p for p in k if len(p) == depth]
        rng.shuffle(k)
        m += k[:n]
    cases = []
    for p in m:
        s = settings(rng)
        grid = rng.random() < 0.15
        if grid:
            s["kde"], s["multimodal"] = False, False
            if rng.random() < 0.7:
                s["smooth"] = None
        smoothed = s["smooth"] in (1, 3, 5) or (s["smooth"] is None and not grid)
        cases.append({"path": p, "set": s, "grid": grid, "seed": rng.randrange(10**6), "modes": rng.choice([1, 1, 2]), "first": rng.random() < 0.5, "unit": rng.choice([0.001, 1.0]), "smoothed": smoothed, "rtol": "1/40", "boxf": "2"})
    ck.run("JUnits", cases, run, limit=200)


RUN = {"JUnits": run}
