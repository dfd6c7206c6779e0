"""C07: weights mean repetition, and only their ratios matter."""
from fractions import Fraction

import numpy as np
import pandas as pd

from core import num
from observe import observe

PER = 14  # rows of a block


def block(case):
    """The rows of each block: two parameters and a log posterior (distinct values)."""
    rng = np.random.default_rng(case["seed"])
    n = 5 * PER
    if case["grid"]:
        gx, gy = np.meshgrid(np.linspace(-1, 3, 10), np.linspace(10, 16, 7), indexing="ij")
        k = rng.permutation(70)
        x, y = gx.ravel()[k], gy.ravel()[k]
    else:
        x = rng.normal(size=n) * case["sx"] + case["mx"]
        if case["modes"] == 2:
            x[: n // 2] += 9 * case["sx"]
        y = rng.gamma(2.0, size=n) + 0.3 * (x - case["mx"]) / case["sx"]
    lp = -0.5 * ((x - x.mean()) / x.std()) ** 2 - 0.5 * ((y - y.mean()) / y.std()) ** 2 + rng.normal(size=n) * 0.1
    return np.column_stack([x, y, lp])


def frame(case, rows, scale, keep):
    vals = block(case)
    within = np.asarray(case["within"], dtype=float)  # integer weights of the rows inside a block
    parts, ws, idx = [], [], []
    for r in rows:
        i = r["id"] - 1
        parts.append(vals[i * PER:(i + 1) * PER])
        ws.append(within * r["n"])
        idx += list(range(i * PER, (i + 1) * PER))
    v = np.vstack(parts)
    df = pd.DataFrame({"x": v[:, 0], "y": v[:, 1], "log_posterior": v[:, 2], "weight": np.concatenate(ws) * float(Fraction(scale))})
    if keep:
        df.index = idx
    return df


def one(case, rows, scale, keep):
    from chainconsumer import Chain
    from chainconsumer.statistics import SummaryStatistic

    s = case["set"]
    other = pd.DataFrame({"x": [0.0, 1.0, 2.0], "log_posterior": [-900.0, -901.0, -902.5]})
    ref = Chain(samples=other, name="ref", num_free_params=1, num_eff_data_points=30)
    kw = dict(s)
    kw["statistics"] = SummaryStatistic(kw["statistics"])
    ch = Chain(samples=frame(case, rows, scale, keep), name="c", color="#112233", num_free_params=2, num_eff_data_points=50,
               grid=case["grid"], sigmas=[0, 1, 2], **kw)
    return observe(ch, ["x", "y"], extra=[ref])


def run(case):
    base = one(case, case["base"], "1", False)
    ev = [{"op": "base", "in": {"rows": case["base"]}, "out": base}]
    top = [max([float(Fraction(v["v"])) for v in c["y"] if v["k"] == "num"] or [1.0]) for c in base["fig"]["v"]["curves"]] if base["fig"]["ok"] else [1.0]
    kde = bool(case["set"]["kde"])
    rep = False
    for st in case["path"]:
        rep = rep or st["kind"] in ("repeat", "split")
        o = one(case, st["rows"], st["scale"], case["keep"])
        ev.append({"op": st["kind"], "in": {"rows": st["rows"], "repeated": rep, "tol": "1/1000" if kde else "1/4000",
                                            "ctol": "1/1000000", "habs": num(max(top) * 1e-6)["v"]}, "out": o})
    return ev


def settings(rng):
    stat = rng.choice(["max", "mean", "cumulative", "max_central", "hdi"])
    s = {"statistics": stat, "smooth": rng.choice([None, 0, 0, 1, 3, 5]), "bins": rng.choice([None, 10, 23, 40]),
         "kde": rng.choice([False, False, False, True, 1.5]), "power": rng.choice([1.0, 1.0, 1.0, 2.0, 0.5]),
         "summary_area": rng.choice([0.6827, 0.5, 0.9])}
    if s["kde"]:  # the joint estimate costs one loop per cell
        s["bins"], s["smooth"] = 10, rng.choice([0, 1])
    if stat == "hdi" and rng.random() < 0.5:
        s["multimodal"] = True
    return s


def main(ck):
    rng = ck.rng
    out = []
    for depth in ck.pick((1, 3), (1, 3)):
        m = ck.model("MCWeights", f"INIT Init\nNEXT Next\nACTION_CONSTRAINT Emit\nINVARIANT SharesKept\nINVARIANT TotalKept\nCONSTANTS\n DEPTH = {depth}\n BLOCKS = 5\n").out
        rng.shuffle(m)
        out += m[: ck.pick(100, 1500)]
    cases = []
    for b in out:
        s = settings(rng)
        grid = rng.random() < 0.15
        if grid:
            s["kde"] = False
            s["multimodal"] = False
            if rng.random() < 0.7:
                s["smooth"] = None
        if s["kde"] and any(p["kind"] in ("repeat", "split") for p in b["path"]):
            s["kde"] = False  # the bandwidth follows the number of points
        cases.append({"base": b["base"], "path": b["path"], "set": s, "grid": grid, "seed": rng.randrange(10**6),
                      "sx": rng.choice([1.0, 1e-3, 250.0]), "mx": rng.choice([0.0, 5.0, -70.0]), "modes": rng.choice([1, 1, 2]),
                      "within": [rng.choice([1, 1, 2, 3]) for _ in range(PER)], "keep": rng.random() < 0.5})
    ck.run("JWeights", cases, run, limit=200)


RUN = {"JWeights": run}
