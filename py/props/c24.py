"""C24: the KDE is the truncated matched elliptical Gaussian estimate."""
import numpy as np
import pandas as pd

from core import caught, q, qs


def points(a):
    a = np.asarray(a, dtype=float)
    return [qs(r) for r in (a[:, None] if a.ndim == 1 else a)]


def run(case):
    from chainconsumer.kde import MegKDE

    k = {"pts": points(case["pts"]), "ws": qs(case["ws"]) if case["ws"] is not None else ["1"] * len(case["pts"]), "factor": q(case["factor"]), "trunc": q(case["trunc"]), "nmin": case["nmin"]}
    if case["kind"] == "curve":
        return curve(case, k)
    pts, at = np.array(case["pts"], dtype=float), np.array(case["at"], dtype=float)
    if case["flat"]:
        pts, at = pts[:, 0], at[:, 0]
    kw = {} if case["ws"] is None else {"weights": np.array(case["ws"], dtype=float)}
    for n, v, d in (("factor", case["factor"], 1.0), ("truncation", case["trunc"], 3.0), ("nmin", case["nmin"], 4)):
        if v != d or case["say"]:
            kw[n] = v
    r = caught(lambda: np.asarray(MegKDE(pts, **kw).evaluate(at), dtype=float))
    out = {"ok": r["ok"] and bool(np.all(np.isfinite(r["v"]))), "v": []}
    if out["ok"]:
        out["v"] = qs(r["v"])
    else:
        out["err"] = str(r)
    return [{"op": "kde", "in": {"k": k, "at": points(case["at"]), "power": "1"}, "out": out}]


def curve(case, k):
    import matplotlib.pyplot as plt
    from chainconsumer import Chain
    from chainconsumer.plotting import plot_dist

    df = pd.DataFrame({"x": np.array(case["pts"], dtype=float)[:, 0]})
    if case["ws"] is not None:
        df["weight"] = case["ws"]
    ch = Chain(samples=df, name="c", kde=True if case["factor"] == 1.0 and case["say"] else case["factor"], power=case["power"], shade=False)

    def f():
        fig, ax = plt.subplots()
        plot_dist(ax, ch, "x")
        return ax.lines[0].get_xdata(), ax.lines[0].get_ydata()

    r = caught(f)
    out = {"ok": r["ok"], "pts": []}
    if r["ok"]:
        x, y = r["v"]
        i = int(np.argmax(y))
        ks = [i] + [int(t * (len(x) - 1)) for t in np.linspace(0.03, 0.97, 9)]
        out["pts"] = [[q(float(x[j])), q(float(y[j]))] for j in ks]
    else:
        out["err"] = str(r)
    plt.close("all")
    return [{"op": "curve", "in": {"k": k, "at": [], "power": q(case["power"])}, "out": out}]


def main(ck):
    rng = ck.rng
    inv = "\n".join("INVARIANT " + x for x in ("NotNegative", "AtMostTheWeight", "LinearInTheWeights", "Affine", "OrderFree", "AtLeastSome", "FarPointsAreLeftOut"))
    m = []
    for dim, n, side, top in ((1, 4, 1, 2), (2, 4, 1, 1), (1, 5, 2, 1)) + ck.pick((), ((1, 4, 2, 2), (2, 4, 1, 2), (1, 5, 3, 2), (2, 4, 2, 1), (3, 5, 1, 1))):
        m += ck.model("MCKde", f"INIT Init\nNEXT Next\nCONSTRAINT Emit\n{inv}\nCONSTANTS DIM = {dim}\n N = {n}\n SIDE = {side}\n TOPW = {top}\n").out
    rng.shuffle(m)
    cases = []
    fr = lambda s: float(eval(s))  # noqa: E731, S307
    for d in m[: ck.pick(80, 2500)]:
        dim = len(d["at"])
        seq = lambda f: [f[str(j + 1)] for j in range(dim)] if isinstance(f, dict) else list(f)  # noqa: E731
        pts = [seq(p) for p in d["pts"]]
        at = [seq(d["at"])] + [[rng.uniform(-1, 3) for _ in range(dim)] for _ in range(3)]
        cases.append({"kind": "kde", "pts": pts, "ws": list(d["ws"]), "factor": fr(d["factor"]), "trunc": fr(d["trunc"]), "nmin": d["nmin"], "at": at, "flat": dim == 1 and rng.random() < 0.5, "say": True})
    for _ in range(ck.pick(120, 3000)):
        dim = rng.choice([1, 1, 2, 2, 3])
        n = rng.choice([6, 9, 15, 25, 40])
        r = np.random.default_rng(rng.randrange(2**32))
        a = r.normal(size=(n, dim)) if rng.random() < 0.6 else r.exponential(size=(n, dim)) ** 2 if rng.random() < 0.5 else np.round(r.normal(size=(n, dim)), 1)
        mix = r.normal(size=(dim, dim)) + 2 * np.eye(dim)
        a = a @ mix * rng.choice([1.0, 1e-6, 1e5]) 
        if rng.random() < 0.3:
            a[-1] = a[0]
        a += rng.choice([0.0, 1.0, -20.0]) * a.std(axis=0)
        w = rng.choice(["none", "random", "heavy", "zero", "big"])
        ws = {"none": None, "random": r.random(n) + 0.1, "heavy": r.exponential(size=n) ** 3 + 1e-3, "zero": np.where(r.random(n) < 0.3, 0.0, 1.0) + np.eye(n)[0] + np.eye(n)[n // 2], "big": 1e7 * (r.random(n) + 0.5)}[w]
        lo, hi = a.min(axis=0), a.max(axis=0)
        at = np.vstack([r.uniform(lo - 0.5 * (hi - lo), hi + 0.5 * (hi - lo), size=(3, dim)), a[r.integers(n, size=2)], hi + rng.choice([1, 2]) * (hi - lo), a.mean(axis=0)[None, :]])
        cases.append({"kind": "kde", "pts": a.tolist(), "ws": None if ws is None else ws.tolist(), "factor": rng.choice([1.0, 1.0, 0.5, 0.2, 2.0]), "trunc": rng.choice([3.0, 3.0, 1.5, 5.0]), "nmin": rng.choice([4, 4, 1, 2, 6]),
                      "at": at.tolist(), "flat": dim == 1 and rng.random() < 0.6, "say": rng.random() < 0.5})
    for _ in range(ck.pick(30, 600)):
        n = rng.choice([20, 30, 50])
        r = np.random.default_rng(rng.randrange(2**32))
        x = (r.normal(size=n) if rng.random() < 0.6 else r.exponential(size=n)) * rng.choice([1.0, 1e-3, 300.0])
        ws = None if rng.random() < 0.4 else (r.random(n) + 0.2).tolist()
        cases.append({"kind": "curve", "pts": x[:, None].tolist(), "ws": ws, "factor": rng.choice([1.0, 0.5, 0.7, 1.6]), "trunc": 3.0, "nmin": 4, "power": rng.choice([1.0, 1.0, 2.0, 0.5]), "say": rng.random() < 0.5})
    ck.run("JKde", cases, run, limit=200)


RUN = {"JKde": run}
