"""C22: automatic extents show all drawn chains, explicit extents are obeyed."""
import numpy as np
import pandas as pd

from core import caught, num, q, qs
from figproj import project


def values(c, p, n, rng):
    k = c["shape"][p]
    z = rng.normal(size=n)
    if k == "skew":
        z = rng.exponential(size=n)
    elif k == "clip":
        z = np.maximum(z, -0.3)
    elif k == "discrete":
        z = rng.choice([0.0, 1.0, 2.0], p=[0.5, 0.3, 0.2], size=n)
    elif k == "uniform":
        z = rng.random(n)
    elif k == "tails":
        z = rng.standard_t(2, size=n)
    return c["at"][p][0] + c["at"][p][1] * (np.exp(0.4 * z) if p in c["log"] else z)


def run(case):
    import matplotlib.pyplot as plt
    from chainconsumer import Chain, ChainConsumer, PlotConfig

    rng = np.random.default_rng(case["seed"])
    cons = ChainConsumer()
    spec = []
    kind = case["kind"]
    for i, c in enumerate(case["chains"]):
        n = c["n"]
        ps = c["params"]
        if c["role"] == "grid":
            m = 6
            g = {p: c["at"][p][0] + c["at"][p][1] * (1 + np.arange(m)) for p in ps}
            mesh = np.meshgrid(*[g[p] for p in ps], indexing="ij")
            df = pd.DataFrame({p: x.ravel() for p, x in zip(ps, mesh)})
            w = 0.001 + rng.random(len(df)) ** 4
            df["weight"] = w
        else:
            df = pd.DataFrame({p: values(c, p, n, rng) for p in ps})
            w = {"none": np.ones(n), "random": rng.random(n) + 0.1, "tilt": np.exp(-3 * rng.random(n)), "dying": np.exp(-np.linspace(0, 12, n))}[c["weights"]]
            if c["weights"] != "none":
                df["weight"] = w
        role = c["role"]
        point = role in ("point", "both")
        if point:
            df["log_posterior"] = -rng.random(len(df))
            if c["weights"] != "none" and role == "both" and rng.random() < 0.6:  # a best sample of next to no weight, away from the others, at zero
                k = int(df["log_posterior"].argmax())
                w[k] = w.sum() * 1e-9
                df["weight"] = w
                for p in ps:
                    if p not in case["log"] and rng.random() < 0.7:
                        df.loc[k, p] = 0.0
        cloudy = role == "grid" and rng.random() < 0.35
        ch = Chain(samples=df, name=f"c{i}", smooth=0 if role != "grid" else 0, bins=8, sigmas=[0, 1], grid=role == "grid", plot_contour=role in ("contour", "grid", "both") and not cloudy and not c["skip"], plot_cloud=(role == "cloud" or cloudy) and not c["skip"], plot_point=point and not c["skip"],
                   shade=False, statistics="cumulative")
        cons.add_chain(ch)
        best = {} if not point else {p: q(float(df[p].iloc[int(df["log_posterior"].argmax())])) for p in ps}
        spec.append({"name": f"c{i}", "drawn": not c["skip"] and (not case["pick"] or i in case["pick"]), "body": role != "point", "grid": role == "grid", "ws": qs(w), "data": {p: qs(df[p]) for p in ps}, "points": best})
    cols = case["cols"]
    cfg = {"plot_hists": kind != "lower", "flip": kind == "flipped", "log_scales": case["log"], "blind": case["blind"], "show_legend": False}
    if case["explicit"]:
        cfg["extents"] = {p: (lo, hi) for p, lo, hi in case["explicit"]}
    cons.set_plot_config(PlotConfig(**cfg))
    arg = {}
    if case["say"]:
        arg["columns"] = cols
    if case["pick"]:
        arg["chains"] = [f"c{i}" for i in case["pick"]]
    pl = cons.plotter
    lay = {"kind": {"flipped": "triangle", "lower": "triangle", "errorbar": "summary"}.get(kind, kind), "cols": cols, "hists": kind != "lower", "flip": kind == "flipped", "wrap": case["wrap"], "lead": 0}
    if lay["kind"] == "triangle":
        f = lambda: pl.plot(**arg)  # noqa: E731
    elif kind == "distributions":
        f = lambda: pl.plot_distributions(col_wrap=case["wrap"], **arg)  # noqa: E731
    elif lay["kind"] == "summary":
        lay["lead"] = 1
        f = lambda: pl.plot_summary(errorbar=kind == "errorbar", **arg)  # noqa: E731
    else:
        f = lambda: pl.plot_walks(plot_weights=False, plot_posterior=False, **arg)  # noqa: E731
    r = caught(lambda: project(f(), draw=False))
    out = {"ok": r["ok"], "axes": []}
    if r["ok"]:
        out["axes"] = [{"r": a["row"] + 1, "c": a["col"] + 1, "x": qs(a["xlim"]), "y": qs(a["ylim"])} for a in r["v"]["axes"] if not a["colorbar"]]
    else:
        out["err"] = str(r)
    plt.close("all")
    for s in spec:
        s.pop("name")
    return [{"op": "axes", "in": {"lay": lay, "chains": spec, "explicit": [[p, q(lo), q(hi)] for p, lo, hi in case["explicit"]], "tail": "13/200" if kind == "errorbar" else "1e-4", "axes": kind != "lower"}, "out": out}]


def main(ck):
    rng = ck.rng
    inv = "\n".join("INVARIANT " + x for x in ("SomeFit", "Hull", "Others", "EachMatters"))
    m = ck.model("MCExtents", f"INIT Init\nNEXT Next\nCONSTRAINT Emit\n{inv}\nCONSTANT CHAINS = {ck.pick(2, 3)}\n").out
    rng.shuffle(m)
    cases = []
    for d in m[: ck.pick(200, 4000)]:
        kind = d["kind"]
        chains = list(d["chains"]) if not isinstance(d["chains"], dict) else [d["chains"][str(i + 1)] for i in range(len(d["chains"]))]
        if rng.random() < 0.3:
            chains += rng.sample(chains, 1)
        names = rng.sample(["p", "q", "a b", "$\\Omega_m$", "z_1"], 2)
        first, other = names
        log = [p for p in names if rng.random() < 0.15] if kind != "errorbar" else []
        cs = []
        for c in chains:
            role = c["role"]
            if kind == "walks" and role == "point":
                role = "both"
            ps = [other] + ([first] if c["has"] else [])
            if role == "grid" and len(ps) == 1 and kind in ("triangle", "flipped", "lower"):
                pass
            rng.shuffle(ps)
            at = {p: [rng.choice([0.0, 0.0, 5.0, -12.0]), rng.choice([1.0, 1.0, 0.2, 8.0])] for p in ps}
            for p in ps:
                if p in log:
                    at[p][0] = 0.0
            shapes = ["normal", "skew", "uniform", "clip", "tails", "discrete"] if kind not in ("errorbar",) else ["normal", "skew", "uniform"]
            cs.append({"role": role, "skip": c["skip"], "params": ps, "n": 1200 if kind == "errorbar" else rng.choice([60, 300, 900]) if rng.random() < 0.97 else 6000, "weights": rng.choice(["none", "random", "tilt", "dying"]), "shape": {p: rng.choice(shapes) for p in ps}, "at": at, "log": log})
        drawn = [i for i, c in enumerate(cs) if not c["skip"]]
        pick = []
        if rng.random() < 0.25:
            pick = sorted(rng.sample(range(len(cs)), rng.randrange(1, len(cs) + 1)), key=lambda _: rng.random())
            if not any(i in drawn and first in cs[i]["params"] for i in pick):
                pick = []
        live = [i for i in (pick or range(len(cs))) if i in drawn]
        say = rng.random() < 0.7
        if say:
            cols = rng.sample(names, 2) if kind in ("flipped", "lower") or rng.random() < 0.6 else [first]
        else:
            cols = []
            for i in live:
                cols += [p for p in cs[i]["params"] if p not in cols]
        if kind == "lower" and len(cols) < 2 or not live:
            continue
        # a parameter with nothing but one point has no extent
        if any(sum(p in cs[i]["params"] and cs[i]["role"] != "point" for i in live) == 0 for p in cols):
            continue
        explicit = []
        if d["given"]:
            for p in cols:
                if rng.random() < 0.7:
                    explicit.append([p, 0.25, rng.choice([4.0, 30.0])] if p in log else [p, rng.choice([-3.0, -0.5, 0.0, 1e-3]), rng.choice([0.75, 2.0, 50.0])])
        cases.append({"kind": kind, "chains": cs, "cols": cols, "say": say, "pick": pick, "log": log, "explicit": explicit, "blind": [rng.choice(cols)] if rng.random() < 0.1 else [], "wrap": rng.choice([1, 2, 4]), "seed": rng.randrange(10**6)})
    ck.run("JExtents", cases, run, limit=200)


RUN = {"JExtents": run}
