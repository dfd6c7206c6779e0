"""C26: walk plots show every step of every chain in order."""
import numpy as np
import pandas as pd

from core import caught, qs
from figproj import project

COLORS = ["#d62728", "#1f77b4", "#2ca02c", "#9467bd", "#ff7f0e"]


def rgb(h):
    return [int(h[k : k + 2], 16) for k in (1, 3, 5)]


def strides(v):
    v = [int(round(float(x))) for x in v]
    return {"count": len(v), "first": v[0], "strides": sorted({b - a for a, b in zip(v, v[1:])}) or [1]}


def long(case):
    import matplotlib.pyplot as plt
    from chainconsumer import Chain, ChainConsumer

    n = case["n"]
    df = pd.DataFrame({"a": np.arange(n, dtype=float), "weight": np.arange(n, dtype=float) + 1.0, "log_posterior": np.arange(n, dtype=float) - n + 1.0})
    c = ChainConsumer().add_chain(Chain(samples=df, name="c"))
    r = caught(lambda: project(c.plotter.plot_walks(plot_weights=case["row"] == "weights", plot_posterior=case["row"] == "post"), draw=False))
    plt.close("all")
    o = {"ok": r["ok"]}
    if r["ok"]:
        ax = r["v"]["axes"][0]
        s = ax["scatters"][0]["xy"]
        shift = {"weights": -1.0, "post": n - 1.0, "param": 0.0}[case["row"]]
        o["xs"] = strides(s[:, 0])
        o["ys"] = strides(s[:, 1] + shift)
    return [{"op": "long", "in": {"n": n, "ask": {"window": 0}, "chains": [], "cols": []}, "out": o}]


def run(case):
    import matplotlib.pyplot as plt
    from chainconsumer import Chain, ChainConsumer, PlotConfig

    if case["op"] == "long":
        return long(case)
    rng = np.random.default_rng(case["seed"])
    cons = ChainConsumer()
    told = []
    for i, c in enumerate(case["chains"]):
        n = c["n"]
        df = pd.DataFrame({p: (np.exp(rng.normal(size=n)) if p in case["logs"] else rng.normal(size=n) * c["scale"] + c["off"]) for p in c["params"]})
        w = np.ones(n)
        if c["w"]:
            w = rng.random(n) * c["w"] + 1e-3
            df["weight"] = w
        post = []
        if c["post"]:
            lp = -1000.0 * c["off"] - 5 * rng.random(n)
            df["log_posterior"] = lp
            post = qs(lp)
        if rng.random() < 0.5:  # weights and posterior first
            df = df[[x for x in df.columns if x not in c["params"]] + c["params"]]
        if c["index"]:
            df.index = rng.permutation(n) + 7
        role = c["role"]
        ch = Chain(samples=df, name=f"c{i}", color=COLORS[i], plot_contour=role == "contour", plot_cloud=role == "cloud", plot_point=role == "both", smooth=0) if role not in ("both", "none") else Chain(
            samples=df, name=f"c{i}", color=COLORS[i], plot_point=role == "both", plot_contour=role == "both", plot_cloud=False, smooth=0)
        cons.add_chain(ch)
        if i in (case["pick"] or range(len(case["chains"]))) and role != "none":
            told.append({"data": {p: qs(df[p]) for p in c["params"]}, "ws": qs(w), "post": post, "rgb": rgb(COLORS[i]), "n": n})
    cons.set_plot_config(PlotConfig(log_scales=case["logs"], labels=case["labels"], blind=case["blind"]))
    arg = {"plot_weights": case["weights"], "plot_posterior": case["post"], "log_weight": case["log"]}
    if case["window"]:
        arg["convolve"] = case["window"]
    if case["pick"]:
        arg["chains"] = [f"c{i}" for i in case["pick"]]
    if case["say"]:
        arg["columns"] = case["cols"]
    r = caught(lambda: project(cons.plotter.plot_walks(**arg), draw=False))
    plt.close("all")
    o = {"ok": r["ok"], "rows": []}
    if r["ok"]:
        for ax in sorted(r["v"]["axes"], key=lambda a: a["row"]):
            o["rows"].append({"label": ax["ylabel"], "x": qs(ax["xlim"]), "dots": [{"rgb": rgb(s["color"]), "xs": qs(s["xy"][:, 0]), "ys": qs(s["xy"][:, 1])} for s in ax["scatters"]],
                              "lines": [{"rgb": rgb(x["color"]), "xs": qs(x["x"]), "ys": qs(x["y"])} for x in ax["lines"] if x["kind"] == "data"]})
    else:
        o["err"] = str(r)
    return [{"op": "walk", "in": {"chains": told, "cols": case["cols"], "labels": {p: case["labels"].get(p, p) for p in case["cols"]}, "ask": {"post": case["post"], "weights": case["weights"], "log": case["log"], "window": case["window"]}}, "out": o}]


def main(ck):
    rng = ck.rng
    inv = "\n".join("INVARIANT " + x for x in ("RowCount", "PostFirst", "BestIsZero", "OwnLength", "MeanOfOne", "MeanOfLine", "CoreIsWhole", "LongEnough"))
    m = ck.model("MCWalk", f"INIT Init\nNEXT Next\nCONSTRAINT Emit\n{inv}\nCONSTANTS CHAINS = 2\n WINDOWS = {ck.pick('{0, 1, 2, 3, 6}', '{0, 1, 2, 3, 4, 5, 6, 9}')}\n LENGTHS = {ck.pick('{2, 7}', '{2, 5, 7}')}\n").out
    rng.shuffle(m)
    cases = []
    for d in m[: ck.pick(420, 6000)]:
        names = rng.sample(["p", "q", "a b", "$\\Omega_m$", "z_1"], 2)
        ren = dict(zip("pq", names))
        cs = []
        ch = d["chains"] + ([rng.choice(d["chains"])] if rng.random() < 0.25 else [])
        for c in ch:
            ps = [ren[x] for x in c["has"]]
            rng.shuffle(ps)
            cs.append({"params": ps, "post": c["post"], "n": c["n"] * rng.choice([1, 1, 1, 4, 13]), "scale": rng.choice([1.0, 1e-4, 300.0]), "off": rng.choice([0.0, 5.0, -1.0]), "w": rng.choice([0, 1.0, 1e-6, 40.0]), "role": rng.choice(["contour", "contour", "contour", "cloud", "both" if c["post"] else "contour", "none"]), "index": rng.random() < 0.3})
        live = [i for i, c in enumerate(cs) if c["role"] != "none"]
        if not live:
            continue
        pick = []
        if rng.random() < 0.3:
            pick = sorted(rng.sample(live, rng.randrange(1, len(live) + 1)), key=lambda _: rng.random())
        use = pick or live
        have = []
        for i in use:
            have += [p for p in cs[i]["params"] if p not in have]
        say = rng.random() < 0.6
        cols = rng.sample(have, rng.randrange(1, len(have) + 1)) if say else have
        cases.append({"op": "walk", "chains": cs, "pick": pick, "cols": cols, "say": say, "post": d["post"], "weights": d["weights"], "log": d["log"], "window": d["window"] if rng.random() < 0.8 or not d["window"] else rng.choice([5, 11, 40]),
                      "logs": [p for p in names if rng.random() < 0.15], "labels": {p: "$x_0$ [km]" for p in names[:1] if rng.random() < 0.3}, "blind": [rng.choice(cols)] if rng.random() < 0.1 else [], "seed": rng.randrange(10**6)})
    for n in ck.pick([99999, 100000, 100001, 199999, 200000, 250000], [99999, 100000, 100001, 150000, 199999, 200000, 200001, 250000, 300000, 450001]):
        for row in ("param", "weights", "post"):
            cases.append({"op": "long", "n": n, "row": row})
    ck.run("JWalk", cases, run, limit=200)


RUN = {"JWalk": run}
