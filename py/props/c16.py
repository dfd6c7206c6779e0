"""C16: dividing a chain splits it into its walkers without loss."""
import hashlib

import numpy as np
import pandas as pd

from core import caught, q, qs

COLOURS = ["#d62728", "#00aa55", (0.1, 0.4, 0.2)]
SETTINGS = {
    "linestyle": ["--", ":"], "linewidth": [2.5], "shade": [True, False], "shade_alpha": [0.25], "bar_shade": [True, False], "bins": [8], "smooth": [0, 1], "kde": [False],
    "sigmas": [[0, 1], [0, 0.5, 1.5]], "plot_cloud": [True], "num_cloud": [7, 30], "cmap": ["plasma"], "plot_contour": [True, False], "plot_point": [True], "marker_style": ["x"],
    "marker_size": [40.0], "zorder": [3], "statistics": ["mean", "cumulative", "hdi"], "summary_area": [0.9], "power": [2.0], "show_label_in_legend": [False], "num_free_params": [2],
    "num_eff_data_points": [50.0], "histogram_relative_height": [0.5], "show_contour_labels": [True], "shade_gradient": [0.0],
}
SKIP = {"samples", "name", "walkers", "color", "shift_params"}


def frame(case):
    rng = np.random.default_rng(case["seed"])
    n = case["d"]["n"]
    df = {"x": rng.normal(size=n), "y": rng.gamma(2.0, size=n) * 100}
    if case["weighted"]:
        df[case["wcol"]] = rng.random(n) + 0.1
    if case["posterior"]:
        df["log_posterior"] = -rng.random(n)
    if case["tint"]:
        df["tint"] = rng.random(n)
    df = pd.DataFrame(df)
    if case["shuffle"]:
        df = df[[df.columns[i] for i in rng.permutation(len(df.columns))]]
    if case["index"] == "reversed":
        df.index = np.arange(n)[::-1]
    elif case["index"] == "same":
        df.index = [3] * n
    elif case["index"] == "text":
        df.index = [f"r{i}" for i in range(n)]
    return df


def canon(v):
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    return float(v) if isinstance(v, int) and not isinstance(v, bool) else v


def show(ch):
    return [[k, repr(canon(v))] for k, v in sorted(ch.model_dump(exclude=SKIP).items())]


def rows(ch):
    return [qs(r) for r in ch.samples.to_numpy()]


def look(chains, case):
    """What a consumer shows of the chains, by name."""
    import matplotlib.pyplot as plt
    from chainconsumer import ChainConfig, ChainConsumer, PlotConfig
    from figproj import digest

    cons = ChainConsumer()
    for c in chains:
        cons.add_chain(c)
    cons.set_plot_config(PlotConfig(summarise=True))
    if case["override"]:
        cons.set_override(ChainConfig(**case["override"]))
    r = [repr(cons.analysis.get_summary(columns=["x", "y"])), repr(cons.comparison.dic()), repr(cons.comparison.aic())]
    fig = cons.plotter.plot(columns=["x", "y"])
    r.append(digest(fig))
    plt.close(fig)
    return hashlib.md5("".join(r).encode()).hexdigest()


def run(case):
    from chainconsumer import Chain
    from chainconsumer.statistics import SummaryStatistic

    d = case["d"]
    kw = dict(case["set"])
    if "statistics" in kw:
        kw["statistics"] = SummaryStatistic(kw["statistics"])
    if case["tint"]:
        kw["color_param"] = "tint"
    if case["weighted"]:
        kw["weight_column"] = case["wcol"]
    df = frame(case)
    top = dict(kw)
    if case["shift"]:
        top["shift_params"] = True
    if case["color"] is not None:
        top["color"] = COLOURS[case["color"]]
    ch = Chain(samples=df, name=case["name"], walkers=d["w"], grid=d["grid"], **top)
    before = (rows(ch), show(ch), list(ch.samples.columns), list(ch.samples.index))
    r = caught(ch.divide)
    o = {"ok": r["ok"], "parts": [], "parent": "same" if (rows(ch), show(ch), list(ch.samples.columns), list(ch.samples.index)) == before else "changed",
         "used": {"done": False, "ok": True, "parts": "", "plain": ""}}
    if r["ok"]:
        o["parts"] = [{"name": p.name, "columns": list(p.samples.columns), "rows": rows(p), "set": show(p), "color": "none" if p.color is None else str(p.color), "walkers": p.walkers} for p in r["v"]]
        if case["use"]:
            k = d["n"] // d["w"]
            plain = [Chain(samples=pd.DataFrame(ch.samples.iloc[i * k:(i + 1) * k]), name=f"{case['name']} Walker {i}", **kw) for i in range(d["w"])]
            extra = [Chain(samples=frame({**case, "seed": case["seed"] + 1}), name="other")] if case["extra"] and not case["weighted"] else []
            a = caught(lambda: look(extra + plain, case))
            b = caught(lambda: look(extra + r["v"], case))
            o["used"] = {"done": True, "ok": a["ok"] == b["ok"], "parts": b["v"] if b["ok"] else b["err"], "plain": a["v"] if a["ok"] else a["err"]}
    return [{"op": "divide", "in": {"rows": before[0], "columns": before[2], "walkers": d["w"], "grid": d["grid"], "name": case["name"], "set": before[1]}, "out": o}]


def main(ck):
    rng = ck.rng
    inv = "\n".join("INVARIANT " + x for x in ("Lossless", "Equal", "InOrder", "Again"))
    m = ck.model("MCDivide", f"INIT Init\nNEXT Next\nCONSTRAINT Emit\n{inv}\nCONSTANTS MAXN = {ck.pick(24, 60)}\n").out
    cases = []
    for rep in range(ck.pick(3, 20)):
        for d in m:
            d = dict(d)
            use = rep == 0 and d["n"] % 3 == 0 and d["w"] > 1 and not d["grid"]
            if use:
                d["n"] = 40 * d["w"]  # long enough walkers to summarise and draw
            st = {k: rng.choice(v) for k, v in SETTINGS.items() if rng.random() < 0.2}
            if not (st.get("plot_contour", True)) and "statistics" not in st:
                st.pop("plot_contour", None)
            if use and rng.random() < 0.8:
                st["smooth"], st["bins"] = 0, 8
            cases.append({"d": d, "set": st, "seed": rng.randrange(10**6), "weighted": rng.random() < 0.5, "wcol": rng.choice(["weight", "w8"]), "posterior": rng.random() < 0.5, "tint": rng.random() < 0.3,
                          "shuffle": rng.random() < 0.5, "index": rng.choice(["plain", "reversed", "same", "text"]), "shift": rng.random() < 0.3, "color": rng.choice([None, 0, 1, 2]),
                          "name": rng.choice(["A", "my chain", "11", "50% run", "Walker", " padded ", "A Walker 0", "a\tb"]), "use": use, "extra": rng.random() < 0.5,
                          "override": rng.choice([None, None, None, {"linewidth": 3.0}, {"shade": True}, {"statistics": "mean"}]) if use else None})
    for c in cases:
        if c["override"] and "statistics" in c["override"]:
            c["override"] = {"summary_area": 0.5}
    ck.run("JDivide", cases, run)


RUN = {"JDivide": run}
