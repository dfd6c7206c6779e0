"""C12: blinded parameters never show their values."""
import numpy as np
import pandas as pd

from core import caught


def frame(case, c, moved):
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    df = {}
    for p in c["params"]:
        s = case["scale"][p]
        x = np.exp(rng.normal(size=n) * s["w"]) * s["s"] if s["log"] else (rng.normal(size=n) + s["m"]) * s["s"]
        if moved and p in case["hidden"]:
            x = x * s["a"] + (0.0 if s["log"] else s["b"] * s["s"])
        df[p] = x
    if c["tint"]:
        t = rng.random(n) * 7.3 + 40
        df["tint"] = t * 31.0 + 5.5 if moved and "tint" in case["hidden"] else t
    if c["weighted"]:
        df["weight"] = rng.random(n) + 0.1
    if c["post"]:
        df["log_posterior"] = -0.5 * rng.random(n) * 10
    return pd.DataFrame(df)


def consumer(case, moved, blinded):
    from chainconsumer import Chain, ChainConsumer, PlotConfig, Truth

    cons = ChainConsumer()
    for i, c in enumerate(case["chains"]):
        kw = dict(c["set"])
        if c["tint"]:
            kw.update(color_param="tint", plot_cloud=True)
        cons.add_chain(Chain(samples=frame(case, c, moved), name=f"run {i}", smooth=c["smooth"], bins=10 if c["smooth"] else 12, **kw))
    for t in case["truths"]:
        cons.add_truth(Truth(location={p: v for p, v in t.items()}))
    f = case["f"]
    blind = (True if f["blind"] == ["*"] else list(f["blind"]) + ["tint"] * ("tint" in case["hidden"])) if blinded else False
    cons.set_plot_config(PlotConfig(blind=blind, plot_hists=f["hists"], flip=f["flip"], log_scales=[p for p, s in case["scale"].items() if s["log"]],
                                    labels=case["labels"], **case["cfg"]))
    return cons


def observe(case, moved, blinded):
    import matplotlib.pyplot as plt
    from figproj import all_texts, project

    cons = consumer(case, moved, blinded)
    f = case["f"]
    kw = {"columns": list(f["params"])} if case["ask"] else {}

    def fig():
        pl = cons.plotter
        if f["kind"] == "plot":
            g = pl.plot(**kw)
        elif f["kind"] == "walks":
            g = pl.plot_walks(plot_weights=f["extra"] > 0, plot_posterior=f["extra"] > 1, convolve=case["convolve"], **kw)
        elif f["kind"] == "distributions":
            g = pl.plot_distributions(**kw)
        else:
            g = pl.plot_summary(errorbar=case["errorbar"], **kw)
        pr = [a for a in project(g)["axes"] if not a["colorbar"]]
        panels = [{"title": a["title"].strip(), "xt": [t for _, t in a["xticks"]], "yt": [t for _, t in a["yticks"]]} for a in pr]
        if f["kind"] == "distributions":
            panels = panels[: len(f["params"])]
        if f["kind"] == "summary":  # the column titles are labels
            panels = [{**p, "title": ""} for p in panels]
        texts = all_texts(g)
        texts = [list(t) for t in texts if "contour" not in t[0]] + [list(t) for t in sorted({t for t in texts if "contour" in t[0]})]
        plt.close(g)
        return {"panels": panels, "texts": texts}

    return caught(fig)


def table(case, moved, blinded):
    cons = consumer(case, moved, blinded)

    def go():
        t = cons.analysis.get_latex_table(transpose=True, hlines=False)
        rows = [r.split(" & ")[0].strip() for r in t.split("{tabular}{")[1].split("\n", 1)[1].split("\\\\ \n")[1:-1]]
        inv = {v: k for k, v in case["labels"].items()}
        return {"text": t + cons.analysis.get_latex_table(), "params": [inv.get(r, r) for r in rows]}

    return caught(go)


def run(case):
    f = case["f"]
    ev = [{"op": "figure", "in": {"f": f}, "out": {"blinded": observe(case, False, True), "moved": observe(case, True, True), "open": observe(case, False, False)}}]
    ev.append({"op": "table", "in": {"hidden": case["hidden"]}, "out": {"blinded": table(case, False, True), "moved": table(case, True, True),
                                                                        "open": table(case, False, False)}})
    return ev


def make(rng, f):
    ps = f["params"]
    tint = f["kind"] == "plot" and len(ps) > 1 and rng.random() < 0.3
    hidden = list(ps) if f["blind"] == ["*"] else [p for p in ps if p in f["blind"]]
    if tint and (f["blind"] == ["*"] or rng.random() < 0.6):
        hidden.append("tint")
    case = {"f": f, "hidden": hidden, "ask": tint or rng.random() < 0.5,
            "scale": {p: {"s": rng.choice([1.0, 1.0, 1e-5, 1e4, 3e-2, 1e7]), "m": rng.choice([0.0, 5.0, -3.0, 2000.0]), "log": rng.random() < 0.35, "w": rng.choice([0.5, 0.1]),
                          "a": rng.choice([1.7, 3e3, 2.3e-4, 31.0]), "b": rng.choice([0.0, 11.3, -4.2, 1e3])} for p in ps},
            "labels": {p: f"label {p}" for p in ps if rng.random() < 0.4}, "errorbar": rng.random() < 0.5, "convolve": rng.choice([None, 5]), "truths": [],
            "cfg": {"summarise": rng.random() < 0.8, "diagonal_tick_labels": rng.random() < 0.5, "max_ticks": rng.choice([3, 5, 5])}}
    chains = []
    for i in range(f["rows"]):
        post = f["extra"] > 1 or rng.random() < 0.3
        st = {}
        if rng.random() < 0.2:
            st["multimodal"] = True
        elif rng.random() < 0.3:
            st["statistics"] = rng.choice(["mean", "cumulative", "hdi"])
        if rng.random() < 0.25:
            st["plot_point"] = post
        if rng.random() < 0.2:
            st["plot_cloud"] = True
        if rng.random() < 0.2:
            st["show_contour_labels"] = True
        mine = list(ps) if i == 0 else (list(ps) if rng.random() < 0.6 else ps[: max(1, len(ps) - 1)])
        chains.append({"tint": tint and rng.random() < 0.7, "params": mine, "seed": rng.randrange(10**6), "n": 200, "weighted": rng.random() < 0.4, "post": post, "smooth": rng.choice([0, 1]), "set": st})
    case["chains"] = chains
    if rng.random() < 0.4:
        case["truths"] = [{p: case["scale"][p]["s"] * (1.0 if case["scale"][p]["log"] else case["scale"][p]["m"]) for p in ps if rng.random() < 0.7}]
    return case


def main(ck):
    rng = ck.rng
    inv = "\n".join("INVARIANT " + x for x in ("EveryParameterShown", "HiddenIsSilent", "BlindingMoreTellsLess", "OpenTells"))
    m = ck.model("MCBlinding", f"INIT Init\nNEXT Next\nCONSTRAINT Emit\n{inv}\n").out
    rng.shuffle(m)
    if not ck.thorough:  # every distribution figure, the annotated plots first, a share of the others
        of = lambda k: [f for f in m if f["kind"] == k]  # noqa: E731
        plots = of("plot")
        m = of("distributions") + of("summary")[:30] + of("walks")[:36] + [f for f in plots if f["rows"] == 1] + [f for f in plots if f["rows"] > 1][:16]
    for kind in ("distributions", "summary", "walks"):  # more parameters than any test uses
        for rows in (1, 2):
            m.append({"kind": kind, "params": list("abcdefghijkl"), "blind": ["*"] if rows == 1 else list("bdefghijkl"), "hists": True, "flip": False, "extra": 0, "rows": rows})
    cases = [make(rng, f) for f in m]
    if ck.tier == "thorough":
        cases += [make(rng, f) for f in m for _ in range(3)]
    ck.run("JBlinding", cases, run, limit=200)


RUN = {"JBlinding": run}
