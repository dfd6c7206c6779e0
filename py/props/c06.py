"""C06: weights, posteriors and colour parameters are never parameters."""
import zlib

import numpy as np
import pandas as pd

from core import caught

COLORS = ["#d62728", "#1f77b4", "#2ca02c", "#9467bd", "#ff7f0e"]


def build(i, d, n=60):
    from chainconsumer import Chain

    rng = np.random.default_rng(zlib.crc32(repr(d).encode()) + i)
    df = {}
    for k, c in enumerate(d["cols"]):
        if c == d["wcol"]:
            df[c] = 0.5 + rng.random(n)
        else:
            df[c] = 1.0 + k + rng.normal(size=n)
    kw = {"weight_column": d["wcol"], "posterior_column": d["pcol"]}
    if d["color"] != "none":
        kw["color_param"] = d["color"]
    return Chain(samples=pd.DataFrame(df), name=f"chain{i}", color=COLORS[i], smooth=0, bins=8, bar_shade=False,
                 shade=False, plot_cloud=d["cloud"], plot_contour=d["drawn"], sigmas=[0, 1], num_cloud=10, **kw)


def run(case):
    import matplotlib.pyplot as plt
    from chainconsumer import ChainConsumer, PlotConfig
    from figproj import hexa

    cs = case["chains"]
    cols = case["columns"] or None
    chains = [build(i, d) for i, d in enumerate(cs)]
    cons = ChainConsumer()
    for ch in chains:
        cons.add_chain(ch)
    cons.set_plot_config(PlotConfig(summarise=False))
    seen = lambda colors: [i + 1 for i in range(len(cs)) if COLORS[i] in set(colors)]  # noqa: E731
    o = {"params": [list(c.data_columns) for c in chains], "plotted": [list(c.plotting_columns) for c in chains]}
    an = cons.analysis
    o["summary"] = caught(lambda: [list(v) for v in an.get_summary(columns=cols).values()])

    def mp():
        r = an.get_max_posteriors()
        return [list(r[c.name].coordinate) if c.name in r else [] for c in chains]

    o["maxpost"] = caught(mp)
    o["hasmax"] = [c.get_max_posterior_point() is not None for c in chains]
    o["cov"] = []
    for c, d in zip(chains, cs):
        r = caught(lambda c=c: list(c.get_covariance().columns))
        o["cov"].append({"asked": bool(c.data_columns), "ok": r["ok"], "cols": r["v"] if r["ok"] else []})
    drawable = any(d["drawn"] for d in cs) and (cols or any(c.plotting_columns for c, d in zip(chains, cs) if d["drawn"]))
    nothing = {"done": False, "ok": True, "panels": [], "rows": [], "header": [], "blank": []}
    for k in ("table", "tri", "walk", "dist", "summ"):
        o[k] = dict(nothing)
    if drawable:
        r = caught(lambda: an.get_latex_table(columns=cols, hlines=False))
        o["table"] = {**nothing, "done": True, "ok": r["ok"]}
        if r["ok"]:
            body = r["v"].split("\\begin{tabular}")[1].split("\n")[1:]
            rows = [b.split(" \\\\")[0].lstrip().split(" & ") for b in body if "\\\\" in b]
            o["table"]["header"] = rows[0]
            o["table"]["blank"] = [[x == "--" for x in row[1:]] for row in rows[1:]]
    if drawable and case["plots"]:
        r = caught(lambda: cons.plotter.plot(columns=cols))
        o["tri"] = {**nothing, "done": True, "ok": r["ok"]}
        if r["ok"]:
            axes = [ax for ax in r["v"].axes if not hasattr(ax, "_colorbar")]
            n = int(round(len(axes) ** 0.5))
            # not the diagonal's own label: every column's label stands on the bottom row
            pan = []
            for j in range(n):
                bottom, diag = axes[(n - 1) * n + j], axes[j * n + j]
                cols_ = [hexa(p.get_edgecolor()) for p in diag.patches] + [hexa(ln.get_color()) for ln in diag.lines]
                pan.append({"label": lab(bottom.get_xlabel()), "chains": seen(cols_)})
            if n == 2:  # flip: the second parameter's marginal lies on its side, without a label of its own
                pan[1]["label"] = lab(axes[2].get_ylabel())
            o["tri"]["panels"] = pan
            o["tri"]["rows"] = [{"name": lab(axes[i * n].get_ylabel())} for i in range(1, n)]
            plt.close(r["v"])
        r = caught(lambda: cons.plotter.plot_walks(columns=cols, plot_weights=False, plot_posterior=False))
        o["walk"] = {**nothing, "done": True, "ok": r["ok"]}
        if r["ok"]:
            o["walk"]["panels"] = [{"label": lab(ax.get_ylabel()), "chains": seen([hexa(c.get_facecolor()[0]) for c in ax.collections])}
                                   for ax in r["v"].axes]
            plt.close(r["v"])
        r = caught(lambda: cons.plotter.plot_distributions(columns=cols, col_wrap=3))
        o["dist"] = {**nothing, "done": True, "ok": r["ok"]}
        if r["ok"]:
            o["dist"]["panels"] = [{"label": lab(ax.get_xlabel()), "chains": seen([hexa(p.get_edgecolor()) for p in ax.patches])}
                                   for ax in r["v"].axes if ax.axison]
            plt.close(r["v"])
        r = caught(lambda: cons.plotter.plot_summary(columns=cols))
        o["summ"] = {**nothing, "done": True, "ok": r["ok"]}
        if r["ok"]:
            rows = {}
            for ax in r["v"].axes:
                ss = ax.get_subplotspec()
                rows.setdefault(ss.colspan.start, {})[ss.rowspan.start] = ax
            pan = []
            for j in sorted(rows):
                if j == 0:
                    continue
                got = []
                for ax in rows[j].values():
                    got += [hexa(p.get_edgecolor()) for p in ax.patches]
                pan.append({"label": lab(rows[j][0].get_title()), "chains": seen(got)})
            o["summ"]["panels"] = pan
            plt.close(r["v"])
    return [{"op": "roles", "in": {"chains": cs, "columns": case["columns"]}, "out": o}]


NAMES = ["x", "y", "zeta", "w", "c", "Weight", "WEIGHTS", "log_weights", "LOG_WEIGHTS", "Posterior", "posteriors", "log_posterior",
         "Log_Posteriors", "weight", "log_weight", "weight2", "lnpost", "omega m", "$\\alpha$", "posterior_x", " weight", " Posterior", "log weights", "weights.", "logweights", "_weight", "W", "X", "LnPost", "Y", "p1", "p2", "p10"]


def lab(text):
    """A label as drawn; the triangle plot appends a space (and the offset)."""
    return text[:-1] if text.endswith(" ") else text


def wide(rng):
    cs = []
    pool = rng.sample(NAMES, rng.randint(3, 8))
    many = rng.random() < 0.15  # more than ten parameters over all
    if many:
        pool = rng.sample(NAMES, 15)
    elif rng.random() < 0.25:  # names which differ in case only
        pool = rng.sample(["w", "W", "x", "X", "y", "Y", "lnpost", "LnPost"], 5)
    for _ in range(rng.randint(2, 4) if many else rng.randint(1, 4)):
        cols = rng.sample(pool, rng.randint(5, 12) if many else rng.randint(1, min(6, len(pool))))
        d = {"cols": cols, "wcol": rng.choice(["weight", *cols]) if rng.random() < 0.4 else "weight",
             "pcol": rng.choice(["log_posterior", *cols]), "color": rng.choice(["none", *cols]), "drawn": rng.random() < 0.85}
        if d["wcol"] == d["pcol"] and rng.random() < 0.7:
            d["pcol"] = "log_posterior"
        d["cloud"] = d["drawn"] and d["color"] != "none" and rng.random() < 0.6
        cs.append(d)
    return cs


def asked(rng, cs):
    """Sometimes ask for particular parameters of the drawn chains, in another order."""
    low = {"weight", "weights", "posterior", "posteriors", "log_weights", "log_posterior", "log_posteriors"}
    have = []
    for d in cs:
        for n in d["cols"]:
            if d["drawn"] and n not in (d["wcol"], d["pcol"]) and n.lower() not in low and not (d["cloud"] and n == d["color"]) and n not in have:
                have.append(n)
    if not have or rng.random() < 0.6:
        return []
    return rng.sample(have, rng.randint(1, len(have)))


def main(ck):
    rng = ck.rng
    inv = "\n".join("INVARIANT " + x for x in ("NoRoleIsAParameter", "EveryColumnHasOneRole", "NoRepeats", "Complete", "FirstChainFirst"))
    one = ck.model("MCRoles", f"INIT Init\nNEXT Next\nACTION_CONSTRAINT Emit\n{inv}\nCONSTANTS MODE = \"one\"\n").out
    two = ck.model("MCRoles", f"INIT Init\nNEXT Next\nACTION_CONSTRAINT Emit\n{inv}\nCONSTANTS MODE = \"two\"\n").out
    rng.shuffle(one)
    rng.shuffle(two)
    cases = [{"chains": cs} for cs in one[: ck.pick(700, 10**6)] + two[: ck.pick(700, 6000)]]
    cases += [{"chains": wide(rng)} for _ in range(ck.pick(500, 5000))]
    for c in cases:
        c["columns"] = asked(rng, c["chains"])
        c["plots"] = False
    some = rng.sample(range(len(cases)), ck.pick(240, 4000) if len(cases) > 4000 else min(240, len(cases)))
    for i in some:
        cases[i]["plots"] = sum(len(d["cols"]) for d in cases[i]["chains"]) <= 14
    ck.run("JRoles", cases, run)


RUN = {"JRoles": run}
