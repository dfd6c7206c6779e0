"""C11: LaTeX tables say exactly what the summaries and matrices say."""
import re
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd

from core import caught, nums, q
from props.c10 import parse

STATS = ["max", "mean", "cumulative", "max_central", "hdi"]


def bound_of(b):
    return {k: "none" if v is None else q(v) for k, v in zip("lcu", (b.lower, b.center, b.upper))}


def frame(text):
    m = re.search(r"\\begin\{table\}\n    \\centering\n    \\caption\{(.*)\}\n    \\label\{(.*)\}\n    \\begin\{tabular\}\{([^}]*)\}\n(.*)\\end\{tabular\}\n\\end\{table\}$", text, re.S)
    if not m:
        return None
    body = m.group(4)
    lines = [r for r in body.replace("\\hline", "").split("\\\\")]
    rows = [[c.strip() for c in re.split(r"(?<!\\)&", r)] for r in lines[:-1]]
    if lines[-1].strip():
        rows.append([lines[-1].strip()])
    return {"caption": m.group(1), "label": m.group(2), "colspec": m.group(3).count("c"), "hlines": body.count("\\hline"), "rows": rows}


def build(c):
    from chainconsumer import Chain
    from chainconsumer.statistics import SummaryStatistic

    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    df = {}
    for p in c["params"]:
        x = rng.normal(size=n) if not c["multimodal"] else np.where(np.arange(n) < n // 2, rng.normal(-6, 1, n), rng.normal(5, 1, n))
        df[p] = x * c["scale"][p] + c["mean"][p] * c["scale"][p]
    if c["weighted"]:
        df["weight"] = rng.random(n) + 0.1
    kw = {"multimodal": True} if c["multimodal"] else {"statistics": SummaryStatistic(c["stat"])}
    return Chain(samples=pd.DataFrame(df), name=c["name"], smooth=c["smooth"], summary_area=c["area"], plot_contour=c["drawn"], **kw)


def run(case):
    from chainconsumer import ChainConsumer, PlotConfig

    d = case["d"]
    cons = ChainConsumer()
    chains = {c["name"]: build(c) for c in case["chains"]}
    for ch in chains.values():
        cons.add_chain(ch)
    labels = dict(d["labels"])
    blind = True if d["blind"] == ["*"] else (list(d["blind"]) or False)
    cons.set_plot_config(PlotConfig(labels=labels, blind=blind))
    summ = cons.analysis.get_summary()
    bounds = [{"chain": n, "param": p, "b": [bound_of(z) for z in (b if isinstance(b, list) else [b])]} for n, r in summ.items() for p, b in r.items()]
    kw = {}
    pick = [n if case["byname"] else chains[n] for n in d["pick"]]
    if d["pick"]:
        kw["chains"] = pick
    if d["columns"]:
        kw["columns"] = list(d["columns"])
    if d["transpose"] or case["say"]:
        kw["transpose"] = d["transpose"]
    if not case["hlines"] or case["say"]:
        kw["hlines"] = case["hlines"]
    if case["blank"] != "--":
        kw["blank_fill"] = case["blank"]
    cap, lab = "Results", ""
    if case["caption"] is not None:
        kw["caption"] = cap = case["caption"]
    if case["label"] is not None:
        kw["label"] = lab = case["label"]
    ev = []
    with tempfile.TemporaryDirectory() as t:
        f = Path(t) / "table.tex"
        if case["file"]:
            kw["filename"] = str(f) if case["file"] == "str" else f
            if case["stale"]:  # a file of that name is replaced as a whole
                f.write_text("left over from before\n" * 400)
        r = caught(lambda: cons.analysis.get_latex_table(**kw))
        p = frame(r["v"]) if r["ok"] else None
        names = {x.name for x in Path(t).iterdir()}
        got = "none" if not names else "same" if names == {"table.tex"} and r["ok"] and f.read_text() == r["v"] else "differs"
    o = {"ok": p is not None, "header": [], "rows": [], "colspec": 0, "caption": "", "label": "", "hlines": 0, "file": got}
    if p:
        o.update({k: p[k] for k in ("colspec", "caption", "label", "hlines")}, header=p["rows"][0],
                 rows=[[{"raw": c, "p": parse(c, c.startswith("I1: "))} for c in row] for row in p["rows"][1:]])
    if case["caption"] is None:
        cap = o["caption"]  # no caption was asked for; the default one is not specified
        if case["label"] is None:
            lab = o["label"]
    elif case["label"] is None:
        lab = o["label"]
    ev.append({"op": "summary", "in": {"d": d, "bounds": bounds, "blank": case["blank"], "caption": cap, "label": lab, "hlines": case["hlines"],
                                       "filed": bool(case["file"])}, "out": o})
    for mt in case["matrices"]:
        ch = chains[mt["chain"]]
        cols = mt["columns"] or None
        kind = mt["kind"]
        m = (ch.get_covariance if kind == "covariance" else ch.get_correlation)(cols)
        fn = getattr(cons.analysis, f"get_{kind}_table")
        kw = {}
        if mt["caption"] is not None:
            kw["caption"] = mt["caption"]
        if mt["label"] is not None:
            kw["label"] = mt["label"]
        r = caught(lambda fn=fn, ch=ch, cols=cols, kw=kw, mt=mt: fn(mt["chain"] if mt["byname"] else ch, columns=cols, **kw))
        p = frame(r["v"]) if r["ok"] else None
        o = {"ok": p is not None, "header": [], "rows": [], "colspec": 0, "caption": "", "label": ""}
        if p:
            o.update({k: p[k] for k in ("colspec", "caption", "label")}, header=p["rows"][0], rows=[
                {"name": row[0], "cells": [{"v": z, "dec": len(z.split(".")[1]) if "." in z else 0} if re.match(r"^-?\d+(\.\d+)?$", z) else {"v": "odd", "dec": 0}
                                           for z in row[1:]]} for row in p["rows"][1:]])
        want = list(cols or m.columns)
        ev.append({"op": "matrix", "in": {"params": [labels.get(z, z) for z in want], "matrix": [nums(z) for z in m.matrix],
                                          "caption": mt["caption"] if mt["caption"] is not None else o["caption"],
                                          "label": mt["label"] if mt["label"] is not None else o["label"]}, "out": o})
    return ev


def main(ck):
    rng = ck.rng
    inv = "\n".join("INVARIANT " + x for x in ("Rectangular", "Dual", "NoBlinded", "BlankExactlyWithout", "Everyone"))
    m = ck.model("MCTables", f"INIT Init\nNEXT Next\nCONSTRAINT Emit\n{inv}\nCONSTANTS NCHAINS = {ck.pick(2, 3)}\n").out
    rng.shuffle(m)
    texts = [None, "", "Results", "50% better & more_", "100%s", "a\\textbf{b}", "x {%d} y"]
    cases = []
    for d in m[: ck.pick(900, 12000)]:
        ren = {"x": rng.choice(["x", "$\\Omega_m$", "x y", "β"]), "y": rng.choice(["y", "z2"]), "z": rng.choice(["z", "H_0"])}
        d = {**d, "columns": [ren[p] for p in d["columns"]], "blind": d["blind"] if d["blind"] == ["*"] else [ren[p] for p in d["blind"]],
             "chains": [{**c, "params": [ren[p] for p in c["params"]]} for c in d["chains"]]}
        d["labels"] = [[ren[p], rng.choice(["$L$", "the label of " + p, "50\\%"])] for p in "xyz" if rng.random() < 0.4]
        if rng.random() < 0.04:  # more columns than a single digit counts
            more = [f"p{k}" for k in range(4, 13)]
            d["chains"] = [{**c, "params": c["params"] + (more if k == 0 else more[k:])} for k, c in enumerate(d["chains"])]
            d["columns"] = d["columns"] and d["columns"] + more
            ren.update({p: p for p in more})
        sc = {p: 10.0 ** rng.choice([-5, -2, -1, 0, 0, 1, 2, 4]) for p in ren.values()}
        mu = {p: rng.choice([0.0, 1.0, -7.0, 30.0]) for p in ren.values()}
        cs = [{"name": c["name"], "params": c["params"], "drawn": c["drawn"], "seed": rng.randrange(10**6), "n": rng.choice([100, 300]), "scale": sc, "mean": mu,
               "multimodal": rng.random() < 0.12, "weighted": rng.random() < 0.4, "stat": rng.choice(STATS), "smooth": rng.choice([0, None, 2]),
               "area": rng.choice([0.6827, 0.9, 0.5])} for c in d["chains"]]
        mats = []
        if rng.random() < 0.6:
            c = rng.choice(cs)
            mats = [{"chain": c["name"], "columns": rng.choice([[], rng.sample(c["params"], rng.randint(1, len(c["params"])))]), "byname": rng.random() < 0.5,
                     "kind": rng.choice(["covariance", "correlation"]), "caption": rng.choice(texts), "label": rng.choice(texts)}]
        cases.append({"d": d, "chains": cs, "byname": rng.random() < 0.5, "say": rng.random() < 0.5, "hlines": rng.random() < 0.6,
                      "blank": rng.choice(["--", "--", "", "-", "n/a"]), "caption": rng.choice(texts), "label": rng.choice(texts),
                      "stale": rng.random() < 0.4, "file": rng.choice([None, None, "str", "path"]), "matrices": mats})
    ck.run("JTables", cases, run)


RUN = {"JTables": run}
