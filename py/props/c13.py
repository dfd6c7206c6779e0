"""C13: AIC, BIC and DIC follow their formulas, and the table follows them."""
import re

import numpy as np
import pandas as pd

from core import caught, num, q, qs
from props.c11 import frame


def samples(c):
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    # dyadic numbers: exactly representable, and short as fractions
    df = {p: np.round((rng.normal(size=n) + c["mean"][i]) * 256) / 256 * c["scale"][i] for i, p in enumerate(c["params"])}
    if c["has"]:
        lp = -0.5 * rng.chisquare(max(1, len(c["params"])), size=n) * c["lscale"] + c["lmean"]
        df[c["pname"]] = np.round(lp * 1024) / 1024
    if c["weighted"]:
        df["weight"] = np.ceil(rng.random(n) * 48) / 16
    df = pd.DataFrame(df)
    if c["order"]:
        df = df[sorted(df.columns)]
    if c["index"]:
        df.index = rng.permutation(n) + 5
    return df


def run(case):
    from chainconsumer import Chain, ChainConsumer

    cons = ChainConsumer()
    specs = []
    for c in case["chains"]:
        df = samples(c)
        kw = {}
        if c["free"] != "none":
            kw["num_free_params"] = int(c["free"])
        if c["data"] != "none":
            kw["num_eff_data_points"] = float(c["data"])
        if c["has"]:
            kw["posterior_column"] = c["pname"]
        ch = Chain(samples=df, name=c["name"], plot_contour=c["drawn"], **kw)
        cons.add_chain(ch)
        params = [x for x in df.columns if x in c["params"]]
        specs.append({"name": c["name"], "lps": qs(df[c["pname"]]) if c["has"] else [], "ws": qs(df["weight"]) if c["weighted"] else ["1"] * c["n"],
                      "free": c["free"], "data": c["data"], "rows": [qs(r) for r in df[params].to_numpy()]})
    ev, vals = [], []
    for crit in case["crits"]:
        r = caught(getattr(cons.comparison, crit))
        names = list(r["v"]) if r["ok"] else []
        vs = [num(r["v"][n]) for n in names]
        vals += [{"crit": crit, "name": n, "v": v.get("v", "none")} for n, v in zip(names, vs)]
        ev.append({"op": "crit", "in": {"cs": specs, "crit": crit}, "out": {"ok": r["ok"], "names": names, "vals": vs}})
    slim = [{**s, "lps": s["lps"][:1], "ws": [], "rows": []} for s in specs]
    for t in case["tables"]:
        kw = {k: k in t["cols"] for k in ("aic", "bic", "dic") if k not in t["cols"] or t["say"]}
        for k in ("caption", "label"):
            if t[k] is not None:
                kw[k] = t[k]
        kw.update({k: t[k] for k in ("sort", "descending", "hlines") if t[k] is not None})
        r = caught(lambda kw=kw: cons.comparison.comparison_table(**kw))
        p = frame(r["v"]) if r["ok"] else None
        o = {"ok": r["ok"] and p is not None, "header": [], "rows": [], "colspec": 0, "caption": "", "label": "", "hlines": 0}
        if p:
            o.update({k: p[k] for k in ("colspec", "caption", "label", "hlines")}, header=p["rows"][0], rows=[
                {"name": row[0], "cells": [{"t": z if re.match(r"^-?\d+(\.\d+)?$", z) else "odd " + z, "dec": len(z.split(".")[1]) if "." in z else 0} for z in row[1:]]}
                for row in p["rows"][1:]])
        cols = [k for k in ("aic", "bic", "dic") if k in t["cols"]]
        sort = t["sort"] if t["sort"] is not None else "bic"
        ev.append({"op": "table", "in": {"cs": slim, "vals": vals, "crits": cols, "sort": sort, "down": t["descending"] is not False, "legal": sort in cols,
                                         "caption": t["caption"] or "", "label": o["label"] if t["label"] is None else t["label"],
                                         "hlines": t["hlines"] is not False}, "out": o})
    return ev


def main(ck):
    rng = ck.rng
    inv = "\n".join("INVARIANT " + x for x in ("Penalty", "Single", "Subset", "OneBest"))
    m = ck.model("MCCriteria", f"INIT Init\nNEXT Next\nCONSTRAINT Emit\n{inv}\nCONSTANTS NCHAINS = {ck.pick(2, 3)}\n").out
    rng.shuffle(m)
    texts = [None, "", "Results", "50% better & more_", "100%s", "x {%d} y"]
    cases = []
    for d in m[: ck.pick(500, 9000)]:
        cs = d["cs"]
        while len(cs) < 7 and rng.random() < 0.35:
            cs = cs + [rng.choice(cs)]
        names = rng.sample(["A", "B", "Model 2", "z", "_x", "LCDM", "wCDM", "H_0 prior", "11"], len(cs))
        top = rng.choice([0.0, -5.0, 1000.0, -250.5])
        chains = []
        for c, n in zip(cs, names):
            k = rng.choice([1, 2, 3])
            free = c["free"] if c["free"] in ("none", "0") else str(rng.choice([1, 2, 3, 7, 12]))
            data = c["data"] if c["data"] == "none" else str(rng.choice([2, 3, 5, 17, 40, 1000, "41/2"]))
            if free != "none" and data == str(int(free) + 1):
                data = "50"
            if data == "41/2":
                data = "20.5"
            chains.append({"name": n, "has": c["has"], "free": free, "data": data, "params": rng.sample(["x", "y", "z", "m", "q"], k), "n": rng.choice([1, 2, 3, 10, 60, 200]),
                           "scale": [2.0 ** rng.choice([-9, 0, 0, 7]) for _ in range(k)], "mean": [rng.choice([0.0, 3.0, -100.0]) for _ in range(k)],
                           "lscale": rng.choice([0.01, 1.0, 30.0]), "lmean": top + rng.choice([0.0, 0.3, -2.0, 40.0]), "weighted": rng.random() < 0.6, "order": rng.random() < 0.3,
                           "index": rng.random() < 0.3, "pname": rng.choice(["log_posterior", "lp"]), "drawn": rng.random() < 0.8, "seed": rng.randrange(10**6)})
        tabs = [{"cols": rng.choice([["aic", "bic", "dic"]] * 2 + [["bic"], ["dic", "bic"], ["aic"], ["aic", "dic"], ["dic"]]), "say": rng.random() < 0.5,
                 "sort": rng.choice([None, "bic", "aic", "dic"]), "descending": rng.choice([None, True, False]), "hlines": rng.choice([None, True, False]),
                 "caption": rng.choice(texts), "label": rng.choice(texts)} for _ in range(2)]
        cases.append({"chains": chains, "crits": rng.sample(["aic", "bic", "dic"], 3), "tables": tabs})
    ck.run("JCriteria", cases, run)


RUN = {"JCriteria": run}
