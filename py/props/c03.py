"""C03: automatic colours follow the palette and are the same everywhere."""
import itertools

import numpy as np
import pandas as pd

from core import caught

GAP = 100.0


def frame(k, n=14):
    r = np.random.default_rng(k)
    x = np.clip(r.normal(0, 1, n), -3, 3) + GAP * k
    y = np.clip(r.normal(0, 1, n), -3, 3) + GAP * k
    return pd.DataFrame({"x": x, "y": y})


KW = dict(bins=4, smooth=0, shade=False, bar_shade=False, statistics="cumulative")


def which(v):
    return int(round(float(np.median(v)) / GAP))


def items(kinds, kind, pairs):
    kinds.append({"kind": kind, "items": [{"name": n, "color": c} for n, c in pairs]})


def look_at(c, names, ids, what):
    """(chain, colour) pairs visible in each kind of figure."""
    import matplotlib.pyplot as plt
    from figproj import hexa, project

    kinds, cont = [], []
    name = {v: k for k, v in ids.items()}

    if "plot" in what:
        f = c.plotter.plot(chains=list(names), columns=["x", "y"])
        pr = project(f, draw=False)
        d, p = pr["axes"][0], pr["axes"][2]
        items(kinds, "curve", [(name[which(s["xy"][:, 0])], s["color"]) for s in d["steps"]]
              + [(name[which(s["x"])], s["color"]) for s in d["lines"]])
        items(kinds, "point", [(name[which(s["xy"][:, 0])], s["color"]) for s in p["scatters"] if len(s["xy"]) == 1])
        for q in p["contours"]:
            v = np.vstack([pp.vertices for pp in q["obj"].get_paths() if len(pp.vertices)] or [np.zeros((1, 2))])
            cont.append([name[which(v[:, 0])], q["filled"], q["colors"]])
        if len(names) > 1:
            lg = next(a["legend"] for a in pr["axes"] if "legend" in a)
            items(kinds, "legend", [(t.strip(), h["color"]) for t, h in zip(lg["labels"], lg["handles"])])
        plt.close(f)
    if "walk" in what:
        f = c.plotter.plot_walks(chains=list(names), columns=["x"], plot_weights=False, plot_posterior=False)
        pr = project(f, draw=False)
        items(kinds, "walk", [(name[which(s["xy"][:, 1])], s["color"]) for s in pr["axes"][0]["scatters"]])
        plt.close(f)
    contour = [n for n in names if n[0] != "m"]
    if "dist" in what and contour:
        f = c.plotter.plot_distributions(chains=list(names), columns=["x"])
        d = project(f, draw=False)["axes"][0]
        items(kinds, "distribution", [(name[which(s["xy"][:, 0])], s["color"]) for s in d["steps"]]
              + [(name[which(s["x"])], s["color"]) for s in d["lines"]])
        plt.close(f)
        for eb in (False, True):
            f = c.plotter.plot_summary(chains=list(names), columns=["x"], errorbar=eb)
            pr = project(f, draw=False)
            tx, cv = [], []
            for a in pr["axes"]:
                tx += [(t["s"].strip(), t["color"]) for t in a["texts"] if t["s"].strip() in ids]
                cv += [(name[which(s["xy"][:, 0])], s["color"]) for s in a["steps"]]
                cv += [(name[which(s["x"])], s["color"]) for s in a["lines"] if s["kind"] == "data"]
            items(kinds, "summary-name", tx)
            if not eb:
                items(kinds, "summary-curve", cv)
            else:
                items(kinds, "summary-bar", [(a, b) for a, b in cv])
            plt.close(f)
    return kinds, cont


def run(case):
    from chainconsumer import Chain, ChainConfig, ChainConsumer
    from chainconsumer.color_finder import colors
    import copy

    g = colors.next_colour()
    pal = list(itertools.islice(g, 88))
    if case.get("palette"):
        seq = list(itertools.islice(colors.next_colour(), 264))
        return [{"op": "palette", "in": {}, "out": {"seq": seq, "again": list(itertools.islice(colors.next_colour(), 5))}}]
    c = ChainConsumer()
    ids, ev = {}, []
    for o in case["h"]:
        n, st = o["name"], dict(o["set"])
        if o["op"] == "add":
            ids[n] = o["id"]
            if o["kind"] == "marker":
                r = caught(lambda: c.add_marker({"x": GAP * o["id"], "y": GAP * o["id"]}, n, **st))
            else:
                # a hidden chain is loaded, but never drawn
                ch = Chain(samples=frame(o["id"]), name=n, **KW, **st, plot_contour=o["kind"] != "hidden")
                r = caught(lambda: c.add_chain(ch))
            ps = [[k, "none" if v is None else v] for k, v in st.items()] + [["kind", o["kind"]]]
        elif o["op"] == "remove":
            r, ps = caught(lambda: c.remove_chain(n)), []
            ids.pop(n)
        elif o["op"] == "override":
            r, ps = caught(lambda: c.set_override(ChainConfig(**st))), [[k, v] for k, v in st.items()]
        else:
            kinds, cont = look_at(c, o["look"], ids, o["what"])
            # the same chains, with their expected colour given explicitly
            ref = []
            if "plot" in o["what"]:
                want = {i["name"]: i["color"] for k in kinds if k["kind"] == "curve" for i in k["items"]}
                d = ChainConsumer()
                names = [x for x in o["look"] if x in want]
                for x in names:
                    d.add_chain(Chain(samples=frame(ids[x]), name=x, **KW, color=want[x]))
                if names:
                    ref = look_at(d, names, ids, ["plot"])[1]
            ev.append({"op": "see", "in": {"op": "see", "look": o["look"], "palette": pal, "name": "-", "set": []},
                       "out": {"kinds": kinds, "contours": sorted(cont), "contoursRef": sorted(ref)}})
            continue
        ev.append({"op": o["op"], "in": {"op": o["op"], "name": n, "set": ps}, "out": {"ok": r["ok"]}})
    return ev


def main(ck):
    m = ck.model("MCColours", """INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Distinct
INVARIANT NoGaps
INVARIANT Kept
PROPERTY PrefixStable
CONSTANTS
  MAXCH = 3
  PALLEN = 3
""")
    rng = ck.rng
    cases = [{"palette": True}]
    hs = m.out
    rng.shuffle(hs)
    seen = set()
    for b in hs:
        h, live = [], []
        for i, o in enumerate(b["h"]):
            # a re-used number is a new chain with the same name
            n = {"chain": "c", "marker": "m"}.get(o["kind"])
            if o["op"] == "add":
                nm = f"{n}{o['name']}"
                live.append((o["name"], nm))
                st = {f: (None if v == "none" else "#a0b0c0") for f, v in o["set"]}
                h.append({"op": "add", "name": nm, "id": o["name"], "set": st, "kind": o["kind"]})
            else:
                nm = next(x for k, x in live if k == o["name"])
                live.remove((o["name"], nm))
                h.append({"op": "remove", "name": nm, "id": 0, "set": {}, "kind": "-"})
        if not live:
            continue
        for sub in b["sub"]:
            look = [x for k, x in live if k in sub]
            key = str([(x["name"], x["set"], x["op"]) for x in h]) + str(look)
            if key in seen:
                continue
            seen.add(key)
            rng.shuffle(look)
            cases.append({"h": h + [{"op": "see", "look": look, "what": ["plot", "walk", "dist"], "name": "-", "set": {}}]})
    head, tail = cases[:1], cases[1:]
    rng.shuffle(tail)
    cases = head + tail[: ck.pick(110, 3000)]
    for _ in range(ck.pick(30, 800)):  # longer collections, override colours, names
        h, live = [], []
        for i in range(rng.randint(3, 12)):
            k = "marker" if rng.random() < 0.2 else "chain"
            if k == "chain" and rng.random() < 0.15:
                k = "hidden"
            nm = {"marker": "m", "chain": "c", "hidden": "h"}[k] + str(i + 1)
            st = {}
            if rng.random() < 0.4:
                st["color"] = "#%06x" % rng.randrange(1 << 24)
            elif k == "chain" and rng.random() < 0.2:
                st["color"] = None
            h.append({"op": "add", "name": nm, "id": i + 1, "set": st, "kind": k})
            live.append(nm)
            if rng.random() < 0.2 and len(live) > 2:
                x = rng.choice(live)
                live.remove(x)
                h.append({"op": "remove", "name": x, "id": 0, "set": {}, "kind": "-"})
            if rng.random() < 0.1:
                h.append({"op": "override", "name": "-", "set": rng.choice([{}, {"color": "#0f0f0f"}]), "kind": "-"})
        live = [x for x in live if x[0] != "h"]
        if not live:
            continue
        look = rng.sample(live, rng.randint(1, min(4, len(live))))
        h.append({"op": "see", "look": look, "what": rng.choice([["plot"], ["walk"], ["dist"]]), "name": "-", "set": {}})
        cases.append({"h": h})
    # the palette runs out
    for n, expl in [(93, 0)] + ([(180, 3), (95, 5)] if ck.thorough else []):
        h = [{"op": "add", "name": f"c{i + 1}", "id": i + 1, "set": {"color": "#123456"} if expl and i % 7 == expl else {}, "kind": "chain"}
             for i in range(n)]
        h.append({"op": "see", "look": [f"c{i + 1}" for i in range(n)], "what": ["walk"], "name": "-", "set": {}})
        cases.append({"h": h})
    ck.run("JColours", cases, run)


RUN = {"JColours": run}
