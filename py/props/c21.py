"""C21: contours enclose the probability of their sigma levels."""
import re

import numpy as np
import pandas as pd

from core import caught, q, qs
from figproj import ls, project

N = 40


def polygons(path):
    out = []
    for v, code in path.iter_segments(simplify=False, curves=False):
        if code == path.MOVETO:
            out.append([v])
        elif code == path.CLOSEPOLY:
            out[-1].append(out[-1][0])
        else:
            out[-1].append(v)
    return [np.asarray(p) for p in out]


def parity(path, xs, ys):
    """Which lattice points are on the other side of the lines than the first one: '0101...', first coordinate outermost."""
    def cross(segs, u, v, at, places):  # crossings of the line v = at with the gaps between consecutive places along u
        a, b = segs[:-1], segs[1:]
        m = (a[:, v] > at) != (b[:, v] > at)
        a, b = a[m], b[m]
        c = a[:, u] + (at - a[:, v]) / (b[:, v] - a[:, v]) * (b[:, u] - a[:, u])
        k = np.searchsorted(places, c)
        return np.bincount(k, minlength=len(places) + 1)[1:-1]

    ps = [p for p in polygons(path) if len(p) > 1]
    out = np.zeros((len(xs), len(ys)), dtype=int)
    out[1:, 0] = np.cumsum(sum((cross(p, 0, 1, ys[0], xs) for p in ps), np.zeros(len(xs) - 1, dtype=int)))
    for i, x in enumerate(xs):
        out[i, 1:] = out[i, 0] + np.cumsum(sum((cross(p, 1, 0, x, ys) for p in ps), np.zeros(len(ys) - 1, dtype=int)))
    return "".join("01"[v % 2] for v in out.ravel())


def inside(path, xs, ys):
    n = np.zeros((len(xs), len(ys)), dtype=int)
    pts = np.array([(x, y) for x in xs for y in ys])
    from matplotlib.path import Path

    for p in polygons(path):
        n += Path(p).contains_points(pts).reshape(n.shape)
    return "".join("01"[v % 2] for v in n.ravel())


def blank(ok=True):
    return {"ok": ok, "drawn": 0, "filled": 0, "lines": [], "fills": [], "style": {}}


def look(a, z, xs, ys):
    o = blank()
    lines = [c for c in a["contours"] if not c["filled"] and c["z"] == z]
    fills = [c for c in a["contours"] if c["filled"] and abs(c["z"] - z) < 5]
    o["drawn"], o["filled"] = len(lines), len(fills)
    if len(lines) != 1 or len(fills) > 1:
        return o
    ln = lines[0]
    o["lines"] = [parity(p, xs, ys) for p in ln["obj"].get_paths()]
    texts = [t.replace("\u2212", "-").strip() for t in ln["labels"]]
    ok = all(re.fullmatch(r"-?[0-9.]+%", t) for t in texts)
    o["style"] = {"lw": sorted({q(v) for v in ln["lw"]}), "ls": sorted({ls(v) for v in ln["ls"]}), "line_alpha": q(ln["alpha"] if ln["alpha"] is not None else min(ln["rgba_alpha"])), "lines": ln["colors"], "fills": [],
                  "alpha": "1", "z": q(ln["z"]), "fz": "0", "labels": [q(float(t[:-1])) for t in texts] if ok else ["-1000"], "labelled": ln["labelled"],
                  "sizes": [q(float(t.get_fontsize())) for t in getattr(ln["obj"], "labelTexts", [])]}
    if fills:
        f = fills[0]
        o["fills"] = [inside(p, xs, ys) for p in f["obj"].get_paths()]
        o["style"] |= {"fills": f["colors"], "alpha": q(f["alpha"] if f["alpha"] is not None else min(f["rgba_alpha"])), "fz": q(f["z"])}
    return o


def lattice(c, p, cells):
    """Places of the cells along a parameter: [edges, places to look at]."""
    if c["mode"] == "exact":
        e = cells[p]
        m = 0.5 * (e[1:] + e[:-1])
        mid = 0.5 * (e[0] + e[-1])
        return e, m + (mid - m) * (1e-5 if c["grid"] else 2 * 0.02 / len(m))
    return None, None


def column(c, rng):
    """The samples of a chain: {name: values}, weights, {name: cell edges}."""
    names = c["names"]
    n = c["n"]
    cells = {}
    if c["mode"] == "exact":
        nx, ny = c["shape"]
        cnt = c["counts"]
        a, b = names[:2]
        sa, oa = c["scale"], c["offset"]
        if c["grid"]:
            gx, gy = oa + sa * np.arange(nx), -oa + sa * 0.5 * np.arange(ny)
            X, Y = np.meshgrid(gx, gy, indexing="ij")
            d, w = {a: X.ravel(), b: Y.ravel()}, np.maximum(np.array(cnt, dtype=float), 2.0 ** -30)
            cells = {a: oa + sa * (np.arange(nx + 1) - 0.5), b: -oa + sa * 0.5 * (np.arange(ny + 1) - 0.5)}
        else:
            k = np.repeat(np.arange(nx * ny), cnt)
            u = (k // ny + rng.uniform(0.15, 0.85, len(k))) / nx
            v = (k % ny + rng.uniform(0.15, 0.85, len(k))) / ny
            e = 1.7 / 2000
            u, v = np.append(u, [0, e, 1 - e, 1]), np.append(v, [0, e, 1 - e, 1])
            d, w = {a: oa + sa * u, b: -oa + 0.5 * sa * v}, np.ones(len(u)) * c["wscale"]
            cells = {a: oa + sa * np.linspace(0, 1, nx + 1), b: -oa + 0.5 * sa * np.linspace(0, 1, ny + 1)}
        for extra in names[2:]:
            d[extra] = rng.normal(size=len(w)) if not c["grid"] else d[a]
            cells[extra] = None
        return d, w, cells
    z = rng.normal(size=(n, len(names)))
    if c["shape"] == "skew":
        z = np.exp(0.5 * z)
    elif c["shape"] == "two":
        z[: n // 3] = 0.6 * z[: n // 3] + 4.0
    elif c["shape"] == "ring":
        t = rng.uniform(0, 2 * np.pi, n)
        z[:, 0], z[:, 1] = 3 * np.cos(t) + 0.4 * z[:, 0], 3 * np.sin(t) + 0.4 * z[:, 1]
    elif c["shape"] == "corr":
        z[:, 1] = 0.8 * z[:, 0] + 0.6 * z[:, 1]
    elif c["shape"] == "edge":
        z = np.abs(z)
    # the range of the density is that of the samples but for an isolated one at an end: leave none isolated
    for j in range(z.shape[1]):
        lo, hi = z[:, j].min(), z[:, j].max()
        ends = z[[z[:, j].argmin(), z[:, j].argmax()]].copy()
        ends[:, j] += np.array([1, -1]) * 1.7 / 2000 * (hi - lo)
        z = np.vstack([z, ends])
    n = len(z)
    w = {"none": np.ones(n), "random": 0.2 + rng.random(n), "tilt": np.exp(0.8 * (z[:, 0] - z[:, 0].max())) + 0.02, "zero": np.where(np.arange(n) % 3, 1.0, 1e-4)}[c["weights"]] * c["wscale"]
    if c["weights"] == "zero":
        w[-2 * z.shape[1]:] = c["wscale"]
    d = {p: c["offset"] * (-1) ** i + c["scale"] * (1 + i) * z[:, i] for i, p in enumerate(names)}
    return d, w, cells


def run(case):
    import matplotlib.pyplot as plt
    from chainconsumer import Chain, ChainConsumer, PlotConfig
    from chainconsumer.plotting import plot_contour

    rng = np.random.default_rng(case["seed"])
    cons = ChainConsumer()
    data = []
    for i, c in enumerate(case["chains"]):
        d, w, cells = column(c, rng)
        df = pd.DataFrame(d)
        if c["mode"] == "exact" and c["grid"] or c["weights"] != "none" or c["wscale"] != 1:
            df["weight"] = w
        st = c["set"]
        ch = Chain(samples=df, name=f"c{i}", color=st["color"], sigmas=st["sigmas"], smooth=st["smooth"], bins=st["bins"], kde=st["kde"], grid=c["grid"], power=st["power"], shade=st["shade"], shade_alpha=st["alpha"],
                   shade_gradient=st["gradient"], linewidth=st["lw"], linestyle=st["ls"], show_contour_labels=st["labels"], zorder=20 * (i + 1), plot_contour=st["contour"], plot_cloud=not st["contour"])
        cons.add_chain(ch)
        data.append((ch, d, w, cells, len(df.columns)))
    cols = case["cols"]
    cfg = PlotConfig(sigma2d=case["two"], plot_hists=case["hists"], flip=case["flip"], contour_label_font_size=case["size"], show_legend=False)
    cons.set_plot_config(cfg)
    lay = {"cols": cols, "hists": case["hists"], "flip": case["flip"]}
    if case["how"] == "plot":
        r = caught(lambda: project(cons.plotter.plot(columns=cols), draw=False))
        off = 1 if case["hists"] else 0
        panels = [(y + (1 if case["hists"] else 0), x + 1, cols[x], cols[y if case["hists"] else y]) for y in range(len(cols)) for x in range(y)]
        panels = [(y + off, x + 1, cols[x], cols[y]) for y in range(1, len(cols)) for x in range(y)]
    else:
        def f():
            fig, ax = plt.subplots()
            for ch, *_ in data:
                plot_contour(ax, ch, cols[0], cols[1], cfg) if case["two"] or case["seed"] % 2 else plot_contour(ax, ch, cols[0], cols[1])
            return project(fig, draw=False)

        lay["hists"] = False
        r = caught(f)
        panels = [(1, 1, cols[0], cols[1])]
    ev = []
    for row, col, px, py in panels:
        for i, (ch, d, w, cells, nc) in enumerate(data):
            c, st = case["chains"][i], case["chains"][i]["set"]
            if px not in d or py not in d or not st["contour"]:
                continue
            mode = c["mode"]
            if mode == "exact" and (cells[px] is None or cells[py] is None) or st["kde"] and len(w) < 5:
                mode = "none"
            if mode == "exact":
                (ex, xs), (ey, ys) = lattice(c, px, cells), lattice(c, py, cells)
                bx = by = [0, 1]
            else:
                bx, by = [[d[p].min(), d[p].max()] for p in (px, py)]
                xs, ys = [b[0] + (b[1] - b[0]) * (np.arange(N) + 0.5) / N for b in (bx, by)]
                ex = ey = []
            if r["ok"]:
                a = [z for z in r["v"]["axes"] if not z["colorbar"] and (case["how"] != "plot" or (z["row"] + 1, z["col"] + 1) == (row, col))][0]
                o = look(a, 20 * (i + 1), xs, ys)
            else:
                o = blank(False) | {"err": str(r)}
            need = {px, py}
            ev.append({"op": "contour", "in": {"lay": lay, "r": row, "c": col, "data": {p: qs(d[p]) for p in need}, "ws": qs(w), "cols": nc, "grid": c["grid"], "smooth": ch.smooth_value, "bins": "none" if st["bins"] is None else str(st["bins"]),
                                               "kde": "none" if st["kde"] is False else q(float(st["kde"])), "power": q(st["power"]), "sigmas": [q(s) for s in st["sigmas"]], "two": case["two"], "mode": mode, "ex": qs(ex), "ey": qs(ey),
                                               "bx": qs(bx), "by": qs(by), "n": N, "tol": c["tol"], "shade": st["shade"], "alpha": q(st["alpha"]), "lw": q(st["lw"]), "ls": ls(st["ls"]), "color": st["color"], "gradient": q(st["gradient"]),
                                               "z": str(20 * (i + 1)), "labels": st["labels"], "size": q(float(case["size"] if case["how"] == "plot" or case["two"] or case["seed"] % 2 else 10))}, "out": o})
    plt.close("all")
    return ev


def settings(rng):
    return {"color": rng.choice(["#d62728", "#1f77b4", "#2ca02c", "#502810", "#336699", "#203060"]), "sigmas": rng.choice([[0, 1, 2], [0, 1, 2], [0, 1], [0, 1, 2, 3], [0, 0.5, 1.5], [1, 2], [0, 2.5], [1]]), "smooth": 0, "bins": None, "kde": False, "power": 1.0,
            "shade": rng.random() < 0.75, "alpha": rng.choice([0.5, 1.0, 0.2, 0.5, 0.0]), "gradient": rng.choice([1.0, 0.0, 0.5, 0.2]), "lw": rng.choice([1.0, 2.5, 0.7]), "ls": rng.choice(["-", "--", ":", "-."]), "labels": rng.random() < 0.2,
            "contour": True}


def exact(rng, cnt, names):
    nx, ny, counts = cnt
    grid = rng.random() < 0.5
    s = settings(rng)
    s["power"] = rng.choice([1.0, 1.0, 2.0, 0.5])
    if not grid:
        k = rng.choice([1, 2, 4])
        counts = [k * v for v in counts]
        s["bins"] = nx + 1
    s["smooth"] = 0
    return {"mode": "exact", "grid": grid, "shape": [nx, ny], "counts": counts, "names": names, "n": 0, "scale": rng.choice([1.0, 2.0 ** -20, 1024.0]), "offset": rng.choice([0.0, 4.0, -64.0]) , "weights": "none", "wscale": rng.choice([1, 1, 2.0 ** -16]),
            "tol": "1/22", "set": s}


def smooth(rng, names):
    s = settings(rng)
    kde = rng.random() < 0.25
    c = {"mode": "smooth", "grid": False, "shape": rng.choice(["normal", "skew", "two", "ring", "corr", "edge"]), "names": names, "n": rng.choice([150, 300, 600]) if kde else rng.choice([400, 800, 1500]), "scale": rng.choice([1.0, 1e-6, 200.0]),
         "offset": rng.choice([0.0, 3.0]), "weights": rng.choice(["none", "random", "tilt", "zero"]), "wscale": rng.choice([1, 1, 1e-6, 500.0]), "tol": "1/22", "set": s}
    c["offset"] *= c["scale"]
    if kde:
        s["kde"] = rng.choice([1.0, 0.7, 1.5])
        s["bins"] = 26
        s["smooth"] = 0
        s["power"] = rng.choice([1.0, 1.0, 2.0])
    else:
        s["smooth"] = rng.choice([2, 3, 3, 4])
        s["bins"] = rng.choice([12, 16, 20]) if s["smooth"] > 2 else 12
        # few independent samples, or a thin ring in coarse bins: the smoothed surface is noise
        if c["weights"] in ("tilt", "zero"):
            c["n"] = max(c["n"], 1200)
        if c["shape"] == "ring":
            s["smooth"], s["bins"] = 3, 20
    return c


def main(ck):
    rng = ck.rng
    inv = "\n".join("INVARIANT " + x for x in ("Keep", "NeverBoth", "Nested", "NotTooMuch", "DenserFirst", "NoTiesNoDoubt", "SigmasGrow", "OneSigma"))
    m = []
    for nx, ny, top in ((2, 2, 3), (3, 2, ck.pick(1, 2))):
        m += [(nx, ny, list(x["c"])) for x in ck.model("MCJoint", f"INIT Init\nNEXT Next\n{inv.replace('INVARIANT Keep', 'CONSTRAINT Keep')}\nCONSTANTS NX = {nx}\n NY = {ny}\n TOP = {top}\n").out]
    m = [x for x in m if sum(x[2]) > 0]
    rng.shuffle(m)
    m = [(nx, ny, c) for nx, ny, c in m]
    cases = []
    for i in range(ck.pick(190, 4000)):
        names = rng.sample(["p", "q", "a b", "$\\Omega_m$", "z_1"], 3 if rng.random() < 0.15 else 2)
        k = 1 if rng.random() < 0.7 else 2
        ch = []
        for _ in range(k):
            if rng.random() < 0.55:
                if rng.random() < 0.5 and m:
                    g = m.pop()
                else:
                    nx = rng.choice([2, 3, 4, 5])
                    ny = rng.choice([2, 3, 4, 6])
                    g = (nx, ny, [rng.choice([0, 1, 2, 3, 5, 8, 13]) if rng.random() < 0.9 else 30 for _ in range(nx * ny)])
                c = exact(rng, g, names[:2] if len(names) == 2 or rng.random() < 0.5 else names)
                if not c["grid"]:  # as many cells along both
                    nx = g[0]
                    c["shape"] = [nx, nx]
                    c["counts"] = (c["counts"] * nx)[: nx * nx]
                    if nx < 3:
                        c["shape"], c["counts"], c["set"]["bins"] = [3, 3], (c["counts"] * 3)[:9], 4
                    if sum(c["counts"]) == 0:
                        c["counts"][0] = 3
                elif sum(c["counts"]) == 0 or (np.array(c["counts"]) > 0).sum() < 2:
                    c["counts"][0], c["counts"][-1] = 3, 2
            else:
                c = smooth(rng, names)
            ch.append(c)
        if k == 2 and rng.random() < 0.2:
            ch[0]["set"]["contour"] = False
        cols = [n for n in names if any(n in c["names"] for c in ch)]
        rng.shuffle(cols)
        how = "plot" if len(names) == 3 or any(not c["set"]["contour"] for c in ch) or rng.random() < 0.6 else "alone"
        if how == "alone":
            cols = cols[:2]
        cases.append({"chains": ch, "cols": cols, "two": rng.random() < 0.5, "hists": rng.random() < 0.6, "flip": rng.random() < 0.5, "size": rng.choice([10, 7, 14]), "how": how, "seed": rng.randrange(10**6)})
    ck.run("JContour", cases, run, limit=200)


RUN = {"JContour": run}
