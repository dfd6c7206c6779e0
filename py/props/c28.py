"""C28: files written by plots and tables, and matplotlib's global text settings."""
import hashlib
import io
import os
import re
import shutil
import struct
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd

from core import caught, q
from figproj import project

DRAWS = ("plot", "walks", "distributions", "summary")


def data(seed, n):
    r = np.random.default_rng(seed)
    df = pd.DataFrame({p: r.normal(10.0**k, 2.0 + k, 60) for k, p in enumerate(["x", "y", "z"][:n])})
    df["log_posterior"] = -r.random(60)
    return df


def word(b):
    return "none" if b is None else "true" if b else "false"


def unword(w):
    return {"none": None, "true": True, "false": False}[w]


def rc_now():
    import matplotlib

    return {"tex": word(bool(matplotlib.rcParams["text.usetex"])), "fam": list(matplotlib.rcParams["font.family"])}


def others(base):
    import matplotlib

    return sorted(k for k, v in matplotlib.rcParams.items() if k not in ("text.usetex", "font.family") and str(v) != base[k])


def mark(f, tex):
    """All of a figure that a reader sees, and how it would be drawn again."""

    def enc(o):
        if isinstance(o, np.ndarray):
            return hashlib.md5(np.round(np.asarray(o, float), 7).tobytes()).hexdigest()
        if isinstance(o, dict):
            return {k: enc(v) for k, v in o.items() if k != "obj"}
        if isinstance(o, (list, tuple)):
            return [enc(v) for v in o]
        return round(o, 7) if isinstance(o, float) else o

    extra = [f.dpi, f.get_facecolor(), f.get_frameon(), [(a.get_facecolor(), a.patch.get_alpha(), a.patch.get_visible(), list(np.round(a.get_position().bounds, 6))) for a in f.axes]]
    return repr(enc(project(f, draw=not tex))) + repr(extra)


def kind_ok(p):
    b = p.read_bytes()
    e = p.suffix.lower()
    if e == ".png":
        return b[:8] == b"\x89PNG\r\n\x1a\n"
    if e == ".pdf":
        return b[:5] == b"%PDF-"
    return b"<svg" in b


def page(p, f, dpi, tight):
    """Size in inches and resolution of a saved file."""
    b = p.read_bytes()
    e = p.suffix.lower()
    o = {"name": p.name, "dpi": "-", "diff": "-", "tw": q(round(tight.width, 4)), "th": q(round(tight.height, 4))}
    if e == ".png":
        w, h = struct.unpack(">II", b[16:24])
        k = b.find(b"pHYs")
        if k > 0:
            o["dpi"] = q(round(struct.unpack(">I", b[k + 4 : k + 8])[0] * 0.0254, 2))
        w, h = w / dpi, h / dpi
        import matplotlib.image as mi

        buf = io.BytesIO()
        f.savefig(buf, dpi=dpi, bbox_inches="tight", pad_inches=0.05)
        buf.seek(0)
        a, c = mi.imread(io.BytesIO(b)), mi.imread(buf)
        if a.shape[:2] == c.shape[:2]:
            def white(i):
                return i[..., :3] * i[..., 3:] + 1 - i[..., 3:] if i.shape[2] == 4 else i[..., :3]

            o["diff"] = q(round(float(np.abs(white(a) - white(c)).mean()), 5))
    elif e == ".pdf":
        m = re.search(rb"/MediaBox \[([^\]]*)\]", b)
        v = [float(x) for x in m.group(1).split()]
        w, h = (v[2] - v[0]) / 72, (v[3] - v[1]) / 72
    else:
        m = re.search(rb'<svg[^>]*?height="([0-9.]+)pt"', b, re.S), re.search(rb'<svg[^>]*?width="([0-9.]+)pt"', b, re.S)
        h, w = float(m[0].group(1)) / 72, float(m[1].group(1)) / 72
    o["w"], o["h"] = q(round(w, 4)), q(round(h, 4))
    return o


def texts(f):
    from matplotlib.text import Text

    return [t for t in f.findobj(Text) if t.get_text() and t.get_visible()]


def run(case):
    import matplotlib
    import matplotlib.pyplot as plt
    from chainconsumer import Chain, ChainConsumer, PlotConfig

    scratch = Path(tempfile.mkdtemp(prefix="c28-")).resolve()
    was = os.getcwd()
    kept = matplotlib.rcParams.copy()
    os.chdir(scratch)
    (scratch / "sub").mkdir()
    try:
        base = {k: str(v) for k, v in matplotlib.rcParams.items()}
        cons, dpis, ev, right = {}, {}, [], {}
        before = set()
        for k, o in enumerate(case["h"]):
            i = {"op": o["op"], "c": o.get("c", 1), "tex": o.get("tex", "-"), "serif": o.get("serif", "-"), "fam": o.get("fam", []), "names": [], "dpi": "0", "size": ["default"]}
            out = {"ok": True, "texts": [], "textex": [], "same": True, "size": [], "plain": [], "pages": []}
            c = cons.get(o.get("c"))
            if o["op"] == "make":
                c = cons[o["c"]] = ChainConsumer()
                dpis[o["c"]] = 300
                for n in range(case["chains"]):
                    c.add_chain(Chain(samples=data(case["seed"] + n, case["n"]), name=f"c{n}", smooth=0, bins=8, sigmas=[0, 1]))
            elif o["op"] == "config":
                dpis[o["c"]] = o["dpi"]
                c.set_plot_config(PlotConfig(usetex=unword(o["tex"]), serif=unword(o["serif"]), dpi=o["dpi"], watermark=o.get("watermark"), summarise=o.get("summarise", True)))
            elif o["op"] == "user":
                plt.rc("text", usetex=unword(o["tex"]))
                plt.rc("font", family=o["fam"])
            elif o["op"] == "append":
                matplotlib.rcParams["font.family"].append(o["fam"][0])
            elif o["op"] == "restore":
                c.plotter.restore_rc_params()
            elif o["op"] == "table":
                names = o["files"]
                r = caught(lambda c=c, names=names: c.analysis.get_latex_table(filename=arg(names, o["how"], scratch)))
                out["ok"] = r["ok"]
                i["names"] = names
                if r["ok"]:
                    right.update({n: (lambda n=n, v=r["v"]: (scratch / n).read_text() == v) for n in names})
            elif o["op"] == "draw":
                i["names"], i["size"], i["dpi"] = o["files"], o["size"], str(dpis[o["c"]])
                fn = {"plot": c.plotter.plot, "walks": c.plotter.plot_walks, "distributions": c.plotter.plot_distributions, "summary": c.plotter.plot_summary}[o["draw"]]
                kw = {}
                if o["size"][0] == "tuple":
                    kw["figsize"] = (o["fs"][0], o["fs"][1])
                elif o["size"][0] == "scale":
                    kw["figsize"] = o["fs"]
                if o["draw"] == "summary" and o.get("errorbar"):
                    kw["errorbar"] = True
                plt.close("all")
                names = o["files"]
                r = caught(lambda fn=fn, kw=kw, names=names: fn(filename=arg(names, o["how"], scratch), **kw))
                out["ok"] = r["ok"]
                tex = bool(matplotlib.rcParams["text.usetex"])
                if r["ok"]:
                    f = r["v"]
                    ts = texts(f)
                    out["texts"] = [list(x) for x in sorted({tuple(t.get_fontfamily()) for t in ts})]
                    out["textex"] = sorted({word(bool(t.get_usetex())) for t in ts})
                    out["size"] = [q(round(float(x), 9)) for x in f.get_size_inches()]
                    if names:
                        m = mark(f, tex)
                        tight = f.get_tightbbox(f.canvas.get_renderer())
                        out["pages"] = [page(scratch / n, f, dpis[o["c"]], tight) for n in names if (scratch / n).exists() and (scratch / n).stat().st_size and kind_ok(scratch / n)]
                        plain = fn(**kw)
                        out["same"] = mark(plain, tex) == m
                    if o["size"][0] == "scale":
                        out["plain"] = [q(round(float(x), 9)) for x in fn(**{k: v for k, v in kw.items() if k != "figsize"}).get_size_inches()]
                    right.update({n: (lambda n=n: kind_ok(scratch / n)) for n in names})
                else:
                    out["err"] = str(r)[:300]
                plt.close("all")
            out["rc"] = rc_now()
            out["others"] = others(base)
            found = sorted(str(p.relative_to(scratch)) for p in scratch.rglob("*") if p.is_file())
            out["files"] = [{"name": n, "full": (scratch / n).stat().st_size > 0, "right": bool(caught(right[n]).get("v")) if n in right else False} for n in found]
            ev.append({"op": o["op"], "in": i, "out": out})
        return ev
    finally:
        plt.close("all")
        matplotlib.rcParams.update(kept)
        os.chdir(was)
        shutil.rmtree(scratch)


def arg(names, how, scratch):
    if not names:
        return None if how != "empty" else []
    v = [Path(n) if how in ("path", "mixed") and k % 2 == 0 else str(scratch / n) if how == "abs" else n for k, n in enumerate(names)]
    return v[0] if len(v) == 1 and how != "list" else v


FILES = ["a.png", "b.pdf", "c.svg", "sub/d.png", "e f.png", "g.v2.pdf", "\u03a9.png", "sub/h.svg", "A.PNG"]


def main(ck):
    rng = ck.rng
    props = "\n".join("PROPERTY " + x for x in ("OnlyAsked", "Configured", "Returned", "Kept", "OthersAlone"))
    cfg = f"INIT Init\nNEXT Next\nVIEW View\nACTION_CONSTRAINT Emit\n{props}\n"
    one = ck.model("MCOutput", cfg + 'CONSTANTS CONS = 1\nFAMS = {"serif", "monospace", "sans-serif"}\nTEXS = {"true", "false"}\nSETS = {"none", "true", "false"}\nDEEP = 7\n').out
    two = ck.model("MCOutput", cfg + 'CONSTANTS CONS = 2\nFAMS = {"serif", "monospace"}\nTEXS = {"false"}\nSETS = {"none", "false"}\nDEEP = 8\n').out
    cases = []
    for m, n in ((one, ck.pick(150, 2500)), (two, ck.pick(70, 1500))):
        m = [d for d in m if sum(o["op"] in ("draw", "table") for o in d) >= 1 and any(o["op"] == "make" for o in d)]
        rng.shuffle(m)
        k = n // 2
        m = m[:k] + sorted(m[k:], key=lambda d: -sum(o["op"] in ("draw", "restore", "append") for o in d) - rng.random() * 3)
        for d in m[:n]:
            d = list(d)
            for _ in range(2):
                # these are possible whenever there is a consumer
                made = [j for j, o in enumerate(d) if o["op"] == "make"]
                j = rng.choice(made)
                if rng.random() < 0.4:
                    d.insert(rng.randrange(j + 1, len(d) + 1), {"op": "table", "c": d[j]["c"], "names": ["t1"]})
                if rng.random() < 0.4:
                    d.append({"op": "restore", "c": d[j]["c"]})
            h = []
            texed = any(o.get("tex") == "true" for o in d)
            for o in d:
                o = dict(o)
                if o["op"] == "config":
                    o.update(dpi=rng.choice([30, 50, 80, 80, 100, 137, 330]), watermark=rng.choice([None, None, "Draft"]), summarise=rng.random() < 0.5)
                    if texed or o["tex"] == "true":
                        o["watermark"] = None  # laying out its text needs a LaTeX
                elif o["op"] in ("draw", "table"):
                    names = sorted(o.pop("names"))
                    o["how"] = rng.choice(["str", "path", "list", "mixed", "abs"])
                    if o["op"] == "table":
                        o["files"] = [rng.choice(["t.tex", "t.tex", "sub/t2.txt", "tab le"])]
                        o["how"] = rng.choice(["str", "path", "abs"])
                    else:
                        o["files"] = rng.sample(FILES, len(names) + (rng.random() < 0.2) if names else 0)
                        if len(o["files"]) == 2 and rng.random() < 0.25:
                            o["files"] = rng.sample(["a.png", "A.PNG"], 2)
                        o["draw"] = rng.choice(["walks", "distributions"] if o["kind"] == "walks" else ["plot", "summary"])
                        o["how"] = "empty" if not names and rng.random() < 0.2 else o["how"]
                        o["size"], o["errorbar"] = ["default"], rng.random() < 0.3
                        z = rng.random()
                        if z < 0.35 and o["draw"] != "summary":
                            o["fs"] = [rng.choice([4.0, 5.5, 7.0]), rng.choice([4.0, 6.25])]
                            o["size"] = ["tuple", q(o["fs"][0]), q(o["fs"][1])]
                        elif z < 0.6 and o["draw"] != "walks":
                            o["fs"] = rng.choice([0.75, 1.0, 1.5])
                            o["size"] = ["scale", q(o["fs"])]
                h.append(o)
            cases.append({"h": h, "n": rng.choice([1, 2, 2, 3]), "chains": rng.choice([1, 1, 2]), "seed": rng.randrange(10**6)})
    ck.run("JOutput", cases, run, limit=200)


RUN = {"JOutput": run}
