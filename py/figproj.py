"""Projection of a matplotlib figure to plain data: what a reader of the figure sees.

Only observation, no judgement.  Numbers stay floats here; drivers convert what they record.
"""
from __future__ import annotations

import numpy as np
from matplotlib.colors import to_hex, to_rgba


def hexa(c):
    try:
        return to_hex(c)
    except Exception:  # noqa: BLE001
        return str(c)


def ticks(axis, lim):
    """Visible tick label texts of an axis (major and minor), inside the limits."""
    lo, hi = min(lim), max(lim)
    eps = 1e-9 * max(abs(lo), abs(hi), hi - lo)
    out = []
    for minor in (False, True):
        locs = list(np.atleast_1d(axis.get_ticklocs(minor=minor)))
        labs = axis.get_ticklabels(minor=minor)
        for loc, lab in zip(locs, labs):
            if lab.get_visible() and lab.get_text() and lo - eps <= loc <= hi + eps:
                out.append((float(loc), lab.get_text()))
    return out


def alpha_of(a, rgba):
    al = a.get_alpha()
    return float(al) if al is not None and np.ndim(al) == 0 else float(rgba[3])


def project(fig, draw=True):
    from matplotlib.collections import LineCollection, PathCollection, PolyCollection
    from matplotlib.contour import QuadContourSet
    from matplotlib.patches import Polygon

    if draw:
        fig.canvas.draw()
    out = {"size": [float(x) for x in fig.get_size_inches()], "texts": [t.get_text() for t in fig.texts if t.get_visible()],
           "axes": []}
    cbs = []
    for ax in fig.axes:
        ss = ax.get_subplotspec()
        is_cb = hasattr(ax, "_colorbar")
        rec = {
            "colorbar": is_cb, "on": bool(ax.axison), "frame": bool(ax.get_frame_on()),
            "row": int(ss.rowspan.start) if ss is not None and not is_cb else -1,
            "col": int(ss.colspan.start) if ss is not None and not is_cb else -1,
            "xlim": [float(v) for v in ax.get_xlim()], "ylim": [float(v) for v in ax.get_ylim()],
            "xscale": ax.get_xscale(), "yscale": ax.get_yscale(),
            "xlabel": ax.get_xlabel() if ax.axison and ax.xaxis.label.get_visible() else "",
            "ylabel": ax.get_ylabel() if ax.axison and ax.yaxis.label.get_visible() else "",
            "title": ax.get_title(),
            "xticks": ticks(ax.xaxis, ax.get_xlim()) if ax.axison and ax.xaxis.get_visible() else [],
            "yticks": ticks(ax.yaxis, ax.get_ylim()) if ax.axison and ax.yaxis.get_visible() else [],
            "offset": [o.get_text() for o in (ax.xaxis.get_offset_text(), ax.yaxis.get_offset_text())
                       if o.get_visible() and o.get_text()] if ax.axison else [],
            "texts": [{"s": t.get_text(), "color": hexa(t.get_color()), "size": float(t.get_fontsize())}
                      for t in ax.texts if t.get_visible()],
            "lines": [], "fills": [], "contours": [], "scatters": [], "steps": [], "segments": [],
        }
        for ln in ax.lines:
            if not ln.get_visible():
                continue
            tr = ln.get_transform()
            kind = "data"
            if tr == ax.get_xaxis_transform():
                kind = "v"
            elif tr == ax.get_yaxis_transform():
                kind = "h"
            rgba = to_rgba(ln.get_color())
            rec["lines"].append({
                "kind": kind, "x": np.asarray(ln.get_xdata(), dtype=float).ravel(), "y": np.asarray(ln.get_ydata(), dtype=float).ravel(),
                "color": hexa(ln.get_color()), "alpha": alpha_of(ln, rgba), "ls": ln.get_linestyle(),
                "lw": float(ln.get_linewidth()), "z": float(ln.get_zorder()), "marker": str(ln.get_marker()),
                "ms": float(ln.get_markersize())})
        for co in ax.collections:
            if not co.get_visible():
                continue
            z = float(co.get_zorder())
            if isinstance(co, QuadContourSet):
                al = co.get_alpha()
                if co.filled:
                    cols = [hexa(c) for c in co.get_facecolor()]
                else:
                    cols = [hexa(c) for c in co.get_edgecolor()]
                rec["contours"].append({
                    "filled": bool(co.filled), "levels": [float(v) for v in co.levels], "colors": cols, "z": z,
                    "alpha": None if al is None else float(np.atleast_1d(al)[0]),
                    "rgba_alpha": [float(c[3]) for c in (co.get_facecolor() if co.filled else co.get_edgecolor())],
                    "lw": [float(v) for v in np.atleast_1d(co.get_linewidth())],
                    "ls": [str(s) for s in (co.linestyles if isinstance(co.linestyles, list) else [co.linestyles])],
                    "labels": [t.get_text() for t in getattr(co, "labelTexts", [])],
                    "labelled": hasattr(co, "labelLevelList"),
                    "obj": co})
            elif isinstance(co, PathCollection):
                fc = co.get_facecolor()
                arr = co.get_array()
                mp = co.get_paths()
                rec["scatters"].append({
                    "xy": np.asarray(co.get_offsets(), dtype=float), "color": hexa(fc[0]) if len(fc) else "none",
                    "edge": hexa(co.get_edgecolor()[0]) if len(co.get_edgecolor()) else "none",
                    "alpha": None if co.get_alpha() is None else float(np.atleast_1d(co.get_alpha())[0]),
                    "rgba_alpha": float(fc[0][3]) if len(fc) else 0.0,
                    "size": float(co.get_sizes()[0]) if len(co.get_sizes()) else 0.0, "z": z,
                    "array": None if arr is None else np.asarray(arr, dtype=float),
                    "cmap": co.get_cmap().name if arr is not None else "", "lw": float(np.atleast_1d(co.get_linewidth())[0]),
                    "clim": None if arr is None else [float(v) for v in co.get_clim()],
                    "path": np.asarray(mp[0].vertices, dtype=float).round(6).tolist() if mp else []})
            elif isinstance(co, LineCollection):
                rec["segments"].append({"segs": [np.asarray(s, dtype=float).tolist() for s in co.get_segments()],
                                        "color": hexa(co.get_color()[0]), "z": z})
            elif isinstance(co, PolyCollection):
                v = np.vstack([p.vertices for p in co.get_paths()]) if co.get_paths() else np.zeros((0, 2))
                fc = co.get_facecolor()
                rec["fills"].append({"x": [float(v[:, 0].min()), float(v[:, 0].max())] if len(v) else [],
                                     "y": [float(v[:, 1].min()), float(v[:, 1].max())] if len(v) else [],
                                     "verts": v, "color": hexa(fc[0]) if len(fc) else "none",
                                     "alpha": float(np.atleast_1d(co.get_alpha())[0]) if co.get_alpha() is not None else float(fc[0][3]),
                                     "z": z})
        for p in ax.patches:
            if isinstance(p, Polygon) and p.get_visible():
                rec["steps"].append({"xy": np.asarray(p.get_xy(), dtype=float), "color": hexa(p.get_edgecolor()),
                                     "lw": float(p.get_linewidth()), "ls": str(p.get_linestyle()), "z": float(p.get_zorder())})
        lg = ax.get_legend()
        if lg is not None:
            hs = []
            for h in lg.legend_handles:
                hs.append({"color": hexa(h.get_color()), "ls": str(h.get_linestyle()), "lw": float(h.get_linewidth()),
                           "marker": str(h.get_marker()), "ms": float(h.get_markersize())})
            rec["legend"] = {"labels": [t.get_text() for t in lg.get_texts()], "handles": hs,
                             "text_colors": [hexa(t.get_color()) for t in lg.get_texts()],
                             "frameon": bool(lg.get_frame_on()), "loc": int(lg._loc) if isinstance(lg._loc, int) else str(lg._loc),
                             "fontsize": float(lg._fontsize), "ncols": int(lg._ncols)}
        out["axes"].append(rec)
        if is_cb:
            cbs.append({"label": ax.get_ylabel() or ax.get_xlabel()})
    out["colorbars"] = cbs
    return out


LS = {"-": "-", "solid": "-", "--": "--", "dashed": "--", ":": ":", "dotted": ":", "-.": "-.", "dashdot": "-."}


def ls(s):
    """Line style name, whether matplotlib keeps it as a name or as a dash pattern."""
    if isinstance(s, tuple) or (isinstance(s, str) and s.startswith("(")):
        import ast

        from matplotlib import rcParams

        _, pat = ast.literal_eval(s) if isinstance(s, str) else s
        if pat is None:
            return "-"
        for name, rc in (("--", "dashed"), (":", "dotted"), ("-.", "dashdot")):
            if tuple(pat) == tuple(rcParams[f"lines.{rc}_pattern"]):
                return name
        return str(s)
    return LS.get(s, s)


def all_texts(fig):
    """Every text a reader can see, with where it is: the observable of the blinding property."""
    pr = project(fig)
    out = [("fig", t) for t in pr["texts"] if t]
    for i, a in enumerate(pr["axes"]):
        if not a["on"] and not a["texts"]:
            continue
        for k in ("xlabel", "ylabel", "title"):
            if a[k].strip():
                out.append((f"{i}.{k}", a[k].strip()))
        out += [(f"{i}.x", t) for _, t in a["xticks"]] + [(f"{i}.y", t) for _, t in a["yticks"]]
        out += [(f"{i}.offset", t) for t in a["offset"]]
        out += [(f"{i}.text", t["s"]) for t in a["texts"]]
        for c in a["contours"]:
            out += [(f"{i}.contour", t) for t in c["labels"]]
        if "legend" in a:
            out += [(f"{i}.legend", t) for t in a["legend"]["labels"]]
    return out


def digest(fig):
    """A stable digest of everything project() sees."""
    import hashlib

    def enc(o):
        if isinstance(o, np.ndarray):
            return ["nd", list(o.shape), hashlib.md5(np.ascontiguousarray(o).tobytes()).hexdigest()]
        if isinstance(o, dict):
            d = {k: enc(v) for k, v in o.items() if k != "obj"}
            if "obj" in o:
                d["paths"] = enc(np.vstack([p.vertices for p in o["obj"].get_paths()]) if o["obj"].get_paths() else [])
            return d
        if isinstance(o, (list, tuple)):
            return [enc(v) for v in o]
        return o

    return hashlib.md5(repr(enc(project(fig))).encode()).hexdigest()
