"""The cells of a triangle figure as data."""
import re

from core import num, nums, q
from figproj import project


def offset_of(label):
    """Split the trailing [1e-3+2.5e6] that the plot appends to an axis label: (label, factor, shift)."""
    m = re.match(r"^(.*?) ?\[([^\[\]]*)\]$", label)
    if not m:
        return label.strip(), 1.0, 0.0
    t = m.group(2).replace("\u2212", "-")
    k = re.match(r"^(1e[+-]?\d+)?([+-]\d+(?:\.\d+)?(?:e[+-]?\d+)?)?$", t)
    if not k or not t:
        return label.strip(), 1.0, 0.0
    return m.group(1).strip(), float(k.group(1) or 1), float(k.group(2) or 0)


def read(text, mul, add):
    t = text.replace("\u2212", "-").replace("$", "").replace("\\mathdefault", "")
    m = re.match(r"^\{(-?)(?:(\d+(?:\.\d+)?)\\times)?10\^\{(-?\d+)\}\}$", t)
    if m:
        v = float(m.group(2) or 1) * 10.0 ** int(m.group(3))
        return q(-v if m.group(1) else v)
    m = re.match(r"^\{?(-?\d+(?:\.\d+)?)\}?$", t)
    return q(float(m.group(1)) * mul + add) if m else "odd " + text


def cells(fig, step=20, colours=()):
    """Chains are told apart by zorder (a multiple of step) in joint panels and by colour in marginals."""
    out = []
    pr = project(fig)
    for a in pr["axes"]:
        if a["colorbar"]:
            continue
        xl, mx, ax_ = offset_of(a["xlabel"])
        yl, my, ay = offset_of(a["ylabel"])
        z = lambda v: int(round(v / step))  # noqa: E731
        cell = {"r": a["row"] + 1, "c": a["col"] + 1, "on": a["on"] and a["frame"], "x": nums(a["xlim"]), "y": nums(a["ylim"]), "xs": a["xscale"], "ys": a["yscale"],
                "xl": xl, "yl": yl, "title": a["title"],
                "xt": [{"at": q(p), "v": read(t, mx, ax_)} for p, t in a["xticks"]], "yt": [{"at": q(p), "v": read(t, my, ay)} for p, t in a["yticks"]],
                "cont": [z(c["z"]) for c in a["contours"] if not c["filled"]],
                "cloud": [z(s["z"] + 5) for s in a["scatters"] if s["z"] % step == step - 5],
                "point": [z(s["z"] - 1) for s in a["scatters"] if s["z"] % step == 1],
                "curve": [colours.index(s["color"]) + 1 for s in a["steps"] + [ln for ln in a["lines"] if ln["kind"] == "data"] if s["color"] in colours]}
        out.append((cell, a))
    return out
