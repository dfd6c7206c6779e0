"""Harness core: run TLC on models and traces, run the real code on cases.

No oracle lives here: verdicts come from TLC evaluating the specification on
what the real code did.
"""
from __future__ import annotations

import atexit
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool
from fractions import Fraction
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

TMP = Path(tempfile.mkdtemp(prefix="vcc-"))
_OWNER = os.getpid()


@atexit.register
def _clean():
    if os.getpid() == _OWNER:
        shutil.rmtree(TMP, ignore_errors=True)


class Infra(Exception):
    """The machinery itself failed (never a verdict)."""


# ---------------------------------------------------------------- environment
def setup_python():
    mpl = TMP / "mpl"
    if Path("/opt/vp/mplconfig").is_dir():
        shutil.copytree("/opt/vp/mplconfig", mpl)
    else:
        mpl.mkdir()
    os.environ.update(
        MPLCONFIGDIR=str(mpl), MPLBACKEND="Agg", JAX_PLATFORMS="cpu", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
        XDG_CACHE_HOME=str(TMP / "cache"), HOME=str(TMP),
    )
    sys.dont_write_bytecode = True
    sys.path.insert(0, str(REPO / "src"))
    import warnings

    warnings.simplefilter("ignore")
    warnings.showwarning = lambda *a, **k: None
    import logging

    logging.disable(logging.CRITICAL)
    import chainconsumer

    assert str(REPO / "src") in chainconsumer.__file__, chainconsumer.__file__


# ---------------------------------------------------------------- values
def num(x):
    """A recorded number, exactly."""
    if x is None:
        return {"k": "none"}
    try:
        x = x.item()
    except AttributeError:
        pass
    if isinstance(x, bool) or isinstance(x, int):
        return {"k": "num", "v": str(int(x))}
    if isinstance(x, float):
        if x != x:
            return {"k": "nan"}
        if x in (float("inf"), float("-inf")):
            return {"k": "inf" if x > 0 else "-inf"}
        return {"k": "num", "v": q(x)}
    return {"k": "odd", "v": str(x)[:80]}


def q(x) -> str:
    """Exact rational text of a finite number."""
    try:
        x = x.item()
    except AttributeError:
        pass
    f = Fraction(x)
    return str(f.numerator) if f.denominator == 1 else f"{f.numerator}/{f.denominator}"


def nums(xs):
    return [num(x) for x in xs]


def qs(xs):
    return [q(x) for x in xs]


def caught(fn, *a, **k):
    """Run code under test: {"ok": True, "v": ...} or {"ok": False, "err": type}."""
    try:
        return {"ok": True, "v": fn(*a, **k)}
    except CaseTimeout:
        raise
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, (KeyboardInterrupt, MemoryError)) and not isinstance(e, MemoryError):
            raise
        kinds = [c.__name__ for c in type(e).__mro__ if c not in (object, BaseException)]
        return {"ok": False, "err": type(e).__name__, "kinds": kinds, "msg": str(e)[:200]}


class CaseTimeout(BaseException):
    pass


# ---------------------------------------------------------------- TLC
_classes = None


def classes() -> Path:
    global _classes
    if _classes is None:
        out = TMP / "classes"
        out.mkdir(exist_ok=True)
        src = [str(p) for p in sorted((VERIF / "java").glob("*.java"))]
        r = subprocess.run(["javac", "-nowarn", "-cp", TLA, "-d", str(out), *src], capture_output=True, text=True)
        if r.returncode:
            raise Infra("javac: " + r.stderr)
        _classes = out
    return _classes


_n = 0


def tlc(module: str, cfg: str, env: dict | None = None, workers: int = 8, extra: list[str] | None = None,
        timeout: int = 3000, heap: str = "6g"):
    """Run TLC on spec/<module>.tla with the given cfg text; returns stats and output lines."""
    global _n
    _n += 1
    d = TMP / f"tlc{_n}"
    d.mkdir()
    for p in (VERIF / "spec").glob("*.tla"):
        (d / p.name).symlink_to(p)
    (d / f"{module}.cfg").write_text(cfg)
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={d}",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:Guard", "-cp", f"{classes()}:{TLA}", "tlc2.TLC",
           "-workers", str(workers), "-metadir", str(d / "meta"), "-noGenerateSpecTE", "-deadlock",
           "-config", f"{module}.cfg", *(extra or []), f"{module}.tla"]
    t0 = time.time()
    out = d / "out.txt"
    with open(out, "w") as f:
        try:
            r = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout,
                               env={**os.environ, **(env or {})})
        except subprocess.TimeoutExpired:
            raise Infra(f"TLC timeout on {module}")
    text = out.read_text(errors="replace")
    m = re.search(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", text)
    st = {"rc": r.returncode, "generated": int(m[1]) if m else 0, "distinct": int(m[2]) if m else 0,
          "wall": time.time() - t0, "text": text}
    shutil.rmtree(d, ignore_errors=True)
    return st


def tlc_must(module, cfg, **kw):
    r = tlc(module, cfg, **kw)
    if r["rc"] != 0 or "Error:" in r["text"]:
        i = r["text"].find("Error:")
        raise Infra(f"TLC failed on {module} (rc {r['rc']}):\n" + (r["text"][i:i + 3000] if i >= 0 else r["text"][-3000:]))
    return r


def printed(text: str, mark: str):
    """The JSON values TLC printed with PrintT(mark \\o ToJson(x))."""
    for line in text.split("\n"):
        if line.startswith('"' + mark):
            yield json.loads(json.loads(line)[len(mark):])


class Model:
    """Result of a TLC run over a model that prints its behaviours with PrintT("##" \\o ToJson(x))."""

    def __init__(self, module, cfg, **kw):
        r = tlc_must(module, cfg, **kw)
        self.generated, self.distinct, self.wall = r["generated"], r["distinct"], r["wall"]
        self.out = list(printed(r["text"], "##"))


def judge(module: str, traces: list[dict], consts: str = "", env=None):
    """TLC-validate traces with judge module <module>; returns (fails, hits, stats)."""
    f = TMP / f"trace-{module}-{len(traces)}-{time.time_ns()}.ndjson"
    with open(f, "w") as fh:
        for tr in traces:
            fh.write(json.dumps(tr, ensure_ascii=True) + "\n")
    cfg = ("INIT TrInit\nNEXT TrNext\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  TStart <- Start\n  TStep <- Step\n"
           "  TClauses <- Clauses\n" + consts)
    r = tlc(module, cfg, env={"VERIF_TRACE": str(f), **(env or {})})
    os.unlink(f)
    if r["rc"] != 0 or "Error:" in r["text"]:
        i = r["text"].find("Error:")
        raise Infra(f"trace validation with {module} failed:\n" + (r["text"][i:i + 3000] if i >= 0 else r["text"][-2000:]))
    fails, hits, seen = [], {}, 0
    for v in printed(r["text"], "@@"):
        seen += 1
        for h in v["h"]:
            hits[h] = hits.get(h, 0) + 1
        for n, verdict in v["b"]:
            fails.append({"t": v["t"] - 1, "k": v["k"] - 1, "clause": n, "verdict": verdict})
    want = sum(len(tr["ev"]) for tr in traces)
    if seen != want:
        raise Infra(f"{module}: {seen} of {want} events were judged")
    return fails, hits, r


# ---------------------------------------------------------------- running cases
_RUN = None
_LIMIT = 60
ROOM = 3.2e9  # bytes of address space each worker may add


def _alarm(*_):
    raise CaseTimeout()


def _work(item):
    i, case = item
    import warnings

    warnings.simplefilter("ignore")
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(_LIMIT)
    try:
        ev = _RUN(case)
        return i, ev, None
    except CaseTimeout:
        return i, [{"op": "timeout", "in": {}, "out": {"ok": False, "err": "timeout"}}], None
    except BaseException as e:  # noqa: BLE001  the code under test failed where the driver did not expect it to
        tb = traceback.format_exc()
        return i, [{"op": "crash", "in": {}, "out": {"ok": False, "err": type(e).__name__, "tb": tb[-3000:]}}], None
    finally:
        signal.alarm(0)
        try:
            import matplotlib.pyplot as plt

            plt.close("all")
        except Exception:  # noqa: BLE001
            pass


def _cap(room=3.2e9):
    """Give a worker that much beyond what it has, so that runaway memory is an error of the case and not of the sandbox."""
    import resource

    with open("/proc/self/statm") as fh:
        now = int(fh.read().split()[0]) * resource.getpagesize()
    _, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (now + int(room), hard))


def execute(cases, run, limit=60, workers=8):
    """Run every case in worker processes; returns the list of event lists."""
    global _RUN, _LIMIT
    _RUN, _LIMIT = run, limit
    out = [None] * len(cases)
    errs = []
    todo = list(enumerate(cases))
    import multiprocessing as mp

    ctx = mp.get_context("fork")
    with ProcessPoolExecutor(workers, mp_context=ctx, initializer=_cap, initargs=(ROOM,)) as ex:
        try:
            for i, ev, err in ex.map(_work, todo, chunksize=max(1, min(20, len(todo) // (workers * 4)))):
                out[i] = ev
                if err:
                    errs.append((i, err))
        except BrokenProcessPool:
            raise Infra("a worker process died")
    if errs:
        i, err = errs[0]
        raise Infra(f"case {i} could not be run: {json.dumps(cases[i])[:500]}\n{err}")
    return out


# ---------------------------------------------------------------- property runner
class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random(f"{pid}-{seed}")
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.fails, self.hits, self.samples, self.notes = [], {}, [], {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def model(self, module, cfg, **kw):
        m = Model(module, cfg, **kw)
        self.states += m.distinct
        self.transitions += m.generated
        self.notes.setdefault("models", []).append(
            {"module": module, "distinct_states": m.distinct, "transitions": m.generated, "behaviours": len(m.out)})
        return m

    def run(self, judge_module, cases, run, limit=60, tag=None, batch=4000):
        """Run the real code on cases, then let TLC judge the recorded events."""
        t1 = time.time()
        evs = execute(cases, run, limit)
        t2 = time.time()
        for a in range(0, len(cases), batch):
            part = evs[a:a + batch]
            traces = [{"id": a + i, "ev": ev} for i, ev in enumerate(part)]
            fails, hits, r = judge(judge_module, traces)
            self.states += r["distinct"]
            self.transitions += r["generated"]
            for h, n in hits.items():
                self.hits[h] = self.hits.get(h, 0) + n
            for f in fails:
                c = cases[a + f["t"]]
                self.fails.append({"judge": judge_module, "clause": f["clause"], "verdict": f["verdict"], "case": c,
                                   "event": part[f["t"]][f["k"]], "k": f["k"]})
        self.traces += len(cases)
        self.events += sum(len(e) for e in evs)
        if cases:
            self.samples.append({"judge": judge_module, "case": _short(cases[0]), "event": _short(evs[0][-1] if evs[0] else {})})
        self.notes.setdefault("runs", []).append({"judge": judge_module, "tag": tag or "", "traces": len(cases),
                                                  "events": sum(len(e) for e in evs), "exec_s": round(t2 - t1, 1),
                                                  "judge_s": round(time.time() - t2, 1)})
        return evs

    # ---- outcome
    def finish(self, level="model_checking"):
        known = load_known(self.pid)
        for old_replay in (VERIF / "replays").glob(f"{self.pid}-*.json"):
            old_replay.unlink()
        new, old = [], {}
        for f in self.fails:
            key = next((k for k in known if matches(k, f)), None)
            if key is None:
                new.append(f)
            else:
                old.setdefault(key["text"], []).append(f)
        for text in old:
            print(f"KNOWN-FINDING: property={self.pid} {text}")
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {
                "states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                "samples": self.samples[:6] or ["none"], "events_judged": self.events,
                "obligations_exercised": dict(sorted(self.hits.items())), **self.notes,
            },
            "wall_s": round(time.time() - self.t0, 2),
        }
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.pid}.json").write_text(json.dumps(ev, indent=1, default=str))
        if not new:
            print(f"OK property={self.pid} tier={self.tier} traces={self.traces} events={self.events} "
                  f"states={self.states} wall={time.time() - self.t0:.1f}s")
            return 0
        d = VERIF / "replays"
        d.mkdir(exist_ok=True)
        seen = {}
        for f in new:
            seen.setdefault(f["clause"], []).append(f)
        for i, (clause, fs) in enumerate(seen.items()):
            fs.sort(key=lambda f: len(json.dumps(f["case"], default=str)))
            path = d / f"{self.pid}-{i}.json"
            path.write_text(json.dumps({"property": self.pid, "clause": clause, "count": len(fs), "seed": self.seed,
                                        "first": fs[0], "more": [_short(f["case"]) for f in fs[1:4]]}, indent=1,
                                       default=str))
            print(f"VIOLATION property={self.pid} replay={path} clause={clause} verdict={fs[0]['verdict']} cases={len(fs)}")
        return 1


def _short(x):
    s = json.dumps(x, default=str)
    return json.loads(s) if len(s) < 1500 else s[:1500] + "..."


def load_known(pid):
    f = VERIF / "known_findings.jsonl"
    out = []
    if f.exists():
        for line in f.read_text().splitlines():
            line = line.strip()
            if line and not line.startswith("#"):
                r = json.loads(line)
                if r.get("property") == pid and r.get("status") == "known":
                    out.append(r)
    return out


def matches(k, f):
    if k["clause"] != f["clause"]:
        return False
    case = f["case"]
    return all(json.dumps(case.get(a)) == json.dumps(b) for a, b in k["case"].items())
