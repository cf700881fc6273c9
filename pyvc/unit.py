"""Verification units: one symbolic exploration of the real code with its obligations."""
import os
import sys
import time
import traceback

from . import core, terms as tm
from .core import W, Unsupported, Failed, TooMany
from .prove import Obl, prove, prove_eq, holds

SRC = os.path.join(os.environ.get("RT1_REPO", "/repo"), "src", "rt1_model")


class Trace:
    """records the functions of the repository that are executed."""
    TOOL = 4

    def __enter__(self):
        self.seen = set()
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "pyvc")

        def start(code, off):
            if code.co_filename.startswith(SRC):
                q = code.co_qualname
                if "_vc_" not in q and "<lambda>" not in q and q != "<module>":
                    self.seen.add(os.path.basename(code.co_filename) + ":" + q.replace(".<locals>", ""))
            return m.DISABLE
        m.register_callback(self.TOOL, m.events.PY_START, start)
        m.set_events(self.TOOL, m.events.PY_START)
        m.restart_events()
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.register_callback(self.TOOL, m.events.PY_START, None)
        m.free_tool_id(self.TOOL)


class Enough(core.Stop):
    """enough failed obligations: the rest of the unit is not explored"""


class Unit:
    """setup(): run once (loads the package, states preconditions) and returns a context;
    body(ctx): executed for every path, returns a list of obligations (within the path)."""

    def __init__(self, name, setup, body, contracts=(), min_obls=1, auto=None, allow=(), limit=None, assume=()):
        self.name, self.setup, self.body, self.contracts = name, setup, body, tuple(contracts)
        self.bounded = None
        self.min_obls, self.auto, self.allow, self.limit, self.assume = min_obls, auto, allow, limit, tuple(assume)

    def run(self):
        t0 = time.time()
        core.reset()
        core.STATS.update(z3_queries=0, z3_time=0.0, unknown=0)
        W.auto = self.auto
        obls, paths, files = [], 0, {}
        with Trace() as tr:
            try:
                ctx = self.setup()
                files = getattr(ctx, "files", {}) or {}
                failed = []

                def body():
                    r = self.body(ctx)
                    failed.extend(o for o in r or () if o.status != "proved")
                    if len(failed) > 12:
                        raise Enough()
                    return r
                res = W.explore(body, limit=self.limit)
                for i, (pc, taken, r) in enumerate(res):
                    if r[0] == "ret":
                        if r[1] is None:
                            continue
                        paths += 1
                        obls += r[1]
                    elif r[0] == "fail":
                        paths += 1
                        obls.append(Obl(f"{self.name}: {r[1].name}", "refuted", "engine", f"{r[1].detail}\nunder {taken}"))
                    else:
                        e = r[1]
                        if isinstance(e, self.allow) if self.allow else False:
                            paths += 1
                            continue
                        paths += 1
                        tb = "".join(traceback.format_exception(e)[-6:])
                        obls.append(Obl(f"{self.name}: no exception", "refuted", "engine", f"{type(e).__name__}: {e}\nunder {taken}\n{tb}"))
            except Enough:
                obls += failed
            except Unsupported as e:
                obls += failed
                obls.append(Obl(f"{self.name}: within reach of the verifier", "unknown", "engine", f"unsupported: {e}\n" + where(e)))
            except TooMany as e:
                obls.append(Obl(f"{self.name}: number of paths", "unknown", "engine", str(e)))
            except Failed as e:
                obls.append(Obl(f"{self.name}: {e.name}", "refuted", "engine", e.detail + "\n" + where(e)))
            except Exception as e:
                obls.append(Obl(f"{self.name}: verifier", "unknown", "engine", f"{type(e).__name__}: {e}\n" + where(e)))
        good = sum(o.status == "proved" for o in obls)
        if good < self.min_obls and all(o.status == "proved" for o in obls):
            obls.append(Obl(f"{self.name}: not vacuous", "unknown", "engine", f"{good} obligations on {paths} paths"))
        return {"unit": self.name, "paths": paths, "obligations": [o.json() for o in obls], "secs": round(time.time() - t0, 3),
                "functions": sorted(tr.seen), "contracts": list(self.contracts), "assume": list(self.assume), "bounded": self.bounded,
                "z3": dict(core.STATS), "decisions": W.decisions, "files": files}


def where(e):
    """the lines of the verified code where an exception was raised."""
    out = []
    for f in traceback.extract_tb(e.__traceback__):
        if f.filename.startswith(SRC):
            out.append(f"{os.path.basename(f.filename)}:{f.lineno} in {f.name}: {f.line}")
    tail = traceback.extract_tb(e.__traceback__)[-3:]
    return "\n".join(out[-6:] + [f"({os.path.basename(f.filename)}:{f.lineno} {f.name})" for f in tail])
