"""Executes one plan (or a list of plans in one process) and classifies the outcome."""
import importlib
import json
import os
import random
import signal
import sys

from . import simset
from .core import (Ctx, HangSuspect, Inapplicable, SimFault, StepLimit, Violation, blame, derive)

STEP_LIMIT = 25_000_000
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def scenario(prop):
    return importlib.import_module(f"sim.scen.{prop.lower()}")


def known_findings(prop):
    path = os.path.join(HERE, "known_findings.json")
    with open(path) as f:
        d = json.load(f)
    return {k["signature"]: k["text"] for k in d["findings"] if k["property"] == prop}


def _alarm(signum, frame):
    raise HangSuspect()


def execute(mod, plan, limited=False, wall=None, known=None):
    """Returns (status, info, ctx); status: ok, violation, error, hang, inapplicable."""
    import numpy as np
    ctx = Ctx(step_limit=STEP_LIMIT if limited else None)
    ctx.listed = known_findings(mod.PROP) if known is None else known
    simset.reset(plan.get("salt", 0))
    np.random.seed(derive("np", plan.get("salt", 0)) & 0xFFFFFFFF)
    random.seed(derive("py", plan.get("salt", 0)))
    if wall:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(wall)
    try:
        try:
            if limited:
                from .trace import Steps
                with Steps(ctx, limit=STEP_LIMIT):
                    mod.run(plan, ctx)
            else:
                mod.run(plan, ctx)
            return "ok", None, ctx
        finally:
            sys.settrace(None)
            if wall:
                signal.alarm(0)
    except Violation as v:
        return "violation", {"kind": v.kind, "msg": v.msg}, ctx
    except StepLimit as e:
        return "violation", {"kind": "liveness", "msg": f"no progress: {e}"}, ctx
    except HangSuspect:
        return "hang", None, ctx
    except Inapplicable as e:
        return "inapplicable", {"msg": str(e)}, ctx
    except (KeyboardInterrupt, SystemExit) as e:
        if isinstance(e, SimFault):
            return "violation", {"kind": "escaped fault", "msg": repr(e)}, ctx
        raise
    except BaseException as e:
        w = blame(e)
        if w is not None:
            return "violation", {"kind": f"exception {type(e).__name__}", "msg": f"{type(e).__name__}: {e} (in {w})"}, ctx
        import traceback
        return "error", {"msg": "".join(traceback.format_exception(e))[-4000:]}, ctx


def plan_for(mod, seed, i, tier):
    from .core import Rng
    rng = Rng(derive(seed, mod.PROP, i))
    plan = mod.gen(rng, tier)
    if "salt" not in plan:
        plan["salt"] = rng.randrange(1, 2 ** 31)
    return json.loads(json.dumps(plan))
