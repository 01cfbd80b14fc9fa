"""Discharge one contract."""
import time
import traceback
from . import terms as T
from . import solve as S
from .ctx import CTX, Unsupported, Infeasible, SpecSkip
from .symenv import SymEnv, guarded
from . import loader


def run_contract(c, budget=240, tier="quick"):
    CTX.reset()
    t0 = time.time()
    CTX.lazy_abs = c.opts.get("lazy_abs", False)
    CTX.lazy_exists = c.opts.get("lazy_exists", False)
    CTX.nofeas = c.opts.get("nofeas", False)
    CTX.deadline = t0 + budget
    E = SymEnv(c.name + ".", tier)
    status, why = "ok", ""
    for k in S.STATS:
        S.STATS[k] = 0
    with loader.Reach() as reach:
        try:
            loader.purge()
            CTX.explore(lambda: guarded(lambda: c.fn(E)))
        except Unsupported as e:
            status, why = "unsupported", "%s\n%s" % (e, traceback.format_exc(limit=-8))
        except T.TermTooBig:
            status, why = "unsupported", "terms too big"
        except RecursionError:
            status, why = "unsupported", "recursion limit"
        except Exception as e:
            status, why = "engine-error", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-12))
    return {"contract": c.id, "status": status, "why": why, "obls": CTX.obls, "paths": CTX.npaths,
            "time": time.time() - t0, "stats": dict(S.STATS), "functions": sorted(reach.seen)}
