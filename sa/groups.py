"""Registry of obligation groups.  A group yields Results; every group serves one or more properties."""
import os, time, traceback
from .oblig import *
from .dump import argmap

GROUPS = []   # (name, props, fn)


def group(name, props):
    def deco(fn):
        GROUPS.append((name, props.split(), fn))
        return fn
    return deco


class Out:
    def __init__(self):
        self.results = []
        self.unmodelled = []
        self.functions = set()

    def add(self, rs, un=(), fns=()):
        self.results += rs
        self.unmodelled += list(un)
        self.functions |= set(fns)


def run_group(i, root):
    """executed in a worker process: [name, [(name,status,where,detail)], unmodelled, functions, seconds]"""
    name, props, fn = GROUPS[i]
    t = time.time()
    out = Out()
    try:
        fn(get_repo(root), out)
    except Vanished as e:
        out.results.append(Result('%s: anchor %s' % (name, e), 'undecided', str(e), 'the routine the obligation is stated on is gone'))
    except (Unsupported, TooBig, RecursionError) as e:
        out.results.append(Result('%s: analysis' % name, 'undecided', '', 'the analysis does not model this code: %s %s' % (type(e).__name__, str(e)[:200])))
    except SyntaxError as e:
        out.results.append(Result('%s: parse' % name, 'undecided', '', 'source does not parse: %s' % e))
    except Exception as e:
        if os.environ.get('SA_DEV'):
            raise
        out.results.append(Result('%s: analysis' % name, 'undecided', '', 'internal error of the analysis: %s' % traceback.format_exc()[-300:]))
    return name, [(r.name, r.status, r.where, r.detail) for r in out.results], [str(u)[:200] for u in out.unmodelled], sorted(out.functions), round(time.time() - t, 2)


_REPO = {}


def get_repo(root):
    if root not in _REPO:
        _REPO[root] = load(root)
    return _REPO[root]


from . import obl_hydraulics, obl_geometry, obl_quality, obl_step, obl_effects, obl_bind, obl_state, obl_infil, obl_sim, obl_build   # noqa: E402,F401  (registers their groups)
