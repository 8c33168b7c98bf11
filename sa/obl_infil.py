"""Infiltration: one step of the soil model against its per-element reference."""
from .groups import *
from .groups import group
from .ontology import Onto
from . import terms as T
from .obl_geometry import cmp_vals, run_classmethod, val, wf
from .run import run_func

NUM = 'd F f T theta_du theta_d Ks Lu Tr psi_f kr theta_dmax A_s theta_s theta_i Q'.split()
STATE = 'F f T theta_du theta_d is_saturated Q d iter_count t'.split()


def ionto():
    o = Onto()
    for a in NUM:
        o.extra[('self', a)] = garr('soil.' + a, 'e')
    o.extra[('self', 'is_saturated')] = garr('soil.is_saturated', 'e', kind='bool')
    o.extra[('self', 'N')] = Ns('e')
    return o


def root_of(eng, st, g):
    """the value at which the function g vanishes"""
    x = mk('loop', 'root%d' % eng.nloop)
    eng.nloop += 1
    r = eng.scalar(g(A(x)), st)
    if r is None:
        return Poison('root of an unmodelled function')
    (bv,), (b,) = close([x], r)
    return A(mk('fn', 'root', mk('lam', (bv,), b)))


def solve_for(eng, st, args, kw, node):
    return root_of(eng, st, lambda x: eng.call(args[0], [x], {}, st, node))


def extra_args(eng, v, st):
    if isinstance(v, Ref) and isinstance(st.heap[v.loc], ListV):
        return list(st.heap[v.loc].xs)
    return list(v) if isinstance(v, tuple) else None


def newton(spread, pairs):
    def derivative(eng, st, args, kw, node, call):
        df = kw.get('fprime', kw.get('df', args[{'newton': 2}.get(spread, 1)] if len(args) > {'newton': 2}.get(spread, 1) else None))
        if df is None:
            return
        x = mk('loop', 'at%d' % eng.nloop)
        eng.nloop += 1
        a, b = eng.scalar(call(args[0], A(x)), st), eng.scalar(call(df, A(x)), st)
        if a is not None and b is not None:
            pairs.append(('%s:%d' % (eng.curfile[-1], node.lineno), T.diff(eng.num(a), x), eng.num(b)))

    def f(eng, st, args, kw, node):
        a = kw.get('args')
        if a is None:
            a = args[{'newton': 3, 'newton_raphson': 3, 'bounded_newton_raphson': 5}[spread]]
        if spread == 'newton':
            xs = extra_args(eng, a, st)
            if xs is None:
                return Poison('arguments of the root finder')
            derivative(eng, st, args, kw, node, lambda g, x: eng.call(g, [x] + xs, {}, st, node))
            return root_of(eng, st, lambda x: eng.call(args[0], [x] + xs, {}, st, node))
        derivative(eng, st, args, kw, node, lambda g, x: eng.call(g, [x, a], {}, st, node))
        r = root_of(eng, st, lambda x: eng.call(args[0], [x, a], {}, st, node))
        if spread == 'bounded_newton_raphson' and isinstance(r, N):
            # a search confined to a bracket cannot return a root outside it
            lo, hi = (eng.scalar(v, st) if v is not None else None for v in (kw.get('x_lb', args[3] if len(args) > 3 else None), kw.get('x_ub', args[4] if len(args) > 4 else None)))
            if lo is None or hi is None:
                return Poison('bracket of the root finder')
            r = T.minv(T.maxv(r, eng.num(lo)), eng.num(hi))
        return r
    return f


def numba_any(eng, st, args, kw, node):
    from .npmodel import NP
    return NP['any'](eng, args[:1], {}, st, node, 'any')


def overrides(pairs):
    return {'numba_any': numba_any, 'solve_for': solve_for, 'scipy.optimize.newton': newton('newton', pairs),
            'newton_raphson': newton('newton_raphson', pairs), 'bounded_newton_raphson': newton('bounded_newton_raphson', pairs)}



# the accelerated version confines the search to the water available, which does not matter where the root is below that
SPECS = {'GreenAmpt': 'SpecGA', 'nGreenAmpt': 'SpecNGA'}


def mk_step(cls):
    @group('infiltration.step[%s]' % cls, 'C16 C29')
    def g(repo, out):
        pairs = []
        args = {'dt': sym('dt'), 'i': garr('soil.rain', 'e')}
        rs, un = method_obligations(repo, cls, SPECS[cls], 'step', STATE, args, onto=ionto(), overrides=overrides(pairs), protected=set(NUM + ['is_saturated']))
        out.add(rs, un, [cls + '.step'])
        seen = set()
        for wh, d, df in pairs:
            if (wh, d, df) not in seen:
                seen.add((wh, d, df))
                out.add([cmp_vals('%s root search %d uses the derivative of the equation it solves' % (cls, len(seen)), wh, ((), df), ((), d))])


for _c in ('GreenAmpt', 'nGreenAmpt'):
    mk_step(_c)


PARAMS = ('psi_f', 'Ks', 'A_s', 'theta_s', 'theta_i')
BUILT = 'N psi_f Ks A_s theta_s theta_i theta_d theta_du theta_dmax Lu kr Tr d F f T is_saturated iter_count t'.split()


@group('infiltration.constants', 'C16 C27 C29')
def _init(repo, out):
    from .tables import Table
    for cls in ('GreenAmpt', 'nGreenAmpt'):
        args = {'soil_params': Table('soil', 'e', {p: 'f' for p in PARAMS})}
        rs, un = method_obligations(repo, cls, 'SpecGA', '__init__', BUILT, args, onto=ionto())
        out.add(rs, un, [cls + '.__init__'])


@group('infiltration.suction', 'C16')
def _suction(repo, out):
    vs = [sym(x) for x in 'theta_i theta_s theta_r Ks psi_b lambda_o'.split()]
    for m in ('_s2', 'suction_head'):
        eng, st, r, _, wh = run_classmethod(repo, 'GreenAmpt', m, vs)
        e2, s2, r2, _, _ = run_classmethod(repo, 'SpecGA', m, vs)
        out.add([cmp_vals('GreenAmpt.' + m, wh, val(eng, st, r), val(e2, s2, r2))], eng.unmodelled, ['GreenAmpt.' + m])


@group('roots', 'C29 C16')
def _roots(repo, out):
    """the root searches, for any function: the first steps of the iteration (start, step taken, stopping rule, bracket kept) as stated by the reference"""
    F, DF = Ext(mk('ext', 'obj', 'f')), Ext(mk('ext', 'obj', 'df'))
    for mod, fn, ref, spread in (('utils', 'bounded_newton_raphson', 'bounded_root', True), ('nutils', 'bounded_newton_raphson', 'bounded_root', False), ('nutils', 'newton_raphson', 'newton_root', False)):
        for n in (1, 2):
            ends = [sym('lb'), sym('ub')] if fn.startswith('bounded') else []
            base = [F, DF, sym('x0')] + ends
            rest = [const(n), A(mk('sym', 'pos', 'tol'))]
            e, st, r, _ = run_func(repo, 'pipedream_solver.' + mod, fn, base + [ListV([sym('p')]) if spread else sym('p')] + rest)
            e2, st2, want, _ = run_func(repo, 'spec.infiltration', ref, base + [sym('p')] + rest)
            nm, wh = '%s.%s: %d step%s' % (mod, fn, n, 's' * (n > 1)), wf(repo, 'pipedream_solver.' + mod, fn)
            if not isinstance(r, N) or not isinstance(want, N):
                out.add([Result(nm, 'undecided', wh, 'not modelled: %s' % (r,))], e.unmodelled)
                continue
            d = compare_terms(r, want)
            out.add([Result(nm, {'zero': 'ok', 'diff': 'violation', 'unknown': 'undecided'}[d.kind], wh, '' if d.kind == 'zero' else fmt(d))], e.unmodelled, ['%s.%s' % (mod, fn)])
