"""Step pipelines: every stage sees the right version of the state, time and counter advance once."""
from .groups import *
from .groups import group
from .pipeline import Pipeline, impure, names_in
from .obl_hydraulics import METH, ctl_args
from .obl_quality import QMETH, qonto

CLS = 'nSuperLink'
STAGES = list(METH) + ['compute_flow_regime', 'exit_conditions', 'solve_critical_depth', 'solve_exit_hydraulics', 'solve_internals_lsq', 'solve_internals_nnls']
FINAL = [a for v, _ in METH.values() for a in v.split()] + ['t', 'iter_count', '_Q_in', '_Q_0Ik']
QSTAGES = list(QMETH) + ['node_quantities']
QOBJ = {'hydraulics': ('nSuperLink', 'hyd')}
QFINAL = [a for v, _ in QMETH.values() for a in v.split()]
STATES = 't H_j h_Ik Q_ik Q_uk Q_dk x_Ik Q_o Q_w Q_p A_ik A_uk A_dk A_sj V_j'.split()


def qsargs():
    return {'_dt': sym('dt'), 'c_bc': garr('c_bc', 'j'), '_Q_0j': garr('Q_0j_in', 'j'), '_c_0j': garr('c_0j_in', 'j'), '_c_0Ik': garr('c_0Ik_in', 'Ik'), '_Q_0Ik': garr('Q_0Ik_in', 'Ik')}


def sargs():
    d = {'_dt': sym('dt'), 'dt': sym('dt'), 'H_bc': garr('H_bc', 'j'), '_Q_0j': garr('Q_0j_in', 'j'), '_Q_0Ik': garr('Q_0Ik_in', 'Ik')}
    return d


_PL = {}


def pipeline(repo):
    if id(repo) not in _PL:
        p = Pipeline(repo, CLS, [], {})
        from .pipeline import Stage
        for m in STAGES:
            if repo.find_method(CLS, m) is None:
                raise Vanished('%s.%s' % (CLS, m))
            a = sargs()
            if 'orifice' in m or 'weir' in m or 'pump' in m:
                a['u'] = garr('u_in', 'w' if 'weir' in m else 'p' if 'pump' in m else 'o')
            p.stages[m] = Stage(repo, CLS, m, a)
        p.written = set(FINAL)
        for s in p.stages.values():
            p.written |= set(s.out)
        _PL[id(repo)] = p
    return _PL[id(repo)]


def qpipeline(repo):
    k = (id(repo), 'q')
    if k not in _PL:
        _PL[k] = Pipeline(repo, 'QualityBuilder', QSTAGES, qsargs(), onto=qonto(), objs=QOBJ, extra=QFINAL)
    return _PL[k]


def scenario(method='b', exit_=False, damping=False, controls=True):
    pre = {'_method': method, '_exit_hydraulics': exit_, 'inertial_damping': damping}
    facts = []
    for k, n in (('orifices', 'o'), ('weirs', 'w'), ('pumps', 'p')):
        if controls:
            e = mk('ext', 'attr', mk('ext', 'obj', 'self'), k)
            pre[k] = Ext(e)
            facts += [(batom("isnone", e), False), (sg(Ns(n), {1}), True), (sg(Ns(n), {0}), False)]
        else:
            pre[k] = None
            pre['n_' + n] = ZERO
            facts += [(sg(Ns(n), {0}), True)]
    return pre, facts


def step_args(**over):
    a = {'H_bc': garr('H_bc', 'j'), 'Q_in': garr('Q_in', 'j'), 'Q_0Ik': garr('Q_0Ik_in', 'Ik'), 'u_o': garr('u_o', 'o'), 'u_w': garr('u_w', 'w'), 'u_p': garr('u_p', 'p'), 'dt': sym('dt'), 'banded': False}
    a.update(over)
    return a


def state_val(e, k):
    d = e.eng.getattr(e.self, 'states', e.st, None)
    h = e.st.heap[d.loc]
    if k in h.d:
        return e.value(h.d[k])
    v = e.eng.onto.dict_item(h.base, k)
    return e.value(v) if v is not None else None


def cmp_vals(name, where, va, vs):
    if va is None or vs is None:
        return Result(name, 'ok' if va is vs else 'undecided', where, 'not modelled')
    if not (isinstance(va, tuple) and len(va) == 2 and isinstance(vs, tuple) and len(vs) == 2):
        return Result(name, 'ok' if va == vs else 'undecided', where, 'value of a kind the analysis does not model')
    if va[1] is vs[1]:
        return Result(name, 'ok', where)
    if impure(va[1]):
        return Result(name, 'undecided', where, 'the step computes this outside the stages')
    if len(va[0]) != len(vs[0]):
        return Result(name, 'undecided', where, 'rank differs')
    r = compare_terms(va[1], vs[1])
    if r.kind == 'diff':
        d = why(va[1], vs[1])
        return Result(name, 'violation', where, d or fmt(r))
    return Result(name, 'ok' if r.kind == 'zero' else 'undecided', where, '' if r.kind == 'zero' else fmt(r))


def leaves(n):
    """alternatives of a value decided by a run-time test"""
    at = as_atom(n)
    if at is not None and at.kind == 'ite':
        return leaves(at.args[1]) + leaves(at.args[2])
    return [n]


def cmp_alts(name, where, va, refs, facts=()):
    """every alternative of va is one of the reference values"""
    bad = None
    st = State({}, {})
    for c, v in facts:
        new_engine(None).learn(st, c, v)
    f = st.facts
    va = (va[0], rewrite(va[1], {}, f))
    refs = [(r[0], rewrite(r[1], {}, f)) for r in refs]
    for x in leaves(va[1]):
        rs = [cmp_vals(name, where, (va[0], x), r) for r in refs]
        if any(r.status == 'ok' for r in rs):
            continue
        r = ([r for r in rs if r.status == 'undecided'] or rs)[0]
        if bad is None or r.status == 'violation':
            bad = r
    return bad or Result(name, 'ok', where)


def stage_atoms(n):
    return {(a.args[0][6:], a.args[1]): a for a in all_atoms(n) if a.kind == 'opq' and isinstance(a.args[0], str) and a.args[0].startswith('stage:')}


def why(a, s):
    """innermost stage value that differs"""
    def top(n):
        at = as_atom(n)
        return at if at is not None and at.kind == 'opq' else None
    x, y = top(a), top(s)
    if x is None or y is None:
        return 'the value is %s, expected %s' % (short(a), short(s))
    if x.args[:2] != y.args[:2]:
        return 'the value is the one %s left, expected that of %s' % (x.args[0][6:], y.args[0][6:])
    dx, dy = dict(x.args[2]), dict(y.args[2])
    for p in dx:
        if dx[p] is not dy.get(p):
            return '%s is called with a different argument %s: %s, expected %s' % (x.args[0][6:], p, short(dx[p]), short(dy.get(p)))
    dx, dy = dict(x.args[3]), dict(y.args[3])
    for n in dx:
        if dx[n] is not dy.get(n):
            bx, by = body(dx[n]), body(dy.get(n))
            if bx is not None and by is not None:
                w = why(bx, by)
                if w and 'the value is' not in w:
                    return w
            return '%s reads a different version of %s: %s, expected %s' % (x.args[0][6:], n, short(dx[n]), short(dy.get(n)))
    return ''


def body(n):
    if isinstance(n, N) and n.kind == 'ext' and n.args[0] == 'arr':
        return lam_apply(n.args[2], *[elt(i) for i in range(len(n.args[1]))])
    return n if isinstance(n, N) and n.kind == 'poly' else None


def short(n):
    if n is None:
        return 'nothing'
    b = body(n) if isinstance(n, N) else None
    if b is not None:
        at = as_atom(b)
        if at is not None and at.kind == 'opq':
            return 'the value %s computed in %s' % (at.args[1], at.args[0][6:])
        if at is not None and at.kind == 'sel':
            return 'the value of %s before' % at.args[0]
    return repr(n)[:120]


def run_pair(repo, method, args, pre, facts, spec='SpecStep', cls=CLS):
    pl = pipeline(repo)
    ov = pl.overrides()
    ea = run_method(repo, cls, method, args, pre=pre, facts=facts, overrides=ov)
    es = run_method(repo, spec, method, args, pre=pre, facts=facts, overrides=ov)
    if es.eng.unmodelled:
        raise RuntimeError('reference step unmodelled: %s' % es.eng.unmodelled[:3])
    return ea, es


def step_obligations(repo, out, tag, args, pre, facts, method='step', final=FINAL, states=STATES):
    wh = where_method(repo, CLS, method)
    ea, es = run_pair(repo, method, args, pre, facts)
    rs = []
    n = 'controls' if pre.get('orifices') is not None else ''
    for a in final:
        if a in ('A', 'O', 'W', 'P', 'b') and False:
            continue
        rs.append(cmp_vals('%s.%s[%s] -> %s' % (CLS, method, tag, a), wh, ea.get(a), es.get(a)))
    for k in states:
        rs.append(cmp_vals('%s.%s[%s] -> states[%s]' % (CLS, method, tag, k), wh, state_val(ea, k), state_val(es, k)))
    # what the step leaves in attributes no stage writes
    out.add(rs, ea.eng.unmodelled, ['%s.%s' % (CLS, method), CLS + '._setup_step', CLS + '._solve_step', CLS + '.save_state'])


@group('step.iterations', 'C03 C10 C26 C11')
def _iter(repo, out):
    """repeated passes: the outcome is that of one pass, or of a further pass from the same saved state"""
    pre, facts = scenario()
    wh = where_method(repo, CLS, 'step')
    for n in (2, 3):
        ea, e1 = run_pair(repo, 'step', step_args(num_iter=const(n)), pre, facts)
        refs = [run_method(repo, 'SpecStep', 'step', step_args(num_iter=const(i)), pre=pre, facts=facts, overrides=pipeline(repo).overrides()) for i in range(1, n + 1)]
        for a in FINAL:
            va = ea.get(a)
            nm = '%s.step[up to %d iterations] -> %s' % (CLS, n, a)
            if not (isinstance(va, tuple) and len(va) == 2 and isinstance(va[1], N)):
                out.add([Result(nm, 'undecided', wh, 'value of a kind the analysis does not model')])
                continue
            out.add([cmp_alts(nm, wh, va, [r.get(a) for r in refs], facts)])
        for k in STATES:
            va = state_val(ea, k)
            nm = '%s.step[up to %d iterations] -> states[%s]' % (CLS, n, k)
            if va is not None and isinstance(va, tuple):
                out.add([cmp_alts(nm, wh, va, [state_val(refs[0], k)], facts)])
        out.add([], ea.eng.unmodelled, [CLS + '.step'])


SCEN = {
    'default': (dict(), dict()),
    'banded': (dict(), dict(banded=True)),
    'no control structures': (dict(controls=False), dict()),
    'forward sweep': (dict(method='f'), dict()),
    'least squares': (dict(method='lsq'), dict()),
    'non-negative least squares': (dict(method='nnls'), dict()),
    'inertial damping': (dict(damping=True), dict()),
    'exit hydraulics': (dict(exit_=True), dict()),
    'default time step': (dict(), dict(dt=None)),
    'inputs omitted': (dict(), dict(H_bc=None, Q_in=None, Q_0Ik=None, u_o=None, u_w=None, u_p=None)),
    'not the first iteration': (dict(), dict(first_iter=False)),
}


def mk_s(tag, sc, over):
    @group('step.%s' % tag, 'C03 C10 C26 C01')
    def g(repo, out):
        pre, facts = scenario(**sc)
        step_obligations(repo, out, tag, step_args(**over), pre, facts)


for _t, (_s, _o) in SCEN.items():
    mk_s(_t, _s, _o)


QSCEN = {
    'default': dict(),
    'default time step': dict(dt=None),
    'inputs omitted': dict(c_bc=None, c_0j=None, Q_0j=None, c_0Ik=None, Q_0Ik=None),
}


def mk_q(tag, over):
    @group('quality step.%s' % tag, 'C21 C22 C10')
    def g(repo, out):
        ov = qpipeline(repo).overrides()
        args = dict(dt=sym('dt'), c_bc=garr('c_bc', 'j'), c_0j=garr('c_0j', 'j'), Q_0j=garr('Q_0j', 'j'), c_0Ik=garr('c_0Ik', 'Ik'), Q_0Ik=garr('Q_0Ik', 'Ik'))
        args.update(over)
        ea = run_method(repo, 'QualityBuilder', 'step', args, overrides=ov, onto=qonto(), objs=QOBJ)
        es = run_method(repo, 'SpecQStep', 'step', args, overrides=ov, onto=qonto(), objs=QOBJ)
        if es.eng.unmodelled:
            raise RuntimeError('reference step unmodelled: %s' % es.eng.unmodelled[:3])
        wh = where_method(repo, 'QualityBuilder', 'step')
        out.add([cmp_vals('QualityBuilder.step[%s] -> %s' % (tag, a), wh, ea.get(a), es.get(a)) for a in QFINAL], ea.eng.unmodelled, ['QualityBuilder.step'])


for _t, _o in QSCEN.items():
    mk_q(_t, _o)
