"""Cross-section formulas: every shape, both implementations, against the reference."""
from .groups import *
from .groups import group

SHAPES = {   # name: (class, number of g parameters of A, P, B)
    'Circular': (1, 1, 2), 'Rect_Closed': (2, 2, 3), 'Rect_Open': (2, 2, 2), 'Triangular': (2, 2, 2), 'Trapezoidal': (3, 3, 3),
    'Parabolic': (2, 2, 2), 'Elliptical': (2, 2, 2), 'Wide': (2, 2, 2), 'Force_Main': (2, 2, 2), 'Floodplain': (7, 7, 7)}
ND = 'pipedream_solver.ngeometry'
GD = 'pipedream_solver.geometry'


def pos(n):
    return A(mk('sym', 'pos', n))


def val(eng, st, v):
    a = eng.arr(v, st) if isinstance(v, (Ref, ArrV)) else None
    if a is not None:
        return (a.dims, a.content if a.mask is None else A(mk('poison', 'masked')))
    return ((), eng._sc(v)) if eng._sc(v) is not None else v


def cmp_vals(name, where, a, b):
    if not (isinstance(a, tuple) and isinstance(b, tuple)):
        return Result(name, 'undecided', where, 'not a value the analysis models: %r / %r' % (a, b))
    r = compare_terms(a[1], b[1])
    return Result(name, {'zero': 'ok', 'diff': 'violation', 'unknown': 'undecided'}[r.kind], where, '' if r.kind == 'zero' else fmt(r))


def wf(repo, mod, name):
    f = repo.lookup(mod, name)
    if f is None:
        raise Vanished(name)
    return '%s:%d %s' % (repo.file_of(mod), f.node.lineno, name)


def func_obligation(repo, out, mod, name, smod, sname, args, sargs=None, tag='', facts=None):
    e, st, r, _ = run_func(repo, mod, name, args, facts=facts)
    es, ss, rs, _ = run_func(repo, smod, sname, sargs or args, facts=facts)
    if es.unmodelled:
        raise RuntimeError('reference %s unmodelled: %s' % (sname, es.unmodelled[:3]))
    out.add([cmp_vals('%s.%s%s' % (mod.split('.')[-1], name, tag), wf(repo, mod, name), val(e, st, r), val(es, ss, rs))], e.unmodelled, ['%s.%s' % (mod, name)])


def run_classmethod(repo, cls, name, args, mod=GD):
    eng = new_engine(repo)
    f, m = repo.method(cls, name)
    st = State({}, {})
    eng.curmod, eng.curcls = m, cls
    eng.curfile.append(repo.file_of(m))
    vs = [eng.new_loc(v, st) if isinstance(v, ArrV) else v for v in args]
    st.ret = eng.call_func(Func(f, m, bound=ClsV(cls, m)), [ClsV(cls, m)] + vs, {}, st, f)
    return eng, st, st.ret, vs, '%s:%d %s.%s' % (repo.file_of(m), f.lineno, cls, name)


def one_shape(shape, idx, nm):
    ng = SHAPES[shape][idx]

    @group('geometry.%s.%s' % (shape, nm), 'C13 C14 C29')
    def g(repo, out):
        gs = [pos('g%d' % (i + 1)) for i in range(ng)]
        sn = '%s_%s' % (shape.lower(), {'A': 'A', 'Pe': 'P', 'B': 'B'}[nm])
        if not (shape == 'Elliptical' and nm == 'Pe'):      # no accelerated version exists
            func_obligation(repo, out, ND, '%s_%s_ik' % (shape, nm), 'spec.geometry', sn, [sym('h1'), sym('h2')] + gs)
        if shape == 'Floodplain':
            return                                          # only offered accelerated
        arrs = [garr('h1', 'ik'), garr('h2', 'ik')] + [garr('_g%d_ik' % (i + 1), 'ik') for i in range(ng)]
        if nm == 'B' and shape in ('Circular', 'Rect_Closed', 'Force_Main'):
            arrs[-1] = pos('pslot')                         # the plain version takes one slot width
        eng, st, r, vs, wh = run_classmethod(repo, shape, nm + '_ik', arrs)
        es, ss, rs, _ = run_func(repo, 'spec.geometry', sn, [a.content if isinstance(a, ArrV) else a for a in arrs])
        got = val(eng, st, r)
        ref = val(es, ss, rs)
        out.add([cmp_vals('geometry.%s.%s_ik' % (shape, nm), wh, got, ref)], eng.unmodelled, ['geometry.%s.%s_ik' % (shape, nm)])
        for a, v in zip(arrs, vs):
            if not isinstance(a, ArrV):
                continue
            w = val(eng, st, v)
            out.add([cmp_vals('geometry.%s.%s_ik leaves its argument %s unchanged' % (shape, nm, a.label), wh, w, (a.dims, a.content))])


for _s in SHAPES:
    for _i, _n in enumerate(('A', 'Pe', 'B')):
        one_shape(_s, _i, _n)


@group('geometry.radius', 'C13 C29')
def _radius(repo, out):
    for s in SHAPES:
        func_obligation(repo, out, ND, '%s_R_ik' % s, 'spec.geometry', 'radius', [sym('A'), sym('Pe')])
        if s == 'Floodplain':
            continue
        arrs = [garr('A', 'ik'), garr('Pe', 'ik')]
        eng, st, r, vs, wh = run_classmethod(repo, s, 'R_ik', arrs)
        es, ss, rs, _ = run_func(repo, 'spec.geometry', 'radius', [a.content for a in arrs])
        out.add([cmp_vals('geometry.%s.R_ik' % s, wh, val(eng, st, r), val(es, ss, rs))], eng.unmodelled, ['geometry.%s.R_ik' % s])


@group('geometry.transect', 'C13 C14')
def _transect(repo, out):
    for n in ('A', 'Pe', 'B'):
        x, y = garr('x', 'tp'), garr('y', 'tp')
        func_obligation(repo, out, ND, 'Transect_%s_ik' % n, 'spec.geometry', 'transect_%s' % n, [sym('w'), x, y])
    xp, fp = garr('xp', 'tp'), garr('fp', 'tp')
    func_obligation(repo, out, ND, 'interpolate_geometry', 'spec.geometry', 'interpolate_geometry', [sym('x'), xp, fp, const(1)], [sym('x'), xp, fp])
