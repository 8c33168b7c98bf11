"""Hydraulic routines of the superlink solver against their reference."""
from .groups import *
from .groups import group
import ast
from . import terms as T
from .ontology import Onto
from .obl_geometry import cmp_vals, val, wf
from .run import run_func

CLS = 'nSuperLink'
METH = {
    'link_hydraulic_geometry': ('_A_ik _Pe_ik _R_ik _B_ik', 'C14 C13 C27 C05'),
    'upstream_hydraulic_geometry': ('_A_uk _B_uk _Pe_uk _R_uk', 'C14 C13 C27'),
    'downstream_hydraulic_geometry': ('_A_dk _B_dk _Pe_dk _R_dk', 'C14 C13 C27'),
    'orifice_hydraulic_geometry': ('_Ao', 'C07 C14 C27'),
    'node_velocities': ('_u_ik _u_Ik _u_Ip1k', 'C05 C27'),
    'link_coeffs': ('_a_ik _b_ik _c_ik _P_ik', 'C05 C27 C10'),
    'node_coeffs': ('_E_Ik _D_Ik', 'C05 C27 C10'),
    'forward_recurrence': ('_T_ik _U_Ik _V_Ik _W_Ik', 'C04 C26 C27'),
    'backward_recurrence': ('_O_ik _X_Ik _Y_Ik _Z_Ik', 'C04 C26 C27'),
    'superlink_upstream_head_coefficients': ('_theta_uk _kappa_uk _lambda_uk _mu_uk', 'C04 C03 C27'),
    'superlink_downstream_head_coefficients': ('_theta_dk _kappa_dk _lambda_dk _mu_dk', 'C04 C03 C27'),
    'superlink_flow_coefficients': ('_D_k_star _alpha_uk _beta_uk _chi_uk _alpha_dk _beta_dk _chi_dk', 'C04 C03 C01 C27'),
    'solve_superlink_flows': ('_Q_uk _Q_dk', 'C03 C27'),
    'solve_superlink_depths': ('_h_uk _h_dk', 'C26 C27 C03'),
    'orifice_flow_coefficients': ('_alpha_o _beta_o _chi_o', 'C07 C01 C27'),
    'solve_orifice_flows': ('_Qo', 'C07 C03 C27'),
    'weir_flow_coefficients': ('_alpha_w _beta_w _chi_w', 'C08 C01 C27'),
    'solve_weir_flows': ('_Qw', 'C08 C03 C27'),
    'pump_flow_coefficients': ('_alpha_p _beta_p _chi_p', 'C09 C01 C27'),
    'solve_pump_flows': ('_Qp', 'C09 C03 C27'),
    'sparse_matrix_equations': ('A O W P b', 'C01 C02 C27 C10'),
    'solve_sparse_matrix': ('H_j', 'C06 C02 C01'),
    'solve_banded_matrix': ('H_j', 'C06 C02 C01'),
    'solve_internals_backwards': ('_h_Ik _Q_ik', 'C26 C06 C27'),
    'solve_internals_forwards': ('_h_Ik _Q_ik', 'C26 C06 C27'),
    'compute_storage_areas': ('_A_sj', 'C15 C27'),
    'compute_storage_volumes': ('_V_sj', 'C15 C27'),
}
PROTECTED = set(a for v, _ in METH.values() for a in v.split()) | set(
    '_A_ik _Pe_ik _R_ik _B_ik _A_uk _B_uk _A_dk _B_dk _Pe_uk _R_uk _Pe_dk _R_dk _Ao t iter_count'.split())


def ctl_args(m):
    d = argmap()
    d['u'] = garr('u_in', 'w' if 'weir' in m else 'p' if 'pump' in m else 'o')
    return d


def mk(m, attrs, props):
    @group('hydraulics.%s' % m, props)
    def g(repo, out):
        rs, un = method_obligations(repo, CLS, 'SpecSL', m, attrs.split(), ctl_args(m), protected=PROTECTED)
        out.add(rs, un, ['%s.%s' % (CLS, m)])
        f, mod = repo.method(CLS, m)
        names = [x.arg for x in f.args.args]
        # omitted optional inputs
        for nm in ('u', '_dt', 'H_bc', '_Q_0j'):
            if nm in names:
                a = ctl_args(m)
                a[nm] = None
                rs, un = method_obligations(repo, CLS, 'SpecSL', m, attrs.split(), a, tag='(%s omitted)' % nm, protected=PROTECTED)
                out.add(rs, un)


for _m, (_a, _p) in METH.items():
    mk(_m, _a, _p)


@group('hydraulics._compute_bandwidth', 'C01 C02')
def bandwidth(repo, out):
    pre = {'adjacency_matrix': garr('At', 'j', 'j')}
    rs, un = method_obligations(repo, CLS, 'SpecSL', '_compute_bandwidth', ['bandwidth'], {}, protected=PROTECTED, pre=pre)
    f, mod = repo.method(CLS, '_compute_bandwidth')
    bad = [x for x in ast.walk(f) if isinstance(x, ast.For) and ascending(x.iter) and gives_up(x)]
    for x in bad:
        rs.append(Result('the scan of the diagonals reaches the outermost one', 'violation', '%s:%d %s._compute_bandwidth' % (repo.file_of(mod), x.lineno, CLS),
                         'the scan goes outwards and stops at the first diagonal without a link; diagonals beyond it are left out of the band'))
    if not bad:
        rs.append(Result('the scan of the diagonals reaches the outermost one', 'ok', where_method(repo, CLS, '_compute_bandwidth')))
    out.add(rs, un, ['%s._compute_bandwidth' % CLS])


def ascending(it):
    if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range'):
        return False
    return len(it.args) < 3 or isinstance(it.args[2], ast.Constant) and it.args[2].value > 0


def gives_up(loop):
    """leaves the loop on the branch where a diagonal holds nothing"""
    for x in ast.walk(loop):
        if not isinstance(x, ast.If):
            continue
        t, empty, full = x.test, x.orelse, x.body
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, empty, full = t.operand, full, empty
        if any(isinstance(y, ast.Call) and (getattr(y.func, 'attr', None) or getattr(y.func, 'id', None)) in ('any', 'count_nonzero') for y in ast.walk(t)) \
                and not isinstance(t, ast.Compare) and any(isinstance(y, (ast.Break, ast.Return)) for s in empty for y in ast.walk(s)):
            return True
    return False


@group('hydraulics.superlink_flow_from_recurrence', 'C26 C27')
def flow_pair(repo, out):
    """both recurrences, evaluated link by link with the depths recovered"""
    pair(repo, out, CLS, 'SpecSL', 'superlink_flow_from_recurrence', 'flows')


def pair(repo, out, cls, spec, m, what, **kw):
    a, b = (run_method(repo, c, m, {}, **kw) for c in (cls, spec))
    wh = where_method(repo, cls, m)
    for i, nm in enumerate(('backward', 'forward')):
        va, vb = ([x.value(y) for y in x.ret] if isinstance(x.ret, tuple) and len(x.ret) == 2 else [None, None] for x in (a, b))
        out.add([cmp_vals('%s: %s of the %s recurrence' % (m, what, nm), wh, va[i], vb[i])], a.eng.unmodelled, ['%s.%s' % (cls, m)])


@group('hydraulics.superlink_depth_from_recurrence', 'C26 C27')
def depth_pair(repo, out):
    """the depths both recurrences give for the flows of the links"""
    ov = {n: quotient(repo, n) for n in ('_h_Ik_next_b', '_h_Ik_next_f')}
    pair(repo, out, CLS, 'SpecSL', 'superlink_depth_from_recurrence', 'depths', overrides=ov)


def quotient(repo, name):
    """a method under the safe_divide decorator: its numerator over its denominator, 0 where that is 0"""
    f, mod = repo.method(CLS, name)
    if [getattr(d, 'id', None) for d in f.decorator_list] != ['safe_divide']:
        return lambda *a: NotImplemented

    def call(eng, st, args, kw, node):
        o = eng.overrides.pop(name)
        try:
            r = eng.call_func(Func(f, mod, bound=args[0]), list(args), kw, st, node)
        finally:
            eng.overrides[name] = o
        if not (isinstance(r, tuple) and len(r) == 2):
            raise Unsupported('%s does not give a numerator and a denominator' % name)
        num, den = (eng.arr(x, st) for x in r)
        if num is None or den is None or num.dims != den.dims or num.mask is not den.mask:
            raise Unsupported('%s: numerator and denominator differ in shape' % name)
        z = sg(den.content, {0})
        return eng.new_loc(ArrV(num.dims, ite(z, ZERO, mul(num.content, powr(ite(z, ONE, den.content), -1))), num.mask), st)
    return call


@group('hydraulics.solve_superlink_depths_alt', 'C26')
def depth_alt(repo, out):
    rs, un = method_obligations(repo, CLS, 'SpecSL', 'solve_superlink_depths_alt', ['_h_uk', '_h_dk'], {}, protected=PROTECTED)
    out.add(rs, un, [CLS + '.solve_superlink_depths_alt'])


@group('hydraulics.solve_internals_lsq', 'C26 C27')
def lsq(repo, out):
    """the least-squares recovery: the equations handed to the solver, then the ends, the minimum depth and the flows"""
    m, K = 'solve_internals_lsq', 'numba_solve_internals_ls'
    seen = {}

    def kernel(tag):
        def f(eng, st, args, kw, node):
            seen.setdefault(tag, []).append([eng.arr(x, st) if isinstance(x, (Ref, ArrV)) else x for x in args])
            if not (args and isinstance(args[0], Ref)):
                raise Unsupported('least-squares kernel not given an array')
            eng.store_whole(args[0], garr('inner', 'Ik'), st, node)
            return args[0]
        return f
    ea, es = (run_method(repo, c, m, {}, overrides={K: kernel(c)}) for c in (CLS, 'SpecSL'))
    wh = where_method(repo, CLS, m)
    for at in ('_h_Ik', '_Q_ik'):
        out.add([cmp_vals('%s: %s' % (m, at), wh, ea.get(at), es.get(at))],
                ea.eng.unmodelled, ['%s.%s' % (CLS, m)])
    a, b = seen.get(CLS), seen.get('SpecSL')
    if not a or len(a) != 1 or len(a[0]) != len(b[0]):
        out.add([Result('%s: the system handed to the solver' % m, 'undecided', wh, 'the least-squares kernel is not called as the analysis expects')])
        return
    for nm, x, y in zip(('depths', 'number of superlinks', 'links per superlink', 'first row', 'first link', 'first junction', 'coefficients of the junction downstream',
                         'coefficients of the junction upstream', 'right-hand side'), a[0], b[0]):
        if isinstance(x, ArrV) and isinstance(y, ArrV):
            r = cmp_vals('%s: %s' % (m, nm), wh, (x.dims, x.content), (y.dims, y.content))
            if r.status == 'ok' and (x.mask is None) != (y.mask is None):
                r = Result(r.name, 'undecided', wh, 'selection differs in form')
            out.add([r])
            if x.mask is not None and y.mask is not None:
                out.add([cmp_vals('%s: which %s' % (m, nm), wh, ((), ite(x.mask, ONE, ZERO)), ((), ite(y.mask, ONE, ZERO)))])
        else:
            out.add([cmp_vals('%s: %s' % (m, nm), wh, ((), x), ((), y))])


@group('hydraulics.numba_solve_internals_ls', 'C26 C27 C06')
def lsq_kernel(repo, out):
    fn = 'numba_solve_internals_ls'
    o = Onto()
    args = [o.arr('_h_Ik', ['Ik']), A(T.mk('sym', 'N', 'k'))] + [o.arr(x, ['k']) for x in ('nk', '_k_1k', '_i_1k', '_I_1k')] + [garr('U', 'r'), garr('X', 'r'), garr('b', 'ik')]
    e, st, r, _ = run_func(repo, 'pipedream_solver.nsuperlink', fn, args, onto=o)
    e2, s2, r2, _ = run_func(repo, 'spec.hydraulics', 'least_squares', args, onto=o)
    out.add([cmp_vals(fn, wf(repo, 'pipedream_solver.nsuperlink', fn), val(e, st, r), val(e2, s2, r2))], e.unmodelled, [fn])
