"""Water-quality routines against their reference."""
from .groups import *
from .groups import group

QC = 'QualityBuilder'
QMETH = {
    'import_hydraulic_states': ('_V_j_next _V_j_prev _A_ik_next _A_ik_prev _Q_ik_up_next _Q_ik_dn_next _Q_uk_up_next _Q_uk_dn_next _Q_dk_up_next _Q_dk_dn_next '
                                '_A_uk_next _A_dk_next _A_uk_prev _A_dk_prev _h_Ik_next _h_Ik_prev _Q_o_next _Q_w_next _Q_p_next _dx_ik_next', 'C21 C14 C27'),
    'link_coeffs': ('_alpha_ik _beta_ik _chi_ik _gamma_ik _alpha_uk _beta_uk _chi_uk _gamma_uk _alpha_dk _beta_dk _chi_dk _gamma_dk', 'C21 C22 C27'),
    'node_coeffs': ('_kappa_Ik _lambda_Ik _mu_Ik _eta_Ik', 'C21 C22 C27'),
    'forward_recurrence': ('_T_ik _U_Ik _V_Ik _W_Ik', 'C22 C27'),
    'backward_recurrence': ('_O_ik _X_Ik _Y_Ik _Z_Ik', 'C22 C27'),
    'boundary_coefficients': ('_rho_uk _tau_uk _zeta_uk _rho_dk _tau_dk _zeta_dk _theta_uk _sigma_uk _xi_uk _theta_dk _sigma_dk _xi_dk', 'C22 C21 C27'),
    'sparse_matrix_equations': ('A O W P b', 'C21 C24 C27'),
    'solve_sparse_matrix': ('_c_j', 'C23 C24 C21'),
    'solve_banded_matrix': ('_c_j', 'C23 C24 C21'),
    'solve_boundary_states': ('_c_uk _c_dk _c_1k _c_Np1k', 'C22 C23 C27'),
    'solve_internals_backwards': ('_c_Ik _c_ik', 'C22 C23 C27'),
    'solve_internals_forwards': ('_c_Ik _c_ik', 'C22 C23 C27'),
}
QPROT = set(a for v, _ in QMETH.values() for a in v.split()) | set('_c_j _c_uk _c_dk _c_1k _c_Np1k _c_Ik _c_ik bc _K_j _K_ik _K_Ik _D_ik _D_uk _D_dk _dx_uk _dx_dk'.split())


def qonto():
    from .ontology import Onto
    o = Onto()
    o.prefix['hyd'] = 'H.'
    return o


def mk(m, attrs, props):
    @group('quality.%s' % m, props)
    def g(repo, out):
        kw = dict(protected=QPROT, objs={'hydraulics': ('nSuperLink', 'hyd')})
        args = argmap()
        args['c_bc'], args['_c_0j'], args['_c_0Ik'] = garr('c_bc', 'j'), garr('c_0j_in', 'j'), garr('c_0Ik_in', 'Ik')
        args['_dt'] = sym('dt_in')
        rs, un = method_obligations(repo, QC, 'SpecQ', m, attrs.split(), args, onto=qonto(), **kw)
        out.add(rs, un, ['%s.%s' % (QC, m)])
        f, mod = repo.method(QC, m)
        names = [x.arg for x in f.args.args]
        for nm in ('c_bc', '_c_0j', '_c_0Ik', '_Q_0j', '_Q_0Ik', '_dt'):
            if nm in names and m != 'import_hydraulic_states':
                a = dict(args)
                a[nm] = None
                rs, un = method_obligations(repo, QC, 'SpecQ', m, attrs.split(), a, tag='(%s omitted)' % nm, onto=qonto(), **kw)
                out.add(rs, un)


for _m, (_a, _p) in QMETH.items():
    mk(_m, _a, _p)


@group('quality.link_concentrations_from_recurrence', 'C22 C27')
def conc_pair(repo, out):
    """both recurrences, evaluated link by link with the concentrations of the junctions"""
    from .obl_hydraulics import pair
    pair(repo, out, 'QualityBuilder', 'SpecQ', 'link_concentrations_from_recurrence', 'concentrations', onto=qonto())
