"""Column bindings: every model variable is computed from the table column documented for it (may-flow provenance:
a documented column that cannot reach its variable on any path is a definite error; extra columns are never reported)."""
from .groups import *
from .groups import group
from . import effects as E

# attribute -> alternatives separated by '|' (each must reach the attribute: both table forms where the model accepts both)
HYD = {
    'H_j': 'superjunctions.h_0 superjunctions.z_inv', '_z_inv_j': 'superjunctions.z_inv', 'bc': 'superjunctions.bc', 'max_depth': 'superjunctions.max_depth',
    '_storage_a': 'superjunctions.a', '_storage_b': 'superjunctions.b', '_storage_c': 'superjunctions.c', '_storage_type': 'superjunctions.storage', '_storage_table': 'superjunctions.table',
    '_map_x_j': 'superjunctions.map_x', '_map_y_j': 'superjunctions.map_y', 'superjunction_names': 'superjunctions.name', 'superlink_names': 'superlinks.name',
    # (a superlink given uphill is turned round: each end variable takes either end's column)
    '_J_uk': 'superlinks.sj_0 superlinks.sj_1', '_J_dk': 'superlinks.sj_1 superlinks.sj_0', '_dx_uk': 'superlinks.dx_uk superlinks.dx_dk', '_dx_dk': 'superlinks.dx_dk superlinks.dx_uk', '_C_uk': 'superlinks.C_uk superlinks.C_dk', '_C_dk': 'superlinks.C_dk superlinks.C_uk',
    '_z_inv_uk': 'superlinks.in_offset superlinks.out_offset superjunctions.z_inv superlinks.sj_0', '_z_inv_dk': 'superlinks.out_offset superlinks.in_offset superjunctions.z_inv superlinks.sj_1', 'max_depth_k': 'superlinks.max_depth',
    'start_nodes': 'superlinks.j_0', 'end_nodes': 'superlinks.j_1', '_I_1k': 'superlinks.j_0', '_I_Np1k': 'superlinks.j_1', '_I_2k': 'links.j_1 superlinks.j_0', '_I_Nk': 'links.j_0 superlinks.j_1',
    '_Ik': 'links.j_0', '_Ip1k': 'links.j_1', '_kI': 'junctions.k', '_ki': 'links.k', '_dx_ik': 'links.dx superlinks.dx', '_Q_ik': 'links.Q_0 superlinks.Q_0', '_Q_uk': 'links.Q_0', '_Q_dk': 'links.Q_0',
    '_ctrl': 'links.ctrl superlinks.ctrl', '_A_c_ik': 'links.A_c superlinks.A_c', '_C_ik': 'links.C superlinks.C', '_n_ik': 'links.n links.roughness superlinks.roughness',
    '_n_uk': 'links.n links.roughness', '_n_dk': 'links.n links.roughness', '_Sf_method_ik': 'links.friction_method superlinks.friction_method', '_Sf_method_uk': 'links.friction_method', '_Sf_method_dk': 'links.friction_method',
    '_shape_ik': 'links.shape superlinks.shape', '_transect_ik': 'links.transect superlinks.transect', '_geom_codes': 'links.shape superlinks.shape', '_geom_codes_o': 'orifices.shape',
    '_h_Ik': 'junctions.h_0 superlinks.h_0', '_A_SIk': 'junctions.A_s superlinks.A_s', '_z_inv_Ik': 'junctions.z_inv superjunctions.z_inv superlinks.in_offset superlinks.out_offset',
    '_h_uk': 'junctions.h_0', '_h_dk': 'junctions.h_0', '_S_o_ik': 'junctions.z_inv links.dx links.j_0 links.j_1', '_S_o_uk': 'superlinks.dx_uk junctions.z_inv superlinks.in_offset', '_S_o_dk': 'superlinks.dx_dk junctions.z_inv superlinks.out_offset',
    '_x_Ik': 'links.dx superlinks.dx_uk', '_dx_k': 'links.dx',
    '_J_uo': 'orifices.sj_0', '_J_do': 'orifices.sj_1', '_Ao_max': 'orifices.A', '_Ao': 'orifices.A', '_Co': 'orifices.C', '_z_o': 'orifices.z_o', '_y_max_o': 'orifices.y_max', '_tau_o': 'orifices.orientation',
    '_orient_o': 'orifices.orientation', '_unidir_o': 'orifices.oneway', '_shape_o': 'orifices.shape', '_g1_o': 'orifices.g1 orifices.A', '_g2_o': 'orifices.g2 orifices.A', '_g3_o': 'orifices.g3',
    '_J_uw': 'weirs.sj_0', '_J_dw': 'weirs.sj_1', '_Cwr': 'weirs.Cr', '_Cwt': 'weirs.Ct', '_L_w': 'weirs.L', '_s_w': 'weirs.s', '_z_w': 'weirs.z_w', '_y_max_w': 'weirs.y_max',
    '_J_up': 'pumps.sj_0', '_J_dp': 'pumps.sj_1', '_z_p': 'pumps.z_p', '_a_p': 'pumps.a_p', '_b_p': 'pumps.b_p', '_c_p': 'pumps.c_p', '_dHp_max': 'pumps.dH_max', '_dHp_min': 'pumps.dH_min',
}
# automatic reordering: the new numbering comes from the connections (every table's), and must reach every variable that
# refers to a superjunction or is stored per superjunction
for _a in '_J_uk _J_dk _J_uo _J_do _J_uw _J_dw _J_up _J_dp H_j _z_inv_j bc max_depth _storage_a _storage_b _storage_c _storage_type _storage_table _map_x_j _map_y_j superjunction_names permutations'.split():
    HYD[_a] = (HYD.get(_a, '') + ' superlinks.sj_0 superlinks.sj_1 orifices.sj_0 weirs.sj_1 pumps.sj_0').strip()
    HYD[_a] = ' '.join(dict.fromkeys(HYD[_a].split()))
for _i in range(1, 8):
    HYD['_g%d_ik' % _i] = 'links.g%d superlinks.g%d' % (_i, _i)
# variables that belong to one control structure or one parameter: nothing else may reach them
QUAL = {
    '_K_j': 'superjunction_params.K hydraulics.permutations', '_c_j': 'superjunction_params.c_0 hydraulics.permutations', 'bc': 'superjunction_params.bc hydraulics.permutations',
    '_K_Ik': 'junction_params.K superlink_params.K', '_c_Ik': 'junction_params.c_0 superlink_params.c_0',
    '_D_ik': 'link_params.D superlink_params.D', '_K_ik': 'link_params.K superlink_params.K', '_c_ik': 'link_params.c_0 superlink_params.c_0',
    '_D_uk': 'superlink_params.D_uk superlink_params.D', '_D_dk': 'superlink_params.D_dk superlink_params.D',
    '_c_uk': 'superjunction_params.c_0 junction_params.c_0', '_c_dk': 'superjunction_params.c_0 junction_params.c_0',
}
INFIL = {'psi_f': 'soil_params.psi_f', 'Ks': 'soil_params.Ks', 'theta_s': 'soil_params.theta_s', 'theta_i': 'soil_params.theta_i', 'A_s': 'soil_params.A_s'}


def bindings(repo, cls, tables, expect, extra=(), dicts=()):
    f = repo.find_method(cls, '__init__')
    if f is None:
        raise Vanished('%s.__init__' % cls)
    names = [a.arg for a in f[0].args.args]
    an = E.Analysis(repo, cls, skip={'step'})
    an.track = {}
    roots = {t: E.V((an.root(t, table=t, kind='dict' if t in dicts else 'df'),)) for t in tables if t in names}
    for n in extra:
        roots[n] = E.V((an.root(n, table=n, kind='obj'),))
    for n in ('auto_permute', 'mobile_elements', 'sparse'):
        if n in names:
            roots[n] = E.V()
    an.entry('__init__', roots)
    rs = []
    wh = where_method(repo, cls, '__init__')
    for a, cols in sorted(expect.items()):
        v = an.setfields.get(a)
        pv = E.fullprov(v) if v is not None else ()
        for c in cols.split():
            nm = '%s.__init__: column %s reaches %s' % (cls, c, a)
            if c.split('.')[0] not in roots:
                rs.append(Result(nm, 'undecided', wh, 'the constructor has no argument %s' % c.split('.')[0]))
            elif v is None:
                rs.append(Result(nm, 'undecided', wh, 'attribute not set'))
            elif c in pv:
                rs.append(Result(nm, 'ok', wh))
            elif '*' in an.setfields:
                rs.append(Result(nm, 'undecided', wh, 'attributes are set under names the analysis does not resolve'))
            elif c.split('.')[0] in E.tables(v) or any(p.split('.')[0] == c.split('.')[0] and p.endswith('.*') for p in pv):
                rs.append(Result(nm, 'undecided', wh, 'columns of the table are read under a name the analysis does not resolve'))
            else:
                rs.append(Result(nm, 'violation', wh, '%s is computed from %s only; column %s never reaches it' % (a, ', '.join(sorted(pv)) or 'no table column', c)))
    return rs, an


@group('bindings.hydraulics', 'C27')
def _h(repo, out):
    rs, an = bindings(repo, 'nSuperLink', 'superlinks superjunctions links junctions orifices weirs pumps transects storages'.split(), HYD, dicts=('transects', 'storages'))
    out.add(rs, [], sorted('%s:%s' % x for x in an.funcs))


@group('bindings.quality', 'C27')
def _q(repo, out):
    rs, an = bindings(repo, 'QualityBuilder', 'superjunction_params superlink_params junction_params link_params'.split(), QUAL, extra=('hydraulics',))
    out.add(rs, [], sorted('%s:%s' % x for x in an.funcs))


@group('bindings.infiltration', 'C27')
def _i(repo, out):
    for cls in ('GreenAmpt', 'nGreenAmpt'):
        if repo.find_method(cls, '__init__'):
            rs, an = bindings(repo, cls, ['soil_params'], INFIL, dicts=('soil_params',))
            out.add(rs, [], sorted('%s:%s' % x for x in an.funcs))
