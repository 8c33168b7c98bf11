"""Building a model: the variables made from the input tables, compared with the reference construction."""
import itertools
from .groups import *
from .groups import group
from .ontology import Onto, CODO
from .tables import Table
from . import tables
from .interp import COND
from .obl_geometry import cmp_vals
from . import terms as T

CODO.update({'superlinks.sj_0': 'j', 'superlinks.sj_1': 'j', 'superlinks.j_0': 'Ik', 'superlinks.j_1': 'Ik', 'links.j_0': 'Ik', 'links.j_1': 'Ik', 'links.k': 'k', 'junctions.k': 'k'})
CODO.update({'%s.sj_%d' % (t, i): 'j' for t in ('orifices', 'weirs', 'pumps') for i in (0, 1)})


def cols(num='', **kw):
    d = {c: 'f' for c in num.split()}
    d.update(kw)
    return d


SJ = cols('z_inv h_0 a b c', id='i', bc='b', storage='s')
SL = cols('in_offset out_offset dx n Q_0 h_0 A_s A_c C g1', id='i', sj_0='i', sj_1='i', j_0='i', j_1='i', ctrl='b', shape='s')
LK = cols('dx n Q_0 A_c C g1', j_0='i', j_1='i', k='i', ctrl='b', shape='s')
JN = cols('h_0 A_s z_inv', k='i')
OR = cols('A C z_o y_max', sj_0='i', sj_1='i', orientation='s')
WE = cols('Cr Ct L s z_w y_max', sj_0='i', sj_1='i')
PU = cols('z_p a_p b_p c_p dH_max dH_min', sj_0='i', sj_1='i')
FULL = {'superjunctions': dict(SJ, **cols('max_depth map_x map_y', name='s')),
        'superlinks': dict(SL, **cols('dx_uk dx_dk C_uk C_dk max_depth', name='s', friction_method='s')),
        'links': dict(LK, **cols('g2 g3 g4 g5 g6 g7', friction_method='s')), 'junctions': JN,
        'orifices': dict(OR, **cols('g1 g2 g3', oneway='b', shape='s')), 'weirs': WE, 'pumps': PU}
PLAIN = {'superjunctions': SJ, 'superlinks': SL, 'links': LK, 'junctions': JN, 'orifices': OR}
SPACE = {'superjunctions': 'j', 'superlinks': 'k', 'links': 'ik', 'junctions': 'Ik', 'orifices': 'o', 'weirs': 'w', 'pumps': 'p'}
BUILT = '''M NK NIk Nik min_depth _dt _z_inv_j H_j bc _storage_a _storage_b _storage_c max_depth _J_uk _J_dk _z_inv_uk _z_inv_dk _dx_uk _dx_dk _C_uk _C_dk max_depth_k
 _Ik _Ip1k _ki _kI _I_1k _I_Np1k _dx_ik _Q_ik _A_c_ik _C_ik _ctrl _n_ik _g1_ik _g2_ik _g3_ik _g4_ik _g5_ik _g6_ik _g7_ik _A_SIk _z_inv_Ik _h_Ik _S_o_ik _S_o_uk _S_o_dk _h_uk _h_dk
 _theta_uk _theta_dk _sigma_ik n_o n_w n_p iter_count t
 _i_1k _i_nk _k_1k nk _I_2k _I_Nk _is_start _is_end _link_start _link_end _n_uk _n_dk _Q_uk _Q_dk _Sf_method_ik _Sf_method_uk _Sf_method_dk _dx_k'''.split()
ORI = '_J_uo _J_do _Ao_max _Ao _Co _z_o _y_max_o _tau_o _g1_o _g2_o _g3_o _unidir_o _Qo'.split()
WEI = '_J_uw _J_dw _Cwr _Cwt _L_w _s_w _z_w _y_max_w _Hw _Qw'.split()
PUM = '_J_up _J_dp _z_p _a_p _b_p _c_p _dHp_max _dHp_min _Qp'.split()


def nothing(*a, **k):
    return None


def bincount(eng, st, args, kw, node):
    """how many times each superlink is named; every superlink has a link, so the length is the number of superlinks"""
    a = eng.arr(args[0], st) if isinstance(args[0], (Ref, ArrV)) else None
    if a is None or a.mask is not None or len(a.dims) != 1 or len(args) > 1 or set(kw) - {'minlength'}:
        return Poison('bincount')
    eng.nloop += 1
    v = T.mk('loop', eng.nloop)
    return eng.new_loc(ArrV((Ns('k'),), T.bigsum(a.dims[0], v, ite(sg(sub(rewrite(a.content, {ELT[0]: A(v)}), elt(0)), {0}), ONE, ZERO))), st)


@group('build.hydraulics', 'C27 C01 C04 C05')
def _build(repo, out):
    for tag, tabs in (('[all columns]', FULL), ('[columns with defaults left out]', PLAIN)):
        args = {t: Table(t, SPACE[t], s) for t, s in tabs.items()}
        for t in ('orifices', 'weirs', 'pumps'):
            args.setdefault(t, None)
        args.update(dt=sym('dt'), min_depth=sym('min_depth'))
        attrs = BUILT + ORI + (WEI if tabs is FULL else []) + (PUM if tabs is FULL else [])
        ov = {f: nothing for f in ('step', 'configure_storages', 'configure_hydraulic_geometry', '_compute_bandwidth')}
        ov['numpy.bincount'] = bincount
        rs, un = method_obligations(repo, 'nSuperLink', 'SpecBuild', '__init__', attrs, args, tag, onto=Onto(), overrides=ov)
        out.add(rs, un, ['SuperLink.__init__'])


def tabs(cols, *names):
    """a dictionary of named tables, in the caller's order"""
    return DictV({n: DictV({c: garr('%s[%s]' % (c, n), A(mk('sym', 'pos', 'N.' + n))) for c in cols}) for n in names})


def laid_out(repo, out, meth, tables, named, eff, data, codes, starts, lens, mask):
    """each element finds, through its code, the start, length and columns of the table it names - however the tables are laid out"""
    wh = where_method(repo, 'nSuperLink', meth)
    get = lambda a: (lambda v: v if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], N) and len(v[0]) == 1 else None)(eff.get(a))
    e = elt(0)
    for t, (n, ref) in tables.items():
        nm = 'nSuperLink.%s: element naming table %s' % (meth, t)
        vs = {a: get(a) for a in [codes, starts, lens] + list(data)}
        bad = [a for a, v in vs.items() if v is None or has_kind(v[1], 'poison')]
        if bad:
            out.add([Result(nm, 'undecided', wh, 'not modelled: %s' % bad)])
            continue
        code = restrict(vs[codes][1], andc(mask, batom('streq', named, t)))
        at = lambda a, i: rewrite(vs[a][1], {ELT[0]: i})
        for what, got, want in ((lens, at(lens, code), n), ) + tuple((a, at(a, add(at(starts, code), e)), ref[a]) for a in data):
            inside = andc(sg(e, {0, 1}), sg(sub(e, n), {-1}))
            r = compare_terms(ite(inside, got, ZERO), ite(inside, want, ZERO)) if what != lens else compare_terms(got, want)
            out.add([Result('%s -> %s' % (nm, what), {'zero': 'ok', 'diff': 'violation', 'unknown': 'undecided'}[r.kind], wh, '' if r.kind == 'zero' else fmt(r))])


@group('build.storages', 'C15')
def _stor(repo, out):
    for names in (('pond', 'basin'), ('a', 'b')):
        kind, named = garr('storage type', 'j'), garr('storage table', 'j')
        tb = tabs('hA', *names)
        pre = {'storages': tb, '_storage_type': kind, '_storage_table': named}
        onto = Onto()
        onto.domain = {'storage table': list(names)}
        rs, un = method_obligations(repo, 'nSuperLink', 'SpecStorages', 'configure_storages', ['_storage_js', '_functional', '_tabular'], {}, ' [tables %s]' % ', '.join(names), onto=onto, pre=pre)
        out.add(rs, un, ['nSuperLink.configure_storages'])
        eff = run_method(repo, 'nSuperLink', 'configure_storages', {}, onto=onto, pre=pre)
        spec = run_method(repo, 'SpecStorages', 'configure_storages', {}, onto=onto, pre=pre)
        vs = dict(zip(sorted(names), spec.st.heap[spec.attrs()['_volumes'].loc].xs))
        ref = {t: (tb.d[t].d['h'].dims[0], {'_storage_hs': tb.d[t].d['h'].content, '_storage_As': tb.d[t].d['A'].content, '_storage_Vs': spec.value(vs[t])[1]}) for t in names}
        laid_out(repo, out, 'configure_storages', ref, named.content, eff, ('_storage_hs', '_storage_As', '_storage_Vs'), '_storage_codes', '_storage_inds', '_storage_lens', batom('notnull', named.content))


def opaque_fn(name):
    return lambda eng, st, args, kw, node: A(mk('ext', 'lib', name, tuple(eng.node_of(a, st) for a in args), ()))


@group('build.shapes', 'C14')
def _shapes(repo, out):
    for tag, names, sampled in ((' [no transects]', (), ()), (' [two transects]', ('weir', 'brook'), ()), (' [transects giving their sample counts]', ('weir', 'brook'), ('weir', 'brook')), (' [one transect giving its sample count]', ('weir', 'brook'), ('brook',))):
        onto = Onto()
        tb = DictV({t: DictV({'x': garr('x[%s]' % t, A(mk('sym', 'pos', 'N.' + t))), 'y': garr('y[%s]' % t, A(mk('sym', 'pos', 'N.' + t))), **({'sample_points': A(mk('sym', 'pos', 'S.' + t))} if t in sampled else {})}) for t in names})
        pre = {'transects': tb, '_shape_ik': garr('shape_ik', 'ik'), '_shape_o': garr('shape_o', A(mk('sym', 'pos', 'orifices'))), '_transect_ik': garr('transect_ik', 'ik'),
               '_g2_ik': garr('g2', 'ik'), '_g3_ik': garr('g3', 'ik'), '_g1_ik': garr('g1', 'ik'), 'NK_links': A(mk('sym', 'N', 'ik')), 'n_o': A(mk('sym', 'pos', 'orifices'))}
        kw = dict(onto=onto, pre=pre, overrides={f: opaque_fn(f) for f in ('Transect_A_ik', 'Transect_B_ik', 'Transect_Pe_ik')})
        rs, un = method_obligations(repo, 'nSuperLink', 'SpecShapes', 'configure_hydraulic_geometry', ['_geom_codes', '_geom_codes_o', '_g1_ik', '_g2_ik', '_g3_ik'], {}, tag, **kw)
        out.add(rs, un, ['nSuperLink.configure_hydraulic_geometry'])
        if not names:
            continue
        eff = run_method(repo, 'nSuperLink', 'configure_hydraulic_geometry', {}, **kw)
        spec = run_method(repo, 'SpecShapes', 'configure_hydraulic_geometry', {}, **kw)
        vs = [spec.value(v) for v in spec.st.heap[spec.attrs()['_tables'].loc].xs]
        data = ('_transect_zs', '_transect_As', '_transect_Bs', '_transect_Pes', '_transect_Rs')
        ref = {t: (vs[5 * i][0][0], {a: vs[5 * i + j][1] for j, a in enumerate(data)}) for i, t in enumerate(sorted(names))}
        laid_out(repo, out, 'configure_hydraulic_geometry', ref, pre['_transect_ik'].content, eff, data, '_transect_codes', '_transect_inds', '_transect_lens', TRUE)


@group('build.permute', 'C27')
def _perm(repo, out):
    """renumbering the superjunctions: row r of the table is the old row perm[r], and every end that named old row i names the row it went to"""
    to, back = (lambda i: A(mk('sel', 'perm.to', i))), (lambda i: A(mk('sel', 'perm.from', i)))
    e = elt(0)
    wh = where_method(repo, 'nSuperLink', '_initialize_with_permuted_columns')
    for tag, present in (('all kinds of element', ('superlinks', 'orifices', 'weirs', 'pumps')), ('superlinks only', ('superlinks',)), ('no superlinks', ('orifices', 'pumps'))):
        pre = {t: Table(t, SPACE[t], FULL[t]) if t in present else None for t in ('superlinks', 'orifices', 'weirs', 'pumps')}
        pre['superjunctions'] = Table('superjunctions', 'j', dict(FULL['superjunctions'], id='row'))
        ov = {'_to_banded': lambda eng, st, a, k, node: eng.new_loc(ArrV((eng.onto.size('j') if hasattr(eng.onto, 'size') else A(mk('sym', 'N', 'j')),), to(elt(0))), st)}
        eff = run_method(repo, 'nSuperLink', '_initialize_with_permuted_columns', {}, onto=Onto(), pre=pre, overrides=ov)
        for t in ('superjunctions',) + present:
            v = eff.attrs().get(t)
            tv = eff.st.heap[v.loc] if isinstance(v, Ref) else None
            for c, k in (dict(pre[t].schema)).items():
                nm = 'nSuperLink._initialize_with_permuted_columns [%s]: %s.%s' % (tag, t, c)
                col = tv.cols.get(c) if isinstance(tv, tables.TableV) else None
                got = eff.st.heap[col.loc].content if isinstance(col, Ref) and isinstance(eff.st.heap[col.loc], ArrV) else None
                old = lambda i: batom('b', '%s.%s' % (t, c), i) if k == 'b' else A(mk('sel', '%s.%s' % (t, c), i))
                want = e if k == 'row' else old(to(e)) if t == 'superjunctions' else back(old(e)) if c in ('sj_0', 'sj_1') else old(e)
                if got is None or has_kind(got, 'poison'):
                    out.add([Result(nm, 'undecided', wh, 'not modelled: %s' % (got,))])
                    continue
                num = lambda x: ite(x, ONE, ZERO) if x.kind in COND else x
                r = compare_terms(num(got), num(want))
                out.add([Result(nm, {'zero': 'undecided' if tables.INDEX in tv.cols else 'ok', 'diff': 'violation', 'unknown': 'undecided'}[r.kind], wh, '' if r.kind == 'zero' else fmt(r))])
        out.add([], eff.unmodelled if hasattr(eff, 'unmodelled') else (), ['SuperLink._initialize_with_permuted_columns'])
        p = eff.get('permutations')
        r = compare_terms(p[1], to(e)) if isinstance(p, tuple) and isinstance(p[1], N) else None
        out.add([Result('nSuperLink._initialize_with_permuted_columns [%s]: permutations' % tag, 'undecided' if r is None or r.kind == 'unknown' else 'ok' if r.kind == 'zero' else 'violation', wh, '' if r is None else fmt(r))])


def marked(content, at, m, sizes, inside, depth=0):
    """does a chain of stores of ones mark the entry whose index is the element's pair of ends?  True, False or None (not modelled)"""
    if content is ZERO or depth > 12:
        return False if content is ZERO else None
    if content is ONE:
        return True
    a = as_atom(content) if content.kind == 'poly' else None
    if a is None or a.kind != 'upd':
        return None
    n, bv, idx, guard, val, old = a.args[0].args
    if val is not ONE or a.args[1:] != (elt(0), elt(1)) or len(idx) != 2:
        return None
    for ks in itertools.product((0, 1, 2), repeat=len(sizes)):
        v = m
        for k, s in zip(ks, sizes):
            for _ in range(k):
                v = add(v, s)
        if compare_terms(ite(andc(sg(sub(v, n), {-1}), *inside), ONE, ZERO), ite(andc(*inside), ONE, ZERO)).kind != 'zero':
            continue
        sub_ = lambda t: rewrite(t, {bv: v})
        hit = andc(sub_(guard), *[sg(sub(sub_(i), p), {0}) for i, p in zip(idx, at)])
        if compare_terms(ite(andc(hit, *inside), ONE, ZERO), ite(andc(*inside), ONE, ZERO)).kind == 'zero':
            return True
    return marked(lam_apply(old, elt(0), elt(1)), at, m, sizes, inside, depth + 1)


@group('build.adjacency', 'C06 C27')
def _adj(repo, out):
    """the adjacency matrix, from which the bandwidth and the renumbering are found, marks both directions of every element's pair of ends"""
    wh = where_method(repo, 'nSuperLink', 'adjacency_matrix')
    kinds = ('superlinks', 'orifices', 'weirs', 'pumps')
    for present in (kinds, ('superlinks',), ('superlinks', 'weirs'), ('superlinks', 'orifices', 'pumps')):
        pre = {t: Table(t, SPACE[t], FULL[t]) if t in present else None for t in kinds}
        eff = run_method(repo, 'nSuperLink', 'adjacency_matrix', {}, onto=Onto(), pre=pre)
        v = eff.value(eff.ret)
        sizes = [eff.eng.onto.size(SPACE[t]) if hasattr(eff.eng.onto, 'size') else A(mk('sym', 'N', SPACE[t])) for t in present]
        m = elt(2)
        for t, n in zip(present, sizes):
            inside = [sg(m, {0, 1}), sg(sub(m, n), {-1})] + [sg(s, {1}) for s in sizes]
            ends = [A(mk('sel', '%s.sj_%d' % (t, i), m)) for i in (0, 1)]
            for what, at in (('from its first end to its second', ends), ('from its second end to its first', ends[::-1])):
                r = marked(v[1], at, m, sizes, inside) if isinstance(v, tuple) and len(v[0]) == 2 else None
                out.add([Result('SuperLink.adjacency_matrix [%s]: %s %s' % ('+'.join(present), t[:-1], what), {True: 'ok', False: 'violation', None: 'undecided'}[r], wh, '' if r else 'no store marks this entry' if r is False else 'not modelled')])
    out.add([], (), ['SuperLink.adjacency_matrix'])


QBUILT = '''_K_j _c_j bc _K_Ik _c_Ik _D_ik _K_ik _c_ik _D_uk _D_dk _ki _kI _ik _I _Ik _Ip1k _k _dx_uk _dx_dk _A_SIk _forward_I_i _backward_I_i _is_start _is_end _I_1k _i_1k _I_Nk _I_Np1k _i_nk
 NK M n_o n_w n_p bandwidth _J_uk _J_dk _J_uo _J_do _J_uw _J_dw _J_up _J_dp _c_1k _c_Np1k _c_uk _c_dk _c_min _c_max'''.split()


@group('build.quality', 'C27 C21 C22 C23 C24')
def _qbuild(repo, out):
    from .obl_quality import qonto, QC
    sj = Table('superjunction_params', 'j', cols('K c_0', bc='b'))
    sl = cols('K D c_0 KF_process_sigma KF_measure_sigma', KF_obs_point='i')
    for tag, args in (('[all tables]', {'superlink_params': Table('superlink_params', 'k', dict(sl, D_uk='f', D_dk='f')), 'junction_params': Table('junction_params', 'Ik', cols('K c_0')), 'link_params': Table('link_params', 'ik', cols('K D c_0'))}),
                      ('[superlinks only]', {'superlink_params': Table('superlink_params', 'k', sl)}),
                      ('[links, no junctions]', {'superlink_params': Table('superlink_params', 'k', sl), 'link_params': Table('link_params', 'ik', cols('K D c_0'))})):
        args = dict(args, hydraulics=lambda eng, st: eng.new_loc(ObjV('nSuperLink', {}, 'hyd'), st), superjunction_params=sj, c_min=sym('c_min'), c_max=sym('c_max'))
        for a in ('junction_params', 'link_params'):
            args.setdefault(a, None)
        rs, un = method_obligations(repo, QC, 'SpecQBuild', '__init__', QBUILT, args, tag, onto=qonto(), overrides={'step': nothing})
        out.add(rs, un, ['QualityBuilder.__init__'])


def elementwise(name):
    """an unknown function applied to every element"""
    def f(eng, st, args, kw, node):
        a = eng.arr(args[0], st) if isinstance(args[0], (Ref, ArrV)) else None
        if a is None:
            return A(T.mk('app', T.mk('ext', 'obj', name), eng._sc(args[0])))
        if a.mask is not None or a.content.kind != 'poly':
            return Poison(name)
        return eng.new_loc(ArrV(a.dims, A(T.mk('app', T.mk('ext', 'obj', name), a.content))), st)
    return f


@group('storage.classes', 'C15')
def _storage_classes(repo, out):
    """storage relations offered as classes: functional and tabulated, below the table, within it and above it"""
    STG = 'spec.storage'
    ov = {'area_at': elementwise('area'), 'volume_at': elementwise('volume')}
    for m in ('A_sj', 'V_sj'):
        for c, extra in (('Functional', dict(a=sym('a'), b=A(T.mk('sym', 'pos', 'b')), c=sym('c'))), ('Tabular', {})):
            o = Onto()
            o.extra.update({('self', a): sym('T.' + a) for a in ('hmin', 'Amax')})
            o.extra[('self', 'hmax')] = add(sym('T.hmin'), A(T.mk('sym', 'pos', 'range of h')))
            o.extra[('self', 'A_interpolator')], o.extra[('self', 'V_interpolator')] = repo.lookup(STG, 'area_at'), repo.lookup(STG, 'volume_at')
            ea, es = (run_method(repo, x, m, dict(h=garr('h_in', 'j'), **extra), onto=o, overrides=ov) for x in (c, 'Spec' + c))
            if es.eng.unmodelled:
                raise RuntimeError('reference storage relation not modelled: %s' % es.eng.unmodelled[:2])
            out.add([cmp_vals('%s.%s' % (c, m), where_method(repo, c, m), ea.value(ea.ret), es.value(es.ret))], ea.eng.unmodelled, ['storage.%s.%s' % (c, m)])
    attrs = 'h A V hmax hmin Amax'.split()
    args = dict(h=garr('ht', 't'), A=garr('At', 't'))
    kw = dict(onto=Onto(), overrides=ov)
    rs, un = method_obligations(repo, 'Tabular', 'SpecTabular', '__init__', attrs, args, **kw)
    out.add(rs, un, ['storage.Tabular.__init__'])
    ea, es = (run_method(repo, c, '__init__', args, **kw) for c in ('Tabular', 'SpecTabular'))
    for a in ('A_interpolator', 'V_interpolator'):
        x, y = ea.get(a), es.get(a)
        same = isinstance(x, Ext) and isinstance(y, Ext)
        nm = 'Tabular.__init__: %s interpolates its own column over depth' % a
        out.add([cmp_vals(nm, where_method(repo, 'Tabular', '__init__'), ((), A(x.node)), ((), A(y.node))) if same else Result(nm, 'undecided', where_method(repo, 'Tabular', '__init__'), 'not modelled')])
