"""What the attributes of the solver objects *are*: index space, kind, codomain (a user-level
description of the state vector, not of any computation)."""
import re
from . import terms as T
from .terms import *
from .interp import ArrV, DictV, ObjV, Ext, StrSym, ListV

SPACES = ('j', 'k', 'Ik', 'ik', 'o', 'w', 'p', 'ts', 'to', 'b')


def Ns(s):
    return A(mk('sym', 'N', s))


EXPL = {
    'A': 'jj', 'O': 'jj', 'W': 'jj', 'P': 'jj', 'B': 'jo', 'b': 'j', 'D': 'j', 'bc': 'j', 'H_j': 'j', '_F_jj': 'j', '_Q_in': 'j', '_Q_0j': 'j',
    '_O_diag': 'j', '_W_diag': 'j', '_P_diag': 'j', 'max_depth': 'j', 'max_depth_k': 'k', 'nk': 'k', '_u_Ik': 'ik', '_u_Ip1k': 'ik',
    '_forward_I_i': 'Ik', '_backward_I_i': 'Ik', 'forward_I_I': 'Ik', 'backward_I_I': 'Ik', 'forward_I_i': 'Ik', 'backward_I_i': 'Ik', '_is_start': 'Ik', '_is_end': 'Ik', '_is_penult': 'Ik',
    '_I_end': 'Ik', '_I_start': 'Ik', '_I': 'Ik', '_i': 'ik', '_ik': 'ik', '_k': 'k', '_Ik': 'ik', '_Ip1k': 'ik', '_ki': 'ik', '_kI': 'Ik',
    'start_nodes': 'k', 'end_nodes': 'k', '_link_start': 'ik', '_link_end': 'ik', '_ctrl': 'ik',
    '_alpha_ukm': 'j', '_beta_dkl': 'j', '_chi_ukl': 'j', '_chi_dkm': 'j', '_alpha_uom': 'j', '_beta_dol': 'j', '_chi_uol': 'j', '_chi_dom': 'j',
    '_alpha_uwm': 'j', '_beta_dwl': 'j', '_chi_uwl': 'j', '_chi_dwm': 'j', '_alpha_upm': 'j', '_beta_dpl': 'j', '_chi_upl': 'j', '_chi_dpm': 'j',
    '_Qo': 'o', '_Qw': 'w', '_Qp': 'p', '_Ao': 'o', '_Co': 'o', '_Ao_max': 'o', '_Hw': 'w', '_Cwr': 'w', '_Cwt': 'w', '_dHp_max': 'p', '_dHp_min': 'p',
    '_Q_o': 'o', '_Q_w': 'w', '_Q_p': 'p', '_storage_a': 'j', '_storage_b': 'j', '_storage_c': 'j', '_geom_codes': 'ik', '_geom_codes_o': 'o', '_ellipse_ix': 'el',
    '_functional': 'j', '_tabular': 'j', '_is_irregular': 'ik', '_x0': 'k', '_b0': 'k', '_b1': 'k', '_b2': 'k', '_xc': 'k', '_zc': 'k', '_m0': 'k', '_m1': 'k', '_fixed': 'k', '_m': 'k',
    '_elem_pos': 'k', '_k_1k': 'k', '_J_uk': 'k', '_J_dk': 'k', '_perm': 'j', '_perm_inv': 'j', 'permutations': 'j',
    '_map_x_j': 'j', '_map_y_j': 'j',
    # water quality
    '_c_j': 'j', '_c_bc': 'j', '_c_0j': 'j', 'x_hat': 'j', '_x_hat': 'j', '_K_j': 'j', '_K_ik': 'ik', '_D_ik': 'ik', 'c_j_prev': 'j', '_Q_uk_prev': 'k', '_Q_uk_next': 'k',
    'Ix_ik': 'ik', '_omega_o': 'o', '_omega_w': 'w', '_omega_p': 'p',
    '_transect_zs': 'tf', '_transect_As': 'tf', '_transect_Bs': 'tf', '_transect_Pes': 'tf', '_transect_Rs': 'tf', '_transect_inds': 'tr', '_transect_lens': 'tr', '_transect_codes': 'ik',
    '_storage_inds': 'st', '_storage_lens': 'st', '_storage_js': 'sq', '_storage_codes': 'sq', '_storage_hs': 'sf', '_storage_As': 'sf', '_storage_Vs': 'sf',
    '_k_j': 'j', 'L_j': 'j', '_V_sj': 'j', '_A_sj': 'j',
}
CODO = {'_J_uk': 'j', '_J_dk': 'j', '_J_uo': 'j', '_J_do': 'j', '_J_uw': 'j', '_J_dw': 'j', '_J_up': 'j', '_J_dp': 'j', '_Ik': 'Ik', '_Ip1k': 'Ik', '_kI': 'k', '_ki': 'k',
        '_I_1k': 'Ik', '_I_2k': 'Ik', '_I_Nk': 'Ik', '_I_Np1k': 'Ik', 'start_nodes': 'Ik', 'end_nodes': 'Ik', '_i_1k': 'ik', '_i_nk': 'ik', 'forward_I_i': 'ik', 'backward_I_i': 'ik',
        'forward_I_I': 'Ik', 'backward_I_I': 'Ik', '_I': 'Ik', '_i': 'ik', '_ik': 'ik', '_k': 'k', '_k_1k': None, '_ellipse_ix': 'ik', '_transect_codes': 'tr', '_storage_codes': 'st', '_storage_js': 'j'}
# fixed description of the network: the quality model holds the hydraulic model's own copies
SHARED = set('''_ki _kI _dx_uk _dx_dk forward_I_i backward_I_i _is_start _is_end _ik _I _A_SIk _I_1k _i_1k _I_Nk _I_Np1k _i_nk NK M nk _k
 _J_uk _J_dk _J_uo _J_do _J_uw _J_dw _J_up _J_dp n_o n_w n_p _sparse bandwidth _Ik _Ip1k'''.split())
IDENT = {'_I', '_i', '_ik', '_k'}
BOOL = {'bc', '_is_start', '_is_end', '_is_penult', '_I_end', '_I_start', '_link_start', '_link_end', '_ctrl', '_unidir_o', '_functional', '_tabular', '_is_irregular', '_fixed'}
INTS = {'nk', '_transect_inds', '_transect_lens', '_storage_inds', '_storage_lens', '_geom_codes', '_geom_codes_o', '_Sf_method_ik', '_Sf_method_uk', '_Sf_method_dk', '_k_1k'}
INJ = {'_I_1k', '_I_Np1k', '_I_Nk', '_i_1k', '_i_nk', '_Ik', '_Ip1k', '_I_2k', 'start_nodes', 'end_nodes', '_ellipse_ix', '_storage_js'}
POSARR = {'_g1_ik', '_g2_ik', '_g3_ik', '_g4_ik', '_g5_ik', '_g6_ik', '_g7_ik', '_g1_o', '_g2_o', '_g3_o', '_V_sj', '_dHp_range', '_dx_ik', '_L_w', '_Co', '_Cwr', '_b_p', '_c_p', '_n_ik', '_n_uk', '_n_dk', '_C_uk', '_C_dk'}
# soil: physical parameters are positive, rain and stored water are not negative
POSARR |= {'soil.' + a for a in 'Ks Lu Tr psi_f kr theta_dmax A_s'.split()}
NONNEG = {'soil.' + a for a in 'rain d F theta_d theta_du'.split()}
SCAL = {'_c_min', '_c_max', '_dt', 'min_depth', 't', 'iter_count', 'dt'}
POSSYM = {'dt', '_dt', 'eps', 'min_depth', 'g', 'pslot'}
STRS = {'_bc_method', '_method', '_end_method'}
BOPT = {'_sparse', 'banded', '_exit_hydraulics', 'inertial_damping', 'mobile_elements', 'auto_permute'}
TRUEOPT = {'_has_irregular', '_uk_has_irregular', '_dk_has_irregular'}
STATEKEYS = 't H_j h_Ik Q_ik Q_uk Q_dk x_Ik Q_o Q_w Q_p A_ik A_uk A_dk A_sj V_j'.split()
SIZES = {'NK': 'k', 'NIk': 'Ik', 'Nik': 'ik', 'M': 'j', 'n_o': 'o', 'n_w': 'w', 'n_p': 'p'}
EXTS = {'_storage_factory', '_storage_indices', 'superlinks', 'superjunctions', 'links', 'junctions', 'orifices', 'weirs', 'pumps', 'transects', 'storages', 'superjunction_names', 'superlink_names',
        '_shape_ik', '_shape_o', '_orient_o', '_transect_ik', '_storage_table', '_storage_type'}
EQUIV = {'_forward_I_i': 'forward_I_i', '_backward_I_i': 'backward_I_i', 'start_nodes': '_I_1k', 'end_nodes': '_I_Np1k', '_I_start': '_is_start', '_I_end': '_is_end'}
MASKIDX = {('_is_start', False): '_I_1k', ('_is_end', False): '_I_Np1k', ('_is_penult', False): '_I_Nk', ('_is_end', True): '_Ik', ('_is_start', True): '_Ip1k',
           ('_link_start', False): '_i_1k', ('_link_end', False): '_i_nk'}
PREF = re.compile(r'^(H\.|S\.|prev\.|Q\.)+')


def base_attr(b):
    return PREF.sub('', b) if isinstance(b, str) else b


_SUF = re.compile(r'(?:^|_)(?:[a-z0-9]*?)(ik|Ik|IK|Ip1k|Im1k|im1k|uk|dk|1k|2k|nk|Nk|Np1k|k|j|sj|o|w|p)$')


def space_of(name):
    """index space of attribute `name` or None; 'jj' for matrices"""
    n = base_attr(name)
    if n in EXPL:
        return EXPL[n]
    s = re.sub(r'_(next|prev|max|min|t|k|kf)$', '', n)
    if s != n and s in EXPL:
        return EXPL[s]
    m = re.match(r'^_?J_[ud]([kowp])$', s)
    if m:
        return m.group(1)
    if re.search(r'_(ik|im1k|ip1k)(_|$)', s):
        return 'ik'
    if re.search(r'_(0?Ik|IK|SIk|Ip1k|Im1k)(_|$)', s):
        return 'Ik'
    if re.search(r'_(uk|dk|1k|nk|Nk|Np1k|2k|k|ck)(_|$)', s) or s.endswith('_k_star'):
        return 'k'
    if re.search(r'_([ud]?)(j|sj|0j)(_|$)', s):
        return 'j'
    m = re.search(r'_([ude]?)(o|w|p)(_|$)', s)
    if m:
        return m.group(2)
    return None


class Onto:
    strip_values = True

    def __init__(self):
        self.extra = {}      # (objname, attr) -> value
        self.prefix = {'self': ''}
        self.renames = {}

    def codomain(self, base):
        return CODO.get(base_attr(base)) if isinstance(base, str) else None

    def space_compat(self, a, b):
        return a == b

    def mask_index(self, c):
        neg_ = False
        if c.kind == 'not':
            neg_, c = True, c.args[0]
        if c.kind == 'ba' and c.args[0] == 'b' and c.args[2] is elt(0):
            nm = c.args[1]
            for pre in ('', 'H.'):
                if nm.startswith(pre) and (nm[len(pre):], neg_) in MASKIDX:
                    ix = MASKIDX[(nm[len(pre):], neg_)]
                    return self.arr(pre + ix, [space_of(ix)])
        return None

    def index_of_mask(self, t, lv):
        """t = base[lv] where base lists the elements satisfying a mask: (atom, mask at elt(0))"""
        for a in atoms_of(t):
            if a.kind == 'sel' and a.args[0] == '_ellipse_ix' and t is A(a) and len(a.args) == 2 and a.args[1] is A(lv):
                return a, sg(sub(A(mk('sel', '_geom_codes', elt(0))), const(7)), {0})
        return None

    def arr(self, name, spaces, kind='num', label=None):
        key = EQUIV.get(name, name)
        if name in IDENT:
            return ArrV((Ns(spaces[0]),), elt(0), None, label or name)
        if base_attr(name) == '_Ip1k':
            # links of a superlink join consecutive junctions
            return ArrV((Ns(spaces[0]),), add(A(mk('sel', name[:-5] + '_Ik', elt(0))), ONE), None, label or name)
        es = [elt(i) for i in range(len(spaces))]
        dims = tuple(Ns(s) for s in spaces)
        c = batom('b', key, *es) if kind == 'bool' else A(mk('sel', key, *es))
        return ArrV(dims, c, None, label or name)

    def attr(self, obj, name):
        k = (obj, name)
        if k in self.extra:
            return self.extra[k]
        pre = self.prefix.get(obj)
        if pre is None:
            return None
        if pre == 'H.' and name in SHARED:
            pre = ''
        if name == 'states':
            return DictV({}, mk('ext', 'states', pre))
        if name in SIZES:
            return Ns(SIZES[name])
        if name == '_dHp_max':
            # configured with dHp_min <= dHp_max (asserted by the model)
            return ArrV((Ns('p'),), add(A(mk('sel', pre + '_dHp_min', elt(0))), A(mk('sel', pre + '_dHp_range', elt(0)))), None, name)
        if name == 'bandwidth':
            return A(mk('sym', 'int', pre + name))
        if name in TRUEOPT:
            return True
        if name in EXTS:
            return Ext(mk('ext', 'attr', mk('ext', 'obj', pre or 'self'), name))
        if name in SCAL:
            return sym(pre + name)
        if name in STRS:
            return StrSym(pre + name)
        if name in BOPT:
            return batom('opt', pre + name)
        s = space_of(name)
        if s is None:
            return None
        sp = [c for c in s] if s in ('jj', 'jo') else [s]
        return self.arr(pre + name, sp, 'bool' if name in BOOL else 'num', label=name)

    def dict_keys(self, base):
        """the saved states of a model that has been stepped"""
        if base.kind == 'ext' and base.args[0] == 'states':
            return STATEKEYS
        return None

    def dict_item(self, base, k):
        if base.kind == 'ext' and base.args[0] == 'states':
            s = space_of('_' + k) or space_of(k)
            if s is None:
                return sym(base.args[1] + 'S.' + k)
            sp = [c for c in s] if s in ('jj', 'jo') else [s]
            return self.arr(base.args[1] + 'S.' + k, sp, label='states[%s]' % k)
        return None


def intatom(a):
    if a.kind in ('loop', 'elt', 'bv'):
        return True
    if a.kind == 'sym':
        return a.args[0] in ('N', 'int', 'iter_count')
    if a.kind == 'sel':
        b = base_attr(a.args[0])
        return isinstance(b, str) and (b in CODO or b in INTS)
    if a.kind == 'fn':
        return a.args[0] in ('len', 'count', 'int')
    return False


def posatom(a):
    if a.kind == 'sym':
        return a.args[0] in POSSYM or (a.args[0] == 'pos') or a.args == ('N', 'el')
    if a.kind == 'sel':
        b = base_attr(a.args[0])
        return b in POSARR
    if a.kind == 'num':
        return True
    if a.kind == 'fn':
        return a.args[0] in ('pi', 'exp')
    return False


def nonneg(a):
    """indices, sizes, loop counters and control inputs are never negative"""
    if a.kind == 'ext':
        return a.args[0] == 'lib' and a.args[1] == 'numpy.searchsorted'
    if a.kind == 'sel' and (base_attr(a.args[0]) == 'u_in' or a.args[0] in NONNEG):
        return True
    return intatom(a)


def upper(a):
    if a.kind == 'ext' and a.args[0] == 'lib' and a.args[1] == 'numpy.searchsorted':
        arr = a.args[2][0] if isinstance(a.args[2], tuple) and a.args[2] else None
        if isinstance(arr, N) and arr.kind == 'ext' and arr.args[0] == 'arr':
            return arr.args[1][:1]
    if a.kind == 'sel' and base_attr(a.args[0]) == 'u_in':
        return (ONE,)
    return None


T.POS[0] = posatom
from . import decide as _D
_D.NONNEG[0] = nonneg
_D.UPPER[0] = upper
T.INTATOM[0] = intatom
from . import interp as _I
# tables: every superlink has its own first and last junction, every junction one link that starts and one that ends at it
TINJ = {'superlinks.j_0', 'superlinks.j_1', 'links.j_0', 'links.j_1'}
TDISJ = {frozenset(('superlinks.j_0', 'superlinks.j_1')), frozenset(('superlinks.j_0', 'links.j_1')), frozenset(('superlinks.j_1', 'links.j_0'))}
_I.INJECTIVE[0] = lambda b: base_attr(b) in INJ or b in TINJ
_I.DISJOINT[0] = lambda a, b: frozenset((a, b)) in TDISJ
