"""Reference rules for what building a model makes of its input tables."""
import numpy as np
import scipy.integrate
import pipedream_solver.geometry
import pipedream_solver.ngeometry
import pandas as pd


class SpecBuild(nSuperLink):
    """every per-element variable is its own element's entry of the table that describes it"""

    def __init__(self, superlinks, superjunctions, links=None, junctions=None, transects={}, storages={}, orifices=None, weirs=None, pumps=None,
                 dt=60, sparse=False, min_depth=1e-5, method='b', inertial_damping=False, bc_method='z', exit_hydraulics=False, auto_permute=False,
                 end_length=None, end_method='b', internal_links=4, mobile_elements=False):
        SJ, SL = superjunctions, superlinks
        M, NK, NIk, Nik = len(SJ), len(SL), len(junctions), len(links)
        self.M, self.NK, self.NIk, self.Nik = M, NK, NIk, Nik
        self._dt, self._sparse, self._method, self._bc_method, self._end_method, self._exit_hydraulics = dt, sparse, method, bc_method, end_method, exit_hydraulics
        self.inertial_damping, self.mobile_elements, self.min_depth = inertial_damping, mobile_elements, min_depth
        self.banded = False
        # superjunctions
        z, h0 = SJ['z_inv'].values, SJ['h_0'].values
        self._z_inv_j = np.copy(z)
        H = np.zeros(M)
        for j in range(M):
            H[j] = max(z[j] + h0[j], z[j] + min_depth)
        self.H_j = H
        self.bc = np.copy(SJ['bc'].values)
        self._storage_a, self._storage_b, self._storage_c = np.copy(SJ['a'].values), np.copy(SJ['b'].values), np.copy(SJ['c'].values)
        self.max_depth = np.copy(SJ['max_depth'].values) if 'max_depth' in SJ else np.full(M, np.inf)
        # superlinks; the end with the higher invert is the upstream end and takes its own parameters along
        s0, s1, o0, o1 = SL['sj_0'].values, SL['sj_1'].values, SL['in_offset'].values, SL['out_offset'].values
        ends = {}
        for p, q in (('dx_uk', 'dx_dk'), ('C_uk', 'C_dk')):
            default = 0. if p == 'dx_uk' else 1 / 0.67 ** 2
            a = SL[p].values if p in SL else np.full(NK, default)
            b = SL[q].values if q in SL else np.full(NK, default)
            ends[p], ends[q] = (a, b) if not ((p in SL) and (q in SL)) else (np.zeros(NK), np.zeros(NK))
            if (p in SL) and (q in SL):
                for k in range(NK):
                    if z[s0[k]] + o0[k] < z[s1[k]] + o1[k]:
                        ends[p][k], ends[q][k] = b[k], a[k]
                    else:
                        ends[p][k], ends[q][k] = a[k], b[k]
        Ju, Jd, zu, zd = np.zeros(NK, dtype=int), np.zeros(NK, dtype=int), np.zeros(NK), np.zeros(NK)
        for k in range(NK):
            if z[s0[k]] + o0[k] < z[s1[k]] + o1[k]:
                Ju[k], Jd[k], zu[k], zd[k] = s1[k], s0[k], z[s1[k]] + o1[k], z[s0[k]] + o0[k]
            else:
                Ju[k], Jd[k], zu[k], zd[k] = s0[k], s1[k], z[s0[k]] + o0[k], z[s1[k]] + o1[k]
        self._J_uk, self._J_dk, self._z_inv_uk, self._z_inv_dk = Ju, Jd, zu, zd
        self._dx_uk, self._dx_dk, self._C_uk, self._C_dk = ends['dx_uk'], ends['dx_dk'], ends['C_uk'], ends['C_dk']
        self.max_depth_k = np.copy(SL['max_depth'].values) if 'max_depth' in SL else np.full(NK, np.inf)
        # internal links and junctions
        first, last = SL['j_0'].values, SL['j_1'].values
        I0, I1, ki, kI = links['j_0'].values, links['j_1'].values, links['k'].values, junctions['k'].values
        self._Ik, self._Ip1k, self._ki, self._kI = np.copy(I0), np.copy(I1), np.copy(ki), np.copy(kI)
        self._I_1k, self._I_Np1k = np.copy(first), np.copy(last)
        # unknown interior depths of superlink k (one less than its links) follow those of the superlinks before it
        self.nk = np.bincount(ki)
        self._k_1k = np.cumsum(self.nk - 1) - (self.nk - 1)
        self._dx_ik, self._Q_ik, self._A_c_ik, self._C_ik = np.copy(links['dx'].values), np.copy(links['Q_0'].values), np.copy(links['A_c'].values), np.copy(links['C'].values)
        self._ctrl = np.copy(links['ctrl'].values)
        self._n_ik = np.copy(links['roughness'].values if 'roughness' in links else links['n'].values)
        self._g1_ik = np.copy(links['g1'].values) if 'g1' in links else np.zeros(Nik)
        self._g2_ik = np.copy(links['g2'].values) if 'g2' in links else np.zeros(Nik)
        self._g3_ik = np.copy(links['g3'].values) if 'g3' in links else np.zeros(Nik)
        self._g4_ik = np.copy(links['g4'].values) if 'g4' in links else np.zeros(Nik)
        self._g5_ik = np.copy(links['g5'].values) if 'g5' in links else np.zeros(Nik)
        self._g6_ik = np.copy(links['g6'].values) if 'g6' in links else np.zeros(Nik)
        self._g7_ik = np.copy(links['g7'].values) if 'g7' in links else np.zeros(Nik)
        hI, zI = junctions['h_0'].values, junctions['z_inv'].values
        self._A_SIk, self._z_inv_Ik = np.copy(junctions['A_s'].values), np.copy(zI)
        h = np.zeros(NIk)
        for I in range(NIk):
            h[I] = max(hI[I], min_depth)
        self._h_Ik = h
        slope = np.zeros(Nik)
        for i in range(Nik):
            slope[i] = (zI[I0[i]] - zI[I1[i]]) / links['dx'].values[i]
        self._S_o_ik = slope
        su, sd, hu, hd = np.zeros(NK), np.zeros(NK), np.zeros(NK), np.zeros(NK)
        for k in range(NK):
            if self._dx_uk[k] > 0:
                su[k] = (zu[k] - zI[first[k]]) / self._dx_uk[k]
            if self._dx_dk[k] > 0:
                sd[k] = (zI[last[k]] - zd[k]) / self._dx_dk[k]
            hu[k], hd[k] = h[first[k]], h[last[k]]
        self._S_o_uk, self._S_o_dk, self._h_uk, self._h_dk = su, sd, hu, hd
        self._theta_uk, self._theta_dk, self._sigma_ik = np.ones(NK), np.ones(NK), np.ones(Nik)
        # the links and junctions next to each junction
        nextI, nextlink, prevI, prevlink = np.arange(NIk), np.arange(NIk), np.arange(NIk), np.arange(NIk)
        for i in range(Nik):
            nextI[I0[i]], nextlink[I0[i]], prevI[I1[i]], prevlink[I1[i]] = I1[i], i, I0[i], i
        i1, iN = nextlink[first], prevlink[last]
        self._i_1k, self._i_nk, self._I_2k, self._I_Nk = i1, iN, nextI[first], prevI[last]
        start, end = np.zeros(NIk, dtype=bool), np.zeros(NIk, dtype=bool)
        start[first], end[last] = True, True
        self._is_start, self._is_end = start, end
        ls, le = np.zeros(Nik, dtype=bool), np.zeros(Nik, dtype=bool)
        ls[i1], le[iN] = True, True
        self._link_start, self._link_end = ls, le
        self._n_uk, self._n_dk, self._Q_uk, self._Q_dk = self._n_ik[i1], self._n_ik[iN], self._Q_ik[i1], self._Q_ik[iN]
        names = links['friction_method'].values if 'friction_method' in links else np.array(['cm'] * Nik)
        code = pd.Series(names).map({'cm': 0, 'hw': 1, 'dw': 2}).values
        self._Sf_method_ik, self._Sf_method_uk, self._Sf_method_dk = code, code[i1], code[iN]
        length = np.zeros(NK)
        for i in range(Nik):
            length[ki[i]] += links['dx'].values[i]
        self._dx_k = length
        # orifices
        if orifices is not None:
            n = len(orifices)
            self.n_o = n
            self._J_uo, self._J_do = np.copy(orifices['sj_0'].values), np.copy(orifices['sj_1'].values)
            self._Ao_max, self._Ao, self._Co = np.copy(orifices['A'].values), np.copy(orifices['A'].values), np.copy(orifices['C'].values)
            self._z_o, self._y_max_o = np.copy(orifices['z_o'].values), np.copy(orifices['y_max'].values)
            self._tau_o = (orifices['orientation'].values == 'side').astype(float)
            if 'shape' in orifices.columns:
                self._g1_o, self._g2_o, self._g3_o = np.copy(orifices['g1'].values), np.copy(orifices['g2'].values), np.copy(orifices['g3'].values)
            else:
                # a square opening of the given area
                self._g1_o, self._g2_o, self._g3_o = np.sqrt(orifices['A'].values), np.sqrt(orifices['A'].values), np.zeros(n)
            self._unidir_o = np.copy(orifices['oneway'].values) if 'oneway' in orifices.columns else np.zeros(n, dtype=bool)
            self._Qo = np.zeros(n)
        else:
            self.n_o = 0
        if weirs is not None:
            n = len(weirs)
            self.n_w = n
            self._J_uw, self._J_dw = np.copy(weirs['sj_0'].values), np.copy(weirs['sj_1'].values)
            self._Cwr, self._Cwt, self._L_w, self._s_w = np.copy(weirs['Cr'].values), np.copy(weirs['Ct'].values), np.copy(weirs['L'].values), np.copy(weirs['s'].values)
            self._z_w, self._y_max_w = np.copy(weirs['z_w'].values), np.copy(weirs['y_max'].values)
            self._Hw, self._Qw = np.zeros(n), np.zeros(n)
        else:
            self.n_w = 0
        if pumps is not None:
            n = len(pumps)
            self.n_p = n
            self._J_up, self._J_dp = np.copy(pumps['sj_0'].values), np.copy(pumps['sj_1'].values)
            self._z_p, self._a_p, self._b_p, self._c_p = np.copy(pumps['z_p'].values), np.copy(pumps['a_p'].values), np.copy(pumps['b_p'].values), np.copy(pumps['c_p'].values)
            self._dHp_max, self._dHp_min = np.copy(pumps['dH_max'].values), np.copy(pumps['dH_min'].values)
            self._Qp = np.zeros(n)
        else:
            self.n_p = 0
        self.iter_count = 0
        self.t = 0


class SpecStorages(nSuperLink):
    """every tabulated superjunction uses the table it names; tables are laid out one after the other"""

    def configure_storages(self):
        tables, kind, named = self.storages, self._storage_type, self._storage_table
        self._functional = kind.str.lower().values == 'functional'
        self._tabular = kind.str.lower().values == 'tabular'
        self._volumes = [scipy.integrate.cumulative_trapezoid(tables[t]['A'], tables[t]['h'], initial=0.) for t in sorted(tables)]
        self._storage_js = named.dropna().index.values


class SpecShapes(nSuperLink):
    """every link and orifice gets the code of its own shape; closed shapes without a slot width get the default one"""

    def configure_hydraulic_geometry(self):
        number = pipedream_solver.geometry.geom_code
        self._geom_codes = self._shape_ik.map(number).fillna(0).values
        self._geom_codes_o = self._shape_o.map(number).fillna(0).values
        g2, g3 = self._g2_ik, self._g3_ik
        for i in range(self.NK_links):
            code = self._geom_codes[i]
            if (code == number['circular'] or code == number['force_main']) and g2[i] == 0:
                g2[i] = 0.001
            if code == number['rect_closed'] and g3[i] == 0:
                g3[i] = 0.001
        self._tables = []
        if self.transects:
            for name in sorted(self.transects):
                x, y = self.transects[name]['x'], self.transects[name]['y']
                w = np.linspace(0., y.max(), self.transects[name].get('sample_points', 100))
                A = np.array([pipedream_solver.ngeometry.Transect_A_ik(d, x, y) for d in w])
                B = np.array([pipedream_solver.ngeometry.Transect_B_ik(d, x, y) for d in w])
                P = np.array([pipedream_solver.ngeometry.Transect_Pe_ik(d, x, y) for d in w])
                R = np.zeros(len(w))
                for i in range(len(w)):
                    if P[i] != 0:
                        R[i] = A[i] / P[i]
                self._tables += [w, A, B, P, R]


class SpecQBuild(QualityBuilder):
    """every element's water-quality parameters are its own; omitted per-link and per-junction tables fall back on the superlink's"""

    def __init__(self, hydraulics, superjunction_params, superlink_params, junction_params=None, link_params=None, c_min=0.0, c_max=np.inf):
        H = self.hydraulics = hydraulics
        order = H.permutations
        self._K_j = superjunction_params['K'].values[order]
        self._c_j = superjunction_params['c_0'].values[order]
        self.bc = superjunction_params['bc'].values[order]
        K, D, c = superlink_params['K'].values, superlink_params['D'].values, superlink_params['c_0'].values
        if junction_params is None:
            self._K_Ik, self._c_Ik = K[H._kI], c[H._kI]
        else:
            self._K_Ik, self._c_Ik = junction_params['K'].values + 0., junction_params['c_0'].values + 0.
        if link_params is None:
            self._D_ik, self._K_ik, self._c_ik = D[H._ki], K[H._ki], c[H._ki]
        else:
            self._D_ik, self._K_ik, self._c_ik = link_params['D'].values + 0., link_params['K'].values + 0., link_params['c_0'].values + 0.
        self._D_uk = superlink_params['D_uk'].values + 0. if 'D_uk' in superlink_params else D + 0.
        self._D_dk = superlink_params['D_dk'].values + 0. if 'D_dk' in superlink_params else D + 0.
        # the structure is the hydraulic model's
        self._ki, self._kI, self._ik, self._I, self._Ik, self._Ip1k, self._k = H._ki, H._kI, H._ik, H._I, H._Ik, H._Ip1k, H._k
        self._dx_uk, self._dx_dk, self._A_SIk = H._dx_uk, H._dx_dk, H._A_SIk
        self._forward_I_i, self._backward_I_i, self._is_start, self._is_end = H.forward_I_i, H.backward_I_i, H._is_start, H._is_end
        self._I_1k, self._i_1k, self._I_Nk, self._I_Np1k, self._i_nk = H._I_1k, H._i_1k, H._I_Nk, H._I_Np1k, H._i_nk
        self.NK, self.M, self.nk, self.n_o, self.n_w, self.n_p, self.bandwidth, self._sparse = H.NK, H.M, H.nk, H.n_o, H.n_w, H.n_p, H.bandwidth, H._sparse
        self._J_uk, self._J_dk, self._J_uo, self._J_do, self._J_uw, self._J_dw, self._J_up, self._J_dp = H._J_uk, H._J_dk, H._J_uo, H._J_do, H._J_uw, H._J_dw, H._J_up, H._J_dp
        # concentrations at the ends start halfway between the superjunction and the superlink's own end junction
        self._c_1k, self._c_Np1k = np.zeros(self.NK), np.zeros(self.NK)
        self._c_uk, self._c_dk = np.zeros(self.NK), np.zeros(self.NK)
        for k in range(self.NK):
            self._c_1k[k], self._c_Np1k[k] = self._c_Ik[H._I_1k[k]], self._c_Ik[H._I_Np1k[k]]
            self._c_uk[k] = (self._c_j[H._J_uk[k]] + self._c_Ik[H._I_1k[k]]) / 2
            self._c_dk[k] = (self._c_j[H._J_dk[k]] + self._c_Ik[H._I_Np1k[k]]) / 2
        self._c_min, self._c_max = c_min, c_max
