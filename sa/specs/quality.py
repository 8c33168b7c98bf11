"""Reference equations of the water-quality solver: finite-volume transport with upwind advection,
dispersion over half a link, first-order decay; never executed, only analysed."""
import numpy as np
import scipy.linalg
import scipy.sparse.linalg
import spec.geometry as G


def sdiv(num, den):
    return np.where(den != 0, num / den, 0.0)


def pos(q):
    return np.maximum(q, 0.0)


def neg(q):
    return np.minimum(q, 0.0)


def section(code, y, d, B):
    # flow area at mean depth y
    if code == 1:
        return G.circular_A(y, y, d)
    if code == 3:
        return B * y
    raise ValueError('shape')


class SpecQ(QualityBuilder):

    def import_hydraulic_states(self, _dt):
        H = self.hydraulics
        S = H.states
        h1, h0 = H._h_Ik, S['h_Ik']
        Q = H._Q_ik
        self._H_j_next, self._h_Ik_next, self._Q_ik_next, self._Q_uk_next, self._Q_dk_next = H.H_j, H._h_Ik, H._Q_ik, H._Q_uk, H._Q_dk
        self._H_j_prev, self._h_Ik_prev = S['H_j'], S['h_Ik']
        if self.n_o:
            self._Q_o_next = H._Qo
        if self.n_w:
            self._Q_w_next = H._Qw
        if self.n_p:
            self._Q_p_next = H._Qp
        self._dx_ik_next = H._dx_ik
        self._A_sj = H._A_sj
        self._z_inv_j = H._z_inv_j
        self._V_j_next = H._A_sj * (H.H_j - H._z_inv_j)
        self._V_j_prev = H._A_sj * (S['H_j'] - H._z_inv_j)
        self._A_ik_prev = H._A_ik
        NI = H._dx_ik.size
        A = np.zeros(NI)
        up, dn = np.zeros(NI), np.zeros(NI)
        for i in range(NI):
            I = H._Ik[i]
            A[i] = section(H._geom_codes[i], (h1[I] + h1[I + 1]) / 2, H._g1_ik[i], H._B_ik[i])
            half = H._B_ik[i] * H._dx_ik[i] / 2
            # continuity over each half of the link
            up[i] = Q[i] + half * (h1[I] - h0[I]) / _dt
            dn[i] = Q[i] - half * (h1[I + 1] - h0[I + 1]) / _dt
        self._A_ik_next = A
        self._Q_ik_up_next, self._Q_ik_dn_next = up, dn
        n = self._I_1k.size
        uu, ud, du, dd = np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n)
        A1, A0, D1, D0 = np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n)
        for k in range(n):
            J, I, i = self._J_uk[k], self._I_1k[k], self._i_1k[k]
            half = H._B_uk[k] * self._dx_uk[k] / 2
            uu[k] = H._Q_uk[k] + half * (H.H_j[J] - S['H_j'][J]) / _dt
            ud[k] = H._Q_uk[k] - half * (h1[I] - h0[I]) / _dt
            A1[k] = section(H._geom_codes[i], (H.H_j[J] - H._z_inv_j[J] + h1[I]) / 2, H._g1_ik[i], H._B_uk[k])
            A0[k] = section(H._geom_codes[i], (S['H_j'][J] - H._z_inv_j[J] + h0[I]) / 2, H._g1_ik[i], H._B_uk[k])
            J, I, i = self._J_dk[k], self._I_Np1k[k], self._i_nk[k]
            half = H._B_dk[k] * self._dx_dk[k] / 2
            du[k] = H._Q_dk[k] + half * (h1[I] - h0[I]) / _dt
            dd[k] = H._Q_dk[k] - half * (H.H_j[J] - S['H_j'][J]) / _dt
            D1[k] = section(H._geom_codes[i], (H.H_j[J] - H._z_inv_j[J] + h1[I]) / 2, H._g1_ik[i], H._B_dk[k])
            D0[k] = section(H._geom_codes[i], (S['H_j'][J] - H._z_inv_j[J] + h0[I]) / 2, H._g1_ik[i], H._B_dk[k])
        self._Q_uk_up_next, self._Q_uk_dn_next, self._Q_dk_up_next, self._Q_dk_dn_next = uu, ud, du, dd
        self._A_uk_next, self._A_uk_prev, self._A_dk_next, self._A_dk_prev = A1, A0, D1, D0

    # alpha c_upstream + beta c + chi c_downstream = gamma
    def cell(self, Qu, Qd, dx, D, K, A1, A0, c0, dt):
        x = 2 * D * A1 / dx
        return (-pos(Qu) - x, pos(Qd) - neg(Qu) + 2 * x + K * dx * A1 + dx * (2 * A1 - A0) / dt, neg(Qd) - x, c0 * A1 * dx / dt)

    def link_coeffs(self, _dt=None, first_iter=True):
        if _dt is None:
            _dt = self.hydraulics.t - self.hydraulics.states['t']
        self._alpha_ik, self._beta_ik, self._chi_ik, self._gamma_ik = self.cell(
            self._Q_ik_up_next, self._Q_ik_dn_next, self._dx_ik_next, self._D_ik, self._K_ik, self._A_ik_next, self._A_ik_prev, self._c_ik, _dt)
        self._alpha_uk, self._beta_uk, self._chi_uk, self._gamma_uk = self.cell(
            self._Q_uk_up_next, self._Q_uk_dn_next, self._dx_uk, self._D_uk, 0.0, self._A_uk_next, self._A_uk_prev, self._c_uk, _dt)
        self._alpha_dk, self._beta_dk, self._chi_dk, self._gamma_dk = self.cell(
            self._Q_dk_up_next, self._Q_dk_dn_next, self._dx_dk, self._D_dk, 0.0, self._A_dk_next, self._A_dk_prev, self._c_dk, _dt)

    # kappa c_im1 + lambda c_I + mu c_i = eta
    def node_coeffs(self, _Q_0Ik=None, _c_0Ik=None, _dt=None, first_iter=True):
        if _dt is None:
            _dt = self.hydraulics.t - self.hydraulics.states['t']
        h1, h0 = self._h_Ik_next, self._h_Ik_prev
        for I in range(h1.size):
            k = self._kI[I]
            if self._is_start[I]:
                Qin, xin = self._Q_uk_dn_next[k], 2 * self._D_uk[k] * self._A_uk_next[k] / self._dx_uk[k]
            else:
                m = self.backward_I(I)
                Qin, xin = self._Q_ik_dn_next[m], 2 * self._D_ik[m] * self._A_ik_next[m] / self._dx_ik_next[m]
            if self._is_end[I]:
                Qout, xout = self._Q_dk_up_next[k], 2 * self._D_dk[k] * self._A_dk_next[k] / self._dx_dk[k]
            else:
                i = self._forward_I_i[I]
                Qout, xout = self._Q_ik_up_next[i], 2 * self._D_ik[i] * self._A_ik_next[i] / self._dx_ik_next[i]
            S = self._A_SIk[I]
            self._kappa_Ik[I] = -pos(Qin) - xin
            self._lambda_Ik[I] = S * h1[I] * self._K_Ik[I] + pos(Qout) - neg(Qin) + xin + xout + S * (2 * h1[I] - h0[I]) / _dt
            self._mu_Ik[I] = neg(Qout) - xout
            self._eta_Ik[I] = (0 if _c_0Ik is None or _Q_0Ik is None else _c_0Ik[I] * _Q_0Ik[I]) + S * h1[I] * self._c_Ik[I] / _dt

    def backward_I(self, I):
        # link upstream of an interior or end junction
        return self._backward_I_i[I] if self._is_end[I] else self._forward_I_i[I] - 1

    # c_i = U c_{I+1} + V + W c_1
    def forward_recurrence(self):
        a, b, x, g = self._alpha_ik, self._beta_ik, self._chi_ik, self._gamma_ik
        ka, la, mu, et = self._kappa_Ik, self._lambda_Ik, self._mu_Ik, self._eta_Ik
        T, U, V, W = self._T_ik, self._U_Ik, self._V_Ik, self._W_Ik
        for k in range(self.NK):
            i, I = self._i_1k[k], self._I_1k[k]
            T[i] = 1.0
            U[I] = -x[i] / b[i] if b[i] != 0 else 0
            V[I] = g[i] / b[i] if b[i] != 0 else 0
            W[I] = -a[i] / b[i] if b[i] != 0 else 0
            for m in range(self.nk[k] - 1):
                i, I = self._i_1k[k] + 1 + m, self._I_1k[k] + 1 + m
                # junction: c_I = (eta - kappa (V + W c_1) - mu c_i) / e
                e = la[I] + ka[I] * U[I - 1]
                T[i] = b[i] - (a[i] * mu[I] / e if e != 0 else 0)
                t = T[i]
                U[I] = -x[i] / t if t != 0 else 0
                V[I] = (g[i] / t if t != 0 else 0) - (a[i] * (et[I] - ka[I] * V[I - 1]) / (t * e) if t * e != 0 else 0)
                W[I] = a[i] * ka[I] * W[I - 1] / (t * e) if t * e != 0 else 0

    # c_i = X c_I + Y + Z c_{N+1}
    def backward_recurrence(self):
        a, b, x, g = self._alpha_ik, self._beta_ik, self._chi_ik, self._gamma_ik
        ka, la, mu, et = self._kappa_Ik, self._lambda_Ik, self._mu_Ik, self._eta_Ik
        O, X, Y, Z = self._O_ik, self._X_Ik, self._Y_Ik, self._Z_Ik
        for k in range(self.NK):
            i, I = self._i_nk[k], self._I_Nk[k]
            O[i] = 1.0
            X[I] = -a[i] / b[i] if b[i] != 0 else 0
            Y[I] = g[i] / b[i] if b[i] != 0 else 0
            Z[I] = -x[i] / b[i] if b[i] != 0 else 0
            for m in range(self.nk[k] - 1):
                i, I = self._i_nk[k] - 1 - m, self._I_Nk[k] - 1 - m
                e = la[I + 1] + mu[I + 1] * X[I + 1]
                O[i] = b[i] - (x[i] * ka[I + 1] / e if e != 0 else 0)
                t = O[i]
                X[I] = -a[i] / t if t != 0 else 0
                Y[I] = (g[i] / t if t != 0 else 0) - (x[i] * (et[I + 1] - mu[I + 1] * Y[I + 1]) / (t * e) if t * e != 0 else 0)
                Z[I] = x[i] * mu[I + 1] * Z[I + 1] / (t * e) if t * e != 0 else 0

    # c_end = rho c_Ju + tau c_Jd + zeta
    def boundary_coefficients(self):
        ka, la, mu, et = self._kappa_Ik, self._lambda_Ik, self._mu_Ik, self._eta_Ik
        I1, IN, IM = self._I_1k, self._I_Nk, self._I_Np1k
        # end concentrations from the first / last junction:  c_uk = X c_1 + Y + Z c_N+1,  c_dk = U c_N+1 + V + W c_1
        X = sdiv(-la[I1] - mu[I1] * self._X_Ik[I1], ka[I1])
        Y = sdiv(et[I1] - mu[I1] * self._Y_Ik[I1], ka[I1])
        Z = sdiv(-mu[I1] * self._Z_Ik[I1], ka[I1])
        U = sdiv(-la[IN + 1] - ka[IN + 1] * self._U_Ik[IN], mu[IN + 1])
        V = sdiv(et[IN + 1] - ka[IN + 1] * self._V_Ik[IN], mu[IN + 1])
        W = sdiv(-ka[IN + 1] * self._W_Ik[IN], mu[IN + 1])
        self._X_uk, self._Y_uk, self._Z_uk, self._U_dk, self._V_dk, self._W_dk = X, Y, Z, U, V, W
        # end cells:  c_1 = th c_uk + sg c_Ju + xi,  c_N+1 = th c_dk + sg c_Jd + xi
        tu, su, xu = sdiv(-self._beta_uk, self._chi_uk), sdiv(-self._alpha_uk, self._chi_uk), sdiv(self._gamma_uk, self._chi_uk)
        td, sd, xd = sdiv(-self._beta_dk, self._alpha_dk), sdiv(-self._chi_dk, self._alpha_dk), sdiv(self._gamma_dk, self._alpha_dk)
        self._theta_uk, self._sigma_uk, self._xi_uk = tu, su, xu
        self._theta_dk, self._sigma_dk, self._xi_dk = td, sd, xd
        m11, m12, m21, m22 = 1 - X * tu, -Z * td, -W * tu, 1 - U * td
        det = m11 * m22 - m12 * m21
        r1, r2 = X * xu + Y + Z * xd, W * xu + V + U * xd
        self._rho_uk = sdiv((m22 * X - m12 * W) * su, det)
        self._tau_uk = sdiv((m22 * Z - m12 * U) * sd, det)
        self._zeta_uk = sdiv(m22 * r1 - m12 * r2, det)
        self._rho_dk = sdiv((m11 * W - m21 * X) * su, det)
        self._tau_dk = sdiv((m11 * U - m21 * Z) * sd, det)
        self._zeta_dk = sdiv(m11 * r2 - m21 * r1, det)

    def sparse_matrix_equations(self, c_bc=None, _Q_0j=None, _c_0j=None, u=None, _dt=None, implicit=True, first_time=False):
        if _dt is None:
            _dt = self.hydraulics.t - self.hydraulics.states['t']
        bc, A, O, W, P = self.bc, self.A, self.O, self.W, self.P
        V1, V0 = self._V_j_next, self._V_j_prev
        # flux leaving the upstream superjunction: out_u c_Ju + in_u c_uk;  entering the downstream one: out_d c_dk + in_d c_Jd
        xu = 2 * self._D_uk * self._A_uk_next / self._dx_uk
        xd = 2 * self._D_dk * self._A_dk_next / self._dx_dk
        ou, iu = pos(self._Q_uk_up_next) + xu, neg(self._Q_uk_up_next) - xu
        od, idn = pos(self._Q_dk_dn_next) + xd, neg(self._Q_dk_dn_next) - xd
        F = np.zeros(self.M)
        D = self.D
        D[:] = 0.0
        for k in range(self.NK):
            F[self._J_uk[k]] += ou[k] + iu[k] * self._rho_uk[k]
            D[self._J_uk[k]] -= iu[k] * self._zeta_uk[k]
        for k in range(self.NK):
            F[self._J_dk[k]] -= idn[k] + od[k] * self._tau_dk[k]
            D[self._J_dk[k]] += od[k] * self._zeta_dk[k]
        clear(A, bc, self._J_uk, self._J_dk, self.NK)
        for j in range(self.M):
            A[j, j] = 1.0 if bc[j] else F[j] + (2 * V1[j] - V0[j]) / _dt + self._K_j[j] * V1[j]
        for k in range(self.NK):
            ju, jd = self._J_uk[k], self._J_dk[k]
            if not bc[ju]:
                A[ju, jd] += iu[k] * self._tau_uk[k]
            if not bc[jd]:
                A[jd, ju] -= od[k] * self._rho_dk[k]
        if self.n_o:
            clear(O, bc, self._J_uo, self._J_do, self.n_o)
            carry(O, bc, self._J_uo, self._J_do, self._Q_o_next, self.M, self.n_o)
        if self.n_w:
            clear(W, bc, self._J_uw, self._J_dw, self.n_w)
            carry(W, bc, self._J_uw, self._J_dw, self._Q_w_next, self.M, self.n_w)
        if self.n_p:
            clear(P, bc, self._J_up, self._J_dp, self.n_p)
            carry(P, bc, self._J_up, self._J_dp, self._Q_p_next, self.M, self.n_p)
        b = np.zeros(self.M)
        for j in range(self.M):
            if bc[j]:
                b[j] = self._c_j[j] if c_bc is None else c_bc[j]
            else:
                b[j] = V1[j] * self._c_j[j] / _dt + D[j] + (0 if _Q_0j is None or _c_0j is None else _Q_0j[j] * _c_0j[j])
        self.b = b

    def total(self):
        if self.n_o + self.n_w + self.n_p:
            return self.A + self.O + self.W + self.P
        return self.A

    def solve_sparse_matrix(self, u=None, implicit=True):
        l = self.total()
        if self._sparse:
            c = scipy.sparse.linalg.spsolve(l, self.b)
        else:
            c = scipy.linalg.solve(l, self.b)
        self._c_j = np.minimum(np.maximum(c, self._c_min), self._c_max)

    def solve_banded_matrix(self, u=None, implicit=True):
        l = self.total()
        w = self.bandwidth
        AB = np.zeros((2 * w + 1, self.M))
        for i in range(self.M):
            AB[w, i] = l[i, i]
        for n in range(w):
            for j in range(self.M - n - 1):
                AB[w - n - 1, -j - 1] = l[-j - 2 - n, -j - 1]
                AB[w + n + 1, j] = l[j + n + 1, j]
        c = scipy.linalg.solve_banded((w, w), AB, self.b)
        self._c_j = np.minimum(np.maximum(c, self._c_min), self._c_max)

    def solve_boundary_states(self):
        cu, cd = self._c_j[self._J_uk], self._c_j[self._J_dk]
        eu = self._rho_uk * cu + self._tau_uk * cd + self._zeta_uk
        ed = self._rho_dk * cu + self._tau_dk * cd + self._zeta_dk
        lo, hi = self._c_min, self._c_max
        self._c_1k = np.minimum(np.maximum(self._theta_uk * eu + self._sigma_uk * cu + self._xi_uk, lo), hi)
        self._c_Np1k = np.minimum(np.maximum(self._theta_dk * ed + self._sigma_dk * cd + self._xi_dk, lo), hi)
        self._c_uk = np.minimum(np.maximum(eu, lo), hi)
        self._c_dk = np.minimum(np.maximum(ed, lo), hi)

    def link_concentrations_from_recurrence(self):
        n = self._ik.size
        back, forth = np.zeros(n), np.zeros(n)
        for i in range(n):
            I, k = self._Ik[i], self._ki[i]
            back[i] = self._X_Ik[I] * self._c_Ik[I] + self._Y_Ik[I] + self._Z_Ik[I] * self._c_Ik[self._I_Np1k[k]]
            forth[i] = self._U_Ik[I] * self._c_Ik[I + 1] + self._V_Ik[I] + self._W_Ik[I] * self._c_Ik[self._I_1k[k]]
        return back, forth

    def solve_internals_backwards(self, subcritical_only=False):
        recover(self, True)

    def solve_internals_forwards(self, subcritical_only=False):
        recover(self, False)


def clear(A, bc, Ju, Jd, n):
    for k in range(n):
        if not bc[Ju[k]]:
            A[Ju[k], Jd[k]] = 0.0
        if not bc[Jd[k]]:
            A[Jd[k], Ju[k]] = 0.0


def carry(X, bc, Ju, Jd, Q, M, n):
    # a control carries the concentration of the superjunction the flow comes from
    d = np.zeros(M)
    for c in range(n):
        d[Ju[c]] += pos(Q[c])
    for c in range(n):
        d[Jd[c]] -= neg(Q[c])
    for j in range(M):
        X[j, j] = 0.0 if bc[j] else d[j]
    for c in range(n):
        if not bc[Ju[c]]:
            X[Ju[c], Jd[c]] += neg(Q[c])
        if not bc[Jd[c]]:
            X[Jd[c], Ju[c]] -= pos(Q[c])


def recover(self, back):
    cI, ci = self._c_Ik, self._c_ik
    U, V, W, X, Y, Z = self._U_Ik, self._V_Ik, self._W_Ik, self._X_Ik, self._Y_Ik, self._Z_Ik
    lo, hi = self._c_min, self._c_max
    for k in range(self.NK):
        n, i1, I1 = self.nk[k], self._i_1k[k], self._I_1k[k]
        c1, cn = self._c_1k[k], self._c_Np1k[k]
        cI[I1] = c1
        cI[I1 + n] = cn
        for m in range(n - 1):
            i, I = i1 + n - 1 - m, I1 + n - 1 - m
            q = U[I] * cI[I + 1] + V[I] + W[I] * c1
            p = (q - Y[I] - Z[I] * cn) / X[I] if X[I] != 0 else 0
            ci[i] = q
            cI[I] = p
            if cI[I] < lo:
                cI[I] = lo
            if cI[I] > hi:
                cI[I] = hi
            if ci[i] < lo:
                ci[i] = lo
            if ci[i] > hi:
                ci[i] = hi
        if back:
            ci[i1] = X[I1] * cI[I1] + Y[I1] + Z[I1] * cn
        else:
            ci[i1] = U[I1] * cI[I1 + 1] + V[I1] + W[I1] * c1
    cI[cI < lo] = lo
    ci[ci < lo] = lo
    cI[cI > hi] = hi
    ci[ci > hi] = hi
