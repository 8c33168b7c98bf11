"""Reference equations of the hydraulic solver, written from docs/governing-equations.md and the
model description (SUPERLINK: implicit staggered continuity/momentum, end conditions, control
structure laws).  Never executed: the analysis reads it exactly as it reads the code under /repo."""
import numpy as np
import scipy.linalg
import scipy.sparse.linalg
import spec.geometry as G
from pipedream_solver.nsuperlink import numba_solve_internals_ls


def sdiv(num, den):
    return np.where(den != 0, num / den, 0.0)


def friction(Q, dx, A, R, n, method):
    # momentum loss coefficient of the flow per unit width of time level (m/s); 0 in a dry section
    if A > 0:
        if method == 0:      # Manning
            return 9.81 * n ** 2 * abs(Q) * dx / (A * R ** (4 / 3))
        if method == 1:      # Hazen-Williams
            return 1.354 * 9.81 * abs(Q) ** 0.85 * dx / (A ** 0.85 * n ** 1.85 * R ** 1.1655)
        # Darcy-Weisbach, Swamee-Jain friction factor
        Re = 4 * R * abs(Q) / A / 1.0034e-6
        f = 0.25 / np.log10(n / (3.7 * (4 * R)) + 5.74 / Re ** 0.9) ** 2
        return 0.01274 * 9.81 * f * abs(Q) * dx / (A * R)
    return 0.0


class SpecSL(nSuperLink):

    # ------------------------------------------------------------------ least-squares recovery
    def superlink_flow_from_recurrence(self):
        n = self._ik.size
        back, forth = np.zeros(n), np.zeros(n)
        for i in range(n):
            I, k = self._Ik[i], self._ki[i]
            back[i] = self._X_Ik[I] * self._h_Ik[I] + self._Y_Ik[I] + self._Z_Ik[I] * self._h_dk[k]
            forth[i] = self._U_Ik[I] * self._h_Ik[I + 1] + self._V_Ik[I] + self._W_Ik[I] * self._h_uk[k]
        return back, forth

    def superlink_depth_from_recurrence(self):
        back, forth = np.empty(self._I.size), np.empty(self._I.size)
        for i in range(self._ik.size):
            I, k = self._Ik[i], self._ki[i]
            back[I] = sdiv(self._Q_ik[i] - self._Y_Ik[I] - self._Z_Ik[I] * self._h_dk[k], self._X_Ik[I])
            forth[I + 1] = sdiv(self._Q_ik[i] - self._V_Ik[I] - self._W_Ik[I] * self._h_uk[k], self._U_Ik[I])
        for k in range(self.NK):
            back[self._I_1k[k]] = forth[self._I_1k[k]] = self._h_uk[k]
        for k in range(self.NK):
            back[self._I_Np1k[k]] = forth[self._I_Np1k[k]] = self._h_dk[k]
        return np.maximum(back, self.min_depth), np.maximum(forth, self.min_depth)

    def solve_superlink_depths_alt(self):
        # the end depths for which both recurrences give the end flows
        X, Y, Z = (a[self._I_1k] for a in (self._X_Ik, self._Y_Ik, self._Z_Ik))
        U, V, W = (a[self._I_Nk] for a in (self._U_Ik, self._V_Ik, self._W_Ik))
        d = X * U - Z * W
        d = np.where(d == 0, np.inf, d)
        self._h_uk = (U * (self._Q_uk - Y) - Z * (self._Q_dk - V)) / d
        self._h_dk = (X * (self._Q_dk - V) - W * (self._Q_uk - Y)) / d

    def solve_internals_lsq(self):
        start, end, penult = self._is_start, self._is_end, self._is_penult
        b = np.zeros(self._ik.size)
        for i in range(self._ik.size):
            I, k = self._Ik[i], self._ki[i]
            b[i] = self._Y_Ik[I] + self._Z_Ik[I] * self._h_dk[k] - self._V_Ik[I] - self._W_Ik[I] * self._h_uk[k]
        b[self._link_start] += self._X_Ik[start] * self._h_uk
        b[self._link_end] -= self._U_Ik[penult] * self._h_dk
        h = numba_solve_internals_ls(self._h_Ik, self.NK, self.nk, self._k_1k, self._i_1k, self._I_1k,
                                     self._U_Ik[~penult & ~end], self._X_Ik[~start & ~end], b)
        for k in range(self.NK):
            h[self._I_1k[k]] = self._h_uk[k]
        for k in range(self.NK):
            h[self._I_Np1k[k]] = self._h_dk[k]
        h[h < self.min_depth] = self.min_depth
        self._h_Ik = h
        back, forth = self.superlink_flow_from_recurrence()
        self._Q_ik = (back + forth) / 2

    # ------------------------------------------------------------------ velocities
    def node_velocities(self):
        Q, A, dx = self._Q_ik, self._A_ik, self._dx_ik
        for i in range(Q.size):
            self._u_ik[i] = Q[i] / A[i] if A[i] != 0 else 0.0
        u = self._u_ik
        for i in range(Q.size):
            # velocity at the upstream junction of link i: distance weighted
            if self._link_start[i]:
                self._u_Ik[i] = u[i]
            else:
                L = dx[i - 1] + dx[i]
                self._u_Ik[i] = (dx[i] * u[i - 1] + dx[i - 1] * u[i]) / L if L != 0 else 0.0
        for i in range(Q.size):
            if self._link_end[i]:
                self._u_Ip1k[i] = u[i]
            else:
                L = dx[i + 1] + dx[i]
                self._u_Ip1k[i] = (dx[i] * u[i + 1] + dx[i + 1] * u[i]) / L if L != 0 else 0.0

    # ------------------------------------------------------------------ momentum
    # the band reaches the outermost diagonal any connected pair of superjunctions lies on
    def _compute_bandwidth(self):
        At = self.adjacency_matrix
        w = 0
        for k in range(1, self.M):
            if np.diag(At, k=k).any():
                w = k
        self.bandwidth = w

    def link_coeffs(self, _dt=None, first_iter=True):
        if _dt is None:
            _dt = self._dt
        s = self._sigma_ik
        A, dx = self._A_ik, self._dx_ik
        a = -np.maximum(self._u_Ik, 0) * s
        c = -np.maximum(-self._u_Ip1k, 0) * s
        fr = np.zeros(A.size)
        for i in range(A.size):
            fr[i] = friction(self._Q_ik[i], dx[i], A[i], self._R_ik[i], self._n_ik[i], self._Sf_method_ik[i])
        ctrl = np.where(self._ctrl, self._C_ik * A * np.abs(self._Q_ik) / self._A_c_ik ** 2, 0.0)
        self._a_ik = a
        self._c_ik = c
        self._b_ik = dx * s / _dt + fr + ctrl - a - c
        self._P_ik = self.states['Q_ik'] * dx * s / _dt + 9.81 * A * self._S_o_ik * dx

    # ------------------------------------------------------------------ continuity
    def node_coeffs(self, _Q_0Ik=None, _dt=None, first_iter=True):
        if _dt is None:
            _dt = self._dt
        h = self.states['h_Ik']
        n = h.size
        for I in range(n):
            k = self._kI[I]
            if self._is_start[I]:
                i = self.forward_I_i[I]
                S = (self._B_uk[k] * self._dx_uk[k] + self._B_ik[i] * self._dx_ik[i]) / 2 + self._A_SIk[I]
            elif self._is_end[I]:
                i = self.backward_I_i[I]
                S = (self._B_ik[i] * self._dx_ik[i] + self._B_dk[k] * self._dx_dk[k]) / 2 + self._A_SIk[I]
            else:
                i = self.forward_I_i[I]
                S = (self._B_ik[i] * self._dx_ik[i] + self._B_ik[i - 1] * self._dx_ik[i - 1]) / 2 + self._A_SIk[I]
            q = 0.0 if _Q_0Ik is None else _Q_0Ik[I]
            self._E_Ik[I] = S / _dt
            self._D_Ik[I] = q + S * h[I] / _dt

    # ------------------------------------------------------------------ elimination inside a superlink
    def forward_recurrence(self):
        # Q_i = U_I h_{I+1} + V_I + W_I h_1
        g = 9.81
        a, b, c, P, A = self._a_ik, self._b_ik, self._c_ik, self._P_ik, self._A_ik
        E, D = self._E_Ik, self._D_Ik
        T, U, V, W = self._T_ik, self._U_Ik, self._V_Ik, self._W_Ik
        for k in range(self.NK):
            i = self._i_1k[k]
            I = self._I_1k[k]
            T[i] = a[i] + b[i] + c[i]
            U[I] = (c[i] * E[I + 1] - g * A[i]) / T[i] if T[i] != 0 else 0
            V[I] = (P[i] + a[i] * D[I] - c[i] * D[I + 1]) / T[i] if T[i] != 0 else 0
            W[I] = (g * A[i] - a[i] * E[I]) / T[i] if T[i] != 0 else 0
            for m in range(self.nk[k] - 1):
                i = self._i_1k[k] + m + 1
                I = self._I_1k[k] + m + 1
                gae = g * A[i] - a[i] * E[I]
                d = U[I - 1] - E[I]
                T[i] = a[i] + b[i] + c[i] - (gae / d if d != 0 else 0)
                t = T[i]
                U[I] = (c[i] * E[I + 1] - g * A[i]) / t if t != 0 else 0
                V[I] = (P[i] + a[i] * D[I] - c[i] * D[I + 1] - gae * (V[I - 1] + D[I]) / d) / t if t != 0 else 0
                W[I] = -gae * W[I - 1] / (d * t) if d * t != 0 else 0

    def backward_recurrence(self):
        # Q_i = X_I h_I + Y_I + Z_I h_{N+1}
        g = 9.81
        a, b, c, P, A = self._a_ik, self._b_ik, self._c_ik, self._P_ik, self._A_ik
        E, D = self._E_Ik, self._D_Ik
        O, X, Y, Z = self._O_ik, self._X_Ik, self._Y_Ik, self._Z_Ik
        for k in range(self.NK):
            i = self._i_nk[k]
            I = self._I_Nk[k]
            O[i] = a[i] + b[i] + c[i]
            X[I] = (g * A[i] - a[i] * E[I]) / O[i] if O[i] != 0 else 0
            Y[I] = (P[i] + a[i] * D[I] - c[i] * D[I + 1]) / O[i] if O[i] != 0 else 0
            Z[I] = (c[i] * E[I + 1] - g * A[i]) / O[i] if O[i] != 0 else 0
            for m in range(self.nk[k] - 1):
                i = self._i_nk[k] - 1 - m
                I = self._I_Nk[k] - 1 - m
                gce = g * A[i] - c[i] * E[I + 1]
                d = X[I + 1] + E[I + 1]
                O[i] = a[i] + b[i] + c[i] + (gce / d if d != 0 else 0)
                t = O[i]
                X[I] = (g * A[i] - a[i] * E[I]) / t if t != 0 else 0
                Y[I] = (P[i] + a[i] * D[I] - c[i] * D[I + 1] - gce * (D[I + 1] - Y[I + 1]) / d) / t if t != 0 else 0
                Z[I] = gce * Z[I + 1] / (d * t) if d * t != 0 else 0

    # ------------------------------------------------------------------ end conditions  h = kappa Q + lambda H + mu
    def superlink_upstream_head_coefficients(self, _dt=None):
        if _dt is None:
            _dt = self._dt
        g = 9.81
        H = self.H_j[self._J_uk]
        th = np.where(H >= self._z_inv_uk, 1.0, 0.0)
        self._theta_uk = th
        self._lambda_uk = th
        Q, A, C = self._Q_uk, self._A_uk, self._C_uk
        if self._bc_method == 'z':
            self._kappa_uk = -sdiv(np.abs(Q) * C, 2 * g * A ** 2)
            self._mu_uk = -th * self._z_inv_uk
        elif self._bc_method == 'b':
            fr = np.zeros(Q.size)
            for k in range(Q.size):
                fr[k] = friction(Q[k], self._dx_uk[k], A[k], self._R_uk[k], self._n_uk[k], self._Sf_method_uk[k])
            self._kappa_uk = -(self._dx_uk / _dt + fr) / (g * A) - C * np.abs(Q) / (2 * g * A ** 2)
            self._mu_uk = self.states['Q_uk'] * self._dx_uk / (g * A * _dt) - th * self._z_inv_uk + self._dx_uk * self._S_o_uk
        else:
            raise ValueError('bc')

    def superlink_downstream_head_coefficients(self, _dt=None):
        if _dt is None:
            _dt = self._dt
        g = 9.81
        H = self.H_j[self._J_dk]
        th = np.where(H >= self._z_inv_dk, 1.0, 0.0)
        self._theta_dk = th
        self._lambda_dk = th
        Q, A, C = self._Q_dk, self._A_dk, self._C_dk
        if self._bc_method == 'z':
            self._kappa_dk = sdiv(np.abs(Q) * C, 2 * g * A ** 2)
            self._mu_dk = -th * self._z_inv_dk
        elif self._bc_method == 'b':
            fr = np.zeros(Q.size)
            for k in range(Q.size):
                fr[k] = friction(Q[k], self._dx_dk[k], A[k], self._R_dk[k], self._n_dk[k], self._Sf_method_dk[k])
            self._kappa_dk = (self._dx_dk / _dt + fr) / (g * A) + C * np.abs(Q) / (2 * g * A ** 2)
            self._mu_dk = -self.states['Q_dk'] * self._dx_dk / (g * A * _dt) - th * self._z_inv_dk - self._dx_dk * self._S_o_dk
        else:
            raise ValueError('bc')

    # ------------------------------------------------------------------ Q_end = alpha H_u + beta H_d + chi
    def superlink_flow_coefficients(self):
        X, Y, Z = self._X_Ik[self._I_1k], self._Y_Ik[self._I_1k], self._Z_Ik[self._I_1k]
        U, V, W = self._U_Ik[self._I_Nk], self._V_Ik[self._I_Nk], self._W_Ik[self._I_Nk]
        if self._end_method != 'o':
            # end junction storage lies between the end flow and the first/last link flow
            X = X + self._E_Ik[self._I_1k]
            Y = Y - self._D_Ik[self._I_1k]
            U = U - self._E_Ik[self._I_Np1k]
            V = V + self._D_Ik[self._I_Np1k]
        ku, kd, lu, ld, mu, md = self._kappa_uk, self._kappa_dk, self._lambda_uk, self._lambda_dk, self._mu_uk, self._mu_dk
        # (1 - X ku) Qu - Z kd Qd = X (lu Hu + mu) + Y + Z (ld Hd + md)
        # -W ku Qu + (1 - U kd) Qd = W (lu Hu + mu) + V + U (ld Hd + md)
        m11, m12, m21, m22 = 1 - X * ku, -Z * kd, -W * ku, 1 - U * kd
        det = m11 * m22 - m12 * m21
        self._D_k_star = det
        self._alpha_uk = sdiv(m22 * X * lu - m12 * W * lu, det)
        self._beta_uk = sdiv(m22 * Z * ld - m12 * U * ld, det)
        r1 = X * mu + Y + Z * md
        r2 = W * mu + V + U * md
        self._chi_uk = sdiv(m22 * r1 - m12 * r2, det)
        self._alpha_dk = sdiv(m11 * W * lu - m21 * X * lu, det)
        self._beta_dk = sdiv(m11 * U * ld - m21 * Z * ld, det)
        self._chi_dk = sdiv(m11 * r2 - m21 * r1, det)

    def solve_superlink_flows(self):
        Hu, Hd = self.H_j[self._J_uk], self.H_j[self._J_dk]
        self._Q_uk = self._alpha_uk * Hu + self._beta_uk * Hd + self._chi_uk
        self._Q_dk = self._alpha_dk * Hu + self._beta_dk * Hd + self._chi_dk

    def solve_superlink_depths(self):
        self._h_uk = self._kappa_uk * self._Q_uk + self._lambda_uk * self.H_j[self._J_uk] + self._mu_uk
        self._h_dk = self._kappa_dk * self._Q_dk + self._lambda_dk * self.H_j[self._J_dk] + self._mu_dk

    # ------------------------------------------------------------------ orifices
    def orifice_flow_coefficients(self, u=None):
        g = 9.81
        for o in range(self.n_o):
            w = 0.0 if u is None else u[o]
            Hu, Hd = self.H_j[self._J_uo[o]], self.H_j[self._J_do[o]]
            bottom = self._z_inv_j[self._J_uo[o]] + self._z_o[o]
            hi, lo = max(Hu, Hd), min(Hu, Hd)
            y = self._tau_o[o] * self._y_max_o[o] * w          # vertical opening (0 for a bottom orifice)
            gam = 2 * g * self._Co[o] ** 2 * self._Ao[o] ** 2 / abs(self._Qo[o]) if self._Qo[o] != 0 else 0.0
            fwd = Hu >= Hd
            if self._unidir_o[o] and Hd >= Hu:
                al, be, ch = 0.0, 0.0, 0.0
            elif hi > bottom + y:
                if lo > bottom + y / 2:
                    al, be, ch = gam, -gam, 0.0
                elif fwd:
                    al, be, ch = gam, 0.0, -gam * (bottom + y / 2)
                else:
                    al, be, ch = 0.0, -gam, gam * (bottom + y / 2)
            elif hi > bottom:
                if fwd:
                    al, be, ch = gam, 0.0, -gam * bottom
                else:
                    al, be, ch = 0.0, -gam, gam * bottom
            else:
                al, be, ch = 0.0, 0.0, 0.0
            self._alpha_o[o] = al
            self._beta_o[o] = be
            self._chi_o[o] = ch

    def solve_orifice_flows(self, dt, u=None):
        g = 9.81
        Q = np.zeros(self.n_o)
        for o in range(self.n_o):
            w = 0.0 if u is None else u[o]
            ju, jd = self._J_uo[o], self._J_do[o]
            Hu, Hd = self.H_j[ju], self.H_j[jd]
            bottom = self._z_inv_j[ju] + self._z_o[o]
            hi, lo = max(Hu, Hd), min(Hu, Hd)
            y = self._tau_o[o] * self._y_max_o[o] * w
            if self._unidir_o[o] and Hd >= Hu:
                head = 0.0
            elif hi > bottom + y:
                head = hi - lo if lo > bottom + y / 2 else hi - bottom - y / 2
            elif hi > bottom:
                head = hi - bottom
            else:
                head = 0.0
            q = self._Co[o] * self._Ao[o] * (2 * g * abs(head)) ** 0.5
            if Hu >= Hd:
                Q[o] = min(abs(q), abs(self._V_sj[ju]) / dt)
            else:
                Q[o] = -min(abs(q), abs(self._V_sj[jd]) / dt)
        self._Qo = Q

    # ------------------------------------------------------------------ weirs
    def weir_flow_coefficients(self, u=None):
        for w in range(self.n_w):
            s = 0.0 if u is None else u[w]
            Hu, Hd = self.H_j[self._J_uw[w]], self.H_j[self._J_dw[w]]
            crest = self._z_inv_j[self._J_uw[w]] + self._z_w[w] + (1 - s) * self._y_max_w[w]
            hi, lo = max(Hu, Hd), min(Hu, Hd)
            fwd = Hu >= Hd
            if hi > crest and lo > crest:
                h = hi - lo
            elif hi > crest:
                h = hi - crest
            else:
                h = 0.0
            q = self._Cwr[w] * self._L_w[w] * h + self._Cwt[w] * self._s_w[w] * h ** 2
            gam = q ** 2 / abs(self._Qw[w]) if self._Qw[w] != 0 else 0.0
            if hi <= crest:
                al, be, ch = 0.0, 0.0, 0.0
            elif lo > crest:
                al, be, ch = gam, -gam, 0.0
            elif fwd:
                al, be, ch = gam, 0.0, -gam * crest
            else:
                al, be, ch = 0.0, -gam, gam * crest
            self._alpha_w[w] = al
            self._beta_w[w] = be
            self._chi_w[w] = ch

    def solve_weir_flows(self, u=None):
        Q = np.zeros(self.n_w)
        for w in range(self.n_w):
            s = 0.0 if u is None else u[w]
            Hu, Hd = self.H_j[self._J_uw[w]], self.H_j[self._J_dw[w]]
            crest = self._z_inv_j[self._J_uw[w]] + self._z_w[w] + (1 - s) * self._y_max_w[w]
            hi, lo = max(Hu, Hd), min(Hu, Hd)
            if hi > crest and lo > crest:
                h = hi - lo
            elif hi > crest:
                h = hi - crest
            else:
                h = 0.0
            q = abs(self._Cwr[w] * self._L_w[w] * h + self._Cwt[w] * self._s_w[w] * h ** 2) * h ** 0.5
            Q[w] = q if Hu >= Hd else -q
        self._Qw = Q

    # ------------------------------------------------------------------ pumps
    def pump_flow_coefficients(self, u=None):
        for p in range(self.n_p):
            s = 0.0 if u is None else u[p]
            Hu, Hd = self.H_j[self._J_up[p]], self.H_j[self._J_dp[p]]
            intake = self._z_inv_j[self._J_up[p]] + self._z_p[p]
            lo, hi = self._dHp_min[p], self._dHp_max[p]
            dH = Hd - Hu
            den = self._b_p[p] * abs(self._Qp[p]) ** (self._c_p[p] - 1)
            gam = s / den if den != 0 else 0.0
            if Hu <= intake:
                al, be, ch = 0.0, 0.0, 0.0
            elif dH > lo and dH < hi:
                al, be, ch = gam, -gam, gam * self._a_p[p]
            else:
                al, be, ch = 0.0, 0.0, gam * (self._a_p[p] - min(max(dH, lo), hi))
            self._alpha_p[p] = al
            self._beta_p[p] = be
            self._chi_p[p] = ch

    def solve_pump_flows(self, u=None):
        Q = np.zeros(self.n_p)
        for p in range(self.n_p):
            s = 0.0 if u is None else u[p]
            Hu, Hd = self.H_j[self._J_up[p]], self.H_j[self._J_dp[p]]
            dH = min(max(Hd - Hu, self._dHp_min[p]), self._dHp_max[p])
            if Hu > self._z_inv_j[self._J_up[p]] + self._z_p[p]:
                Q[p] = (s / self._b_p[p] * (self._a_p[p] - dH)) ** (1 / self._c_p[p])
            else:
                Q[p] = 0.0
        self._Qp = Q

    # ------------------------------------------------------------------ superjunction balance
    def sparse_matrix_equations(self, H_bc=None, _Q_0j=None, u=None, _dt=None, implicit=True, first_time=False):
        if _dt is None:
            _dt = self._dt
        H0 = self.states['H_j']
        bc = self.bc
        xu = self._dx_uk * self._B_uk * self._theta_uk / (2 * _dt)
        xd = self._dx_dk * self._B_dk * self._theta_dk / (2 * _dt)
        A, O, W, P = self.A, self.O, self.W, self.P
        D = self.D
        D[:] = 0.0
        F = np.zeros(self.M)
        for k in range(self.NK):
            ju, jd = self._J_uk[k], self._J_dk[k]
            F[ju] += self._alpha_uk[k] + xu[k]
        for k in range(self.NK):
            ju, jd = self._J_uk[k], self._J_dk[k]
            F[jd] += xd[k] - self._beta_dk[k]
        for k in range(self.NK):
            D[self._J_uk[k]] += xu[k] * H0[self._J_uk[k]] - self._chi_uk[k]
        for k in range(self.NK):
            D[self._J_dk[k]] += xd[k] * H0[self._J_dk[k]] + self._chi_dk[k]
        clear(A, bc, self._J_uk, self._J_dk, self.NK)
        for j in range(self.M):
            A[j, j] = 1.0 if bc[j] else F[j] + self._A_sj[j] / _dt
        couple(A, bc, self._J_uk, self._J_dk, self._beta_uk, self._alpha_dk, self.NK)
        if self.n_o:
            clear(O, bc, self._J_uo, self._J_do, self.n_o)
            control(O, D, bc, self._J_uo, self._J_do, self._alpha_o, self._beta_o, self._chi_o, self.M, self.n_o)
        if self.n_w:
            clear(W, bc, self._J_uw, self._J_dw, self.n_w)
            control(W, D, bc, self._J_uw, self._J_dw, self._alpha_w, self._beta_w, self._chi_w, self.M, self.n_w)
        if self.n_p:
            clear(P, bc, self._J_up, self._J_dp, self.n_p)
            control(P, D, bc, self._J_up, self._J_dp, self._alpha_p, self._beta_p, self._chi_p, self.M, self.n_p)
        b = np.zeros(self.M)
        for j in range(self.M):
            if bc[j]:
                b[j] = self.H_j[j] if H_bc is None else H_bc[j]
            else:
                b[j] = self._A_sj[j] * H0[j] / _dt + D[j] + (0 if _Q_0j is None else _Q_0j[j])
        self.b = b

    def solve_sparse_matrix(self, u=None, implicit=True):
        if self.n_o + self.n_w + self.n_p:
            l = self.A + self.O + self.W + self.P
        else:
            l = self.A
        if self._sparse:
            H = scipy.sparse.linalg.spsolve(l, self.b)
        else:
            H = scipy.linalg.solve(l, self.b)
        self.H_j = np.minimum(np.maximum(H, self._z_inv_j), self._z_inv_j + self.max_depth)

    def solve_banded_matrix(self, u=None, implicit=True):
        if self.n_o + self.n_w + self.n_p:
            l = self.A + self.O + self.W + self.P
        else:
            l = self.A
        w = self.bandwidth
        AB = np.zeros((2 * w + 1, self.M))
        for i in range(self.M):
            AB[w, i] = l[i, i]
        for n in range(w):
            for j in range(self.M - n - 1):
                AB[w - n - 1, -j - 1] = l[-j - 2 - n, -j - 1]
                AB[w + n + 1, j] = l[j + n + 1, j]
        H = scipy.linalg.solve_banded((w, w), AB, self.b)
        self.H_j = np.minimum(np.maximum(H, self._z_inv_j), self._z_inv_j + self.max_depth)

    # ------------------------------------------------------------------ interior recovery
    def solve_internals_backwards(self, subcritical_only=False):
        recover(self, True)

    def solve_internals_forwards(self, subcritical_only=False):
        recover(self, False)

    # ------------------------------------------------------------------ storage
    # ------------------------------------------------------------------ cross sections
    def link_hydraulic_geometry(self):
        h = self._h_Ik
        for i in range(self._ik.size):
            c = self._geom_codes[i]
            a, b = h[self._Ik[i]], h[self._Ik[i] + 1]
            if self._is_irregular[i]:
                y = (a + b) / 2
                t = self._transect_codes[i]
                lo, n = self._transect_inds[t], self._transect_lens[t]
                zs = self._transect_zs[lo:lo + n]
                self._A_ik[i] = G.table(y, zs, self._transect_As[lo:lo + n], n)
                self._Pe_ik[i] = G.table(y, zs, self._transect_Pes[lo:lo + n], n)
                self._R_ik[i] = G.table(y, zs, self._transect_Rs[lo:lo + n], n)
                self._B_ik[i] = G.table(y, zs, self._transect_Bs[lo:lo + n], n)
            else:
                g = (self._g1_ik[i], self._g2_ik[i], self._g3_ik[i], self._g4_ik[i], self._g5_ik[i], self._g6_ik[i], self._g7_ik[i])
                self._A_ik[i] = G.area(c, a, b, g[0], g[1], g[2], g[3], g[4], g[5], g[6], self._A_ik[i])
                self._Pe_ik[i] = G.perimeter(c, a, b, g[0], g[1], g[2], g[3], g[4], g[5], g[6], self._Pe_ik[i])
                if 1 <= c <= 10:
                    self._R_ik[i] = G.radius(self._A_ik[i], self._Pe_ik[i])
                self._B_ik[i] = G.width(c, a, b, g[0], g[1], g[2], g[3], g[4], g[5], g[6], self._B_ik[i])

    def end_section(self, A, P, R, B, z, theta, i_end, I_end, J_end):
        for k in range(i_end.size):
            i = i_end[k]
            c = self._geom_codes[i]
            a, b = self._h_Ik[I_end[k]], theta[k] * (self.H_j[J_end[k]] - z[k])
            if self._is_irregular[i]:
                y = (a + b) / 2
                t = self._transect_codes[i]
                lo, n = self._transect_inds[t], self._transect_lens[t]
                zs = self._transect_zs[lo:lo + n]
                A[k] = G.table(y, zs, self._transect_As[lo:lo + n], n)
                P[k] = G.table(y, zs, self._transect_Pes[lo:lo + n], n)
                R[k] = G.table(y, zs, self._transect_Rs[lo:lo + n], n)
                B[k] = G.table(y, zs, self._transect_Bs[lo:lo + n], n)
            else:
                g = (self._g1_ik[i], self._g2_ik[i], self._g3_ik[i], self._g4_ik[i], self._g5_ik[i], self._g6_ik[i], self._g7_ik[i])
                A[k] = G.area(c, a, b, g[0], g[1], g[2], g[3], g[4], g[5], g[6], A[k])
                P[k] = G.perimeter(c, a, b, g[0], g[1], g[2], g[3], g[4], g[5], g[6], P[k])
                if 1 <= c <= 10:
                    R[k] = G.radius(A[k], P[k])
                B[k] = G.width(c, a, b, g[0], g[1], g[2], g[3], g[4], g[5], g[6], B[k])

    def upstream_hydraulic_geometry(self, area='avg'):
        self.end_section(self._A_uk, self._Pe_uk, self._R_uk, self._B_uk, self._z_inv_uk, self._theta_uk, self._i_1k, self._I_1k, self._J_uk)

    def downstream_hydraulic_geometry(self, area='avg'):
        self.end_section(self._A_dk, self._Pe_dk, self._R_dk, self._B_dk, self._z_inv_dk, self._theta_dk, self._i_nk, self._I_Np1k, self._J_dk)

    def orifice_hydraulic_geometry(self, u=None):
        for i in range(self.n_o):
            sill = self._z_inv_j[self._J_uo[i]] + self._z_o[i]
            y = max(self.H_j[self._J_uo[i]] - sill, self.H_j[self._J_do[i]] - sill)
            op = 0.0 if u is None else u[i]
            c = self._geom_codes_o[i]
            self._Ao[i] = G.area(0 if c == 10 else c, y, y, self._g1_o[i] * op, self._g2_o[i], self._g3_o[i], 0.0, 0.0, 0.0, 0.0, self._Ao[i])

    def compute_storage_areas(self):
        h = np.maximum(self.H_j - self._z_inv_j, self.min_depth)
        for j in range(h.size):
            if self._functional[j]:
                self._A_sj[j] = 0.0 if h[j] < 0 else self._storage_a[j] * h[j] ** self._storage_b[j] + self._storage_c[j]
        if self._tabular.any():
            for i in range(self._storage_js.size):
                j = self._storage_js[i]
                s = self._storage_codes[i]
                lo, n = self._storage_inds[s], self._storage_lens[s]
                hs = self._storage_hs[lo:lo + n]
                As = self._storage_As[lo:lo + n]
                ix = np.searchsorted(hs, h[j])
                if ix == 0:
                    self._A_sj[j] = As[0]
                elif ix >= n:
                    self._A_sj[j] = As[n - 1]
                else:
                    self._A_sj[j] = As[ix - 1] + (h[j] - hs[ix - 1]) * (As[ix] - As[ix - 1]) / (hs[ix] - hs[ix - 1])

    def compute_storage_volumes(self):
        h = np.maximum(self.H_j - self._z_inv_j, self.min_depth)
        for j in range(h.size):
            if self._functional[j]:
                b = self._storage_b[j]
                self._V_sj[j] = 0.0 if h[j] < 0 else self._storage_a[j] * h[j] ** (b + 1) / (b + 1) + self._storage_c[j] * h[j]
        if self._tabular.any():
            for i in range(self._storage_js.size):
                j = self._storage_js[i]
                s = self._storage_codes[i]
                lo, n = self._storage_inds[s], self._storage_lens[s]
                hs = self._storage_hs[lo:lo + n]
                As = self._storage_As[lo:lo + n]
                Vs = self._storage_Vs[lo:lo + n]
                ix = np.searchsorted(hs, h[j])
                if ix == 0:
                    self._V_sj[j] = Vs.min()
                elif ix >= n:
                    self._V_sj[j] = Vs.max() + As[n - 1] * (h[j] - hs.max())
                else:
                    self._V_sj[j] = Vs[ix - 1] + (h[j] - hs[ix - 1]) * (Vs[ix] - Vs[ix - 1]) / (hs[ix] - hs[ix - 1])


def clear(A, bc, Ju, Jd, n):
    for k in range(n):
        if not bc[Ju[k]]:
            A[Ju[k], Jd[k]] = 0.0
        if not bc[Jd[k]]:
            A[Jd[k], Ju[k]] = 0.0


def couple(A, bc, Ju, Jd, beta, alpha, n):
    for k in range(n):
        if not bc[Ju[k]]:
            A[Ju[k], Jd[k]] += beta[k]
        if not bc[Jd[k]]:
            A[Jd[k], Ju[k]] -= alpha[k]


def control(X, D, bc, Ju, Jd, alpha, beta, chi, M, n):
    d = np.zeros(M)
    for c in range(n):
        d[Ju[c]] += alpha[c]
    for c in range(n):
        d[Jd[c]] -= beta[c]
    for c in range(n):
        D[Ju[c]] -= chi[c]
    for c in range(n):
        D[Jd[c]] += chi[c]
    for j in range(M):
        X[j, j] = 0.0 if bc[j] else d[j]
    couple(X, bc, Ju, Jd, beta, alpha, n)


def recover(self, back):
    h, Q = self._h_Ik, self._Q_ik
    U, V, W, X, Y, Z = self._U_Ik, self._V_Ik, self._W_Ik, self._X_Ik, self._Y_Ik, self._Z_Ik
    lim = self.max_depth_k
    for k in range(self.NK):
        n = self.nk[k]
        i1 = self._i_1k[k]
        I1 = self._I_1k[k]
        h[I1] = self._h_uk[k]
        h[I1 + n] = self._h_dk[k]
        for m in range(n - 1):
            i = i1 + n - 1 - m
            I = I1 + n - 1 - m
            Q[i] = U[I] * h[I + 1] + V[I] + W[I] * self._h_uk[k]
            hh = (Q[i] - Y[I] - Z[I] * self._h_dk[k]) / X[I] if X[I] != 0 else 0
            h[I] = hh
            if h[I] < self.min_depth:
                h[I] = self.min_depth
            if h[I] > lim[k]:
                h[I] = lim[k]
        if back:
            Q[i1] = X[I1] * h[I1] + Y[I1] + Z[I1] * self._h_dk[k]
        else:
            Q[i1] = U[I1] * h[I1 + 1] + V[I1] + W[I1] * self._h_uk[k]
    h[h < self.min_depth] = self.min_depth


def least_squares(h, NK, nk, k1, i1, I1, U, X, b):
    """interior depths of each superlink: the least-squares solution of its own bidiagonal system"""
    for k in range(NK):
        n = nk[k]
        M = np.zeros((n, n - 1))
        for m in range(n - 1):
            M[m, m] = U[k1[k] + m]
            M[m + 1, m] = -X[k1[k] + m]
        G = M.T @ M
        for m in range(n - 1):
            if G[m, m] == 0:
                G[m, m] = 1
        h[I1[k] + 1:I1[k] + n] = np.linalg.solve(G, M.T @ b[i1[k]:i1[k] + n])
    return h
