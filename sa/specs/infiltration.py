"""Reference equations of Green-Ampt infiltration, one soil element at a time; never executed, only analysed.

An element is in exactly one regime per step: saturated surface, dry (recovering), all rain infiltrates, or
rain above the conductivity (which may saturate the surface within the step)."""
import numpy as np
from pipedream_solver.infiltration import GreenAmpt


def solve_for(f):
    # the root of f (an abstract operation)
    raise NotImplementedError


def limit(x, hi):
    return np.minimum(np.maximum(x, 0), hi)


def green_ampt_root(F1, dt, Ks, psi, theta):
    # cumulative infiltration F2 after dt of ponded infiltration that starts from F1
    return solve_for(lambda x: Ks * dt + F1 + psi * theta * np.log((x + abs(psi) * theta)) - psi * theta * np.log((F1 + abs(psi) * theta)) - x)


class SpecGA(GreenAmpt):

    def __init__(self, soil_params):
        self.N = len(soil_params)
        self.psi_f, self.Ks, self.A_s = soil_params['psi_f'].values.astype(float), soil_params['Ks'].values.astype(float), soil_params['A_s'].values.astype(float)
        self.theta_s, self.theta_i = soil_params['theta_s'].values.astype(float), soil_params['theta_i'].values.astype(float)
        deficit = self.theta_s - self.theta_i
        self.theta_d, self.theta_du, self.theta_dmax = np.copy(deficit), np.copy(deficit), np.copy(deficit)
        # empirical relations for the conductivity in inches per hour
        root = np.sqrt(self.Ks * 39.37 * 3600)
        self.Lu = 4 * root * 0.0254
        self.kr = root / 75 / 3600
        self.Tr = 4.5 / root * 3600
        self.d, self.F, self.f, self.T = np.zeros(self.N), np.zeros(self.N), np.zeros(self.N), np.zeros(self.N)
        self.is_saturated = np.zeros(self.N, dtype=bool)
        self.iter_count = 0
        self.t = 0

    @classmethod
    def _s2(cls, theta_i, theta_s, theta_r, Ks, psi_b, lambda_o):
        n = 1 / lambda_o + 3
        wet = (theta_s - theta_r) ** n
        return 2 * Ks * psi_b * (theta_s - theta_i) * (wet - (theta_i - theta_r) ** n) / (lambda_o * wet * n)

    @classmethod
    def suction_head(cls, theta_i, theta_s, theta_r, Ks, psi_b, lambda_o):
        n = 1 / lambda_o + 3
        return psi_b * (1 - ((theta_i - theta_r) / (theta_s - theta_r)) ** n) / (lambda_o * n)

    def partial(self, root, available):
        # once the surface saturates the soil takes in less than the rain supplies: root <= available
        return root

    def step(self, dt, i):
        N = self.N
        d, F, f, T, th_u, th_d = self.d, self.F, self.f, self.T, self.theta_du, self.theta_d
        sat, Ks, Lu, Tr, psi, kr, th_max, A_s = self.is_saturated, self.Ks, self.Lu, self.Tr, self.psi_f, self.kr, self.theta_dmax, self.A_s
        F1, f1, T1, u1, d1, s1, p1, Q1 = np.zeros(N), np.zeros(N), np.zeros(N), np.zeros(N), np.zeros(N), np.zeros(N, dtype=bool), np.zeros(N), np.zeros(N)
        for e in range(N):
            ia = i[e] + d[e] / dt        # water available over the step, as a rate
            F1[e], T1[e], u1[e], d1[e], s1[e] = F[e], T[e] - dt, th_u[e], th_d[e], False
            Fs = Ks[e] * psi[e] * th_d[e] / (ia - Ks[e])
            ponded = sat[e]
            if (not sat[e]) and ia > Ks[e]:
                T1[e] = Tr[e]
                if F[e] >= Fs:
                    ponded = True
                elif F[e] + ia * dt < Fs:
                    F1[e] = F[e] + ia * dt
                    f1[e] = ia
                    u1[e] = limit(th_u[e] - ia * dt / Lu[e], th_max[e])
                else:
                    # rain until Fs is reached, ponded infiltration for the rest
                    F1[e] = self.partial(green_ampt_root(Fs, dt - (Fs - F[e]) / ia, Ks[e], psi[e], th_d[e]), F[e] + ia * dt)
                    f1[e] = (F1[e] - F[e]) / dt
                    u1[e] = limit(th_u[e] - (F1[e] - F[e]) / Lu[e], th_max[e])
            if ponded:
                T1[e] = Tr[e]
                dF = green_ampt_root(F[e], dt, Ks[e], psi[e], th_d[e]) - F[e]
                s1[e] = True
                if dF > ia * dt:
                    dF = ia * dt
                    s1[e] = False
                F1[e] = F[e] + dF
                f1[e] = dF / dt
                u1[e] = limit(th_u[e] - dF / Lu[e], th_max[e])
            if (not sat[e]) and ia <= Ks[e]:
                if ia == 0:
                    rec = kr[e] * th_max[e] * dt
                    u1[e] = limit(th_u[e] + rec, th_max[e])
                    F1[e] = max(F[e] - rec * Lu[e], 0.0)
                    if T1[e] <= 0:
                        d1[e] = u1[e]
                        F1[e] = 0.0
                    f1[e] = 0.0
                else:
                    f1[e] = ia
                    F1[e] = F[e] + ia * dt
                    u1[e] = limit(th_u[e] - ia * dt / Lu[e], th_max[e])
            Q1[e] = max(i[e] - f1[e], 0.0) * A_s[e]
            # what neither infiltrated nor was there before stays ponded
            p1[e] = max(d[e] + (i[e] - f1[e]) * dt, 0.0)
        self.F, self.f, self.T, self.theta_du, self.theta_d, self.is_saturated, self.Q, self.d = F1, f1, T1, u1, d1, s1, Q1, p1
        self.iter_count = self.iter_count + 1
        self.t = self.t + dt


class SpecNGA(SpecGA):

    def partial(self, root, available):
        return np.minimum(np.maximum(root, 0), available)


def newton_root(f, df, x0, p, max_iter, tol):
    """Newton's iteration: stop on a zero or when the step is within tolerance"""
    x = x0
    for _ in range(max_iter):
        if f(x, p) == 0:
            return x
        nxt = x - f(x, p) / df(x, p)
        if np.abs(nxt - x) <= tol:
            return nxt
        x = nxt
    raise ValueError


def bounded_root(f, df, x0, a, b, p, max_iter, tol):
    """Newton's iteration kept inside a shrinking bracket with f(lo) <= 0 <= f(hi): bisect when the Newton step leaves the bracket or does not halve the last step"""
    lo, hi = (b, a) if f(a, p) > f(b, p) else (a, b)
    x = (lo + hi) / 2 if (x0 < lo or x0 > hi) else x0
    last = np.abs(hi - lo)
    for _ in range(max_iter):
        v, d = f(x, p), df(x, p)
        leaves = ((x - hi) * d - v) * ((x - lo) * d - v) >= 0
        slow = np.abs(2 * v) > np.abs(last * d)
        if leaves or slow:
            last = (hi - lo) / 2
            x = (lo + hi) / 2
        else:
            last = v / d
            x = x - v / d
        if np.abs(last) < tol:
            return x
        if f(x, p) < 0:
            lo = x
        else:
            hi = x
    raise ValueError
