"""Reference behaviour of the simulation driver; never executed, only analysed."""
import numpy as np
from pipedream_solver.simulation import Simulation
from pipedream_solver.nsuperlink import nSuperLink


class SpecSim(Simulation):

    def pick(self, given, own):
        return own if given is None else given

    def compute_step_size(self, dt=None, err=None, min_dt=None, max_dt=None, tol=None, min_rel_change=None, max_rel_change=None, safety_factor=None):
        dt = self.pick(dt, self.dt)
        if err is None:
            err = self.err
        if err is None:
            return dt
        change = np.sqrt(self.pick(tol, self.tol) / (2 * max(abs(err), np.finfo(float).eps)))
        change = min(max(change, self.pick(min_rel_change, self.min_rel_change)), self.pick(max_rel_change, self.max_rel_change))
        new = self.pick(safety_factor, self.safety_factor) * change * dt
        return min(max(new, self.pick(min_dt, self.min_dt)), self.pick(max_dt, self.max_dt))

    def filter_step_size(self, tol=0.5, dts=None, errs=None, coeffs=None, min_dt=None, max_dt=None, min_rel_change=None, max_rel_change=None, safety_factor=1.0, k=2):
        if dts is None and len(self.dts) < 3:
            return self.dts[0]
        h = self.dts if dts is None else dts
        e = self.errs if errs is None else errs
        b = coeffs
        change = (tol / e[0]) ** (b[0] / k) * (tol / e[1]) ** (b[1] / k) * (tol / e[2]) ** (b[2] / k)
        change = change * (h[0] / h[1]) ** (-b[3]) * (h[1] / h[2]) ** (-b[4])
        if np.isnan(change):
            return h[0]
        change = min(max(change, self.pick(min_rel_change, self.min_rel_change)), self.pick(max_rel_change, self.max_rel_change))
        return min(max(safety_factor * change * h[0], self.pick(min_dt, self.min_dt)), self.pick(max_dt, self.max_dt))


    def step(self, dt=None, subdivisions=1, retries=0, tol=1, norm=2, coeffs=None, safety_factor=1.0, **kwargs):
        if dt is None:
            dt = self.dt
        self.dt = dt
        before = {'t': self.model.t, 'H_j': np.copy(self.model.H_j)}
        self._step(dt=dt, **kwargs)
        err = None
        if subdivisions > 1:
            coarse = np.copy(self.model.H_j)
            self.model.load_state(before)
            for _ in range(subdivisions):
                self._step(dt=dt / subdivisions, **kwargs)
            err = self._normed_error(self._scaled_error(coarse - self.model.H_j), norm=norm)
        self.err = err
        self.dts.appendleft(dt)
        self.errs.appendleft(err)
        if retries and err is not None:
            if (err > tol or not np.isfinite(err)) and 0.5 * dt > self.min_dt:
                self.dts.popleft()
                self.errs.popleft()
                self.model.load_state(before)
                self.step(dt=0.5 * dt, subdivisions=subdivisions, retries=retries - 1, tol=tol, norm=norm, coeffs=coeffs, safety_factor=safety_factor, **kwargs)

    def _scaled_error(self, err, atol=1e-6, rtol=1e-3):
        before = self.model.states['H_j']
        size = np.zeros(err.size)
        for j in range(err.size):
            size[j] = abs(err[j]) / (atol + rtol * max(abs(self.model.H_j[j]), abs(before[j])))
        return size

    def _normed_error(self, scaled_err, norm=2):
        n = scaled_err.size
        if norm == 0:
            total = (scaled_err > 0).sum() / n
        elif norm == 1:
            total = scaled_err.sum() / n
        elif norm == 2:
            total = np.sqrt((scaled_err**2).sum() / n)
        else:
            total = np.abs(scaled_err).max()
        return max(abs(total), np.finfo(float).eps)


def sample_left(x, xp, fp, method):
    # linear: between the two records around x; nearest: the closer one (the earlier one when equally close)
    return sample_at(x, xp, fp, method, np.searchsorted(xp, x))


def sample_right(x, xp, fp, method):
    return sample_at(x, xp, fp, method, np.searchsorted(xp, x, side='right'))


def sample_at(x, xp, fp, method, i):
    n = len(xp)
    if i == 0:
        return fp[0]
    if i >= n:
        return fp[n - 1]
    if method == 1:
        w = (x - xp[i - 1]) / (xp[i] - xp[i - 1])
        return fp[i - 1] + w * (fp[i] - fp[i - 1])
    return fp[i - 1] if abs(x - xp[i - 1]) <= abs(xp[i] - x) else fp[i]


def sample_ends(x, xp, fp, method):
    n = len(xp)
    if x <= xp[0]:
        return fp[0]
    if x >= xp[n - 1]:
        return fp[n - 1]
    i = np.searchsorted(xp, x)
    if method == 1:
        w = (x - xp[i - 1]) / (xp[i] - xp[i - 1])
        return fp[i - 1] + w * (fp[i] - fp[i - 1])
    return fp[i - 1] if abs(x - xp[i - 1]) <= abs(xp[i] - x) else fp[i]


def kalman_update(Z, P, A1, A2, b, H, C, Q, R):
    x = np.linalg.solve(A1, b)
    F = np.linalg.solve(A1, A2)
    prior = F @ P @ F.T + C @ Q @ C.T
    S = H @ prior @ H.T + R
    K = prior @ H.T @ np.linalg.inv(S)
    return A1 @ (x + K @ (Z - H @ x)), prior - K @ H @ prior, S


class SpecSystem(nSuperLink):

    def _semi_implicit_system(self, _dt=None):
        # the matrix of the heads at the end of the step, of the heads before it, and the right-hand side
        if _dt is None:
            _dt = self._dt
        if self.n_o + self.n_w + self.n_p:
            left = self.A + self.O + self.W + self.P
        else:
            left = self.A
        right = np.zeros((self.M, self.M))
        for j in range(self.M):
            if not self.bc[j]:
                right[j, j] = self._A_sj[j] / _dt
        return left, right, self.b


def prior_covariance(C, Q):
    return C @ Q @ C.T
