import numpy as np
import scipy.integrate
import scipy.interpolate
from pipedream_solver.storage import Functional, Tabular


class SpecFunctional(Functional):
    def A_sj(self, h, a=1, b=1, c=0):
        out = np.zeros(h.size)
        for j in range(h.size):
            y = h[j] if h[j] >= 0 else 0
            out[j] = a * y ** b + c
        return out

    def V_sj(self, h, a=1, b=1, c=0):
        out = np.zeros(h.size)
        for j in range(h.size):
            y = h[j] if h[j] >= 0 else 0
            out[j] = a * y ** (b + 1) / (b + 1) + c * y
        return out


class SpecTabular(Tabular):
    def __init__(self, h, A):
        V = scipy.integrate.cumulative_trapezoid(A, h, initial=0.)
        self.h, self.A, self.V = h, A, V
        self.hmax, self.hmin = h.max(), h.min()
        self.Amax = A[h.argmax()]
        self.A_interpolator = scipy.interpolate.interp1d(h, A)
        self.V_interpolator = scipy.interpolate.interp1d(h, V)

    def inside(self, h):
        y = np.zeros(h.size)
        for j in range(h.size):
            y[j] = self.hmin if h[j] < self.hmin else self.hmax if h[j] > self.hmax else h[j]
        return y

    def A_sj(self, h):
        return self.A_interpolator(self.inside(h))

    def V_sj(self, h):
        y = self.inside(h)
        V = self.V_interpolator(y)
        out = np.zeros(h.size)
        for j in range(h.size):
            out[j] = V[j] + (self.Amax * (h[j] - self.hmax) if h[j] > self.hmax else 0)
        return out


def area_at(h):
    raise NotImplementedError


def volume_at(h):
    raise NotImplementedError
