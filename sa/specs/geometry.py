"""Reference cross-section formulas (docs/geometry-reference.md), as functions of the water depth y
at the section; y is the mean of the depths at the two ends.  A: area below the surface, P: wetted
boundary, B = dA/dy below full depth.  Never executed."""
import numpy as np
import scipy.special


eps = np.finfo(float).eps


def depth(h1, h2, full):
    return min(max((h1 + h2) / 2, 0.0), full)


def circular_A(h1, h2, g1):
    r = g1 / 2
    t = np.arccos(1 - depth(h1, h2, g1) / r)
    return r * r * (t - np.sin(t) * np.cos(t))


def circular_P(h1, h2, g1):
    r = g1 / 2
    return 2 * r * np.arccos(1 - depth(h1, h2, g1) / r)


def circular_B(h1, h2, g1, g2):
    if (h1 + h2) / 2 >= g1:
        return g2 * g1
    r = g1 / 2
    return 2 * r * np.sin(np.arccos(1 - depth(h1, h2, g1) / r))


def rect_closed_A(h1, h2, g1, g2):
    return g2 * depth(h1, h2, g1)


def rect_closed_P(h1, h2, g1, g2):
    return g2 + 2 * depth(h1, h2, g1)


def rect_closed_B(h1, h2, g1, g2, g3):
    return g3 * g2 if (h1 + h2) / 2 >= g1 else g2


def rect_open_A(h1, h2, g1, g2):
    return g2 * depth(h1, h2, g1)


def rect_open_P(h1, h2, g1, g2):
    return g2 + 2 * depth(h1, h2, g1)


def rect_open_B(h1, h2, g1, g2):
    return g2


def triangular_A(h1, h2, g1, g2):
    return g2 * depth(h1, h2, g1) ** 2


def triangular_P(h1, h2, g1, g2):
    return 2 * depth(h1, h2, g1) * np.sqrt(1 + g2 * g2)


def triangular_B(h1, h2, g1, g2):
    return 2 * g2 * depth(h1, h2, g1)


def trapezoidal_A(h1, h2, g1, g2, g3):
    y = depth(h1, h2, g1)
    return g2 * y + g3 * y * y


def trapezoidal_P(h1, h2, g1, g2, g3):
    return g2 + 2 * depth(h1, h2, g1) * np.sqrt(1 + g3 * g3)


def trapezoidal_B(h1, h2, g1, g2, g3):
    return g2 + 2 * g3 * depth(h1, h2, g1)


def parabolic_A(h1, h2, g1, g2):
    # documented top-width convention of the code: area 2/3 of the surface-width rectangle
    return 2 * g2 * np.sqrt(depth(h1, h2, g1) / g1) * depth(h1, h2, g1) / 3


def parabolic_P(h1, h2, g1, g2):
    y = (h1 + h2) / 2
    if y <= 0:
        y = eps
    if y > g1:
        y = g1
    b = g2 * np.sqrt(y / g1)
    x = 4 * y / b
    return b / 2 * (np.sqrt(1 + x * x) + np.log(x + np.sqrt(1 + x * x)) / x)


def parabolic_B(h1, h2, g1, g2):
    return g2 * np.sqrt(depth(h1, h2, g1) / g1)


def elliptical_A(h1, h2, g1, g2):
    a, b = g2 / 2, g1 / 2
    t = np.arcsin((depth(h1, h2, g1) - b) / b)
    return a * b * (np.pi / 2 + t + np.sin(t) * np.cos(t))


def elliptical_P(h1, h2, g1, g2):
    a, b = g2 / 2, g1 / 2
    t = np.arcsin((depth(h1, h2, g1) - b) / b)
    m = 1 - a * a / (b * b)
    return 2 * b * (scipy.special.ellipe(m) + scipy.special.ellipeinc(t, m))


def elliptical_B(h1, h2, g1, g2):
    a, b = g2 / 2, g1 / 2
    return 2 * a * np.cos(np.arcsin((depth(h1, h2, g1) - b) / b))


def wide_A(h1, h2, g1, g2):
    return g2 * depth(h1, h2, g1)


def wide_P(h1, h2, g1, g2):
    return g2


def wide_B(h1, h2, g1, g2):
    return g2


def force_main_A(h1, h2, g1, g2):
    return np.pi * g1 * g1 / 4


def force_main_P(h1, h2, g1, g2):
    return np.pi * g1


def force_main_B(h1, h2, g1, g2):
    return g1 * g2


def floodplain_A(h1, h2, g1, g2, g3, g4, g5, g6, g7):
    y = depth(h1, h2, g1)
    lo = y if y < g2 else g2
    if y < g2:
        return g5 * y * y + g7 * y
    b1 = 2 * g5 * g2
    if y < g2 + g3:
        return g5 * g2 * g2 + (b1 + g6 * (y - g2)) * (y - g2) + g7 * y
    b2 = b1 + 2 * g6 * g3
    return g5 * g2 * g2 + (b1 + g6 * g3) * g3 + (b2 + g4 * (y - g2 - g3)) * (y - g2 - g3) + g7 * y


def floodplain_P(h1, h2, g1, g2, g3, g4, g5, g6, g7):
    y = depth(h1, h2, g1)
    base = g7 if y > 0 else 0.0
    if y < g2:
        return base + 2 * y * np.sqrt(1 + g5 * g5)
    if y < g2 + g3:
        return base + 2 * g2 * np.sqrt(1 + g5 * g5) + 2 * (y - g2) * np.sqrt(1 + g6 * g6)
    return base + 2 * g2 * np.sqrt(1 + g5 * g5) + 2 * g3 * np.sqrt(1 + g6 * g6) + 2 * (y - g2 - g3) * np.sqrt(1 + g4 * g4)


def floodplain_B(h1, h2, g1, g2, g3, g4, g5, g6, g7):
    y = depth(h1, h2, g1)
    base = g7 if y > 0 else 0.0
    if y < g2:
        return base + 2 * g5 * y
    if y < g2 + g3:
        return base + 2 * g5 * g2 + 2 * g6 * (y - g2)
    return base + 2 * g5 * g2 + 2 * g6 * g3 + 2 * g4 * (y - g2 - g3)


def radius(A, P):
    return A / P if P > 0 else 0.0


# irregular cross-section by ground points (x, y), water level w
def transect_B(w, x, y):
    B = 0.0
    for i in range(len(x) - 1):
        dx, dy = x[i + 1] - x[i], y[i + 1] - y[i]
        if y[i] <= w and y[i + 1] <= w:
            B += dx
        elif y[i] > w and y[i + 1] <= w:
            B += (w - y[i + 1]) / (-dy) * dx
        elif y[i] <= w and y[i + 1] > w:
            B += (w - y[i]) / dy * dx
    return B


def transect_Pe(w, x, y):
    P = 0.0
    for i in range(len(x) - 1):
        dx, dy = x[i + 1] - x[i], y[i + 1] - y[i]
        if y[i] <= w and y[i + 1] <= w:
            P += np.sqrt(dx ** 2 + dy ** 2)
        elif y[i] > w and y[i + 1] <= w:
            P += np.sqrt(((w - y[i + 1]) / (-dy) * dx) ** 2 + (w - y[i + 1]) ** 2)
        elif y[i] <= w and y[i + 1] > w:
            P += np.sqrt(((w - y[i]) / dy * dx) ** 2 + (w - y[i]) ** 2)
    return P


def transect_A(w, x, y):
    A = 0.0
    for i in range(len(x) - 1):
        dx, dy = x[i + 1] - x[i], y[i + 1] - y[i]
        if y[i] <= w and y[i + 1] <= w:
            A += dx * (w - max(y[i], y[i + 1])) + abs(dx * dy) / 2
        elif y[i] > w and y[i + 1] <= w:
            A += abs((w - y[i + 1]) / (-dy) * dx * (w - y[i + 1])) / 2
        elif y[i] <= w and y[i + 1] > w:
            A += abs((w - y[i]) / dy * dx * (w - y[i])) / 2
    return A


def table(x, xp, fp, n):
    ix = np.searchsorted(xp, x)
    if ix == 0:
        return fp[0]
    if ix >= n:
        return fp[n - 1]
    return fp[ix - 1] + (x - xp[ix - 1]) * (fp[ix] - fp[ix - 1]) / (xp[ix] - xp[ix - 1])


def interpolate_geometry(x, xp, fp):
    return table(x, xp, fp, xp.size)


# ------------------------------------------------------------------ dispatch by shape code
def area(c, h1, h2, g1, g2, g3, g4, g5, g6, g7, old):
    if c == 1:
        return circular_A(h1, h2, g1)
    if c == 2:
        return rect_closed_A(h1, h2, g1, g2)
    if c == 3:
        return rect_open_A(h1, h2, g1, g2)
    if c == 4:
        return triangular_A(h1, h2, g1, g2)
    if c == 5:
        return trapezoidal_A(h1, h2, g1, g2, g3)
    if c == 6:
        return parabolic_A(h1, h2, g1, g2)
    if c == 7:
        return elliptical_A(h1, h2, g1, g2)
    if c == 8:
        return wide_A(h1, h2, g1, g2)
    if c == 9:
        return force_main_A(h1, h2, g1, g2)
    if c == 10:
        return floodplain_A(h1, h2, g1, g2, g3, g4, g5, g6, g7)
    return old


def perimeter(c, h1, h2, g1, g2, g3, g4, g5, g6, g7, old):
    if c == 1:
        return circular_P(h1, h2, g1)
    if c == 2:
        return rect_closed_P(h1, h2, g1, g2)
    if c == 3:
        return rect_open_P(h1, h2, g1, g2)
    if c == 4:
        return triangular_P(h1, h2, g1, g2)
    if c == 5:
        return trapezoidal_P(h1, h2, g1, g2, g3)
    if c == 6:
        return parabolic_P(h1, h2, g1, g2)
    if c == 7:
        return elliptical_P(h1, h2, g1, g2)
    if c == 8:
        return wide_P(h1, h2, g1, g2)
    if c == 9:
        return force_main_P(h1, h2, g1, g2)
    if c == 10:
        return floodplain_P(h1, h2, g1, g2, g3, g4, g5, g6, g7)
    return old


def width(c, h1, h2, g1, g2, g3, g4, g5, g6, g7, old):
    if c == 1:
        return circular_B(h1, h2, g1, g2)
    if c == 2:
        return rect_closed_B(h1, h2, g1, g2, g3)
    if c == 3:
        return rect_open_B(h1, h2, g1, g2)
    if c == 4:
        return triangular_B(h1, h2, g1, g2)
    if c == 5:
        return trapezoidal_B(h1, h2, g1, g2, g3)
    if c == 6:
        return parabolic_B(h1, h2, g1, g2)
    if c == 7:
        return elliptical_B(h1, h2, g1, g2)
    if c == 8:
        return wide_B(h1, h2, g1, g2)
    if c == 9:
        return force_main_B(h1, h2, g1, g2)
    if c == 10:
        return floodplain_B(h1, h2, g1, g2, g3, g4, g5, g6, g7)
    return old
