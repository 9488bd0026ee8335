"""density problems: what a kernel density estimate needs"""

import numpy as np


def spread(T, y):
    """the first f + 1 predictions are affinely independent, by a margin floating point
    arithmetic sees (scipy refuses singular kernel data)"""
    n, f = y.shape
    if f == 1:
        T.assume((y[1, 0] - y[0, 0]) ** 2 > 1e-4)
    elif f == 2:
        a, b = y[1] - y[0], y[2] - y[0]
        T.assume((a[0] * b[1] - a[1] * b[0]) ** 2 > 1e-4)
    elif f == 3:
        a, b, c = y[1] - y[0], y[2] - y[0], y[3] - y[0]
        det = (a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0])
               + a[2] * (b[0] * c[1] - b[1] * c[0]))
        T.assume(det ** 2 > 1e-4)
    else:
        raise NotImplementedError("spread of 3 observables")


class Rational:
    """a density object of the user's own: 1 / (1 + (x - c)^2), up to scale"""

    def __init__(self, c=0.0):
        self.c = c

    def pdf(self, x):
        return 1 / (1 + (x - self.c) ** 2)

    def logpdf(self, x):
        return np.log(self.pdf(x))


class Tiny:
    """a density whose values are too small for floating point, their logarithms not"""

    def __init__(self, d):
        self.d = d

    def pdf(self, x, **kw):
        return self.d.pdf(x) * 0

    def logpdf(self, x):
        return self.d.logpdf(x)

    def std(self):
        return self.d.std()

    def mean(self):
        return self.d.mean()
