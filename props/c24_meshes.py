import itertools

import numpy as np

from engine.harness import Prop

PROP = Prop(
    "C24", "Meshes cover the domain with evenly spaced, consistently ordered points",
    outside="more than 3 dimensions; more than 5 points per axis")


def flat2(T, N, kind, default=False):
    """X, Y and XX describe the same N x N points, evenly spaced over the window"""
    import mud.plot
    import mud.util
    f = {"unit": mud.util.make_2d_unit_mesh, "plot-unit": mud.plot.make_2d_unit_mesh,
         "normal": mud.plot.make_2d_normal_mesh}[kind]
    w = T.const(1) if default else T.real("w", pos=True)
    X, Y, XX = f(N) if default else f(N, w)
    lo = -w if kind == "normal" else T.const(0)
    pts = [lo + (w - lo) * i / (N - 1) for i in range(N)] if N > 1 else [lo]
    if not (T.shape(X, (N, N), "X") and T.shape(Y, (N, N), "Y")
            and T.shape(XX, (N * N, 2), "points")):
        return
    T.eq(X, T.A([pts] * N), "X varies along columns")
    T.eq(Y, T.A([[v] * N for v in pts]), "Y varies along rows")
    T.eq(XX, T.A([[X[i, j], Y[i, j]] for i in range(N) for j in range(N)]),
         "points in the order of the grids")


def nd(T, d, aff, as_list=False, reverse=False):
    from mud.plot import build_nd_mesh_grid
    a = T.arr("lo", d)
    b = T.arr("len", d, pos=True)
    if reverse:
        b = -b
    dom = [[a[i], a[i] + b[i]] for i in range(d)]
    mesh, pts = build_nd_mesh_grid(dom if as_list else T.A(dom), aff=aff)
    n = aff - 1
    if not T.shape(pts, (d, n ** d), "one column per grid point"):
        return
    T.true(len(mesh) == d, "one grid per dimension")
    ax = [[a[i] + b[i] * k / n for k in range(n)] for i in range(d)]
    for c, ix in enumerate(itertools.product(range(n), repeat=d)):
        for i in range(d):
            T.eq(pts[i, c], ax[i][ix[i]], "coordinates of the point")
            T.eq(mesh[i][ix], ax[i][ix[i]], "coordinates in the grid")


for k in ("unit", "plot-unit", "normal"):
    PROP.add(flat2, f"{k}-3", N=3, kind=k)
    PROP.add(flat2, f"{k}-2", N=2, kind=k)
    PROP.add(flat2, f"{k}-default", N=3, kind=k, default=True)
    PROP.add(flat2, f"{k}-5", tier="thorough", N=5, kind=k)
PROP.add(nd, "grid-1d", d=1, aff=4)
PROP.add(nd, "grid-2d", d=2, aff=4)
PROP.add(nd, "grid-3d", d=3, aff=3)
PROP.add(nd, "grid-list", d=2, aff=3, as_list=True)
PROP.add(nd, "grid-4d", d=4, aff=3)
PROP.add(nd, "grid-reversed", d=2, aff=3, reverse=True)
PROP.add(nd, "grid-3d-4", tier="thorough", d=3, aff=5)

# samples, data, operators of integer type
PROP.add(nd, "whole-grid", d=2, aff=4, ints=("lo", "len"))
PROP.add(nd, "whole-grid-list", d=2, aff=4, as_list=True, ints=("lo", "len"))

# the same with arrays stored in column order, or backwards
PROP.turned("grid-2d")

# one after the other: refilled arrays, other settings for the same arrays
PROP.sequence("again-unit-3-then-unit-2", "unit-3", "unit-2")
PROP.sequence("again-plot-unit-3", "plot-unit-3", "plot-unit-3")
PROP.sequence("again-normal-3", "normal-3", "normal-3")
PROP.sequence("again-grid-2d", "grid-2d", "grid-2d")
PROP.sequence("same-grid-2d-then-grid-list", "grid-2d", "grid-list", how="same")
