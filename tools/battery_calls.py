"""Calls of the self-test; copied next to mud's modules so that it runs like them."""
import numpy as np

V3 = np.array([0.5, 2.0, 1.25])
W3 = np.array([1.5, 0.25, 3.0])
M22 = np.array([[2.0, 0.5], [0.5, 1.0]])
M23 = np.array([[1.0, 2.0, 0.5], [0.25, 1.0, 3.0]])
M32 = M23.T.copy()
C21 = np.array([[1.0], [2.0]])


def calls():
    import scipy.linalg as sl
    import scipy.stats as ss
    import math
    from functools import reduce
    d = {}

    def add(name, f, *ins):
        d[name] = (f, ins)
    for n in ("sqrt exp log log10 log2 log1p expm1 square reciprocal abs absolute fabs sign negative "
              "floor ceil rint trunc isfinite isnan isinf tanh sin cos cbrt exp2 sum prod mean std var max min "
              "ptp argmax argmin sort argsort cumsum cumprod diff median ravel flip ediff1d "
              "nansum nanmean nanmax nanmin nanstd nanvar nanmedian unique atleast_1d atleast_2d squeeze asarray array "
              "asfarray copy ascontiguousarray asfortranarray zeros_like ones_like empty_like "
              "any all count_nonzero nonzero flatnonzero argwhere isreal real conj imag trapz "
              "nanargmax nanargmin vstack hstack gradient deg2rad diag diagflat tri nan_to_num signbit "
              "asanyarray asarray_chkfinite require iscomplexobj positive float_power "
              "transpose size ndim shape fliplr flipud rot90 triu tril diagonal trace cov corrcoef").split():
        f = getattr(np, n, None)
        if f is None:
            continue
        if n in ("empty_like",):
            continue
        if n in ("fliplr", "flipud", "rot90", "triu", "tril", "diagonal", "trace", "cov", "corrcoef", "transpose"):
            add(n, f, M22)
        elif n == "float_power":
            add(n, lambda a: np.float_power(a, 2), V3)
        elif n == "tri":
            continue
        else:
            add(n, f, V3)
            if n in ("sum prod mean std var max min cumsum ptp argmax argmin sort argsort nansum nanmean nanmax "
                     "nanmin diff any all median cumprod unique nanmedian nonzero ravel").split():
                add(n + "-2d", f, M23)
                if n not in ("nonzero", "ravel"):
                    add(n + "-ax0", lambda a, f=f: f(a, axis=0), M23)
                    add(n + "-ax-1", lambda a, f=f: f(a, axis=-1), M23)
                if n not in ("cumsum cumprod diff unique nonzero sort argsort ravel").split():
                    add(n + "-keep", lambda a, f=f: f(a, axis=1, keepdims=True), M23)
    for n in ("add subtract multiply divide true_divide power maximum minimum fmax fmin hypot "
              "arctan2 logaddexp greater less equal not_equal greater_equal less_equal isclose "
              "dot inner vdot outer kron convolve cross allclose array_equal copysign heaviside "
              "append interp0 searchsorted0 floor_divide mod remainder correlate logical_and logical_or "
              "array_equiv union1d setdiff1d intersect1d isin in1d union1d broadcast_arrays meshgrid ldexp0 "
              "column_stack0 floor_divide fmod nextafter0 ").split():
        if n.endswith("0"):
            continue
        f = getattr(np, n, None)
        if f is not None:
            add(n, f, V3, W3)
    add("tensordot", lambda a, b: np.tensordot(a, b, axes=1), M23, V3)
    add("tensordot2", lambda a, b: np.tensordot(a, b, axes=([0], [0])), M23, C21)
    add("matmul", np.matmul, M23, M32)
    add("matmulv", np.matmul, M23, V3)
    add("matmul3", lambda a, b: np.matmul(a[None], b[None]), M23, M32)
    for e in ("ij,jk->ik", "ij,jk", "ij,jk->", "ij,ki->kj"):
        add("einsum " + e, lambda a, b, e=e: np.einsum(e, a, b), M23, M32)
    for e in ("ij,j->i", "ij,j", "...j,j"):
        add("einsum " + e, lambda a, b, e=e: np.einsum(e, a, b), M23, V3)
    add("einsum ii", lambda a: np.einsum("ii", a), M22)
    add("einsum ij->j", lambda a: np.einsum("ij->j", a), M23)
    add("einsum 3", lambda a, b, c: np.einsum("ij,jk,kl->il", a, b, c), M22, M22, M22)
    add("einsum opt", lambda a, b, c: np.einsum("ij,jk,kl->il", a, b, c, optimize=True), M22, M22, M22)
    add("einsum quad", lambda a, m: np.einsum("ij,jk,ik->i", a, m, a), M32, M22)
    add("inv", np.linalg.inv, M22)
    add("solve", np.linalg.solve, M22, C21)
    add("solvev", lambda m, v: np.linalg.solve(m, v), M22, np.array([1., 2.]))
    add("pinv", np.linalg.pinv, M23)
    add("pinv cut", lambda m: np.linalg.pinv(m, rcond=0.4), M23)
    add("pinv cut2", lambda m: np.linalg.pinv(m, rcond=0.9), M23)
    add("pinv cut3", lambda m: np.linalg.pinv(m, rcond=1e-4), M32)
    add("pinv cut diag", lambda v: np.linalg.pinv(np.diag(v), rcond=0.1), np.array([3., 0.2, 1.]))
    add("lstsq cut", lambda a, b: np.linalg.lstsq(a, b, rcond=0.9)[0], M32, V3)
    add("lstsq", lambda a, b: np.linalg.lstsq(a, b, rcond=None)[0], M32, V3)
    add("lstsq-def", lambda a, b: np.linalg.lstsq(a, b)[0], M32, V3)
    add("det", np.linalg.det, M22)
    add("slogdet", np.linalg.slogdet, M22)
    add("cholesky", np.linalg.cholesky, M22)
    add("eigvalsh", np.linalg.eigvalsh, M22)
    add("eigvals", lambda m: np.sort(np.linalg.eigvals(m)), M22)
    add("eigh rec", lambda m: (lambda w, q: q @ np.diag(w) @ q.T)(*np.linalg.eigh(m)), M22)
    add("svd rec", lambda m: (lambda u, s, v: u @ np.diag(s) @ v)(*np.linalg.svd(m, full_matrices=False)), M23)
    add("svd vals", lambda m: np.linalg.svd(m, compute_uv=False), M23)
    add("svdvals", lambda m: sl.svdvals(m), M23)
    add("qr rec", lambda m: (lambda q, r: q @ r)(*np.linalg.qr(m)), M22)
    add("matrix_rank", np.linalg.matrix_rank, M23)
    add("cond", np.linalg.cond, M22)
    add("matrix_power", lambda m: np.linalg.matrix_power(m, 3), M22)
    add("matrix_power-1", lambda m: np.linalg.matrix_power(m, -1), M22)
    add("multi_dot", lambda a, b, c: np.linalg.multi_dot([a, b, c]), M32, M23, M32)
    for o in (None, 1, 2, np.inf, 0, 3, -np.inf):
        add(f"norm {o}", lambda v, o=o: np.linalg.norm(v, o), V3)
    for o in (None, "fro", 1, 2, np.inf, "nuc"):
        add(f"mnorm {o}", lambda v, o=o: np.linalg.norm(v, o), M23)
    add("norm ax", lambda v: np.linalg.norm(v, axis=1), M23)
    add("norm ax keep", lambda v: np.linalg.norm(v, axis=0, keepdims=True), M23)
    add("sl.inv", sl.inv, M22)
    add("sl.solve", sl.solve, M22, C21)
    add("sl.solve pos", lambda a, b: sl.solve(a, b, assume_a="pos"), M22, C21)
    add("sl.pinv", sl.pinv, M23)
    add("sl.norm", sl.norm, V3)
    add("sl.det", sl.det, M22)
    add("sl.cholesky", sl.cholesky, M22)
    add("sl.cholesky l", lambda m: sl.cholesky(m, lower=True), M22)
    add("sl.cho_solve", lambda a, b: sl.cho_solve(sl.cho_factor(a), b), M22, C21)
    add("sl.solve_tri", lambda a, b: sl.solve_triangular(np.tril(a), b, lower=True), M22, C21)
    add("sl.lstsq", lambda a, b: sl.lstsq(a, b)[0], M32, V3)
    add("sl.svd", lambda m: (lambda u, s, v: u @ np.diag(s) @ v)(*sl.svd(m, full_matrices=False)), M23)
    add("sl.eigh", lambda m: (lambda w, q: q @ np.diag(w) @ q.T)(*sl.eigh(m)), M22)
    add("sl.null_space", lambda m: abs(m @ sl.null_space(m)) + 0 * sl.null_space(m).size, M23)
    add("sl.block_diag", lambda a, b: sl.block_diag(a, b), M22, M23)
    # shaping
    add("reshape", lambda a: np.reshape(a, (3, 2)), M23)
    add("reshape F", lambda a: a.reshape((3, 2), order="F"), M23)
    add("concatenate", lambda a, b: np.concatenate([a, b]), V3, W3)
    add("concatenate ax", lambda a, b: np.concatenate((a, b), axis=1), M22, M23)
    add("stack", lambda a, b: np.stack([a, b], axis=-1), V3, W3)
    add("vstack", lambda a, b: np.vstack([a, b]), V3, W3)
    add("hstack", lambda a, b: np.hstack([a, b]), V3, W3)
    add("column_stack", lambda a, b: np.column_stack([a, b]), V3, W3)
    add("dstack", lambda a, b: np.dstack([a, b]), V3, W3)
    add("block", lambda a, b: np.block([[a, b]]), M22, M23)
    add("r_", lambda a, b: np.r_[a, b, 1.0], V3, W3)
    add("c_", lambda a, b: np.c_[a, b], V3, W3)
    add("tile", lambda a: np.tile(a, (2, 1)), V3)
    add("repeat", lambda a: np.repeat(a, 2), V3)
    add("repeat ax", lambda a: np.repeat(a, 2, axis=0), M23)
    add("expand_dims", lambda a: np.expand_dims(a, 1), V3)
    add("moveaxis", lambda a: np.moveaxis(a, 0, 1), M23)
    add("swapaxes", lambda a: np.swapaxes(a, 0, 1), M23)
    add("rollaxis", lambda a: np.rollaxis(a, 1), M23)
    add("roll", lambda a: np.roll(a, 1), V3)
    add("take", lambda a: np.take(a, [2, 0]), V3)
    add("take ax", lambda a: np.take(a, [1, 0], axis=0), M23)
    add("compress", lambda a: np.compress([True, False, True], a), V3)
    add("extract", lambda a: np.extract(a > 1, a), V3)
    add("delete", lambda a: np.delete(a, 1), V3)
    add("insert", lambda a: np.insert(a, 1, 7.0), V3)
    add("append s", lambda a: np.append(a, 7.0), V3)
    add("split", lambda a: np.split(a, 3), V3)
    add("array_split", lambda a: np.array_split(a, 2), V3)
    add("vsplit", lambda a: np.vsplit(a, 2), M23)
    add("broadcast_to", lambda a: np.broadcast_to(a, (2, 3)), V3)
    add("ix_", lambda a: a[np.ix_([0, 1], [2, 0])], M23)
    add("take_along_axis", lambda a: np.take_along_axis(a, np.argsort(a, axis=1), axis=1), M23)
    add("flatten", lambda a: a.flatten(), M23)
    add("flat", lambda a: list(a.flat), M23)
    add("tolist", lambda a: a.tolist(), M23)
    add("iter", lambda a: [x * 2 for x in a], V3)
    add("array list", lambda a: np.array([x * 2 for x in a]), V3)
    add("array rows", lambda a: np.array([x * 2 for x in a]), M23)
    add("array genlist", lambda a: np.array(list(map(lambda x: x * 2, a))), V3)
    add("fromiter", lambda a: np.fromiter((x * 2 for x in a), dtype=float), V3)
    add("array float", lambda a: np.array(a, dtype=float), V3)
    add("astype", lambda a: a.astype(float), V3)
    add("asarray dt", lambda a: np.asarray(a, dtype=np.float64), V3)
    add("zeros fill", lambda a: _fill(a, np.zeros(3)), V3)
    add("empty fill", lambda a: _fill(a, np.empty(3)), V3)
    add("zeros rows", lambda a: _rows(a, np.zeros((2, 3))), M23)
    add("zeros cols", lambda a: _cols(a, np.zeros((2, 3))), M23)
    add("zeros iadd", lambda a: _iadd(a, np.zeros(3)), M23)
    add("full", lambda a: np.full((2, 2), a[0]), V3)
    add("full_like", lambda a: np.full_like(a, 2.0), V3)
    add("full_like s", lambda a: np.full_like(a, a[1]), V3)
    add("fill", lambda a: (lambda b: (b.fill(a[0]), b)[1])(np.zeros(3)), V3)
    add("eye scale", lambda a: np.eye(3) * a, V3)
    add("identity", lambda a: a[0] * np.identity(2), V3)
    add("fill_diagonal", lambda a: (lambda b: (np.fill_diagonal(b, 9.0), b)[1])(a.copy()), M22)
    add("put", lambda a: (lambda b: (np.put(b, [0], [9.0]), b)[1])(a.copy()), V3)
    add("copyto", lambda a: (lambda b: (np.copyto(b, a), b)[1])(np.zeros(3)), V3)
    add("copyto sym", lambda a, c: (lambda b: (np.copyto(b, c), b)[1])(a.copy()), V3, W3)
    add("place", lambda a: (lambda b: (np.place(b, b > 1, [0.0]), b)[1])(a.copy()), V3)
    add("putmask", lambda a: (lambda b: (np.putmask(b, b > 1, 0.0), b)[1])(a.copy()), V3)
    add("mask set", lambda a: (lambda b: (b.__setitem__(b > 1, 0.0), b)[1])(a.copy()), V3)
    add("mask get", lambda a: a[a > 1], V3)
    add("mask and", lambda a: a[(a > 1) & (a < 2)], V3)
    add("mask not", lambda a: a[~(a > 1)], V3)
    add("where", lambda a, b: np.where(a > b, a, b), V3, W3)
    add("where1", lambda a: np.where(a > 1), V3)
    add("select", lambda a: np.select([a > 1.5, a > 1], [a, 2 * a], 0.0), V3)
    add("choose", lambda a: np.choose([0, 1, 0], [a, 2 * a]), V3)
    add("piecewise", lambda a: np.piecewise(a, [a < 1, a >= 1], [lambda x: -x, lambda x: x]), V3)
    add("clip", lambda a: np.clip(a, 1, 1.5), V3)
    add("clip None", lambda a: np.clip(a, 1, None), V3)
    add("clip m", lambda a: a.clip(min=1), V3)
    add("divide where", lambda a, b: np.divide(a, b, out=np.zeros(3), where=b > 1), V3, W3)
    add("divide out", lambda a, b: np.divide(a, b, out=np.zeros(3)), V3, W3)
    add("add out", lambda a, b: np.add(a, b, out=a.copy()), V3, W3)
    add("add.reduce", lambda a: np.add.reduce(a), V3)
    add("add.reduce ax", lambda a: np.add.reduce(a, axis=1), M23)
    add("multiply.reduce", lambda a: np.multiply.reduce(a), V3)
    add("maximum.reduce", lambda a: np.maximum.reduce(a), V3)
    add("maximum.red list", lambda a, b: np.maximum.reduce([a, b]), V3, W3)
    add("logical_and.reduce", lambda a, b: np.logical_and.reduce([a > 1, b > 1]), V3, W3)
    add("add.accumulate", lambda a: np.add.accumulate(a), V3)
    add("multiply.outer", lambda a, b: np.multiply.outer(a, b), V3, W3)
    add("subtract.outer", lambda a, b: np.subtract.outer(a, b), V3, W3)
    add("add.at", lambda a: (lambda b: (np.add.at(b, [0, 0], 1.0), b)[1])(a.copy()), V3)
    add("average w", lambda a, b: np.average(a, weights=b), V3, W3)
    add("average ax", lambda a, b: np.average(a, axis=1, weights=b), M23, W3)
    add("percentile", lambda a: np.percentile(a, 50), V3)
    add("quantile", lambda a: np.quantile(a, 0.25), V3)
    add("interp", lambda a: np.interp(1.0, np.array([0., 1, 2]), a), V3)
    add("interp x", lambda a: np.interp(a, np.array([0., 1, 4]), np.array([1., 3, 2])), V3)
    add("searchsorted", lambda a: np.searchsorted(np.sort(a), 1.0), V3)
    add("searchsorted2", lambda a: np.searchsorted(np.array([0., 1, 2]), a), V3)
    add("digitize", lambda a: np.digitize(a, np.array([0., 1, 2])), V3)
    add("histogram", lambda a: np.histogram(a, bins=[0., 1, 4])[0], V3)
    add("bincount w", lambda a: np.bincount([0, 1, 1], weights=a), V3)
    add("argpartition", lambda a: np.sort(a[np.argpartition(a, 1)[:2]]), V3)
    add("partition", lambda a: np.partition(a, 1)[1], V3)
    add("lexsort", lambda a, b: np.lexsort((a, b)), V3, W3)
    add("apply_along", lambda a: np.apply_along_axis(lambda r: r.sum(), 1, a), M23)
    add("apply_along v", lambda a: np.apply_along_axis(lambda r: r * 2, 0, a), M23)
    add("vectorize", lambda a: np.vectorize(lambda x: x * 2 + 1)(a), V3)
    add("vectorize ot", lambda a: np.vectorize(lambda x: x * 2 + 1, otypes=[float])(a), V3)
    add("frompyfunc", lambda a: np.frompyfunc(lambda x: x * 2, 1, 1)(a), V3)
    add("nditer", lambda a: [float(0) + x for x in np.ndenumerate(a)][0][1], V3)
    add("enumerate", lambda a: [i * x for i, x in enumerate(a)], V3)
    add("zip", lambda a, b: sum(x * y for x, y in zip(a, b)), V3, W3)
    add("polyval", lambda a: np.polyval(a, 2.0), V3)
    add("vander", lambda a: np.vander(a, 3), V3)
    add("linspace", lambda a: np.linspace(a[0], a[1], 4), V3)
    add("linspace arr", lambda a, b: np.linspace(a, b, 3), V3, W3)
    add("arange", lambda a: np.arange(3) * a[0], V3)
    add("logspace", lambda a: np.logspace(a[0], a[1], 3), V3)
    add("geomspace", lambda a: np.geomspace(a[0], a[1], 3), V3)
    add("meshgrid ij", lambda a, b: np.meshgrid(a, b, indexing="ij"), V3, W3)
    add("indices", lambda a: a[np.indices((2,))[0]], V3)
    add("triu_indices", lambda a: a[np.triu_indices(2)], M22)
    add("diag_indices", lambda a: a[np.diag_indices(2)], M22)
    add("unravel", lambda a: np.unravel_index(np.argmax(a), a.shape), M23)
    add("newaxis", lambda a: a[:, None] - a[None, :], V3)
    add("ellipsis", lambda a: a[..., 0], M23)
    add("neg step", lambda a: a[::-1], V3)
    add("fancy", lambda a: a[[0, 2], :][:, [1, 0]] if a.shape[0] > 2 else a[:, [1, 0]], M23)
    add("T@", lambda a, b: a.T @ b, M23, C21)
    add("iadd", lambda a, b: _op(a.copy(), b, "+"), V3, W3)
    add("isub", lambda a, b: _op(a.copy(), b, "-"), V3, W3)
    add("imul", lambda a, b: _op(a.copy(), b, "*"), V3, W3)
    add("itruediv", lambda a, b: _op(a.copy(), b, "/"), V3, W3)
    add("imatmul", lambda a, b: a @ b, M22, M22)
    add("pow2", lambda a: a ** 2, V3)
    add("pow.5", lambda a: a ** 0.5, V3)
    add("pow-1", lambda a: a ** -1, V3)
    add("pow-2.", lambda a: a ** -2.0, V3)
    add("pow3", lambda a: np.power(a, 3), V3)
    add("np.float64*", lambda a: np.float64(2) * a[0], V3)
    add("np.float64+", lambda a: np.float64(2) + a, V3)
    add("np.float64/", lambda a: np.float64(2) / a[0], V3)
    add("np.float64<", lambda a: bool(np.float64(2) < a[0]), V3)
    add("arr*scalar", lambda a: np.ones(3) * a[0], V3)
    add("arr@sym", lambda a: np.ones((2, 3)) @ a, V3)
    add("conc-sym", lambda a: np.ones(3) - a, V3)
    add("conc+=sym", lambda a: _op(np.ones(3), a, "+"), V3)
    add("math.sqrt", lambda a: math.sqrt(a[0]), V3)
    add("math.exp", lambda a: math.exp(a[0]), V3)
    add("math.log", lambda a: math.log(a[0]), V3)
    add("math.isclose", lambda a: math.isclose(a[0], 0.5), V3)
    add("math.isnan", lambda a: math.isnan(a[0]), V3)
    add("math.isfinite", lambda a: math.isfinite(a[0]), V3)
    add("math.fsum", lambda a: math.fsum(a), V3)
    add("math.prod", lambda a: math.prod(a), V3)
    add("math.hypot", lambda a: math.hypot(a[0], a[1]), V3)
    add("math.pow", lambda a: math.pow(a[0], 2), V3)
    add("math.fabs", lambda a: math.fabs(a[0]), V3)
    add("math.floor", lambda a: math.floor(a[0]), V3)
    add("int()", lambda a: int(a[1]), V3)
    add("float()", lambda a: float(a[1]), V3)
    add("round()", lambda a: round(a[0], 1), V3)
    add("abs()", lambda a: abs(a[0]), V3)
    add("sum()", lambda a: sum(a), V3)
    add("sum(2d)", lambda a: sum(a), M23)
    add("max()", lambda a: max(a), V3)
    add("min()", lambda a: min(a), V3)
    add("max key", lambda a: max(range(3), key=lambda i: a[i]), V3)
    add("sorted", lambda a: sorted(a), V3)
    add("sorted key", lambda a: sorted(range(3), key=a.__getitem__), V3)
    add("any()", lambda a: any(a > 1), V3)
    add("all()", lambda a: all(a > 1), V3)
    add("pow()", lambda a: pow(a[0], 2), V3)
    add("divmod", lambda a: divmod(a[1], 1.5), V3)
    add("reduce", lambda a: reduce(lambda x, y: x * y, a), V3)
    add("reduce matmul", lambda a: reduce(np.dot, [a, a, a]), M22)
    add("set/dict", lambda a: {"x": a[0]}["x"], V3)
    add("fstring", lambda a: len(f"{a[0]:.2f}"), V3)
    add("item", lambda a: a[0].item() + a[:1].item(), V3)
    add("isinstance", lambda a: isinstance(a, np.ndarray), V3)
    add("isinstance2", lambda a: isinstance(a[0], (float, np.floating)), V3)
    add("np.isscalar", lambda a: np.isscalar(a[0]), V3)
    add("issubdtype", lambda a: np.issubdtype(a.dtype, np.floating), V3)
    add("dtype kind", lambda a: a.dtype.kind == "f", V3)
    add("dtype ==", lambda a: a.dtype == float, V3)
    add("np.result_type", lambda a: np.result_type(a, 1.0) == np.float64, V3)
    for m in "sum prod mean std var max min ptp argmax argmin cumsum cumprod any all".split():
        if hasattr(np.ndarray, m):
            add("." + m, lambda a, m=m: getattr(a, m)(), M23)
            if m not in ("cumsum",):
                add("." + m + "0", lambda a, m=m: getattr(a, m)(axis=0), M23)
    add(".dot", lambda a, b: a.dot(b), M23, V3)
    add(".trace", lambda a: a.trace(), M22)
    add(".diagonal", lambda a: a.diagonal(), M22)
    add(".nonzero", lambda a: (a > 1).nonzero(), V3)
    add(".round", lambda a: a.round(1), V3)
    add(".sort", lambda a: (lambda b: (b.sort(), b)[1])(a.copy()), V3)
    add(".argsort", lambda a: a.argsort()[::-1], V3)
    add(".take", lambda a: a.take([1, 0]), V3)
    add(".repeat", lambda a: a.repeat(2), V3)
    add(".swapaxes", lambda a: a.swapaxes(0, 1), M23)
    add(".squeeze", lambda a: a.squeeze(), C21)
    add(".view", lambda a: a.view(), V3)
    add(".compress", lambda a: a.compress([True, False, True]), V3)
    add(".searchsorted", lambda a: np.sort(a).searchsorted(1.0), V3)
    add(".conj", lambda a: a.conj(), V3)
    add(".real", lambda a: a.real, V3)
    add(".T", lambda a: a.T, M23)
    add(".flat set", lambda a: (lambda b: (b.flat.__setitem__(0, 5.0), b)[1])(a.copy()), M23)
    add("norm.pdf", lambda a, b: ss.norm.pdf(a, loc=b[0], scale=b[1]), V3, W3)
    add("norm.logpdf", lambda a, b: ss.norm.logpdf(a, loc=b[0], scale=b[1]), V3, W3)
    add("norm().pdf", lambda a, b: ss.norm(loc=b[0], scale=b[1]).pdf(a), V3, W3)
    add("norm().logpdf", lambda a, b: ss.norm(b[0], b[1]).logpdf(a), V3, W3)
    add("uniform.pdf", lambda a, b: ss.uniform.pdf(a, loc=0.1, scale=1.5), V3, W3)
    add("mvn.pdf", lambda a, m: ss.multivariate_normal(mean=np.zeros(2), cov=m).pdf(a), M32, M22)
    add("mvn.logpdf", lambda a, m: ss.multivariate_normal(mean=np.zeros(2), cov=m).logpdf(a), M32, M22)
    add("mvn.pdf1", lambda a, m: ss.multivariate_normal.pdf(a, np.zeros(2), m), M32, M22)
    add("logsumexp", lambda a: __import__("scipy.special", fromlist=["logsumexp"]).logsumexp(a), V3)
    add("softmax", lambda a: __import__("scipy.special", fromlist=["softmax"]).softmax(a), V3)
    add("cdist", lambda a: __import__("scipy.spatial.distance", fromlist=["cdist"]).cdist(a, a), M23)
    add("mahal", lambda a, b, m: __import__("scipy.spatial.distance", fromlist=["x"]).mahalanobis(a, b, m), V3[:2], W3[:2], M22)
    add("trapezoid", lambda a: __import__("scipy.integrate", fromlist=["x"]).trapezoid(a), V3)
    add("np.trapezoid", lambda a: getattr(np, "trapezoid", getattr(np, "trapz", None))(a, dx=0.5), V3)
    add("zscore", lambda a: ss.zscore(a), V3)
    add("np.errstate", lambda a: _es(a), V3)
    add("copy.deepcopy", lambda a: __import__("copy").deepcopy(a), V3)
    add("copy.copy", lambda a: __import__("copy").copy(a), V3)
    add("np.matrix", lambda a: np.asarray(np.matrix(a) * 2), M22)
    add("ma", lambda a: np.ma.masked_less(a, 1.0).sum(), V3)
    add("nan compare", lambda a: np.isnan(a).any(), V3)
    add("setitem slice", lambda a: (lambda b: (b.__setitem__((slice(None), 0), 1.0), b)[1])(a.copy()), M23)
    add("at least", lambda a: np.atleast_2d(a).T, V3)
    add("array 2 lists", lambda a: np.array([[a[0], 1.0], [0, a[1]]]), V3)
    add("array rows2", lambda a: np.array([a, 2 * a]), V3)
    add("asarray list arr", lambda a: np.asarray([a[0], a[1]]), V3)
    add("np.float64()", lambda a: np.float64(a[0]), V3)
    add("np.float64(arr0)", lambda a: float(np.sum(a)), V3)
    add("sum gen", lambda a: np.sum([x * x for x in a]), V3)
    add("max dflt", lambda a: max(0.0, a[0]), V3)
    add("chain cmp", lambda a: 0 < a[0] < 1, V3)
    add("ternary", lambda a: a[0] if a[0] > 1 else a[1], V3)
    add("np.sum where", lambda a: np.sum(a, where=a > 1), V3)
    add("np.mean where", lambda a: np.mean(a, where=a > 1), V3)
    add("np.max initial", lambda a: np.max(a, initial=5.0), V3)
    add("linalg.inv stack", lambda a: np.linalg.inv(np.stack([a, a])), M22)
    add("outer@", lambda a, b: np.outer(a, b) @ a, V3, W3)
    add("dot mats", lambda a, b: np.dot(a, b), M23, M32)
    add("a.T.dot", lambda a: a.T.dot(a), M23)
    return d


def _fill(a, b):
    for i in range(len(a)):
        b[i] = a[i] * 2
    return b


def _rows(a, b):
    for i, r in enumerate(a):
        b[i] = r
    return b


def _cols(a, b):
    for i in range(a.shape[1]):
        b[:, i] = a[:, i]
    return b


def _iadd(a, b):
    for r in a:
        b += r
    return b


def _op(a, b, o):
    if o == "+":
        a += b
    elif o == "-":
        a -= b
    elif o == "*":
        a *= b
    else:
        a /= b
    return a


def _es(a):
    with np.errstate(divide="ignore", invalid="ignore"):
        return np.log(a)
