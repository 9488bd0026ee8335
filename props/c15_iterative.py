from engine.harness import Prop
from props.lin import adj, col, det, dot, mv, quad, rows

PROP = Prop(
    "C15", "Iterative solver projects onto one row at a time, keeping what is uninformed",
    outside="more than 2 parameters, 2 rows or 3 sweeps; convergence in the limit")


def setup(T, form="entries", d=2):
    A, b, y, m = T.arr("A", (d, 2)), T.arr("b", d), T.arr("y", d), T.arr("m", 2)
    S = T.spd("S", 2, form)
    for i in range(d):
        T.assume(dot(A[i], A[i]) != 0)
    return A, b, y, m, S


def step(T, A, b, y, S, i, x0, x1, label):
    """x1 satisfies row i and x1 - x0 is a multiple of Sigma a_i"""
    T.eq(dot(A[i], x1) + b[i], y[i], label + ": row satisfied")
    n = [-A[i][1], A[i][0]]
    T.eq(dot(n, mv(adj(S, 2), [x1[j] - x0[j] for j in range(2)])), 0,
         label + ": moves along Sigma a_i only")


def col_of(T, x, label):
    T.shape(x, (2, 1), label)
    return list(x.reshape(-1))


def problem(T, sweeps, order, form="entries", split=False, dcov=False):
    """the class: chains, epochs, repeated calls continue"""
    from mud.base import IterativeLinearProblem
    A, b, y, m, S = setup(T, form)
    kw = {"idx_order": order} if order else {}
    if dcov:
        kw["data_cov"] = T.spd("O", 2, "diag")
    P = IterativeLinearProblem(A, b, y=y, mu_i=m, cov=S, **kw)
    if split:
        for _ in range(sweeps):
            x = P.solve()
    else:
        x = P.solve(num_epochs=sweeps)
    Al, Sl = rows(A, 2, 2), rows(S, 2, 2)
    T.true(len(P.solution_chains) == sweeps, "one chain per sweep")
    prev = list(m)
    for c in P.solution_chains:
        T.true(len(c) == 1 + len(order or [0, 1]), "one solution per row")
        T.eq(T.A(col_of(T, c[0], "column")), T.A(prev), "sweep starts at the last solution")
        for k, i in enumerate(order or [0, 1]):
            nxt = col_of(T, c[k + 1], "column")
            step(T, Al, b, y, Sl, i, prev, nxt, "sweep")
            prev = nxt
    T.eq(T.A(col_of(T, x, "column")), T.A(prev), "returns the last solution")


def defaults(T):
    """zero mean, offset and data and identity covariance by default"""
    from mud.base import IterativeLinearProblem
    A = T.arr("A", (1, 2))
    T.assume(dot(A[0], A[0]) != 0)
    b = T.arr("b", 1)
    v = T.pick("which", 3)
    P = [lambda: IterativeLinearProblem(A, b), lambda: IterativeLinearProblem(A[0], b),
         lambda: IterativeLinearProblem(A, None, y=-b)][v]()
    x = col_of(T, P.solve(), "column")
    step(T, rows(A, 1, 2), b, [0], [[1, 0], [0, 1]], 0, [0, 0], x, "defaults")


def contraction(T):
    """the distance to any solution of the system drops by the step taken"""
    from mud.base import IterativeLinearProblem
    A, b, y, m, S = setup(T, "entries")
    r = T.arr("r", 2)
    y = T.A([dot(A[i], r) + b[i] for i in range(2)])
    P = IterativeLinearProblem(A, b, y=y, mu_i=m, cov=S)
    P.solve(num_epochs=1)
    Q = adj(rows(S, 2, 2), 2)
    c = [list(v.reshape(-1)) for v in P.solution_chains[0]]
    for k in range(2):
        e0 = [c[k][j] - r[j] for j in range(2)]
        e1 = [c[k + 1][j] - r[j] for j in range(2)]
        s = [c[k + 1][j] - c[k][j] for j in range(2)]
        T.eq(quad(Q, e1) + quad(Q, s), quad(Q, e0), "error shrinks by the step")


def orthogonal(T):
    """rows orthogonal in Sigma: one sweep solves the system"""
    from mud.base import IterativeLinearProblem
    u, v = T.real("u"), T.real("v")
    T.assume(u * u + v * v != 0)
    k = T.real("k")
    T.assume(k != 0)
    A = T.A([[u, v], [-k * v, k * u]])
    b, y, m = T.arr("b", 2), T.arr("y", 2), T.arr("m", 2)
    x = list(IterativeLinearProblem(A, b, y=y, mu_i=m).solve().reshape(-1))
    for i in range(2):
        T.eq(dot(A[i], x) + b[i], y[i], "all rows satisfied after one sweep")


def errors(T, d, again, resolve=False):
    """errors are distances to the reference asked for, also after asking for another"""
    from mud.base import IterativeLinearProblem
    A, b, y, m, S = setup(T, "diag", d)
    P = IterativeLinearProblem(A, b, y=y, mu_i=m, cov=None if resolve else S)
    P.solve()
    refs = [T.arr("r", (2, 1)), T.arr("q", (2, 1))]
    if again:
        P.get_errors(refs[0])
        if resolve:
            P.solve()
    e = P.get_errors(refs[1])
    sols = [s for c in P.solution_chains for s in c[1:]]
    T.true(len(e) == len(sols), "one error per solution")
    for v, s in zip(e, sols):
        d = [s[j, 0] - refs[1][j, 0] for j in range(2)]
        T.eq(v * v, dot(d, d), "distance to the reference")
        T.le(0, v, "distances are not negative")


def function(T, which, sweeps=1):
    """iter_lin_solve, performEpoch, iterate do the same sweeps"""
    from mud import funs
    A, b, y, m, S = setup(T, "entries" if which != "iterate" else "diag")
    Al, Sl = rows(A, 2, 2), rows(S, 2, 2)
    order = T.choice("order", [None, [1, 0]])
    idx = order or [0, 1]
    if which == "iter_lin_solve":
        x = funs.iter_lin_solve(A, b, y=y, mean=m, cov=S, idx_order=order,
                                num_epochs=sweeps) if sweeps > 1 else \
            funs.iter_lin_solve(A, b, y=y, mean=m, cov=S, idx_order=order)
        from mud.base import IterativeLinearProblem
        P = IterativeLinearProblem(A, b, y=y, mu_i=m, cov=S, idx_order=order)
        T.eq(x, P.solve(num_epochs=sweeps), "same answer as the class")
        for_row = idx[-1]
        T.eq(dot(Al[for_row], col_of(T, x, "column")) + b[for_row], y[for_row],
             "last row satisfied")
        return
    if which == "performEpoch":
        c = funs.performEpoch(A, b, y, m, S, idx=order)
    else:
        c = funs.iterate(A, b, y, m, S, num_epochs=sweeps, idx=order)
    c = [list(T.A(v).reshape(-1)) for v in c]
    T.true(len(c) == sweeps * 3, "a start and one solution per row, each sweep")
    T.eq(T.A(c[0]), m, "starts at the initial mean")
    for e in range(sweeps):
        s = c[3 * e:3 * e + 3]
        if e:
            T.eq(T.A(s[0]), T.A(c[3 * e - 1]), "sweep starts at the last solution")
        for k, i in enumerate(idx):
            step(T, Al, b, y, Sl, i, s[k], s[k + 1], which)


def three_rows(T, which):
    """three known rows, any data and mean; one sweep by default"""
    from mud import funs
    from mud.base import IterativeLinearProblem
    Al = [[1, 0], [1, 1], [0, 2]]
    A = T.A(Al)
    b, y, m = T.arr("b", 3), T.arr("y", 3), T.arr("m", 2)
    S = T.spd("S", 2, "diag")
    if which == "class":
        P = IterativeLinearProblem(A, b, y=y, mu_i=m, cov=S)
        P.solve()
        c = P.solution_chains[0]
    else:
        c = getattr(funs, which)(A, b, y, m, S)
    c = [list(T.A(v).reshape(-1)) for v in c]
    T.true(len(c) == 4, "a start and one solution per row")
    T.eq(T.A(c[0]), m, "starts at the initial mean")
    for i in range(3):
        step(T, Al, b, y, rows(S, 2, 2), i, c[i], c[i + 1], "row %d" % i)


PROP.add(problem, "one-sweep", sweeps=1, order=None)
PROP.add(problem, "one-sweep-reversed", sweeps=1, order=[1, 0])
PROP.add(problem, "one-row", sweeps=1, order=[1])
PROP.add(problem, "repeated-row", sweeps=1, order=[0, 1, 0], form="diag")
PROP.add(problem, "two-sweeps", sweeps=2, order=None, form="diag")
PROP.add(problem, "two-calls", sweeps=2, order=None, form="diag", split=True)
PROP.add(problem, "data-cov", sweeps=1, order=None, form="diag", dcov=True)
PROP.add(problem, "two-sweeps-entries", tier="thorough", sweeps=2, order=None)
PROP.add(defaults, "defaults")
PROP.add(contraction, "contraction")
PROP.add(orthogonal, "orthogonal")
PROP.add(errors, "errors", d=2, again=False, budget=90)
PROP.add(errors, "errors-other-reference", d=1, again=True)
PROP.add(errors, "errors-solved-on", d=1, again=True, resolve=True)
PROP.add(function, "iter_lin_solve", which="iter_lin_solve")
PROP.add(function, "iter_lin_solve-sweeps", which="iter_lin_solve", sweeps=2)
PROP.add(three_rows, "three-rows", which="class")
PROP.add(three_rows, "three-rows-epoch", which="performEpoch")
PROP.add(three_rows, "three-rows-iterate", which="iterate")
PROP.add(function, "performEpoch", which="performEpoch")
PROP.add(function, "iterate", which="iterate", sweeps=2)


def fixed(T, d, p, sweeps, which="class"):
    """larger fixed operators; every data, offset and initial mean"""
    from mud import funs
    from mud.base import IterativeLinearProblem
    from props.lin import const_kernel, const_mat, const_spd
    Al, S = const_mat(d, p), const_spd(p)
    b, y, m = T.arr("b", d), T.arr("y", d), T.arr("m", p)
    A, C = T.A(Al), T.A([[S[i][j] if i == j else 0 for j in range(p)] for i in range(p)])
    if which == "class":
        P = IterativeLinearProblem(A, b, y=y, mu_i=m, cov=C)
        P.solve(num_epochs=sweeps)
        c = [x for ch in P.solution_chains for x in ch]
    else:
        c = funs.iterate(A, b, y, m, C, num_epochs=sweeps)
    T.true(len(c) == sweeps * (d + 1), "fixed: a start and a solution per row and sweep")
    c = [list(T.A(v).reshape(-1)) for v in c]
    T.eq(T.A(c[0]), m, "fixed: starts at the initial mean")
    for s in range(sweeps):
        if s:
            T.eq(T.A(c[s * (d + 1)]), T.A(c[s * (d + 1) - 1]), "fixed: sweeps continue")
        for i in range(d):
            x0, x1 = c[s * (d + 1) + i], c[s * (d + 1) + i + 1]
            T.eq(dot(Al[i], x1) + b[i], y[i], "fixed: row satisfied")
            w = [(x1[j] - x0[j]) / T.const(S[j][j]) for j in range(p)]
            for k in const_kernel([Al[i]]):
                T.zero([T.const(u) * v for u, v in zip(k, w)],
                       "fixed: moves along Sigma a_i only")


PROP.add(fixed, "fixed-5x4", d=5, p=4, sweeps=2)
PROP.add(fixed, "fixed-2x7", d=2, p=7, sweeps=3)
PROP.add(fixed, "fixed-iterate-4x5", d=4, p=5, sweeps=2, which="iterate")


def orders(T, order, d, method, sweeps=2):
    """any order of the rows, any method: the solution of each row's problem in turn"""
    from mud.base import IterativeLinearProblem, LinearGaussianProblem
    from props.lin import const_mat, const_spd
    Al, S = const_mat(d, 2), const_spd(2)
    b, y, m = T.arr("b", d), T.arr("y", d), T.arr("m", 2)
    A, C = T.A(Al), T.A([[S[i][j] if i == j else 0 for j in range(2)] for i in range(2)])
    O = T.A([[1 + i if i == j else 0 for j in range(d)] for i in range(d)])
    P = IterativeLinearProblem(A, b, y=y, mu_i=m, cov=C, data_cov=O, idx_order=order)
    r = T.arr("r", (2, 1))
    P.solve(num_epochs=sweeps, method=method)
    idx = list(range(d)) if order is None else list(order)
    x, it = m.reshape(-1, 1), []
    T.true(len(P.solution_chains) == sweeps, "one chain per sweep")
    for c in P.solution_chains:
        T.eq(c[0], x, "sweep starts at the last solution")
        T.true(len(c) == len(idx) + 1, "one solution per row")
        for k, i in enumerate(idx):
            Q = LinearGaussianProblem(A[i:i + 1], b[i:i + 1], y[i:i + 1], mean_i=x, cov_i=C,
                                      cov_o=O[i:i + 1, i:i + 1])
            x = Q.solve(method)
            T.eq(c[k + 1], x, "solution of the row's problem")
            it.append(x)
    e = P.get_errors(r)
    if T.shape(e, (len(it),), "one error per solution"):
        for v, s in zip(e, it):
            u = [s[j, 0] - r[j, 0] for j in range(2)]
            T.eq(v * v, dot(u, u), "distance to the reference")


PROP.add(orders, "orders-more-than-rows", order=[0, 1, 0, 1, 1], d=2, method="mud")
PROP.add(orders, "orders-fewer", order=[2, 0], d=3, method="mud", sweeps=3)
PROP.add(orders, "orders-all", order=None, d=4, method="mud")
PROP.add(orders, "orders-range", order=range(2, -1, -1), d=3, method="mud")
PROP.add(orders, "orders-map", order=[1, 0, 1], d=2, method="map")
PROP.add(orders, "orders-map-all", order=None, d=3, method="map", sweeps=1)
PROP.add(orders, "orders-mud-alt", order=[1, 0, 1], d=2, method="mud_alt", sweeps=1)

# samples, data, operators of integer type
PROP.add(problem, "whole-mean", sweeps=1, order=None, form="diag", ints=("m",))
PROP.add(problem, "whole-two-calls", sweeps=2, order=None, form="diag", split=True, ints=("m", "A"))
PROP.add(problem, "whole-operator", sweeps=2, order=None, ints=("A", "b", "S"))
PROP.add(function, "whole-iterate", which="iterate", sweeps=2, ints=("A", "m"))
PROP.add(function, "whole-iter_lin_solve", which="iter_lin_solve", sweeps=2, ints=("A", "m"))

# the same with arrays stored in column order, or backwards
PROP.turned("one-sweep", "iterate", "fixed-5x4")

# one after the other: refilled arrays, other settings for the same arrays
PROP.sequence("same-iter_lin_solve-then-iter_lin_solve-sweeps", "iter_lin_solve", "iter_lin_solve-sweeps", how="same")
PROP.sequence("again-iterate", "iterate", "iterate")
PROP.sequence("same-one-sweep-then-one-sweep-reversed", "one-sweep", "one-sweep-reversed", how="same")
