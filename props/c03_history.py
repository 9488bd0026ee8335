from engine.harness import Prop
from props.den import Tiny, spread

PROP = Prop(
    "C03", "Estimates depend only on the current settings, never on their history",
    outside="histories longer than the stated number of steps; more than 2 samples "
            "in the histories")

N = 2


def setup(T, N=N, p=1, f=1):
    X, y = T.arr("X", (N, p)), T.arr("y", (N, f))
    spread(T, y)
    W = [None, T.arr("w", N, pos=True)]
    I = [T.density("init0"), T.density("init1")]
    O = [T.density("obs0"), T.density("obs1")]
    P = [T.density("pred0"), T.density("pred1")]
    return X, y, W, I, O, P


def joint(d, row):
    t = 1
    for v in row:
        t = t * d.pdf(v)
    return t


def expected(T, X, y, w, i_, o_, p_):
    """(updated values, expected ratio) from the definition"""
    N = len(y)
    W = [1] * N if w is None else w
    if p_ is None:
        pr = T.kde(y.T, w if w is not None else None).pdf(y.T)
    else:
        pr = [joint(p_, y[k]) for k in range(N)]
    r = [joint(o_, y[k]) / pr[k] for k in range(N)]
    up = [joint(i_, X[k]) * W[k] * r[k] for k in range(N)]
    return up, sum(W[k] * r[k] for k in range(N)) / sum(W)


OPS = ["weights", "initial", "observed", "predicted", "predicted+weights", "fit",
       "mud", "ratio"]


def density_history(T, steps, ops=tuple(OPS), last=None, N=N, p=1, f=1):
    """any sequence of settings and queries on a fitted problem"""
    from mud.base import DensityProblem
    X, y, W, I, O, P = setup(T, N, p, f)
    st = {"w": W[1], "i": I[0], "o": O[0], "p": P[0]}
    D = DensityProblem(X, y, domain=[[-50, 50]] * p, weights=W[1])
    D.set_initial(I[0])
    D.set_observed(O[0])
    D.set_predicted(P[0])
    if T.pick("fitted", 2):
        D.fit()
    for s in range(steps):
        op = ops[T.pick(f"op{s}", len(ops))]
        if op == "weights":
            D.set_weights(None)
            st["w"], st["p"] = None, None
        elif op == "initial":
            D.set_initial(I[1])
            st["i"], st["p"] = I[1], None
        elif op == "observed":
            D.set_observed(O[1])
            st["o"] = O[1]
        elif op == "predicted":
            D.set_predicted(P[1])
            st["p"] = P[1]
        elif op == "predicted+weights":
            w2 = T.arr("v", N, pos=True)
            D.set_predicted(P[1], weights=w2)
            st["w"], st["p"] = w2, P[1]
        elif op == "fit":
            D.fit()
        elif op == "mud":
            D.mud_point()
        else:
            D.expected_ratio()
    up, er = expected(T, X, y, st["w"], st["i"], st["o"], st["p"])
    if last == "ratio" or (last is None and T.pick("last", 2)):
        T.eq(D.expected_ratio(), er, "history: expected ratio of current settings")
    else:
        T.maximiser(D.mud_point(), X, up, "history: MUD point of current settings")


def bayes_history(T, steps, N=N, p=1, f=1, log=False):
    """any sequence of settings and queries on a Bayesian problem"""
    from mud.base import BayesProblem
    X, y = T.arr("X", (N, p)), T.arr("y", (N, f))
    Pr = [T.density("pr0"), T.density("pr1")]
    L = [T.density("ll0"), T.density("ll1")]
    B = BayesProblem(X, y, domain=[[-50, 50]] * p)
    B.set_prior(Pr[0])
    B.set_likelihood(L[0])
    cur = {"p": Pr[0], "l": L[0]}
    if T.pick("fitted", 2):
        B.fit()
    for s in range(steps):
        op = T.pick(f"op{s}", 5 if log else 4)
        if op == 0:
            B.set_prior(Pr[1])
            cur["p"] = Pr[1]
        elif op == 1:
            B.set_likelihood(L[1])
            cur["l"] = L[1]
        elif op == 2:
            B.fit()
        elif op == 3:
            B.map_point()
        else:
            B.set_likelihood(L[1], log=True)
            cur["l"] = L[1]
    ps = [joint(cur["p"], X[k]) * joint(cur["l"], y[k]) for k in range(N)]
    T.maximiser(B.map_point(), X, ps, "history: MAP point of current settings")


def bayes_tiny(T, steps):
    """a logarithmic likelihood too small for plain evaluation, after any history"""
    from mud.base import BayesProblem
    X, y = T.arr("X", (N, 1)), T.arr("y", (N, 1))
    pr, L = [T.density("pr0"), T.density("pr1")], T.density("ll0")
    last = T.density("ll1")
    B = BayesProblem(X, y, domain=[[-50, 50]])
    B.set_prior(pr[0])
    B.set_likelihood(L, log=bool(T.pick("log", 2)))
    cur = pr[0]
    for s in range(steps):
        op = T.choice(f"op{s}", ["prior", "plain", "log", "fit", "map"])
        if op == "prior":
            cur = pr[1]
            B.set_prior(cur)
        elif op in ("plain", "log"):
            B.set_likelihood(L, log=op == "log")
        elif op == "fit":
            B.fit()
        else:
            B.map_point()
    B.set_likelihood(Tiny(last), log=True)
    if T.pick("prior after", 2):
        cur = pr[1]
        B.set_prior(cur)
    T.maximiser(B.map_point(), X, [joint(cur, X[k]) * joint(last, y[k]) for k in range(N)],
                "history: MAP point of current settings, evaluated in logarithms")


for k in (1, 2):
    PROP.add(bayes_tiny, f"bayes-log-tiny-{k}", steps=k)


def bayes_caller_arrays(T):
    from mud.base import BayesProblem
    X, y = T.arr("X", (2, 2)), T.arr("y", (2, 2))
    Xc, yc, dom = X.copy(), y.copy(), T.A([[-50, 50], [-50, 50]])
    pr, ll = T.density("pr"), T.density("ll")
    B, C = BayesProblem(Xc, yc, domain=dom), BayesProblem(Xc, yc, domain=dom)
    Xc[:], yc[:], dom[:] = 0, 0, 1
    C.set_prior(T.density("other"))
    C.set_likelihood(T.density("more"))
    C.fit()
    B.set_prior(pr)
    B.set_likelihood(ll)
    ps = [joint(pr, X[k]) * joint(ll, y[k]) for k in range(2)]
    T.maximiser(B.map_point(), X, ps, "caller's arrays changed: MAP point")
    T.eq(B.domain, T.A([[-50, 50], [-50, 50]]), "caller's arrays changed: domain")


def default_again(T):
    """setting a density back to its default leaves nothing of the one before"""
    from mud.base import DensityProblem
    X, y = T.arr("X", (2, 1), lo=0, hi=1), T.arr("y", (2, 1))
    spread(T, y)
    w = T.arr("w", 2, pos=True)
    D = DensityProblem(X, y, domain=[[0, 1]], weights=w)
    E = DensityProblem(X, y, domain=[[0, 1]], weights=w)
    D.set_initial(T.density("init"))
    D.set_observed(T.density("obs"))
    D.set_predicted(T.density("pred"))
    if T.pick("fitted", 2):
        D.fit()
    for q in (D, E):
        q.set_initial()
        q.set_observed()
        if T.pick("predicted", 2):
            q.set_predicted()
    T.eq(D.expected_ratio(), E.expected_ratio(), "defaults restored: expected ratio")
    T.eq(D.mud_point(), E.mud_point(), "defaults restored: MUD point")


class Mutable:
    """a density of the user's that is set to another one later"""

    def __init__(self, d):
        self.d = d

    def pdf(self, x):
        return self.d.pdf(x)

    def logpdf(self, x):
        return self.d.logpdf(x)


def same_object(T):
    """setting a changed density object again sets what it is now"""
    from mud.base import DensityProblem
    X, y, W, I, O, P = setup(T)
    i, o, p = Mutable(I[0]), Mutable(O[0]), Mutable(P[0])
    D = DensityProblem(X, y, domain=[[-50, 50]], weights=W[1])
    D.set_initial(i)
    D.set_observed(o)
    D.set_predicted(p)
    if T.pick("fitted", 2):
        D.mud_point()
    v = T.pick("changed", 3)
    cur = [I[0], O[0], P[0]]
    if v == 0:
        i.d = cur[0] = I[1]
        D.set_initial(i)
        D.set_predicted(p)
    elif v == 1:
        o.d = cur[1] = O[1]
        D.set_observed(o)
    else:
        p.d = cur[2] = P[1]
        D.set_predicted(p)
    up, er = expected(T, X, y, W[1], *cur)
    T.maximiser(D.mud_point(), X, up, "same object set again: MUD point")
    T.eq(D.expected_ratio(), er, "same object set again: expected ratio")


def bayes_same_object(T):
    from mud.base import BayesProblem
    X, y = T.arr("X", (2, 1)), T.arr("y", (2, 1))
    Pr = [T.density("pr0"), T.density("pr1")]
    L = [T.density("ll0"), T.density("ll1")]
    p, l = Mutable(Pr[0]), Mutable(L[0])
    B = BayesProblem(X, y, domain=[[-50, 50]])
    B.set_prior(p)
    B.set_likelihood(l)
    if T.pick("fitted", 2):
        B.map_point()
    cur = [Pr[0], L[0]]
    if T.pick("changed", 2):
        p.d = cur[0] = Pr[1]
        B.set_prior(p)
    else:
        l.d = cur[1] = L[1]
        B.set_likelihood(l)
    ps = [joint(cur[0], X[k]) * joint(cur[1], y[k]) for k in range(2)]
    T.maximiser(B.map_point(), X, ps, "same object set again: MAP point")


def same_weights(T):
    """an array of weights changed in place and set again"""
    from mud.base import DensityProblem
    X, y, W, I, O, P = setup(T)
    w, v = T.arr("w", 2, pos=True), T.arr("v", 2, pos=True)
    a = w.copy()
    D = DensityProblem(X, y, domain=[[-50, 50]], weights=a)
    D.set_initial(I[0])
    D.set_observed(O[0])
    if T.pick("fitted", 2):
        D.set_predicted(P[0])
        D.mud_point()
    a[:] = v
    D.set_weights(a)
    D.set_predicted(P[0])
    up, er = expected(T, X, y, v, I[0], O[0], P[0])
    T.maximiser(D.mud_point(), X, up, "same weights object set again: MUD point")
    T.eq(D.expected_ratio(), er, "same weights object set again: expected ratio")


def order(T):
    """initial before the rest, otherwise any order of the setters"""
    from mud.base import DensityProblem
    X, y, W, I, O, P = setup(T)
    D = DensityProblem(X, y, domain=[[-50, 50]])
    steps = [lambda: D.set_initial(I[0]), lambda: D.set_observed(O[0]),
             lambda: D.set_weights(W[1])]
    k = T.pick("perm", 6)
    perm = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)][k]
    for i in perm:
        steps[i]()
    D.set_predicted(P[0])
    up, er = expected(T, X, y, W[1], I[0], O[0], P[0])
    T.maximiser(D.mud_point(), X, up, "setter order: MUD point")
    T.eq(D.expected_ratio(), er, "setter order: expected ratio")


def independent(T):
    """two problems built from the same arrays do not share state"""
    from mud.base import DensityProblem
    X, y, W, I, O, P = setup(T)
    D = [DensityProblem(X, y, domain=[[-50, 50]], weights=W[1]) for _ in range(2)]
    for k in (0, 1):
        D[k].set_initial(I[k])
        D[k].set_observed(O[k])
        D[k].set_predicted(P[k])
    D[1].fit()
    D[0].fit()
    for k in (0, 1):
        up, er = expected(T, X, y, W[1], I[k], O[k], P[k])
        T.maximiser(D[k].mud_point(), X, up, "two problems: MUD point")
        T.eq(D[k].expected_ratio(), er, "two problems: expected ratio")


def caller_arrays(T):
    """changing the arrays afterwards does not change the problem"""
    from mud.base import DensityProblem
    X, y, W, I, O, P = setup(T)
    w = W[1].copy()
    X2, y2, dom = X.copy(), y.copy(), T.A([[-50, 50]])
    D = DensityProblem(X2, y2, domain=dom, weights=w)
    X2[:] = 0
    y2[:] = 0
    w[:] = 1
    dom[:] = 7
    T.eq(D.domain, T.A([[-50, 50]]), "caller's arrays changed: domain")
    D.set_initial(I[0])
    D.set_observed(O[0])
    D.set_predicted(P[0])
    up, er = expected(T, X, y, W[1], I[0], O[0], P[0])
    T.maximiser(D.mud_point(), X, up, "caller's arrays changed: MUD point")
    T.eq(D.expected_ratio(), er, "caller's arrays changed: expected ratio")


PROP.add(density_history, "density-2-steps", steps=2, budget=100)
PROP.add(density_history, "density-1-step", steps=1)
PROP.add(density_history, "density-3-setters", steps=3, budget=100,
         ops=("weights", "observed", "predicted", "mud"), last="mud")
PROP.add(density_history, "density-3-steps", tier="thorough", steps=3, budget=800)
PROP.add(bayes_history, "bayes-2-steps", steps=2)
PROP.add(bayes_history, "bayes-4-steps", tier="thorough", steps=4, budget=400)
PROP.add(order, "order")
PROP.add(same_object, "same-object")
PROP.add(bayes_same_object, "bayes-same-object")
PROP.add(same_weights, "same-weights")
PROP.add(independent, "independent")
PROP.add(caller_arrays, "caller-arrays")
PROP.add(density_history, "density-p2f2", steps=1, N=3, p=2, f=2, budget=60)
PROP.add(bayes_history, "bayes-p2f2", steps=1, N=3, p=2, f=2)
PROP.add(bayes_history, "bayes-log", steps=2, log=True)
PROP.add(bayes_caller_arrays, "bayes-caller-arrays")
PROP.add(default_again, "default-again")

def refusals(T):
    """settings that are refused leave the current ones"""
    from mud.base import DensityProblem
    X, y, W, I, O, P = setup(T)
    D = DensityProblem(X, y, domain=[[-50, 50]], weights=W[1])
    D.set_initial(I[0])
    D.set_observed(O[0])
    p = None
    if T.pick("predicted", 2):
        p = P[0]
        D.set_predicted(p)
    if T.pick("fitted", 2):
        D.fit()
    bad = T.arr("bad", N + 1, pos=True)
    bad = [bad, bad.reshape(1, -1), list(bad)][T.pick("form", 3)]

    def call():
        if T.pick("way", 2):
            D.set_weights(bad)
        else:
            D.set_predicted(P[1], weights=bad)
    T.raises((AssertionError, ValueError), call, "weights of the wrong length")
    i = 0
    if T.pick("set afterwards", 2):
        i = 1
        D.set_initial(I[1])
        p = None
    up, er = expected(T, X, y, W[1], I[i], O[0], p)
    T.eq(D.expected_ratio(), er, "refusal: expected ratio of current settings")
    T.maximiser(D.mud_point(), X, up, "refusal: MUD point of current settings")


PROP.add(refusals, "refusals")

# the same with arrays stored in column order, or backwards
PROP.turned("density-p2f2", "bayes-p2f2")
