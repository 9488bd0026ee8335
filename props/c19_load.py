import os
import pickle
import tempfile

import numpy as np

from engine.harness import Prop

PROP = Prop(
    "C19", "Loading maps every field of the data set to the problem unchanged",
    outside="netcdf files (xarray is not installed); more than 2 samples")

FIELDS = ["domain", "sensors", "times", "lam_ref", "std_dev", "true_vals", "measurements",
          "lam", "data", "sample_dist"]


def values(T):
    lam = T.arr("lam", (2, 1), lo=0, hi=1)
    return {"sample_dist": "n", "domain": T.A([[0, 1]]), "sensors": np.array([[1, 2]]),
            "times": np.array([3, 4]), "lam_ref": T.A([T.real("ref", lo=0, hi=1)]),
            "std_dev": T.real("sigma", pos=True), "true_vals": T.arr("tv", (2, 1)),
            "measurements": T.arr("M", (2, 1)), "lam": lam, "data": T.arr("D", (2, 2))}


def same(T, P, f, v):
    g = getattr(P, f)
    if f == "sample_dist":
        T.true(g == v, f)
    else:
        T.eq(g, v, f)


def direct(T):
    """a dictionary whose keys are the field names, in any order, any optional one absent"""
    from mud.base import SpatioTemporalProblem
    d = values(T)
    drop = T.choice("absent", [None, "sample_dist", "domain", "lam_ref", "std_dev",
                               "true_vals", "measurements"])
    if drop:
        del d[drop]
        if drop == "domain":
            d["lam_ref"] = d["lam"][0]
    if T.pick("order", 2):
        d = dict(reversed(list(d.items())))
    if T.pick("how", 2):
        P = SpatioTemporalProblem(d)
    else:
        P = SpatioTemporalProblem()
        r = P.load(d)
        T.true(r is d or list(r) == list(d), "returns the data set")
    for f in d:
        same(T, P, f, d[f])
    if drop and drop not in ("domain", "sample_dist"):
        T.true(getattr(P, drop) is None, drop + " stays unset")


def renamed(T):
    """fields found under other names of the data set"""
    from mud.base import SpatioTemporalProblem
    d = values(T)
    f = T.choice("field", FIELDS)
    ds = {("key of " + k if k == f else k): v for k, v in d.items()}
    if T.pick("decoy", 2) and f not in ("lam", "data"):
        # the data set also has an entry of the field's own name
        ds[f] = {"sample_dist": "u", "domain": T.A([[-1, 2]]),
                 "sensors": np.array([[7, 8]]), "times": np.array([8, 9]),
                 "lam_ref": T.A([0]), "std_dev": T.const(9),
                 "true_vals": T.A([[5], [5]]), "measurements": T.A([[6], [6]])}[f]
    P = SpatioTemporalProblem()
    P.load(ds, **{f: "key of " + f})
    for k in d:
        same(T, P, k, d[k])


def explicit(T):
    """values passed directly take the place of entries of the data set"""
    from mud.base import SpatioTemporalProblem
    d = values(T)
    f = T.choice("field", ["domain", "sensors", "times", "lam_ref", "std_dev",
                           "true_vals", "measurements"])
    ds = dict(d)
    if T.pick("absent", 2):
        del ds[f]
    else:
        ds[f] = {"domain": T.A([[-1, 2]]), "sensors": np.array([[7, 8]]),
                 "times": np.array([8, 9]), "lam_ref": T.A([0]), "std_dev": T.const(9),
                 "true_vals": T.A([[5], [5]]), "measurements": T.A([[6], [6]])}[f]
    P = SpatioTemporalProblem()
    P.load(ds, **{f: d[f]})
    for k in d:
        same(T, P, k, d[k])


def files(T):
    """pickled data sets; a missing file is reported as such"""
    from mud.base import SpatioTemporalProblem
    d = {"lam": np.array([0.25, 0.75]), "data": np.array([[1.0, 2.0], [3.0, 5.0]]),
         "domain": [[0, 1]], "std_dev": 0.5, "measurements": [4.0, 6.0]}
    with tempfile.TemporaryDirectory() as tmp:
        f = os.path.join(tmp, T.choice("name", ["set.pickle", "set", "set.pkl"]))
        with open(f, "wb") as fp:
            pickle.dump(d, fp)
        P = SpatioTemporalProblem()
        P.load(f)
        T.eq(P.lam, np.array([[0.25], [0.75]]), "lam")
        T.eq(P.data, d["data"], "data")
        T.eq(P.measurements, np.array([[4.0], [6.0]]), "measurements")
        T.true(P.std_dev == 0.5, "std_dev")
        T.raises(FileNotFoundError,
                 lambda: P.load(os.path.join(tmp, "absent.pickle")), "missing file")


def sparse_files(T):
    """pickled data sets of few fields: the rest as a fresh problem has it"""
    from mud.base import SpatioTemporalProblem
    v = T.pick("shape", 3)
    lam = [np.array([[0.25], [0.5]]), np.array([[0.25, 3.0], [0.5, -1.0]]),
           np.array([0.25, 0.5])][v]
    d = {"lam": lam, "data": np.array([[1.0, 2.0], [3.0, 5.0]])}
    more = {"sensors": np.array([[0.5, 0.5], [0.0, 1.0]]), "times": np.array([1.0, 4.0]),
            "true_vals": np.array([[1.0], [2.0]]), "std_dev": 0.25,
            "measurements": np.array([[2.0], [4.0]]), "sample_dist": "n"}
    f = T.choice("present", [None] + sorted(more))
    if f:
        d[f] = more[f]
    with tempfile.TemporaryDirectory() as tmp:
        name = os.path.join(tmp, "d.pkl")
        with open(name, "wb") as fp:
            pickle.dump(d, fp)
        P, Q, R = SpatioTemporalProblem(), SpatioTemporalProblem(), SpatioTemporalProblem()
        if T.pick("constructor", 2):
            P = SpatioTemporalProblem(name)
        else:
            P.load(name)
    if f is None:
        T.true(P.sample_dist == "u", "distribution of the samples: default")
    Q.load(d)
    cols = np.atleast_2d(lam.T).T
    lims = [[c.min(), c.max()] for c in cols.T]
    if f != "sample_dist":
        T.eq(T.A(P.domain), T.A(lims), "domain: that of the samples")
    T.eq(P.lam, cols, "lam")
    for g in ["lam", "data"] + sorted(more):
        a, b = getattr(P, g), getattr(Q, g)
        if a is None or b is None or isinstance(a, str):
            T.true((a is None and b is None) or a == b, g + ": as from a dictionary")
        else:
            T.eq(np.asarray(a, dtype=float), np.asarray(b, dtype=float),
                 g + ": as from a dictionary")


def no_xarray(T):
    """a missing netcdf file is reported as missing, whatever is installed"""
    from mud.base import SpatioTemporalProblem
    T.raises(FileNotFoundError, lambda: SpatioTemporalProblem().load("/nonexistent/a.nc"),
             "missing file")


PROP.add(direct, "direct")
PROP.add(renamed, "renamed")
PROP.add(explicit, "explicit")
PROP.add(files, "files")
PROP.add(sparse_files, "files-sparse")
PROP.add(no_xarray, "netcdf-missing")
