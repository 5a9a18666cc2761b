"""C04: Krylov projections, with failing operators and a hostile clock."""

import logging

import numpy as np

from runner import Check
import simclock

THRESHOLD = 1e-4


class OperatorFailure(Exception):
    pass


class Store(dict):
    """Kets that are loaded from somewhere whenever they are asked for."""

    def __getitem__(self, key):
        return np.array(dict.__getitem__(self, key))

    def get(self, key, default=None):
        return self[key] if key in self else default

    def values(self):
        return [self[k] for k in self]

    def items(self):
        return [(k, self[k]) for k in self]


USER = ("user", "nested", "buffer", "memo")


class UserOperator:
    """A user's matrix-free operator; may fail at any application."""

    def __init__(self, eng, m, nested=None, keep=None):
        self._eng = eng
        self._keep = keep        # what happens to the results it hands out
        self._kept = {}
        self._m = m
        self._nested = nested
        self.shape = m.shape
        self.dtype = m.dtype

    def dot(self, x):
        eng = self._eng
        if eng is not None:
            eng.point("op.dot")
            act = eng.device_fault("op")
            if act is not None:
                kind = act["kind"]
                eng.cur.op_failed = eng.cur.opid
                if kind == "op-memory":
                    raise MemoryError("operator out of memory")
                if kind == "op-interrupt":
                    raise KeyboardInterrupt("during operator")
                raise OperatorFailure("operator failed")
        if self._nested is not None:
            from HamiltonianPy.lanczos import KrylovRepresentation
            m, v = self._nested
            KrylovRepresentation(m, {"n": v}, v0=v, krylov_space_dim=3)
        out = np.dot(self._m, x)
        if self._keep == "buffer":      # every caller has one result
            key = eng.cur.tid, out.shape, out.dtype.char
            out, new = self._kept.setdefault(key, out), out
            out[...] = new
        elif self._keep == "memo":      # and remembers the answer
            out, _ = self._kept.setdefault(np.asarray(x).tobytes(),
                                           (out, out.copy()))
        if eng is not None:
            eng.point("op.done")
        return out

    def spoiled(self):
        """Did anybody write to the results that the operator keeps?"""
        return self._keep == "memo" and any(
            a.tobytes() != b.tobytes() for a, b in self._kept.values())

    __matmul__ = dot
    matvec = dot
    _matvec = dot


def line(seed, n):
    """A line of sites: their order, energies and couplings.

    All are small binary fractions, so that a projection is free of rounding
    and can go on for hundreds of steps."""
    rng = np.random.RandomState(seed)
    return (rng.permutation(n), rng.randint(-16, 17, n) / 8,
            rng.choice([-1, 1], n - 1) * rng.randint(4, 13, n - 1) / 8)


def dense_matrix(d):
    rng = np.random.RandomState(d["seed"])
    n = d["n"]
    kind = d["kind"]
    if kind == "chain":
        m = np.zeros((n, n))
        for i in range(n - 1):
            m[i, i + 1] = m[i + 1, i] = 1.0
        if n > 2:
            m[0, n - 1] = m[n - 1, 0] = 1.0
    elif kind == "line":         # every Krylov vector is a unit vector
        sites, a, b = line(d["seed"], n)
        m = np.zeros((n, n), dtype=complex if d["cplx"] else float)
        m[sites, sites] = a
        if d["cplx"]:
            b = b * np.array([1, 1j, -1, -1j])[np.arange(n - 1) % 4]
        m[sites[:-1], sites[1:]] = b
        m[sites[1:], sites[:-1]] = b.conj()
    elif kind == "levels":       # few distinct eigenvalues: early exhaustion
        q, _ = np.linalg.qr(rng.randn(n, n))
        lev = rng.choice([-2.0, 0.5, 3.0], size=n)
        m = (q * lev) @ q.T
        m = (m + m.T) / 2
    elif kind == "int":
        a = rng.randint(-3, 4, size=(n, n))
        m = a + a.T
    else:
        a = rng.randn(n, n)
        if d["cplx"]:
            a = a + 1j * rng.randn(n, n)
        m = (a + a.conj().T) / 2
    if d.get("unit"):           # another unit, another zero of energy
        m = m * d["unit"] + d["zero"] * np.eye(n)
    return m


def vector(d):
    rng = np.random.RandomState(d["seed"])
    n = d["n"]
    if d.get("like"):            # nearly another one
        v = vector(d["like"])
        return v + d["off"] * (np.abs(v).max() * rng.randn(n))
    if d["kind"] == "end":
        v = np.zeros(n)
        v[line(d["seed"], n)[0][d["end"]]] = d["scale"]
        return v
    if d["kind"] == "unit":
        v = np.zeros(n)
        v[d["seed"] % n] = d["scale"]
        return v
    if d["kind"] == "int":
        v = rng.randint(-3, 4, size=n)
        v[0] = v[0] or 1
        return v
    v = rng.randn(n)
    if d["kind"] == "cplx":
        v = v + 1j * rng.randn(n)
    return v * d["scale"]


def krylov_reference(h, v0, dim):
    """(T, Q, well posed) with full re-orthogonalisation, twice."""
    h = h.astype(complex)
    q = [v0.astype(complex) / np.linalg.norm(v0)]
    ok = True
    while len(q) < dim:
        w = h @ q[-1]
        for _ in range(3):
            for b in q:
                w = w - np.vdot(b, w) * b
        beta = np.linalg.norm(w)
        if 1e-9 < beta < 1e-2:
            ok = False
        if beta <= THRESHOLD:
            break
        q.append(w / beta)
    qm = np.array(q)
    t = (qm.conj() @ h @ qm.T).real
    # The plain three-term recurrence must be able to follow this closely.
    a, b, x, old = [], [], q[0], np.zeros_like(q[0])
    for i in range(len(q)):
        y = h @ x
        a.append(np.vdot(x, y).real)
        b.append(np.vdot(old, y).real)
        y = y - a[-1] * x - b[-1] * old
        nrm = np.linalg.norm(y)
        if i + 1 < len(q):
            if nrm < 1e-2 or np.abs(y / nrm - q[i + 1]).max() > 1e-9:
                return t, qm, False
            old, x = x, y / nrm
        elif len(q) < dim and nrm > 1e-7:
            ok = False
    tri = np.diag(np.diag(t)) + np.diag(np.diag(t, 1), 1) \
        + np.diag(np.diag(t, -1), -1)
    return tri, qm, ok


class C04(Check):
    id = "C04"
    quick = {"seeds": 260, "variants": 8}
    thorough = {"seeds": 6000, "variants": 14}
    real = "lanczos.py (all of it), numpy and scipy.sparse arithmetic"
    stub = ("thread scheduling, Ctrl-C, allocation failure, clock (`time`), "
            "the user's operator object and log handler")
    rule = ("Scenarios project shared and private Hermitian operators (dense, "
            "sparse, LinearOperator, user object that may fail, nest another "
            "projection or yield) from shared kets (some nearly alike, some loaded anew at every "
            "access), single and multiple, up "
            "to and beyond exhaustion of the space, with 1-3 callers.")
    assumptions = [
        "an operator's dot returns an array it does not touch again",
        "scenarios in which the Krylov space is numerically ambiguous (a "
        "residual between 1e-9 and 1e-2, or a plain recurrence that loses "
        "orthogonality) are not generated",
    ]
    must_reach = ("exhausted", "user_operator", "rejected", "multi",
                  "operator_failed", "store", "alike", "long")

    def seams(self, eng):
        self.eng = eng
        simclock.install(eng)

    def imports(self):
        import HamiltonianPy.lanczos  # noqa: F401

    # -- generation ----------------------------------------------------------
    def gen(self, rng, tier):
        if rng.random() < 0.05:
            return self._long(rng)
        nm = rng.choice([1, 1, 2])
        n = rng.choice([2, 3, 4, 6, 8, 12, 16, 24])
        if rng.random() < 0.06:
            n = rng.choice([50, 80, 140])
        mats = []
        for _ in range(nm):
            mats.append({
                "kind": rng.choice(["rand", "rand", "rand", "chain",
                                    "levels", "int"]),
                "cplx": rng.random() < 0.4, "n": n,
                "seed": rng.randrange(10 ** 6),
                "form": rng.choice(["dense", "csr", "csc", "linop", "user",
                                    "user", "nested", "readonly", "buffer", "memo"])})
            if rng.random() < 0.3:
                mats[-1].update(unit=rng.choice([1.0, 0.05, 40.0, 1e3]),
                                zero=rng.choice([0.0, -30.0, 2e3, 3e4]))
        vecs = []
        for i in range(rng.randint(1, 4) if n > 24 or rng.random() > 0.06
                       else rng.randint(9, 13)):
            vecs.append({"kind": rng.choice(["real", "cplx", "unit", "int"]),
                         "n": n, "seed": rng.randrange(10 ** 6),
                         "scale": rng.choice([1.0, 1.0, 0.02, 30.0, 2e-3, 1e5]),
                         "key": rng.choice(["a%d", "i", "t"])
                         .replace("%d", str(i)) + str(i)})
        if rng.random() < 0.35:     # the same or nearly the same once more
            vecs.append({"like": rng.choice(vecs), "kind": "like",
                         "seed": rng.randrange(10 ** 6), "n": n,
                         "off": rng.choice([0.0, 1e-6, 1e-5, 1e-3]),
                         "key": "near%d" % len(vecs)})
        sc = {"n": n, "mats": mats, "vecs": vecs, "threads": {},
              "log": rng.random() < 0.4}
        num = 0
        for t in range(rng.choice([1, 2, 2, 3])):
            ops = []
            for _ in range(rng.randint(1, 4)):
                op = self._op(rng, sc)
                op["id"] = str(num)
                num += 1
                ops.append(op)
                if rng.random() < 0.3:
                    ops.append(dict(op, id=str(num)))
                    num += 1
            sc["threads"]["T%d" % t] = ops
        op = self._op(rng, sc)
        op["id"] = "s%d" % num
        sc["settle"] = [op]
        return sc

    def _long(self, rng):
        """More steps than any that rounding would let a usual operator do."""
        n = rng.choice([110, 190, 230, 270])
        seed = rng.randrange(10 ** 6)
        sc = {"n": n, "log": rng.random() < 0.5, "threads": {},
              "mats": [{"kind": "line", "cplx": rng.random() < 0.5, "n": n,
                        "seed": seed, "form": rng.choice(
                            ["dense", "csr", "linop", "user"])}],
              "vecs": [{"kind": "end", "end": e, "seed": seed, "n": n,
                        "scale": rng.choice([1.0, 4.0]), "key": "e%d" % e}
                       for e in (0, -1)]}
        if rng.random() < 0.5:
            sc["vecs"].append({"kind": "cplx", "n": n, "seed": seed,
                               "scale": 1.0, "key": "r"})
        for t in range(rng.choice([1, 2])):
            sc["threads"]["T%d" % t] = [
                {"m": 0, "id": "%d" % t, "v0": rng.randrange(2),
                 "kind": "one" if len(sc["vecs"]) > 2
                 else rng.choice(["one", "multi"]),
                 "dim": rng.choice([None, None, 99, 128, n - 1, n + 2]),
                 "kets": rng.choice(["shared", "own", "none", "store"])}]
        sc["settle"] = [dict(sc["threads"]["T0"][0], id="s")]
        return sc

    def _op(self, rng, sc):
        for _ in range(20):
            op = {"m": rng.randrange(len(sc["mats"]))}
            r = rng.random()
            if r < 0.1:
                op["kind"] = rng.choice(["zero", "zeromulti", "shape"])
                op["dim"] = rng.randint(1, 5)
                return op
            top = sc["n"] + 3 if sc["n"] <= 24 else 12
            op["dim"] = rng.choice([1, 2, 3, rng.randint(1, top),
                                    rng.randint(1, top), None])
            op["kind"] = "multi" if rng.random() < 0.35 else "one"
            op["v0"] = rng.randrange(len(sc["vecs"]))
            op["kets"] = rng.choice(["shared", "shared", "own", "none",
                                     "store"])
            starts = (range(len(sc["vecs"])) if op["kind"] == "multi"
                      else [op["v0"]])
            h = dense_matrix(sc["mats"][op["m"]])
            if all(krylov_reference(h, vector(sc["vecs"][i]),
                                    op["dim"] or 200)[2] for i in starts):
                return op
        return {"m": 0, "kind": "zero", "dim": 2}

    # -- run -------------------------------------------------------------------
    def key(self, d):
        k = d["key"]
        if k[0] == "i":
            return int(k[1:])
        if k[0] == "t":
            return ("t", int(k[1:]))
        return k

    def start(self, eng, sc):
        from scipy.sparse import csc_matrix, csr_matrix
        from scipy.sparse.linalg import aslinearoperator
        ctx = {"sc": sc, "mats": [], "dense": [], "inputs": []}
        for d in sc["mats"]:
            m = dense_matrix(d)
            ctx["dense"].append(m.copy())
            f = d["form"]
            if f == "csr":
                obj = csr_matrix(m)
                arrays = [obj.data, obj.indices, obj.indptr]
            elif f == "csc":
                obj = csc_matrix(m)
                arrays = [obj.data, obj.indices, obj.indptr]
            elif f == "linop":
                obj = aslinearoperator(m)
                arrays = [m]
            elif f in USER:
                nested = None
                if f == "nested":
                    nested = (dense_matrix({"kind": "rand", "cplx": True,
                                            "n": d["n"], "seed": 7}),
                              np.arange(1.0, d["n"] + 1))
                obj = UserOperator(eng, m, nested, f)
                arrays = [m]
            else:
                obj = m
                if f == "readonly":
                    m.setflags(write=False)
                arrays = [m]
            ctx["mats"].append(obj)
            ctx["inputs"].append(("operator", arrays,
                                  [a.copy() for a in arrays]))
        ctx["vecs"] = {}
        ctx["pure"] = []
        for d in sc["vecs"]:
            v = vector(d)
            ctx["pure"].append(v.copy())
            ctx["vecs"][self.key(d)] = v
            ctx["inputs"].append(("ket", [v], [v.copy()]))
        ctx["keys"] = [self.key(d) for d in sc["vecs"]]
        if sc["log"]:
            lg = logging.getLogger("HamiltonianPy.lanczos")
            lg.setLevel(1)
            lg.propagate = False
            lg.addHandler(_Sink())
        return ctx

    def fault_kinds(self, sc):
        kinds = ["interrupt", "memory", "clock"]
        if any(m["form"] in USER for m in sc["mats"]):
            kinds += ["op-fail", "op-memory", "op-interrupt", "op-fail"]
        return kinds

    def device_action(self, rng, kind):
        if kind == "clock":
            return "clock", rng.choice([
                {"jump": -1e5}, {"jump": 1e7}, {"stall": 50},
                {"jump": -0.002}])
        return "op", {}

    def call(self, ctx, op):
        from HamiltonianPy.lanczos import KrylovRepresentation, MultiKrylov
        m = ctx["mats"][op["m"]]
        kind = op["kind"]
        n = ctx["sc"]["n"]
        kw = {} if op["dim"] is None else {"krylov_space_dim": op["dim"]}
        shared = ctx["vecs"]
        if kind == "zero":
            return KrylovRepresentation(m, shared, np.zeros(n), **kw)
        if kind == "zeromulti":
            return MultiKrylov(m, dict(shared, zero=np.zeros(n)), **kw)
        if kind == "shape":
            return KrylovRepresentation(m, shared, np.ones(n + 1), **kw)
        kets = shared
        if op["kets"] == "own":
            kets = {k: v.copy() for k, v in shared.items()}
        elif op["kets"] == "store":
            kets = Store(shared)
        if kind == "multi":
            return MultiKrylov(m, kets, **kw)
        v0 = shared[ctx["keys"][op["v0"]]]
        if op["kets"] == "none":
            kets = {}
        return KrylovRepresentation(m, kets, v0, **kw)

    # -- oracle ------------------------------------------------------------
    def _compare(self, ctx, op, v0, got, keys):
        t, vecs = got
        h = ctx["dense"][op["m"]]
        memo = ctx.setdefault("memo", {})
        k = (op["m"], v0, op["dim"])
        if k not in memo:
            memo[k] = krylov_reference(h, ctx["pure"][v0], op["dim"] or 200)
        want, q, _ = memo[k]
        t = np.asarray(t)
        if t.shape != want.shape:
            return "Krylov space has dimension %r instead of %d" % (
                t.shape, len(want))
        if len(want) < (op["dim"] or 200):
            ctx["exhausted"] = ctx.get("exhausted", 0) + 1
        if not all(isinstance(x, np.ndarray) for x in [got[0]] + [
                vecs[key] for key in vecs]):
            return "projected matrix or kets are no arrays"
        tol = 1e-7 * max(1.0, np.abs(h).max())
        if not np.abs(t - want).max() < tol:
            return "projected matrix is off by %.3g" % np.abs(t - want).max()
        if sorted(map(repr, vecs)) != sorted(map(repr, keys)):
            return "kets %r projected instead of %r" % (list(vecs), keys)
        for key in keys:
            ref_v = q.conj() @ ctx["pure"][ctx["keys"].index(key)]
            x = np.asarray(vecs[key])
            if x.shape != ref_v.shape:
                return "projected ket %r has shape %r" % (key, x.shape)
            if not np.abs(x - ref_v).max() < 1e-7 * max(
                    1.0, np.abs(ref_v).max()):
                return "projected ket %r is wrong" % (key,)
        return None

    @staticmethod
    def _tied(mats, vecs):
        """Do the results of two starting vectors share memory?"""
        each = [[np.asarray(mats[k])] + [np.asarray(v)
                                         for v in vecs[k].values()]
                for k in mats]
        for i, mine in enumerate(each):
            for other in each[:i]:
                if any(np.shares_memory(a, b) for a in mine for b in other):
                    return "two starting vectors share their results"
        return None

    def judge(self, ctx, rec):
        op = rec["op"]
        if op["kind"] in ("zero", "zeromulti", "shape"):
            if rec["exc"] is None:
                return (self.id + "/accepted",
                        "a zero or misfit starting vector was accepted")
            return None
        if rec["exc"] is not None:
            if rec["injected"]:
                return None
            return (self.id + "/raised", "raised %s: %s" % rec["exc"])
        if rec["swallowed"]:
            return (self.id + "/swallowed", "the operator failed (or the "
                    "caller interrupted), and the call returned")
        v = rec["value"]
        keys = [] if op.get("kets") == "none" else ctx["keys"]
        if op["kind"] == "one":
            bad = self._compare(ctx, op, op["v0"], v, keys)
        else:
            mats, vecs = v
            bad = None
            if sorted(map(repr, mats)) != sorted(map(repr, ctx["keys"])) \
                    or sorted(map(repr, vecs)) != sorted(
                        map(repr, ctx["keys"])):
                bad = "projected from %r" % (list(mats),)
            else:
                for i, k in enumerate(ctx["keys"]):
                    bad = bad or self._compare(
                        ctx, op, i, (mats[k], vecs[k]), ctx["keys"])
                bad = bad or self._tied(mats, vecs)
        if bad:
            return (self.id + "/wrong", bad)
        return None

    def finish(self, eng, ctx, sc, history):
        bad = []
        for what, now, before in ctx["inputs"]:
            for a, b in zip(now, before):
                if a.shape != b.shape or a.tobytes() != b.tobytes():
                    bad.append((self.id + "/input-modified",
                                "the %s handed in was modified" % what))
        if any(isinstance(m, UserOperator) and m.spoiled()
               for m in ctx["mats"]):
            bad.append((self.id + "/input-modified",
                        "the results that the operator keeps were modified"))
        if list(ctx["vecs"]) != ctx["keys"]:
            bad.append((self.id + "/input-modified",
                        "the dict of kets was modified"))
        return bad

    def coverage(self, ctx, sc, history):
        out = {"exhausted": ctx.get("exhausted", 0), "user_operator": 0,
               "rejected": 0, "multi": 0, "operator_failed": 0, "store": 0,
               "alike": 0, "long": 0}
        for r in history:
            op = r["op"]
            out["multi"] += op["kind"] == "multi"
            out["long"] += sc["mats"][0]["kind"] == "line"
            out["store"] += op.get("kets") == "store"
            out["alike"] += (op["kind"] == "multi"
                             and any("like" in v for v in sc["vecs"]))
            out["rejected"] += op["kind"] in ("zero", "zeromulti", "shape")
            out["user_operator"] += sc["mats"][op["m"]]["form"] in USER
            if r.get("exc") and r["exc"][0] == "OperatorFailure":
                out["operator_failed"] += 1
        return out

    def digest(self, rec):
        v = rec.get("value")
        if not v:
            return None
        out = []
        for x in v:
            if isinstance(x, dict):
                out.append(sorted((repr(k), np.round(
                    y[0] if isinstance(y, tuple) else y, 6).tolist()
                    if not isinstance(y, dict) else len(y))
                    for k, y in x.items()))
            else:
                out.append(np.round(x, 6).tolist())
        return repr(out)


class _Sink(logging.Handler):
    def createLock(self):
        self.lock = None

    def emit(self, record):
        record.getMessage()


CHECK = C04()
