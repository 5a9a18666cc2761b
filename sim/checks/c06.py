"""C06: averages are right for every ket in any order of use."""

import logging

import numpy as np

from runner import Check
import ref
import simclock
from checks.c04 import OperatorFailure, UserOperator, _Sink


def ket_of(d):
    rng = np.random.RandomState(d["seed"])
    n = d["n"]
    k = d["kind"]
    if k == "unit":
        v = np.zeros(n)
        v[d["seed"] % n] = 1.0
    elif k == "int":
        v = rng.randint(-3, 4, size=n)
        v[0] = v[0] or 2
        return v
    elif k == "real":
        v = rng.randn(n)
    elif k == "single":
        return (rng.randn(n) + 1j * rng.randn(n)).astype(np.complex64)
    else:
        v = rng.randn(n) + 1j * rng.randn(n)
    if d["scale"] == "near":
        # almost, but not quite, of norm one
        eps = 10.0 ** rng.randint(-7, -2) * rng.choice([-1, 1])
        return v / np.linalg.norm(v) * (1 + eps)
    return v * d["scale"]


def op_matrix(d):
    rng = np.random.RandomState(d["seed"])
    n = d["n"]
    m = rng.randn(n, n)
    if d["cplx"]:
        m = m + 1j * rng.randn(n, n)
    if d["herm"]:
        m = m + m.conj().T
        if d["cplx"] and d.get("loss"):     # a bit of damping
            m[np.arange(n), np.arange(n)] += 1j * d["loss"]
    return m


_TOTAL = {}


def total_spin(n):
    if n not in _TOTAL:
        _TOTAL[n] = [sum(ref.spin_matrix([(i, a)], n) for i in range(n))
                     for a in "xyz"]
    return _TOTAL[n]


def spin_dot(axis, v, n):
    """The total spin of n sites applied to v (bit i = 1: site i is down)."""
    k = np.arange(1 << n)
    out = np.zeros(len(v), dtype=complex)
    for i in range(n):
        down = (k >> i) & 1
        if axis == "z":
            out += (0.5 - down) * v
        else:
            other = v[k ^ (1 << i)]
            out += 0.5 * other if axis == "x" else (
                np.where(down, 0.5j, -0.5j) * other)
    return out


class C06(Check):
    id = "C06"
    quick = {"seeds": 320, "variants": 8}
    thorough = {"seeds": 7000, "variants": 14}
    real = "averages.py, tools/TotalSpin.py, numpy and scipy.sparse"
    stub = ("thread scheduling, Ctrl-C, allocation failure, clock, the user's "
            "operator object (fails, yields) and log handler")
    rule = ("Scenarios hold 1-2 prepared total-spin evaluators (1-5 spins, some 6-14) "
            "and several operators and kets (integer, real, complex, single "
            "precision, column, strided, read-only, any norm) that 1-3 "
            "callers evaluate in any order, mixed with rebuilt matrices and "
            "evaluators and kets that do not fit.")
    assumptions = []
    must_reach = ("rejected", "evaluator", "quantum", "operator_failed",
                  "matrices", "column", "big")

    def seams(self, eng):
        self.eng = eng
        simclock.install(eng)

    def imports(self):
        import HamiltonianPy.averages  # noqa: F401
        import HamiltonianPy.tools.TotalSpin  # noqa: F401

    def gen(self, rng, tier):
        spins = [rng.randint(1, 5) for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.12:         # a bigger system
            spins[-1] = rng.choice([rng.randint(6, 12), rng.randint(6, 14)])
        sizes = sorted({1 << s for s in spins} | {rng.choice([1, 3, 6])})
        kets = []
        for n in sizes:
            for _ in range(rng.randint(1, 3)):
                kets.append({"n": n, "kind": rng.choice(
                    ["real", "cplx", "cplx", "unit", "int", "single"]),
                    "seed": rng.randrange(10 ** 6),
                    "scale": rng.choice([1.0, 1e-3, 50.0, 1e6, "near", 2e-7]),
                    "form": rng.choice(["flat", "flat", "column", "strided",
                                        "readonly"])})
        ops = []
        for _ in range(rng.randint(1, 3)):
            ops.append({"n": rng.choice([n for n in sizes if n <= 32]),
                        "cplx": rng.random() < 0.5,
                        "herm": rng.random() < 0.6,
                        "loss": rng.choice([0, 0, 1e-3, 1e-5, 1e-6, 3e-7]),
                        "seed": rng.randrange(10 ** 6),
                        "form": rng.choice(["dense", "csr", "user"])})
        sc = {"spins": spins, "kets": kets, "ops": ops, "threads": {},
              "log": rng.random() < 0.3}
        num = 0
        for t in range(rng.choice([1, 2, 2, 3])):
            lst = []
            for _ in range(rng.randint(2, 5)):
                op = self._op(rng, sc)
                op["id"] = str(num)
                num += 1
                lst.append(op)
            sc["threads"]["T%d" % t] = lst
        sc["settle"] = []
        for _ in range(2):
            op = self._op(rng, sc)
            op["id"] = "s%d" % num
            num += 1
            sc["settle"].append(op)
        return sc

    def _op(self, rng, sc):
        kind = rng.choices(["eval", "quantum", "matrices", "newcalc", "misfit",
                            "zero"], [8, 5, 3, 3, 1, 1])[0]
        op = {"kind": kind}
        e = rng.randrange(len(sc["spins"]))
        if kind in ("eval", "newcalc"):
            op["e"] = e
            op["ket"] = rng.choice([
                i for i, k in enumerate(sc["kets"])
                if k["n"] == 1 << sc["spins"][e]])
        elif kind == "quantum":
            op["op"] = rng.randrange(len(sc["ops"]))
            op["ket"] = rng.choice([
                i for i, k in enumerate(sc["kets"])
                if k["n"] == sc["ops"][op["op"]]["n"]])
        elif kind == "matrices":
            op["n"] = rng.choice(sc["spins"] + [rng.randint(1, 5)])
            op["which"] = rng.choice(["averages", "tools"])
        else:
            op["e"] = e
        return op

    def start(self, eng, sc):
        from scipy.sparse import csr_matrix
        from HamiltonianPy.averages import TotalSpinAverages
        ctx = {"sc": sc, "eng": eng, "inputs": []}
        ctx["calc"] = [TotalSpinAverages(n) for n in sc["spins"]]
        ctx["kets"], ctx["pure"] = [], []
        for d in sc["kets"]:
            v = ket_of(d)
            ctx["pure"].append(np.array(v).astype(complex))
            base = v
            if d["form"] == "column":
                v = v.reshape(-1, 1)
            elif d["form"] == "strided":
                base = np.zeros(2 * len(v), dtype=v.dtype)
                base[::2] = v
                v = base[::2]
            elif d["form"] == "readonly":
                v.setflags(write=False)
            ctx["kets"].append(v)
            ctx["inputs"].append(("ket", base, base.copy()))
        ctx["ops"], ctx["dense"] = [], []
        for d in sc["ops"]:
            m = op_matrix(d)
            ctx["dense"].append(m.copy())
            if d["form"] == "csr":
                o = csr_matrix(m)
                for a in (o.data, o.indices, o.indptr):
                    ctx["inputs"].append(("operator", a, a.copy()))
            else:
                o = UserOperator(eng, m) if d["form"] == "user" else m
                ctx["inputs"].append(("operator", m, m.copy()))
            ctx["ops"].append(o)
        if sc["log"]:
            lg = logging.getLogger("HamiltonianPy.averages")
            lg.setLevel(1)
            lg.propagate = False
            lg.addHandler(_Sink())
        return ctx

    def fault_kinds(self, sc):
        kinds = ["interrupt", "memory", "clock"]
        if any(o["form"] == "user" for o in sc["ops"]):
            kinds += ["op-fail", "op-memory", "op-fail"]
        return kinds

    def device_action(self, rng, kind):
        if kind == "clock":
            return "clock", rng.choice([{"jump": -1e5}, {"jump": 1e7},
                                        {"stall": 50}])
        return "op", {}

    def call(self, ctx, op):
        from HamiltonianPy import averages as A
        kind = op["kind"]
        if kind == "eval":
            return ctx["calc"][op["e"]](ctx["kets"][op["ket"]])
        if kind == "newcalc":
            n = ctx["sc"]["spins"][op["e"]]
            return A.TotalSpinAverages(n)(ctx["kets"][op["ket"]])
        if kind == "quantum":
            return A.QuantumAverages(ctx["kets"][op["ket"]],
                                     ctx["ops"][op["op"]])
        if kind == "matrices":
            if op["which"] == "tools":
                from HamiltonianPy.tools.TotalSpin import TotalSpin as f
            else:
                f = A.TotalSpinMatrices
            if op["n"] > 6:
                v = self._probe(op["n"])
                return tuple(m.dot(v) for m in f(op["n"]))
            return tuple(np.array(m.toarray()) for m in f(op["n"]))
        n = 1 << ctx["sc"]["spins"][op["e"]]
        if kind == "misfit":
            return ctx["calc"][op["e"]](np.ones(n + 1))
        with np.errstate(all="ignore"):
            return ctx["calc"][op["e"]](np.zeros(n))

    @staticmethod
    def _probe(n):
        return np.random.RandomState(n).randn(1 << n)

    def judge(self, ctx, rec):
        op, kind = rec["op"], rec["op"]["kind"]
        if kind == "misfit":
            if rec["exc"] is None:
                return (self.id + "/accepted",
                        "a ket of the wrong size was accepted")
            return None
        if kind == "zero":
            if rec["exc"] is None and not all(
                    np.isnan(complex(x)) for x in rec["value"]):
                return (self.id + "/accepted", "the zero ket has averages %s"
                        % (rec["value"],))
            return None
        if rec["exc"] is not None:
            if rec["injected"]:
                return None
            return (self.id + "/raised", "raised %s: %s" % rec["exc"])
        if rec["swallowed"]:
            return (self.id + "/swallowed", "the caller interrupted, and the "
                    "call returned")
        v = rec["value"]
        if kind == "matrices":
            if op["n"] > 6:
                sx, sy, sz = (spin_dot(a, self._probe(op["n"]), op["n"])
                              for a in "xyz")
            else:
                sx, sy, sz = total_spin(op["n"])
            for name, got, want in zip(("x", "y (imaginary part)", "z"), v,
                                       (sx, (sy / 1j).real, sz)):
                if got.shape != want.shape or np.abs(got - want).max() > 1e-12:
                    return (self.id + "/matrix",
                            "total spin %s matrix is wrong" % name)
            return None
        ket = ctx["pure"][op["ket"]]
        single = ctx["sc"]["kets"][op["ket"]]["kind"] == "single"
        tol = 2e-5 if single else 1e-9
        nrm = np.vdot(ket, ket)
        if kind == "quantum":
            m = ctx["dense"][op["op"]]
            want = [np.vdot(ket, m @ ket) / nrm]
            got = [v]
            scale = max(1.0, float(np.abs(m).sum()))
        else:
            n = ctx["sc"]["spins"][op["e"]]
            s = [spin_dot(a, ket, n) for a in "xyz"]
            one = [np.vdot(ket, x) / nrm for x in s]
            s2 = sum(np.vdot(x, x) for x in s) / nrm
            ctx["big"] = ctx.get("big", 0) + (n > 9)
            want = [s2] + one
            got = list(v)
            scale = 10.0
        if len(got) != len(want):
            return (self.id + "/shape", "%d numbers" % len(got))
        for i, (g, w) in enumerate(zip(got, want)):
            if np.shape(g) != () or not abs(complex(g) - w) <= tol * scale:
                return (self.id + "/wrong", "average %d is %s instead of %s"
                        % (i, g, w))
        return None

    def finish(self, eng, ctx, sc, history):
        for what, now, before in ctx["inputs"]:
            if now.shape != before.shape or now.tobytes() != before.tobytes():
                return [(self.id + "/input-modified",
                         "the %s handed in was modified" % what)]
        for k, d in zip(ctx["kets"], sc["kets"]):
            if k.shape != ((d["n"], 1) if d["form"] == "column"
                           else (d["n"],)):
                return [(self.id + "/input-modified",
                         "the ket handed in was reshaped")]
        return []

    def coverage(self, ctx, sc, history):
        out = {"rejected": 0, "evaluator": 0, "quantum": 0,
               "operator_failed": 0, "matrices": 0, "column": 0,
               "big": ctx.get("big", 0)}
        for r in history:
            op = r["op"]
            out["rejected"] += op["kind"] in ("misfit", "zero")
            out["evaluator"] += op["kind"] in ("eval", "newcalc")
            out["quantum"] += op["kind"] == "quantum"
            out["matrices"] += op["kind"] == "matrices"
            if "ket" in op:
                out["column"] += sc["kets"][op["ket"]]["form"] == "column"
            if r.get("exc") and r["exc"][0] == "OperatorFailure":
                out["operator_failed"] += 1
        return out

    def digest(self, rec):
        v = rec.get("value")
        if v is None:
            return None
        if not isinstance(v, tuple):
            v = (v,)
        return repr([np.round(x, 5).tolist() for x in v])


CHECK = C06()
