"""C02: a term's coefficient is one register, whoever asks and however a
request ends."""

import copy
import pickle

import numpy as np

from runner import Check
import ref

SITES = [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (1.0, 1.0), (2.0, 0.5),
         (-1.0, 0.25)]
OTYPES = "xyzpm"


def dense(res, shape=None):
    if isinstance(res, tuple):
        data, (rows, cols) = res
        m = np.zeros(shape, dtype=complex)
        for v, i, j in zip(data, rows, cols):
            m[i, j] += v
        return m
    return np.asarray(res.toarray(), dtype=complex)


def cnum(x):
    if isinstance(x, list) and isinstance(x[0], str):
        return np.dtype(x[0]).type(complex(*x[1:]) if x[0][0] == "c"
                                   else x[1])
    return complex(x[0], x[1]) if isinstance(x, list) else x


def same(a, b):
    """Equal to within rounding, each part by itself."""
    a, b = complex(a), complex(b)
    floor = 1e-14 * abs(b)
    return (abs(a.real - b.real) <= 1e-9 * abs(b.real) + floor
            and abs(a.imag - b.imag) <= 1e-9 * abs(b.imag) + floor)


# other terms made from a term, each with a coefficient of its own
MAKERS = {
    "1*": (lambda t: 1 * t, lambda c: c),
    "1.0*": (lambda t: 1.0 * t, lambda c: c),
    "*1": (lambda t: t * 1, lambda c: c),
    "-1*": (lambda t: -1 * t, lambda c: -c),
    "0*": (lambda t: 0 * t, lambda c: 0),
    "i*": (lambda t: 1j * t, lambda c: 1j * c),
    "*2.5": (lambda t: t * 2.5, lambda c: 2.5 * c),
    "dagger": (lambda t: t.dagger(), lambda c: c.conjugate()),
    "dagger2": (lambda t: t.dagger().dagger(), lambda c: c),
    "copy": (copy.copy, lambda c: c),
    "deepcopy": (copy.deepcopy, lambda c: c),
    "pickle": (lambda t: pickle.loads(pickle.dumps(t)), lambda c: c),
}


class C02(Check):
    id = "C02"
    quick = {"seeds": 400, "variants": 9}
    thorough = {"seeds": 6000, "variants": 14}
    real = ("quantumoperator.particlesystem, spinsystem, matrixrepr (numba "
            "kernels), quantumstate, indextable: all real")
    stub = ("thread scheduling, Ctrl-C delivery, allocation failure; callers "
            "are generated threads")
    rule = ("Scenarios share 1-2 fermion or spin terms among 2-3 callers that "
            "request matrices with and without a new coefficient, read or "
            "assign the coefficient, scale, conjugate or print the term, "
            "give other coefficients to terms made from it, and make requests "
            "that fail (unknown site, basis left).")
    assumptions = [
        "one operation that Ctrl-C interrupted may or may not have set the "
        "coefficient it was given; every other failure must leave it alone",
    ]
    must_reach = ("with_coeff", "natural_failure", "overlap", "twin")

    def gen(self, rng, tier):
        nterm = rng.choice([1, 1, 2])
        nsite = rng.randint(2, 4) if rng.random() < 0.9 else 6
        terms = []
        for _ in range(nterm):
            c0 = self._coeff(rng)
            if rng.random() < 0.5:
                cls = rng.choice(["general", "hopping", "number", "Coulomb",
                                  "general"])
                st = rng.sample(range(nsite), 2)
                if cls == "hopping":
                    aocs = [[1, st[0]], [0, st[1]]]
                elif cls == "number":
                    aocs = [[1, st[0]], [0, st[0]]]
                elif cls == "Coulomb":
                    aocs = [[1, st[0]], [0, st[0]], [1, st[1]], [0, st[1]]]
                else:
                    aocs = [[rng.randint(0, 1), rng.randrange(nsite)]
                            for _ in range(rng.choice(
                                [1, 2, 3, 4, 1, 2, 3, 4, 6, 9]))]
                terms.append({"type": "fermion", "cls": cls, "aocs": aocs,
                              "coeff": c0})
            else:
                ops = [[rng.choice(OTYPES), rng.randrange(nsite)]
                       for _ in range(rng.choice([1, 2, 2, 2, 3] * 2 + [5]))]
                terms.append({"type": "spin", "ops": ops, "coeff": c0})
        nthread = rng.choice([1, 2, 2, 2, 3])
        threads = {}
        n = 0
        for t in range(nthread):
            ops = []
            for _ in range(rng.randint(2, 4)):
                kind = rng.choices(
                    ["repr_c", "repr", "get", "set", "fail_c", "scale",
                     "dagger", "text", "badc", "schwinger",
                     "twin"],
                    [6, 4, 2, 2, 3, 1, 1, 1, 1, 1, 3])[0]
                op = {"id": "%d" % n, "kind": kind,
                      "term": rng.randrange(nterm)}
                if kind in ("repr_c", "set", "fail_c", "twin"):
                    op["coeff"] = self._coeff(rng)
                if kind == "twin":
                    op["make"] = rng.choice(sorted(MAKERS))
                    op["how"] = rng.choice(["set", "repr", "repr"])
                if kind in ("repr", "repr_c"):
                    op["csr"] = rng.random() < 0.75
                n += 1
                ops.append(op)
            threads["T%d" % t] = ops
        if rng.random() < 0.2:
            # one derives something from a term while another changes it
            i = rng.randrange(nterm)
            kinds = ["scale", "dagger", "text", "twin"] \
                + ["schwinger"] * 4 * (terms[i]["type"] == "spin")
            op = {"id": "0", "kind": rng.choice(kinds), "term": i,
                  "coeff": self._coeff(rng)}
            if op["kind"] == "twin":
                op["make"] = rng.choice(sorted(MAKERS))
                op["how"] = "repr"
            threads = {"T0": [op], "T1": [
                {"id": str(k), "kind": rng.choice(["set", "repr_c"]),
                 "term": i, "coeff": self._coeff(rng), "csr": True}
                for k in range(1, rng.randint(2, 4))]}
            n = 4
        settle = []
        for i in range(nterm):
            settle.append({"id": "s%d" % n, "kind": "get", "term": i})
            settle.append({"id": "s%d" % (n + 1), "kind": "repr", "term": i,
                           "csr": True})
            n += 2
        return {"terms": terms, "nsite": nsite, "threads": threads,
                "settle": settle}

    def _coeff(self, rng):
        r = rng.random()
        if r < 0.1:
            # the values that shortcuts like
            return rng.choice([0, 0.0, 1, 1.0, -1, [0.0, 1.0]])
        if r < 0.2:
            # very small, very big, almost real, almost imaginary
            big, small = (round(rng.uniform(1, 9), 3) * 10.0 ** e
                          for e in (rng.randint(3, 14), -rng.randint(5, 14)))
            return rng.choice([big, small, -small, [1.25, small],
                               [small, 2.5], [big, 1.0], [small, -small]])
        if r < 0.35:
            return rng.randint(-9, 9) or 10
        if r < 0.45:
            # numbers of numpy
            return rng.choice([["f8", 2.5], ["i8", -3], ["f8", 0.0],
                               ["c16", 1.5, -0.5], ["i4", 7],
                               ["c8", 1.5, -0.5], ["c8", 0.0, 2.5],
                               ["f4", -2.5]])
        if r < 0.65:
            return round(rng.uniform(-5, 5), 3) or 1.5
        return [round(rng.uniform(-5, 5), 3), round(rng.uniform(0.1, 5), 3)]

    def warm(self):
        ctx = self.start(None, {"terms": [
            {"type": "fermion", "cls": c, "aocs": a, "coeff": 1}
            for c, a in (("general", [[1, 0], [0, 1]]),
                         ("hopping", [[1, 0], [0, 1]]),
                         ("number", [[1, 0], [0, 0]]),
                         ("Coulomb", [[1, 0], [0, 0], [1, 1], [0, 1]]))],
            "nsite": 2})
        for i in range(4):
            self.call(ctx, {"kind": "repr", "term": i, "csr": True})

    def start(self, eng, sc):
        from HamiltonianPy.quantumoperator.particlesystem import (
            AoC, ParticleTerm)
        from HamiltonianPy.quantumoperator.spinsystem import (
            SpinInteraction, SpinOperator)
        from HamiltonianPy.quantumoperator.quantumstate import (
            SiteID, StateID)
        from HamiltonianPy.indextable import IndexTable
        n = sc["nsite"]
        ctx = {"sc": sc, "n": n, "terms": [], "ref": [], "twins": []}
        sites = SITES[:n]
        ctx["fermi"] = IndexTable(StateID(site=s, spin=0) for s in sites)
        ctx["spin"] = IndexTable(SiteID(site=s) for s in sites)
        ctx["fermi_bad"] = IndexTable(
            [StateID(site=(7.0, 7.0), spin=0)])
        ctx["spin_bad"] = IndexTable([SiteID(site=(7.0, 7.0))])
        bases = ref.basis([(tuple(range(n)), -1)])
        ctx["bases"] = np.array(bases, dtype=np.uint64)
        for t in sc["terms"]:
            c = cnum(t["coeff"])
            if t["type"] == "fermion":
                term = ParticleTerm(
                    [AoC(o, site=SITES[i], spin=0) for o, i in t["aocs"]],
                    coeff=c, classification=t["cls"])
                m = ref.fermion_matrix([(i, o) for o, i in t["aocs"]], bases)
            else:
                term = SpinInteraction(
                    [SpinOperator(o, site=SITES[i]) for o, i in t["ops"]],
                    coeff=c)
                m = ref.spin_matrix([(i, o) for o, i in t["ops"]], n)
            ctx["terms"].append(term)
            ctx["ref"].append(m)
        return ctx

    def call(self, ctx, op):
        term = ctx["terms"][op["term"]]
        fermion = ctx["sc"]["terms"][op["term"]]["type"] == "fermion"
        kind = op["kind"]
        shape = ctx["ref"][op["term"]].shape if ctx["ref"] else None
        kw = {}
        if "coeff" in op:
            kw["coeff"] = cnum(op["coeff"])
        if kind in ("repr", "repr_c"):
            if fermion:
                if not op["csr"]:
                    kw["to_csr"] = False
                return dense(term.matrix_repr(
                    ctx["fermi"], ctx["bases"], **kw), shape)
            return dense(term.matrix_repr(ctx["spin"], **kw))
        if kind == "fail_c":
            if fermion:
                return dense(term.matrix_repr(
                    ctx["fermi_bad"], ctx["bases"], **kw))
            return dense(term.matrix_repr(ctx["spin_bad"], **kw))
        if kind == "badc":
            if fermion:
                return dense(term.matrix_repr(
                    ctx["fermi"], ctx["bases"], coeff="2"))
            return dense(term.matrix_repr(ctx["spin"], coeff="2"))
        if kind == "twin":
            # a term made from this one is a register of its own
            make, _ = MAKERS[op["make"]]
            twin = make(term)
            was = complex(twin.coeff)
            if op["how"] == "set":
                twin.coeff = kw["coeff"]
            elif fermion:
                twin.matrix_repr(ctx["fermi"], ctx["bases"], **kw)
            else:
                twin.matrix_repr(ctx["spin"], **kw)
            ctx["twins"].append((twin, kw["coeff"], op["make"]))
            return was
        if kind == "get":
            return complex(term.coeff)
        if kind == "set":
            term.coeff = kw["coeff"]
            return None
        if kind == "scale":
            return complex((2 * term).coeff)
        if kind == "dagger":
            return complex(term.dagger().coeff)
        if kind == "text":
            return str(term).splitlines()[0]
        if kind == "schwinger":
            if fermion:
                return complex((term * 3.0).coeff)
            out = term.Schwinger()
            total = None
            from HamiltonianPy.quantumoperator.quantumstate import StateID
            from HamiltonianPy.indextable import IndexTable
            # single occupancy: site i -> states (2i: down, 2i+1: up)
            n = ctx["n"]
            table = IndexTable(
                StateID(site=s, spin=sp) for s in SITES[:n] for sp in (0, 1))
            full = ref.basis([((2 * i, 2 * i + 1), 1) for i in range(n)])
            for t in out:
                idx = [(a.getStateIndex(table), a.otype)
                       for a in t.components]
                m = complex(t.coeff) * ref.fermion_matrix(idx, full)
                total = m if total is None else total + m
            return (total, full)
        raise ValueError(kind)

    # -- oracle ------------------------------------------------------------
    def _observed(self, base, got):
        """Coefficient c with got == c*base, or None if there is none."""
        base = np.asarray(base, dtype=complex)
        if got.shape != base.shape:
            return "shape %r" % (got.shape,)
        idx = np.unravel_index(np.argmax(np.abs(base)), base.shape)
        if base[idx] == 0:
            return None if not np.any(np.abs(got) > 1e-9) else "not zero"
        c = got[idx] / base[idx]
        if np.abs(got - c * base).max() > 1e-8 * abs(c):
            return "not a multiple of the term's matrix"
        return complex(c)

    def judge(self, ctx, rec):
        op, kind = rec["op"], rec["op"]["kind"]
        rec["obs"] = "none"
        if kind in ("fail_c", "badc"):
            if rec["exc"] is None:
                return (self.id + "/accepted",
                        "a request that must fail returned a matrix")
            return None
        if rec["exc"] is not None:
            if rec["injected"]:
                return None
            return (self.id + "/raised", "raised %s: %s" % rec["exc"])
        v = rec["value"]
        if kind in ("repr", "repr_c"):
            c = self._observed(ctx["ref"][op["term"]], v)
            if isinstance(c, str):
                return (self.id + "/matrix", "matrix is wrong: " + c)
            if c is None:
                rec["obs"] = "zero"
                return None
            rec["obs"] = c
            if kind == "repr_c" and not same(c, cnum(op["coeff"])):
                return (self.id + "/other-coefficient",
                        "asked for coefficient %s, matrix carries %s" % (
                            cnum(op["coeff"]), c))
        elif kind == "get":
            rec["obs"] = v
        elif kind == "twin":
            rec["obs"] = {
                "-1*": lambda: -v, "0*": lambda: "none",
                "i*": lambda: -1j * v, "*2.5": lambda: v / 2.5,
                "dagger": lambda: v.conjugate(),
            }.get(op["make"], lambda: v)()
            if op["make"] == "0*" and v != 0:
                return (self.id + "/matrix", "0 times a term has the "
                        "coefficient %s" % v)
        elif kind == "scale":
            rec["obs"] = v / 2
        elif kind == "dagger":
            rec["obs"] = v.conjugate()
        elif kind == "text":
            try:
                rec["obs"] = complex(v.split(":", 1)[1].strip().strip("()"))
            except ValueError:
                return (self.id + "/text", "no coefficient in %r" % v)
        elif kind == "schwinger":
            if not isinstance(v, tuple):
                rec["obs"] = v / 3.0
            else:
                total, full = v
                n = ctx["n"]
                # ket in the spin picture: bit i = 0 for up, 1 for down
                m = ctx["ref"][op["term"]]
                order = [sum(((k >> (2 * i)) & 1) << i for i in range(n))
                         for k in full]
                base = m[np.ix_(order, order)]
                if total is None:
                    total = np.zeros_like(base)
                c = self._observed(base, total)
                if isinstance(c, str):
                    return (self.id + "/schwinger",
                            "the Schwinger terms are wrong: " + c)
                if c is not None:
                    rec["obs"] = c
        return None

    def finish(self, eng, ctx, sc, history):
        bad = []
        for twin, c, make in ctx["twins"]:
            if not same(twin.coeff, c):
                bad.append((self.id + "/not-its-own",
                            "a term made by %r was given the coefficient %s "
                            "and has %s" % (make, c, twin.coeff)))
        for i, t in enumerate(sc["terms"]):
            ops = []
            for r in history:
                op = r["op"]
                if op["term"] != i or "return" not in r:
                    continue
                o = {"invoke": r["invoke"], "ret": r["return"]}
                kind = op["kind"]
                if kind in ("set", "repr_c"):
                    c = complex(cnum(op["coeff"]))
                    if r["exc"] is None:
                        ops.append(dict(o, kind="w", value=c))
                    elif r["exc"][0] == "SimInterrupt":
                        ops.append(dict(o, kind="maybe-w", value=c))
                    continue
                if kind == "fail_c" and r["exc"] is not None \
                        and r["exc"][0] == "SimInterrupt":
                    ops.append(dict(o, kind="maybe-w",
                                    value=complex(cnum(op["coeff"]))))
                    continue
                obs = r.get("obs", "none")
                if isinstance(obs, complex):
                    ops.append(dict(o, kind="r", value=obs))
            if not ref.linearizable(ops, complex(cnum(t["coeff"])), same):
                bad.append((self.id + "/not-a-register",
                            "term %d: no order of the calls explains the "
                            "coefficients seen: %s" % (i, [
                                (o["kind"], o["invoke"], o["ret"], o["value"])
                                for o in ops])))
        return bad

    def coverage(self, ctx, sc, history):
        out = {"with_coeff": 0, "natural_failure": 0, "overlap": 0,
               "twin": len(ctx["twins"])}
        for r in history:
            if r["op"]["kind"] == "repr_c":
                out["with_coeff"] += 1
            if r["op"]["kind"] == "fail_c":
                out["natural_failure"] += 1
        for a in history:
            for b in history:
                if a["tid"] < b["tid"] and "return" in a and "return" in b \
                        and a["invoke"] < b["return"] \
                        and b["invoke"] < a["return"]:
                    out["overlap"] += 1
        return out

    def digest(self, rec):
        return str(rec.get("obs"))


CHECK = C02()
