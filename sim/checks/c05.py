"""C05: Green's function solvers are raise-or-right."""

import numpy as np

from runner import Check
from checks.c04 import dense_matrix, krylov_reference, vector


def rec_ok(rec):
    return rec.get("exc") is None


class StoreFailure(Exception):
    pass


class KetStore(dict):
    """A user's collection of states whose look-ups may fail or yield."""

    def __init__(self, eng, data):
        dict.__init__(self, data)
        self.eng = eng

    def __getitem__(self, key):
        eng = self.eng
        if eng is not None:
            eng.point("kets.get")
            act = eng.device_fault("store")
            if act is not None:
                eng.cur.op_failed = eng.cur.opid
                if act["kind"] == "store-memory":
                    raise MemoryError("loading a ket")
                raise StoreFailure("loading a ket")
        return dict.__getitem__(self, key)


class C05(Check):
    id = "C05"
    quick = {"seeds": 340, "variants": 8}
    thorough = {"seeds": 6000, "variants": 14}
    real = ("GreenFunction/_GFSolver.py (all eight solvers), lanczos.py for "
            "the projections, AoC and SpinOperator as keys, numpy.linalg")
    stub = ("thread scheduling, Ctrl-C, allocation failure, the user's state "
            "store (fails, yields)")
    rule = ("Scenarios share one Hamiltonian, frequency grid, ket store and "
            "projections among 1-3 callers of all eight solvers with every "
            "sign and structure, missing kets, singular frequencies and "
            "failing stores.")
    assumptions = [
        "frequencies keep a distance (or broadening) of at least 0.01 from "
        "the poles, except where a request must fail",
    ]
    must_reach = ("rejected", "lanczos", "dict", "store_failed", "retarded",
                  "fresh", "same_list", "long_grid", "large")

    def gen(self, rng, tier):
        n = rng.choice([1, 2, 3, 5, 8])
        pool = rng.choice(["aoc", "spin", "mixed"])
        ops = []
        wide = rng.random() < 0.05
        if wide:
            n = rng.choice([2, 3])
        large = not wide and rng.random() < 0.06
        if large:
            n = rng.randint(41, 80)
        for i in range(rng.choice([9, 9, 10, 12]) if wide else rng.randint(1, 3)):
            if pool == "aoc" or (pool == "mixed" and i % 2 == 0):
                ops.append(["aoc", i, rng.randint(0, 1)])
            else:
                ops.append(["spin", i, rng.choice("xyzpm")])
        for _ in range(60):
            mat = {"kind": rng.choice(["rand", "rand", "int", "diag"]),
                   "cplx": rng.random() < 0.5, "n": n,
                   "seed": rng.randrange(10 ** 6), "form": "dense"}
            if rng.random() < 0.25:
                mat.update(unit=rng.choice([0.05, 1.0, 40.0]),
                           zero=rng.choice([0.0, -30.0, 500.0]))
            # one ket per operator and per conjugate
            kets = [{"kind": rng.choice(["real", "cplx"]), "n": n,
                     "seed": rng.randrange(10 ** 6), "scale": 1.0}
                    for _ in range(2 * len(ops))]
            dim = rng.choice([None, None, rng.randint(1, n)])
            if large:
                dim = rng.randint(2, 7)
            h = self._h(mat)
            if all(krylov_reference(h, vector(k), dim or 200)[2]
                   for k in kets):
                break
        else:
            mat = {"kind": "rand", "cplx": False, "n": 1, "seed": 1,
                   "form": "dense"}
            n, dim = 1, None
            h = self._h(mat)
            kets = [{"kind": "real", "n": 1, "seed": 3 + i, "scale": 1.0}
                    for i in range(2 * len(ops))]
        sc = {"n": n, "ops": ops, "mat": mat, "kets": kets, "dim": dim,
              "ge": round(rng.uniform(-4, 1), 3) + mat.get("zero", 0.0),
              "omegas": [round(rng.uniform(-6, 6), 3)
                         for _ in range(rng.randint(1, 5))],
              "intgrid": rng.random() < 0.15,
              "grid": rng.choice(["few", "few", "few", "few", "repeat", "many"]),
              "store": rng.random() < 0.5, "readonly": rng.random() < 0.3,
              "threads": {}}
        if sc["grid"] == "repeat":
            # any order, frequencies that occur more than once
            sc["omegas"] += [rng.choice(sc["omegas"]) for _ in range(3)]
        elif sc["grid"] == "many" and n <= 3:
            lo = round(rng.uniform(-6, 0), 3)
            step = round(rng.uniform(0.01, 0.2), 3)
            sc["omegas"] = [round(lo + i * step, 3) for i in range(
                rng.choice([17, 33, 65, rng.randint(30, 70)]))]
        if rng.random() < 0.12:
            # beyond every level, where no damping is needed
            far = 3 * np.linalg.norm(h, 2) + abs(sc["ge"])
            sc["omegas"] = [round(rng.choice([-1, 1]) * (
                far + rng.uniform(2, 9)), 3) for _ in sc["omegas"]]
            sc["outside"] = True
        if rng.random() < 0.4:
            # everybody uses the same solver in the same way
            op = self._op(rng, dict(sc, outside=False))
            sc["like"] = {k: op[k] for k in ("retarded", "exact", "multi",
                                             "sign")}
        num = 0
        many = len(sc["omegas"]) > 16 or wide
        if wide:
            sc["omegas"] = sc["omegas"][:2]
        for t in range(rng.choice([1, 2] if many else [1, 2, 2, 3])):
            lst = []
            for _ in range(1 if many else rng.randint(1, 4)):
                op = self._op(rng, sc)
                op["id"] = str(num)
                num += 1
                lst.append(op)
                if rng.random() < 0.25:
                    lst.append(dict(op, id=str(num)))
                    num += 1
            sc["threads"]["T%d" % t] = lst
        op = self._op(rng, sc)
        op["id"] = "s%d" % num
        sc["settle"] = [op]
        return sc

    def _h(self, mat):
        if mat["kind"] == "diag":
            rng = np.random.RandomState(mat["seed"])
            out = np.diag(rng.permutation(np.arange(mat["n"]) - 1.0))
            return out.astype(complex) if mat["cplx"] else out
        return dense_matrix(mat)

    def _op(self, rng, sc):
        m = len(sc["ops"])
        names = list(range(2 * m))         # operators and conjugates
        op = {"retarded": rng.random() < 0.5,
              "exact": rng.random() < 0.5,
              "multi": rng.random() < 0.6,
              "sign": rng.choice([None, "+", "-"]),
              "eta": rng.choice([None, 0.05, 0.3, 1.0, -0.05, -0.7, 20.0,
                                 0.001]),
              "bad": None}
        if sc.get("like") and rng.random() < 0.85:
            op.update(sc["like"])
        if sc.get("outside") and rng.random() < 0.7:
            op["eta"] = rng.choice([0, 0.0])
        if op["multi"]:
            most = min(3, len(names))
            if m > 6 and rng.random() < 0.7:
                most = len(names)
            op["A"] = rng.sample(names, rng.randint(1, most))
            op["B"] = rng.sample(names, rng.randint(1, most))
            r = rng.random()
            if r < 0.25:
                op["B"] = op["A"]
                # the very same list of operators twice
                op["same"] = True
            elif r < 0.35:
                op["A"] = op["A"] + [rng.choice(op["A"])]
            op["structure"] = rng.choice([None, "array", "dict"])
            op["grid"] = rng.choice(["shared", "shared", "own"])
        else:
            op["A"] = [rng.choice(names)]
            op["B"] = [rng.choice(names)]
            op["w"] = rng.randrange(len(sc["omegas"]))
        if len(sc["omegas"]) > 16 and op["multi"]:
            op["A"] = op["A"][:2]
            op["B"] = op["A"] if op.get("same") else op["B"][:1]
        elif rng.random() < 0.3:
            # the same request for inputs of other strengths, made just for
            # it: dropped after each round, or rewritten in place
            op["fresh"] = rng.choice(["drop", "drop", "rewrite"])
            op["scales"] = [rng.choice([0.5, 1.0, 1.5, 2.0, -1.0, 3.0])
                            for _ in range(rng.randint(2, 5))]
        r = rng.random()
        if r < 0.08:
            op["bad"] = "missing"
        elif r < 0.14 and sc["mat"]["kind"] == "diag":
            op["bad"] = "singular"
            op["exact"] = True
        if op["bad"]:
            op.pop("fresh", None)
        return op

    # -- run -------------------------------------------------------------------
    def _operator(self, d, conj):
        from HamiltonianPy.quantumoperator import AoC, SpinOperator
        if d[0] == "aoc":
            x = AoC(d[2], (float(d[1]), 0.0), spin=0)
        else:
            x = SpinOperator(d[2], (float(d[1]), 1.0))
        return x.dagger() if conj else x

    def start(self, eng, sc):
        from HamiltonianPy.lanczos import MultiKrylov
        h = self._h(sc["mat"])
        ctx = {"sc": sc, "h": h, "pure_h": h.copy(), "eng": eng}
        names = []
        for d in sc["ops"]:
            names += [self._operator(d, False), self._operator(d, True)]
        ctx["names"] = names
        kets = {}
        ctx["ket_of"] = []
        for i, nm in enumerate(names):
            v = kets.setdefault(nm, vector(sc["kets"][i]))
            ctx["ket_of"].append(v.copy())
        ctx["conj"] = [i ^ 1 for i in range(len(names))]
        store = (lambda d: KetStore(eng, d)) if sc["store"] else dict
        ctx["plain"] = kets
        kw = {} if sc["dim"] is None else {"krylov_space_dim": sc["dim"]}
        pm, pv = MultiKrylov(h, kets, **kw)
        ctx["pm_pure"] = {k: v.copy() for k, v in pm.items()}
        ctx["pv_pure"] = {k: {j: x.copy() for j, x in d.items()}
                          for k, d in pv.items()}
        ctx["kets"] = store(kets)
        ctx["pm"] = store(pm)
        ctx["pv"] = store({k: store(d) for k, d in pv.items()})
        w = np.array(sc["omegas"])
        if sc["intgrid"]:
            w = np.rint(w).astype(int)
        ctx["omegas"] = w
        ctx["w_pure"] = w.copy()
        ctx["inputs"] = [("Hamiltonian", h), ("frequencies", w)]
        ctx["inputs"] += [("ket", v) for v in kets.values()]
        ctx["inputs"] += [("projected matrix", v) for v in pm.values()]
        ctx["inputs"] += [("projected ket", x) for d in pv.values()
                          for x in d.values()]
        ctx["before"] = [a.copy() for _, a in ctx["inputs"]]
        if sc["readonly"]:
            for _, a in ctx["inputs"]:
                a.setflags(write=False)
        return ctx

    def fault_kinds(self, sc):
        kinds = ["interrupt", "memory"]
        if sc["store"]:
            kinds += ["store-fail", "store-memory", "store-fail"]
        return kinds

    def device_action(self, rng, kind):
        return "store", {}

    def call(self, ctx, op):
        import HamiltonianPy.GreenFunction as G
        name = "%sGFSolver%s%s" % (
            "R" if op["retarded"] else "",
            "Exact" if op["exact"] else "Lanczos",
            "Multiple" if op["multi"] else "Single")
        f = getattr(G, name)
        kw = {}
        if op["sign"]:
            kw["sign"] = op["sign"]
        if op["eta"] is not None:
            kw["eta"] = op["eta"]
        A = [ctx["names"][i] for i in op["A"]]
        B = [ctx["names"][i] for i in op["B"]]
        if op.get("same"):
            B = A
        if op["bad"] == "missing":
            from HamiltonianPy.quantumoperator import AoC
            A = [AoC(1, (99.0, 0.0))] + A[1:]
            B = A if op.get("same") else B
        if op["exact"]:
            data = (ctx["h"], ctx["kets"])
        else:
            data = (ctx["pm"], ctx["pv"])
        ge = ctx["sc"]["ge"]
        if op.get("structure"):
            kw["structure"] = op["structure"]
        if op.get("fresh"):
            return self._rounds(ctx, op, f, A, B, ge, kw)
        if op["bad"] == "singular":
            kw["eta"] = 0.0
            ge = 0.0
            # every pole of z + GE - H and z - GE + H
            w0 = 0.0 if 0.0 in np.diag(ctx["pure_h"]) else float(
                ctx["pure_h"][0, 0]) * (1 if op["sign"] == "-"
                                        or op["retarded"] else -1)
        if op["multi"]:
            w = ctx["omegas"]
            if op["grid"] == "own":
                w = w.copy()
            if op["bad"] == "singular":
                w = np.array([50.0, w0])
            return f(w, A, B, ge, *data, **kw)
        w = ctx["omegas"][op["w"]]
        if op["bad"] == "singular":
            w = w0
        return f(w, A[0], B[0], ge, *data, **kw)

    def _rounds(self, ctx, op, f, A, B, ge, kw):
        out = []
        mine = None
        for scale in op["scales"]:
            if op["exact"]:
                kets = ctx["kets"]
                if mine is None or op["fresh"] == "drop":
                    mine = ctx["pure_h"] * scale
                else:
                    mine[...] = ctx["pure_h"] * scale
                data = (mine, kets)
            else:
                if mine is None or op["fresh"] == "drop":
                    mine = {k: v * scale for k, v in ctx["pm_pure"].items()}
                else:
                    for k, v in ctx["pm_pure"].items():
                        mine[k][...] = v * scale
                data = (mine, ctx["pv"])
            if op["multi"]:
                w, a, b = ctx["omegas"].copy(), A, B
            else:
                w, a, b = ctx["omegas"][op["w"]], A[0], B[0]
            out.append(f(w, a, b, ge, *data, **kw))
            if op["fresh"] == "drop":
                mine = data = None
        return out

    # -- oracle ------------------------------------------------------------
    def _term(self, ctx, op, a, b, z, sign):
        """<A+ GS| [z +/- (H - GE)]^-1 |B GS> from the spectrum."""
        ge = ctx["sc"]["ge"]
        names = ctx["names"]
        bra_name = names[a].dagger()
        if op["exact"]:
            h = ctx["pure_h"]
            ket = self._ket(ctx, names[b])
            bra = self._ket(ctx, bra_name)
        else:
            h = ctx["pm_pure"][names[b]]
            ket = np.zeros(len(h), dtype=complex)
            ket[0] = ctx["pv_pure"][names[b]][names[b]][0]
            bra = ctx["pv_pure"][names[b]][bra_name]
        key = ("eig", op["exact"], None if op["exact"] else repr(names[b]))
        memo = ctx.setdefault("memo", {})
        if key not in memo:
            memo[key] = np.linalg.eigh(h)
        lev, u = memo[key]
        lev = lev * op.get("scale", 1.0)
        den = z + (lev - ge) if sign == "+" else z - (lev - ge)
        return np.sum((bra.conj() @ u) * (u.conj().T @ ket) / den)

    def _ket(self, ctx, name):
        i = ctx["names"].index(name)
        return ctx["ket_of"][i] if name in ctx["plain"] else None

    def _expect(self, ctx, op, a, b, w):
        z = w + 1j * (0.01 if op["eta"] is None else op["eta"])
        s = op["sign"] or "+"
        if not op["retarded"]:
            return self._term(ctx, op, a, b, z, s)
        x = self._term(ctx, op, a, b, z, "-")
        y = self._term(ctx, op, b, a, z, "+")
        return x + y if s == "+" else x - y

    def judge(self, ctx, rec):
        op = rec["op"]
        if op["bad"]:
            if rec["exc"] is None:
                return (self.id + "/accepted", "returned %s although %s" % (
                    str(rec["value"])[:80],
                    "a ket is missing" if op["bad"] == "missing"
                    else "the resolvent does not exist"))
            return None
        if rec["exc"] is not None:
            if rec["injected"]:
                return None
            return (self.id + "/raised", "raised %s: %s" % rec["exc"])
        if rec["swallowed"]:
            return (self.id + "/swallowed", "a ket could not be had (or the "
                    "caller interrupted), and the call returned")
        if not op.get("fresh"):
            return self._check(ctx, op, rec["value"])
        for scale, v in zip(op["scales"], rec["value"]):
            bad = self._check(ctx, dict(op, scale=scale), v)
            if bad:
                return (bad[0], "inputs times %r: %s" % (scale, bad[1]))
        return None

    def _check(self, ctx, op, v):
        na, nb = len(op["A"]), len(op["B"])
        nw = len(ctx["w_pure"])
        if not op["multi"]:
            if np.shape(v) != ():
                return (self.id + "/shape", "not a number")
            got = np.array([[[complex(v)]]])
            ws = [ctx["w_pure"][op["w"]]]
        else:
            ws = ctx["w_pure"]
            if op["structure"] == "dict":
                if not isinstance(v, dict):
                    return (self.id + "/shape", "not a dict")
                # the same operator may have two names (self-conjugate)
                want = {(ctx["names"][a], ctx["names"][b])
                        for a in op["A"] for b in op["B"]}
                if set(v) != want:
                    return (self.id + "/shape", "keys %s" % list(v)[:4])
                got = np.array([[v[(ctx["names"][a], ctx["names"][b])]
                                 for b in op["B"]] for a in op["A"]])
            else:
                got = np.asarray(v)
            if got.shape != (na, nb, nw):
                return (self.id + "/shape", "shape %r" % (got.shape,))
        for i, a in enumerate(op["A"]):
            for j, b in enumerate(op["B"]):
                for k, w in enumerate(ws):
                    want = self._expect(ctx, op, a, b, w)
                    if not abs(got[i, j, k] - want) <= 1e-7 * max(
                            1.0, abs(want)):
                        return (self.id + "/wrong", "entry %r is %s instead "
                                "of %s" % ((i, j, k), got[i, j, k], want))
        # A complete projection answers for the full Hamiltonian.
        if not op["exact"] and ctx["sc"]["dim"] is None:
            full = dict(op, exact=True)
            a, b, w = op["A"][0], op["B"][0], ws[0]
            want = self._expect(ctx, full, a, b, w)
            if not abs(got[0, 0, 0] - want) <= 1e-5 * max(1.0, abs(want)):
                return (self.id + "/wrong", "complete projection gives %s, "
                        "the full Hamiltonian %s" % (got[0, 0, 0], want))
        return None

    def finish(self, eng, ctx, sc, history):
        bad = []
        for (what, a), b in zip(ctx["inputs"], ctx["before"]):
            if a.shape != b.shape or a.tobytes() != b.tobytes():
                bad.append((self.id + "/input-modified",
                            "the %s handed in was modified" % what))
        for d, keys in ((ctx["kets"], ctx["plain"]), (ctx["pm"], ctx["plain"]),
                        (ctx["pv"], ctx["plain"])):
            if list(d) != list(keys):
                bad.append((self.id + "/input-modified",
                            "a dict handed in was modified"))
        return bad

    def coverage(self, ctx, sc, history):
        out = {"rejected": 0, "lanczos": 0, "dict": 0, "store_failed": 0,
               "retarded": 0, "fresh": 0, "same_list": 0, "long_grid": 0,
               "large": 0}
        for r in history:
            op = r["op"]
            out["rejected"] += bool(op["bad"])
            out["lanczos"] += not op["exact"]
            out["dict"] += op.get("structure") == "dict"
            out["retarded"] += op["retarded"]
            out["fresh"] += bool(op.get("fresh")) and rec_ok(r)
            out["same_list"] += bool(op.get("same")) and rec_ok(r)
            out["large"] += op["exact"] and sc["n"] > 40
            out["long_grid"] += op["multi"] and rec_ok(r) and len(
                sc["omegas"]) > 32
            if r.get("exc") and r["exc"][0] == "StoreFailure":
                out["store_failed"] += 1
        return out

    def digest(self, rec):
        v = rec.get("value")
        if isinstance(v, list):
            return repr([self.digest({"value": x}) for x in v])
        if isinstance(v, dict):
            return repr([np.round(x, 6).tolist() for x in v.values()])
        if v is None:
            return None
        return repr(np.round(v, 6).tolist())


CHECK = C05()
