"""C03: matrices, bases and index tables equal their definition whatever was
built before, by whom, and whatever failed."""

import json

import numpy as np

from runner import Check
import ref

OTYPES = "xyzpm"


class WrongForm(Exception):
    """A matrix came in another form than the one that was asked for."""


def formed(res, csr):
    """The answer, which must be a csr_matrix or a tuple as requested."""
    if csr != (getattr(res, "format", None) == "csr") \
            or csr == isinstance(res, tuple):
        raise WrongForm("to_csr=%r gave a %s" % (csr, type(res).__name__))
    return res


def dense(res, shape):
    if isinstance(res, tuple):
        data, (rows, cols) = res
        m = np.zeros(shape, dtype=complex)
        for v, i, j in zip(data, rows, cols):
            m[i, j] += v
        return m
    if tuple(res.shape) != tuple(shape):
        return np.asarray(res.toarray(), dtype=complex)
    return np.asarray(res.toarray(), dtype=complex)


def cnum(x):
    return complex(x[0], x[1]) if isinstance(x, list) else x


def norm_spec(s):
    """Standard form of a valid specifier: (states tuple, number)."""
    if isinstance(s, int):
        return tuple(range(s)), -1
    st, n = s
    if isinstance(st, int):
        return tuple(range(st)), n
    return tuple(st), n


def site_of(i, dim=2):
    """Coordinates of site i; neither sorted nor equally spaced."""
    base = [(0.0, 0.0, 0.0), (1.0, 0.0, 0.5), (-1.0, 2.0, 0.0),
            (0.5, 0.75, 1.0), (2, 1, 0), (-0.25, 0.3, -2.0),
            (0.1, 0.2, 0.3), (3.0, -1.5, 1.0)]
    return base[i][:dim]


# -- keys of generic index tables -------------------------------------------
def make_key(k):
    kind, v = k[0], k[1:]
    if kind == "int":
        return v[0]
    if kind == "str":
        return "k%d" % v[0]
    if kind == "tup":
        return (v[0] // 2, v[0] % 2)
    from HamiltonianPy.quantumoperator.quantumstate import SiteID, StateID
    if kind == "site":
        return SiteID(site_of(v[0]))
    return StateID(site_of(v[0] // 4), v[0] % 2, (v[0] // 2) % 2)


class C03(Check):
    id = "C03"
    quick = {"seeds": 420, "variants": 6}
    thorough = {"seeds": 9000, "variants": 10}
    real = ("quantumoperator (terms, operators, factories, numba kernels), "
            "hilbertspace, indextable: all real")
    stub = ("thread scheduling, Ctrl-C delivery, allocation failure; callers "
            "are generated threads")
    rule = ("Scenarios mix 1-3 callers that build bases (all specifier forms, "
            "containers, orders), index tables and matrices of fermion and "
            "spin operators, products and factory terms over shared and "
            "short-lived tables, bases and terms, with requests that must be "
            "rejected; one history in eight is long (40+ requests).")
    assumptions = [
        "bases handed to matrix requests are in ascending order, as the "
        "library produces them by default",
    ]
    must_reach = ("rejected", "left_bases", "unsorted", "factory", "spin",
                  "long", "other_table", "normal", "schwinger", "large",
                  "large_basis")

    # -- generation ----------------------------------------------------------
    def _spec(self, rng, lo, hi, allow=True):
        """One specifier over states lo..hi-1 (a sub-collection of them)."""
        r = rng.random()
        states = list(range(lo, hi))
        if lo == 0 and r < 0.2:
            return hi
        if lo == 0 and r < 0.5:
            return [hi, rng.randint(-1, hi)]
        k = rng.randint(1, len(states))
        pick = rng.sample(states, k)
        return [pick, rng.randint(-1, k)]

    def _specs(self, rng, nstate):
        r = rng.random()
        if r < 0.45 or nstate < 2:
            return [self._spec(rng, 0, nstate)]
        perm = list(range(nstate))
        rng.shuffle(perm)
        parts = rng.choice([2, 2, 3]) if nstate > 2 else 2
        cuts = sorted(rng.sample(range(1, nstate), min(parts, nstate) - 1))
        out, prev = [], 0
        for c in cuts + [nstate]:
            st = perm[prev:c]
            out.append([st, rng.randint(-1, len(st))])
            prev = c
        return out

    def _bad_specs(self, rng):
        if rng.random() < 0.6:      # one flaw in an otherwise valid space
            while True:
                n = rng.randint(3, 7)
                sp = self._specs(rng, n)
                lists = [i for i, s in enumerate(sp) if isinstance(s, list)
                         and isinstance(s[0], list)]
                if lists:
                    break
            if rng.random() < 0.3:  # more, and more distant, subspaces
                for k in range(rng.randint(1, 3)):
                    sp.insert(rng.randint(0, len(sp)),
                              [[20 + 2 * k, 21 + 2 * k], rng.randint(-1, 2)])
                lists = [i for i, s in enumerate(sp) if isinstance(s, list)
                         and isinstance(s[0], list)]
            i = rng.choice(lists)
            st = sp[i][0]
            flaw = rng.choice(["shared", "shared", "shared", "many",
                               "negative", "fraction", "empty"])
            if flaw == "shared" and len(sp) > 1:
                j = rng.choice([k for k in lists if k != i] or [0])
                if j == i:
                    sp.append([[rng.choice(st)], 1])
                else:
                    st[rng.randrange(len(st))] = rng.choice(sp[j][0])
            elif flaw == "negative":
                st[rng.randrange(len(st))] = -1
            elif flaw == "fraction":
                st[rng.randrange(len(st))] = 0.5
            elif flaw == "empty":
                sp[i] = [[], 0]
            else:
                sp[i][1] = len(st) + 1
            return sp
        return rng.choice([
            [0], [-2], [[3, 4]], [[[0, 1], 3]], [[[0, -1], 1]], [[[], 0]],
            [[[0, 1], 1], [[1, 2], 1]], [2, [[1, 3], 1]], ["2"], [[2, 1, 1]],
            [[[0.5, 1], 1]], [[3, 1], [[2], 1]],
        ])

    def _coeff(self, rng):
        r = rng.random()
        if r > 0.93:
            return 1.0
        if r < 0.4:
            return rng.randint(-9, 9) or 3
        if r < 0.7:
            return round(rng.uniform(-5, 5), 3) or 1.5
        return [round(rng.uniform(-5, 5), 3), round(rng.uniform(0.1, 5), 3)]

    def _states(self, rng):
        """Ordered single-particle states: [site, spin, orbit]."""
        dim = rng.choice([1, 2, 2, 3])
        nsite = rng.randint(1, 4)
        spins = rng.choice([1, 2, 2])
        orbits = rng.choice([1, 1, 1, 2])
        out = [[s, p, o] for s in rng.sample(range(5), nsite)
               for p in range(spins) for o in range(orbits)]
        rng.shuffle(out)
        return dim, out[:7]

    def _term(self, rng, nstate):
        """A fermion term description over state numbers."""
        kind = rng.choices(
            ["aoc", "number", "general", "product", "CP", "hop", "pair",
             "hubbard", "coulomb", "dagger", "power", "hopping", "normal",
             "times", "again"],
            [2, 2, 4, 3, 2, 3, 2, 2, 2, 2, 1, 2, 2, 2, 1])[0]
        two = rng.sample(range(nstate), 2) if nstate > 1 else [0, 0]
        i = rng.randrange(nstate)
        c = self._coeff(rng)
        brief = rng.random() < 0.5
        if brief and rng.random() < 0.4:
            c = 1.0
        if kind == "aoc":
            return {"k": kind, "ops": [[i, rng.randint(0, 1)]],
                    "brief": brief}
        if kind in ("number", "CP", "hubbard"):
            return {"k": kind, "i": i, "coeff": c, "brief": brief}
        if kind in ("hop", "coulomb", "hopping"):
            if kind == "hop" and rng.random() < 0.15:
                two = [i, i]
            return {"k": kind, "two": two, "coeff": c, "brief": brief}
        if kind == "pair":
            return {"k": kind, "two": two, "coeff": c, "brief": brief,
                    "which": rng.choice(["h", "p", "hole", "particle"])}
        ops = [[rng.randrange(nstate), rng.randint(0, 1)]
               for _ in range(rng.randint(1, 5))]
        if rng.random() < 0.5:      # number conserving and rarely zero
            a = rng.sample(range(nstate), min(nstate, rng.choice(
                [1, 2, 2, 2, 3, 4])))
            b = rng.sample(range(nstate), len(a))
            ops = [[x, 1] for x in a] + [[x, 0] for x in b]
        t = {"k": kind, "ops": ops, "coeff": c}
        if kind == "normal" and rng.random() < 0.7:
            # no annihilation before a creation of the same state
            rng.shuffle(ops)
            for s in {i for i, _ in ops}:
                at = [j for j, o in enumerate(ops) if o[0] == s]
                for j, o in zip(at, sorted((ops[j][1] for j in at),
                                           reverse=True)):
                    ops[j] = [s, o]
        if kind == "times":
            t["cut"] = rng.randint(0, len(ops))
        return t

    def gen(self, rng, tier):
        dim, states = self._states(rng)
        n = len(states)
        nspin = rng.randint(1, 4)
        sc = {"dim": dim, "states": states, "nspin": nspin,
              "spin_order": rng.sample(range(6), nspin),
              "start": 0,
              "spaces": [self._specs(rng, n)
                         for _ in range(rng.randint(1, 2))],
              "terms": [self._term(rng, n) for _ in range(2)],
              "sterms": [self._spinop(rng, nspin, {}) for _ in range(2)],
              "threads": {}}
        nthread = rng.choice([1, 2, 2, 3])
        long = rng.random() < 0.12
        sc["long"] = long
        num = 0
        for t in range(nthread):
            ops = []
            m = rng.randint(40, 60) if long and t == 0 else rng.randint(2, 5)
            for _ in range(m):
                op = self._op(rng, sc, n)
                op["id"] = "%d" % num
                num += 1
                ops.append(op)
                if rng.random() < 0.15:
                    again = dict(op, id="%d" % num)
                    num += 1
                    ops.append(again)
            sc["threads"]["T%d" % t] = ops
        settle = []
        for _ in range(2):
            op = self._op(rng, sc, n)
            op["id"] = "s%d" % num
            num += 1
            settle.append(op)
        sc["settle"] = settle
        return sc

    def _spinop(self, rng, nspin, op):
        sub = rng.choices(["op", "term", "heis", "ising", "two", "prod",
                           "dagger", "schwinger", "dagop"],
                          [2, 4, 2, 1, 1, 2, 1, 2, 1])[0]
        op["sub"] = sub
        op["coeff"] = self._coeff(rng)
        if sub in ("op", "dagop"):
            op["ops"] = [[rng.randrange(nspin), rng.choice(OTYPES)]]
        elif sub == "schwinger":
            op["ops"] = [[rng.randrange(nspin), rng.choice(OTYPES)]
                         for _ in range(rng.choice([1, 1, 2, 2, 3]))]
            op["alone"] = rng.random() < 0.5
        elif sub in ("heis", "ising", "two"):
            two = (rng.sample(range(nspin), 2) if nspin > 1
                   else [0, 0])
            op["two"] = two
            op["ab"] = [rng.choice("xyz"), rng.choice("xyz")]
            op["part"] = rng.randrange(3)
        else:
            op["ops"] = [[rng.randrange(nspin), rng.choice(OTYPES)]
                         for _ in range(rng.randint(1, 4))]
        return op

    def _tab(self, rng, op, n):
        """Which table: the shared one, or a short-lived one, possibly in
        another order or with a foreign entry in front."""
        op["fresh"] = rng.random() < 0.5
        if op["fresh"] and rng.random() < 0.7:
            op["perm"] = rng.sample(range(n), n)
            op["extra"] = rng.random() < 0.25

    def _num(self, op, n):
        """Number of entry i of the table that the request uses."""
        perm = op.get("perm") or list(range(n))
        return lambda i: perm.index(i) + int(bool(op.get("extra")))

    def _op(self, rng, sc, n):
        kind = rng.choices(
            ["basis", "badbasis", "table", "badtable", "fermion", "badstate",
             "spin", "badspin", "raw", "rawspin", "query", "large"],
            [5, 2, 2, 1, 9, 1, 5, 1, 2, 2, 3, 0.12])[0]
        op = {"kind": kind}
        if kind == "basis":
            op["specs"] = (self._specs(rng, rng.randint(1, 7))
                           if rng.random() < 0.7 else rng.choice(sc["spaces"]))
            if rng.random() < 0.1:
                op["specs"] = [[rng.sample([0, 3, 17, 31, 32, 40, 62, 63], 4),
                                rng.randint(1, 3)]]
            elif rng.random() < 0.1:            # many states, few kets
                k = rng.randint(9, 14)
                st = rng.sample(range(64), k)
                op["specs"] = [[st, rng.choice([1, 2, k - 1, k])]]
                if rng.random() < 0.5:
                    rest = rng.sample([i for i in range(64)
                                       if i not in st], 10)
                    op["specs"].append([rest, rng.choice([0, 1, 9])])
            elif rng.random() < 0.03:           # many kets
                op["specs"] = rng.choice([
                    [14], [[rng.sample(range(40), 17), 8]],
                    [[list(range(8, 0, -1)), 4], [[9, 20, 31, 63, 0, 44], 3],
                     [[40, 41, 42, 50], -1]]])
                op["many"] = True
            op["via"] = rng.choice(["func", "space", "simple", "shared",
                                    "call"])
            if op["via"] == "shared":
                op["space"] = rng.randrange(len(sc["spaces"]))
                op["specs"] = sc["spaces"][op["space"]]
            if op["via"] == "simple" and len(op["specs"]) != 1:
                op["via"] = "space"
            op["as"] = rng.choice([None, "array", "list", "tuple"])
            op["sort"] = rng.choice([None, None, True, False])
            if op["via"] in ("shared", "space", "call") \
                    and rng.random() < 0.4:
                op["via"], op["space"] = "shared", rng.randrange(
                    len(sc["spaces"]))
                op["specs"] = sc["spaces"][op["space"]]
                op["sort"] = rng.choice([None, False, False])
            elif rng.random() < 0.3:
                op["coll"] = rng.choice(["tuple", "set", "list"])
        elif kind == "badbasis":
            op["specs"] = self._bad_specs(rng)
            op["via"] = rng.choice(["func", "space"])
        elif kind in ("table", "badtable"):
            ktype = rng.choice(["int", "str", "tup", "site", "state"])
            hi = 8 if ktype != "state" else 20
            keys = [[ktype, v] for v in rng.sample(
                range(hi), rng.randint(1, 6))]
            if ktype == "site":
                op["keys"] = keys
            if kind == "badtable":
                if rng.random() < 0.6:
                    keys.append(list(rng.choice(keys)))
                else:
                    keys.append([rng.choice(
                        [k for k in ("int", "str", "tup")
                         if k != ktype]), 1])
            if rng.random() < 0.08 and ktype in ("int", "str", "tup"):
                keys = [[ktype, v] for v in rng.sample(
                    range(900), rng.choice([40, 130, 300]))]
                if kind == "badtable":
                    keys.append(list(rng.choice(keys)))
            op["keys"] = keys
            op["start"] = rng.choice([0, 0, 1, 3, -2])
            op["lazy"] = rng.random() < 0.5
        elif kind == "query":
            op["what"] = rng.choice(["state", "site", "object"])
            op["i"] = rng.randrange(-1, n + 2)
        elif kind in ("fermion", "badstate"):
            op["shared"] = rng.random() < 0.35
            op["term"] = (rng.randrange(len(sc["terms"])) if op["shared"]
                          else self._term(rng, n))
            op["space"] = (rng.randrange(len(sc["spaces"]))
                           if rng.random() < 0.6 else None)
            op["right"] = (sc["spaces"][op["space"]]
                           if op["space"] is not None
                           else self._specs(rng, n))
            r = rng.random()
            if r < 0.25:
                op["left"] = [n]                    # the whole Fock space
            elif r < 0.4:
                op["left"] = self._specs(rng, n)
            elif r < 0.55:
                # other states, as many of them
                mine = self._ref_kets(op["right"])
                for _ in range(12):
                    op["left"] = self._specs(rng, n)
                    other = self._ref_kets(op["left"])
                    if len(other) == len(mine) and other != mine:
                        break
            self._tab(rng, op, n)
            op["csr"] = rng.random() < 0.7
        elif kind in ("spin", "badspin"):
            nspin = sc["nspin"]
            if rng.random() < 0.4:
                op["shared"] = rng.randrange(len(sc["sterms"]))
                op.update(sc["sterms"][op["shared"]])
            else:
                self._spinop(rng, nspin, op)
            self._tab(rng, op, nspin)
        elif kind == "raw":
            op["ops"] = [[rng.randrange(n), rng.randint(0, 1)]
                         for _ in range(rng.randint(1, 4))]
            op["right"] = self._specs(rng, n)
            op["left"] = [n] if rng.random() < 0.6 else None
            op["coeff"] = self._coeff(rng)
            if rng.random() < 0.5:      # states anywhere among the 64
                hi = rng.sample([0, 5, 31, 32, 33, 62, 63], 4)
                if rng.random() < 0.7:
                    hi = rng.sample(range(64), rng.randint(4, 8))
                i, j = rng.sample(hi, 2)
                op["ops"] = rng.choice([
                    [[rng.choice(hi), 1], [rng.choice(hi), 0]],
                    [[i, 1], [j, 0]], [[i, 1], [j, 0]], [[i, 1], [i, 0]],
                    [[i, 1], [i, 0], [j, 1], [j, 0]],
                    [[x, k % 2] for k, x in enumerate(rng.sample(hi, 4))]])
                op["right"] = [[hi, rng.randint(1, len(hi) - 1)]]
                op["left"] = None
                op["tag"] = rng.random() < 0.7
            op["csr"] = rng.random() < 0.7
        elif kind == "rawspin":
            total = rng.randint(1, 4)
            if rng.random() < 0.2:
                n = rng.randint(5, 13)
                return {"kind": "large", "of": "spin",
                        "size": n, "coeff": self._coeff(rng), "ops": [
                            [rng.choice([0, n - 1, rng.randrange(n)]),
                             rng.choice(OTYPES)] for _ in range(rng.choice(
                                 [1, 2, 2, 2, 2, 3, 4]))]}
            op["total"] = total
            op["ops"] = [[rng.randrange(total), rng.choice(OTYPES)]
                         for _ in range(rng.randint(1, 3))]
            op["coeff"] = self._coeff(rng)
            op["one"] = rng.random() < 0.4
        elif kind == "large":
            op["of"] = rng.choice(["raw", "raw", "term", "term", "spin"])
            op["coeff"] = self._coeff(rng)
            op["size"], op["sector"] = rng.choice(
                [[16, None], [16, None], [18, 9], [17, 8], [17, None]])
            op["shift"] = rng.choice([0, 0, 1, 40, 64 - op["size"]])
            m = op["size"]
            if op["of"] == "spin":
                op["ops"] = [[rng.randrange(m), rng.choice(OTYPES)]
                             for _ in range(rng.randint(1, 3))]
            elif op["sector"] is None and rng.random() < 0.5:
                op["ops"] = [[rng.randrange(m), rng.randint(0, 1)]
                             for _ in range(rng.randint(1, 4))]
            else:
                a = rng.randint(1, 2)
                op["ops"] = [[i, int(j < a)] for j, i in enumerate(
                    rng.sample(range(m), 2 * a))]
                rng.shuffle(op["ops"])
            if rng.random() < 0.2:
                i, j = rng.sample(range(m), 2)
                op["ops"] = [[i, 1], [i, 0], [j, 1], [j, 0]][
                    :rng.choice([2, 4])] if op["of"] != "spin" \
                    else [[i, "p"], [j, "m"]]
            op["tag"] = rng.random() < 0.5
            op["left"] = rng.random() < 0.2
            op["csr"] = rng.random() < 0.7
        return op

    def _large_kets(self, op):
        kets = np.arange(1 << op["size"], dtype=np.uint64)
        if op["sector"] is not None:
            count = sum((kets >> np.uint64(i)) & np.uint64(1)
                        for i in range(op["size"]))
            kets = kets[count == op["sector"]]
        return kets << np.uint64(op["shift"])

    @staticmethod
    def _tag(ops):
        """The special tag that suits the operators."""
        if [o for _, o in ops] == [1, 0]:
            return "number" if ops[0][0] == ops[1][0] else "hopping"
        if [o for _, o in ops] == [1, 0, 1, 0] and (
                ops[0][0] == ops[1][0] != ops[2][0] == ops[3][0]):
            return "Coulomb"
        return "general"

    def _large(self, op):
        """The same request as made of the library."""
        from scipy.sparse import coo_matrix, csr_matrix
        m, c = op["size"], cnum(op["coeff"])
        if op["of"] == "spin":
            from HamiltonianPy.quantumoperator.spinsystem import (
                SpinInteraction)
            return csr_matrix(SpinInteraction.matrix_function(
                [tuple(o) for o in op["ops"]], m, coeff=c))
        right = self._large_kets(op)
        kw = {} if op["csr"] else {"to_csr": False}
        if op["left"]:
            kw["left_bases"] = right.copy()
        if op["of"] == "raw":
            from HamiltonianPy.quantumoperator.matrixrepr import (
                matrix_function)
            if op["tag"]:
                kw["special_tag"] = self._tag(op["ops"])
            r = matrix_function([(i + op["shift"], o) for i, o in op["ops"]],
                                right, coeff=c, **kw)
        else:
            from HamiltonianPy.indextable import IndexTable
            from HamiltonianPy.quantumoperator.particlesystem import (
                AoC, ParticleTerm)
            from HamiltonianPy.quantumoperator.quantumstate import StateID
            table = IndexTable([StateID((i, 0.5))
                                for i in range(m + op["shift"])])
            r = ParticleTerm([AoC(o, site=(i + op["shift"], 0.5))
                              for i, o in op["ops"]], coeff=c).matrix_repr(
                                  table, right, **kw)
        if isinstance(formed(r, op["csr"]), tuple):
            return coo_matrix(r, shape=[len(right)] * 2).tocsr()
        return r

    def _large_expect(self, op):
        from scipy.sparse import coo_matrix
        if op["of"] == "spin":
            n = 1 << op["size"]
            # operators on different sites commute; on one site the
            # product keeps its order
            v, i, j = ref.spin_arrays(op["ops"], op["size"])
        else:
            right = self._large_kets(op)
            n = len(right)
            v, i, j = ref.fermion_arrays(
                [[s + op["shift"], o] for s, o in op["ops"]], right)
        return coo_matrix((complex(cnum(op["coeff"])) * v, (i, j)),
                          shape=(n, n)).tocsr()

    # -- start ---------------------------------------------------------------
    def warm(self):
        sc = {"dim": 2, "states": [[0, 0, 0], [1, 0, 0]], "nspin": 2,
              "spin_order": [0, 1], "spaces": [[2]], "terms": []}
        ctx = self.start(None, sc)
        for t in ({"k": "hop", "two": [0, 1], "coeff": 1},
                  {"k": "CP", "i": 0, "coeff": 1},
                  {"k": "coulomb", "two": [0, 1], "coeff": 1},
                  {"k": "general", "ops": [[0, 1], [1, 0]], "coeff": 1}):
            self.call(ctx, {"kind": "fermion", "shared": False, "term": t,
                            "space": 0, "right": [2], "fresh": False,
                            "csr": True})

    def _state(self, ctx, i):
        from HamiltonianPy.quantumoperator.quantumstate import StateID
        s, p, o = ctx["sc"]["states"][i]
        return StateID(site_of(s, ctx["sc"]["dim"]), p, o)

    def _kw(self, ctx, i):
        s, p, o = ctx["sc"]["states"][i]
        return {"site": site_of(s, ctx["sc"]["dim"]), "spin": p, "orbit": o}

    @staticmethod
    def _brief(t, kw):
        """Leave out what the documentation says is the default."""
        if not t.get("brief"):
            return kw
        return {k: v for k, v in kw.items() if k == "site" or isinstance(
            v, str) and v != "h" or not isinstance(v, str) and v != (
                1 if k == "coeff" else 0)}

    def _fermi_table(self, ctx, op={}):
        from HamiltonianPy.indextable import IndexTable
        from HamiltonianPy.quantumoperator.quantumstate import StateID
        n = len(ctx["sc"]["states"])
        keys = [self._state(ctx, i) for i in op.get("perm") or range(n)]
        if op.get("extra"):
            keys.insert(0, StateID(site_of(7, ctx["sc"]["dim"]), 0, 0))
        return IndexTable(keys)

    def _spin_table(self, ctx, op={}):
        from HamiltonianPy.indextable import IndexTable
        from HamiltonianPy.quantumoperator.quantumstate import SiteID
        order = ctx["sc"]["spin_order"]
        sites = [order[i] for i in op.get("perm") or range(len(order))]
        if op.get("extra"):
            sites.insert(0, 7)
        return IndexTable([SiteID(site_of(s, ctx["sc"]["dim"]))
                           for s in sites])

    def start(self, eng, sc):
        from HamiltonianPy.hilbertspace import HilbertSpace
        ctx = {"sc": sc, "eng": eng}
        ctx["fermi"] = self._fermi_table(ctx)
        ctx["spin"] = self._spin_table(ctx)
        ctx["spaces"] = [HilbertSpace(*s) for s in sc["spaces"]]
        ctx["kets"] = [np.array(self._ref_kets(s), dtype=np.uint64)
                       for s in sc["spaces"]]
        ctx["terms"] = [self._build(ctx, t) if t["k"] != "normal"
                        or self._ref_term(ctx, t) else None
                        for t in sc["terms"]]
        ctx["sterms"] = [self._spin_build(ctx, t)
                         for t in sc.get("sterms", ())]
        # the order of an unsorted request, per way to ask
        ctx["order"] = {}
        return ctx

    def _ref_kets(self, specs):
        return ref.basis([norm_spec(s) for s in specs])

    def _hub(self, ctx, i):
        """States (up, down) of the site/orbit of state i, if tabled."""
        s, p, o = ctx["sc"]["states"][i]
        st = ctx["sc"]["states"]
        try:
            return [st.index([s, 1, o]), st.index([s, 0, o])]
        except ValueError:
            return None

    def _build(self, ctx, t):
        from HamiltonianPy.quantumoperator import factory as F
        from HamiltonianPy.quantumoperator.particlesystem import (
            AoC, NumberOperator, ParticleTerm)
        k = t["k"]
        c = cnum(t.get("coeff", 1.0))
        aoc = lambda i, o: AoC(o, **self._kw(ctx, i))
        if k == "aoc":
            i, o = t["ops"][0]
            kw = self._brief(t, self._kw(ctx, i))
            return F.Creator(**kw) if o else F.Annihilator(**kw)
        if k == "number":
            return NumberOperator(**self._brief(t, self._kw(ctx, t["i"])))
        if k == "CP":
            return F.CPFactory(**self._brief(
                t, dict(self._kw(ctx, t["i"]), coeff=c)))
        if k == "hubbard":
            kw = self._kw(ctx, t["i"])
            return F.HubbardFactory(kw["site"], **self._brief(
                t, {"orbit": kw["orbit"], "coeff": c}))
        if k in ("hop", "coulomb", "pair"):
            a, b = (self._kw(ctx, i) for i in t["two"])
            kw = {"spin0": a["spin"], "spin1": b["spin"],
                  "orbit0": a["orbit"], "orbit1": b["orbit"], "coeff": c}
            if k == "pair":
                return F.PairingFactory(a["site"], b["site"], **self._brief(
                    t, dict(kw, which=t["which"])))
            f = F.HoppingFactory if k == "hop" else F.CoulombFactory
            if k == "hop" and a["spin"] == b["spin"] \
                    and a["orbit"] == b["orbit"]:
                kw.pop("spin1")
                kw.pop("orbit1")
            keep = {n: kw[n] for n in ("spin1", "orbit1")
                    if k == "hop" and n in kw}    # the default is the other
            return f(a["site"], b["site"], **dict(self._brief(t, kw), **keep))
        if k == "hopping":
            return ParticleTerm(
                (aoc(t["two"][0], 1), aoc(t["two"][1], 0)), coeff=c,
                classification="hopping" if t["two"][0] != t["two"][1]
                else "number")
        ops = [aoc(i, o) for i, o in t["ops"]]
        if k == "general":
            return ParticleTerm(ops, coeff=c)
        if k == "power":
            return ParticleTerm(ops, coeff=c) * ParticleTerm(
                ops[:1], coeff=2.0)
        if k == "dagger":
            return ParticleTerm(ops, coeff=c).dagger()
        if k == "again":
            term = ParticleTerm(ops, coeff=c).dagger().dagger()
            return ParticleTerm(term.components, coeff=term.coeff)
        if k == "normal":
            ops, swaps = ParticleTerm.normalize(ops)
            order = [-o.otype for o in ops]
            assert order == sorted(order), "creations must come first"
            return ParticleTerm(ops, coeff=c * (-1) ** swaps)
        if k == "times":        # products of products, with a number amid
            cut = t["cut"]
            left = ParticleTerm(ops[:cut], coeff=c)
            right = ParticleTerm(ops[cut:], coeff=3)
            return left * right * 0.5
        term = c * ops[0]           # product
        for o in ops[1:]:
            term = term * o
        return term

    def _ref_term(self, ctx, t):
        """(coefficient, [(index, otype)]) or None when a state is unknown."""
        k = t["k"]
        c = complex(cnum(t.get("coeff", 1.0)))
        if k == "aoc":
            return 1.0, t["ops"]
        if k == "number":
            return 1.0, [[t["i"], 1], [t["i"], 0]]
        if k == "CP":
            return c, [[t["i"], 1], [t["i"], 0]]
        if k == "hubbard":
            h = self._hub(ctx, t["i"])
            if h is None:
                return None
            return c, [[h[0], 1], [h[0], 0], [h[1], 1], [h[1], 0]]
        if k in ("hop", "hopping"):
            return c, [[t["two"][0], 1], [t["two"][1], 0]]
        if k == "coulomb":
            a, b = t["two"]
            return c, [[a, 1], [a, 0], [b, 1], [b, 0]]
        if k == "pair":
            o = 1 if t["which"][0] == "p" else 0
            return c, [[t["two"][0], o], [t["two"][1], o]]
        if k == "power":
            return 2 * c, t["ops"] + t["ops"][:1]
        if k == "dagger":
            return c.conjugate(), [[i, 1 - o] for i, o in t["ops"][::-1]]
        if k == "times":
            return 1.5 * c, t["ops"]
        if k == "normal" and any(
                o == 0 and [i, 1] in t["ops"][j:]
                for j, (i, o) in enumerate(t["ops"])):
            return None
        return c, t["ops"]

    # -- one request -----------------------------------------------------------
    def _coll(self, op, specs):
        """Bring a specifier's states into the requested container."""
        coll = {"tuple": tuple, "set": set, "list": list,
                None: lambda x: x}[op.get("coll")]
        out = []
        for s in specs:
            if isinstance(s, list) and len(s) == 2 \
                    and isinstance(s[0], list):
                out.append((coll(s[0]), s[1]))
            else:
                out.append(s)
        return out

    def call(self, ctx, op):
        from HamiltonianPy import hilbertspace as hs
        kind = op["kind"]
        if op.get("many") and ctx["eng"] is not None:
            ctx["eng"].masked = 1       # millions of points, all alike
        if kind in ("basis", "badbasis"):
            specs = self._coll(op, op["specs"])
            kw = {}
            if op.get("as"):
                kw["container"] = op["as"]
            if op.get("sort") is not None:
                kw["sort"] = op["sort"]
            via = op["via"]
            if via == "func":
                r = hs.base_vectors(*specs, **kw)
            elif via == "simple":
                s = specs[0]
                args = (s,) if isinstance(s, int) else tuple(s)
                r = hs.SimpleHilbertSpace(*args).base_vectors(**kw)
            elif via == "shared":
                r = ctx["spaces"][op["space"]].base_vectors(**kw)
            elif via == "call":
                r = hs.HilbertSpace(*specs)(**kw)
            else:
                r = hs.HilbertSpace(*specs).base_vectors(**kw)
            return (type(r).__name__, str(getattr(r, "dtype", "")),
                    [int(x) for x in r])
        if kind in ("table", "badtable"):
            from HamiltonianPy.indextable import IndexTable
            keys = [make_key(k) for k in op["keys"]]
            t = IndexTable((k for k in keys) if op["lazy"] else keys,
                           start=op["start"])
            fresh = [make_key(k) for k in op["keys"]]
            miss = []
            for probe in (["int", 999], ["str", 999], ["tup", 999],
                          ["none", 0]):
                try:
                    v = t.query_index(None if probe[0] == "none"
                                      else make_key(probe))
                    miss.append(v)
                except (KeyError, TypeError):
                    pass
            for j in (op["start"] - 1, op["start"] + len(keys), 1.0):
                try:
                    miss.append(t.query_object(j))
                except (KeyError, TypeError):
                    pass
            return {"idx": [t.query_index(k) for k in fresh],
                    "call": [t(k) for k in fresh],
                    "back": [t.query_object(op["start"] + j) == k
                             for j, k in enumerate(fresh)],
                    "len": len(t), "order": list(t.indices()),
                    "objs": [a == b for a, b in zip(t.objects(), fresh)],
                    "iter": [i for i, _ in t],
                    "type": t.object_type is type(fresh[0]),
                    "miss": len(miss)}
        if kind == "query":
            n = len(ctx["sc"]["states"])
            i = op["i"]
            if op["what"] == "object":
                return repr(ctx["fermi"].query_object(i))
            if op["what"] == "site":
                from HamiltonianPy.quantumoperator.quantumstate import SiteID
                s = SiteID(site_of(i % 6, ctx["sc"]["dim"]))
                return s.getIndex(ctx["spin"])
            from HamiltonianPy.quantumoperator.quantumstate import StateID
            if 0 <= i < n:
                return ctx["fermi"](self._state(ctx, i))
            return ctx["fermi"](StateID(site_of(7, ctx["sc"]["dim"]), 0, 0))
        if kind in ("fermion", "badstate"):
            term = ctx["terms"][op["term"]] if op["shared"] else None
            if term is None:
                term = self._build(ctx, ctx["sc"]["terms"][op["term"]]
                                   if op["shared"] else op["term"])
            desc = (ctx["sc"]["terms"][op["term"]] if op["shared"]
                    else op["term"])
            if op["space"] is not None and not op["fresh"]:
                right = ctx["kets"][op["space"]]
            else:
                right = np.array(self._ref_kets(op["right"]),
                                 dtype=np.uint64)
            kw = {}
            shape = [len(right)] * 2
            if op.get("left") is not None and desc["k"] != "number":
                kw["left_bases"] = np.array(self._ref_kets(op["left"]),
                                            dtype=np.uint64)
                shape[0] = len(kw["left_bases"])
            if not op["csr"]:
                kw["to_csr"] = False
            table = ctx["fermi"] if not op["fresh"] \
                else self._fermi_table(ctx, op)
            if kind == "badstate":
                from HamiltonianPy.indextable import IndexTable
                from HamiltonianPy.quantumoperator.quantumstate import StateID
                table = IndexTable([StateID(site_of(7, ctx["sc"]["dim"]))])
            return dense(formed(term.matrix_repr(table, right, **kw),
                                op["csr"]), shape)
        if kind in ("spin", "badspin"):
            return self._spin_call(ctx, op)
        if kind == "raw":
            from HamiltonianPy.quantumoperator.matrixrepr import (
                matrix_function)
            right = np.array(self._ref_kets(op["right"]), dtype=np.uint64)
            kw = {}
            shape = [len(right)] * 2
            if op["left"] is not None:
                kw["left_bases"] = np.array(self._ref_kets(op["left"]),
                                            dtype=np.uint64)
                shape[0] = len(kw["left_bases"])
            if op.get("tag"):
                kw["special_tag"] = self._tag(op["ops"])
            if not op["csr"]:
                kw["to_csr"] = False
            return dense(formed(matrix_function(
                [tuple(o) for o in op["ops"]], right,
                coeff=cnum(op["coeff"]), **kw), op["csr"]), shape)
        if kind == "rawspin":
            from HamiltonianPy.quantumoperator.spinsystem import (
                SpinInteraction, SpinOperator)
            shape = [1 << op["total"]] * 2
            if op["one"]:
                return dense(SpinOperator.matrix_function(
                    tuple(op["ops"][0]), op["total"]), shape)
            return dense(SpinInteraction.matrix_function(
                [tuple(o) for o in op["ops"]], op["total"],
                coeff=cnum(op["coeff"])), shape)
        if kind == "large":
            return self._large(op)
        raise ValueError(kind)

    def _spin_build(self, ctx, op):
        from HamiltonianPy.quantumoperator import factory as F
        from HamiltonianPy.quantumoperator.spinsystem import (
            SpinInteraction, SpinOperator)
        dim, order = ctx["sc"]["dim"], ctx["sc"]["spin_order"]
        site = lambda i: site_of(order[i], dim)
        c = cnum(op["coeff"])
        kw = {} if op["coeff"] == 1.0 else {"coeff": c}
        sub = op["sub"]
        if sub in ("op", "dagop"):
            i, o = op["ops"][0]
            term = SpinOperator(o, site(i))
            if sub == "dagop":
                term = term.dagger()
        elif sub == "schwinger":
            sops = [SpinOperator(o, site(i)) for i, o in op["ops"]]
            term = (sops[0] if op["alone"] and len(sops) == 1
                    else SpinInteraction(sops, coeff=c))
        elif sub == "heis":
            term = F.HeisenbergFactory(
                site(op["two"][0]), site(op["two"][1]), **kw)[op["part"]]
        elif sub == "ising":
            term = F.IsingFactory(site(op["two"][0]), site(op["two"][1]),
                                  op["ab"][0], **kw)
        elif sub == "two":
            term = F.TwoSpinTermFactory(
                site(op["two"][0]), site(op["two"][1]), *op["ab"], **kw)
        else:
            sops = [SpinOperator(o, site(i)) for i, o in op["ops"]]
            if sub == "prod":
                term = c * sops[0]
                for s in sops[1:]:
                    term = term * s
            else:
                term = SpinInteraction(sops, coeff=c)
                if sub == "dagger":
                    term = term.dagger()
        return term

    def _spin_call(self, ctx, op):
        dim = ctx["sc"]["dim"]
        if op.get("shared") is not None:
            term = ctx["sterms"][op["shared"]]
        else:
            term = self._spin_build(ctx, op)
        from HamiltonianPy.indextable import IndexTable
        table = ctx["spin"] if not op["fresh"] \
            else self._spin_table(ctx, op)
        if op["kind"] == "badspin":
            from HamiltonianPy.quantumoperator.quantumstate import SiteID
            table = IndexTable([SiteID(site_of(7, dim))])
        n = len(table)
        if op["sub"] == "schwinger":
            from HamiltonianPy.quantumoperator.quantumstate import StateID
            up = IndexTable([StateID(s.site, p) for s in table.objects()
                             for p in (1, 0)])
            kets = np.array(self._schwinger_kets(n), dtype=np.uint64)
            res = np.zeros([1 << n] * 2, dtype=complex)
            for t in term.Schwinger():
                res = res + dense(t.matrix_repr(up, kets), res.shape)
            return res
        return dense(term.matrix_repr(table), [1 << n] * 2)

    def _schwinger_kets(self, n):
        """The singly occupied kets, in the order of the spin basis: bit i
        clear for spin up (state 2 i) of site i, set for spin down."""
        return [sum(1 << (2 * i + (k >> i & 1))
                    for i in range(n)) for k in range(1 << n)]

    # -- oracle ------------------------------------------------------------
    def expect(self, ctx, op):
        """The value by definition, or ("reject", why)."""
        kind = op["kind"]
        if kind == "basis":
            kets = self._ref_kets(op["specs"])
            c = op.get("as") or "array"
            return ("ndarray" if c == "array" else c,
                    "uint64" if c == "array" else "", kets)
        if kind in ("badbasis", "badtable", "badstate", "badspin"):
            return ("reject", kind)
        if kind == "table":
            n, s = len(op["keys"]), op["start"]
            idx = list(range(s, s + n))
            return {"idx": idx, "call": idx, "back": [True] * n, "len": n,
                    "order": idx, "objs": [True] * n, "iter": idx,
                    "type": True, "miss": 0}
        if kind == "query":
            n, i = len(ctx["sc"]["states"]), op["i"]
            if op["what"] == "site":
                if i % 6 in ctx["sc"]["spin_order"]:
                    return ctx["sc"]["spin_order"].index(i % 6)
                return ("reject", "unknown site")
            if not 0 <= i < n:
                return ("reject", "unknown")
            if op["what"] == "object":
                s, p, o = ctx["sc"]["states"][i]
                return "StateID(site=%r, spin=%d, orbit=%d)" % (
                    site_of(s, ctx["sc"]["dim"]), p, o)
            return i
        if kind in ("fermion", "raw"):
            if kind == "raw":
                rt = (complex(cnum(op["coeff"])), op["ops"])
                desc = {"k": "raw"}
            else:
                desc = (ctx["sc"]["terms"][op["term"]] if op["shared"]
                        else op["term"])
                rt = self._ref_term(ctx, desc)
            if rt is None:
                return ("reject", "unknown state")
            num = self._num(op, len(ctx["sc"]["states"]))
            if kind == "fermion":
                rt = rt[0], [[num(i), o] for i, o in rt[1]]
            right = self._ref_kets(op["right"])
            left = None
            if op.get("left") is not None and desc["k"] != "number":
                left = self._ref_kets(op["left"])
            try:
                return rt[0] * ref.fermion_matrix(rt[1], right, left)
            except ref.LeavesBasis:
                return ("reject", "leaves the basis")
        if kind == "spin":
            n = ctx["sc"]["nspin"]
            num = self._num(op, n)
            n += int(bool(op.get("extra")))
            c = complex(cnum(op["coeff"]))
            sub = op["sub"]
            ops = [[num(i), o] for i, o in op.get("ops", ())]
            two = [num(i) for i in op.get("two", ())]
            if sub in ("op", "dagop"):
                m = ref.spin_matrix(ops, n)
                return m.conj().T if sub == "dagop" else m
            if sub == "schwinger":
                return (1 if op["alone"] and len(ops) == 1 else c) \
                    * ref.spin_matrix(ops, n)
            if sub == "heis":
                a, b = two
                if op["part"] == 0:
                    return c * self._sorted(ctx, [[a, "z"], [b, "z"]], n)
                pm = ["p", "m"] if op["part"] == 1 else ["m", "p"]
                return c / 2 * self._sorted(
                    ctx, [[a, pm[0]], [b, pm[1]]], n)
            if sub == "ising":
                return c * self._sorted(
                    ctx, [[i, op["ab"][0]] for i in two], n)
            if sub == "two":
                return c * self._sorted(
                    ctx, [[i, x] for i, x in zip(two, op["ab"])], n)
            m = c * ref.spin_matrix(ops, n)
            return m.conj().T if sub == "dagger" else m
        if kind == "large":
            return self._large_expect(op)
        if kind == "rawspin":
            if op["one"]:
                return ref.spin_matrix(op["ops"][:1], op["total"])
            return complex(cnum(op["coeff"])) * ref.spin_matrix(
                op["ops"], op["total"])
        raise ValueError(kind)

    def _sorted(self, ctx, ops, n):
        return ref.spin_matrix(ops, n)

    def judge(self, ctx, rec):
        op = rec["op"]
        memo = ctx.setdefault("memo", {})
        key = json.dumps({k: v for k, v in op.items() if k != "id"},
                         sort_keys=True)
        if key not in memo:
            memo[key] = self.expect(ctx, op)
        want = memo[key]
        rejected = isinstance(want, tuple) and want[0] == "reject"
        rec["want_reject"] = rejected
        if rec["exc"] is not None:
            if rec["injected"] or rejected:
                return None
            return (self.id + "/raised", "raised %s: %s" % rec["exc"])
        got = rec["value"]
        if rejected:
            return (self.id + "/accepted",
                    "a request that must be rejected (%s) returned %s" % (
                        want[1], str(got)[:120]))
        if op["kind"] == "basis":
            vals = got[2]
            if op.get("sort") is False:
                vals = sorted(vals)
            if got[:2] != want[:2] or vals != want[2]:
                return (self.id + "/basis", "basis is %s, should be %s" % (
                    str(got)[:150], str(want)[:150]))
            # the order in which a request that is not sorted lists them
            # is free, but it is the same whatever was asked before
            if op.get("sort") is False:
                via = op["via"] if op["via"] in ("func", "simple") \
                    else "space"
                key = via, json.dumps(op["specs"]), op.get("coll")
                if ctx["order"].setdefault(key, got[2]) != got[2]:
                    return (self.id + "/order", "the same request without "
                            "sorting gave %s and then %s" % (
                                ctx["order"][key], got[2]))
            return None
        if op["kind"] == "large":
            if got.shape != want.shape:
                return (self.id + "/large", "matrix has shape %r, should "
                        "have %r" % (got.shape, want.shape))
            diff = abs(got - want).tocoo()
            bad = diff.data > 1e-9 * max(1.0, abs(want).max())
            if bad.any():
                at = [(int(i), int(j)) for i, j in zip(
                    diff.row[bad][:3], diff.col[bad][:3])]
                return (self.id + "/large", "%d entries of a matrix over "
                        "%d states are wrong, e.g. %s" % (
                            bad.sum(), want.shape[0],
                            [(a, complex(got[a]), complex(want[a]))
                             for a in at]))
            return None
        if isinstance(want, np.ndarray):
            if got.shape != want.shape:
                return (self.id + "/matrix", "matrix has shape %r, should "
                        "have %r" % (got.shape, want.shape))
            tol = 1e-9 * max(1.0, float(np.abs(want).max(initial=0)))
            if np.abs(got - want).max(initial=0) > tol:
                return (self.id + "/matrix", "matrix is wrong, e.g. %s" % (
                    [(int(i), int(j), complex(got[i, j]),
                      complex(want[i, j]))
                     for i, j in np.argwhere(np.abs(got - want) > tol)[:3]],))
            return None
        if got != want:
            return (self.id + "/" + op["kind"], "got %s, should be %s" % (
                str(got)[:200], str(want)[:200]))
        return None

    def coverage(self, ctx, sc, history):
        out = {"rejected": 0, "left_bases": 0, "unsorted": 0, "factory": 0,
               "other_table": 0, "large": 0, "large_basis": 0, "normal": 0, "schwinger": 0,
               "spin": 0, "long": int(bool(sc.get("long"))), "matrices": 0}
        for r in history:
            op = r["op"]
            if r.get("want_reject"):
                out["rejected"] += 1
            if op["kind"] == "fermion" and r.get("exc") is None:
                out["matrices"] += 1
                if op.get("left") is not None:
                    out["left_bases"] += 1
                t = op["term"]
                if isinstance(t, dict) and t["k"] in (
                        "CP", "hop", "pair", "hubbard", "coulomb"):
                    out["factory"] += 1
                out["normal"] += isinstance(t, dict) and t["k"] == "normal"
            if op["kind"] == "basis" and op.get("sort") is False:
                out["unsorted"] += 1
            if op["kind"] == "spin":
                out["spin"] += 1
                out["schwinger"] += op["sub"] == "schwinger"
            out["large"] += op["kind"] == "large" and r.get("exc") is None
            out["large_basis"] += (
                op["kind"] == "basis" and isinstance(op["specs"][0], list)
                and isinstance(op["specs"][0][0], list)
                and len(op["specs"][0][0]) > 8)
            if op.get("perm"):
                out["other_table"] += 1
        return out

    def digest(self, rec):
        v = rec.get("value")
        if hasattr(v, "tocoo"):
            return "%r %d %.9g" % (v.shape, v.nnz, abs(v).sum())
        if isinstance(v, np.ndarray):
            return v.round(9).tobytes().hex()[:64] + str(v.shape)
        return str(v)


CHECK = C03()
