"""C13: a calculation that is divided among threads and worker processes, or
resumed from checkpoints, gives the results of the model."""

import atexit
import itertools
import os
import pickle
import subprocess
import sys
import time

import numpy as np

import lattices
import peer
import ref
import simclock
from checks.c04 import krylov_reference
from checks.c08 import HERE, Link
from runner import REPO, Check

OTHER = {0: 1, 1: 0}
# The single-particle states of a site: (spin, orbit)
FLAVOURS = [[[0, 0]], [[0, 0]], [[2, 1]], [[0, 0], [1, 0]], [[0, 0], [1, 0]],
            [[0, 0], [1, 0]], [[0, 1], [1, 1]], [[0, 0], [0, 1]],
            [[1, 0], [0, 2]], [[1, 0], [0, 0], [0, 1]],
            [[0, 0], [1, 0], [2, 0]], [[1, 3], [0, 0], [0, 3]]]
HALVES = ("hop", "pair", "mix", "corr")
EPS = (("xyz", 1), ("yzx", 1), ("zxy", 1), ("xzy", -1), ("zyx", -1),
       ("yxz", -1))


class Ctx:
    pass


def csum(mats):
    out = 0.0
    for m in mats:
        out = out + m
    return out


class C13(Check):
    id = "C13"
    quick = {"seeds": 260, "variants": 6}
    thorough = {"seeds": 7000, "variants": 12}
    real = ("lattices, bonds, tables, spaces, terms and factories, matrices, "
            "averages, Krylov projections, Green's functions, their pickles; "
            "the workers are real interpreters with other hash seeds")
    stub = ("thread scheduling, Ctrl-C, allocation failure, clock, the "
            "network to the workers (messages lost and sent again, delivered "
            "twice, workers that crash and restart), the coordinator's crash "
            "(only pickled results survive)")
    rule = ("Scenarios hold one Hubbard-like or spin model on a small "
            "lattice; 1-3 callers ask for stages of its solution (bonds, "
            "terms, matrices of parts in any sector, Hamiltonians, excited "
            "kets, averages, projections, Green's functions), each of which "
            "uses what earlier stages left in memory or on disk, or computes "
            "it, here or by a worker; between stages the coordinator may "
            "crash. Every result must be the model's own.")
    assumptions = ["a stage that was interrupted stores nothing",
                   "the workers run the same version of the code"]
    must_reach = ("peer", "reloaded", "hamiltonian", "lanczos", "exact",
                  "average", "spin", "fermion", "crash", "excite", "twice",
                  "lost", "restart")

    def seams(self, eng):
        self.eng = eng
        simclock.install(eng)

    def imports(self):
        self.paths, self.peers = [], []
        work = os.environ["HAMSIM_WORK"]
        for n, seed in enumerate(("7", "31337")):
            path = os.path.join(work, "worker%d" % n)
            self.peers.append(subprocess.Popen(
                [sys.executable, os.path.join(HERE, "peer.py"), REPO, path],
                env=dict(os.environ, PYTHONHASHSEED=seed),
                stdin=subprocess.DEVNULL))
            self.paths.append(path)
        atexit.register(self._stop)
        import HamiltonianPy  # noqa: F401
        import HamiltonianPy.averages  # noqa: F401

    def _stop(self):
        for p in self.peers:
            p.kill()
            p.wait()

    def warm(self):
        end = time.monotonic() + 240
        for p, path in zip(self.peers, self.paths):
            while not os.path.exists(path):
                if p.poll() is not None or time.monotonic() > end:
                    raise RuntimeError("a worker did not start")
                time.sleep(0.01)

    # -- scenarios -----------------------------------------------------------
    def _lattice(self, rng, most):
        while True:
            if rng.random() < 0.55:
                desc = rng.choice([
                    {"make": "cell", "which": "chain",
                     "nums": [rng.randint(2, 5), 1, 1]},
                    {"make": "cell", "which": "square",
                     "nums": [rng.randint(1, 3), rng.randint(1, 2), 1]},
                    {"make": "cell", "which": "triangle",
                     "nums": [rng.randint(1, 2), rng.randint(1, 2), 1]},
                    {"make": "cell", "which": "honeycomb",
                     "nums": [1, rng.randint(1, 2), 1]},
                    {"make": "cell", "which": "kagome", "nums": [1, 1, 1]},
                    {"make": "cell", "which": "cubic", "nums": [2, 2, 1]},
                ])
            else:
                desc = lattices.gen(rng)
            if 2 <= len(lattices.expected(desc)[0]) <= most:
                return desc

    def gen(self, rng, tier):
        fam = rng.choice(["fermion", "fermion", "spin"])
        flv = rng.choice(FLAVOURS) if fam == "fermion" else [[0, 0]]
        nf = len(flv)
        most = 5 if fam == "spin" else (None, 6, 4, 2)[nf]
        desc = self._lattice(rng, 3 if nf == 2 and rng.random() < 0.6
                             else most)
        n = len(lattices.expected(desc)[0])
        r = lambda a=2.0: round(rng.uniform(-a, a), 3)
        if fam == "fermion":
            states = [[i, f] for i in range(n) for f in range(nf)]
            kinds = {"hop": [r(), r()], "mu": [r() for _ in range(n)]}
            if nf > 1 and rng.random() < 0.8:
                kinds["U"] = r(5)
            if nf > 1 and rng.random() < 0.2:
                kinds["mix"] = [r(), r()]
            if rng.random() < 0.3:
                kinds["corr"] = r()
            if rng.random() < 0.5:
                kinds["V"] = r(3)
            if rng.random() < 0.3:
                kinds["pair"] = r()
        else:
            states = [[i] for i in range(n)]
            kinds = {"heis": r()}
            if rng.random() < 0.5:
                kinds["ising"] = [rng.choice("xyz"), r()]
            if rng.random() < 0.5:
                kinds["dm"] = r()
            if rng.random() < 0.3:
                kinds["pm"] = [r() for _ in range(n)]
            if rng.random() < 0.3:
                kinds["three"] = r()
            if n >= 3 and rng.random() < 0.3:
                kinds["chiral"] = r()
            kinds["field"] = [[rng.choice("xyz"), r()] for _ in range(n)]
        order = rng.sample(range(len(states)), len(states))
        sc = {"fam": fam, "lat": desc, "n": n, "states": states,
              "order": order, "kinds": kinds, "flavours": flv,
              "nth": rng.choice([1, 1, 1, 2]), "only": rng.random() < 0.7,
              "flux": [r(1.5) for _ in range(3)],
              "odd": [r() for _ in range(3)],
              "named": rng.random() < 0.5, "threads": {}}
        num = 0
        for t in range(rng.choice([1, 2, 2, 3])):
            ops = []
            for _ in range(rng.randint(2, 5)):
                ops.append(dict(self._op(rng, sc), id=str(num)))
                num += 1
            sc["threads"]["T%d" % t] = ops
        sc["settle"] = [dict(self._op(rng, sc, k), id="s%d" % i)
                        for i, k in enumerate(("hamiltonian", "gf", "bonds"))]
        return sc

    def _sector(self, rng, sc, full=False):
        """A sector: list of [states as scenario numbers, particles]."""
        n = len(sc["states"])
        if sc["fam"] == "spin" or full or "pair" in sc["kinds"]:
            return "full"
        r = rng.random()
        if r < 0.2 and n <= 6:
            return "full"
        nf = len(sc["flavours"])
        if nf == 1 or r < 0.5 or "mix" in sc["kinds"]:
            return [rng.randint(0, n)]
        return [rng.randint(0, n // nf) for _ in range(nf)]

    def _op(self, rng, sc, kind=None):
        spin = sc["fam"] == "spin"
        kind = kind or rng.choice(
            ["bonds", "part", "part", "part", "hamiltonian", "hamiltonian",
             "excite", "average", "average", "gf", "gf", "gf", "crash"])
        op = {"kind": kind, "where": rng.choice([None, None, None, 0, 1]),
              "save": rng.random() < 0.7}
        op["sector"] = self._sector(rng, sc)
        if kind in ("part", "average"):
            op["part"] = rng.choice(sorted(sc["kinds"]))
            op["ket"] = rng.randrange(1000)
            op["native"] = rng.random() < 0.4
            op["space"] = rng.random() < 0.5
            op["total"] = spin and rng.random() < 0.5
        if kind == "hamiltonian":
            op["herm"] = rng.choice(["getH", "dagger", "conj"])
        if kind in ("excite", "gf"):
            m = len(sc["states"])
            otype = rng.choice("xyzpm") if spin else rng.randint(0, 1)
            op["otype"] = otype
            if not spin:
                # every operator must lead to one and the same sector
                spins = sorted({s[1] for s in sc["states"]})
                s = rng.choice(spins)
                pool = [i for i in range(m) if sc["states"][i][1] == s]
                if op["sector"] != "full":
                    if len(op["sector"]) == 1:
                        pool = list(range(m))
                        cap, i = m, 0
                    else:
                        cap, i = m // len(sc["flavours"]), s
                    k = op["sector"][i]
                    op["sector"][i] = min(k, cap - 1) if otype else max(k, 1)
            else:
                pool = list(range(m))
            op["A"] = rng.sample(pool, rng.randint(1, min(2, len(pool))))
            op["B"] = rng.sample(pool, rng.randint(1, min(2, len(pool))))
        if kind == "gf":
            op["exact"] = rng.random() < 0.4
            op["dim"] = rng.choice([2, 4, 6, 9, 12])
            op["sign"] = rng.choice(["+", "-"])
            op["multi"] = rng.random() < 0.6
            op["structure"] = rng.choice(["array", "dict"])
            op["eta"] = rng.choice([0.2, 0.5, 1.0])
            op["w"] = [round(rng.uniform(-6, 6), 2)
                       for _ in range(rng.randint(1, 3))]
            op["retarded"] = (op["sector"] == "full" and rng.random() < 0.4)
        return op

    def fault_kinds(self, sc):
        kinds = ["interrupt", "memory"]
        if any(op["where"] is not None for t in sc["threads"].values()
               for op in t):
            kinds += ["lost", "twice", "restart", "restart"]
        return kinds

    def device_action(self, rng, kind):
        return "net", {"after": rng.random() < 0.5}

    # -- the run -------------------------------------------------------------
    def start(self, eng, sc):
        ctx = Ctx()
        ctx.sc = sc
        ctx.mem, ctx.disk = {}, {}
        ctx.links = [Link(p) for p in self.paths]
        ctx.probe = {sc["fam"]: 1}
        ctx.memo = {}
        pts, vec = lattices.expected(sc["lat"])
        ctx.model = ref.LatticeModel(pts, vec)
        return ctx

    def _hit(self, ctx, name):
        ctx.probe[name] = ctx.probe.get(name, 0) + 1

    def call(self, ctx, op):
        return getattr(self, "_do_" + op["kind"])(ctx, op)

    def get(self, ctx, op, name, *args):
        """A stage's result: from memory, from disk, or computed now."""
        key = repr((name,) + args)
        if key in ctx.mem:
            return ctx.mem[key]
        if key in ctx.disk:
            self._hit(ctx, "reloaded")
            value = pickle.loads(ctx.disk[key])
        else:
            value = getattr(self, "_make_" + name)(ctx, op, *args)
            if op["save"]:
                ctx.disk[key] = pickle.dumps(value)
        ctx.mem[key] = value
        return value

    def _make_lattice(self, ctx, op):
        return lattices.build(ctx.sc["lat"])

    def _make_points(self, ctx, op):
        """Scenario number of a point -> its coordinates in the lattice."""
        lat = self.get(ctx, op, "lattice")
        out = []
        for p in ctx.model.points:
            d = np.sqrt(((np.asarray(lat.points) - p) ** 2).sum(-1))
            out.append(lat.points[int(d.argmin())])
        return out

    def _make_bonds(self, ctx, op):
        lat = self.get(ctx, op, "lattice")
        return lat.bonds(nth=ctx.sc["nth"], only=ctx.sc["only"])

    def _key(self, ctx, op, i):
        from HamiltonianPy.quantumoperator import SiteID, StateID
        s = ctx.sc["states"][i]
        site = self.get(ctx, op, "points")[s[0]]
        if ctx.sc["fam"] == "spin":
            return SiteID(site)
        spin, orbit = ctx.sc["flavours"][s[1]]
        return StateID(site, spin=spin, orbit=orbit)

    def _make_table(self, ctx, op):
        from HamiltonianPy.indextable import IndexTable
        return IndexTable(self._key(ctx, op, i) for i in ctx.sc["order"])

    def _specs(self, ctx, op, sector):
        """The sector as specifiers, states numbered by the table."""
        sc = ctx.sc
        if sector == "full":
            return [len(sc["states"])]
        table = self.get(ctx, op, "table")
        if len(sector) == 1:
            return [[len(sc["states"]), sector[0]]]
        out = []
        for s in range(len(sc["flavours"])):
            st = [table(self._key(ctx, op, i))
                  for i in range(len(sc["states"])) if sc["states"][i][1] == s]
            out.append([st, sector[s]])
        return out

    def _make_space(self, ctx, op, sector):
        from HamiltonianPy.hilbertspace import HilbertSpace
        return HilbertSpace(*self._specs(ctx, op, sector))

    def _make_basis(self, ctx, op, sector):
        return self.get(ctx, op, "space", sector).base_vectors()

    def _folded(self, ctx, op, bond):
        """Both ends as points of the cluster, and the way between them."""
        lat = self.get(ctx, op, "lattice")
        p0, p1 = bond.endpoints
        ends = [lat.getSite(lat.getIndex(p, fold=True)) if k % 2 == 0
                else lat.decompose(p)[0] for k, p in enumerate((p0, p1))]
        return ends[0], ends[1], np.asarray(p1) - np.asarray(p0)

    def _make_terms(self, ctx, op, kind):
        """The terms of one kind; of hopping and pairing only one half."""
        from HamiltonianPy import quantumoperator as Q
        sc = ctx.sc
        par = sc["kinds"][kind]
        terms = []
        flv = sc["flavours"]
        if kind in ("mu", "U", "field", "mix", "pm", "chiral"):
            pts = self.get(ctx, op, "points")
            if kind == "chiral":
                for abc, sign in EPS:
                    x, y, z = (Q.SpinOperator(a, p)
                               for a, p in zip(abc, pts))
                    terms.append(sign * par * z * (x * y))
                return terms
            for i, p in enumerate(pts):
                if kind == "field":
                    terms.append(Q.SpinInteraction(
                        [Q.SpinOperator(par[i][0], p)], par[i][1]))
                elif kind == "pm":
                    terms.append(par[i] * Q.SpinOperator("p", p)
                                 * Q.SpinOperator("m", p))
                elif kind == "mix":
                    (s, u), (t, v) = flv[:2]
                    terms.append(Q.HoppingFactory(
                        p, p, spin0=s, orbit0=u, spin1=t, orbit1=v,
                        coeff=complex(*par)))
                elif kind == "U":
                    for (s, u), (t, v) in itertools.combinations(flv, 2):
                        if u == v and (s, t) == (0, 1):
                            terms.append(Q.HubbardFactory(p, orbit=u,
                                                          coeff=par))
                        else:
                            terms.append(Q.CoulombFactory(
                                p, p, spin0=s, orbit0=u, spin1=t, orbit1=v,
                                coeff=par))
                else:
                    for s, u in flv:
                        terms.append(Q.CPFactory(p, spin=s, orbit=u,
                                                 coeff=par[i]))
            return terms
        intra, inter = self.get(ctx, op, "bonds")
        dim = ctx.model.points.shape[1]
        flux, odd = np.array(sc["flux"][:dim]), np.array(sc["odd"][:dim])
        for bond in intra + inter:
            p0, p1, d = self._folded(ctx, op, bond)
            if kind == "hop":
                t = complex(*par) * 0 + par[0] * np.exp(1j * np.dot(flux, d))
                for s, u in flv:
                    terms.append(Q.HoppingFactory(
                        p1, p0, spin0=s, orbit0=u, coeff=complex(t)))
            elif kind == "corr":
                for f, (s, u) in enumerate(flv):
                    t, v = flv[(f + 1) % len(flv)]
                    for p in (p0, p1):
                        terms.append(Q.HoppingFactory(
                            p1, p0, spin0=s, orbit0=u, coeff=par)
                            * Q.CPFactory(p, spin=t, orbit=v))
            elif kind == "V":
                for s, u in flv:
                    for t, v in flv:
                        terms.append(Q.CoulombFactory(
                            p0, p1, spin0=s, orbit0=u, spin1=t, orbit1=v,
                            coeff=par))
            elif kind == "pair":
                s, u = flv[0]
                terms.append(Q.PairingFactory(
                    p0, p1, which="p", spin0=s, spin1=s, orbit0=u, orbit1=u,
                    coeff=par * float(np.dot(odd, d))))
            elif kind == "three":
                x, y, z = (Q.SpinOperator("z", p) for p in (
                    p0, self.get(ctx, op, "points")[0], p1))
                terms.append(par * (x * y) * z)
            elif kind == "heis":
                terms.extend(Q.HeisenbergFactory(p0, p1, coeff=par))
            elif kind == "ising":
                terms.append(Q.IsingFactory(p0, p1, par[0], coeff=par[1]))
            elif np.abs(p0 - p1).max() > 1e-6:
                c = par * float(np.dot(odd, d))
                terms.append(Q.TwoSpinTermFactory(p0, p1, "x", "y", coeff=c))
                terms.append(-1 * Q.TwoSpinTermFactory(
                    p0, p1, "y", "x", coeff=c))
        return terms

    def _native(self, ctx, op):
        """The table as plain data."""
        pts = self.get(ctx, op, "points")
        out = []
        for i in ctx.sc["order"]:
            s = ctx.sc["states"][i]
            c = tuple(float(x) for x in pts[s[0]])
            out.append(["site", c] if ctx.sc["fam"] == "spin"
                       else ["state", c] + ctx.sc["flavours"][s[1]])
        return out

    def _ask(self, ctx, n, msg):
        """A task for a worker, over the simulated network."""
        self._hit(ctx, "peer")
        act = self.eng.device_fault("net")
        kind = act["kind"] if act else None
        if kind:
            self._hit(ctx, kind)
        if kind == "restart":
            if act["after"]:
                ctx.links[n].ask(msg)
            ctx.links[n].crash()
        if kind == "lost":
            ctx.links[n].ask({"op": "nothing"})
        if kind == "twice":
            first = ctx.links[n].ask(msg)
        status, out = ctx.links[n].ask(msg)
        if status != "ok":
            raise RuntimeError("the worker failed: " + out)
        if kind == "twice" and first[0] != "ok":
            raise RuntimeError("the worker failed once: " + first[1])
        return out

    def _make_part(self, ctx, op, kind, sector):
        terms = self.get(ctx, op, "terms", kind)
        if op["where"] is not None:
            spin = ctx.sc["fam"] == "spin"
            msg = {"op": "part", "data": pickle.dumps(
                (terms, None if op.get("native")
                 else self.get(ctx, op, "table"),
                 self.get(ctx, op, "space", sector)
                 if op.get("space") and not spin else None)),
                "native": self._native(ctx, op),
                "specs": None if spin else self._specs(ctx, op, sector)}
            return pickle.loads(self._ask(ctx, op["where"], msg))
        table = self.get(ctx, op, "table")
        if ctx.sc["fam"] == "spin":
            return csum(t.matrix_repr(table) for t in terms)
        basis = self.get(ctx, op, "basis", sector)
        return csum(t.matrix_repr(table, basis) for t in terms)

    def _half(self, ctx, op, kind, sector, how):
        """Part of the Hamiltonian, completed with its conjugate."""
        m = self.get(ctx, op, "part", kind, sector)
        if kind not in HALVES or isinstance(m, float):
            return m
        if how == "getH":
            return m + m.getH()
        if how == "conj":
            return m + m.conjugate().transpose()
        table = self.get(ctx, op, "table")
        basis = self.get(ctx, op, "basis", sector)
        return m + csum(t.dagger().matrix_repr(table, basis)
                        for t in self.get(ctx, op, "terms", kind))

    def _make_ham(self, ctx, op, sector, how):
        out = csum(self._half(ctx, op, k, sector, how)
                   for k in sorted(ctx.sc["kinds"]))
        return out

    # -- operations ------------------------------------------------------------
    def _do_crash(self, ctx, op):
        """The coordinator dies; what is on disk survives."""
        ctx.mem = {}
        self._hit(ctx, "crash")
        return None

    def _do_bonds(self, ctx, op):
        intra, inter = self.get(ctx, op, "bonds")
        lat = self.get(ctx, op, "lattice")
        return [[[np.asarray(p).tolist() for p in b.endpoints]
                 + [lat.getIndex(p, fold=True) for p in b.endpoints]
                 for b in bs] for bs in (intra, inter)]

    @staticmethod
    def _dense(m):
        return m if isinstance(m, float) else np.asarray(m.toarray(),
                                                         dtype=complex)

    def _do_part(self, ctx, op):
        return self._dense(self._whole(ctx, op))

    def _whole(self, ctx, op):
        """A part whose value does not depend on which way bonds point."""
        m = self.get(ctx, op, "part", op["part"], op["sector"])
        if op["part"] in ("hop", "corr") and not isinstance(m, float):
            m = m + m.getH()
        return m

    def _do_hamiltonian(self, ctx, op):
        self._hit(ctx, "hamiltonian")
        return self._dense(self.get(ctx, op, "ham", op["sector"],
                                    op["herm"]))

    def _size(self, ctx, sector):
        return 1 << ctx.sc["n"] if ctx.sc["fam"] == "spin" else len(
            self._kets(ctx, sector))

    def _ket(self, ctx, op):
        rng = np.random.RandomState(op["ket"])
        n = self._size(ctx, op["sector"])
        return rng.randn(n) + 1j * rng.randn(n)

    def _do_average(self, ctx, op):
        from HamiltonianPy import averages
        self._hit(ctx, "average")
        ket = self._ket(ctx, op)
        if op["total"]:
            return [complex(x) for x in
                    averages.TotalSpinAverages(ctx.sc["n"])(ket)]
        m = self._whole(ctx, op)
        if isinstance(m, float):
            return [0.0]
        return [complex(averages.QuantumAverages(ket, m))]

    def _to(self, op, conj=False):
        """The sector the operators lead to."""
        s = op["sector"]
        if s == "full":
            return s
        i = 0 if len(s) == 1 else self._spin_of(op)
        out = list(s)
        out[i] += 1 if op["otype"] else -1
        return out

    def _spin_of(self, op):
        return op["spin"]

    def _operator(self, ctx, op, i, conj=False):
        from HamiltonianPy import quantumoperator as Q
        site = self.get(ctx, op, "points")[ctx.sc["states"][i][0]]
        if ctx.sc["fam"] == "spin":
            x = Q.SpinOperator(op["otype"], site)
        else:
            spin, orbit = ctx.sc["flavours"][ctx.sc["states"][i][1]]
            x = Q.AoC(op["otype"], site, spin=spin, orbit=orbit)
        return x.dagger() if conj else x

    def _ground(self, ctx, sector):
        """Ground state of the reference Hamiltonian."""
        key = "ground", repr(sector)
        if key not in ctx.memo:
            lev, u = np.linalg.eigh(self._ref_ham(ctx, sector))
            ctx.memo[key] = float(lev[0]), u[:, 0]
        return ctx.memo[key]

    def _make_excited(self, ctx, op, i, otype, sector, to):
        table = self.get(ctx, op, "table")
        _, psi = self._ground(ctx, sector)
        x = self._operator(ctx, dict(op, otype=otype), i)
        if ctx.sc["fam"] == "spin":
            m = x.matrix_repr(table)
        else:
            m = x.matrix_repr(table, self.get(ctx, op, "basis", sector),
                              left_bases=self.get(ctx, op, "basis", to))
        return m.dot(psi)

    def _with_spin(self, ctx, op):
        if ctx.sc["fam"] == "spin":
            return op
        return dict(op, spin=ctx.sc["states"][op["B"][0]][1])

    def _do_excite(self, ctx, op):
        op = self._with_spin(ctx, op)
        self._hit(ctx, "excite")
        return [self.get(ctx, op, "excited", i, op["otype"], op["sector"],
                         self._to(op)) for i in op["B"]]

    def _names(self, ctx, op):
        """Operators B and A+ (same type), and for retarded ones A, B+."""
        conj = {"p": "m", "m": "p", 0: 1, 1: 0}.get(op["otype"], op["otype"])
        names = [(i, op["otype"]) for i in op["B"] + op["A"]]
        if op["retarded"]:
            names += [(i, conj) for i in op["A"] + op["B"]]
        return names, conj

    def _make_projections(self, ctx, op, names, sector, to, dim):
        from HamiltonianPy.lanczos import MultiKrylov
        kets = self._excited(ctx, op, names, sector, to)
        h = self.get(ctx, op, "ham", to, "getH")
        if op["where"] is not None:
            msg = {"op": "krylov", "dim": dim,
                   "data": pickle.dumps((h, kets))}
            return pickle.loads(self._ask(ctx, op["where"], msg))
        return MultiKrylov(h, kets, krylov_space_dim=dim)

    def _excited(self, ctx, op, names, sector, to):
        out = {}
        for i, o in names:
            x = self._operator(ctx, dict(op, otype=o), i)
            out[x] = self.get(ctx, op, "excited", i, o, sector, to)
        return out

    def _do_gf(self, ctx, op):
        import HamiltonianPy as HP
        op = self._with_spin(ctx, op)
        to = self._to(op)
        names, conj = self._names(ctx, op)
        ge, _ = self._ground(ctx, op["sector"])
        # A annihilates what B creates: A = (operator of B's type)+
        A = [self._operator(ctx, op, i, True) for i in op["A"]]
        B = [self._operator(ctx, op, i) for i in op["B"]]
        f = getattr(HP, "%sGFSolver%s%s" % (
            "R" if op["retarded"] else "",
            "Exact" if op["exact"] else "Lanczos",
            "Multiple" if op["multi"] else "Single"))
        if op["exact"]:
            self._hit(ctx, "exact")
            h = self.get(ctx, op, "ham", to, "getH")
            data = (np.asarray(h.toarray()),
                    self._excited(ctx, op, names, op["sector"], to))
        else:
            self._hit(ctx, "lanczos")
            data = self.get(ctx, op, "projections", names, op["sector"], to,
                            op["dim"])
        kw = {"eta": op["eta"], "sign": op["sign"]}
        if op["multi"]:
            v = f(np.array(op["w"]), A, B, ge, *data,
                  structure=op["structure"], **kw)
            if op["structure"] == "dict":
                v = [[v[a, b] for b in B] for a in A]
            return np.array(v)
        return np.array([[[f(w, a, b, ge, *data, **kw) for w in op["w"]]
                          for b in B] for a in A])

    # -- the model's own results -------------------------------------------------
    def _kets(self, ctx, sector):
        sc = ctx.sc
        n = len(sc["states"])
        if sector == "full":
            return list(range(1 << n))
        if len(sector) == 1:
            return ref.basis([(range(n), sector[0])])
        return ref.basis([
            ([sc["order"].index(i) for i in range(n)
              if sc["states"][i][1] == s], sector[s])
            for s in range(len(sector))])

    def _bonds_ref(self, ctx):
        if "bonds" not in ctx.memo:
            sc = ctx.sc
            ds = ctx.model.distances(sc["nth"] + 1)
            low = ds[sc["nth"] - 1] if sc["only"] else 0.0
            intra, inter = ctx.model.bonds(low, ds[sc["nth"]])
            zero = (0,) * len(ctx.model.vectors)
            ctx.memo["bonds"] = [(i, j, zero) for i, j in intra] + inter
        return ctx.memo["bonds"]

    def _ref_part(self, ctx, kind, sector):
        """One part (without the conjugate half) by definition."""
        key = "part", kind, repr(sector)
        if key in ctx.memo:
            return ctx.memo[key]
        sc, par = ctx.sc, ctx.sc["kinds"][kind]
        num = {tuple(s): sc["order"].index(i)
               for i, s in enumerate(sc["states"])}
        pts, vec = ctx.model.points, ctx.model.vectors
        dim = pts.shape[1]
        flux, odd = np.array(sc["flux"][:dim]), np.array(sc["odd"][:dim])
        spins = range(len(sc["flavours"]))
        terms = []
        if kind == "mu":
            terms = [(par[i], [(num[i, s], 1), (num[i, s], 0)])
                     for i in range(sc["n"]) for s in spins]
        elif kind == "U":
            terms = [(par, [(num[i, s], 1), (num[i, s], 0),
                            (num[i, u], 1), (num[i, u], 0)])
                     for i in range(sc["n"])
                     for s, u in itertools.combinations(spins, 2)]
        elif kind == "mix":
            terms = [(complex(*par), [(num[i, 0], 1), (num[i, 1], 0)])
                     for i in range(sc["n"])]
        elif kind == "pm":
            terms = [(par[i], [(num[i,], "p"), (num[i,], "m")])
                     for i in range(sc["n"])]
        elif kind == "chiral":
            terms = [(par * sign, [(num[i,], a) for i, a in enumerate(abc)])
                     for abc, sign in EPS]
        elif kind == "field":
            terms = [(par[i][1], [(num[i,], par[i][0])])
                     for i in range(sc["n"])]
        else:
            for i, j, c in self._bonds_ref(ctx):
                d = pts[j] + np.array(c, dtype=float) @ vec - pts[i]
                if kind == "hop":
                    t = par[0] * np.exp(1j * np.dot(flux, d))
                    terms += [(t, [(num[j, s], 1), (num[i, s], 0)])
                              for s in spins]
                elif kind == "V":
                    terms += [(par, [(num[i, s], 1), (num[i, s], 0),
                                     (num[j, u], 1), (num[j, u], 0)])
                              for s in spins for u in spins]
                elif kind == "corr":
                    terms += [(par, [(num[j, s], 1), (num[i, s], 0),
                                     (num[k, u], 1), (num[k, u], 0)])
                              for s in spins for u in [
                                  (s + 1) % len(spins)] for k in (i, j)]
                elif kind == "three":
                    terms.append((par, [(num[k,], "z") for k in (i, 0, j)]))
                elif kind == "pair":
                    terms.append((par * np.dot(odd, d),
                                  [(num[i, 0], 1), (num[j, 0], 1)]))
                elif kind == "heis":
                    terms += [(par, [(num[i,], a), (num[j,], a)])
                              for a in "xyz"]
                elif kind == "ising":
                    terms.append((par[1], [(num[i,], par[0]),
                                           (num[j,], par[0])]))
                elif i != j:
                    x = par * np.dot(odd, d)
                    terms += [(x, [(num[i,], "x"), (num[j,], "y")]),
                              (-x, [(num[i,], "y"), (num[j,], "x")])]
        if sc["fam"] == "spin":
            out = sum((c * ref.spin_matrix(t, sc["n"]) for c, t in terms),
                      np.zeros([1 << sc["n"]] * 2, dtype=complex))
        else:
            kets = self._kets(ctx, sector)
            out = np.zeros([len(kets)] * 2, dtype=complex)
            for c, t in terms:
                out += c * ref.fermion_matrix(t, kets)
        ctx.memo[key] = out
        return out

    def _ref_whole(self, ctx, op):
        m = self._ref_part(ctx, op["part"], op["sector"])
        return m + m.conj().T if op["part"] in ("hop", "corr") else m

    def _ref_ham(self, ctx, sector):
        out = 0
        for kind in ctx.sc["kinds"]:
            m = self._ref_part(ctx, kind, sector)
            if kind in HALVES:
                m = m + m.conj().T
            out = out + m
        return out

    def _ref_excited(self, ctx, i, otype, sector, to):
        _, psi = self._ground(ctx, sector)
        j = ctx.sc["order"].index(i)
        if ctx.sc["fam"] == "spin":
            return ref.spin_matrix([(j, otype)], ctx.sc["n"]) @ psi
        return ref.fermion_matrix([(j, otype)], self._kets(ctx, sector),
                                  self._kets(ctx, to)) @ psi

    # -- verdicts ------------------------------------------------------------
    def judge(self, ctx, rec):
        op, kind = rec["op"], rec["op"]["kind"]
        if rec["exc"] is not None:
            if rec["injected"]:
                return None
            if kind == "gf" and not op["exact"] and \
                    rec["exc"][0] in ("ValueError", "RuntimeError") and \
                    self._zero(ctx, op):
                return None       # a zero ket cannot start a projection
            return (self.id + "/raised", "%s raised %s: %s" % (
                (kind,) + tuple(rec["exc"])))
        return getattr(self, "_judge_" + kind)(ctx, op, rec["value"])

    def _bad(self, what, msg):
        return (self.id + "/" + what, msg)

    def _judge_crash(self, ctx, op, v):
        return None

    def _judge_bonds(self, ctx, op, v):
        got = []
        for bs in v:
            for p0, p1, i0, i1 in bs:
                a, b = ctx.model.locate(p0), ctx.model.locate(p1)
                if a is None or b is None:
                    return self._bad("bonds", "%s-%s is off" % (p0, p1))
                c = tuple(y - x for x, y in zip(a[1], b[1]))
                got.append(ctx.model.canon(a[0], b[0], c))
        want = [ctx.model.canon(*b) for b in self._bonds_ref(ctx)]
        if sorted(got) != sorted(want):
            return self._bad("bonds", "%d bonds, %d exist" % (
                len(got), len(want)))
        return None

    def _near(self, what, got, want, tol=1e-8):
        if isinstance(got, float) and got == 0.0:
            got = np.zeros_like(want)
        got = np.asarray(got)
        if got.shape != want.shape:
            return self._bad(what, "shape %s instead of %s" % (
                got.shape, want.shape))
        gap = np.abs(got - want).max(initial=0)
        if not gap <= tol * max(1.0, np.abs(want).max(initial=0)):
            return self._bad(what, "off by %.3g" % gap)
        return None

    def _judge_part(self, ctx, op, v):
        return self._near("part", v, self._ref_whole(ctx, op))

    def _judge_hamiltonian(self, ctx, op, v):
        return self._near("hamiltonian", v, self._ref_ham(ctx, op["sector"]))

    def _judge_average(self, ctx, op, v):
        ket = self._ket(ctx, op)
        norm = np.vdot(ket, ket)
        if op["total"]:
            n = ctx.sc["n"]
            s = [sum(ref.spin_matrix([(i, a)], n) for i in range(n))
                 for a in "xyz"]
            s2 = sum(m @ m for m in s)
            want = [np.vdot(ket, m @ ket) / norm for m in [s2] + s]
        else:
            m = self._ref_whole(ctx, op)
            want = [np.vdot(ket, m @ ket) / norm]
        return self._near("average", np.array(v), np.array(want))

    def _judge_excite(self, ctx, op, v):
        op = self._with_spin(ctx, op)
        for i, x in zip(op["B"], v):
            bad = self._near("excited", x, self._ref_excited(
                ctx, i, op["otype"], op["sector"], self._to(op)))
            if bad:
                return bad
        return None

    def _pieces(self, ctx, op):
        op = self._with_spin(ctx, op)
        names, conj = self._names(ctx, op)
        to = self._to(op)
        h = self._ref_ham(ctx, to)
        kets = {n: self._ref_excited(ctx, n[0], n[1], op["sector"], to)
                for n in names}
        return h, kets, conj

    def _zero(self, ctx, op):
        _, kets, _ = self._pieces(ctx, op)
        return any(np.linalg.norm(k) < 1.1e-4 for k in kets.values())

    def _judge_gf(self, ctx, op, v):
        h, kets, conj = self._pieces(ctx, op)
        ge, _ = self._ground(ctx, op["sector"])
        shape = (len(op["A"]), len(op["B"]), len(op["w"]))
        if v.shape != shape:
            return self._bad("gf", "shape %s" % (v.shape,))
        proj = {}
        if not op["exact"]:
            for n, k in kets.items():
                if np.linalg.norm(k) < 1e-2:
                    return None
                t, q, ok = krylov_reference(h, k, op["dim"])
                if not ok:
                    self._hit(ctx, "ill_posed")
                    return None
                proj[n] = t, q

        def term(bra, ket, z, sign):
            if op["exact"]:
                m, x, y = h, kets[ket], kets[bra]
            else:
                m, q = proj[ket]
                x, y = q.conj() @ kets[ket], q.conj() @ kets[bra]
            lev, u = np.linalg.eigh(m)
            den = z + (lev - ge) if sign == "+" else z - (lev - ge)
            return np.sum((y.conj() @ u) * (u.conj().T @ x) / den)

        o = op["otype"]
        for a, i in enumerate(op["A"]):
            for b, j in enumerate(op["B"]):
                for k, w in enumerate(op["w"]):
                    z = w + 1j * op["eta"]
                    if op["retarded"]:
                        # A is the conjugate of an operator of B's type
                        x = term((i, o), (j, o), z, "-")
                        y = term((j, conj), (i, conj), z, "+")
                        want = x + y if op["sign"] == "+" else x - y
                    else:
                        want = term((i, o), (j, o), z, op["sign"])
                    if not abs(v[a, b, k] - want) <= 1e-6 * max(
                            1.0, abs(want)):
                        return self._bad("gf", "G at %g is %s instead of %s"
                                         % (w, v[a, b, k], want))
        return None

    def finish(self, eng, ctx, sc, history):
        for link in ctx.links:
            if link.conn is not None:
                link.crash()
        return []

    def coverage(self, ctx, sc, history):
        return dict(ctx.probe)

    def digest(self, rec):
        v = rec.get("value")
        if isinstance(v, np.ndarray):
            return repr(v.shape)
        return None if rec["op"]["kind"] in ("gf", "average") else str(
            type(v))


CHECK = C13()
