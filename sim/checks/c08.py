"""C08: identity survives time (precision changes), copying and transport."""

import atexit
import copy
import itertools
import json
import os
import pickle
import socket
import subprocess
import sys
import time

from runner import Check, HarnessError, in_child, REPO
import objs
import peer
import simclock

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRECS = [1, 4, 6, 9]
FORMS = ["tuple", "list", "array", "scalars"]
R3 = 3 ** 0.5 / 2
SITES = [[0, 0], [0.0, 0.0], [1, 0], [0, 1], [-1, 0.5], [0.5, R3],
         [1 / 3, 2 / 3], [0.3, 0.25], [0.1 + 0.2, 0.25], [1e-5, 0.0],
         [1.00004, 0.0], [-0.5, -R3], [1, 0, 0], [0.5], [2, 0],
         [-1e-4, 0], [-2e-4, 0], [-0.1, 0.0], [-0.2, 0.0],
         # far away, and in one and three dimensions
         [12345.678, -0.5], [12345.679, -0.5], [-3e5, 70000.25],
         [0, 0, 1.5], [0, 0, -1.5], [0.25, 0, 1.5], [-7.5], [100.25],
         # mirror images, and the same in one coordinate or another
         [-1, 0], [0, -1], [1, -0.5], [0.5, -R3], [0, 1.5, 0], [0, 0.5, 1.5]]
CLASSES = {
    "site": [["site", s] for s in SITES],
    "state": [["state", s, i % 2, (i // 4) % 2]
              for i, s in enumerate(SITES)] + [["state", [0, 0], 1, 0],
                                               ["state", [0, 0], 0, 1]]
    + [["state", [1, 0], p, o] for p, o in (
        (2, 0), (0, 2), (3, 0), (1, 2), (2, 1), (0, 11), (11, 0), (257, 1))],
    "aoc": [["aoc", o, SITES[i], k % 2, 0] for k, (o, i) in enumerate(
        itertools.product((0, 1), (0, 1, 2, 5, 9, 15, 16)))]
    + [["aoc", 1 - k % 2, [1, 0], p, o] for k, (p, o) in enumerate(
        ((0, 3), (2, 0), (2, 1), (0, 2), (0, 3)))]
    + [["aoc", o, SITES[i], 1, 0] for o, i in (
        (1, 19), (0, 20), (0, 19), (1, 22), (0, 22), (1, 23), (1, 25))],
    "number": [["number", s, i % 2, 0] for i, s in enumerate(SITES[:9])] + [
                   ["number", SITES[i], 0, 0] for i in (
                       15, 16, 17, 18, 19, 20, 22, 23, 25)]
    + [["number", [1, 0], p, o] for p, o in (
        (2, 0), (0, 2), (2, 1), (0, 11), (11, 0))],
    "spin": [["spin", o, SITES[i]] for o, i in itertools.product(
        "xyzpm", (0, 1, 5))] + [["spin", "z", SITES[i]]
                                         for i in (15, 16)]
    + [["spin", o, SITES[i]] for o, i in itertools.product(
        "zp", (19, 20, 22, 23, 25))] + [["spin", "m", SITES[22]]],
    "bond": [["bond", SITES[i], SITES[j], d] for i, j, d in (
        (0, 2, True), (2, 0, True), (0, 2, False), (2, 0, False),
        (1, 10, True), (5, 6, False), (6, 5, False), (0, 9, True),
        (0, 1, True), (15, 0, True), (16, 0, True), (13, 13, True), (7, 8, True), (8, 7, False),
        (8, 7, True), (0, 16, True), (10, 1, True),
        (22, 23, True), (23, 22, True), (22, 24, True), (22, 24, False),
        (24, 22, False), (19, 20, True), (20, 19, True), (19, 21, False),
        (25, 26, True), (26, 25, True), (26, 25, False), (13, 25, True))]
    # ends that share a coordinate, a length or a sum
    + [["bond", SITES[k[0]], SITES[k[1]], False]
       for i, j in ((0, 3), (3, 28), (2, 27), (4, 29), (5, 30), (2, 3),
                    (22, 23), (31, 32), (22, 31), (25, 26), (16, 28))
       for k in ((i, j), (j, i))],
}
STATES = [["state", s, 0, 0] for s in ([0, 0], [1, 0], [0.5, R3])]
SPINS = [["site", s] for s in ([0, 0], [1, 0], [0.5, R3])]
AOCS = [["aoc", o, s, 0, 0] for s in ([0, 0], [1, 0], [0.5, R3])
        for o in (1, 0)]
COMPOUND = [
    ["table", [["spin", o, s] for o in "xyz" for s in ([0, 0], [1, 0])], 0],
    ["table", STATES, 2],
    ["table", AOCS, 0],
    ["table", [CLASSES["bond"][i] for i in (0, 1, 2, 5)], 0],
    ["table", CLASSES["number"][2:6], 1],
    ["table", [["state", [i % 7, 0.5 * (i // 7)], i % 2, i // 14]
               for i in range(42)], 0],
    ["table", [["site", [-0.5 * i]] for i in range(33)], 5],
    ["term", [AOCS[0], AOCS[3]], 1.5],
    ["term", [AOCS[2], AOCS[3], AOCS[0], AOCS[1]], -2.0],
    ["term", [AOCS[1], AOCS[4]], 0.5],
    ["interaction", [["spin", "x", [0, 0]], ["spin", "y", [1, 0]]], 2.0],
    ["interaction", [["spin", "p", [0.5, R3]], ["spin", "z", [0, 0]]], 1.0],
    ["lattice", "square", 2, 1], ["lattice", "triangle", 1, 1],
    ["space", [[[3, 0], 1], [[1, 2], 1]]], ["space", [[[0, 1, 2], 2]]],
    ["space", [[[5, 1], 1], [[0, 2], -1], [[4, 3], 1]]], ["space", [4]],
    ["space", [[[0], 0], [[1], 1], [[3, 2], 1], [[6, 4, 5], 2]]],
    ["simple", [4, 0, 7], 2], ["simple", 3],
    # operators on the same site do not commute
    ["interaction", [["spin", "p", [1, 0]], ["spin", "m", [1, 0]]], 1.5],
    ["interaction", [["spin", "z", [1, 0]], ["spin", "m", [1, 0]],
                     ["spin", "x", [0, 0]], ["spin", "y", [1, 0]]],
     [1.5, -2.0]],
    ["interaction", [["spin", "y", [1, 0]]], [1.0, 1e-9]],
    ["term", [AOCS[0], AOCS[3]], [1.5, 2e-9]],
    ["term", [AOCS[3], AOCS[2]], [0.0, -1.0]],
    ["term", [AOCS[0], AOCS[1], AOCS[2], AOCS[5], AOCS[3]], 3],
    ["factory", "HoppingFactory", [[0, 0], [1, 0]],
     {"spin0": 1, "orbit0": 2, "coeff": [0.5, 1e-10]}],
    ["factory", "HubbardFactory", [[1, 0]], {"orbit": 1, "coeff": 2.5}],
    ["factory", "CPFactory", [[1, 0]], {"spin": 1, "orbit": 1}],
    ["factory", "CoulombFactory", [[1, 0], [1, 0]],
     {"spin1": 1, "orbit0": 1, "orbit1": 1, "coeff": [1e-7, 2e-8]}],
    ["factory", "PairingFactory", [[1, 0], [0, 0]],
     {"spin1": 1, "orbit1": 2, "spin0": 1, "orbit0": 2, "which": "p"}],
]
FLAVOURS = [["state", s, p, o] for s, p, o in (
    ([0, 0], 1, 2), ([1, 0], 1, 2), ([1, 0], 0, 1), ([1, 0], 1, 1))]


def mates(spec):
    """The objects used to look into a compound one."""
    if spec[0] == "table":
        kind = spec[1][0][0]
        return spec[1] + [CLASSES[kind][-1]]
    return {"term": STATES, "interaction": SPINS,
            "factory": FLAVOURS}.get(spec[0], [])


def kin(a, b):
    """Pairs of descriptions that are equal if a and b are related."""
    if a[0] == "aoc":
        return [(a, ["aoc", 1 - b[1]] + b[2:]), (a[2:], b[2:])]
    if a[0] == "spin":
        return [(a, ["spin", {"p": "m", "m": "p"}.get(b[1], b[1]), b[2]]),
                (a[2:], b[2:])]
    return [(a, ["bond", b[2], b[1], b[3]])] if a[0] == "bond" else []


def distance(a, b):
    """None: labels or shapes differ; else the largest coordinate gap."""
    gap = 0.0
    for x, y in zip(a, b):
        if isinstance(x, list):
            if not isinstance(y, list) or len(x) != len(y):
                return None
            gap = max([gap] + [abs(u - v) for u, v in zip(x, y)])
        elif x != y:
            return None
    return gap


class Link:
    """The connection of one simulated run to one peer node."""

    def __init__(self, path):
        self.path = path
        self.conn = None
        self.epoch = 0

    def connect(self):
        if self.conn is None:
            self.conn = socket.socket(socket.AF_UNIX)
            self.conn.settimeout(100)
            self.conn.connect(self.path)

    def ask(self, msg):
        self.connect()
        peer.send(self.conn, msg)
        out = peer.recv(self.conn)
        if out is None:
            raise HarnessError("a peer session died")
        return out

    def crash(self):
        """The node restarts: everything it held is lost."""
        if self.conn is not None:
            peer.send(self.conn, {"op": "die"})
            self.conn.close()
            self.conn = None
        self.epoch += 1


class Ctx:
    pass


class C08(Check):
    id = "C08"
    quick = {"seeds": 420, "variants": 6}
    thorough = {"seeds": 9000, "variants": 12}
    real = ("sites, states, operators, bonds, terms, tables, lattices, "
            "Hilbert spaces and their pickles; the peers are real "
            "interpreters of their own with other hash seeds")
    stub = ("thread scheduling, Ctrl-C, allocation failure, clock; the "
            "network between the interpreters (messages in lock step: late, "
            "twice, lost and sent again, out of order; peers that crash and "
            "restart)")
    rule = ("Scenarios make, copy, pickle, compare, sort and look up objects "
            "of one or two classes, change the precision in between, ship "
            "objects and tables, terms, lattices and spaces to one of two "
            "peer interpreters and back. Every comparison must be the one "
            "of objects freshly made from the same arguments at the same "
            "precision in an undisturbed process, and never changes.")
    assumptions = [
        "the precision is changed while no other call is under way",
        "every peer runs the same version of the code",
    ]
    must_reach = ("rel", "mixed", "find", "kept", "clone", "relate",
                  "peer_find", "matrix", "facts", "back", "resent", "restart",
                  "late", "twice")

    def seams(self, eng):
        self.eng = eng
        simclock.install(eng)

    def imports(self):
        self.paths = []
        work = os.environ["HAMSIM_WORK"]
        self.peers = []
        for n, seed in enumerate(("1", "4242")):
            path = os.path.join(work, "peer%d" % n)
            env = dict(os.environ, PYTHONHASHSEED=seed)
            self.peers.append(subprocess.Popen(
                [sys.executable, os.path.join(HERE, "peer.py"), REPO, path],
                env=env, stdin=subprocess.DEVNULL))
            self.paths.append(path)
        atexit.register(self._stop)
        import HamiltonianPy.lattice  # noqa: F401
        import HamiltonianPy.quantumoperator  # noqa: F401

    def _stop(self):
        for p in self.peers:
            p.kill()
            p.wait()

    def warm(self):
        # compile the kernels first, so that the peers find them compiled
        end = time.monotonic() + 240
        for p, path in zip(self.peers, self.paths):
            while not os.path.exists(path):
                if p.poll() is not None or time.monotonic() > end:
                    raise RuntimeError("a peer interpreter did not start")
                time.sleep(0.01)
        # every precision in a process of its own
        self.base, self.facts = {}, {}
        for p in PRECS:
            kind, val = in_child(lambda: self._baseline(p))
            if kind != "ok":
                raise RuntimeError("baseline: %s %s" % (kind, val))
            self.base.update(val[0])
            self.facts.update(val[1])
        self.odd = self._sane()

    def _baseline(self, p):
        base = peer.baseline(CLASSES, [p])
        facts = {}
        objs.set_precision(p)
        for n, spec in enumerate(COMPOUND):
            for form in FORMS if p in PRECS[1:3] else ():
                facts[n, p, form] = self._facts(
                    spec, objs.build(spec, form),
                    [objs.build(s, form) for s in mates(spec)])
        return base, facts

    def _facts(self, spec, obj, natives):
        out = objs.facts(spec[0], obj, natives)
        return json.loads(json.dumps(out, default=str))

    def _sane(self):
        """What must hold of the undisturbed relations themselves."""
        for path, p in itertools.product(self.paths, PRECS):
            link = Link(path)
            status, there = link.ask({"op": "baseline", "classes": CLASSES,
                                      "precs": [p]})
            link.crash()
            if status != "ok":
                return "a peer cannot make the objects: %s" % there
            for k, v in there.items():
                if v != self.base[k]:
                    return "%r compare as %s here and %s in a peer" % (
                        k, self.base[k], v)
        for (p, kind, i, j), r in self.base.items():
            a, b = CLASSES[kind][i], CLASSES[kind][j]
            gap = distance(a, b)
            if kind == "bond" and not a[3] and not b[3]:
                other = distance(a, ["bond", b[2], b[1], b[3]])
                if gap is None or (other is not None and other < gap):
                    gap = other
            same = r[0] == "1"
            if gap == 0 and not same:
                return "%r and %r are not equal" % (a, b)
            if (gap is None or gap * 10 ** p >= 2) and same:
                return "%r and %r are equal at precision %d" % (a, b, p)
            if r[0] == r[1]:
                return "%r and %r are both == and != " % (a, b)
            if same and r[6] != "h":
                return "%r and %r are equal with other hash codes" % (a, b)
            for c, (x, y) in zip(r[7:], kin(a, b)):
                gap = distance(x, y)
                if c == "N" or (gap == 0 and c != "1") or c != "0" and (
                        gap is None or gap * 10 ** p >= 2):
                    if not (c == "N" and kind == "bond" and not a[3]):
                        return "%r and %r are related as %s" % (a, b, r)
            if kind != "bond":
                lt, le, gt, ge = (x == "1" for x in r[2:6])
                if (lt, gt) != (self.base[p, kind, j, i][4] == "1",
                                self.base[p, kind, j, i][2] == "1") \
                        or le != (lt or same) or ge != (gt or same) \
                        or lt + gt + same != 1:
                    return "%r and %r are not ordered: %s" % (a, b, r)
        return None

    # -- scenarios ---------------------------------------------------------
    def gen(self, rng, tier):
        n = rng.choice([1, 1, 2, 3])
        kinds = rng.sample(sorted(CLASSES), rng.choice([1, 1, 2]))
        sc = {"threads": {}, "kinds": kinds, "prec": n == 1,
              "first": rng.choice([4, 4, 4] + PRECS)}
        if n > 1 or rng.random() < 0.3:
            sc["prec"] = False
        num = 0
        for t in range(n):
            ops = [self._make(rng, kinds, t) for _ in range(2)]
            for _ in range(rng.randint(6, 16 if n == 1 else 8)):
                ops.append(self._op(rng, sc, t))
            for op in ops:
                op["id"] = str(num)
                num += 1
            sc["threads"]["T%d" % t] = ops
        sc["settle"] = []
        if sc["prec"]:
            sc["settle"].append({"kind": "prec", "p": rng.choice(PRECS)})
        for kind in ("rel", "rel", "find", "kept", "kept", "relate",
                     "peer_find", "facts", "back"):
            sc["settle"].append(self._op(rng, sc, 0, kind))
        for i, op in enumerate(sc["settle"]):
            op["id"] = "s%d" % i
        return sc

    def _make(self, rng, kinds, t):
        k = rng.choice(kinds)
        op = {"kind": "make", "cls": k, "i": rng.randrange(len(CLASSES[k])),
              "form": rng.choice(FORMS), "t": t}
        mate = [x for x, _ in [k[::-1] for k in kin(
            CLASSES[k][op["i"]], CLASSES[k][op["i"]])][:1]]
        if mate and mate[0] in CLASSES[k] and rng.random() < 0.5:
            op["mate"] = CLASSES[k].index(mate[0])
        return op

    def _op(self, rng, sc, t, kind=None):
        kinds = sc["kinds"]
        kind = kind or rng.choice(
            ["make", "make", "rel", "rel", "rel", "find", "keep", "kept",
             "clone", "clone", "ship", "ship", "relate", "peer_find",
             "matrix", "shipfacts", "facts", "back", "derive", "localfacts"]
            + ["prec"] * (4 if sc["prec"] else 0))
        r = lambda: int(rng.random() * 10000) / 10000
        if kind == "make":
            return self._make(rng, kinds, t)
        op = {"kind": kind, "t": t, "a": r(), "b": r(),
              "cls": rng.choice(kinds)}
        if kind == "prec":
            op["p"] = rng.choice(PRECS)
        elif kind == "clone":
            op["how"] = rng.choice(["copy", "deep", 0, 1, 2, 3, 4, 5])
        elif kind in ("find", "keep", "kept", "peer_find", "relate"):
            op["n"] = rng.randint(1, 5)
            op["keys"] = [rng.randrange(len(CLASSES[op["cls"]]))
                          for _ in range(rng.randint(1, 4))]
            op["form"] = rng.choice(FORMS)
        elif kind in ("shipfacts", "localfacts", "facts"):
            op["c"] = rng.randrange(len(COMPOUND))
            op["form"] = rng.choice(FORMS)
            op["p"] = rng.choice(PRECS[1:3]) if sc["prec"] else 4
            op["proto"] = rng.randrange(6)
        elif kind == "back":
            op["i"] = rng.randrange(len(CLASSES[op["cls"]]))
            op["proto"] = rng.randrange(6)
        elif kind == "matrix":
            op["pairs"] = [[rng.randrange(6), rng.randrange(6)]
                           for _ in range(2)]
            op["proto"] = rng.randrange(6)
        elif kind == "ship":
            op["proto"] = rng.randrange(6)
        op["peer"] = rng.randrange(2)
        return op

    def fault_kinds(self, sc):
        return ["interrupt", "memory", "late", "late", "twice", "lost",
                "restart", "restart"]

    def device_action(self, rng, kind):
        return "net", {"after": rng.random() < 0.5}

    def start(self, eng, sc):
        ctx = Ctx()
        ctx.sc = sc
        ctx.slots = []          # (cls, spec index, precision, object)
        ctx.kept = []           # (containers, entries)
        ctx.links = [Link(p) for p in self.paths]
        ctx.there = [{}, {}]    # peer -> name -> entry
        ctx.queue = []          # late messages: (peer, message)
        ctx.names = itertools.count()
        ctx.seen = {}           # relations of objects of two precisions
        ctx.probe = {}
        ctx.prec = 4
        if sc["prec"] and sc["first"] != 4:
            objs.set_precision(sc["first"])
            ctx.prec = sc["first"]
        return ctx

    def _hit(self, ctx, name):
        ctx.probe[name] = ctx.probe.get(name, 0) + 1

    def _pick(self, ctx, cls, x, prec=None):
        pool = [s for s in ctx.slots if s[0] == cls
                and (prec is None or s[2] == prec)]
        return pool[int(x * len(pool))] if pool else None

    def _some(self, ctx, cls, x, n, prec=None):
        pool = [s for s in ctx.slots if s[0] == cls
                and (prec is None or s[2] == prec)]
        k = int(x * len(pool))
        return (pool[k:] + pool[:k])[:n]

    # -- the network ---------------------------------------------------------
    def _deliver(self, ctx):
        """Late messages arrive, the last one first."""
        while ctx.queue:
            n, msg = ctx.queue.pop()
            status, out = ctx.links[n].ask(msg)
            if status != "ok":
                return "late object: " + out
        return None

    def _put(self, ctx, n, name, data):
        """One message that carries an object."""
        act = self.eng.device_fault("net")
        kind = act["kind"] if act else None
        msg = {"op": "put", "name": name, "data": data}
        if kind:
            self._hit(ctx, kind)
        if kind == "late":
            ctx.queue.append((n, msg))
            return None
        if kind == "lost":
            return None
        if kind == "restart" and not act["after"]:
            ctx.links[n].crash()
        for _ in range(2 if kind == "twice" else 1):
            status, out = ctx.links[n].ask(msg)
            if status != "ok":
                return out
        if kind == "restart" and act["after"]:
            ctx.links[n].crash()
        return None

    def _request(self, ctx, n, msg, again):
        """A request; what the peer has not got is sent again."""
        act = self.eng.device_fault("net")
        kind = act["kind"] if act else None
        if kind == "restart":
            self._hit(ctx, kind)
            if act["after"]:
                ctx.links[n].ask(msg)
            ctx.links[n].crash()
        if kind == "twice":
            ctx.links[n].ask(msg)
        status, out = ctx.links[n].ask(msg)
        if status == "ok" and out == "missing":
            self._hit(ctx, "resent")
            for name, data in again:
                s, o = ctx.links[n].ask({"op": "put", "name": name,
                                         "data": data})
                if s != "ok":
                    return s, o
            status, out = ctx.links[n].ask(msg)
        return status, out

    # -- operations ------------------------------------------------------------
    def call(self, ctx, op):
        return getattr(self, "_do_" + op["kind"])(ctx, op)

    def _do_prec(self, ctx, op):
        ctx.prec = None
        for _ in range(3):
            try:
                objs.set_precision(op["p"])
                ctx.prec = op["p"]
                return None
            except (KeyboardInterrupt, MemoryError):
                pass

    def _do_make(self, ctx, op):
        spec = CLASSES[op["cls"]][op["i"]]
        obj = objs.build(spec, op["form"])
        a = (op["cls"], op["i"], ctx.prec)
        ctx.slots.append(a + (obj,))
        if "mate" not in op:
            return None
        new = objs.build(CLASSES[op["cls"]][op["mate"]], op["form"])
        b = (op["cls"], op["mate"], ctx.prec)
        ctx.slots.append(b + (new,))
        return ["rel", [(a, b, objs.relation(obj, new)),
                        (b, a, objs.relation(new, obj))]]

    def _do_clone(self, ctx, op):
        s = self._pick(ctx, op["cls"], op["a"])
        if s is None:
            return None
        obj = s[3]
        if op["how"] == "copy":
            new = copy.copy(obj)
        elif op["how"] == "deep":
            new = copy.deepcopy(obj)
        else:
            new = pickle.loads(pickle.dumps(obj, op["how"]))
        r = objs.relation(obj, new), objs.relation(new, obj)
        ctx.slots.append((s[0], s[1], s[2], new))
        self._hit(ctx, "clone")
        return ["rel", [(s[:3], s[:3], r[0]), (s[:3], s[:3], r[1])]]

    def _do_derive(self, ctx, op):
        """A derived object is made now: at the precision of now."""
        s = self._pick(ctx, op["cls"], op["a"], ctx.prec)
        if s is None:
            return None
        spec = CLASSES[s[0]][s[1]]
        if s[0] == "aoc":
            new, want = s[3].dagger(), ["aoc", 1 - spec[1]] + spec[2:]
        elif s[0] == "spin":
            new = s[3].dagger()
            want = ["spin", {"p": "m", "m": "p"}.get(spec[1], spec[1]),
                    spec[2]]
        elif s[0] == "number":
            new, want = s[3].dagger(), spec
        elif s[0] == "bond" and spec[3]:
            new, want = s[3].flip(), ["bond", spec[2], spec[1], True]
            if not s[3].oppositeTo(new):
                return ["odd", "%r is not opposite to its flip" % s[3]]
        else:
            return None
        if want not in CLASSES[s[0]]:
            return None
        entry = (s[0], CLASSES[s[0]].index(want), ctx.prec)
        r = objs.relation(s[3], new)
        ctx.slots.append(entry + (new,))
        return ["rel", [(s[:3], entry, r)]]

    def _do_rel(self, ctx, op):
        a = self._pick(ctx, op["cls"], op["a"])
        b = self._pick(ctx, op["cls"], op["b"])
        if a is None or b is None:
            return None
        return ["rel", [(a[:3], b[:3], objs.relation(a[3], b[3])),
                        (b[:3], a[:3], objs.relation(b[3], a[3]))]]

    def _keys(self, ctx, op, prec):
        cls = op["cls"]
        return [((cls, i, prec), objs.build(CLASSES[cls][i], op["form"]))
                for i in op["keys"]]

    def _do_find(self, ctx, op):
        some = self._some(ctx, op["cls"], op["a"], op["n"], ctx.prec)
        if not some:
            return None
        keys = self._keys(ctx, op, ctx.prec)
        got = objs.find([s[3] for s in some], [k for _, k in keys])
        rank = objs.ranks([s[3] for s in some] + [k for _, k in keys])
        return ["find", [s[:3] for s in some], [e for e, _ in keys], got,
                rank]

    def _do_keep(self, ctx, op):
        """Containers that live on."""
        from HamiltonianPy.indextable import IndexTable
        some = self._some(ctx, op["cls"], op["a"], op["n"], ctx.prec)
        if not some:
            return None
        uniq = []
        for s in some:
            if all(not self._equal(s, u) for u in uniq):
                uniq.append(s)
        table = IndexTable([s[3] for s in uniq])
        ctx.kept.append((table, {s[3]: i for i, s in enumerate(uniq)},
                         {s[3] for s in uniq}, [s[:3] for s in uniq]))
        return None

    def _equal(self, a, b):
        return self.base[a[2], a[0], a[1], b[1]][0] == "1"

    def _do_kept(self, ctx, op):
        """Look into containers filled before with objects made before."""
        if not ctx.kept:
            return None
        table, d, s, entries = ctx.kept[int(op["a"] * len(ctx.kept))]
        cls, _, prec = entries[0]
        keys = [(k[:3], k[3]) for k in ctx.slots
                if k[0] == cls and k[2] == prec][-4:]
        if ctx.prec == prec:
            for i in op["keys"]:
                i %= len(CLASSES[cls])
                keys.append(((cls, i, prec),
                             objs.build(CLASSES[cls][i], op["form"])))
        got = [False, len(d), len(s)]
        for _, k in keys:
            try:
                i = table(k)
            except KeyError:
                i = "missing"
            got.append([i, d.get(k, "missing"), k in s])
        # what is inside is found by itself
        for o, i in d.items():
            keys.append((entries[i], o))
            try:
                j = table(o)
            except KeyError:
                j = "missing"
            got.append([j, d.get(o, "missing"), o in s])
        return ["find", entries, [e for e, _ in keys], got, None]

    def _do_ship(self, ctx, op):
        s = self._pick(ctx, op["cls"], op["a"])
        if s is None:
            return None
        self._send(ctx, op, s)
        return None

    def _send(self, ctx, op, s):
        data = pickle.dumps(s[3], op.get("proto", 4))
        name = "o%d" % next(ctx.names)
        ctx.there[op["peer"]][name] = (s[:3], data)
        bad = self._put(ctx, op["peer"], name, data)
        if bad:
            raise RuntimeError("the peer cannot take the object: " + bad)
        return name

    def _known(self, ctx, op, n):
        """Names of shipped objects of one class and precision."""
        there = ctx.there[op["peer"]]
        names = [x for x in there if there[x][0][0] == op["cls"]]
        if not names:
            s = self._pick(ctx, op["cls"], op["a"])
            if s is None:
                return []
            names = [self._send(ctx, op, s)]
        k = int(op["a"] * len(names))
        prec = there[names[k]][0][2]
        names = [x for x in names[k:] + names[:k]
                 if there[x][0][2] == prec]
        return names[:n]

    def _do_relate(self, ctx, op, what="relate"):
        late = op["b"] < 0.7 and self._deliver(ctx)
        if late:
            return ["odd", late]
        names = self._known(ctx, op, op["n"])
        if not names:
            return None
        there = ctx.there[op["peer"]]
        prec = there[names[0]][0][2]
        status, out = self._request(ctx, op["peer"], {
            "op": what, "names": names, "prec": prec, "form": op["form"],
            "specs": [CLASSES[op["cls"]][i] for i in op["keys"]],
        }, [(x, there[x][1]) for x in names])
        if status != "ok":
            return ["odd", "peer: %s" % out]
        self._hit(ctx, what if what == "relate" else "peer_find")
        keys = [(op["cls"], i, prec) for i in op["keys"]]
        mine = [there[x][0] for x in names]
        if what == "relate":
            rel = []
            for e, copies in zip(mine, out):
                for rr in copies:
                    rel += [(e, k, r) for k, r in zip(keys, rr)]
                    rel += [(k, e, r) for k, r in zip(
                        keys, rr[len(keys):])]
            return ["rel", rel]
        return ["find", mine, keys, out[0], out[2], out[1]]

    def _do_peer_find(self, ctx, op):
        return self._do_relate(ctx, op, "find")

    def _do_matrix(self, ctx, op):
        if ctx.sc["prec"]:
            return None
        there = ctx.there[op["peer"]]
        names = []
        for spec in STATES:
            data = pickle.dumps(objs.build(spec), op["proto"])
            name = "m%d" % next(ctx.names)
            there[name] = (("matrix", 0, 4), data)
            bad = self._put(ctx, op["peer"], name, data)
            if bad:
                return ["odd", bad]
            names.append(name)
        pairs = [[AOCS[i], AOCS[j]] for i, j in op["pairs"]]
        status, out = self._request(ctx, op["peer"], {
            "op": "matrix", "names": names, "specs": [], "prec": 4,
            "form": "tuple", "pairs": pairs},
            [(x, there[x][1]) for x in names])
        if status != "ok":
            return ["odd", "peer: %s" % out]
        self._hit(ctx, "matrix")
        mine = objs.matrix([objs.build(s) for s in STATES],
                           [[objs.build(x) for x in p] for p in pairs])
        if out != mine:
            return ["odd", "the peer's matrices are %s instead of %s" % (
                out, mine)]
        return None

    def _native(self, ctx, op):
        """A compound object made at the precision the operation names."""
        if op["p"] != ctx.prec:
            self._precision(op["p"])
        try:
            return objs.build(COMPOUND[op["c"]], op["form"])
        finally:
            if op["p"] != ctx.prec:
                self._precision(ctx.prec)

    def _precision(self, p):
        self.eng.masked = 1
        objs.set_precision(p)
        self.eng.masked = 0

    def _do_shipfacts(self, ctx, op):
        if ctx.prec is None:
            return None
        name = "c%d" % next(ctx.names)
        data = pickle.dumps(self._native(ctx, op), op["proto"])
        ctx.there[op["peer"]][name] = (
            ("compound", op["c"], op["p"], op["form"]), data)
        bad = self._put(ctx, op["peer"], name, data)
        return ["odd", bad] if bad else None

    def _do_facts(self, ctx, op):
        there = ctx.there[op["peer"]]
        names = [x for x in there if there[x][0][0] == "compound"]
        if not names:
            got = self._do_shipfacts(ctx, op)
            if got:
                return got
            names = [x for x in there if there[x][0][0] == "compound"]
            if not names:
                return None
        name = names[int(op["a"] * len(names))]
        (_, c, p, form), data = there[name]
        spec = COMPOUND[c]
        status, out = self._request(ctx, op["peer"], {
            "op": "facts", "kind": spec[0], "names": [name], "prec": p,
            "form": form, "specs": mates(spec)}, [(name, data)])
        if status != "ok":
            return ["odd", "peer: %s" % out]
        self._hit(ctx, "facts")
        return ["facts", c, p, form,
                [json.loads(json.dumps(x, default=str)) for x in out]]

    def _do_localfacts(self, ctx, op):
        if ctx.prec != op["p"]:
            return None
        spec = COMPOUND[op["c"]]
        one = objs.build(spec, op["form"])
        two = pickle.loads(pickle.dumps(one, op["proto"]))
        three = copy.deepcopy(one)
        near = [objs.build(s, op["form"]) for s in mates(spec)]
        return ["facts", op["c"], op["p"], op["form"],
                [self._facts(spec, x, near) for x in (two, three, one)]]

    def _do_back(self, ctx, op):
        """An object made by the peer arrives here."""
        if ctx.prec is None:
            return None
        status, out = ctx.links[op["peer"]].ask({
            "op": "native", "spec": CLASSES[op["cls"]][op["i"]],
            "prec": ctx.prec, "protocol": op["proto"]})
        if status != "ok":
            return ["odd", "peer: %s" % out]
        obj = pickle.loads(out)
        entry = (op["cls"], op["i"], ctx.prec)
        ctx.slots.append(entry + (obj,))
        self._hit(ctx, "back")
        b = self._pick(ctx, op["cls"], op["b"])
        return ["rel", [(entry, b[:3], objs.relation(obj, b[3])),
                        (b[:3], entry, objs.relation(b[3], obj))]]

    # -- oracle ------------------------------------------------------------
    def judge(self, ctx, rec):
        op, exc, got = rec["op"], rec["exc"], rec["value"]
        if exc is not None:
            if rec["injected"]:     # CPython may turn it into another one
                return None
            return (self.id + "/raised", "raised %s: %s" % tuple(exc))
        if not got:
            return None
        if got[0] == "odd":
            return (self.id + "/transport", got[1])
        if got[0] == "facts":
            _, c, p, form, values = got
            for v in values:
                if v != self.facts[c, p, form]:
                    return (self.id + "/transport", "%s is %s instead of %s"
                            % (COMPOUND[c], str(v)[:150],
                               str(self.facts[c, p, form])[:150]))
            return None
        if got[0] == "rel":
            for a, b, r in got[1]:
                if a[2] == b[2]:
                    self._hit(ctx, "rel")
                    want = self.base[a[2], a[0], a[1], b[1]]
                    if not self._agree(r, want):
                        return (self.id + "/identity", "%s and %s, made at "
                                "precision %d, compare as %s instead of %s"
                                % (CLASSES[a[0]][a[1]], CLASSES[b[0]][b[1]],
                                   a[2], r, want))
                else:
                    self._hit(ctx, "mixed")
                    now = r[:6] + r[7:]
                    if now != ctx.seen.setdefault((a, b), now):
                        return (self.id + "/unstable", "%s at precision %d "
                                "and %s at %d compare as %s, before as %s"
                                % (CLASSES[a[0]][a[1]], a[2],
                                   CLASSES[b[0]][b[1]], b[2], r,
                                   ctx.seen[a, b]))
                    if r[0] == "1" and r[6] != "h":
                        return (self.id + "/hash", "equal objects have "
                                "other hash codes: %s %s" % (a, b))
            return None
        self._hit(ctx, "find" if op["kind"] == "peer_find" else op["kind"])
        entries, keys, found, rank = got[1:5]
        want = self._want(entries, keys, found[0] is None)
        if found != want:
            return (self.id + "/lookup", "looking for %s among %s finds %s "
                    "instead of %s" % (keys, entries, found, want))
        if len(got) > 5:
            want = self._want(keys, entries)
            if got[5] != want:
                return (self.id + "/lookup", "looking for %s among %s finds "
                        "%s instead of %s" % (entries, keys, got[5], want))
        if rank is not None:
            both = entries + keys
            want = [len({self._class(e, both) for e in both
                         if self._rel(e, x)[2] == "1"}) for x in both]
            if rank != want:
                return (self.id + "/order", "%s are ordered %s instead of "
                        "%s" % (both, rank, want))
        return None

    def _agree(self, r, want):
        # unequal objects may or may not share a hash code
        return r[:6] + r[7:] == want[:6] + want[7:] and (
            r[0] == "0" or r[6] == "h")

    def _rel(self, a, b):
        return self.base[a[2], a[0], a[1], b[1]]

    def _class(self, e, pool):
        return next(i for i, x in enumerate(pool)
                    if self._rel(x, e)[0] == "1")

    def _want(self, entries, keys, kept=False):
        first = [self._class(e, entries) for e in entries]
        dup = any(f != i for i, f in enumerate(first))
        # a dictionary keeps the first key and the last value
        out = [dup, len(set(first)), len(set(first))]
        for k in keys:
            hits = [i for i, e in enumerate(entries)
                    if self._rel(e, k)[0] == "1"]
            if not hits:
                out.append([None if dup else "missing", "missing", False])
            else:
                out.append([None if dup else hits[0], hits[-1], True])
        return out

    def finish(self, eng, ctx, sc, history):
        for link in ctx.links:
            if link.conn is not None:
                link.conn.close()
        if self.odd:
            return [(self.id + "/relations", self.odd)]
        return []

    def coverage(self, ctx, sc, history):
        return dict(ctx.probe)

    def digest(self, rec):
        v = rec.get("value")
        if v and v[0] == "rel":     # hash codes may coincide or not
            return str([(a, b, r[:6]) for a, b, r in v[1]])
        return str(v)


CHECK = C08()
