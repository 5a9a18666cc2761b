"""C12: process-wide settings are isolated and restore exactly."""

import numpy as np

from runner import Check
import simclock

DEFAULT = {"state": 4, "bond": 4, "lattice": 4, "lanczos": 1e-4,
           "rotation": 1e-10}
KINDS = sorted(DEFAULT)
# ways to see the effect of a setting
WAYS = {"state": 9, "bond": 6, "lattice": 9, "lanczos": 5, "rotation": 4}


def about(axis, theta):
    """The rotation about a unit vector (Rodrigues)."""
    x, y, z = axis
    k = np.array([[0.0, -z, y], [z, 0.0, -x], [-y, x, 0.0]])
    return np.eye(3) + np.sin(theta) * k + (1 - np.cos(theta)) * k @ k



class Ctx:
    pass


def predicted(kind, what, value, q):
    """What a probe shows when the setting has this value."""
    if kind in ("state", "bond", "lattice"):
        return value < q          # True: the two things are the same
    if kind == "lanczos":
        eps = 3 * 10.0 ** -q
        return eps <= value       # True: viewed as zero
    return 3 * 10.0 ** -q < value


class C12(Check):
    id = "C12"
    quick = {"seeds": 460, "variants": 8}
    thorough = {"seeds": 12000, "variants": 14}
    real = ("the five setters and everything that reads a setting: states, "
            "operators, bonds, lattices, Lanczos, rotations; numpy")
    stub = "thread scheduling, Ctrl-C, allocation failure, clock"
    rule = ("Scenarios share the five settings out among 1-3 callers; each "
            "changes its settings (valid, refused, by every calling style), "
            "probes them with pairs that differ in one decimal place, keeps "
            "objects made under earlier values, and everybody recomputes "
            "results that no setting may touch.")
    assumptions = [
        "one setting is changed and relied on by one caller at a time (the "
        "documentation asks for settings to be made first)",
    ]
    must_reach = ("set", "refused", "probe", "kept", "digest", "restored",
                  "failed_set")

    def seams(self, eng):
        self.eng = eng
        simclock.install(eng)

    def imports(self):
        import HamiltonianPy
        import HamiltonianPy.bond
        import HamiltonianPy.lanczos
        import HamiltonianPy.lattice
        import HamiltonianPy.quantumoperator as Q
        import HamiltonianPy.quantumoperator.quantumstate
        import HamiltonianPy.rotation3d
        self.H = HamiltonianPy
        self.Q = Q

    def warm(self):
        self._digest()

    # -- scenarios ---------------------------------------------------------
    def gen(self, rng, tier):
        n = rng.choice([1, 2, 2, 3])
        order = list(KINDS)
        rng.shuffle(order)
        own = [order[i::n] for i in range(n)]
        sc = {"threads": {}}
        num = 0
        for t in range(n):
            ops = []
            for _ in range(rng.randint(3, 10 if n == 1 else 7)):
                op = self._op(rng, own[t])
                op["id"] = str(num)
                num += 1
                ops.append(op)
            sc["threads"]["T%d" % t] = ops
        sc["settle"] = []
        for k in KINDS:
            sc["settle"].append({"kind": "probe", "of": k, "what": 0,
                                 "q": rng.randint(1, 12)})
            sc["settle"].append({"kind": "set", "of": k, "style": "default",
                                 "value": None})
        for k in KINDS:
            q = rng.choice([4, 5] if k != "rotation" else [10, 11])
            if k == "lanczos":
                q = rng.choice([4, 5])
            for w in range(WAYS[k]):
                sc["settle"].append({"kind": "probe", "of": k, "q": q,
                                     "what": w})
        sc["settle"] += [{"kind": "kept"}, {"kind": "digest"}]
        for i, op in enumerate(sc["settle"]):
            op["id"] = "s%d" % i
        return sc

    def _op(self, rng, own):
        r = rng.random()
        k = rng.choice(own)
        if r < 0.33:
            if k in ("lanczos", "rotation"):
                v = rng.choice([0.0 if k == "lanczos" else 1e-11, 1e-12,
                                1e-10, 1e-8, 1e-6, 1e-4, 1e-2, 0.1])
            else:
                v = rng.choice([rng.randint(0, 9), rng.randint(8, 12)])
            style = rng.choice(["pos", "pos", "kw", "default", "pkg"])
            if style == "default":
                v = None
            return {"kind": "set", "of": k, "value": v, "style": style}
        if r < 0.45:
            bad = rng.choice([-1, "4", None, 2.5, [4], -1e-3, 3]
                             if k not in ("lanczos", "rotation")
                             else [-1e-4, "0", None, 1, [1e-4], -0.5])
            if bad == 3:
                bad = 3.0
            return {"kind": "refuse", "of": k, "value": bad}
        if r < 0.75:
            return {"kind": "probe", "of": k, "what": rng.randrange(WAYS[k]),
                    "q": rng.randint(1, 12) if k != "rotation"
                    else rng.randint(1, 13)}
        if r < 0.84:
            return {"kind": "keep", "of": k, "q": rng.randint(1, 12)}
        if r < 0.91:
            return {"kind": "kept"}
        return {"kind": "digest", "own": own}

    def start(self, eng, sc):
        ctx = Ctx()
        ctx.val = {k: [v] for k, v in DEFAULT.items()}
        ctx.kept = []
        ctx.base = self._digest()
        ctx.probe = {}
        return ctx

    # -- the library's settings ---------------------------------------------
    def _setter(self, kind, style):
        H = self.H
        if kind == "state":
            return (H.quantumoperator.set_float_point_precision
                    if style == "pkg" else
                    H.quantumoperator.quantumstate.set_float_point_precision)
        if kind == "bond":
            return H.bond.set_float_point_precision
        if kind == "lattice":
            return H.lattice.set_float_point_precision
        if kind == "lanczos":
            return H.lanczos.set_threshold
        return H.rotation3d.set_threshold

    def _pair(self, kind, q, what):
        """Two things that differ by one unit in decimal place q."""
        a = 1.2222222222222
        b = a + 10.0 ** -q
        Q = self.Q
        if kind == "state":
            if what == 0:
                return Q.SiteID([a, 0.0]), Q.SiteID([b, 0.0])
            if what == 1:
                return Q.StateID((2.0, a), 1, 0), Q.StateID((2.0, b), 1, 0)
            if what == 3:
                return Q.SpinOperator("y", (a,)), Q.SpinOperator("y", (b,))
            if what == 4:
                return (Q.NumberOperator((0, a, 1)),
                        Q.NumberOperator((0, b, 1)))
            if what == 5:
                old = Q.AoC(0, site=(a, 0.5, 1), orbit=2)
                return old.dagger(), old.derive(otype=1, site=(b, 0.5, 1))
            return (Q.AoC(1, site=(a,), spin=1), Q.AoC(1, site=(b,), spin=1))
        B = self.H.Bond
        p = np.array([5.0, 7.0])
        if what in (3, 4):
            tail = [3.0] * (2 * what - 6)
            return (B(np.array([2.0] + tail), np.array([a] + tail)),
                    B(np.array([2.0] + tail), np.array([b] + tail)))
        # undirected endpoints are kept in order, so both come out the same
        return (B(np.array([a, 0.0]), p, directional=what != 1),
                B(np.array([b, 0.0]), p, directional=what != 1))

    def _same(self, pair):
        a, b = pair
        same = a == b
        if same != (not (a != b)) or same != (len({a, b}) == 1):
            return "inconsistent"
        return bool(same)

    def _probe(self, op):
        kind, q, what = op["of"], op["q"], op["what"]
        H = self.H
        if kind == "state" and what > 5:
            # relations instead of equality
            if what == 6:
                x, y = self._pair(kind, q, 2)
                rel, back = x.same_state(y), y.same_state(x)
            elif what == 7:
                x, y = self._pair(kind, q, 2)
                x = x.dagger()
                rel, back = x.conjugate_of(y), y.conjugate_of(x)
            else:
                x, y = self._pair(kind, q, 3)
                rel, back = x.same_site(y), y.conjugate_of(x)
            return bool(rel) if bool(rel) == bool(back) else "inconsistent"
        if kind == "bond" and what == 5:
            x, y = self._pair(kind, q, 0)
            rel, back = x.oppositeTo(y.flip()), y.flip().oppositeTo(x)
            return bool(rel) if bool(rel) == bool(back) else "inconsistent"
        if kind in ("state", "bond"):
            return self._same(self._pair(kind, q, what))
        if kind == "lattice":
            d = 3 * 10.0 ** -q
            if what == 0:
                try:
                    H.lattice.Lattice(np.array([[0.0, 0.0], [d, 0.0]]),
                                      np.array([[5.0, 0.0], [0.0, 5.0]]))
                except ValueError:
                    return True
                return False
            if what == 1:
                lat = H.lattice.Lattice(np.array([[0.0, 0.0]]),
                                        np.array([[5.0, 0.0], [0.0, 5.0]]))
                try:
                    return bool(lat.getIndex(np.array([d, 0.0])) == 0)
                except KeyError:
                    return False
            if what in (3, 4, 5):
                lat = H.lattice.Lattice(np.array([[0.0, 1.0], [0.0, 3.0]]),
                                        np.array([[5.0, 0.0], [0.0, 5.0]]))
                near = np.array([0.0, 3.0 + d])
                if what == 3:
                    return lat.in_cluster(near)
                near += [10.0, -5.0]
                try:
                    if what == 4:
                        return bool(lat.getIndex(near, fold=True) == 1)
                    site, move = lat.decompose(near)
                except (KeyError, RuntimeError):
                    return False
                if abs(site - [0, 3]).max() + abs(move - [10, -5]).max() > .9:
                    return "inconsistent"
                return True
            if what == 6:
                try:
                    H.lattice.Lattice(np.array([[0.0, 0.0]]), np.array(
                        [[5.0, 0.0], [5.0, d]]))
                except np.linalg.LinAlgError:
                    return False
                except ValueError:
                    return True
                return False
            if what in (7, 8):
                # distances 20 and 20 + d of one point, as bonds
                lat = H.lattice.Lattice(np.array([[0.0, 0.0]]), np.array(
                    [[20.0, 0.0], [0.0, 20.0 + d]]))
                intra, inter = lat.bonds(1, fold=what == 8)
                return {2: True, 1: False}.get(len(intra) + len(inter),
                                               "inconsistent")
            lat = H.lattice.Lattice(np.array([[0.0, 0.0]]),
                                    np.array([[2.0, 0.0], [0.0, 2.0 + d]]))
            # distances 2 and 2 + d are one distance below that precision
            d1, d2 = lat.neighbor_distance(1), lat.neighbor_distance(2)
            if abs(d1 - 2.0) > 0.5 or d2 < d1:
                return "inconsistent"
            return bool(d2 - d1 > 0.55)
        if kind == "lanczos":
            eps = 3 * 10.0 ** -q
            m = np.array([[1.0, eps], [eps, 2.0]])
            e0 = np.array([1.0, 0.0])
            if what == 0:
                pm, pv = H.lanczos.KrylovRepresentation(
                    m, {"e": e0}, e0, krylov_space_dim=2)
                return {1: True, 2: False}.get(len(pm), "inconsistent")
            if what == 1:
                pm, pv = H.lanczos.MultiKrylov(m, {"e": e0},
                                               krylov_space_dim=2)
                return {1: True, 2: False}.get(len(pm["e"]), "inconsistent")
            if what == 3:
                m = np.array([[1.0, 1.0, 0.0], [1.0, 2.0, eps],
                              [0.0, eps, 3.0]])
                pm, pv = H.lanczos.KrylovRepresentation(
                    m, {"e": np.array([1.0, 0.0, 0.0])},
                    np.array([1.0, 0.0, 0.0]), krylov_space_dim=3)
                return {2: True, 3: False}.get(len(pm), "inconsistent")
            if what == 4:
                try:
                    H.lanczos.MultiKrylov(np.eye(2), {"a": e0, "e": eps * e0},
                                          krylov_space_dim=1)
                except ValueError:
                    return True
                return False
            try:
                H.lanczos.KrylovRepresentation(
                    np.eye(2), {"e": e0}, eps * e0, krylov_space_dim=1)
            except ValueError:
                return True
            return False
        eps = 3 * 10.0 ** -q
        if what == 3:
            # is the axis taken for the one along z?  Its azimuth is lost then
            r = H.rotation3d.RotationGeneral([0.0, eps, 1.0], 1.0)
            b = np.arctan2(eps, 1.0)
            off = [np.abs(r - about(u, 1.0)).max() for u in (
                (np.sin(b), 0.0, np.cos(b)), (0.0, np.sin(b), np.cos(b)))]
            if min(off) > 1e-3 * eps + 2e-15:
                return "inconsistent"
            return bool(off[0] < off[1])
        axis = [[eps, 0, 0], (0, eps, 0), np.array([0, 0, eps])][what]
        try:
            r = H.rotation3d.RotationGeneral(axis, 1.0)
        except ValueError:
            return True
        if abs(abs(np.linalg.det(r)) - 1) > 1e-9:
            return "inconsistent"
        return False

    # -- results that no setting may touch -----------------------------------
    def _digest(self, own=KINDS):
        """Parts whose setting another caller may be changing are left out."""
        H, Q = self.H, self.Q
        out = {}
        if "lattice" in own:
            self._lattice_part(out)
        if "state" in own:
            self._state_part(out)
        if "rotation" in own:
            out["rot"] = H.RotationGeneral([0, 0, 2.0], 90, deg=True
                                           ).round(12).tolist()
        if "lanczos" in own:
            h = np.array([[1.0, 2.0], [2.0, -1.0]])
            pm, pv = H.KrylovRepresentation(h, {"k": np.array([1.0, 1.0])},
                                            np.array([1.0, 0.0]))
            out["kry"] = [np.round(pm, 9).tolist(),
                          np.round(pv["k"], 9).tolist()]
        out["spin"] = Q.SpinInteraction.matrix_function(
            [(0, "z"), (1, "z")], 2).toarray().tolist()
        b = H.Bond(np.array([0.0, 0.0]), np.array([3.0, 4.0]))
        out["len"] = (b.getLength(), str(b.getAzimuth(ndigits=6)))
        out["rx"] = H.RotationX(30, deg=True).round(12).tolist()
        out["path"] = len(H.KPath([np.zeros(2), np.array([1.0, 0.0])],
                                  min_num=10)[0])
        line = H.Line2D(np.array([0.0, 0.0]), np.array([1.0, 1.0]))
        out["line"] = str(line.LocationRelation(np.array([0.0, 1.0])))
        return out

    def _lattice_part(self, out):
        H = self.H
        lat = H.lattice.Lattice(
            np.array([[0.0, 0.0], [3.0, 0.0]]),
            np.array([[6.0, 0.0], [0.0, 3.0]]))
        intra, inter = lat.bonds(nth=1)
        out["bonds"] = (len(intra), len(inter))
        out["d"] = [round(float(lat.neighbor_distance(i)), 9)
                    for i in (0, 1)]
        s, dr = lat.decompose(np.array([9.0, 3.0]))
        out["dec"] = (s.tolist(), dr.tolist())

    def _state_part(self, out):
        H, Q = self.H, self.Q
        states = [Q.StateID((float(i), 0.0), spin=s)
                  for i in range(2) for s in (0, 1)]
        table = H.IndexTable(states)
        bases = H.base_vectors((4, 2))
        t = 0.5 * Q.AoC(1, site=(0, 0), spin=0) * Q.AoC(0, site=(1, 0),
                                                       spin=0)
        m = t.matrix_repr(table, bases)
        out["m"] = m.toarray().tolist()

    def call(self, ctx, op):
        kind = op["kind"]
        if kind == "set":
            f = self._setter(op["of"], op["style"])
            new = DEFAULT[op["of"]] if op["style"] == "default" \
                else op["value"]
            old = ctx.val[op["of"]]
            ctx.val[op["of"]] = old + [new]
            if op["style"] == "default":
                f()
            elif op["style"] == "kw":
                f(**{"threshold" if op["of"] in ("lanczos", "rotation")
                     else "precision": new})
            else:
                f(new)
            ctx.val[op["of"]] = [new]
            return None
        if kind == "refuse":
            self._setter(op["of"], "pos")(op["value"])
            return None
        if kind == "probe":
            want = list(ctx.val[op["of"]])
            return want, self._probe(op)
        if kind == "keep":
            if op["of"] not in ("state", "bond"):
                return None
            for w in (0, 1, 2):
                pair = self._pair(op["of"], op["q"], w)
                ctx.kept.append((pair, self._same(pair), op,
                                 list(ctx.val[op["of"]]),
                                 [hash(x) for x in pair]))
            return None
        if kind == "kept":
            return [(self._same(p), s, o, [hash(x) for x in p] == h)
                    for p, s, o, v, h in list(ctx.kept)]
        if kind == "digest":
            return self._digest(op.get("own", KINDS))
        raise AssertionError(kind)

    # -- oracles -----------------------------------------------------------
    def _hit(self, ctx, name):
        ctx.probe[name] = ctx.probe.get(name, 0) + 1

    def judge(self, ctx, rec):
        op, exc, val = rec["op"], rec["exc"], rec["value"]
        kind = op["kind"]
        if exc is not None and rec["injected"] and exc[0] in (
                "SimInterrupt", "SimMemoryError"):
            if kind == "set":
                self._hit(ctx, "failed_set")
            return None
        if kind == "refuse":
            self._hit(ctx, "refused")
            if exc is None:
                return (self.id + "/accepted", "the setting %s accepted %r"
                        % (op["of"], op["value"]))
            return None
        if exc is not None:
            return (self.id + "/raised", "%s raised %s: %s" % (
                kind, exc[0], exc[1]))
        self._hit(ctx, kind)
        if kind == "probe":
            want, got = val
            allowed = {predicted(op["of"], op["what"], v, op["q"])
                       for v in want}
            if op["id"].startswith("s"):
                self._hit(ctx, "restored")
            if got not in allowed:
                return (self.id + "/effect", "with %s set to %s, things that "
                        "differ by %s in decimal place %d: treated as the "
                        "same / zero = %r" % (op["of"], want, "1 or 3",
                                              op["q"], got))
        if kind == "kept":
            for now, then, o, same_hash in val:
                if now != then or not same_hash:
                    return (self.id + "/kept", "objects of %s made earlier "
                            "changed their identity: %r then, %r now" % (
                                o["of"], then, now))
        if kind == "digest":
            for k in val:
                if val.get(k) != ctx.base[k]:
                    return (self.id + "/isolation", "%r changed with a "
                            "setting that has nothing to do with it: %r "
                            "instead of %r" % (k, val.get(k), ctx.base[k]))
        return None

    def coverage(self, ctx, sc, history):
        return dict(ctx.probe)

    def digest(self, rec):
        return repr(rec["value"]) if rec["op"]["kind"] == "probe" else None


CHECK = C12()
