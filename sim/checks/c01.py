"""C01: geometric queries answer the brute-force truth in any history."""

import copy
import pickle

import numpy as np

from runner import Check
import lattices
import ref


class C01(Check):
    id = "C01"
    quick = {"seeds": 420, "variants": 5}
    thorough = {"seeds": 8000, "variants": 8}
    real = "lattice.Lattice, lattice database, bond.Bond, scipy cKDTree/cdist"
    stub = "thread scheduling, Ctrl-C delivery, allocation failure"
    rule = ("Scenarios share one or two lattices (six cell types, nine "
            "clusters, random oblique or ribbon cells, some slightly "
            "strained or with 33-64 points) among 1-3 callers "
            "with mixed queries, some put to copies of them (shallow, deep, "
            "pickled) made on the way; afterwards every query kind is asked again.")
    assumptions = [
        "coordinates lie on grids where distinct neighbour distances differ "
        "by more than 5e-4, ten times the documented 4-digit precision",
        "no two cluster points are translations of each other",
    ]
    must_reach = ("beyond_cluster", "far_decompose", "inter_bonds", "clone",
                  "large", "strained")

    def gen(self, rng, tier):
        descs = [lattices.large(rng) if rng.random() < 0.05
                 else lattices.gen(rng)]
        while rng.random() < 0.4 and len(descs) < 3:
            descs.append(lattices.sibling(rng, descs[0])
                         if rng.random() < 0.7 else lattices.gen(rng))
        for d in descs:
            if d["make"] == "custom" and rng.random() < 0.25:
                self._strain(rng, d)
        nthread = rng.choice([1, 1, 2, 2, 3])
        threads, n = {}, 0
        for t in range(nthread):
            ops = []
            for _ in range(rng.randint(2, 6)):
                ops.append(self._op(rng, descs, n))
                n += 1
                if ops[-1]["kind"] in ("rebuild", "clone"):
                    ops.append(self._op(rng, descs, n, rng.choice(
                        ["dist", "dist", "bonds"]), ops[-1]["lat"]))
                    ops[-1]["on"] = "clone"
                    n += 1
            threads["T%d" % t] = ops
        settle = []
        for i in range(len(descs)):
            for kind in ("dist", "dist", "bonds", "decompose", "index",
                         "state"):
                settle.append(self._op(rng, descs, n, kind, i, "s"))
                n += 1
        return {"lattices": descs, "threads": threads, "settle": settle}

    @staticmethod
    def _strain(rng, d):
        """Make some equal distances differ by a few thousandths."""
        i = rng.randrange(len(d["vectors"]))
        f = 1 + 0.001 * rng.randint(2, 6)
        d["vectors"] = [[x * f for x in v] if k == i else list(v)
                        for k, v in enumerate(d["vectors"])]
        if rng.random() < 0.5:
            p = rng.choice(d["points"])
            p[rng.randrange(len(p))] += 0.001 * rng.randint(2, 6)
        d["strained"] = True

    def _op(self, rng, descs, n, kind=None, li=None, prefix=""):
        li = rng.randrange(len(descs)) if li is None else li
        desc = descs[li]
        pts, vec = lattices.expected(desc)
        kind = kind or rng.choices(
            ["dist", "bonds", "decompose", "index", "site", "member",
             "state", "rebuild", "clone"], [6, 6, 5, 4, 1, 2, 2, 2, 2])[0]
        op = {"id": "%s%d" % (prefix, n), "kind": kind, "lat": li}
        if kind == "clone":
            op["how"] = rng.choice(["pickle", "pickle", "copy", "deepcopy"])
        if kind != "rebuild" and rng.random() < 0.3:
            op["on"] = "clone"
        three = pts.shape[1] == 3
        many = len(pts) > 20
        if kind == "dist":
            op["nth"] = rng.choice([0, 1, 2, 3, 4, 5, 6]
                                   + ([] if three else [8, 10, 13, 17, 25])
                                   + ([60] if len(pts) < 4
                                      and pts.shape[1] < 3 else []))
        elif kind == "bonds":
            op["nth"] = rng.choices([0, 1, 2, 3, 4, 6],
                                    [1, 5, 4, 3, 2, 0 if three or many else 1])[0]
            op["only"] = rng.random() < 0.6
            op["look"] = rng.randrange(7)
            op["fold"] = rng.random() < 0.35
        elif kind in ("decompose", "index", "member"):
            far = rng.choice([0, 1, 1, 2, 3, 7, 20])
            c = [rng.randint(-far, far) for _ in range(len(vec))]
            while far > 1 and np.prod([2 * b + 1 for b in ref.span_bound(
                    vec, 2 + np.linalg.norm(np.array(c) @ vec))]) > 20000:
                far //= 2
                c = [x // 2 for x in c]
            op["far"] = far
            p = pts[rng.randrange(len(pts))] + np.array(c, dtype=float) @ vec
            if rng.random() < 0.22:
                move = rng.choice([[0.137, 0.211, 0.319], [0.137, 0, 0],
                                   [0.0103, 0, 0], [0, 0.0037, 0.0037],
                                   [0.00072, 0, 0], [-0.0037, 0.00072, 0]])
                p = p + np.array((move if any(move[:len(p)])
                                  else move[::-1])[:len(p)])
            elif rng.random() < 0.3:
                p = p + 1e-6 * np.array([rng.choice([-1, 0, 1])
                                         for _ in p])
            op["site"] = [float(x) for x in p]
            op["fold"] = rng.random() < 0.6
            op["buf"] = rng.random() < 0.4
        elif kind == "site":
            op["index"] = rng.randrange(len(pts))
            if rng.random() < 0.2:      # there is no such point
                op["index"] = rng.choice([-1, -len(pts), len(pts),
                                          len(pts) + 3])
        return op

    def start(self, eng, sc):
        self.eng = eng
        ctx = {"sc": sc, "lat": [], "model": [], "points": [], "text": [],
               "bad": [], "clone": {}, "desc": [], "buf": {}}
        for desc in sc["lattices"]:
            if "named" in desc:     # called as the one that it resembles
                desc = dict(desc, name="" if desc["named"] is None
                            else ctx["lat"][0].name)
            lat = lattices.build(desc)
            ctx["desc"].append(desc)
            pts = np.array(lat._points if hasattr(lat, "_points")
                           else lat.points, copy=True)
            exp, vec = lattices.expected(desc)
            if not lattices.same_point_set(pts, exp):
                ctx["bad"].append("points of %r differ from the definition"
                                  % (desc,))
            ctx["lat"].append(lat)
            ctx["points"].append(pts)
            ctx["text"].append(str(lat))
            ctx["model"].append(ref.LatticeModel(pts, vec))
        return ctx

    @staticmethod
    def _state(lat):
        return (np.array(lat.points), np.array(lat.vectors),
                np.array(lat.bs), lat.point_num, lat.space_dim,
                lat.trans_dim, str(lat))

    def _place(self, ctx, op):
        """The asked point: an array of its own, or the array that the caller
        uses for all its questions."""
        if not op.get("buf"):
            return np.array(op["site"])
        key = (self.eng.cur.tid, len(op["site"]))
        buf = ctx["buf"].setdefault(key, np.zeros(len(op["site"])))
        buf[:] = op["site"]
        return buf

    @staticmethod
    def _facts(b):
        """What a bond says about itself."""
        p, q = (np.array(x, dtype=float) for x in b.endpoints)
        out = [p, q, float(b.getLength())]
        if b.directional:
            back = b.flip()
            out += [np.array(b.getDisplace()),
                    np.atleast_1d(b.getAzimuth(radian=True)),
                    np.atleast_1d(b.getAzimuth()) * np.pi / 180,
                    [np.array(x, dtype=float) for x in back.endpoints],
                    bool(b.oppositeTo(back)), bool(b.oppositeTo(b))]
        # what is left of them when rounded
        for k in (0, 2, 5):
            if abs(b.getLength(ndigits=k) - np.around(out[2], k)) > 1e-9:
                out[2] = float("nan")
            for f in ((b.getDisplace, b.getAzimuth) if b.directional else ()):
                if np.any(np.abs(np.array(f(ndigits=k))
                                 - np.around(f(), k)) > 1e-9):
                    out[2] = float("nan")
        return out

    @staticmethod
    def _untrue(facts):
        p, q, length = facts[:3]
        dr = q - p
        if not abs(length - np.sqrt((dr ** 2).sum())) < 1e-9:
            return "length %r" % length
        if len(facts) == 3:
            return None
        move, rad, deg, (bp, bq), opp, own = facts[3:]
        if np.abs(move - dr).max() > 1e-9:
            return "displacement %r" % (move,)
        if len(dr) == 3:        # angles to the z-axis and in the plane
            r = np.sqrt((dr ** 2).sum())
            want = [np.arccos(np.clip(dr[2] / r, -1, 1)) if r else 0.0,
                    np.angle(dr[0] + 1j * dr[1])]
        else:
            want = [np.angle(dr[0] + 1j * (dr[1] if len(dr) == 2 else 0))]
        for got in (rad, deg):  # -pi and pi are the same angle
            if np.shape(got) != np.shape(want) or np.abs(np.exp(
                    1j * np.array(got)) - np.exp(1j * np.array(want))
                    ).max() > 1e-6:
                return "azimuth %r instead of %r" % (got, want)
        if np.abs(bp - q).max() > 0 or np.abs(bq - p).max() > 0:
            return "flipped %r" % ((bp, bq),)
        if not opp or own != (np.abs(dr).max() < 1e-4):
            return "opposite %r, %r" % (opp, own)
        return None

    def call(self, ctx, op):
        lat = ctx["lat"][op["lat"]]
        kind = op["kind"]
        if op.get("on"):        # the copy that was made last, if any
            lat = ctx["clone"].get(op["lat"], lat)
        if kind == "clone":
            new = (copy.copy(lat) if op["how"] == "copy"
                   else copy.deepcopy(lat) if op["how"] == "deepcopy"
                   else pickle.loads(pickle.dumps(lat)))
            ctx["clone"][op["lat"]] = new
            return self._state(new)
        if kind == "dist":
            return float(lat.neighbor_distance(op["nth"]))
        if kind == "bonds":
            intra, inter = lat.bonds(op["nth"], only=op["only"],
                                     fold=op["fold"])
            f = lambda bs: [tuple(np.array(p, copy=True)
                                  for p in b.endpoints) + (b.directional,)
                            for b in bs]
            some = (intra + (inter or []))[op.get("look", 0)::7][:4]
            return (f(intra), (None if inter is None else f(inter)),
                    [self._facts(b) for b in some])
        if kind == "decompose":
            p, dR = lat.decompose(self._place(ctx, op))
            return np.array(p, copy=True), np.array(dR, copy=True)
        if kind == "index":
            return int(lat.getIndex(self._place(ctx, op), fold=op["fold"]))
        if kind == "member":
            return bool(lat.in_cluster(self._place(ctx, op)))
        if kind == "site":
            return np.array(lat.getSite(op["index"]), copy=True)
        if kind == "state":
            return self._state(lat)
        if kind == "rebuild":
            new = lattices.build(ctx["desc"][op["lat"]])
            ctx["clone"][op["lat"]] = new
            return self._state(new)
        raise ValueError(kind)

    def judge(self, ctx, rec):
        op, kind = rec["op"], rec["op"]["kind"]
        li = op["lat"]
        model, pts = ctx["model"][li], ctx["points"][li]
        where = None
        if "site" in op:
            where = model.locate(op["site"])
            inside = where is not None and not any(where[1])
        exc, v = rec["exc"], rec["value"]

        def bad(msg):
            return (self.id + "/" + kind, msg)

        if exc is not None:
            if rec["injected"]:
                return None
            if kind == "decompose" and where is None \
                    and exc[0] in ("RuntimeError", "KeyError"):
                return None
            if kind == "index" and exc[0] in ("KeyError", "RuntimeError") \
                    and (where is None or (not op["fold"] and not inside)):
                return None
            if kind == "dist" and len(model.vectors) == 0:
                return None
            if kind == "site" and not 0 <= op["index"] < len(pts):
                return None
            return bad("raised %s: %s" % exc)
        if kind == "dist":
            ds = model.distances(op["nth"])
            if self._ambiguous(ds, op["nth"]):
                return None
            if abs(v - ds[op["nth"]]) > 6e-5:
                return bad("distance %d is %.6f, truth %.6f" % (
                    op["nth"], v, ds[op["nth"]]))
        elif kind == "bonds":
            return self._bonds(ctx, op, v, model, pts, bad)
        elif kind == "decompose":
            if where is None:
                return bad("decomposed a point outside the lattice")
            p, dR = v
            i, c = where
            if np.linalg.norm(p - pts[i]) > 1e-4 or np.linalg.norm(
                    dR - np.array(c, dtype=float) @ model.vectors) > 1e-4:
                return bad("gave %s + %s" % (p, dR))
        elif kind == "index":
            if where is None or (not op["fold"] and not inside):
                return bad("gave index %d to a foreign point" % v)
            if v != where[0]:
                return bad("gave index %d, truth %d" % (v, where[0]))
        elif kind == "member":
            if v != (where is not None and inside):
                return bad("membership %s" % v)
        elif kind == "site":
            if not 0 <= op["index"] < len(pts):
                return bad("point %d of %d was answered"
                           % (op["index"], len(pts)))
            if np.abs(v - pts[op["index"]]).max() > 0:
                return bad("site %d moved" % op["index"])
        elif kind in ("state", "rebuild", "clone"):
            b = 2 * np.pi * np.linalg.pinv(model.vectors).T
            ok = (v[0].shape == pts.shape and np.array_equal(v[0], pts)
                  and np.allclose(v[1], model.vectors, atol=1e-12)
                  and np.allclose(v[2], b, atol=1e-9)
                  and v[3] == len(pts) and v[4] == pts.shape[1]
                  and v[5] == len(model.vectors)
                  and v[6] == ctx["text"][li])
            if not ok:
                return bad("the lattice changed: %r" % (v,))
        return None

    @staticmethod
    def _ambiguous(ds, nth):
        ds = np.array(ds[:nth + 2])
        return len(ds) > 1 and np.diff(ds).min() < 5e-4

    def _bonds(self, ctx, op, v, model, pts, bad):
        intra, inter, looked = v
        nth = op["nth"]
        for facts in looked:
            no = self._untrue(facts)
            if no:
                return bad("bond %s-%s: %s" % (facts[0], facts[1], no))
        if nth == 0:
            got = []
            for p0, p1, _ in intra:
                i = self._in(pts, p0)
                if i is None or np.linalg.norm(p0 - p1) > 1e-9:
                    return bad("onsite bond %s-%s" % (p0, p1))
                got.append(i)
            if sorted(got) != list(range(len(pts))) or inter:
                return bad("onsite bonds %s" % sorted(got))
            return None
        ds = model.distances(nth + 1)
        if self._ambiguous(ds, nth):
            return None
        low = ds[nth - 1] if op["only"] else 0.0
        want_in, want_out = model.bonds(low, ds[nth])
        got_in = []
        for p0, p1, d in intra:
            i, j = self._in(pts, p0), self._in(pts, p1)
            if i is None or j is None or d is not True:
                return bad("intra bond %s-%s is not inside" % (p0, p1))
            got_in.append((min(i, j), max(i, j)))
        if sorted(got_in) != want_in:
            return bad("intra bonds %s, truth %s" % (sorted(got_in), want_in))
        if op["fold"]:
            got = []
            for p0, p1, d in inter:
                i, j = self._in(pts, p0), self._in(pts, p1)
                if i is None or j is None:
                    return bad("folded bond %s-%s leaves the cluster"
                               % (p0, p1))
                got.append((min(i, j), max(i, j)))
            want = sorted((min(i, j), max(i, j)) for i, j, _ in want_out)
            if sorted(got) != want:
                return bad("folded bonds %s, truth %s" % (sorted(got), want))
            return None
        got = []
        for p0, p1, d in inter:
            a, b = model.locate(p0), model.locate(p1)
            if a is None or b is None:
                return bad("bond %s-%s ends off the lattice" % (p0, p1))
            if any(a[1]) or not any(b[1]):
                return bad("bond %s-%s does not leave the cluster" % (p0, p1))
            got.append(model.canon(a[0], b[0], b[1]))
        if sorted(got) != want_out:
            miss = [k for k in want_out if k not in got]
            extra = [k for k in got if k not in want_out]
            return bad("boundary bonds: %d given, %d exist; missing %s, "
                       "extra %s" % (len(got), len(want_out), miss[:3],
                                     extra[:3]))
        return None

    @staticmethod
    def _in(pts, p):
        d = np.sqrt(((pts - np.asarray(p)) ** 2).sum(-1))
        i = int(d.argmin())
        return i if d[i] < 1e-4 else None

    def finish(self, eng, ctx, sc, history):
        return [(self.id + "/definition", m) for m in ctx["bad"]]

    def coverage(self, ctx, sc, history):
        out = {"beyond_cluster": 0, "far_decompose": 0, "inter_bonds": 0,
               "clone": 0, "large": 0, "strained": 0}
        for d in sc["lattices"]:
            out["strained"] += bool(d.get("strained"))
            out["large"] += len(d.get("points", ())) > 32
        for r in history:
            op = r["op"]
            out["clone"] += op["kind"] == "clone"
            if op["kind"] == "dist" and op["nth"] >= 5:
                out["beyond_cluster"] += 1
            if op["kind"] in ("decompose", "index") and op["far"] > 1:
                out["far_decompose"] += 1
            if op["kind"] == "bonds" and r.get("value") and r["value"][1]:
                out["inter_bonds"] += 1
        return out

    def digest(self, rec):
        return repr(rec.get("value"))


CHECK = C01()
