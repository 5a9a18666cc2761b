"""C11: saving a picture is all-or-raise and leaves nothing behind."""

import itertools
import json
import os
import shutil
import sys
import tempfile

import numpy as np

from runner import Check
import lattices
import simclock
import simdisk
from checks.c09 import Term


SHEET = {      # the lattices of the drawing tool: points, vectors
    "square": ([[0, 0]], [[1, 0], [0, 1]]),
    "triangle": ([[0, 0]], [[1, 0], [0.5, 3 ** 0.5 / 2]]),
    "honeycomb": ([[0, 0], [0, 3 ** -0.5]], [[1, 0], [0.5, 3 ** 0.5 / 2]]),
    "kagome": ([[0, 0], [0.25, 3 ** 0.5 / 4], [0.5, 0]],
               [[1, 0], [0.5, 3 ** 0.5 / 2]]),
}


class Ctx:
    pass


def copies(points, vectors, reach):
    """All points translated by up to reach[i] of vector i, in a plane."""
    out = []
    for c in itertools.product(*[range(-n, n + 1) for n in reach]):
        for p in points:
            q = np.array(p, dtype=float)
            for k, v in zip(c, vectors):
                q = q + k * np.array(v, dtype=float)
            out.append([q[0], q[1] if len(q) > 1 else 0.0])
    return np.array(out)


class C11(Check):
    id = "C11"
    quick = {"seeds": 150, "variants": 5}
    thorough = {"seeds": 3000, "variants": 10}
    real = ("lattice/lattice.py, tools/Draw2DLattice.py, line2d.py, show() "
            "of operators and terms, "
            "matplotlib (Agg), Pillow, real files in a scratch directory")
    stub = ("thread scheduling, raw disk writes / open / close (fail, tear, "
            "come up short), allocation in the renderer and in Axes.plot, "
            "the display (plt.show returns at once, or the user closes the "
            "new windows, or presses Ctrl-C), the terminal")
    rule = ("Scenarios let 1-2 callers, with figures of their own open and "
            "being drawn on, save and view lattices (1-3 dimensional, odd "
            "names, several scopes), lines and operators, change directory "
            "and ask refused things; faults fill the disk, fail opens, "
            "closes and allocations and interrupt rendering.")
    assumptions = [
        "callers switch only where control is in HamiltonianPy or a stand-in "
        "(pyplot itself is not thread-safe)",
        "Ctrl-C arrives while rendering, writing or displaying",
        "nobody changes the working directory while a picture is saved",
    ]
    must_reach = ("saved", "save_failed", "viewed", "refused", "own_figures",
                  "sheet")

    def seams(self, eng):
        self.eng = eng
        simclock.install(eng)
        self.disk = simdisk.Disk(eng)
        self.disk.install()

    def imports(self):
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        import PIL.Image
        import HamiltonianPy.lattice
        import HamiltonianPy.line2d
        import HamiltonianPy.quantumoperator  # noqa: F401
        self.plt = plt
        self.PIL = PIL.Image
        PIL.Image.init()
        from matplotlib.axes import Axes
        from matplotlib.backends import backend_agg
        check = self
        eng = self.eng

        def alloc(where):
            eng.point(where, 1 | 8)
            act = eng.device_fault("alloc")
            if act is not None:
                if act["kind"] == "render-interrupt":
                    raise KeyboardInterrupt("while drawing")
                raise MemoryError("while drawing")

        real_plot = self.real_plot = Axes.plot
        real_init = backend_agg.RendererAgg.__init__
        from matplotlib.figure import Figure
        real_save = Figure.savefig

        def savefig(fig, *args, **kwargs):
            if eng.active:
                check.ctx.drawn[eng.cur.tid] = check._drawn(fig)
            return real_save(fig, *args, **kwargs)
        Figure.savefig = savefig

        def plot(ax, *args, **kwargs):
            alloc("plot")
            return real_plot(ax, *args, **kwargs)

        def init(self, *args, **kwargs):
            alloc("render")
            real_init(self, *args, **kwargs)
        import HamiltonianPy.tools.Draw2DLattice as sheet
        self.sheet = sheet
        Axes.plot = plot
        backend_agg.RendererAgg.__init__ = init

        def show(*args, **kwargs):
            if not eng.active:
                return
            eng.point("display", 1 | 8)
            act = eng.device_fault("display")
            if act is not None:
                raise KeyboardInterrupt("display")
            ctx = check.ctx
            ctx.shown += 1
            if ctx.sc["gui"]:
                for n in list(plt.get_fignums()):
                    if n not in ctx.mine:
                        plt.close(n)
        plt.show = show

    def warm(self):
        d = tempfile.mkdtemp(prefix="hamsim-c11-")
        home = os.getcwd()
        out = sys.stdout
        try:
            os.chdir(d)
            sys.stdout = Term()
            fig, ax = self.plt.subplots()
            ax.plot([0, 1], [0, 1])
            ax.set_title("$S_{0}^{x}$")
            fig.savefig("x.png")
            fig.savefig("x.pdf")
            self.plt.close(fig)
        finally:
            sys.stdout = out
            os.chdir(home)
            shutil.rmtree(d, ignore_errors=True)
        self.plt.close("all")

    def gen(self, rng, tier):
        lats = []
        for _ in range(rng.randint(1, 3)):
            d = lattices.gen(rng, 8)
            if lattices.expected(d)[0].shape[0] > 12:
                d = {"make": "cell", "which": "square", "nums": [2, 1, 1]}
            lats.append({"desc": d, "name": rng.choice(
                [None, None, "two words", "a,b=1", "", "no/such", "lat",
                 "J=0.5", ".dot", "v1.2.png", "\u00e9t\u00e9", "x" * 60,
                 " pad "])})
        sc = {"lats": lats, "gui": rng.random() < 0.4, "threads": {},
              "ion": rng.random() < 0.12,
              "figs": rng.choice([0, 1, 2, 3])}
        num = 0
        n_thr = rng.choice([1, 2])
        for t in range(n_thr):
            ops = []
            for _ in range(rng.randint(2, 5)):
                op = self._op(rng, sc, t, n_thr)
                op["id"] = str(num)
                num += 1
                ops.append(op)
            sc["threads"]["T%d" % t] = ops
        sc["settle"] = [{"id": "s0", "kind": "save", "lat": 0, "scope": 0},
                        {"id": "s1", "kind": "query", "lat": 0}]
        return sc

    def _op(self, rng, sc, t, n_thr):
        kinds = ["save", "view", "query", "draw", "refuse", "sheet"]
        w = [9, 3, 2, 2, 1, 3]
        if t == 0:
            kinds += ["open", "focus", "chdir"]
            w += [1, 2, 1 if n_thr == 1 else 0]
        k = rng.choices(kinds, w)[0]
        op = {"kind": k, "lat": rng.randrange(len(sc["lats"]))}
        if k == "save":
            op["scope"] = rng.choice([0, 0, 0, 1, 1, 1, 2, 2, 3, 4])
        elif k == "view":
            op["what"] = rng.choice(["lattice", "line", "relation",
                                     "spin", "term", "number", "aoc", "bz",
                                     "spins"])
        elif k == "sheet":
            which = rng.choice(sorted(SHEET))
            op["which"] = rng.choice([which, which[0]])
            if rng.random() < 0.1:
                op["which"] = rng.choice(["cubic", "S", "", "squares"])
            op["nums"] = [rng.randint(0, 3), rng.randint(1, 3)]
            op["kw"] = kw = {}
            if rng.random() < 0.5:
                kw["link"] = True
            if rng.random() < 0.3:
                kw["trim"] = True
            if rng.random() < 0.2:
                kw["save"] = False
            if rng.random() < 0.6:
                kw["path"] = rng.choice(["", "deep/er", "sub", "sub/", "."])
            if rng.random() < 0.6:
                kw["name"] = rng.choice(["a.png", "two words.png", "b.pdf"])
        elif k == "refuse":
            op["scope"] = rng.choice([-1, 1.5, None])
        elif k in ("focus", "chdir"):
            op["n"] = rng.randrange(3)
        return op

    def fault_kinds(self, sc):
        return ["enospc", "torn", "short", "open-fail", "close-fail",
                "render-memory", "render-interrupt", "display-interrupt"]

    def device_action(self, rng, kind):
        if kind.startswith("render"):
            return "alloc", {}
        if kind.startswith("display"):
            return "display", {}
        return simdisk.action(rng, kind)

    def start(self, eng, sc):
        plt = self.plt
        ctx = self.ctx = Ctx()
        ctx.sc = sc
        ctx.root = tempfile.mkdtemp(prefix="hamsim-c11-")
        ctx.home = os.getcwd()
        for d in ("0", "1", "2"):
            simdisk.REAL_MKDIR(os.path.join(ctx.root, d))
        os.chdir(os.path.join(ctx.root, "0"))
        self.disk.reset(ctx.root)
        ctx.shown = 0
        ctx.mine = {}             # the caller's own figures
        ctx.bad = []
        ctx.probe = {}
        ctx.images = {}
        ctx.drawn = {}            # caller -> what its last picture shows
        ctx.views = 0
        ctx.multi = len(sc["threads"]) > 1
        plt.close("all")
        if sc["ion"]:
            plt.ion()
        for i in range(sc["figs"]):
            self._open(ctx)
        ctx.busy, ctx.gen = {}, {}     # writers of every file
        ctx.lats, ctx.model = [], []
        for d in sc["lats"]:
            lat = lattices.build(d["desc"])
            if d["name"] is not None:
                from HamiltonianPy.lattice import Lattice
                lat = Lattice(np.array(lat.points), np.array(lat.vectors),
                              name=d["name"])
            ctx.lats.append(lat)
            ctx.model.append(self._facts(lat))
        ctx.stdout = sys.stdout
        ctx.term = sys.stdout = Term()
        return ctx

    def _open(self, ctx):
        fig, ax = self.plt.subplots()
        self.real_plot(ax, [0, 1, 2], [0, 1, 0])
        ctx.mine[fig.number] = [fig, self._look(fig)]

    @staticmethod
    def _look(fig):
        return [(a.get_title(), len(a.lines), len(a.texts),
                 [l.get_xydata().tolist() for l in a.lines],
                 a.get_xlim(), a.get_ylim(), a.axison) for a in fig.axes]

    def _facts(self, lat):
        out = {"points": lat.points.tolist(), "vectors": lat.vectors.tolist(),
               "name": lat.name, "d": [lat.neighbor_distance(i)
                                       for i in range(3)]}
        p = lat.points[-1] + lat.vectors[0]
        s, dr = lat.decompose(p)
        out["dec"] = (s.tolist(), dr.tolist())
        out["n"] = len(lat.bonds(nth=1)[0])
        return json.dumps(out)

    def _say(self, ctx, cls, msg):
        ctx.bad.append((self.id + "/" + cls, msg))

    def _hit(self, ctx, name):
        ctx.probe[name] = ctx.probe.get(name, 0) + 1

    def _check_mine(self, ctx, when):
        plt = self.plt
        for n, (fig, look) in ctx.mine.items():
            if n not in plt.get_fignums():
                self._say(ctx, "closed", "a figure of the caller was closed "
                          "(%s)" % when)
                ctx.mine.pop(n)
                return
            if plt._pylab_helpers.Gcf.figs[n].canvas.figure is not fig:
                self._say(ctx, "closed", "a figure of the caller was replaced"
                          " (%s)" % when)
            elif self._look(fig) != look:
                self._say(ctx, "scribbled", "a figure of the caller was drawn"
                          " on (%s)" % when)
                ctx.mine[n][1] = self._look(fig)

    def call(self, ctx, op):
        plt = self.plt
        kind = op["kind"]
        if op["id"].startswith("s"):
            self.disk.full = 0
        lat = ctx.lats[op.get("lat", 0)]
        if ctx.mine:
            self._hit(ctx, "own_figures")
        if kind == "open":
            self._open(ctx)
        elif kind == "focus":
            nums = sorted(ctx.mine)
            if nums:
                plt.figure(nums[op["n"] % len(nums)])
        elif kind == "draw":
            # on one of the caller's figures, through its own axes
            nums = sorted(ctx.mine)
            if nums:
                fig = ctx.mine[nums[-1]][0]
                from matplotlib.lines import Line2D
                fig.axes[0].add_line(Line2D([0, 2], [0.3, 0.4]))
                ctx.mine[nums[-1]][1] = self._look(fig)
        elif kind == "chdir":
            os.chdir(os.path.join(ctx.root, str(op["n"])))
        elif kind == "query":
            now = self._facts(lat)
            if now != ctx.model[op["lat"]]:
                self._say(ctx, "lattice", "the lattice answers differently "
                          "after being drawn")
        elif kind == "refuse":
            self._refuse(ctx, lat, op)
        elif kind == "view":
            self._view(ctx, lat, op)
        elif kind == "save":
            self._save(ctx, lat, op)
        elif kind == "sheet":
            self._sheet(ctx, op)
        self._check_mine(ctx, "%s op %s" % (kind, op["id"]))
        return None

    def _state(self):
        plt = self.plt
        nums = plt.get_fignums()
        return nums, (plt.gcf().number if nums else None)

    def _style(self):
        """The settings of the caller for all figures."""
        import matplotlib
        rc = matplotlib.rcParams
        # "backend" is resolved on demand
        return (self.plt.isinteractive(), repr(sorted(
            (k, v) for k, v in dict.items(rc) if k != "backend")))

    def _refuse(self, ctx, lat, op):
        before = self._state()
        names = self._tree(ctx)
        try:
            lat.show(scope=op["scope"], savefig=True)
        except Exception:
            self._hit(ctx, "refused")
        else:
            self._say(ctx, "accepted", "scope=%r was accepted" % op["scope"])
        if not ctx.multi and (self._state() != before
                              or self._tree(ctx) != names):
            self._say(ctx, "refusal", "a refused picture left something "
                      "behind")

    def _tree(self, ctx):
        out = []
        for d, _, names in os.walk(ctx.root):
            out += [os.path.join(d, n) for n in names]
        return sorted(out)

    def _files(self, ctx):
        """What the files hold."""
        out = {}
        for p in self._tree(ctx):
            with simdisk.REAL_OPEN(p, "rb") as f:
                out[os.path.realpath(p)] = f.read()
        return out

    def _others(self, ctx, before, path):
        """A picture goes to its own file and touches no other."""
        if ctx.multi:
            return
        path = os.path.realpath(path)
        now = self._files(ctx)
        for p in sorted(set(now) | set(before)):
            if p != path and now.get(p) != before.get(p):
                self._say(ctx, "other", "saving %s changed the file %s" % (
                    os.path.basename(path), os.path.basename(p)))

    def _alone(self, ctx, path, job):
        """Run a job that writes a file; was it the only one meanwhile?

        Two callers that write one file at the same time get the file of the
        one that was last, or a torn one if that one failed."""
        busy, gen = ctx.busy, ctx.gen
        alone = not busy.get(path)
        busy[path] = busy.get(path, 0) + 1
        gen[path] = mine = gen.get(path, 0) + 1
        try:
            job()
        finally:
            busy[path] -= 1
        return alone and gen[path] == mine

    def _save(self, ctx, lat, op):
        disk = self.disk
        th = self.eng.cur
        before = self._state()
        path = os.path.join(os.getcwd(), "%s,scope=%d.png" % (
            lat.name, op["scope"]))
        path = os.path.realpath(path)
        hits = disk.hits
        said = len(ctx.term.parts)
        files = None if ctx.multi else self._files(ctx)
        style = self._style()
        err = None
        alone = True
        try:
            alone = self._alone(ctx, path, lambda: lat.show(
                scope=op["scope"], savefig=True))
        except BaseException as e:
            if type(e).__name__ == "SimAbort":
                raise
            err = e
        self._others(ctx, files, path)
        after = self._state()
        if not ctx.multi:
            if self._style() != style:
                self._say(ctx, "style", "saving changed the settings of "
                          "matplotlib")
            if after[0] != before[0]:
                self._say(ctx, "figure-left", "figures %r before, %r after "
                          "saving (%s)" % (before[0], after[0],
                                           type(err).__name__))
                for n in after[0]:
                    if n not in before[0]:
                        self.plt.close(n)
            elif after[1] != before[1]:
                self._say(ctx, "current", "figure %r was current, now %r" % (
                    before[1], after[1]))
        out = "".join(ctx.term.parts[said:])
        three = lat.space_dim > 2
        missing = not os.path.isdir(os.path.dirname(path))
        if err is not None:
            self._hit(ctx, "save_failed")
            if path in out and not ctx.multi:
                self._say(ctx, "report", "a picture that failed was reported "
                          "as saved")
            if not (th.injected or disk.hits > hits or three or missing):
                self._say(ctx, "raised", "saving raised %s: %s" % (
                    type(err).__name__, err))
            return
        if three:
            self._say(ctx, "accepted", "a three dimensional lattice was drawn")
            return
        if path not in out:
            self._say(ctx, "report", "the report %r does not name %s" % (
                out[-200:], path))
        if alone:
            self._image(ctx, op, path)
        self._shows(ctx, ctx.drawn.pop(th.tid, None), copies(
            lat.points, lat.vectors, [op["scope"]] * len(lat.vectors)))

    @staticmethod
    def _drawn(fig):
        """The points that a figure shows, and whether all are visible."""
        out, seen = [], True
        for ax in fig.axes:
            new = [xy for line in ax.lines for xy in line.get_xydata()]
            for c in ax.collections:
                new += (c.get_offsets() if not hasattr(c, "get_segments")
                        else [xy for s in c.get_segments() for xy in s])
            (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
            seen = seen and all(x0 <= x <= x1 and y0 <= y <= y1
                                for x, y in new)
            out += new
        return np.array(out, dtype=float).reshape(-1, 2), seen

    def _shows(self, ctx, drawn, want, trim=False):
        if drawn is None:
            return
        pts, seen = drawn
        for p in want:
            if not len(pts) or np.abs(pts - p).max(axis=1).min() > 1e-6:
                return self._say(ctx, "picture", "the site %s is not in the "
                                 "picture" % p)
        for p in pts:
            if np.abs(want - p).max(axis=1).min() > 1e-6:
                return self._say(ctx, "picture", "%s is in the picture, but "
                                 "is no site" % p)
        if not seen and not trim:
            self._say(ctx, "picture", "some sites lie outside the picture")

    def _sheet(self, ctx, op):
        """The tool that draws sheets of the common planar lattices."""
        disk, th = self.disk, self.eng.cur
        before, tree = self._state(), self._tree(ctx)
        hits, kw = disk.hits, op["kw"]
        full = [k for k in SHEET if op["which"] in (k, k[0])]
        name = kw.get("name") or (full[0] if full else "none") + ".pdf"
        path = os.path.join(os.getcwd(), kw.get("path", ""), name)
        shown, err = ctx.shown, None
        files = None if ctx.multi else self._files(ctx)
        alone = True
        try:
            alone = self._alone(
                ctx, os.path.realpath(path),
                lambda: self.sheet.show(op["which"], *op["nums"], **kw))
        except BaseException as e:
            if type(e).__name__ == "SimAbort":
                raise
            err = e
        self._others(ctx, files, path)
        self._hit(ctx, "sheet")
        after = self._state()
        if not ctx.multi and (set(after[0]) - set(before[0]) or (
                before[1] in after[0] and after[1] != before[1])):
            self._say(ctx, "figure-left", "figures %r (current %r) before, "
                      "%r (%r) after drawing a sheet (%s)" % (
                          before + after + (type(err).__name__,)))
            for n in after[0]:
                if n not in before[0]:
                    self.plt.close(n)
        if err is not None:
            if full and not (th.injected or disk.hits > hits):
                self._say(ctx, "raised", "drawing a sheet raised %s: %s" % (
                    type(err).__name__, err))
            return
        if not full:
            return self._say(ctx, "accepted", "an unknown lattice was drawn")
        if not kw.get("save", True):
            if not ctx.multi and self._tree(ctx) != tree:
                self._say(ctx, "file", "a sheet was saved, unasked")
            return
        drawn = ctx.drawn.pop(th.tid, None)
        self._shows(ctx, drawn, copies(*SHEET[full[0]], op["nums"]),
                    kw.get("trim"))
        if not alone:
            return
        if not name.endswith(".png"):
            try:
                with simdisk.REAL_OPEN(path, "rb") as f:
                    data = f.read()
            except OSError as e:
                data = str(e).encode()
            if not data.startswith(b"%PDF") \
                    or not data.rstrip().endswith(b"%%EOF"):
                self._say(ctx, "file", "drawing a sheet returned, but %s is "
                          "not a complete document: %r" % (name, data[:60]))
            return
        self._image(ctx, {"lat": json.dumps([full, op["nums"], {
            k: kw.get(k) for k in ("link", "trim")}]), "scope": None}, path)

    def _image(self, ctx, op, path):
        try:
            with simdisk.REAL_OPEN(path, "rb") as f:
                data = f.read()
            import io
            img = self.PIL.open(io.BytesIO(data))
            img.verify()
            img = self.PIL.open(io.BytesIO(data))
            img.load()
            pix = np.asarray(img.convert("RGB"))
        except Exception as e:
            self._say(ctx, "file", "saving returned, but %s is not a complete"
                      " image: %s" % (os.path.basename(path), e))
            return
        if img.format != "PNG" or pix.min() == pix.max():
            self._say(ctx, "file", "%s shows nothing" % os.path.basename(path))
            return
        self._hit(ctx, "saved")
        key = (op["lat"], op["scope"])
        old = ctx.images.setdefault(key, pix)
        if old.shape != pix.shape or (old != pix).any():
            self._say(ctx, "picture", "two pictures of the same lattice and "
                      "scope differ")

    def _view(self, ctx, lat, op):
        what = op["what"]
        before = self._state()[0]
        leaves = what not in ("line", "relation")
        import HamiltonianPy.quantumoperator as Q
        ctx.views += leaves
        three = False
        try:
            if what == "lattice":
                three = lat.space_dim > 2
                lat.show(scope=1)
            elif what in ("line", "relation"):
                from HamiltonianPy.line2d import Line2D
                line = Line2D(np.array([0.0, 1.0]), np.array([2.0, 0.5]))
                if what == "line":
                    line.ShowLine()
                else:
                    line.ShowLocationRelation(np.array([1.0, 1.0]))
            elif what == "bz":
                from HamiltonianPy.lattice import ShowFirstBZ
                ShowFirstBZ(np.array([[1.0, 0.0], [0.0, 1.0]]))
            else:
                site = np.array([0.0, 1.0])
                if what == "spin":
                    Q.SpinOperator("x", site=site).show()
                elif what == "number":
                    Q.NumberOperator(site, spin=0).show()
                elif what == "spins":
                    (0.5 * Q.SpinOperator("p", site=site)
                     * Q.SpinOperator("m", site=site + 1)).show()
                elif what == "aoc":
                    Q.AoC(1, site=site, spin=1).show()
                else:
                    (2 * Q.AoC(1, site=site) * Q.AoC(0, site=site)).show()
        except (MemoryError, KeyboardInterrupt):
            if not self.eng.cur.injected:
                raise
        except RuntimeError:
            if not three:
                raise
        else:
            self._hit(ctx, "viewed")
            after = self._state()[0]
            if not ctx.multi and not leaves and set(after) - set(before):
                self._say(ctx, "figure-left", "viewing a line left figures "
                          "%r, %r before" % (after, before))

    def judge(self, ctx, rec):
        exc = rec["exc"]
        if exc is not None and exc[0] != "SimAbort":
            return (self.id + "/raised", "%s raised %s: %s" % (
                rec["op"]["kind"], exc[0], exc[1]))
        return None

    def finish(self, eng, ctx, sc, history):
        plt = self.plt
        try:
            if not eng.abort:
                self._check_mine(ctx, "at the end")
                left = [n for n in plt.get_fignums() if n not in ctx.mine]
                fails = sum(1 for r in history if r["op"]["kind"] == "view")
                if len(left) > fails:
                    self._say(ctx, "figure-left", "%d figures stay registered"
                              " that nobody asked for" % len(left))
                for i, lat in enumerate(ctx.lats):
                    if self._facts(lat) != ctx.model[i]:
                        self._say(ctx, "lattice", "a lattice answers "
                                  "differently at the end")
                if self.disk.still_open():
                    self._say(ctx, "file-open", "a file was left open")
        finally:
            sys.stdout = ctx.stdout
            os.chdir(ctx.home)
            plt.close("all")
            shutil.rmtree(ctx.root, ignore_errors=True)
        return ctx.bad

    def coverage(self, ctx, sc, history):
        return dict(ctx.probe, disk_failures=self.disk.hits)


CHECK = C11()
