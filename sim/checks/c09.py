"""C09: run-time environments restore the process and keep their logs."""

import contextlib
import io
import os
import shutil
import sys
import tempfile

from runner import Check
import simclock
import simdisk

CORES = 8


class BadText(Exception):
    """An exception whose text cannot be made."""

    def __str__(self):
        raise RuntimeError("no text")


class UserError(Exception):
    pass


RAISE = {"value": lambda: ValueError("body value"),
         "user": lambda: UserError("body", 7),
         "key": lambda: KeyError("body key"),
         "bad": BadText,
         "exit": lambda: SystemExit(3),
         "exit0": lambda: SystemExit(0),
         "exitnone": lambda: SystemExit(),
         "pipe": lambda: BrokenPipeError(32, "body pipe"),
         "missing": lambda: FileNotFoundError(2, "body file"),
         "exists": lambda: FileExistsError(17, "body file"),
         "full": lambda: OSError(28, "body disk"),
         "memory": lambda: MemoryError("body memory"),
         "stop": lambda: StopIteration("body stop"),
         "close": lambda: GeneratorExit("body close"),
         "assert": lambda: AssertionError(),
         "warning": lambda: DeprecationWarning("body warning"),
         "group": lambda: ExceptionGroup("body group", [ValueError(1)]),
         "lines": lambda: RuntimeError("body\nlines %s {0}"),
         "ctrlc": lambda: KeyboardInterrupt("body")}


class Term:
    """The terminal: remembers what was written to it."""

    encoding = "utf-8"
    errors = "strict"

    def __init__(self):
        self.parts = []

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError("terminal got %r" % type(s))
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return True

    def text(self):
        return "".join(self.parts)


class Ctx:
    pass


class C09(Check):
    id = "C09"
    quick = {"seeds": 420, "variants": 9}
    thorough = {"seeds": 12000, "variants": 16}
    real = ("tools/runtimeenv.py, tools/colorprint.py, Python's text and "
            "buffered I/O layers, real files in a scratch directory")
    stub = ("thread scheduling, the clock, raw disk writes / open / close / "
            "mkdir (fail, tear, come up short), the terminal, MKL's thread "
            "counters (a counter with MKL's documented semantics)")
    rule = ("Scenarios enter 1-6 environments (nested, re-entered, reused, "
            "several per second, with logs of earlier processes lying there) "
            "whose bodies print, change thread counts, replace standard "
            "output, raise (also unprintable exceptions) while other threads "
            "print; faults fail opens, writes, closes and directory creation, "
            "stop or set back the clock and interrupt bodies.")
    assumptions = [
        "environments are left in the reverse order of entry and only one "
        "thread opens them (standard output belongs to the process)",
        "Ctrl-C arrives in the body, not between the few statements of "
        "__enter__/__exit__ (no Python code can be safe there)",
    ]
    must_reach = ("logs", "enter_failed", "exit_failed", "body_raised",
                  "nested", "collision", "reused", "overlapped")

    def seams(self, eng):
        self.eng = eng
        simclock.install(eng)
        self.disk = simdisk.Disk(eng)
        self.disk.install()
        import mkl
        self.mkl = mkl
        state = self.mkl_state = {"n": CORES}

        def get_max_threads():
            return state["n"]

        def set_num_threads(n):
            old = state["n"]
            n = int(n)
            state["n"] = CORES if n <= 0 else min(n, CORES)
            return old
        mkl.get_max_threads = get_max_threads
        mkl.set_num_threads = set_num_threads

    def imports(self):
        import HamiltonianPy.tools.runtimeenv  # noqa: F401
        import HamiltonianPy.tools.colorprint  # noqa: F401

    # -- scenarios ---------------------------------------------------------
    def gen(self, rng, tier):
        self.num = 0
        n_env = rng.randint(1, 3)
        envs = [{"rd": rng.random() < 0.8,
                 "threads": rng.choice([None, 1, 2, 3, 5, 64]),
                 "path": rng.choice([".", "a", "a", "b/c", "b", "n/e/w"]),
                 "abs": rng.random() < 0.3} for _ in range(n_env)]
        sc = {"envs": envs, "threads": {}, "settle": [],
              "start_threads": rng.choice([8, 8, 4, 2]),
              "old_logs": rng.choice([0, 0, 1, 3]),
              "origin": rng.choice([0.0, 0.0, 0.95, 59.99])}
        ops = []
        for _ in range(rng.randint(1, 4)):
            ops.append(self._op(rng, sc, n_env))
        sc["threads"]["T0"] = ops
        for t in range(1, rng.choice([1, 1, 2, 3])):
            sc["threads"]["T%d" % t] = [
                {"id": "p%d%d" % (t, i), "kind": "lines",
                 "n": rng.randint(1, 3)} for i in range(rng.randint(1, 3))]
        if len(sc["threads"]) > 1:     # whose output goes where is open then
            for op in ops:
                if op["kind"] == "overlap":
                    op["kind"], op["n"] = "lines", 1
        env = {"rd": True, "threads": 2, "path": rng.choice(["a", "z"]),
               "abs": False}
        envs.append(env)
        sc["settle"] = [
            {"id": "s0", "kind": "make", "env": n_env},
            {"id": "s1", "kind": "session", "env": n_env,
             "body": [{"do": "print", "n": 2}, {"do": "raise", "what":
                      rng.choice(["value", "exit"])}]
             if rng.random() < 0.5 else [{"do": "print", "n": 2}]},
            {"id": "s2", "kind": "lines", "n": 1}]
        first = [{"id": "m%d" % i, "kind": "make", "env": i}
                 for i in range(n_env)]
        sc["threads"]["T0"] = first + ops
        return sc

    def _op(self, rng, sc, n_env):
        self.num += 1
        oid = str(self.num)
        r = rng.random()
        if r < 0.72:
            return {"id": oid, "kind": "session", "env": rng.randrange(n_env),
                    "body": self._body(rng, n_env, 0)}
        if r < 0.76 and n_env > 1:
            return {"id": oid, "kind": "overlap",
                    "envs": rng.sample(range(n_env), 2)}
        if r < 0.80:
            return {"id": oid, "kind": "reject", "threads":
                    rng.choice([0, -3, 2.5, "4", []])}
        if r < 0.88:
            return {"id": oid, "kind": "make", "env": rng.randrange(n_env)}
        if r < 0.94:
            return {"id": oid, "kind": "chdir",
                    "to": rng.choice(["a", "b", "."])}
        return {"id": oid, "kind": "lines", "n": rng.randint(1, 3)}

    def _body(self, rng, n_env, depth):
        body = []
        for _ in range(rng.randint(0, 5)):
            r = rng.random()
            if r < 0.42:
                body.append({"do": "print", "n": rng.randint(1, 3),
                             "odd": rng.random() < 0.25})
            elif r < 0.50:
                body.append({"do": "color", "n": 1})
            elif r < 0.56:
                body.append({"do": "long", "n": rng.choice([3000, 20000])})
            elif r < 0.61:
                body.append({"do": "threads", "n": rng.randint(1, 8)})
            elif r < 0.65:
                body.append({"do": "redirect"})
            elif r < 0.68:
                body.append({"do": "hijack"})
            elif r < 0.72:
                body.append({"do": "partial"})
            elif r < 0.76:
                body.append({"do": "sleep",
                             "s": rng.choice([0.2, 1.0, 61.0])})
            elif depth < 2:
                body.append({"do": "session", "env": rng.randrange(n_env),
                             "body": self._body(rng, n_env, depth + 1),
                             "catch": rng.random() < 0.6})
        if rng.random() < 0.3:
            body.append({"do": "raise", "what": rng.choice(sorted(RAISE))})
        return body

    def fault_kinds(self, scenario):
        return ["enospc", "torn", "short", "open-fail", "close-fail",
                "taken", "mkdir-fail", "mkdir-taken", "clock-jump",
                "clock-jump", "clock-stall", "body-interrupt"]

    def device_action(self, rng, kind):
        if kind == "clock-jump":
            return "clock", {"jump": rng.choice([-1.0, -0.05, -3600.0,
                                                 -86400.0, 3600.0])}
        if kind == "clock-stall":
            return "clock", {"stall": rng.choice([20, 200])}
        if kind == "body-interrupt":
            return "body", {}
        return simdisk.action(rng, kind)

    # -- a run -------------------------------------------------------------
    def start(self, eng, sc):
        from HamiltonianPy.tools.runtimeenv import RunTimeEnv
        ctx = Ctx()
        ctx.RunTimeEnv = RunTimeEnv
        ctx.sc = sc
        ctx.root = tempfile.mkdtemp(prefix="hamsim-c09-")
        ctx.home = os.getcwd()
        os.chdir(ctx.root)
        for d in ("a", "b", "z"):
            simdisk.REAL_MKDIR(os.path.join(ctx.root, d))
        eng.now = sc["origin"]
        eng.stalled = 0
        ctx.old = {}
        for i in range(sc["old_logs"]):
            name = "Log %s.txt" % simclock.REAL["strftime"](
                "%Y-%m-%d %H-%M-%S",
                simclock.REAL["gmtime"](simclock.EPOCH + sc["origin"] + i))
            for d in ("", "a", "b"):
                p = os.path.join(ctx.root, d, name)
                with simdisk.REAL_OPEN(p, "w") as f:
                    f.write("an earlier process wrote this, %d\n" % i * 9)
        self.disk.reset(ctx.root)
        self.mkl_state["n"] = sc["start_threads"]
        ctx.stdout, ctx.stderr = sys.stdout, sys.stderr
        ctx.term = sys.stdout = Term()
        ctx.err = sys.stderr = Term()
        ctx.envs = {}
        ctx.bad = []
        ctx.open = []          # sessions now open, outermost first
        ctx.sessions = []
        ctx.files = self._files(ctx)
        ctx.count = 0
        ctx.probe = {}
        ctx.outside = []       # lines other threads printed
        return ctx

    def _files(self, ctx):
        out = {}
        for d, _, names in os.walk(ctx.root):
            for n in names:
                p = os.path.join(d, n)
                with simdisk.REAL_OPEN(p, "rb") as f:
                    out[p] = f.read()
        return out

    def _say(self, ctx, cls, msg):
        ctx.bad.append((self.id + "/" + cls, msg))

    def _hit(self, ctx, name):
        ctx.probe[name] = ctx.probe.get(name, 0) + 1

    def call(self, ctx, op):
        kind = op["kind"]
        disk = self.disk
        if op["id"].startswith("s"):
            disk.full = 0
        if kind == "make":
            d = ctx.sc["envs"][op["env"]]
            before = (sys.stdout, self.mkl_state["n"])
            hits = disk.hits
            path = d["path"]
            real = os.path.realpath(path)
            if d["abs"]:
                path = os.path.join(ctx.root, d["path"])
                real = os.path.realpath(path)
            try:
                env = ctx.RunTimeEnv(rd=d["rd"], path=path,
                                     threads_num=d["threads"])
            except OSError as e:
                if disk.hits == hits:
                    self._say(ctx, "constructor", "the constructor raised %r"
                              " without a disk failure" % e)
            else:
                want = d["threads"]
                if want is None:
                    want = self.mkl_state["n"]
                ctx.envs[op["env"]] = (env, real, min(want, CORES), d["rd"])
            if (sys.stdout, self.mkl_state["n"]) != before:
                self._say(ctx, "constructor", "making an environment already "
                          "changed the process")
            return None
        if kind == "reject":
            before = (sys.stdout, self.mkl_state["n"])
            try:
                ctx.RunTimeEnv(rd=True, path="bad", threads_num=op["threads"])
            except ValueError:
                pass
            else:
                self._say(ctx, "accepted", "threads_num=%r was accepted"
                          % (op["threads"],))
            if (sys.stdout, self.mkl_state["n"]) != before:
                self._say(ctx, "constructor", "a rejected environment "
                          "changed the process")
            return None
        if kind == "chdir":
            os.chdir(os.path.join(ctx.root, op["to"]))
            return None
        if kind == "lines":
            for i in range(op["n"]):
                line = "<%s.%d>" % (op["id"], i)
                hits = disk.hits
                try:
                    print(line)
                except OSError as e:
                    if disk.hits == hits:
                        self._say(ctx, "printer", "print in another thread "
                                  "raised %r" % e)
                else:
                    ctx.outside.append(line)
                self.eng.point("printer", 1 | 8)
            return None
        if kind == "overlap":
            self._overlap(ctx, *op["envs"])
            return None
        if kind == "session":
            try:
                self._session(ctx, op, op["id"])
            except BaseException as e:
                if type(e).__name__ == "SimAbort":
                    raise
            return None
        raise AssertionError(kind)

    def _overlap(self, ctx, a, b):
        """Two environments left in the order in which they were entered."""
        if a not in ctx.envs or b not in ctx.envs:
            return
        disk = self.disk
        at_first = sys.stdout
        n_open = len(disk.still_open())
        before, left = {}, []
        try:
            for i in (a, b):
                now = (sys.stdout, self.mkl_state["n"])
                ctx.envs[i][0].__enter__()
                before[i] = now
                self.eng.point("overlap", 1 | 8)
        except OSError as e:
            if not disk.hits:
                self._say(ctx, "failure", "entering raised %r although "
                          "nothing failed" % e)
        for i in sorted(before, key=(a, b).index):
            try:
                ctx.envs[i][0].__exit__(None, None, None)
            except OSError as e:
                if not disk.hits:
                    self._say(ctx, "failure", "leaving raised %r although "
                              "nothing failed" % e)
            left.append(i)
            # a log that was closed since is nothing to go back to, and
            # who did not redirect the output does not take it back
            ra, rb = ctx.envs[a][3], ctx.envs[b][3]
            if (ra or not rb if i == a else not ra) \
                    and sys.stdout is not before[i][0]:
                self._say(ctx, "stdout", "standard output is not what it "
                          "was before environment %d was entered, having "
                          "left %s of %s" % (i, left, [a, b]))
            if self.mkl_state["n"] != before[i][1]:
                self._say(ctx, "threads", "MKL uses %d threads after "
                          "environment %d was left (%s of %s), %d before" % (
                              self.mkl_state["n"], i, left, [a, b],
                              before[i][1]))
        sys.stdout = at_first
        if before:
            self.mkl_state["n"] = before[a][1]
        if len(disk.still_open()) > n_open:
            self._say(ctx, "log-open", "a log was not closed")
            disk.opened = [f for f in disk.opened if f.closed]
        self._hit(ctx, "overlapped")
        now = self._files(ctx)
        self._unchanged(ctx, now, "while %s were open" % [a, b])
        ctx.files = now

    # -- one environment ---------------------------------------------------
    def _session(self, ctx, d, name):
        """Enter and leave an environment; re-raises what comes out."""
        if d["env"] not in ctx.envs:
            return
        env, path, want, rd = ctx.envs[d["env"]]
        disk = self.disk
        ctx.count += 1
        s = {"name": "%s#%d" % (name, ctx.count), "rd": rd, "path": path,
             "lines": [], "reported": 0, "body": None, "file": None,
             "own": 0, "env": d["env"]}
        if any(o["env"] == d["env"] for o in ctx.open):
            self._hit(ctx, "reused")
        before = (sys.stdout, self.mkl_state["n"])
        files = self._files(ctx)
        n_open = len(disk.still_open())
        hits = disk.hits
        err_before = len(ctx.err.parts)
        self._unchanged(ctx, files, "before entering")
        try:
            with env as got:
                s["entered"] = True
                self._entered(ctx, s, env, got, before, files, want)
                ctx.open.append(s)
                if len(ctx.open) > 1:
                    self._hit(ctx, "nested")
                try:
                    self._body_of(ctx, s, d["body"])
                except BaseException as e:
                    s["body"] = e
                    raise
                finally:
                    if ctx.open and ctx.open[-1] is s:
                        ctx.open.pop()
                    ctx.files = self._files(ctx)
        except BaseException as e:
            if type(e).__name__ == "SimAbort":
                raise
            out = e
        else:
            out = None
        after = (sys.stdout, self.mkl_state["n"])
        if after[0] is not before[0]:
            self._say(ctx, "stdout", "standard output is not what it was "
                      "before environment %s was entered (out: %s)" % (
                          s["name"], type(out).__name__))
            sys.stdout = before[0]
        if after[1] != before[1]:
            self._say(ctx, "threads", "MKL uses %d threads after environment "
                      "%s was left, %d before" % (
                          after[1], s["name"], before[1]))
            self.mkl_state["n"] = before[1]
        if isinstance(out, simdisk.Hung):
            self._say(ctx, "hung", "environment %s tries for ever to open "
                      "its log on a disk that refuses" % s["name"])
        if len(disk.still_open()) > n_open:
            self._say(ctx, "log-open", "the log of %s was not closed"
                      % s["name"])
            disk.opened = [f for f in disk.opened if f.closed]
        reported = s["reported"]
        if s["body"] is not None:
            self._hit(ctx, "body_raised")
            if out is not s["body"]:
                self._say(ctx, "exception", "the body of %s raised %s, the "
                          "caller got %s" % (
                              s["name"], type(s["body"]).__name__,
                              type(out).__name__))
            reported += len(ctx.err.parts) > err_before
        elif out is not None:
            reported += 1
            self._hit(ctx, "exit_failed" if s.get("entered")
                      else "enter_failed")
            if not isinstance(out, OSError) or disk.hits == hits:
                self._say(ctx, "failure", "environment %s raised %s: %s "
                          "although nothing failed" % (
                              s["name"], type(out).__name__, _str(out)))
        self._closed(ctx, s, reported)
        if out is not None:
            raise out

    def _entered(self, ctx, s, env, got, before, files, want):
        if got is not env:
            self._say(ctx, "enter", "`with env as x` did not give the "
                      "environment")
        if self.mkl_state["n"] != want:
            self._say(ctx, "threads", "%d MKL threads inside %s, %d asked "
                      "for" % (self.mkl_state["n"], s["name"], want))
        now = self._files(ctx)
        files = dict(files, **self.disk.foreign)
        for p in files:
            if p not in now or not now[p].startswith(files[p]):
                self._say(ctx, "destroyed", "entering environment %s "
                          "destroyed %s" % (s["name"],
                                            os.path.relpath(p, ctx.root)))
        if s["rd"] and sys.stdout is before[0]:
            self._say(ctx, "stdout", "output of %s is not redirected"
                      % s["name"])
        if not s["rd"] and sys.stdout is not before[0]:
            self._say(ctx, "stdout", "output of %s was redirected unasked"
                      % s["name"])
        new = [p for p in now if p not in files]
        if s["rd"]:
            self._hit(ctx, "logs")
            here = [p for p in files if os.path.dirname(p) == s["path"]]
            if new and any(os.path.basename(p)[:24] == os.path.basename(
                    new[0])[:24] for p in here):
                self._hit(ctx, "collision")
        ctx.files = now

    def _unchanged(self, ctx, now, when):
        """Finished logs and foreign files never change."""
        busy = {o["file"] for o in ctx.open}
        for p, data in {**ctx.files, **self.disk.foreign}.items():
            if p in busy:
                continue
            if p not in now or not now[p].startswith(data):
                self._say(ctx, "destroyed", "%s changed (%s)" % (
                    os.path.relpath(p, ctx.root), when))

    def _body_of(self, ctx, s, body):
        disk = self.disk
        logs = [o for o in ctx.open if o["rd"]]
        sink = logs[-1] if logs else None
        saved = None
        for i, a in enumerate(body):
            act = self.eng.device_fault("body")
            if act is not None:
                raise KeyboardInterrupt("in the body")
            self.eng.point("body", 1 | 8)
            do = a["do"]
            if do in ("print", "color", "long", "partial"):
                for j in range(a.get("n", 1) if do == "print" else 1):
                    text = "[%s:%d.%d]" % (s["name"], i, j)
                    if a.get("odd"):
                        text += " \u00e9\u4e2d\t\U0001f600 \x1b[1m"
                    if do == "long":
                        text += "x" * a["n"]
                    try:
                        if do == "color":
                            from HamiltonianPy.tools.colorprint import \
                                color_print
                            color_print(text, fg=1)
                        elif do == "partial":
                            sys.stdout.write(text)
                        else:
                            print(text)
                    except OSError:
                        if sink is not None:
                            sink["reported"] += 1
                        raise
                    if saved is None:
                        if sink is not None:
                            sink["lines"].append(
                                text + ("" if do == "partial" else "\n")
                                if do != "color" else
                                "\x1b[38;5;1m%s\x1b[0m\n" % text)
                        else:
                            ctx.outside.append(text)
                if sink is not None and saved is None and do != "partial" \
                        and disk.hits == 0:
                    self._peek(ctx, sink)
            elif do == "threads":
                self.mkl.set_num_threads(a["n"])
            elif do == "sleep":
                import time
                time.sleep(a["s"])
            elif do == "redirect":
                with contextlib.redirect_stdout(io.StringIO()) as buf:
                    print("aside")
                if buf.getvalue() != "aside\n":
                    self._say(ctx, "redirect", "redirect_stdout lost text")
            elif do == "hijack":
                if saved is None:
                    saved = sys.stdout
                    # never put back: leaving the environment has to do it
                    sys.stdout = Term()
                    if not s["rd"]:
                        sys.stdout = saved
                        saved = None
            elif do == "raise":
                raise RAISE[a["what"]]()
            elif do == "session":
                if saved is not None:
                    continue
                try:
                    self._session(ctx, a, s["name"])
                except BaseException as e:
                    if type(e).__name__ == "SimAbort" or not a["catch"]:
                        raise
                disk.full = 0

    def _peek(self, ctx, sink):
        """A process killed now would leave these files behind."""
        want = "".join(sink["lines"])
        for p, data in self._files(ctx).items():
            if os.path.dirname(p) == sink["path"] \
                    and _ordered(data.decode(errors="replace"), sink["lines"]):
                return
        self._say(ctx, "late", "printed lines of %s are not on disk when the "
                  "process dies: %r" % (sink["name"], want[-60:]))

    def _closed(self, ctx, s, reported):
        now = self._files(ctx)
        self._unchanged(ctx, now, "while %s was open" % s["name"])
        ctx.files = now
        if not s["rd"] or not s.get("entered"):
            return
        if reported:
            return
        home = None
        for p, data in now.items():
            if os.path.dirname(p) == s["path"] and s["lines"] \
                    and _ordered(data.decode(errors="replace"), s["lines"]):
                home = p
        if s["lines"] and home is None:
            self._say(ctx, "lost", "what environment %s printed is not "
                      "complete and in order in a log in %s, and no failure "
                      "was reported" % (
                          s["name"], os.path.relpath(s["path"], ctx.root)))
            return
        s["file"] = home
        if home is not None:
            text = now[home].decode(errors="replace")
            for other in ctx.sessions:
                if other["file"] == home and other["rd"]:
                    self._say(ctx, "shared", "environments %s and %s share "
                              "one log" % (other["name"], s["name"]))
            e = s["body"]
            said = []
            if e is not None:
                said = [type(e).__name__]
                if not isinstance(e, BadText):
                    said.append(str(e))
            if not all(word in text for word in said):
                self._say(ctx, "summary", "the log of %s does not say "
                          "that %s ended it" % (s["name"], said))
            last = s["lines"][-1]
            if not text[text.rfind(last) + len(last):].strip():
                self._say(ctx, "summary", "the log of %s does not say that "
                          "it came to an end" % s["name"])
            if any(l in ctx.term.text() for l in s["lines"]):
                self._say(ctx, "leak", "output of %s also reached the "
                          "terminal" % s["name"])
        ctx.sessions.append(s)

    # -- oracles -----------------------------------------------------------
    def judge(self, ctx, rec):
        exc = rec["exc"]
        if exc is not None and exc[0] != "SimAbort":
            return (self.id + "/raised", "%s: %s" % exc)
        return None

    def finish(self, eng, ctx, sc, history):
        try:
            now = self._files(ctx)
            self._unchanged(ctx, now, "at the end")
            if sys.stdout is not ctx.term and not eng.abort:
                self._say(ctx, "stdout", "standard output is still "
                          "redirected at the end")
            if not self.disk.hits:
                everything = ctx.term.text() + "".join(
                    d.decode(errors="replace") for d in now.values())
                if not any("hijack" in str(o) for o in
                           sc["threads"].get("T0", ())):
                    for line in ctx.outside:
                        if everything.count(line) != 1:
                            self._say(ctx, "printer", "a line printed by "
                                      "another thread appears %d times" %
                                      everything.count(line))
            if self.mkl_state["n"] != sc["start_threads"] and not eng.abort:
                self._say(ctx, "threads", "thread count changed for good")
        finally:
            sys.stdout, sys.stderr = ctx.stdout, ctx.stderr
            os.chdir(ctx.home)
            shutil.rmtree(ctx.root, ignore_errors=True)
        return ctx.bad

    def coverage(self, ctx, sc, history):
        out = dict(ctx.probe)
        out["disk_failures"] = self.disk.hits
        return out

    def digest(self, rec):
        return None


def _ordered(text, lines):
    pos = 0
    for l in lines:
        k = text.find(l, pos)
        if k < 0:
            return False
        pos = k + len(l)
    return True


def _str(e):
    try:
        return str(e)
    except Exception:
        return "?"


CHECK = C09()
