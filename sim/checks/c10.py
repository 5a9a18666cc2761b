"""C10: coloured printing never leaks colour or scrambles other output."""

import errno
import io
import re
import sys

import numpy as np

from runner import Check
import simclock

NAMES = ["black", "red", "green", "yellow", "blue", "magenta", "cyan",
         "white"]
SHORT = dict(zip("krgybmcw", range(8)))
RGB = [(0, 0, 0), (255, 0, 0), (0, 255, 0), (255, 255, 0), (0, 0, 255),
       (255, 0, 255), (0, 255, 255), (255, 255, 255)]
PLAIN = (None, None, False)
# values that callers print
PLAINS = {"none": None, "false": False, "zero": 0, "nothing": [],
          "bytes": b"x", "float": 0.5, "pair": (1, "a")}


class Bad(Exception):
    pass


def expected(d):
    """Attributes the request asks for, or Bad."""
    scheme = d["scheme"]
    if scheme not in (4, 8, 24, "rgb"):
        raise Bad
    out = []
    for which in ("fg", "bg"):
        c = d[which]
        if c is None:
            out.append(None)
            continue
        if isinstance(c, str) and not (scheme in (24, "rgb")
                                       and c.startswith("#")):
            low = c.lower()
            if low in NAMES:
                i = NAMES.index(low)
            elif low in SHORT:
                i = SHORT[low]
            else:
                raise Bad
            out.append({4: ("4", i), 8: ("8", i)}.get(
                scheme, ("24",) + RGB[i]))
        elif isinstance(c, str):
            if not re.fullmatch("#[0-9a-fA-F]{6}", c):
                raise Bad
            out.append(("24",) + tuple(int(c[k:k + 2], 16)
                                       for k in (1, 3, 5)))
        elif isinstance(c, (list, tuple)) != (scheme in (24, "rgb")) \
                or (isinstance(c, list) and len(c) != 3) \
                or not isinstance(c, (int, list)):
            raise Bad
        elif scheme == 4:
            base = 30 if which == "fg" else 40
            if base <= c < base + 8:
                out.append(("4", c - base))
            elif base + 60 <= c < base + 68:
                out.append(("4", c - base - 60 + 8))
            else:
                raise Bad
        elif scheme == 8:
            if not 0 <= c < 256:
                raise Bad
            out.append(("8", c))
        else:
            if not all(0 <= x < 256 for x in c):
                raise Bad
            out.append(("24",) + tuple(c))
    return (out[0], out[1], bool(d["bold"]))


class Emulator:
    """What a terminal shows: characters with their attributes."""

    def __init__(self):
        self.cells = []       # (char, attributes, owner)
        self.attr = PLAIN
        self.pending = ""
        self.odd = None

    def feed(self, text, owner=None):
        text = self.pending + text
        self.pending = ""
        i = 0
        while i < len(text):
            if text[i] != "\x1b":
                self.cells.append((text[i], self.attr, owner))
                i += 1
                continue
            m = re.match(r"\x1b\[([0-9;]*)m", text[i:])
            if m:
                self.sgr([int(x or 0) for x in m.group(1).split(";")])
                i += m.end()
                continue
            if re.fullmatch(r"\x1b(\[[0-9;]*)?", text[i:]):
                self.pending = text[i:]
                return
            self.odd = text[i:i + 12]
            i += 1

    def sgr(self, codes):
        fg, bg, bold = self.attr
        i = 0
        while i < len(codes):
            c = codes[i]
            if c == 0:
                fg, bg, bold = PLAIN
            elif c == 1:
                bold = True
            elif 30 <= c <= 37:
                fg = ("4", c - 30)
            elif 90 <= c <= 97:
                fg = ("4", c - 90 + 8)
            elif 40 <= c <= 47:
                bg = ("4", c - 40)
            elif 100 <= c <= 107:
                bg = ("4", c - 100 + 8)
            elif c in (38, 48) and codes[i + 1:i + 2] == [5] \
                    and i + 2 < len(codes):
                v = ("8", codes[i + 2])
                fg, bg = (v, bg) if c == 38 else (fg, v)
                i += 2
            elif c in (38, 48) and codes[i + 1:i + 2] == [2] \
                    and i + 4 < len(codes):
                v = ("24",) + tuple(codes[i + 2:i + 5])
                fg, bg = (v, bg) if c == 38 else (fg, v)
                i += 4
            elif c == 39:
                fg = None
            elif c == 49:
                bg = None
            elif c == 22:
                bold = False
            else:
                self.odd = repr(codes)
            i += 1
        self.attr = (fg, bg, bold)


class Device:
    """A terminal object: every write is atomic, may fail, may be slow."""

    encoding = "utf-8"

    def __init__(self, eng):
        self.eng = eng
        self.emu = Emulator()
        self.flushed = {}       # what was on its way when it was flushed

    def owner(self):
        eng = self.eng
        return (eng.cur.tid, eng.cur.opid) if eng.active else None

    def write(self, s):
        eng = self.eng
        eng.point("term.write", 1 | 8)
        act = eng.device_fault("term")
        if act is not None:
            raise OSError(errno.EIO, "Input/output error")
        self.emu.feed(s, self.owner())
        eng.point("term.written", 1 | 8)
        return len(s)

    def flush(self):
        act = self.eng.device_fault("flush")
        if act is not None:
            raise OSError(errno.EIO, "Input/output error")
        self.flushed[self.owner()] = len(self.emu.cells)

    def isatty(self):
        return True


class Raw(io.RawIOBase):
    def __init__(self, eng):
        self.eng = eng
        self.data = []
        self.shorts = 0

    def writable(self):
        return True

    def isatty(self):
        return True

    def write(self, b):
        b = bytes(b)
        act = self.eng.device_fault("raw") if self.eng.active else None
        if act is None or len(b) < 2:
            self.data.append(b)
            return len(b)
        k = min(len(b) - 1, max(1, int(act["part"] * len(b))))
        self.data.append(b[:k])
        self.shorts += 1
        return k


class Thing:
    """An object whose text takes time, fails or prints by itself."""

    def __init__(self, eng, text, mode, term):
        self.eng, self.t, self.mode, self.term = eng, text, mode, term

    def __str__(self):
        self.eng.point("str", 1 | 2 | 8)
        if self.mode == "fail":
            raise Bad("no text")
        if self.mode == "print":
            print("{note}", end="", file=self.term)
        return self.t


class Ctx:
    pass


class C10(Check):
    id = "C10"
    quick = {"seeds": 520, "variants": 9}
    thorough = {"seeds": 14000, "variants": 16}
    real = ("tools/colorprint.py; for the stream terminals Python's text and "
            "buffered I/O layers")
    stub = ("thread scheduling, Ctrl-C, allocation failure, the terminal (an "
            "emulator that keeps every character with its colours; slow and "
            "failing writes, short raw writes), user objects whose __str__ is "
            "slow, fails or prints")
    rule = ("Scenarios print 2-9 texts per thread through color_print, "
            "coloring and color_demo in all schemes, colours (also refused "
            "ones), separators and ends, on shared terminals, mixed with "
            "plain prints by other threads.")
    assumptions = [
        "one write() of a terminal object is atomic: it happens or raises "
        "(bytes lost below Python's stream are beyond this library)",
    ]
    must_reach = ("coloured", "refused", "write_failed", "plain", "short",
                  "demo", "long")

    def seams(self, eng):
        self.eng = eng
        simclock.install(eng)

    def imports(self):
        import HamiltonianPy.tools.colorprint  # noqa: F401

    def gen(self, rng, tier):
        n_thr = rng.choice([1, 2, 2, 3])
        kind = rng.choice(["device", "device", "stream"])
        sc = {"term": kind, "threads": {}, "line": rng.random() < 0.5}
        num = 0
        seen = []
        swap = n_thr == 1 and kind == "device" and rng.random() < 0.5
        for t in range(n_thr):
            ops = []
            for _ in range(rng.randint(2, 9 if n_thr == 1 else 6)):
                op = self._op(rng, swap, kind)
                self._again(rng, op, seen)
                op["id"] = str(num)
                num += 1
                ops.append(op)
            sc["threads"]["T%d" % t] = ops
        sc["settle"] = []
        for _ in range(2):
            op = self._op(rng, False, kind)
            self._again(rng, op, seen)
            op["id"] = "s%d" % num
            num += 1
            sc["settle"].append(op)
        return sc

    def _op(self, rng, swap, term):
        r = rng.random()
        if swap and r < 0.15:
            return {"kind": "swap"}
        if r < 0.22:
            return {"kind": "plain", "end": rng.choice(["\n", "", "$"])}
        if r < 0.235:
            return {"kind": "demo", "space": rng.choice([0, 2])}
        scheme = rng.choice([4, 8, 8, 24, "rgb", 8, 4, 24])
        if rng.random() < 0.03:
            scheme = rng.choice([7, "4", None, 256])
        op = {"kind": "color", "scheme": scheme,
              "fg": self._color(rng, scheme, True),
              "bg": self._color(rng, scheme, False),
              "bold": rng.random() < 0.3,
              "sep": rng.choice([" ", "", "--"]),
              "end": rng.choice(["\n", "\n", "", " | "]),
              "flush": rng.random() < 0.3,
              "file": rng.choice(["default", "given"]),
              "via": rng.choice(["print", "print", "coloring"]),
              "parts": [rng.choice(["s", "s", "i", "slow", "print", "fail",
                                    "empty"] if rng.random() < 0.5
                                   else ["s", "i"])
                        for _ in range(rng.randint(1, 3)
                                       if rng.random() > 0.04
                                       else rng.choice([0, 12]))]}
        if rng.random() < 0.12 and op["parts"]:
            op["parts"][rng.randrange(len(op["parts"]))] = rng.choice(
                [70, 130, 260, 520, 1030, 2050, 3000]) + rng.randrange(60)
        if rng.random() < 0.12 and op["parts"]:
            op["parts"][rng.randrange(len(op["parts"]))] = rng.choice(
                sorted(PLAINS))
        if rng.random() < 0.15:
            op["dress"] = rng.choice(["float", "bool", "np", "npfloat"])
        op["kept"] = rng.random() < 0.5
        if term == "stream":
            op["parts"] = ["s" if p == "print" else p for p in op["parts"]]
        return op

    def _again(self, rng, op, seen):
        """Often ask for an earlier colour, in another role or scheme."""
        if op["kind"] != "color":
            return
        if seen and rng.random() < 0.4:
            old = rng.choice(seen)
            what = rng.choice(["scheme", "scheme", "role", "bold", "one"])
            op["fg"], op["bg"], op["bold"] = (
                old["fg"], old["bg"], old["bold"])
            if what != "scheme":
                op["scheme"] = old["scheme"]
            elif op["scheme"] == old["scheme"]:
                op["scheme"] = rng.choice(
                    [x for x in (4, 8, 24) if x != old["scheme"]])
            if what == "role":
                op["fg"], op["bg"] = op["bg"], op["fg"]
            elif what == "bold":
                op["bold"] = not op["bold"]
            elif what == "one":
                op[rng.choice(["fg", "bg"])] = None
        seen.append(op)

    def _color(self, rng, scheme, fg):
        r = rng.random()
        if r < 0.22:
            return None
        if r < 0.5:
            name = rng.choice(NAMES + sorted(SHORT))
            return name.upper() if rng.random() < 0.2 else name
        if r < 0.55:
            return rng.choice(["orange", "", "x", "re", 1.5, [1, 2],
                               "#12345g", "#-1-1-1", "#1234567",
                               "#12345 ", "# 12345", "#1_2_3_", " red",
                               "blue ", "red\n", "light", "#123"])
        if scheme == 4:
            base = 30 if fg else 40
            if rng.random() < 0.12:
                return rng.choice([base - 1, base + 8, base + 68, 0, 255])
            return base + rng.choice([0, 60]) + rng.randrange(8)
        if scheme in (24, "rgb"):
            c = [rng.randrange(256) for _ in range(3)]
            if rng.random() < 0.1:
                c[rng.randrange(3)] = rng.choice([-1, 256, 1000])
                return c
            if rng.random() < 0.4:
                h = "#%02x%02x%02x" % tuple(c)
                return h.upper() if rng.random() < 0.3 else h
            return c
        if rng.random() < 0.1:
            return rng.choice([-1, 256, 300])
        return rng.randrange(256)

    def fault_kinds(self, sc):
        if sc["term"] == "device":
            return ["term-fail", "term-fail", "flush-fail", "interrupt",
                    "memory"]
        return ["raw-short", "raw-short", "interrupt", "memory"]

    def device_action(self, rng, kind):
        if kind == "term-fail":
            return "term", {}
        if kind == "flush-fail":
            return "flush", {}
        return "raw", {"part": round(rng.random(), 2)}

    def start(self, eng, sc):
        from HamiltonianPy.tools import colorprint
        ctx = Ctx()
        ctx.mod = colorprint
        ctx.sc = sc
        ctx.stdout = sys.stdout
        ctx.terms = []
        for _ in range(2):
            if sc["term"] == "device":
                ctx.terms.append(Device(eng))
            else:
                raw = Raw(eng)
                t = io.TextIOWrapper(io.BufferedWriter(raw, 64),
                                     encoding="utf-8",
                                     line_buffering=sc["line"])
                ctx.terms.append(t)
                ctx.raw = ctx.terms[0].buffer.raw
        ctx.which = 0
        sys.stdout = ctx.terms[0]
        ctx.kept = {}
        ctx.want = []           # (op id, tid, terminal, chars, complete)
        ctx.probe = {}
        ctx.bad = []
        return ctx

    def _hit(self, ctx, name):
        ctx.probe[name] = ctx.probe.get(name, 0) + 1

    def call(self, ctx, op):
        kind = op["kind"]
        tid = self.eng.cur.tid
        if kind == "swap":
            ctx.which = 1 - ctx.which
            sys.stdout = ctx.terms[ctx.which]
            return None
        w = {"op": op["id"], "tid": tid, "term": ctx.which, "chars": [],
             "done": False, "shown": None, "many": False}
        ctx.want.append(w)
        if kind == "plain":
            text = "(%s)" % op["id"]
            w["chars"] = [(c, PLAIN) for c in text + op["end"]]
            print(text, end=op["end"])
        elif kind == "demo":
            w["chars"] = self._demo(op["space"])
            w["many"] = True
            ctx.mod.color_demo(space_num=op["space"])
        else:
            self._print(ctx, op, w)
        w["done"] = True
        if kind == "color" and op["flush"] and w["shown"] is None:
            w["shown"] = self._shown(ctx, op, w)
        return None

    def _shown(self, ctx, op, w):
        """Whether a text that was to be flushed has left the stream."""
        t = ctx.terms[w["term"]]
        n = sum(1 for c in w["chars"] if c[0] != "\n")
        if isinstance(t, Device):
            at = t.flushed.get((self.eng.cur.tid, op["id"]), -1)
            mine = [i for i, c in enumerate(t.emu.cells)
                    if c[2] == (self.eng.cur.tid, op["id"])]
            return not mine or at > mine[-1]
        text = "<%s.0>" % op["id"]
        if text not in "".join(c for c, _ in w["chars"]) or not n:
            return True
        return text in b"".join(t.buffer.raw.data).decode(errors="replace")

    def _demo(self, n):
        out = []
        for fg in [None] + list(range(256)):
            out += [(" ", PLAIN)] * n
            text = "fg = None, bg = None" if fg is None else \
                "fg = %4d, bg = None" % fg
            attr = (None if fg is None else ("8", fg), None, False)
            out += [(c, attr) for c in text] + [("\n", PLAIN)]
        return out

    def _print(self, ctx, op, w):
        term = ctx.terms[ctx.which]
        objs, texts, notes = [], [], 0
        for i, p in enumerate(op["parts"]):
            text = "<%s.%d>" % (op["id"], i)
            if p == "i":
                text = "%d" % (10 ** 6 + i)
                objs.append(int(text))
            elif isinstance(p, int):
                body = "lorem \u00e9\u4e2d ipsum\n%d.dolor\t" % i
                text += (body * (p // len(body) + 1))[:p]
                objs.append(text)
            elif p == "empty":
                text = ""
                objs.append("")
            elif p in PLAINS:
                objs.append(PLAINS[p])
                text = str(PLAINS[p])
            elif p == "s":
                objs.append(text)
            else:
                objs.append(Thing(self.eng, text, p, term))
                notes += p == "print"
            texts.append(text)
        try:
            attr = expected(op)
        except Bad:
            attr = None
        w["plain"] = [(c, PLAIN) for c in "{note}"] * notes
        w["refused"] = attr is None
        w["fail"] = "fail" in op["parts"]
        note = [(c, PLAIN) for c in "{note}"]
        if attr is not None:
            # notes are printed while the text is being made, before it
            n = 0
            for p in op["parts"]:
                if p == "fail":
                    break
                n += p == "print"
            w["notes"] = n
            chars = note * n
            if not w["fail"]:
                chars = chars + [(c, attr) for c in op["sep"].join(texts)]
                if op["via"] == "print" or True:
                    chars = chars + [(c, PLAIN) for c in op["end"]]
            w["chars"] = chars
            if len(chars) > 500:
                self._hit(ctx, "long")
        else:
            w["chars"] = note * notes
        fg, bg = (self._dress(ctx, op, x, k)
                  for k, x in enumerate((op["fg"], op["bg"])))
        if isinstance(fg, list) and op["bold"]:
            fg = tuple(fg)
        kw = dict(fg=fg, bg=bg, bold=op["bold"], color_scheme=op["scheme"])
        if op["via"] == "coloring":
            text = ctx.mod.coloring(op["sep"].join(str(o) for o in objs),
                                    **kw)
            print(text, end=op["end"], flush=op["flush"])
        else:
            if op["file"] == "given":
                kw["file"] = term
            ctx.mod.color_print(*objs, sep=op["sep"], end=op["end"],
                                flush=op["flush"], **kw)

    def _dress(self, ctx, op, c, k):
        """The form in which the caller gives the colour c."""
        to = {"float": float, "bool": lambda x: bool(x) if x in (0, 1) else x,
              "np": np.int64, "npfloat": np.float64}.get(op.get("dress"))
        if isinstance(c, list):
            if to:
                c = [to(x) for x in c]
            if op.get("kept"):         # a list that is used all the time
                kept = ctx.kept.setdefault((self.eng.cur.tid, k), [])
                kept[:] = c
                c = kept
        elif isinstance(c, int) and to:
            c = to(c)
        return c

    def judge(self, ctx, rec):
        op, exc = rec["op"], rec["exc"]
        if op["kind"] == "swap":
            return None
        w = next((x for x in ctx.want if x["op"] == op["id"]), None)
        if w is None:
            return None
        if rec["injected"]:
            w["hurt"] = True
            if exc is None or exc[0] in ("OSError", "SimInterrupt",
                                         "SimMemoryError"):
                if exc is not None and exc[0] == "OSError":
                    self._hit(ctx, "write_failed")
                return None
        if op["kind"] != "color":
            if exc is not None:
                return (self.id + "/raised", "%s raised %s: %s" % (
                    (op["kind"],) + tuple(exc)))
            self._hit(ctx, op["kind"])
            return None
        if w["fail"]:
            if exc is None or exc[0] not in ("Bad", "ValueError"):
                return (self.id + "/raised", "an object without text: %r"
                        % (exc,))
            return None
        if op.get("dress") and exc is not None and not w["refused"] \
                and exc[0] in ("ValueError", "TypeError"):
            # numbers that are no plain integers may be refused as well
            w["refused"] = True
            w["chars"] = w["plain"]
            return None
        if w["refused"]:
            self._hit(ctx, "refused")
            if exc is None or exc[0] != "ValueError":
                return (self.id + "/accepted", "colour fg=%r bg=%r scheme=%r "
                        "gave %r" % (op["fg"], op["bg"], op["scheme"], exc))
            return None
        if exc is not None:
            return (self.id + "/raised", "a valid request raised %s: %s"
                    % tuple(exc))
        if w["shown"] is False:
            return (self.id + "/unflushed", "the text was to be flushed and "
                    "is not on the terminal")
        self._hit(ctx, "coloured")
        return None

    def finish(self, eng, ctx, sc, history):
        sys.stdout = ctx.stdout
        if eng.abort:
            return []
        bad = []
        for k, t in enumerate(ctx.terms):
            want = [w for w in ctx.want if w["term"] == k]
            if sc["term"] == "device":
                bad += self._device(t.emu, want)
            else:
                bad += self._stream(ctx, t, want)
        return bad

    def _device(self, emu, want):
        bad = []
        if emu.attr != PLAIN or emu.pending:
            bad.append((self.id + "/leak", "the terminal is left coloured: "
                        "%r" % (emu.attr,)))
        if emu.odd:
            bad.append((self.id + "/garbage", "not a colour sequence: %r"
                        % emu.odd))
        for w in want:
            got = [(i, c, a) for i, (c, a, o) in enumerate(emu.cells)
                   if o is not None and o[1] == w["op"]]
            seen = [(c, a) for _, c, a in got]
            v = self._compare(w, seen)
            if v is not None:
                bad.append(v)
                continue
            # every coloured text must be contiguous on the screen
            texts = [[]]
            for i, c, a in got:
                if a != PLAIN:
                    texts[-1].append(i)
                elif w["many"] and c == "\n":
                    texts.append([])
            for col in texts:
                if col and col[-1] - col[0] != len(col) - 1:
                    bad.append((self.id + "/scrambled", "other output "
                                "appears inside the coloured text of op %s"
                                % w["op"]))
                    break
        return bad

    def _compare(self, w, seen):
        full = w["chars"]
        if w["done"]:
            ok = seen == full
        else:
            ok = seen == full[:len(seen)]
        if not ok:
            k = next((i for i, (a, b) in enumerate(zip(seen, full))
                      if a != b), min(len(seen), len(full)))
            return (self.id + "/output", "op %s shows %r instead of %r (at "
                    "%d of %d)" % (w["op"], seen[k:k + 3], full[k:k + 3], k,
                                   len(full)))
        return None

    def _stream(self, ctx, t, want):
        raw = t.buffer.raw
        t.flush()
        emu = Emulator()
        emu.feed(b"".join(raw.data).decode())
        bad = []
        if raw.shorts:
            self._hit(ctx, "short")
        if emu.attr != PLAIN or emu.pending:
            bad.append((self.id + "/leak", "the terminal is left coloured: "
                        "%r" % (emu.attr,)))
        cells = [(c, a) for c, a, _ in emu.cells]
        bad += self._merge(cells, want)
        return bad

    def _merge(self, cells, want):
        """Every finished text is there, contiguous and right."""
        s = "".join(c for c, _ in cells)
        for w in want:
            if not w["done"]:
                continue
            col = [(c, a) for c, a in w["chars"] if a != PLAIN]
            text = "".join(c for c, _ in col)
            if len(col) > 4000 or not re.search(r"<\w+\.\d+>", text):
                continue
            pos = s.find(text)
            if pos < 0:
                return [(self.id + "/scrambled", "the text of op %s is not "
                         "on the terminal in one piece" % w["op"])]
            if cells[pos:pos + len(col)] != col:
                return [(self.id + "/output", "op %s is not shown in its "
                         "colour" % w["op"])]
        plain = [c for w in want if w["done"]
                 for c, a in w["chars"]]
        if len(plain) > len(cells):
            return [(self.id + "/lost", "%d characters printed, %d shown"
                     % (len(plain), len(cells)))]
        return []

    def coverage(self, ctx, sc, history):
        return dict(ctx.probe)


CHECK = C10()
