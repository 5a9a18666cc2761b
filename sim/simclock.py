"""The simulated clock: `time` functions read Engine.now inside a run."""

import time as _t
import threading

REAL = {n: getattr(_t, n) for n in (
    "time", "time_ns", "monotonic", "monotonic_ns", "perf_counter",
    "perf_counter_ns", "process_time", "sleep", "localtime", "gmtime",
    "strftime", "ctime", "asctime")}
EPOCH = 1_600_000_000.0     # simulated time zero


def install(eng, tick=0.001):
    """Replace the time functions; outside a run they stay real."""

    def sim():
        return eng.active and threading.get_ident() == eng.cur_ident

    def read():
        act = eng.device_fault("clock")
        if act is not None:
            eng.now += act.get("jump", 0.0)
        if eng.stalled > 0:
            eng.stalled -= 1
        else:
            eng.now += tick
        if act is not None and act.get("stall"):
            eng.stalled = act["stall"]
        return eng.now

    eng.stalled = 0

    def time():
        return EPOCH + read() if sim() else REAL["time"]()

    def time_ns():
        return int((EPOCH + read()) * 1e9) if sim() else REAL["time_ns"]()

    def mono(name, scale):
        real = REAL[name]

        def f():
            if not sim():
                return real()
            # A monotonic clock may stall but never goes back.
            read()
            eng.mono = max(getattr(eng, "mono", 0.0), eng.now)
            return int(eng.mono * 1e9) if scale else eng.mono
        f.__name__ = name
        return f

    def sleep(s):
        if sim():
            eng.now += max(0.0, s)
        else:
            REAL["sleep"](s)

    def localtime(secs=None):
        if secs is None and sim():
            return REAL["gmtime"](EPOCH + read())
        return REAL["localtime"](secs) if secs is not None \
            else REAL["localtime"]()

    def gmtime(secs=None):
        if secs is None and sim():
            return REAL["gmtime"](EPOCH + read())
        return REAL["gmtime"](secs) if secs is not None \
            else REAL["gmtime"]()

    def strftime(fmt, t=None):
        if t is None:
            t = localtime()
        return REAL["strftime"](fmt, t)

    def ctime(secs=None):
        if secs is None:
            return REAL["asctime"](localtime())
        return REAL["ctime"](secs)

    def asctime(t=None):
        return REAL["asctime"](localtime() if t is None else t)

    for f in (time, time_ns, sleep, localtime, gmtime, strftime, ctime,
              asctime):
        setattr(_t, f.__name__, f)
    for n in ("monotonic", "perf_counter", "process_time"):
        setattr(_t, n, mono(n, False))
    for n in ("monotonic_ns", "perf_counter_ns"):
        setattr(_t, n, mono(n, True))

    import datetime as _d

    class _Meta(type(_d.datetime)):
        def __instancecheck__(cls, obj):
            return isinstance(obj, _REAL_DT)

        def __subclasscheck__(cls, sub):
            return issubclass(sub, _REAL_DT)

    _REAL_DT = _d.datetime

    class datetime(_d.datetime, metaclass=_Meta):
        @classmethod
        def now(cls, tz=None):
            if not sim():
                return _REAL_DT.now(tz)
            base = _REAL_DT.fromtimestamp(EPOCH + read(), _d.timezone.utc)
            return base.astimezone(tz) if tz else base.replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()

        @classmethod
        def utcnow(cls):
            return cls.now()

    datetime.__qualname__ = "datetime"
    eng.sim_datetime = datetime
    _d.datetime = datetime
