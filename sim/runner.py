"""
Batch driver: seeds -> plans -> simulated runs -> verdict, minimisation,
replay and evidence.  One forked process per simulated run, so every run
starts from the same freshly imported interpreter state.
"""

import argparse
import gc
import hashlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time as _time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HAMSIM_REPO", "/repo")
REAL_TIME = _time.time
REAL_MONO = _time.monotonic
RUN_WALL = 150.0      # one simulated run may not take longer than this


class HarnessError(Exception):
    pass


# --------------------------------------------------------------------------
class Check:
    """One property.  Subclasses live in checks/."""

    id = None
    quick = {"seeds": 40, "variants": 6}
    thorough = {"seeds": 1200, "variants": 12}
    technique = "deterministic simulation with fault injection"
    real = "every module of HamiltonianPy that the property touches"
    stub = "thread scheduling, fault injection"
    assumptions = []
    rule = ""

    def imports(self):
        import HamiltonianPy  # noqa: F401

    def warm(self):
        """Compile what numba compiles lazily, once, before forking."""

    def gen(self, rng, tier):
        raise NotImplementedError

    def start(self, eng, scenario):
        return None

    def call(self, ctx, op):
        raise NotImplementedError

    def judge(self, ctx, rec):
        """None, or (class, message), for one finished operation."""
        raise NotImplementedError

    def finish(self, eng, ctx, scenario, history):
        """Whole-history oracle: list of (class, message)."""
        return []

    def fault_kinds(self, scenario):
        return ["interrupt", "memory"]

    def coverage(self, ctx, scenario, history):
        """Reach probes: {name: count}."""
        return {}

    def digest(self, rec):
        """Text that enters the determinism hash of a run."""
        return None

    # -- plans -------------------------------------------------------------
    def variants(self, rng, scenario, profile, n):
        out = []
        kinds = self.fault_kinds(scenario)
        multi = len(scenario["threads"]) > 1
        for v in range(n):
            actions = {}
            order = list(scenario["threads"])
            rng.shuffle(order)
            mode = v % 3
            if multi and mode in (0, 2):
                for _ in range(rng.choice([1, 1, 2, 3])):
                    self._add_preempt(rng, scenario, profile, actions)
            if kinds and (mode in (1, 2) or not multi):
                for _ in range(rng.choice([1, 1, 2])):
                    self._add_fault(rng, scenario, profile, actions, kinds)
            out.append({"actions": actions, "order": order})
        return out

    def _pick_point(self, rng, points, flag):
        from engine import PREEMPT, TORN, WROTE
        # Half of the time look right behind a write to some object.
        behind = (WROTE if flag == PREEMPT else TORN) \
            if rng.random() < 0.5 else 0
        sites, near = {}, {}
        for k, (site, fl) in enumerate(points):
            if fl & flag:
                sites.setdefault(site, []).append(k)
                if fl & behind:
                    near.setdefault(site, []).append(k)
        if not sites:
            return None
        sites = near or sites
        ks = sites[rng.choice(sorted(sites))]
        r = rng.random()
        if r < 0.35:
            return ks[0]
        if r < 0.5:
            return ks[-1]
        return rng.choice(ks)

    def _add_preempt(self, rng, scenario, profile, actions):
        from engine import PREEMPT
        threads = scenario["threads"]
        tid = rng.choice(sorted(threads))
        ops = threads[tid]
        if not ops:
            return
        op = rng.choice(ops)
        pts = profile.get(op["id"], {}).get("points", [])
        k = self._pick_point(rng, pts, PREEMPT)
        if k is None:
            return
        other = rng.choice(sorted(t for t in threads if t != tid))
        actions.setdefault(op["id"], {}).setdefault(str(k), []).append(
            {"type": "preempt", "to": other}
        )
        # Often give the baton back after one or two operations only.
        r = rng.random()
        oops = threads[other]
        if r < 0.6 and len(oops) > 1:
            back = oops[rng.randrange(1, len(oops))]
            actions.setdefault(back["id"], {}).setdefault("-1", []).append(
                {"type": "preempt", "to": tid}
            )
        elif r < 0.85 and oops:
            o2 = rng.choice(oops)
            k2 = self._pick_point(
                rng, profile.get(o2["id"], {}).get("points", []), PREEMPT
            )
            if k2 is not None:
                actions.setdefault(o2["id"], {}).setdefault(
                    str(k2), []
                ).append({"type": "preempt", "to": tid})

    def _add_fault(self, rng, scenario, profile, actions, kinds):
        from engine import FAULT_FLAG
        ops = [o for t in scenario["threads"].values() for o in t]
        for _ in range(8):
            op = rng.choice(ops)
            kind = rng.choice(kinds)
            prof = profile.get(op["id"], {})
            if kind in FAULT_FLAG:
                k = self._pick_point(
                    rng, prof.get("points", []), FAULT_FLAG[kind]
                )
                if k is None:
                    continue
                actions.setdefault(op["id"], {}).setdefault(
                    str(k), []
                ).append({"type": "fault", "kind": kind})
                return
            dev, act = self.device_action(rng, kind)
            n = prof.get("dev", {}).get(dev, 0)
            if not n:
                continue
            act = dict(act, type="dev", kind=kind)
            actions.setdefault(op["id"], {})[
                "dev:%s:%d" % (dev, rng.randrange(n))
            ] = act
            return

    def device_action(self, rng, kind):
        raise NotImplementedError


# --------------------------------------------------------------------------
def _decode_actions(actions):
    out = {}
    for opid, acts in actions.items():
        d = {}
        for key, val in acts.items():
            if key.startswith("dev:"):
                _, dev, n = key.split(":")
                d[("dev", dev, int(n))] = val
            else:
                d[int(key)] = val
        out[opid] = d
    return out


def _quiet(fn, *args):
    """Bookkeeping only: odd values were already reported by the oracle."""
    try:
        return fn(*args)
    except Exception as e:
        if os.environ.get("HAMSIM_DEBUG"):
            raise
        return None


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno)
                      for f in reversed(tb[-3:]))


def _failed_run(cls, msg):
    return {"violations": [[cls, msg]], "fired": {}, "log": cls,
            "sched": cls, "ops": 0, "ops_failed": 0, "points": 0,
            "sim_time": 0.0, "probes": {}, "trace": [], "profile": {},
            "scenario_hash": cls}


def execute(check, eng, plan, record=False):
    """Run one plan in this (forked) process and return its result."""
    scenario = plan["scenario"]
    eng.trace = []
    eng.fired = {}
    eng.deadlock = None
    eng.runaway = None
    eng.seq = 0
    eng.now = 0.0
    try:
        ctx = check.start(eng, scenario)
    except Exception as e:
        # Every object a scenario starts from is valid.
        return _failed_run(check.id + "/setup", "building the scenario's "
                           "(valid) objects raised %s: %s at %s" % (
                               type(e).__name__, e, _where(e)))
    order = plan.get("order") or list(scenario["threads"])
    programs = {t: scenario["threads"][t] for t in order
                if t in scenario["threads"]}
    history = eng.run_threads(
        programs, _decode_actions(plan.get("actions", {})),
        lambda op: check.call(ctx, op), record=record,
    )
    bad = []
    n_main = len(history)
    if eng.deadlock:
        bad.append((check.id + "/deadlock",
                    "no caller can make progress: %r" % (eng.deadlock,)))
    elif eng.runaway:
        bad.append((check.id + "/no-progress",
                    "operation never finishes: %r" % (eng.runaway,)))
    else:
        if scenario.get("settle"):
            after = eng.run_threads(
                {"settle": scenario["settle"]}, {},
                lambda op: check.call(ctx, op), record=False,
            )
            if eng.runaway:
                bad.append((check.id + "/no-progress",
                            "operation never finishes once faults stopped"))
            history = history + after
        eng.active = False
        for rec in history:
            if "return" not in rec:
                continue
            try:
                v = check.judge(ctx, rec)
            except Exception as e:
                v = (check.id + "/malformed", "the result cannot be read as "
                     "what the operation returns: %s: %s at %s" % (
                         type(e).__name__, e, _where(e)))
            if v is None and (rec["exc"] or ("",))[0] == "Hung":
                v = (check.id + "/hung", rec["exc"][1])
            if v is not None:
                bad.append((v[0], v[1] + " [thread %s op %s]" % (
                    rec["tid"], json.dumps(rec["op"], sort_keys=True))))
        try:
            bad.extend(check.finish(eng, ctx, scenario, history))
        except Exception as e:
            if not bad:
                bad.append((check.id + "/malformed", "the final state cannot "
                            "be examined: %s: %s at %s" % (
                                type(e).__name__, e, _where(e))))
    log = []
    for rec in history:
        log.append((rec["tid"], rec["op"]["id"], rec.get("invoke"),
                    rec.get("return"), rec.get("points"),
                    rec.get("exc") and rec["exc"][0],
                    _quiet(check.digest, rec)))
    log_hash = hashlib.sha256(
        repr((log, eng.trace, bad)).encode()).hexdigest()[:16]
    sched = hashlib.sha256(repr(
        [t for t in eng.trace]).encode()).hexdigest()[:16]
    res = {
        "violations": [list(b) for b in bad[:20]],
        "fired": dict(eng.fired),
        "log": log_hash,
        "sched": sched,
        "scenario_hash": hashlib.sha256(json.dumps(
            scenario, sort_keys=True).encode()).hexdigest()[:16],
        "ops": len(history),
        "ops_failed": sum(1 for r in history if r.get("exc")),
        "points": sum(r.get("points", 0) for r in history),
        "sim_time": eng.now,
        "probes": _quiet(check.coverage, ctx, scenario, history) or {},
        "trace": [list(map(str, t)) for t in eng.trace[:200]],
    }
    if record:
        res["profile"] = {
            rec["op"]["id"]: {"points": rec.get("rec", []),
                              "dev": rec.get("rec_dev", {})}
            for rec in history[:n_main] if "return" in rec
        }
    return res


def in_child(fn, wall=RUN_WALL):
    """Run fn() in a forked child; return its (pickled) result."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException:
                out = ("error", traceback.format_exc())
            data = pickle.dumps(out)
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = REAL_MONO() + wall
    timed_out = False
    while True:
        left = end - REAL_MONO()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            timed_out = True
            break
        data = os.read(r, 1 << 20)
        if not data:
            break
        chunks.append(data)
    os.close(r)
    if timed_out:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return ("timeout", None)
    if os.WIFSIGNALED(status):
        return ("signal", os.WTERMSIG(status))
    blob = b"".join(chunks)
    if not blob:
        return ("error", "child ended with status %r and no result" % status)
    return pickle.loads(blob)


def run_plan(check, eng, plan, record=False):
    kind, val = in_child(lambda: execute(check, eng, plan, record))
    if kind == "ok":
        return val
    if kind == "signal" and val in (signal.SIGSEGV, signal.SIGABRT,
                                    signal.SIGBUS, signal.SIGFPE):
        return _failed_run(check.id + "/crash",
                           "the interpreter died with signal %d" % val)
    if kind == "timeout":
        return _failed_run(check.id + "/no-progress", "the run was still "
                           "going after %d s" % RUN_WALL)
    raise HarnessError("%s: %s" % (kind, val))


def seed_plans(check, eng, base_seed, index, tier, nvar):
    """Everything one seed does: returns list of (plan, result)."""
    rng = random.Random("%s:%d:%d" % (check.id, base_seed, index))
    scenario = check.gen(rng, tier)
    plan0 = {"scenario": scenario, "actions": {}, "order": None}
    res0 = run_plan(check, eng, plan0, record=True)
    profile = res0.pop("profile", {})
    out = [(plan0, res0)]
    if res0["violations"]:
        return out
    for var in check.variants(rng, scenario, profile, nvar):
        plan = {"scenario": scenario, "actions": var["actions"],
                "order": var["order"]}
        out.append((plan, run_plan(check, eng, plan)))
    return out


def _summarise(pairs, index):
    s = {"index": index, "runs": 0, "ops": 0, "ops_failed": 0, "points": 0,
         "sim_time": 0.0, "fired": {}, "probes": {}, "scheds": [],
         "logs": [], "bad": [], "sample": None}
    for plan, res in pairs:
        s["runs"] += 1
        for key in ("ops", "ops_failed", "points", "sim_time"):
            s[key] += res[key]
        for name in ("fired", "probes"):
            for k, v in res[name].items():
                s[name][k] = s[name].get(k, 0) + v
        s["scheds"].append((res["scenario_hash"], res["sched"],
                            bool(res["trace"])))
        s["logs"].append(res["log"])
        if res["violations"]:
            s["bad"].append((plan, res["violations"]))
        if res["trace"] and s["sample"] is None:
            s["sample"] = {
                "threads": {t: [{k: v for k, v in o.items()} for o in ops]
                            for t, ops in plan["scenario"]["threads"].items()},
                "executed": res["trace"][:12],
            }
    return s


def run_batch(check, eng, base_seed, tier, n, nvar, workers, deadline,
              stop_on_bad=True):
    """Fork one process per seed, at most `workers` at a time."""
    live = {}
    done = {}
    nxt = 0
    stop = False
    errors = []
    while (nxt < n and not stop) or live:
        while nxt < n and len(live) < workers and not stop:
            if REAL_MONO() > deadline:
                stop = True
                break
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    for fd in [x[0] for x in live.values()]:
                        os.close(fd)
                    try:
                        t_seed = REAL_MONO()
                        out = ("ok", _summarise(seed_plans(
                            check, eng, base_seed, nxt, tier, nvar), nxt))
                        out[1]["wall"] = REAL_MONO() - t_seed
                    except HarnessError as e:
                        out = ("error", "seed %d: %s" % (nxt, e))
                    except BaseException:
                        out = ("error", "seed %d: %s" % (
                            nxt, traceback.format_exc()))
                    with os.fdopen(w, "wb") as f:
                        f.write(pickle.dumps(out))
                except BaseException:
                    code = 3
                finally:
                    os._exit(code)
            os.close(w)
            live[pid] = [r, nxt, b""]
            nxt += 1
        if not live:
            break
        fds = {v[0]: p for p, v in live.items()}
        ready, _, _ = select.select(list(fds), [], [], 5.0)
        for fd in ready:
            pid = fds[fd]
            data = os.read(fd, 1 << 20)
            if data:
                live[pid][2] += data
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            _, index, blob = live.pop(pid)
            if not blob:
                errors.append("seed %d: no result" % index)
                stop = True
                continue
            kind, val = pickle.loads(blob)
            if kind == "error":
                errors.append(val)
                stop = True
            else:
                done[index] = val
                if val["bad"] and stop_on_bad:
                    stop = True
    return done, errors, nxt


# --------------------------------------------------------------------------
def minimise(check, eng, plan, cls, budget=75.0):
    end = REAL_MONO() + budget
    tries = [0]

    def fails(p):
        if REAL_MONO() > end or tries[0] > 400:
            return False
        tries[0] += 1
        try:
            res = run_plan(check, eng, p)
        except HarnessError:
            return False
        return any(v[0] == cls for v in res["violations"])

    plan = json.loads(json.dumps(plan))
    if not fails(plan):
        return plan, tries[0]
    changed = True
    while changed and REAL_MONO() < end:
        changed = False
        # Drop planned faults and preemptions.
        for opid in sorted(plan["actions"]):
            for key in sorted(plan["actions"].get(opid, {})):
                p = json.loads(json.dumps(plan))
                del p["actions"][opid][key]
                if not p["actions"][opid]:
                    del p["actions"][opid]
                if fails(p):
                    plan, changed = p, True
        # Drop threads, chunks of operations, operations.
        sc = plan["scenario"]
        for t in list(sc["threads"]):
            if len(sc["threads"]) > 1:
                p = json.loads(json.dumps(plan))
                del p["scenario"]["threads"][t]
                if fails(p):
                    plan, changed = p, True
                    sc = plan["scenario"]
        for group in [("threads", t) for t in sc["threads"]] + [("settle",)]:
            def ops_of(p):
                x = p["scenario"]
                for g in group:
                    x = x.get(g, []) if isinstance(x, dict) else x
                return x
            size = max(1, len(ops_of(plan)) // 2)
            while size >= 1 and REAL_MONO() < end:
                i = 0
                while i < len(ops_of(plan)):
                    p = json.loads(json.dumps(plan))
                    ops = ops_of(p)
                    del ops[i:i + size]
                    if fails(p):
                        plan, changed = p, True
                    else:
                        i += size
                size //= 2
    p = check.shrink(plan, fails) if hasattr(check, "shrink") else plan
    return p, tries[0]


def prepare(check):
    """Import the code under simulation behind the simulator's seams."""
    import engine
    eng = engine.Engine(os.path.join(REPO, "HamiltonianPy"))
    eng.install()
    sys.path.insert(0, REPO)
    if hasattr(check, "seams"):
        check.seams(eng)
    check.imports()
    import HamiltonianPy
    want = os.path.join(os.path.realpath(REPO), "HamiltonianPy")
    got = os.path.dirname(os.path.realpath(HamiltonianPy.__file__))
    if got != want:
        raise HarnessError("imported %s instead of %s" % (got, want))
    try:
        check.warm()
    except Exception as e:      # the runs will meet and report it
        print("note: warm-up raised %s: %s" % (type(e).__name__, e))
    gc.collect()
    gc.disable()
    gc.freeze()
    return eng


def _known():
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        return json.load(f)["findings"]


def replay(check, path):
    with open(path) as f:
        rep = json.load(f)
    eng = prepare(check)
    res = run_plan(check, eng, rep["plan"])
    for cls, msg in res["violations"]:
        print("  %s: %s" % (cls, msg))
    for t in res["trace"]:
        print("  trace:", " ".join(t))
    print("log", res["log"])
    hit = any(v[0] == rep["class"] for v in res["violations"])
    if hit:
        print("VIOLATION property=%s replay=%s" % (check.id, path))
        return 1
    print("no violation of class %s" % rep["class"])
    return 0


def main(check):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--workers", type=int,
                    default=min(8, os.cpu_count() or 1))
    ap.add_argument("--seeds", type=int)
    ap.add_argument("--variants", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--one", type=int, help="profile one seed in-process")
    ap.add_argument("--logs", help="write per-run log hashes here")
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args(sys.argv[2:])
    t0 = REAL_MONO()
    if args.replay:
        return replay(check, args.replay)
    conf = dict(check.thorough if args.tier == "thorough" else check.quick)
    if args.seeds:
        conf["seeds"] = args.seeds
    if args.variants:
        conf["variants"] = args.variants
    print("property %s tier %s VERIF_SEED %d seeds %d variants/seed %d" % (
        check.id, args.tier, args.seed, conf["seeds"], conf["variants"]),
        flush=True)
    eng = prepare(check)
    t1 = REAL_MONO()
    if args.one is not None:
        rng = random.Random("%s:%d:%d" % (check.id, args.seed, args.one))
        scenario = check.gen(rng, args.tier)
        print(json.dumps(scenario, indent=1))
        import cProfile
        prof = cProfile.Profile()
        prof.enable()
        res = execute(check, eng, {"scenario": scenario, "actions": {}})
        prof.disable()
        prof.print_stats("cumulative")
        print(res)
        return 0
    soft = 3600.0 * 4 if args.tier == "thorough" else 420.0
    done, errors, started = run_batch(
        check, eng, args.seed, args.tier, conf["seeds"], conf["variants"],
        args.workers, REAL_MONO() + soft)
    t2 = REAL_MONO()
    slow = sorted(((round(d["wall"], 2), i) for i, d in done.items()),
                  reverse=True)[:5]
    print("slowest seeds (s, index):", slow)
    if args.logs:
        with open(args.logs, "w") as f:
            for i in sorted(done):
                f.write("%d %s\n" % (i, " ".join(done[i]["logs"])))
    # Violations first: an error elsewhere must not hide one.
    known = [k for k in _known() if k["property"] == check.id]
    reported = 0
    known_hit = {}
    classes = {}
    for i in sorted(done):
        for plan, viol in done[i]["bad"]:
            for cls, msg in viol:
                k = next((k for k in known if k["class"] == cls
                          and k["match"] in msg), None)
                if k is not None:
                    known_hit[k["id"]] = k
                    continue
                if cls not in classes:
                    classes[cls] = (i, plan, msg)
    if classes and os.environ.get("HAMSIM_FIRST"):      # campaigns only
        print("FIRST", [(c, v[0], v[2][:150]) for c, v in classes.items()])
        return 1
    for cls, (i, plan, msg) in list(classes.items())[:3]:
        small, tries = minimise(check, eng, plan, cls,
                                budget=60.0 if reported == 0 else 20.0)
        path = write_replay(check, args, i, cls, msg, small)
        ok = verify_replay(check, path)
        print("seed %d (VERIF_SEED %d): %s: %s" % (i, args.seed, cls, msg))
        print("  minimised in %d runs; replay in a fresh process %s" % (
            tries, "reproduces" if ok else "DOES NOT reproduce"))
        print("VIOLATION property=%s replay=%s" % (check.id, path),
              flush=True)
        reported += 1
    for k in known_hit.values():
        print("KNOWN-FINDING: property=%s %s" % (check.id, k["what"]))
    if not args.no_evidence:
        write_evidence(check, args, conf, done, len(classes),
                       t1 - t0, t2 - t1, REAL_MONO() - t0)
    if reported:
        return 1
    if errors:
        for e in errors[:3]:
            print("HARNESS ERROR:", e, file=sys.stderr)
        return 2
    if not done:
        print("HARNESS ERROR: nothing was run", file=sys.stderr)
        return 2
    bad_probe = [p for p in getattr(check, "must_reach", ())
                 if not sum(d["probes"].get(p, 0) for d in done.values())]
    if bad_probe and not args.seeds:
        print("note: probes never reached:", bad_probe)
    print("held: %d runs of %d seeds, %d operations, %.1f s" % (
        sum(d["runs"] for d in done.values()), len(done),
        sum(d["ops"] for d in done.values()), REAL_MONO() - t0))
    return 0


def write_replay(check, args, index, cls, msg, plan):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": check.id, "verif_seed": args.seed, "seed_index": index,
            "class": cls, "message": msg, "plan": plan,
            "how": "bin/check %s --replay <this file>" % check.id}
    tag = hashlib.sha256(json.dumps(plan, sort_keys=True).encode()
                         ).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (check.id, tag))
    with open(path, "w") as f:
        json.dump(body, f, indent=1, sort_keys=True)
    return path


def verify_replay(check, path):
    try:
        p = subprocess.run(
            [os.path.join(VERIF, "bin", "check"), check.id, "--replay", path],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
    except subprocess.TimeoutExpired:
        return False
    return p.returncode == 1


def write_evidence(check, args, conf, done, nviol, t_import, t_run, wall):
    runs = sum(d["runs"] for d in done.values())
    scheds = set()
    scen = set()
    for d in done.values():
        for sh, s, nontrivial in d["scheds"]:
            scen.add(sh)
            if nontrivial:
                scheds.add((sh, s))
    fired, probes = {}, {}
    for d in done.values():
        for k, v in d["fired"].items():
            fired[k] = fired.get(k, 0) + v
        for k, v in d["probes"].items():
            probes[k] = probes.get(k, 0) + v
    samples = [d["sample"] for _, d in sorted(done.items()) if d["sample"]][:2]
    if not samples:
        samples = [{"note": "no run of this batch had an action fire"}]
    ev = {
        "property": check.id,
        "tier": args.tier if args.tier in ("quick", "thorough") else "quick",
        "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(scheds),
            "rule": (
                "A case is one simulated run: a generated scenario (objects, "
                "caller threads, their operations) plus a plan of preemptions "
                "and faults drawn from the seed. Each seed gives one fault-"
                "free sequential run and several planned ones. Distinct and "
                "non-trivial: at least one preemption or fault actually fired "
                "and the pair (scenario, executed sequence of switches and "
                "faults with their code positions) was not seen before in "
                "this batch. " + check.rule),
            "samples": samples,
            "seeds": len(done),
            "seeds_per_hour": round(len(done) / max(t_run, 1e-3) * 3600),
            "runs_per_hour": round(runs / max(t_run, 1e-3) * 3600),
            "operations": sum(d["ops"] for d in done.values()),
            "operations_that_raised": sum(
                d["ops_failed"] for d in done.values()),
            "points_passed": sum(d["points"] for d in done.values()),
            "distinct_scenarios": len(scen),
            "simulated_seconds": round(
                sum(d["sim_time"] for d in done.values()), 3),
            "fired": fired,
            "probes": probes,
            "real_components": check.real,
            "stub_components": check.stub,
            "import_and_compile_s": round(t_import, 2),
        },
        "assumptions": list(check.assumptions),
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", check.id + ".json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1)
