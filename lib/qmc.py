"""Exhaustive bounded exploration of the real qsonic code.

A check enumerates *cases* (an operation sequence, an input of a bounded
alphabet, a schedule, ...), runs the real code on every one of them and
compares each step with a small reference model. This module enumerates the
cases over worker processes, counts what was covered, writes the evidence
file, and turns a disagreement into a replayable artefact.

    class MyCheck(qmc.Check):
        pid = "Q01"
        def cases(self, tier): yield {...json...}      # simplest first
        def run(self, case, ctx): ...                  # ctx.require(...)

    if __name__ == "__main__":
        qmc.main(MyCheck())
"""
import copy
import hashlib
import itertools
import json
import logging
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback
import types
import warnings

sys.dont_write_bytecode = True
LIB = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(LIB)
REPO = os.environ.get("QSONIC_REPO", "/repo")
for _p in (os.path.join(REPO, "py"), os.path.join(LIB, "stubs"), LIB):
    if _p in sys.path:
        sys.path.remove(_p)
    sys.path.insert(0, _p)

import numpy as np  # noqa: E402

logging.disable(logging.CRITICAL)
logging.raiseExceptions = False
warnings.simplefilter("ignore")
np.seterr(all="ignore")


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


# --------------------------------------------------------------------------
# nondeterminism the harness owns
# --------------------------------------------------------------------------
_np_empty, _np_empty_like = np.empty, np.empty_like
_poison_mode = ["nan"]


def _poison(arr):
    if not isinstance(arr, np.ndarray) or arr.size == 0:
        return arr
    dt = arr.dtype
    if dt.names:
        for n in dt.names:
            _poison(arr[n])
        return arr
    if dt.kind == "f":
        arr.fill(np.nan if _poison_mode[0] == "nan" else 8.125e+11)
    elif dt.kind == "c":
        arr.fill(np.nan)
    elif dt.kind in "iu":
        arr.fill(113)
    elif dt.kind == "b":
        arr.fill(_poison_mode[0] == "nan")
    return arr


def _empty(*a, **k):
    return _poison(_np_empty(*a, **k))


def _empty_like(*a, **k):
    return _poison(_np_empty_like(*a, **k))


def poison_uninitialised(mode="nan"):
    """np.empty memory becomes a chosen value: reading it is deterministic."""
    _poison_mode[0] = mode
    np.empty, np.empty_like = _empty, _empty_like


def unpoison():
    np.empty, np.empty_like = _np_empty, _np_empty_like


# --------------------------------------------------------------------------
# class-level state of the code under test
# --------------------------------------------------------------------------
_snap = {}
_skip_types = (types.FunctionType, types.BuiltinFunctionType, staticmethod,
               classmethod, property, types.MethodType, type)


def _class_data(cls):
    return {k: v for k, v in vars(cls).items()
            if not isinstance(v, _skip_types)
            and not (k.startswith("__") and k.endswith("__"))}


def snapshot(*classes):
    for cls in classes:
        if cls not in _snap:
            _snap[cls] = copy.deepcopy(_class_data(cls))


def fresh():
    """Every registered class gets its import-time class attributes back."""
    for cls, data in _snap.items():
        for k in list(_class_data(cls)):
            if k not in data:
                delattr(cls, k)
        for k, v in data.items():
            setattr(cls, k, copy.deepcopy(v))


# --------------------------------------------------------------------------
def canon(x):
    """Canonical, hashable form; floats to 10 significant digits."""
    if isinstance(x, dict):
        return ("d",) + tuple(sorted((str(k), canon(v))
                                     for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(canon(v) for v in x)
    if isinstance(x, np.ndarray):
        if x.dtype.names:
            return ("r",) + tuple((n, canon(x[n])) for n in x.dtype.names)
        return ("a", x.shape) + tuple(canon(v) for v in x.ravel().tolist())
    if isinstance(x, (np.generic,)):
        return canon(x.item())
    if isinstance(x, float):
        return "%.10g" % x
    return x


def digest(x):
    return int.from_bytes(
        hashlib.blake2b(repr(canon(x)).encode(), digest_size=8).digest(),
        "big")


class Ctx:
    def __init__(self, tmp, seed, tier):
        self.seed = seed
        self.tier = tier
        self._base = tmp
        self._n = 0
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        self.inner = None
        self._tmp = None
        self.extra = {}

    def state(self, *parts):
        self.states.add(digest(parts))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, label):
        self.outcomes[label] = self.outcomes.get(label, 0) + 1

    def add(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def require(self, cond, msg, **info):
        if not cond:
            if callable(msg):
                msg = msg()
            if info:
                msg += " | " + ", ".join(f"{k}={v!r}" for k, v in info.items())
            raise Violation(msg)

    def same(self, got, want, what, rtol=1e-9, atol=1e-12, nan_ok=False):
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            raise Violation(
                f"{what}: shape {got.shape}, expected {want.shape}; "
                f"got {got!r}, expected {want!r}")
        if got.dtype.kind in "fc" or want.dtype.kind in "fc":
            ok = np.allclose(got, want, rtol=rtol, atol=atol,
                             equal_nan=nan_ok)
        else:
            ok = bool(np.all(got == want))
        if not ok:
            raise Violation(f"{what}: got {got!r}, expected {want!r}")

    def raises(self, fnc, what, exc=Exception):
        try:
            r = fnc()
        except exc as e:
            return e
        except Exception as e:
            raise Violation(f"{what}: raised {type(e).__name__} ({e}), "
                            f"expected {exc}")
        raise Violation(f"{what}: accepted, returned {r!r}")

    @property
    def tmp(self):
        """Scratch directory of this case (removed afterwards)."""
        if self._tmp is None:
            self._n += 1
            self._tmp = os.path.join(self._base, f"c{self._n}")
            os.makedirs(self._tmp)
        return self._tmp

    def clean(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


class Check:
    pid = None
    level = "model_checking"
    assumptions = []
    case_timeout = 100
    bounds = {}

    def setup(self):
        """Import the code under test here (before forking)."""

    def cases(self, tier):
        raise NotImplementedError

    def run(self, case, ctx):
        raise NotImplementedError

    def describe(self, case):
        return case

    def finding_key(self, case, msg):
        """Identity of a failing history for known-findings matching."""
        return None


def _jsonable(x):
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return _jsonable(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


_beat = None    # progress counter shared with the parent process


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(check, case, ctx):
    """Runs one case; returns None or a message."""
    ctx.inner = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(check.case_timeout)
    import simmpi

    def tick():
        signal.alarm(check.case_timeout)
        if _beat is not None:
            _beat[0] += 1

    simmpi.tick = tick
    try:
        fresh()
        check.run(case, ctx)
        return None
    except Violation as e:
        return str(e)
    except CaseTimeout:
        return f"no answer within {check.case_timeout} s (hang)"
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        return ("unexpected failure of the code under test: "
                f"{type(e).__name__}: {e}\n{traceback.format_exc()}")
    finally:
        signal.alarm(0)
        simmpi.tick = None
        ctx.clean()


def load_findings(pid):
    known, fname = {}, os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fname):
        for line in open(fname):
            line = line.strip()
            if line.startswith("finding:"):
                words = line.split(None, 3)
                if words[1] == f"property={pid}":
                    known[words[2].split("=", 1)[1]] = words[3]
    return known


def _worker(check, tier, seed, w, nw, base, outname, shared, deadline):
    global _beat
    os.setpgid(0, 0)
    _beat = shared[nw + w:nw + w + 1]
    tmp = os.path.join(base, f"w{w}")
    os.makedirs(tmp)
    tempfile.tempdir = tmp
    ctx = Ctx(tmp, seed, tier)
    known = load_findings(check.pid)
    viol, hits, ncase, complete = [], {}, 0, True
    for idx, case in enumerate(check.cases(tier)):
        if idx % nw != w:
            continue
        if time.time() > deadline:
            complete = False
            break
        shared[w] = idx + 1
        msg = run_case(check, case, ctx)
        ncase += 1
        if msg is not None:
            key = check.finding_key(case, msg)
            if key is not None and key in known:
                hits[key] = known[key]
                continue
            viol.append((idx, case, ctx.inner, msg))
            if len(viol) >= 2:
                complete = False
                break
    with open(outname, "wb") as f:
        pickle.dump(dict(
            states=np.fromiter(ctx.states, dtype=np.uint64,
                               count=len(ctx.states)),
            transitions=ctx.transitions, traces=ctx.traces, ncase=ncase,
            outcomes=ctx.outcomes, viol=[
                (i, _jsonable(c), _jsonable(n), m) for i, c, n, m in viol],
            hits=hits, complete=complete, extra=ctx.extra), f)


def main(check):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("tier", nargs="?",
                    default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--case", type=int, help="run only the case of this index")
    args = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    replay_file = os.path.join(evdir, f"{check.pid}.replay.json")

    base = tempfile.mkdtemp(prefix=f"qmc-{check.pid}-")
    code = 2
    try:
        code = _main(check, args, seed, t0, evdir, replay_file, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def _report(check, tier, seed, t0, evdir, replay_file, viol, cov, hits):
    ev = dict(
        property=check.pid, tier=tier, seed=seed, level=check.level,
        coverage=cov, assumptions=list(check.assumptions),
        wall_s=round(time.time() - t0, 3), violations=len(viol))
    with open(os.path.join(evdir, f"{check.pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for key, what in sorted(hits.items()):
        print(f"KNOWN-FINDING: property={check.pid} {what}")
    if not viol:
        print(f"OK property={check.pid} tier={tier} cases={cov.get('cases')} "
              f"states={cov['states']} transitions={cov['transitions']} "
              f"traces={cov['traces_validated_against_impl']} "
              f"exhaustive={cov['exhaustive']} wall={ev['wall_s']}s")
        return 0
    viol.sort(key=lambda v: v[0])
    idx, case, inner, msg = viol[0]
    with open(replay_file, "w") as f:
        json.dump(dict(property=check.pid, tier=tier, index=idx, case=case,
                       inner=inner, message=msg, others=[
                           dict(index=v[0], case=v[1], message=v[3][:2000])
                           for v in viol[1:5]]), f, indent=1)
    print(f"case #{idx}: {json.dumps(case)[:1500]}")
    if inner is not None:
        print(f"at: {json.dumps(inner)[:1500]}")
    print(msg[:3000])
    print(f"VIOLATION property={check.pid} replay={replay_file}")
    return 1


def _main(check, args, seed, t0, evdir, replay_file, base):
    tier = args.tier
    empty_cov = dict(states=0, transitions=0, cases=0,
                     traces_validated_against_impl=0, samples=[],
                     exhaustive=False)
    try:
        check.setup()
    except Exception as e:
        return _report(
            check, tier, seed, t0, evdir, replay_file,
            [(0, "import", None,
              f"the code under test cannot be loaded: {e}\n"
              + traceback.format_exc())], empty_cov, {})

    if args.replay or args.case is not None:
        if args.replay:
            with open(args.replay) as f:
                rep = json.load(f)
            case, idx = rep["case"], rep["index"]
        else:
            idx = args.case
            case = next(itertools.islice(check.cases(tier), idx, None))
        msgs = []
        for _ in range(2):
            ctx = Ctx(base, seed, tier)
            msgs.append(run_case(check, case, ctx))
        if msgs[0] != msgs[1]:
            print("replay diverged:", msgs)
        if msgs[0] is None:
            print("case holds")
            return 0
        print(f"case #{idx}: {json.dumps(_jsonable(case))}")
        print(f"at: {json.dumps(_jsonable(ctx.inner))}")
        print(msgs[0])
        print(f"VIOLATION property={check.pid} replay="
              f"{args.replay or replay_file}")
        return 1

    import mmap
    import array  # noqa: F401
    nw = args.workers or min(8, os.cpu_count() or 1)
    budget = 840 if tier == "quick" else 6 * 3600
    deadline = t0 + budget
    buf = mmap.mmap(-1, 8 * 2 * nw)
    shared = np.frombuffer(buf, dtype=np.int64)
    pids = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(nw):
        out = os.path.join(base, f"out{w}")
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                _worker(check, tier, seed, w, nw, base, out, shared, deadline)
                rc = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(rc)
        pids[pid] = w

    crashed = []
    last = {w: ((0, 0), time.time()) for w in range(nw)}
    while pids:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.02)
            now = time.time()
            for p, w in list(pids.items()):
                cur = int(shared[w])
                if (cur, int(shared[nw + w])) != last[w][0]:
                    last[w] = ((cur, int(shared[nw + w])), now)
                elif cur and now - last[w][1] > check.case_timeout + 60:
                    crashed.append((cur - 1, "hang in native code"))
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except ProcessLookupError:
                        os.kill(p, signal.SIGKILL)
                    last[w] = (last[w][0], now)
            continue
        w = pids.pop(pid, None)
        if w is None:
            continue
        if status != 0:
            crashed.append((int(shared[w]) - 1, f"process died: {status}"))
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass

    states, viol, hits, outcomes, extra = [], [], {}, {}, {}
    transitions = traces = ncase = 0
    complete = not crashed
    for w in range(nw):
        out = os.path.join(base, f"out{w}")
        if not os.path.exists(out):
            continue
        with open(out, "rb") as f:
            d = pickle.load(f)
        states.append(d["states"])
        transitions += d["transitions"]
        traces += d["traces"]
        ncase += d["ncase"]
        complete &= d["complete"]
        viol.extend(d["viol"])
        hits.update(d["hits"])
        for k, v in d["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + v
        for k, v in d["extra"].items():
            extra[k] = extra.get(k, 0) + v
    for idx, why in crashed:
        case = next(itertools.islice(check.cases(tier), max(idx, 0), None),
                    None)
        viol.append((idx, _jsonable(case), None, f"crash: {why}"))
    nstates = int(np.unique(np.concatenate(states)).size) if states else 0
    samples = []
    for i, case in enumerate(itertools.islice(check.cases(tier), 0, ncase)):
        if i in (0, ncase // 2, ncase - 1):
            samples.append(dict(index=i, case=_jsonable(check.describe(case))))
    cov = dict(
        states=nstates, transitions=transitions, cases=ncase,
        traces_validated_against_impl=traces, samples=samples,
        exhaustive=bool(complete), outcomes=outcomes,
        bounds=check.bounds.get(tier, check.bounds), **extra)
    if not complete and not viol:
        cov["cap"] = f"stopped after {budget} s"
    return _report(check, tier, seed, t0, evdir, replay_file, viol, cov, hits)
