"""Q04: collective steps give the same value or the same failure everywhere."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import argparse
import functools
import itertools

import qmc
import gen
import pipe
import q22
import simmpi
import numpy as np
import fitsio

WAVE = 3600. + 0.8 * np.arange(300)


def f_value(v):
    return v


def f_kw(a, b=0, *, c=0):
    return [a, b, c]


class Callee:
    def __init__(self, v):
        self.v = v

    def __call__(self, *a):
        if isinstance(self.v, BaseException):
            raise self.v
        return self.v

    def method(self, *a):
        return self()


def f_raise(e):
    raise e


class LocalError(Exception):
    def __reduce__(self):
        raise TypeError("cannot be pickled")


VALUES = [None, False, True, 0, 0.0, 1, "", "x", [], [1], (), {}, {"a": 1},
          np.zeros(0), np.arange(3), b"", np.float64(2.5), -1]
ERRORS = [ValueError("v"), KeyError("k"), FileNotFoundError("nofile"),
          "qsonic", LocalError("local"), ZeroDivisionError(), OSError()]


class Q04(qmc.Check):
    pid = "Q04"
    bounds = {
        "quick": "every sharing entry point x {valid, each way of failing} x "
                 "all interleavings of 1-3 processes at communication points "
                 "x weakest/strongest collective synchronisation; failing drivers on "
                 "1-3 processes x all priority orders; working runs of both "
                 "programs in 9 configurations on 2, 3 and 8 processes",
        "thorough": "same with 4 processes for single-step entry points; "
                    "20 configurations"}
    assumptions = [
        "results of shared evaluations can be pickled (documented)",
        "files that exist for the master are absent for the others and vice "
        "versa, which reveals an evaluation outside the master"]
    case_timeout = 200

    def setup(self):
        global mpi_utils, catalog, masks, calibration, Spectrum, fit, calib
        global picca, QsonicException
        import qsonic.mpi_utils as mpi_utils
        import qsonic.catalog as catalog
        import qsonic.masks as masks
        import qsonic.calibration as calibration
        from qsonic.spectrum import Spectrum
        import qsonic.scripts.qsonic_fit as fit
        import qsonic.scripts.qsonic_calib as calib
        import qsonic.picca_continuum as picca
        from qsonic import QsonicException
        qmc.snapshot(Spectrum)

    def cases(self, tier):
        for i in range(len(VALUES)):
            yield dict(entry="bcast", value=i)
        for i in range(len(ERRORS)):
            for c in range(5):
                yield dict(entry="bcast", error=i, callee=c)
        yield dict(entry="bcast", kw=True)
        for v in ("valid", "valid2", "invalid", "unknown", "help",
                  "logic", "missing", "falsy"):
            yield dict(entry="parse", variant=v)
        for e, vs in ENTRIES.items():
            for v in vs:
                yield dict(entry=e, variant=v)
        for size in (1, 2, 3):
            for order in itertools.permutations(range(size)):
                for v in ("catalog", "sky", "dla", "bal", "options", "help"):
                    yield dict(entry="main", variant=v, size=size,
                               order=order)
                for v in ("catalog", "list", "balcols", "options"):
                    yield dict(entry="calibmain", variant=v, size=size,
                               order=order)
        for cfg in WHOLE if tier == "quick" else q22.CONFIGS:
            for size in (2, 3, 8):
                yield dict(entry="whole", cfg=cfg, size=size)

    # ------------------------------------------------------------------
    def explore(self, ctx, body, judge, maxsize):
        for size in range(1, maxsize + 1):
            for sync in (False, True):
                def check(res, choices, w):
                    ctx.inner = dict(size=size, schedule=choices, sync=sync)
                    ctx.require(not isinstance(res, BaseException),
                                f"protocol: {type(res).__name__}: {res}")
                    judge(res)
                    ctx.state(size, [repr(r)[:200] for r in res])
                n, st, full = simmpi.explore_schedules(
                    size, lambda: body, check, sync,
                    1200 if ctx.tier == "quick" else 30000)
                ctx.add("schedules", n)
                if not full:
                    ctx.add("preemption_bounded", 1)
                ctx.step(st)
                ctx.trace(n)

    def all_equal(self, ctx, want, label):
        def judge(res):
            for r, x in enumerate(res):
                ctx.require(x.kind == 'value', f"rank {r}: {x!r}\n{x.text}")
                ctx.require(
                    type(x.value) is type(want)
                    and qmc.canon(x.value) == qmc.canon(want),
                    f"rank {r} got {x.value!r}, master value is {want!r}")
        ctx.outcome(label)
        return judge

    def all_fail(self, ctx, msg=None):
        def judge(res):
            for r, x in enumerate(res):
                ctx.require(x.kind == 'raise'
                            and isinstance(x.value, QsonicException),
                            f"rank {r}: {x!r}, expected QsonicException\n"
                            + x.text)
                if msg is not None:
                    ctx.require(msg in str(x.value), f"rank {r}: message "
                                f"{x.value} lacks {msg}")
        ctx.outcome("same failure")
        return judge

    def run(self, case, ctx):
        e = case["entry"]
        big = 4 if ctx.tier == "thorough" else 3
        if e == "bcast":
            return self.run_bcast(case, ctx, big)
        if e == "parse":
            return self.run_parse(case, ctx, big)
        if e == "whole":
            return self.run_whole(case, ctx)
        if e == "main":
            return self.run_main(case, ctx, fit)
        if e == "calibmain":
            return self.run_main(case, ctx, calib)
        fnc = getattr(self, "e_" + e)
        good, bad = fnc(ctx, case["variant"])
        maxsize = 2 if e in ("exclude", "masks") else big
        if case["variant"].startswith("ok"):
            want = good(None, 0)    # serial use
            ctx.require(want is not None, "no probe value")
            self.explore(
                ctx, lambda comm: (good if comm.rank == 0 else bad)(
                    comm, comm.rank),
                self.all_equal(ctx, want, e + " value"), maxsize)
        else:
            try:
                v = bad(None, 0)
                ctx.require(False, f"serial: accepted, {v!r}")
            except QsonicException:
                pass
            self.explore(
                ctx, lambda comm: (bad if comm.rank == 0 else good)(
                    comm, comm.rank), self.all_fail(ctx), maxsize)

    def run_bcast(self, case, ctx, big):
        calls = []
        if "value" in case:
            v = VALUES[case["value"]]

            def body(comm):
                def f(x):
                    calls.append(comm.rank)
                    return x
                r = mpi_utils.mpi_fnc_bcast(f, comm, comm.rank, "E", v)
                ctx.require(set(calls) == {0}, "evaluated on", ranks=calls)
                return r
            self.explore(ctx, body, self.all_equal(ctx, v, "value"), big)
            for rank in (0, 2):
                r = mpi_utils.mpi_fnc_bcast(f_value, None, rank, "E", v)
                ctx.require(qmc.canon(r) == qmc.canon(v), "serial value")
            ctx.trace(2)
        elif "kw" in case:
            def body(comm):
                if comm.rank == 0:
                    return mpi_utils.mpi_fnc_bcast(
                        f_kw, comm, comm.rank, "E", 1, 2, c=3)
                return mpi_utils.mpi_fnc_bcast(
                    f_raise, comm, comm.rank, "E", ValueError())
            self.explore(ctx, body, self.all_equal(ctx, [1, 2, 3], "args"),
                         big)
        else:
            err = ERRORS[case["error"]]
            if err == "qsonic":
                err = QsonicException("inner")
            c = case["callee"]
            callee = [f_raise, functools.partial(f_raise, err), Callee(err),
                      Callee(err).method,
                      lambda *a: f_raise(err)][c]
            args = (err,) if c in (0, 4) else ()

            def body(comm):
                return mpi_utils.mpi_fnc_bcast(
                    callee if comm.rank == 0 else f_value, comm, comm.rank,
                    "the documented message", *(
                        args if comm.rank == 0 else (5,)))
            self.explore(ctx, body,
                         self.all_fail(ctx, "the documented message"), big)
            ctx.raises(lambda: mpi_utils.mpi_fnc_bcast(
                callee, None, 1, "m", *args), "serial", QsonicException)

    def run_parse(self, case, ctx, big):
        v = case["variant"]

        def parser():
            p = argparse.ArgumentParser()
            p.add_argument("--x", type=int, required=True)
            p.add_argument("--flag", action="store_true")
            p.add_argument("--names", nargs="+", default=["a"])
            return p
        opts = {"valid": ["--x", "3", "--names", "q", "r"],
                "valid2": ["--x", "-1", "--flag"], "falsy": ["--x", "0"],
                "invalid": ["--x", "hello"], "unknown": ["--x", "1", "--y"],
                "help": ["--help"], "missing": [],
                "logic": ["--x", "3"]}[v]
        other = ["--x", "7"] if v not in ("valid", "valid2", "falsy") \
            else ["--nonsense"]
        logic = (lambda a: False) if v == "logic" else (lambda a: a.x < 5)

        def body(comm):
            sys.stdout = sys.stderr = open(os.devnull, "w")
            a = mpi_utils.mpi_parse(
                parser(), comm, comm.rank,
                opts if comm.rank == 0 else other, logic)
            return dict(vars(a))
        so, se = sys.stdout, sys.stderr
        try:
            if v in ("valid", "valid2", "falsy"):
                want = vars(parser().parse_args(opts))
                self.explore(ctx, body,
                             self.all_equal(ctx, dict(want), "parsed"), big)
            else:
                def judge(res):
                    for r, x in enumerate(res):
                        ctx.require(x.kind == 'exit',
                                    f"rank {r}: {x!r} {x.text}")
                    ctx.require(len({x.value for x in res}) == 1,
                                "exit codes differ")
                    ok = res[0].value in (0, None)
                    ctx.require(ok == (v == "help"),
                                f"exit code {res[0].value} for {v}")
                ctx.outcome("all exit")
                self.explore(ctx, body, judge, big)
        finally:
            sys.stdout, sys.stderr = so, se

    # -- entry points: return (good, bad) callables of (comm, rank) --------
    def probe(self, targetid=5, z=2.2):
        row = gen.catrow(targetid=targetid, z=z)
        n = WAVE.size
        qmc.fresh()
        s = gen.make_spectrum(
            Spectrum, row, {'B': (WAVE, 2 + np.sin(np.arange(n)),
                                  np.ones(n), np.zeros(n))})
        s.set_forest_region(3600, 6000, 1050, 1180)
        return s

    @staticmethod
    def out(s):
        return {k: (s.forestflux[k].copy(), s.forestivar[k].copy())
                for k in s.forestwave}

    def e_catalog(self, ctx, v):
        good = os.path.join(ctx.tmp, "c.fits")
        bad = os.path.join(ctx.tmp, "bad.fits")
        t = gen.rec({'TARGETID': np.array([5, 3], 'i8'),
                     'Z': np.array([2.5, 2.2]), 'RA': np.array([1., 2.]),
                     'DEC': np.array([1., 2.]),
                     'SURVEY': np.array(['main', 'main'], 'S4'),
                     'LASTNIGHT': np.array([20210101, 20210102])})
        gen.write_table(good, t, "QSO_CAT")
        if v == "nocol":
            gen.write_table(bad, t[['TARGETID', 'Z']], "QSO_CAT")
        elif v == "dup":
            t['TARGETID'] = 4
            gen.write_table(bad, t, "QSO_CAT")
        elif v == "empty":
            t['Z'] = 90
            gen.write_table(bad, t, "QSO_CAT")

        def f(fn):
            return lambda comm, rank: catalog.mpi_read_quasar_catalog(
                fn, comm, rank, zmax=10.)
        return f(good), f(bad)

    def e_queue(self, ctx, v):
        self.e_catalog(ctx, v)

        def f(comm, rank):
            return catalog.mpi_get_local_queue(
                os.path.join(ctx.tmp, "bad.fits"), comm, rank,
                comm.Get_size() if comm is not None else 1, zmax=10.)
        return f, f

    def e_sky(self, ctx, v):
        good = os.path.join(ctx.tmp, "sky.txt")
        bad = os.path.join(ctx.tmp, "skybad.txt")
        with open(good, "w") as f:
            f.write("# type wave_min wave_max frame\n"
                    "sky 3650 3700 OBS\nsky 1150 1155 RF\n")
        if v == "garbage":
            with open(bad, "w") as f:
                f.write("a b\nc d e f\n1 2 3 4 5 6\n")

        def f(fn):
            def g(comm, rank):
                m = masks.SkyMask(fn, comm, rank)
                s = self.probe()
                m.apply(s)
                return self.out(s)
            return g
        return f(good), f(bad)

    def e_dla(self, ctx, v):
        good = os.path.join(ctx.tmp, "dla.fits")
        bad = os.path.join(ctx.tmp, "dlabad.fits")
        t = gen.rec({'TARGETID': np.array([5, 6], 'i8'),
                     'Z_DLA': np.array([2.05, 2.04]),
                     'NHI': np.array([20.3, 21.])})
        gen.write_table(good, t, "DLACAT")
        if v == "noext":
            gen.write_table(bad, t, "OTHER")
        elif v == "noz":
            gen.write_table(bad, t[['TARGETID', 'NHI']], "DLACAT")

        def f(fn):
            def g(comm, rank):
                m = masks.DLAMask(fn, np.array([5]), comm, rank)
                s = self.probe()
                m.apply(s)
                return self.out(s)
            return g
        return f(good), f(bad)

    def calfile(self, fn, v, ext, cols):
        w = 3600 + 10. * np.arange(40)
        if v == "uneven":
            w[7] += 3
        if v != "missing":
            d = {'lambda': w}
            d.update({c: 1 + 0.01 * i + 0.001 * np.arange(40)
                      for i, c in enumerate(cols)})
            if v == "nocol":
                d.pop(cols[0])
            gen.write_table(fn, gen.rec(d), "NOPE" if v == "noext" else ext)

    def e_noise(self, ctx, v):
        good = os.path.join(ctx.tmp, "n.fits")
        bad = os.path.join(ctx.tmp, "nbad.fits")
        self.calfile(good, "ok", "VAR_FUNC", ['eta', 'var_lss'])
        if not v.startswith("ok"):
            self.calfile(bad, v, "VAR_FUNC", ['eta', 'var_lss'])

        def f(fn):
            def g(comm, rank):
                m = calibration.NoiseCalibrator(
                    fn, comm, rank, add_varlss=v == "ok-add",
                    no_eta=v == "ok-noeta")
                s = self.probe()
                s.cont_params['cont'] = {
                    a: np.ones_like(w) for a, w in s.forestwave.items()}
                m.apply([s])
                return self.out(s)
            return g
        return f(good), f(bad)

    def e_flux(self, ctx, v):
        good = os.path.join(ctx.tmp, "f.fits")
        bad = os.path.join(ctx.tmp, "fbad.fits")
        self.calfile(good, "ok", "STACKED_FLUX", ['stacked_flux'])
        if not v.startswith("ok"):
            self.calfile(bad, v, "STACKED_FLUX", ['stacked_flux'])

        def f(fn):
            def g(comm, rank):
                m = calibration.FluxCalibrator(fn, comm, rank)
                s = self.probe()
                m.apply([s])
                return self.out(s)
            return g
        return f(good), f(bad)

    def e_fiducial(self, ctx, v):
        good = os.path.join(ctx.tmp, "fid.fits")
        bad = os.path.join(ctx.tmp, "fidbad.fits")
        for fn, vv in ((good, "ok"), (bad, v)):
            if vv == "missing" or (fn == bad and v.startswith("ok")):
                continue
            w = 3600 + 10. * np.arange(300)
            if vv == "uneven":
                w[7] += 3
            d = {'LAMBDA': w, 'VAR_LSS': 0.1 + 1e-4 * np.arange(300),
                 'MEANFLUX': 0.5 + 1e-4 * np.arange(300)}
            if vv == "nocol":
                d.pop('MEANFLUX')
            gen.write_table(fn, gen.rec(d),
                            "X" if vv == "noext" else "STATS")
        opts = ["--input-dir", "x", "--catalog", "y", "--rfdwave", "10"]

        def f(fn):
            def g(comm, rank):
                extra = []
                if v != "ok-var":
                    extra += ["--fiducial-meanflux", fn]
                if v in ("ok-var", "ok-both"):
                    extra += ["--fiducial-varlss", fn]
                args = fit.get_parser().parse_args(opts + extra)
                c = picca.PiccaContinuumFitter(args)
                x = np.array([3605., 4000., 5000.])
                return (c.meanflux_interp(x), c.varlss_interp(x),
                        c.eta_interp(x))
            return g
        return f(good), f(bad)

    def e_exclude(self, ctx, v):
        def make(tag, vv):
            lst = os.path.join(ctx.tmp, tag + ".txt")
            cat = os.path.join(ctx.tmp, tag + ".fits")
            if vv != "nolist":
                with open(lst, "w") as f:
                    f.write("oops\n" if vv == "garbage" else
                            "17\n" if vv == "ok-one" else "17\n19\n")
            if vv != "nocat":
                t = {'TARGETID': np.array([5, 3, 8], 'i8'),
                     'Z': np.array([2.5, 2.2, 3.]),
                     'RA': np.array([1., 2., 3.]),
                     'DEC': np.array([1., 2., 3.]),
                     'SURVEY': np.array(['main', 'sv1', 'main'], 'S4'),
                     'LASTNIGHT': np.array([20210101, 20210102, 20210103])}
                if vv != "nobal":
                    for c in ('VMIN_CIV_450', 'VMAX_CIV_450',
                              'VMIN_CIV_2000', 'VMAX_CIV_2000'):
                        t[c] = np.array([[0., 0], [0, 0], [500., 0]])
                gen.write_table(cat, gen.rec(t), "QSO_CAT")
            opts = ["-i", "x", "-o", "y"]
            if vv != "ok-listless":
                opts += ["--remove-targetid-list", lst]
            if vv != "ok-catless":
                opts += ["--catalog", cat, "--remove-bal-qsos",
                         "--keep-surveys", "main"]
            return opts
        gopt = make("good", v if v.startswith("ok") else "ok")
        bopt = make("bad", v if not v.startswith("ok") else "nolist")
        if v.startswith("ok"):
            # others see nothing of the files
            bopt = [o + ".absent" if o.startswith(ctx.tmp) else o
                    for o in gopt]

        def f(o):
            def g(comm, rank):
                a = calib.get_parser().parse_args(o)
                ids = calib.mpi_set_targetid_list_to_remove(a, comm, rank)
                return sorted(np.asarray(ids).tolist())
            return g
        return f(gopt), f(bopt)

    def e_masks(self, ctx, v):
        sky, dla = (os.path.join(ctx.tmp, n) for n in ("s.txt", "d.fits"))
        with open(sky, "w") as f:
            f.write("sky 3650 3700 OBS\n")
        gen.write_table(dla, gen.rec({
            'TARGETID': np.array([5], 'i8'), 'Z_DLA': np.array([2.05]),
            'NHI': np.array([20.3])}), "DLACAT")
        q = [np.array([gen.catrow(targetid=5)])]

        def f(skyf, dlaf):
            o = ["--input-dir", "x", "--catalog", "y"]
            if v != "ok-dla":
                o += ["--sky-mask", skyf]
            if v != "ok-sky":
                o += ["--dla-mask", dlaf]
            if v == "ok-bal":
                o += ["--bal-mask"]

            def g(comm, rank):
                a = fit.get_parser().parse_args(o)
                ms = fit.mpi_read_masks(q, a, comm, rank)
                s = self.probe()
                fit.apply_masks(ms, [s])
                return self.out(s)
            return g
        bad = f(sky + "x" if v != "nodla" else sky, dla + "x")
        return f(sky, dla), bad

    # -- whole drivers ---------------------------------------------------
    def run_main(self, case, ctx, mod):
        tmp = ctx.tmp
        v, size = case["variant"], case["size"]
        cat = os.path.join(tmp, "c.fits")
        t = {'TARGETID': np.arange(4) + 50, 'Z': np.full(4, 2.5),
             'RA': np.arange(4.), 'DEC': np.arange(4.),
             'SURVEY': np.array(['main'] * 4, 'S4'),
             'LASTNIGHT': np.full(4, 20210101), 'HPXPIXEL': np.arange(4)}
        gen.write_table(cat, gen.rec(t), "QSO_CAT")
        o = ["prog", "--input-dir", tmp, "-o", tmp + "/out"]
        if mod is fit:
            o += ["--catalog", cat if v != "catalog" else cat + "x"]
            o += {"sky": ["--sky-mask", tmp + "/nosky"],
                  "dla": ["--dla-mask", tmp + "/nodla"],
                  "bal": ["--bal-mask"], "options": ["--true-continuum"],
                  "help": ["-h"]}.get(v, [])
        else:
            o += {"catalog": ["--catalog", cat + "x"],
                  "list": ["--remove-targetid-list", tmp + "/none"],
                  "balcols": ["--catalog", cat, "--remove-bal-qsos"],
                  "options": ["--nwbins", "x"]}[v]

        def body(comm):
            sys.stdout = sys.stderr = open(os.devnull, "w")
            sys.argv = o if comm.rank == 0 else ["prog", "--bogus"]
            mod.main()
        world = simmpi.ForkWorld(size, case["order"])
        try:
            res = world.run(body)
        except simmpi.SimMPIError as e:
            ctx.require(False, f"protocol: {type(e).__name__}: {e}")
        for r, x in enumerate(res):
            ctx.require(x.kind == 'exit', f"rank {r}: {x!r} {x.text}")
        ctx.require(len({x.value for x in res}) == 1, "exit codes differ",
                    codes=[x.value for x in res])
        if v not in ("options", "help"):
            ctx.require(res[0].value not in (0, None),
                        "failure reported as success", code=res[0].value)
        left = [f for d, _, fs in os.walk(tmp + "/out") for f in fs]
        ctx.require(not left, f"output left behind: {left}")
        ctx.step(world.steps)
        ctx.trace()
        ctx.state(v, size, case["order"])
        ctx.outcome("all processes end")

    def run_whole(self, case, ctx):
        """a run in which nothing is wrong gets through on every process,
        also where one of them has nothing to do"""
        size = case["size"]
        _, root, cat, args = q22.Q22.inputs(self, ctx, case["cfg"])

        def small(main):
            def f():
                pipe.small_statistics(picca)
                main()
            return f
        for i, order in enumerate((range(size), range(size)[::-1])):
            ctx.inner = (size, list(order))
            out = os.path.join(ctx.tmp, f"out{i}")
            for main, av in (
                    (fit.main, pipe.argv(root, cat, out, *args)),
                    (calib.main, [
                        "qsonic-calib", "-i", out, "-o", out + "c",
                        "--wave1", str(pipe.W1), "--wave2", str(pipe.W2),
                        "--nvarbins", str(pipe.NVAR), "--nwbins", "5"])):
                try:
                    res = pipe.run(small(main), av, size, order, bool(i))
                except simmpi.SimMPIError as e:
                    ctx.require(False, f"protocol: {e}")
                for r, x in enumerate(res):
                    ctx.require(x.kind == "value", f"{av[0]}, rank {r}: "
                                f"{x!r} {x.text}")
                ctx.step(size)
                ctx.trace()
            ctx.state("whole", case, i)
        ctx.outcome("whole program")


WHOLE = ["calib", "masks", "disable-fid", "exp-after", "empty-exp",
         "empty-input", "converge", "mock-true", "invalid-rank"]
ENTRIES = {
    "catalog": ["ok", "missing", "nocol", "dup", "empty"],
    "queue": ["missing", "nocol", "dup", "empty"],
    "sky": ["ok", "missing", "garbage"],
    "dla": ["ok", "missing", "noext", "noz"],
    "noise": ["ok", "ok-add", "ok-noeta", "missing", "noext", "nocol",
              "uneven"],
    "flux": ["ok", "missing", "noext", "nocol", "uneven"],
    "fiducial": ["ok", "ok-var", "ok-both", "missing", "noext", "nocol",
                 "uneven"],
    "exclude": ["ok", "ok-one", "ok-listless", "ok-catless", "nolist",
                "garbage", "nocat", "nobal"],
    "masks": ["ok", "ok-dla", "ok-sky", "ok-bal", "nosky", "nodla"],
}

if __name__ == "__main__":
    qmc.main(Q04())
