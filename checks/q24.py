"""Q24: contradictory analysis options are refused, consistent accepted."""
import contextlib
import io as pyio
import os
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import itertools

import qmc
import simmpi
import fitsio

BASE = ["-i", "/nonexistent/in", "--catalog", "/nonexistent/cat.fits"]
WAVES = [("3600", "6000"), ("3600", "3600"), ("6000", "3600"),
         ("3600", "3600.5")]
FORESTS = [("1050", "1180"), ("1100", "1100"), ("1180", "1050")]
SKIPS = {"0": 0., "1": 1., "0.2": .2, "1.0": 1., "0.9999": .9999,
         "-0.0001": None, "1.0001": None, "-1": None, "2": None,
         "x": None, "inf": None, "nan": None, "-inf": None, "1e-3": 1e-3}


def consistent(o):
    true = o["true"] or o["model"] == "true"
    return not (
        true and not (o["mock"] and o["mf"] and o["vl"])
        or true and o["cdir"]
        or float(o["wave"][1]) <= float(o["wave"][0])
        or float(o["forest"][1]) <= float(o["forest"][0])
        or o["tile"] and (o["mock"] or o["hpx"] or o["exp"] != "disable"))


def source(o):
    if o["true"] or o["model"] == "true":
        return "true"
    if o["cdir"]:
        return "input"
    return o["model"]


def argv_of(o):
    a = list(BASE)
    for k, opt in (("mock", "--mock-analysis"), ("tile", "--tile-format"),
                   ("hpx", "--save-by-hpx"), ("true", "--true-continuum")):
        if o[k]:
            a.append(opt)
    if o["exp"] != "disable":
        a += ["--exposures", o["exp"]]
    if o["model"] != "picca":
        a += ["--continuum-model", o["model"]]
    if o["cdir"]:
        a += ["--input-continuum-dir", "/nonexistent/cont"]
    if o["mf"]:
        a += ["--fiducial-meanflux", "/nonexistent/mf.fits"]
    if o["vl"]:
        a += ["--fiducial-varlss", "/nonexistent/vl.fits"]
    a += ["--wave1", o["wave"][0], "--wave2", o["wave"][1],
          "--forest-w1", o["forest"][0], "--forest-w2", o["forest"][1]]
    return a


DEF = dict(mock=0, tile=0, hpx=0, true=0, exp="disable", model="picca",
           cdir=0, mf=0, vl=0, wave=WAVES[0], forest=FORESTS[0])
REFUSED = [dict(DEF, true=1), dict(DEF, mock=1, true=1, mf=1),
           dict(DEF, mock=1, model="true", vl=1),
           dict(DEF, true=1, mf=1, vl=1),
           dict(DEF, mock=1, true=1, mf=1, vl=1, cdir=1),
           dict(DEF, wave=WAVES[1]), dict(DEF, wave=WAVES[2]),
           dict(DEF, forest=FORESTS[1]), dict(DEF, forest=FORESTS[2]),
           dict(DEF, mock=1, tile=1), dict(DEF, tile=1, hpx=1),
           dict(DEF, tile=1, exp="before"), dict(DEF, tile=1, exp="after")]
UNPARSED = [[], ["-i", "x"], ["--catalog", "x"],
            BASE + ["--skip", "1.5"], BASE + ["--arms"],
            BASE + ["--arms", "X"], BASE + ["--coadd-arms", "never"],
            BASE + ["--exposures", "maybe"], BASE + ["--minimizer", "x"],
            BASE + ["--continuum-model", "x"], BASE + ["--unknown"]]
ACCEPTED = [DEF, dict(DEF, mock=1, true=1, mf=1, vl=1),
            dict(DEF, tile=1), dict(DEF, exp="after", hpx=1),
            dict(DEF, cdir=1)]

# options that do not bear on the consistency of the others
EXTRA = [["--var-fit-eta"], ["--var-use-cov"], ["--normalize-stacked-flux"],
         ["--eta-calib-ivar"], ["--skip-resomat"], ["--bal-mask"],
         ["--varlss-as-additive-noise"], ["--coadd-arms", "after"],
         ["--coadd-arms", "disable"], ["--minimizer", "l_bfgs_b"],
         ["--num-iterations", "0"], ["--num-iterations", "1"],
         ["--cont-order", "0"], ["--cont-order", "2"], ["--skip", "0"],
         ["--smoothing-scale", "0"], ["--min-rsnr", "1"],
         ["--min-forestsnr", "0.5"], ["--arms", "B"],
         ["--arms", "B", "R", "Z"], ["--keep-surveys", "sv3"],
         ["--rfdwave", "2"], ["-o", "/nonexistent/out"],
         ["--sky-mask", "/nonexistent/s"], ["--dla-mask", "/nonexistent/d"],
         ["--noise-calibration", "/nonexistent/n"],
         ["--flux-calibration", "/nonexistent/f"]]

HASHED = """
import sys
sys.path[:0] = %r
import qsonic.scripts.qsonic_fit as fit
for arms in (['B', 'R'], ['R', 'B', 'Z'], ['Z', 'B', 'Z', 'R']):
    a = fit.get_parser().parse_args(%r + ['--arms'] + arms)
    assert fit.args_logic_fnc_qsonic_fit(a)
    print(list(a.arms))
"""


class Q24(qmc.Check):
    pid = "Q24"
    case_timeout = 200
    bounds = {
        "quick": "full product of mock x tile x healpix output x exposures "
                 "(3) x true flag x continuum model (3) x input dir x 2 "
                 "fiducials x 4 observed x 3 rest-frame limits; "
                 "each of 27 further options with 768 combinations of these; "
                 "every sequence of <=5 arms; 14 skip values; 24 refused and "
                 "5 accepted runs of the program on 1-3 processes in every "
                 "priority order; 6 hash seeds",
        "thorough": "sequences of <=7 arms; runs on 4 processes"}
    assumptions = []

    def setup(self):
        global fit, mpi_utils
        import qsonic.scripts.qsonic_fit as fit
        import qsonic.mpi_utils as mpi_utils
        from qsonic.spectrum import Spectrum
        qmc.snapshot(Spectrum)

    def cases(self, tier):
        for m, t, h, e in itertools.product(
                (0, 1), (0, 1), (0, 1), ("disable", "before", "after")):
            for true in (0, 1):
                yield dict(kind="logic", mock=m, tile=t, hpx=h, exp=e,
                           true=true)
        for k in range(len(EXTRA)):
            yield dict(kind="extra", opt=k)
        yield dict(kind="arms", n=5 if tier == "quick" else 7)
        yield dict(kind="skip")
        for s in range(6):
            yield dict(kind="hash", seed=s)
        sizes = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4)
        for size in sizes:
            for i in range(len(REFUSED)):
                yield dict(kind="refuse", argv=argv_of(REFUSED[i]),
                           size=size)
            for a in UNPARSED:
                yield dict(kind="refuse", argv=a, size=size)
            for o in ACCEPTED:
                yield dict(kind="accept", o=o, size=size)

    def run(self, case, ctx):
        with contextlib.redirect_stderr(pyio.StringIO()), \
                contextlib.redirect_stdout(pyio.StringIO()):
            getattr(self, "run_" + case["kind"])(case, ctx)

    def parse(self, argv, parser=None):
        """None when refused"""
        try:
            return mpi_utils.mpi_parse(
                parser or fit.get_parser(), simmpi._self_comm, 0,
                options=argv, args_logic_fnc=fit.args_logic_fnc_qsonic_fit)
        except SystemExit:
            return None

    def run_logic(self, case, ctx):
        parser = fit.get_parser()
        for model, cdir, mf, vl, wave, forest in itertools.product(
                ("picca", "true", "input"), (0, 1), (0, 1), (0, 1), WAVES,
                FORESTS):
            o = dict(mock=case["mock"], tile=case["tile"], hpx=case["hpx"],
                     exp=case["exp"], true=case["true"], model=model,
                     cdir=cdir, mf=mf, vl=vl, wave=wave, forest=forest)
            if source(o) == "input" and not cdir:
                continue                      # input without a directory
            if model == "input" and case["true"]:
                continue                      # two models requested
            ctx.inner = o
            a = self.parse(argv_of(o), parser)
            ctx.step()
            ok = consistent(o)
            ctx.require((a is not None) == ok,
                        "refused" if ok else "accepted", options=o)
            ctx.outcome("accepted" if ok else "refused")
            if ok:
                ctx.require(a.continuum_model == source(o), "source",
                            got=a.continuum_model, want=source(o))
                ctx.require(bool(a.true_continuum) == (source(o) == "true"),
                            "true continuum flag")
                ctx.require(
                    (a.wave1, a.wave2, a.forest_w1, a.forest_w2) == tuple(
                        map(float, wave + forest)), "limits changed")
                ctx.require(
                    a.exposures == o["exp"]
                    and bool(a.tile_format) == bool(o["tile"])
                    and bool(a.mock_analysis) == bool(o["mock"])
                    and bool(a.save_by_hpx) == bool(o["hpx"])
                    and bool(a.fiducial_meanflux) == bool(mf)
                    and bool(a.fiducial_varlss) == bool(vl)
                    and bool(a.input_continuum_dir) == bool(cdir),
                    "options changed", got=vars(a))
            ctx.trace()
            ctx.state("logic", o)

    def run_extra(self, case, ctx):
        """any further option leaves the verdict as it is"""
        parser = fit.get_parser()
        more = EXTRA[case["opt"]]
        for m, t, h, e, true, cdir, mf, vl, w in itertools.product(
                (0, 1), (0, 1), (0, 1), ("disable", "before", "after"),
                (0, 1), (0, 1), (0, 1), (0, 1), (0, 2)):
            o = dict(DEF, mock=m, tile=t, hpx=h, exp=e, true=true, cdir=cdir,
                     mf=mf, vl=vl, wave=WAVES[w])
            ctx.inner = (more, o)
            a = self.parse(argv_of(o) + more, parser)
            ctx.step()
            ok = consistent(o)
            ctx.require((a is not None) == ok,
                        "refused" if ok else "accepted", options=o,
                        with_=more)
            if ok:
                ctx.require(a.continuum_model == source(o), "source",
                            got=a.continuum_model, want=source(o))
            ctx.trace()
            ctx.state("extra", more, o)

    def run_arms(self, case, ctx):
        parser = fit.get_parser()
        for n in range(1, case["n"] + 1):
            # long requests repeat arms
            for arms in itertools.product(
                    "BRZXb" if n < 4 else "BRZ", repeat=n):
                ctx.inner = arms
                a = self.parse(BASE + ["--arms", *arms], parser)
                ctx.step()
                if set(arms) <= set("BRZ"):
                    ctx.require(a is not None, "arms refused")
                    ctx.require(sorted(a.arms) == sorted(set(arms)),
                                "arms kept", got=a.arms)
                else:
                    ctx.require(a is None, "unknown arm accepted")
                ctx.trace()
                ctx.state("arms", arms)
        a = self.parse(BASE, parser)
        ctx.require(sorted(a.arms) == ['B', 'R'], "default arms")

    def run_skip(self, case, ctx):
        for s, v in SKIPS.items():
            for form in ([f"--skip={s}"],) + (
                    () if s.startswith("-") else (["--skip", s],)):
                ctx.inner = form
                a = self.parse(BASE + form)
                ctx.step()
                if v is None:
                    ctx.require(a is None, "ratio out of range accepted")
                else:
                    ctx.require(a is not None, "ratio refused")
                    ctx.require(a.skip == v, "ratio changed")
                ctx.trace()
                ctx.state("skip", s)

    def run_hash(self, case, ctx):
        """the same request gives the same arms in every interpreter"""
        outs = []
        for s in (case["seed"], case["seed"] + 6):
            env = dict(os.environ, PYTHONHASHSEED=str(s))
            r = subprocess.run(
                [sys.executable, "-B", "-c", HASHED % (
                    [os.path.join(qmc.REPO, "py"),
                     os.path.join(qmc.LIB, "stubs"), qmc.LIB], BASE)],
                env=env, capture_output=True, text=True, timeout=100)
            ctx.require(r.returncode == 0, r.stderr[-2000:])
            outs.append(r.stdout)
        env["PYTHONHASHSEED"] = "100"
        ctx.require(outs[0] == outs[1], "arms depend on the hash seed",
                    one=outs[0], other=outs[1])
        ctx.step(2)
        ctx.trace()
        ctx.state("hash", outs[0])

    @contextlib.contextmanager
    def recorded(self, log):
        f0, r0 = fitsio.FITS, fitsio.read

        class FITS(f0):
            def __init__(self, name, *a, **k):
                log.append(str(name))
                super().__init__(name, *a, **k)

        def read(name, *a, **k):
            log.append(str(name))
            return r0(name, *a, **k)
        fitsio.FITS, fitsio.read = FITS, read
        argv = sys.argv
        try:
            yield
        finally:
            fitsio.FITS, fitsio.read = f0, r0
            sys.argv = argv

    def program(self, ctx, argv, size, judge):
        for order in itertools.permutations(range(size)):
            for sync in (False, True):
                qmc.fresh()
                ctx.inner = (order, sync)
                out = os.path.join(ctx.tmp, "out" + "".join(
                    map(str, order)) + str(sync))
                log = []
                with self.recorded(log):
                    sys.argv = ["qsonic-fit"] + argv + (
                        ["-o", out] if argv else [])
                    try:
                        res = simmpi.run_one(
                            size, lambda comm: fit.main(), order, sync)
                    except simmpi.SimMPIError as e:
                        ctx.require(False, f"protocol: {e}")
                judge(res, log, out)
                ctx.step(size)
                ctx.trace()
                ctx.state("program", argv, size, order, sync)

    def run_refuse(self, case, ctx):
        def judge(res, log, out):
            for r, v in enumerate(res):
                ctx.require(v.kind == "exit", f"rank {r} goes on: {v}")
            ctx.require(not log, "files read", log=log)
            ctx.require(not os.path.exists(out), "output created")
        self.program(ctx, case["argv"], case["size"], judge)

    def run_accept(self, case, ctx):
        def judge(res, log, out):
            # the first thing an accepted run does is to read the catalog
            ctx.require(any("cat.fits" in x for x in log),
                        "catalog not read", log=log)
            for r, v in enumerate(res):
                ctx.require(v.kind == "exit" and v.value not in (0, None),
                            f"missing catalog on rank {r}: {v} {v.text}")
        self.program(ctx, argv_of(case["o"]), case["size"], judge)


if __name__ == "__main__":
    qmc.main(Q24())
