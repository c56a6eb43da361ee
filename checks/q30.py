"""Q30: a program that could not do its work ends everywhere and says so."""
import os
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import qmc
import faults
import gen
import pipe
import simmpi
import fitsio
import numpy as np

N = 8
# name -> (program, kind, dataset, files, arguments, processes)
CONFIGS = {
    "plain": ("fit", "data", {}, {}, ["--var-fit-eta"], (1, 2, 3)),
    "all": ("fit", "data", dict(surveys=("main", "sv3")),
            dict(exposures=True, reso=True, bal=True),
            ["--exposures", "after", "--save-by-hpx", "--sky-mask", "SKY",
             "--bal-mask", "--dla-mask", "DLA", "--noise-calibration",
             "NOISE", "--varlss-as-additive-noise", "--flux-calibration",
             "FLUX", "--fiducial-meanflux", "STATS", "--keep-surveys",
             "main", "sv3"], (2,)),
    "fid": ("fit", "data", {}, {},
            ["--fiducial-meanflux", "STATS", "--fiducial-varlss", "STATS",
             "--coadd-arms", "after"], (2,)),
    "exp": ("fit", "data", {}, dict(exposures=True),
            ["--exposures", "before", "--coadd-arms", "disable"], (2,)),
    "tile": ("fit", "tile", {}, {}, ["--tile-format"], (2,)),
    "mock": ("fit", "mock", {}, {}, ["--mock-analysis"], (2,)),
    "true": ("fit", "mock", {}, {},
             ["--mock-analysis", "--true-continuum", "--fiducial-meanflux",
              "STATS", "--fiducial-varlss", "STATS", "--save-by-hpx"], (2,)),
    "calib": ("calib", "data", {}, {}, ["--remove-targetid-list", "LIST"],
              (1, 2, 3)),
    "coadd": ("coadd", "data", {}, {}, ["--nproc", "2"], (1,)),
}
DAMAGE = ("gone", "half", "empty", "folder")
CHUNK = 12


class Q30(qmc.Check):
    pid = "Q30"
    case_timeout = 400
    bounds = {
        "quick": "9 configurations of qsonic-fit (data, tile, mock, "
                 "exposures, masks, calibrations, fiducial functions), "
                 "qsonic-calib and qsonic-coadd-deltas on 1-3 processes: "
                 "every single open, read, create, write and flush of every "
                 "file and every mkdir on every process fails, writes also "
                 "with all later ones; every input file is missing, cut, empty "
                 "or a folder; refused options; no usable spectra; output "
                 "folder impossible",
        "thorough": "reads with all later ones; all priority orders and both collective "
                    "synchronisations for each"}
    assumptions = [
        "a failing I/O call raises OSError; a failing flush also loses the "
        "second half of the file",
        "Abort ends all processes and its error code is the status of the "
        "job",
        "files of input continua may be unreadable (a documented warning)"]

    def setup(self):
        global fit, calib, coadd
        faults.install()
        import qsonic.scripts.qsonic_fit as fit
        import qsonic.scripts.qsonic_calib as calib
        import qsonic.scripts.qsonic_coadd_deltas as coadd
        import qsonic.picca_continuum as picca
        from qsonic.spectrum import Spectrum
        pipe.small_statistics(picca)
        qmc.snapshot(Spectrum)

    def cases(self, tier):
        for k in ("options", "outdir", "nothing"):
            for size in (1, 2, 3) + (5, ) * (k == "nothing"):
                yield dict(kind=k, size=size)
        for cfg in CONFIGS:
            for size in CONFIGS[cfg][5]:
                yield dict(kind="damage", cfg=cfg, size=size)
        for cfg in CONFIGS:
            for size in CONFIGS[cfg][5]:
                for part in range(10):
                    yield dict(kind="fault", cfg=cfg, size=size, part=part)

    # -- running ----------------------------------------------------------
    def inputs(self, ctx, cfg):
        prog, kind, dopt, fopt, args, _ = CONFIGS[cfg]
        qs = pipe.quasars(**dict(dict(n=N, npix=4), **dopt))
        d = os.path.join(ctx.tmp, "in")
        root = os.path.join(d, "spectra")
        cat = pipe.write(root, qs, kind, **fopt)
        names = {n: os.path.join(d, n.lower() + (
            "" if n in ("SKY", "LIST") else ".fits")) for n in (
                "STATS", "SKY", "DLA", "NOISE", "FLUX", "LIST")}
        use = set(args)
        if "STATS" in use:
            pipe.write_stats(names["STATS"])
        if "SKY" in use:
            with open(names["SKY"], "w") as f:
                f.write("# type wave_min wave_max frame\n"
                        "a 3710. 3722. OBS\nb 1100. 1105. RF\n")
        if "LIST" in use:
            with open(names["LIST"], "w") as f:
                f.write(f"{qs[3]['tid']}\n{qs[7]['tid']}\n")
        if "DLA" in use:
            gen.write_table(names["DLA"], gen.rec(dict(
                TARGETID=np.array([q["tid"] for q in qs[::3]], 'i8'),
                Z_DLA=np.array([q["z"] - 0.1 for q in qs[::3]]),
                NHI=np.full(len(qs[::3]), 20.5))), 'DLACAT')
        w = 3600. + 60. * np.arange(12)
        if "NOISE" in use:
            gen.write_table(names["NOISE"], gen.rec({
                'lambda': w, 'var_lss': 0.01 + 1e-5 * (w - 3600.),
                'eta': 1.1 + 1e-4 * (w - 3600.)}), 'VAR_FUNC')
        if "FLUX" in use:
            gen.write_table(names["FLUX"], gen.rec({
                'lambda': w, 'stacked_flux': 1. + 5e-5 * (w - 3900.)}),
                'STACKED_FLUX')
        args = [names.get(a, a) for a in args]
        if prog == "fit":
            if kind in ("data", "tile") and not fopt.get("reso"):
                args.append("--skip-resomat")
            args += ["--num-iterations", 2]
            return fit.main, d, lambda out: pipe.argv(
                root, cat, out, *args)
        # the other programs read deltas
        deltas = os.path.join(d, "deltas")
        res = pipe.run(fit.main, pipe.argv(
            root, cat, deltas, "--skip-resomat", "--num-iterations", 1,
            "--save-by-hpx", "--fiducial-meanflux", self.stats(d),
            "--fiducial-varlss", self.stats(d)), 1)
        ctx.require(res[0].kind == "value", f"fit: {res[0]} {res[0].text}")
        shutil.rmtree(root)
        for f in os.listdir(deltas):
            if not f.startswith("delta-"):
                os.remove(os.path.join(deltas, f))
        os.remove(self.stats(d))
        if prog == "calib":
            return calib.main, d, lambda out: [str(x) for x in [
                "qsonic-calib", "-i", deltas, "-o", out, "--wave1", pipe.W1,
                "--wave2", pipe.W2, "--nvarbins", pipe.NVAR, "--nwbins", 5,
                *args]]

        def av(out):
            faults._makedirs(out, exist_ok=True)
            return ["qsonic-coadd-deltas", "-i", deltas, "-o", out, *args]
        return coadd.main, d, av

    @staticmethod
    def stats(d):
        s = os.path.join(d, "st.fits")
        if not os.path.exists(s):
            pipe.write_stats(s)
        return s

    def launch(self, main, av, size, order=None, sync=0, **plan):
        """status of the job, description"""
        def body(comm):
            sys.argv = list(av)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            faults.plan(comm.rank, **plan)
            return main()
        try:
            res = simmpi.ForkWorld(size, order, sync, 100).run(body)
        except simmpi.SimMPIError as e:
            return None, f"{type(e).__name__}: {e}"
        status = 0
        for r in res:
            if r.kind == "abort":
                s = r.value[0] if r.value else 0
            elif r.kind == "exit":
                s = r.value
                s = 0 if s is None else s if isinstance(s, int) else 1
            elif r.kind == "value":
                s = r.value if isinstance(r.value, int) else 0
            elif r.kind == "killed":
                s = 0
            else:
                s = 1
            status = status or s
        return status, repr(res) + "".join(
            x.text for x in res if x.text)[-600:]

    def content(self, out):
        """every HDU of every file that was saved"""
        got = {}
        for dp, _, fs in os.walk(out):
            for fn in sorted(fs):
                key = os.path.relpath(os.path.join(dp, fn), out)
                try:
                    with fitsio.FITS(os.path.join(dp, fn)) as f:
                        for i, h in enumerate(f):
                            if h.has_data():
                                got[key, h.get_extname(), i] = h.read()
                except OSError as e:
                    got[key] = f"unreadable: {e}"
        return got

    def complete(self, ctx, out, ref, what):
        got = self.content(out)
        ctx.require(sorted(map(str, got)) == sorted(map(str, ref)),
                    f"{what}: success is reported, but the products differ",
                    missing=[str(k) for k in ref if k not in got][:5],
                    unexpected=[(str(k), v if isinstance(v, str) else "")
                                for k, v in got.items() if k not in ref][:5])
        for k, t in got.items():
            a, b = t, ref[k]
            ctx.require(a.dtype.names == b.dtype.names
                        and a.shape == b.shape, f"{what}: {k} differs "
                        "although success is reported")
            for c in a.dtype.names or [None]:
                x, y = (a, b) if c is None else (a[c], b[c])
                if x.dtype.kind in "fc":
                    ok = np.allclose(x, y, rtol=1e-4, atol=1e-6 * (
                        1 + np.nanmax(np.abs(y), initial=0)),
                        equal_nan=True)
                else:
                    ok = np.all(x == y)
                ctx.require(bool(ok), f"{what}: {k} {c} differs although "
                            "success is reported")

    def judge(self, ctx, status, text, out, ref, what):
        ctx.require(status is not None, f"{what}: processes are left "
                    f"waiting: {text}")
        if status == 0:
            self.complete(ctx, out, ref, what + f" ({text})")
            ctx.outcome("done")
        else:
            ctx.outcome("failed")
        ctx.trace()

    def reference(self, ctx, main, av, size, log=None):
        out = os.path.join(ctx.tmp, "ref")
        st, text = self.launch(main, av(out), size, log=log)
        ctx.require(st == 0, f"nothing fails, but status {st}: {text}")
        ref = self.content(out)
        ctx.require(len(ref) > 0, "no products")
        shutil.rmtree(out)
        return ref

    def worlds(self, size, tier, n):
        orders = [tuple(range(size)), tuple(range(size))[::-1]]
        if size == 1:
            return [(orders[0], 0)]
        if tier == "quick":
            return [(orders[n % 2], (n // 2) % 2)]
        return [(o, s) for o in orders for s in (0, 1)]

    def run(self, case, ctx):
        getattr(self, case["kind"])(ctx, case)
        ctx.state("q30", sorted(case.items()))

    # -- injected faults --------------------------------------------------
    def fault(self, ctx, case):
        size, part = case["size"], case["part"]
        main, d, av = self.inputs(ctx, case["cfg"])
        log = os.path.join(ctx.tmp, "log")
        ref = self.reference(ctx, main, av, size, log)
        ops = sorted(set(open(log).read().split("\n")) - {""})
        ctx.require(len(ops) > 10, "harness: operations are not seen",
                    ops=ops)
        fired = os.path.join(ctx.tmp, "fired")
        for i, op in enumerate(ops):
            if i % 10 != part:
                continue
            for lasting in (False, True) if (
                    ctx.tier != "quick" or op.split()[2] in faults.WRITES
                    ) else (False,):
                for order, sync in self.worlds(size, ctx.tier,
                                               i // 10 + lasting):
                    what = f"{op} fails" + (" for good" if lasting else "")
                    ctx.inner = (what, order, sync)
                    out = os.path.join(ctx.tmp, "ref")
                    open(fired, "w").close()
                    st, text = self.launch(
                        main, av(out), size, order, sync, fail=op,
                        lasting=lasting, fired=fired)
                    ctx.require(os.path.getsize(fired) > 0,
                                f"{what}: operation did not happen")
                    self.judge(ctx, st, text, out, ref, what)
                    shutil.rmtree(out, ignore_errors=True)
                    ctx.step()
                    ctx.state("q30", case["cfg"], size, what, order, sync)

    # -- damaged inputs ---------------------------------------------------
    def damage(self, ctx, case):
        size = case["size"]
        main, d, av = self.inputs(ctx, case["cfg"])
        ref = self.reference(ctx, main, av, size)
        files = sorted(os.path.join(dp, f) for dp, _, fs in os.walk(d)
                       for f in fs)
        n = 0
        for fn in files:
            with open(fn, "rb") as f:
                data = f.read()
            text = os.path.basename(fn) in ("sky", "list")
            for how in DAMAGE:
                if text and how in ("half", "empty"):
                    continue            # a shorter list is a list
                os.remove(fn)
                if how == "folder":
                    os.mkdir(fn)
                elif how != "gone":
                    with open(fn, "wb") as f:
                        f.write(data[:len(data) // 2] if how == "half"
                                else b"")
                n += 1
                for order, sync in self.worlds(size, ctx.tier, n):
                    what = f"{os.path.relpath(fn, d)} is {how}"
                    ctx.inner = (what, order, sync)
                    out = os.path.join(ctx.tmp, "ref")
                    st, txt = self.launch(main, av(out), size, order, sync)
                    if how == "gone" and main is not fit.main and \
                            os.path.basename(fn).startswith("delta-"):
                        # there is just one file less to read
                        ctx.require(st is not None, f"{what}: {txt}")
                    else:
                        self.judge(ctx, st, txt, out, ref, what)
                    shutil.rmtree(out, ignore_errors=True)
                    ctx.step()
                    ctx.state("q30", case["cfg"], size, what, order, sync)
                if how == "folder":
                    os.rmdir(fn)
                with open(fn, "wb") as f:
                    f.write(data)

    # -- refused work -----------------------------------------------------
    def options(self, ctx, case):
        size = case["size"]
        root = os.path.join(ctx.tmp, "in")
        cat = pipe.write(root, pipe.quasars(N, 4), "data")
        out = os.path.join(ctx.tmp, "out")
        ok = pipe.argv(root, cat, out)
        cal = ["qsonic-calib", "-i", root, "-o", out]
        co = ["qsonic-coadd-deltas", "-i", root, "-o", out]
        bad = [
            (fit.main, ok + x) for x in (
                ["--true-continuum"], ["--skip", "1.5"], ["--no-such-option"],
                ["--coadd-arms", "sometimes"], ["--wave1", "blue"],
                ["--mock-analysis", "--tile-format"],
                ["--mock-analysis", "--continuum-model", "true"])]
        bad += [(fit.main, ["qsonic-fit"]), (fit.main, ok[:3]),
                (fit.main, ok[:1] + ok[3:]),
                (calib.main, cal[:3]), (calib.main, cal + ["--nope"]),
                (calib.main, cal + ["--wave1", "blue"])]
        if size == 1:
            bad += [(coadd.main, co[:3]), (coadd.main, co + ["--nope"]),
                    (coadd.main, co)]
        for n, (main, av) in enumerate(bad):
            for order, sync in self.worlds(size, "thorough", n):
                ctx.inner = (av, order, sync)
                st, text = self.launch(main, av, size, order, sync)
                ctx.require(st is not None, f"hangs: {text}", argv=av)
                ctx.require(st != 0, "refused, but the status is that of "
                            f"success: {text}", argv=av)
                ctx.trace()
                ctx.step()
        for main, av in ((fit.main, ["qsonic-fit", "--help"]),
                         (calib.main, ["qsonic-calib", "-h"])):
            for order, sync in self.worlds(size, "thorough", 0):
                st, text = self.launch(main, av, size, order, sync)
                ctx.require(st == 0, f"help: status {st}: {text}")
                ctx.step()

    def outdir(self, ctx, case):
        """the output folder cannot be made"""
        size = case["size"]
        for cfg in ("plain", "calib"):
            main, d, av = self.inputs(ctx, cfg)
            block = os.path.join(ctx.tmp, "file")
            open(block, "w").close()
            for out in (block, os.path.join(block, "sub")):
                for order, sync in self.worlds(size, "thorough", 0):
                    ctx.inner = (cfg, out, order, sync)
                    st, text = self.launch(main, av(out), size, order, sync)
                    ctx.require(st not in (None, 0), "no output folder, but "
                                f"status {st}: {text}")
                    ctx.trace()
                    ctx.step()

    def nothing(self, ctx, case):
        """no usable spectra"""
        size = case["size"]
        for state, more in (
                ("dead", []), ("neg", []), ("short", ["--skip", "0.9"]),
                ("lowr", ["--min-rsnr", "2"]),
                ("good", ["--min-forestsnr", "1e5"]),
                ("good", ["--min-rsnr", "1e5"]),
                ("good", ["--keep-surveys", "sv9"]),
                ("good", ["--wave1", "9000", "--wave2", "9600"])):
            qs = pipe.quasars(N, 4, {k: state for k in range(N)})
            root = os.path.join(ctx.tmp, "in")
            cat = pipe.write(root, qs, "data")
            out = os.path.join(ctx.tmp, "out")
            av = pipe.argv(root, cat, out, "--skip-resomat", *more)
            for order, sync in self.worlds(size, "thorough", 0):
                ctx.inner = (state, more, order, sync)
                st, text = self.launch(fit.main, av, size, order, sync)
                ctx.require(st not in (None, 0), "nothing to analyse, but "
                            f"status {st}: {text}", state=state, more=more)
                ctx.trace()
                ctx.step()
            shutil.rmtree(root)


if __name__ == "__main__":
    qmc.main(Q30())
