"""Q29: products of one program are valid inputs of the next one."""
import os
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import itertools
import multiprocessing

import qmc
import pipe
import simmpi
import fitsio
import healpy
import numpy as np
from q16 import FakePool
from q27 import Q27, linear

NQ = 30
WED = np.linspace(pipe.W1, pipe.W2, 6)


class Q29(Q27):
    pid = "Q29"
    case_timeout = 300
    bounds = {
        "quick": "whole-program chains on 30 quasars: fit {arm coadding "
                 "before/off/after} x {coadds, exposures before, exposures "
                 "after} x {fiducial variance, fitted, with eta, covariance} "
                 "x {1, 2 iterations} x {grouped by pixel or process} x 1-2 "
                 "processes, then each of: calibrations from attributes.fits "
                 "in a second fit; qsonic-calib on 1-3 processes on the "
                 "deltas, its file as calibration of a second fit; "
                 "qsonic-coadd-deltas, qsonic-calib on its deltas",
        "thorough": "all processes x orders for each"}
    assumptions = [
        "single precision columns are compared to 2e-5",
        "20 variance bins and 256 subsamples"]

    def setup(self):
        global fit, calib, coadd
        multiprocessing.Pool = FakePool
        super().setup()
        import qsonic.scripts.qsonic_fit as fit
        import qsonic.scripts.qsonic_calib as calib
        import qsonic.scripts.qsonic_coadd_deltas as coadd
        import q27
        q27.fit = fit

    def cases(self, tier):
        n = 0
        for arms, mode, var, it in itertools.product(
                ("before", "disable", "after"),
                ("data", "before", "after"),
                ("fid", "lss", "eta", "cov"), (1, 2)):
            n += 1
            for hpx, size in ([(n % 2, 1 + (n // 2) % 2)] if tier == "quick"
                              else itertools.product((0, 1), (1, 2, 3))):
                yield dict(arms=arms, mode=mode, var=var, it=it, hpx=hpx,
                           size=size)

    def ranks(self, ctx, main, av, size, what, fails=False):
        try:
            res = pipe.run(main, [str(a) for a in av], size)
        except simmpi.SimMPIError as e:
            ctx.require(False, f"{what}: protocol: {e}")
        for r, v in enumerate(res):
            if fails:
                ctx.require(v.kind != "value", f"{what} accepted")
            else:
                ctx.require(v.kind == "value",
                            f"{what}: rank {r}: {v} {v.text}")
        ctx.step(size)

    def run(self, case, ctx):
        c = dict(case)
        qs = pipe.quasars(NQ)
        root = os.path.join(ctx.tmp, "in")
        cat = pipe.write(root, qs, "data", exposures=True)
        stats = os.path.join(ctx.tmp, "stats.fits")
        pipe.write_stats(stats)
        com = ["--skip", 0, "--skip-resomat", "--smoothing-scale", 0,
               "--fiducial-meanflux", stats]
        opts = ["--coadd-arms", c["arms"], "--num-iterations", c["it"]]
        opts += ["--save-by-hpx"] if c["hpx"] else []
        opts += {"fid": ["--fiducial-varlss", stats], "lss": [],
                 "eta": ["--var-fit-eta"],
                 "cov": ["--var-fit-eta", "--var-use-cov"]}[c["var"]]
        opts += [] if c["mode"] == "data" else ["--exposures", c["mode"]]
        out = os.path.join(ctx.tmp, "out")
        self.ranks(ctx, fit.main, pipe.argv(root, cat, out, *com, *opts),
                   c["size"], "fit")
        p = pipe.products(out)
        ctx.require(not p["dup"], "saved twice", ext=p["dup"])
        ctx.require(len(p["deltas"]) >= NQ, "too few deltas")
        attr = os.path.join(out, "attributes.fits")

        # calibrations from the attributes of the fit
        cont = os.path.join(ctx.tmp, "cont")
        pipe.write_input_continua(cont, qs)
        com += ["--input-continuum-dir", cont, "--fiducial-varlss", stats,
                "--num-iterations", 1]
        self.second(ctx, qs, root, cat, com, attr, "F", c)
        if c["var"] == "fid":
            # there are no final variance functions
            o2 = os.path.join(ctx.tmp, "no")
            self.ranks(ctx, fit.main, pipe.argv(
                root, cat, o2, *com, "--noise-calibration", attr), 2,
                "noise calibration without VAR_FUNC", fails=True)
            ctx.require(not pipe.products(o2)["deltas"],
                        "deltas of a refused run")
        else:
            self.second(ctx, qs, root, cat, com, attr, "N", c)
            self.second(ctx, qs, root, cat, com, attr, "NF", c)

        # calibration tool on the deltas
        f = self.tool(ctx, out, p["deltas"], c, 1 + (c["size"] + c["it"]) % 3,
                      "calib")
        same = c["mode"] != "after" and c["arms"] != "after"
        if same:
            self.statistics(ctx, f, attr)
        if c["it"] == 1:
            self.second(ctx, qs, root, cat, com, f, "NF", c)

        # coadded deltas, and the calibration tool on those
        co = os.path.join(ctx.tmp, "coadd")
        os.makedirs(co)
        nest = c["it"] == 1
        one = ["qsonic-coadd-deltas", "-i", out, "-o", co, "--nproc", "1"]
        self.ranks(ctx, coadd.main, one + (["--nest"] if nest else []), 1,
                   "coadd")
        d = pipe.products(co)
        ctx.require(not d["dup"], "coadded twice", ext=d["dup"])
        self.coadded(ctx, qs, p["deltas"], d, nest)
        self.tool(ctx, co, d["deltas"], c, 2, "calib of coadded")
        ctx.trace()
        ctx.state("q29", sorted(c.items()))
        for x in (out, co, cont, root):
            shutil.rmtree(x, ignore_errors=True)

    def second(self, ctx, qs, root, cat, com, file, ops, c):
        """a fit to known continua with the calibrations in the file"""
        ctx.inner = (os.path.basename(file), ops)
        with fitsio.FITS(file) as f:
            if "N" in ops:
                t = f["VAR_FUNC"].read()
                e = t["eta"].copy()
                e[e == 0] = 1.
                self.eta = (t["lambda"], e)
                self.vlss = (t["lambda"], t["var_lss"])
            if "F" in ops:
                t = f["STACKED_FLUX"].read()
                y = t["stacked_flux"].copy()
                y[y == 0] = 1.
                self.flux = (t["lambda"], y)
        k = dict(ops=ops, mode="data", coadd=c["arms"], size=c["size"],
                 add=int(ops == "NF" and c["var"] == "eta"
                         and np.all(self.vlss[1] > 0)))
        av = ["--coadd-arms", c["arms"]]
        av += ["--noise-calibration", file] if "N" in ops else []
        av += ["--flux-calibration", file] if "F" in ops else []
        av += ["--varlss-as-additive-noise"] if k["add"] else []
        out = os.path.join(ctx.tmp, "second")
        self.ranks(ctx, fit.main, pipe.argv(root, cat, out, *com, *av),
                   c["size"], "second fit")
        self.judge(ctx, k, qs, pipe.products(out))
        shutil.rmtree(out, ignore_errors=True)

    def tool(self, ctx, d, deltas, c, size, what):
        """runs qsonic-calib; the stack is that of the deltas"""
        ctx.inner = what
        out = os.path.join(ctx.tmp, what.replace(" ", "-"))
        self.ranks(ctx, calib.main, [
            "qsonic-calib", "-i", d, "-o", out, "--wave1", pipe.W1,
            "--wave2", pipe.W2, "--nvarbins", pipe.NVAR, "--nwbins", 5] + (
                ["--var-use-cov"] if c["var"] == "cov" else []), size, what)
        fn = os.listdir(out)
        ctx.require(len(fn) == 1, f"{what}: files", got=fn)
        fn = os.path.join(out, fn[0])
        n = int((pipe.W2 - pipe.W1) / pipe.DW) + 1
        num, den = np.zeros(n), np.zeros(n)
        npix = 0
        for t, _ in deltas.values():
            i = np.round((t["LAMBDA"] - pipe.W1) / pipe.DW).astype(int)
            np.add.at(num, i, t["WEIGHT"] * (1. + t["DELTA"]))
            np.add.at(den, i, t["WEIGHT"])
            ied = np.logspace(-np.log10(20.), 4., pipe.NVAR + 1)
            npix += np.sum((t["IVAR"] > ied[0]) & (t["IVAR"] < ied[-1]))
        want = np.where(den > 0, num / np.where(den > 0, den, 1.), 0.)
        with fitsio.FITS(fn) as f:
            t = f["STACKED_FLUX"].read()
            ctx.same(t["lambda"], pipe.W1 + pipe.DW * np.arange(n),
                     f"{what}: wavelengths", rtol=1e-9)
            ctx.same(t["stacked_flux"], want, f"{what}: stack", rtol=1e-5)
            s = f["VAR_STATS"].read()
            ctx.require(int(s["num_pixels"].sum()) == npix,
                        f"{what}: pixels", got=s["num_pixels"].sum(),
                        want=npix)
        return fn

    def statistics(self, ctx, fn, attr):
        """statistics of the saved deltas are those of the fit"""
        with fitsio.FITS(fn) as f, fitsio.FITS(attr) as g:
            a, b = f["VAR_STATS"].read(), g["VAR_STATS"].read()
            ctx.require(a.dtype.names == b.dtype.names, "columns")
            for n in a.dtype.names:
                ctx.same(a[n], b[n], f"{n} of the calibration tool and the "
                         "fit", rtol=1e-4, atol=1e-7)

    def coadded(self, ctx, qs, deltas, d, nest):
        by = {}
        for name, (t, h) in deltas.items():
            by.setdefault(int(name.split("-")[0]), []).append((t, h))
        pos = {q["tid"]: (q["ra"], q["dec"]) for q in qs}
        got = {}
        for name, (t, h) in d["deltas"].items():
            tid = int(h["TARGETID"])
            ctx.require(tid not in got, "coadded delta saved twice",
                        target=tid)
            got[tid] = (t, h)
            hp = healpy.ang2pix(8, *pos[tid], lonlat=True, nest=nest)
            ctx.require(d["where"][name] == f"delta-{hp}.fits",
                        "file of a coadded delta", got=d["where"][name],
                        want=hp)
        ctx.require(sorted(got) == sorted(by), "targets of the coadded "
                    "deltas", missing=sorted(set(by) - set(got)),
                    unexpected=sorted(set(got) - set(by)))
        for tid, lst in by.items():
            t, h = got[tid]
            if any(np.any(x["WEIGHT"] < 0) for x, _ in lst):
                # the fitted variance may be negative with few quasars
                ctx.outcome("negative weights")
                continue
            i = [np.round((x["LAMBDA"] - pipe.W1) / pipe.DW).astype(int)
                 for x, _ in lst]
            i0 = min(k[0] for k in i)
            n = max(k[-1] for k in i) - i0 + 1
            ctx.same(t["LAMBDA"], pipe.W1 + pipe.DW * (i0 + np.arange(n)),
                     f"wavelengths of coadded {tid}", rtol=1e-9)
            lo, hi = np.full(n, np.inf), np.full(n, -np.inf)
            num, den = np.zeros(n), np.zeros(n)
            count = np.zeros(n, int)
            for k, (x, _) in zip(i, lst):
                g = x["WEIGHT"] > 0
                k = k[g] - i0
                lo[k] = np.minimum(lo[k], x["DELTA"][g])
                hi[k] = np.maximum(hi[k], x["DELTA"][g])
                num[k] += (x["DELTA"] * x["WEIGHT"])[g]
                den[k] += x["WEIGHT"][g]
                count[k] += 1
            k = den > 0
            ctx.require(bool(np.all((t["IVAR"] > 0) == k)),
                        f"usable pixels of coadded {tid}")
            ctx.require(bool(np.all(t["DELTA"][~k] == 0)),
                        "no data, but a delta")
            tol = 1e-5 * (1 + np.abs(t["DELTA"][k]))
            ctx.require(bool(np.all((t["DELTA"][k] > lo[k] - tol) & (
                t["DELTA"][k] < hi[k] + tol))),
                f"delta of coadded {tid} outside that of its parts")
            # weights of intermediate coadds are their own
            k = k & (count <= 2)
            if len(lst) <= 2:
                ctx.same(t["DELTA"][k], (num[k] / den[k]),
                         f"delta of coadded {tid}", rtol=1e-5, atol=1e-6)
            for x, hh in lst:
                for key in ("RA", "DEC", "Z"):
                    ctx.same(h[key], hh[key], f"{key} of coadded {tid}",
                             rtol=1e-9)


if __name__ == "__main__":
    qmc.main(Q29())
