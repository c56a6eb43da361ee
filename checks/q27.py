"""Q27: requested calibrations and masks reach every spectrum exactly once."""
import os
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import itertools

import qmc
import gen
import pipe
import simmpi
import numpy as np
from scipy.interpolate import CubicSpline
from q09 import transmission, LINES, C
from q25 import cubic

CW = 3600. + 60. * np.arange(12)
ETA = 1.1 + 0.2 * np.sin(np.arange(12.))
VLSS = 0.01 + 0.002 * np.cos(np.arange(12.))
SF = 1. + 0.1 * np.cos(1.3 * np.arange(12.))
SKY = [("OBS", 3710., 3742.), ("RF", 1100., 1105.), ("OBS", 4050., 4065.)]
MODES = ("data", "tile", "mock", "before", "after")
NQ = 24


def linear(x, y, t):
    i = np.clip(np.searchsorted(x, t, side='right') - 1, 0, x.size - 2)
    return y[i] + (y[i + 1] - y[i]) * (t - x[i]) / (x[i + 1] - x[i])


def dlas(q):
    """absorbers of a quasar, in its forest"""
    n = (0, 1, 0, 2)[q["k"] % 4]
    return [(q["z"] - 0.25 - 0.2 * i, 20.4 + 0.3 * i) for i in range(n)]


class Q27(qmc.Check):
    pid = "Q27"
    case_timeout = 300
    eta, vlss, flux = (CW, ETA), (CW, VLSS), (CW, SF)
    bounds = {
        "quick": "whole-program runs: every subset of {noise calibration, "
                 "flux calibration, sky, BAL, DLA mask} x {healpix, tile, "
                 "mock, exposures before, exposures after} x arm coadding "
                 "{before, off, after}, 24 quasars on 1-2 processes; "
                 "additive noise in half of the runs with noise calibration, "
                 "and with fitted variance functions; "
                 "both calibrations from one file in half of the runs; "
                 "60 quasars in 20 pixels on one process and one quasar on "
                 "each of 20 processes",
        "thorough": "additive noise on and off, 1-3 processes for each"}
    assumptions = [
        "pixels within 1e-5 of a mask edge or limit may fall on either side",
        "where two arms overlap and are coadded after fitting only bounds "
        "are checked",
        "exposures read after fitting may or may not have the additive noise, "
        "but must have everything else",
        "single precision columns are compared to 2e-5"]

    def setup(self):
        global fit
        import qsonic.scripts.qsonic_fit as fit
        import qsonic.picca_continuum as picca
        from qsonic.spectrum import Spectrum
        pipe.small_statistics(picca)
        qmc.snapshot(Spectrum)

    def cases(self, tier):
        n = 0
        for ops in itertools.chain.from_iterable(
                itertools.combinations("NFSBD", k) for k in range(6)):
            for mode in MODES:
                for coadd in ("before", "disable", "after"):
                    n += 1
                    if tier == "quick":
                        var = [(n % 2 if "N" in ops else 0, 1 + (n // 2) % 2)]
                    else:
                        var = list(itertools.product(
                            (0, 1) if "N" in ops else (0,), (1, 2, 3)))
                    for add, size in var:
                        yield dict(ops="".join(ops), mode=mode, coadd=coadd,
                                   add=add, size=size)
        # fitted variance functions together with additive noise
        for ops, mode, coadd, fitv in itertools.product(
                ("N", "NF", "NSBD"), ("data", "tile", "mock", "before"),
                ("before", "disable", "after"), (1, 2, 3)):
            yield dict(ops=ops, mode=mode, coadd=coadd, add=1, fitv=fitv,
                       size=1 + (len(ops) + fitv) % 2, nq=40)
        # many pixels: long queues, one quasar per process
        for ops, mode, coadd in itertools.product(
                ("NFSBD", "D", "S", "NF"), ("data", "mock", "after"),
                ("before", "disable")):
            for size, nq, npix in ((1, 60, 20), (20, 20, 20)):
                yield dict(ops=ops, mode=mode, coadd=coadd, add=0, size=size,
                           nq=nq, npix=npix)

    def run(self, case, ctx):
        c = case
        kind = c["mode"] if c["mode"] in ("data", "tile", "mock") else "data"
        qs = pipe.quasars(c.get("nq", NQ))
        if "npix" in c:
            for q in qs:
                q["pix"] = 31 + 97 * ((7 * q["k"]) % c["npix"])
                q["dec"] = -60. + q["k"]
        root = os.path.join(ctx.tmp, "in")
        cat = pipe.write(root, qs, kind, exposures=kind != c["mode"],
                         bal="B" in c["ops"])
        f = {n: os.path.join(ctx.tmp, n + ".fits")
             for n in ("stats", "dla", "noise", "flux")}
        pipe.write_stats(f["stats"])
        cont = os.path.join(ctx.tmp, "cont")
        pipe.write_input_continua(cont, qs)
        args = ["--input-continuum-dir", cont, "--fiducial-meanflux",
                f["stats"], "--skip", 0,
                "--skip-resomat", "--smoothing-scale", 0, "--coadd-arms",
                c["coadd"], "--num-iterations", 1]
        args += {0: ["--fiducial-varlss", f["stats"]], 1: [],
                 2: ["--var-fit-eta"],
                 3: ["--var-fit-eta", "--eta-calib-ivar"]}[c.get("fitv", 0)]
        if "N" in c["ops"]:
            gen.write_table(f["noise"], gen.rec({
                'lambda': CW, 'var_lss': VLSS, 'e_var_lss': 0 * CW,
                'eta': ETA, 'e_eta': 0 * CW}), 'VAR_FUNC')
            args += ["--noise-calibration", f["noise"]]
            if c["add"]:
                args.append("--varlss-as-additive-noise")
        if "F" in c["ops"]:
            if "N" in c["ops"] and len(c["ops"]) % 2 == 0:
                # both in one file, as the program writes them
                f["flux"] = f["noise"]
            gen.write_table(f["flux"], gen.rec({
                'lambda': CW, 'stacked_flux': SF}), 'STACKED_FLUX',
                clobber=f["flux"] != f["noise"])
            args += ["--flux-calibration", f["flux"]]
        if "S" in c["ops"]:
            sky = os.path.join(ctx.tmp, "sky.txt")
            with open(sky, "w") as h:
                h.write("# type wave_min wave_max frame\n")
                for i, (fr, a, b) in enumerate(SKY):
                    h.write(f"l{i} {a!r} {b!r} {fr}\n")
            args += ["--sky-mask", sky]
        if "B" in c["ops"]:
            args.append("--bal-mask")
        if "D" in c["ops"]:
            rows = [(q["tid"], z, n) for q in qs for z, n in dlas(q)]
            rows.append((77, 2.2, 21.))
            gen.write_table(f["dla"], gen.rec(dict(
                TARGETID=np.array([r[0] for r in rows], 'i8'),
                Z_DLA=np.array([r[1] for r in rows]),
                NHI=np.array([r[2] for r in rows]))), 'DLACAT')
            args += ["--dla-mask", f["dla"]]
        if c["mode"] == "tile":
            args.append("--tile-format")
        elif c["mode"] == "mock":
            args.append("--mock-analysis")
        elif c["mode"] != "data":
            args += ["--exposures", c["mode"]]
        out = os.path.join(ctx.tmp, "out")
        try:
            res = pipe.run(fit.main, pipe.argv(root, cat, out, *args),
                           c["size"])
        except simmpi.SimMPIError as e:
            ctx.require(False, f"protocol: {e}")
        for r, v in enumerate(res):
            ctx.require(v.kind == "value", f"rank {r}: {v} {v.text}")
        p = pipe.products(out)
        ctx.require(not p["dup"], "saved twice", ext=p["dup"])
        self.judge(ctx, c, qs, p)
        ctx.step(c["size"])
        ctx.trace()
        ctx.state("q27", sorted(c.items()))
        shutil.rmtree(out, ignore_errors=True)

    # ------------------------------------------------------------------
    def arm(self, c, q, a, expo):
        """index on the common grid, flux, ivar, sure (forest of one arm)"""
        w = pipe.GRID[a]
        f, iv, m = pipe.data(q, a, expo)
        f, iv = np.where(m > 0, 0., f), np.where(m > 0, 0., iv)
        wrf = w / (1 + q["z"])
        k = (w >= pipe.W1) & (w < pipe.W2) & (wrf >= pipe.FW1) & (
            wrf < pipe.FW2)
        w, f, iv = w[k], f[k], iv[k]
        i = np.round((w - 3600.) / pipe.DW).astype(int)
        if not np.any(iv > 0):
            return None
        sure = np.ones(w.size, bool)
        if "N" in c["ops"]:
            iv = iv / CubicSpline(*self.eta)(w)
        if "F" in c["ops"]:
            s = linear(*self.flux, w)
            f, iv = f / s, iv * s**2
        wins = []
        if "S" in c["ops"]:
            wins += [(a, b) if fr == "OBS" else
                     (a * (1 + q["z"]), b * (1 + q["z"])) for fr, a, b in SKY]
        if "B" in c["ops"] and q["k"] % 4 == 1:
            wins += [(x * (1 + q["z"]) * (1 - 6000. / C),
                      x * (1 + q["z"]) * (1 - 3000. / C)) for x in LINES]
        bad = np.zeros(w.size, bool)
        for a, b in wins:
            bad |= (w >= a) & (w < b)
            sure &= (np.abs(w - a) > 1e-5) & (np.abs(w - b) > 1e-5)
        if "D" in c["ops"]:
            T = np.ones(w.size)
            for z, n in dlas(q):
                T *= transmission(w, z, n)
            sure &= np.abs(T - 0.8) > 1e-5
            bad |= T < 0.8
            T[T < 0.8] = 1.
            f, iv = f / T, iv * T**2
        f, iv = np.where(bad, 0., f), np.where(bad, 0., iv)
        return i, f, iv, sure

    def want(self, c, q, expo):
        """arm -> (wavelength, flux, ivar, sure, lowest, highest flux)"""
        arms = {a: self.arm(c, q, a, expo) for a in 'BR'}
        arms = {a: v for a, v in arms.items() if v is not None}
        if c["coadd"] == "disable":
            out = {a: v + (v[1], v[1]) for a, v in arms.items()
                   if np.any(v[2] > 0)}
        else:
            if c["coadd"] == "after" and c["mode"] != "after":
                # emptied by masks before coadding
                arms = {a: v for a, v in arms.items() if np.any(v[2] > 0)}
            if not arms:
                return {}
            i0 = min(v[0][0] for v in arms.values())
            i1 = max(v[0][-1] for v in arms.values())
            n = i1 - i0 + 1
            F, W, n_ok = np.zeros(n), np.zeros(n), np.zeros(n, int)
            sure = np.ones(n, bool)
            lo, hi = np.full(n, np.inf), np.full(n, -np.inf)
            for i, f, iv, s in arms.values():
                np.add.at(F, i - i0, f * iv)
                np.add.at(W, i - i0, iv)
                np.add.at(n_ok, i - i0, iv > 0)
                sure[i - i0] &= s
                g = iv > 0
                lo[i[g] - i0] = np.minimum(lo[i[g] - i0], f[g])
                hi[i[g] - i0] = np.maximum(hi[i[g] - i0], f[g])
            f = np.where(W > 0, F / np.where(W > 0, W, 1.), 0.)
            if not np.any(W > 0):
                return {}
            if c["coadd"] == "after" and c["mode"] != "after":
                sure &= n_ok < 2
            out = {'brz': (np.arange(i0, i1 + 1), f, W, sure, lo, hi)}
        return {a: (3600. + pipe.DW * v[0],) + v[1:] for a, v in out.items()}

    def judge(self, ctx, c, qs, p):
        want = {}
        for q in qs:
            expos = [None]
            if c["mode"] in ("before", "after"):
                expos = [0] if q["k"] % 3 == 2 else [0, 1]
            for e in expos:
                for a, v in self.want(c, q, e).items():
                    name = f"{q['tid']}-{a}"
                    if e is not None:
                        name += f"-{100 * q['k'] + e}"
                    want[name] = (q,) + v
        ctx.require(sorted(want) == sorted(p["deltas"]), "saved deltas",
                    missing=sorted(set(want) - set(p["deltas"])),
                    unexpected=sorted(set(p["deltas"]) - set(want)))
        g = 3590. + 10. * np.arange(70)
        rf = 1020. + 5. * np.arange(40)
        npix = 0
        lss, eta = (lambda w: 0.05 * (1 + 2e-4 * (w - 3600.))), np.ones_like
        cal = np.ones_like
        if c.get("fitv"):
            vf = p["attrs"]["VAR_FUNC"]
            lss, eta = (lambda w, n=n: cubic(vf["lambda"], vf[n], w)
                        for n in ("var_lss", "eta"))
            if c["fitv"] == 3:
                cal, eta = eta, np.ones_like
            if c["fitv"] > 1:
                ctx.require(np.ptp(vf["eta"]) > 1e-3, "eta is not fitted")
        for name, (q, w, f, iv, sure, lo, hi) in want.items():
            t, _ = p["deltas"][name]
            ctx.same(t["LAMBDA"], w, f"wavelength of {name}", rtol=1e-9)
            cont = CubicSpline(rf, pipe.qcont(q, rf * (1 + q["z"])))(
                w / (1 + q["z"])) * linear(g, pipe.meanflux(g), w)
            if c["add"] and "N" in c["ops"]:
                iv = iv / cal(w)
                more = iv / (1 + iv * CubicSpline(*self.vlss)(w) * cont**2)
                if c["mode"] == "after":
                    # with or without it, for the whole spectrum
                    b = sure & (iv > 0)
                    if np.allclose(t["IVAR"][b], (more * cont**2)[b],
                                   rtol=2e-5):
                        iv = more
                else:
                    iv = more
            d = t["DELTA"].astype('f8')
            got = t["IVAR"] > 0
            # (functions fitted to few quasars may be negative)
            k = sure & (cal(w) > 0.05)
            have = (hi > -np.inf) if c["coadd"] != "disable" else \
                want[name][3] > 0
            ctx.require(bool(np.all((got == have)[k])),
                        f"usable pixels of {name}",
                        wave=w[k & (got != have)])
            npix += int(np.sum(got))
            use = k & have
            ctx.same(t["CONT"][use], cont[use], f"continuum of {name}",
                     rtol=2e-5)
            ctx.same(d[use], f[use] / cont[use] - 1, f"delta of {name}",
                     rtol=2e-5, atol=2e-5)
            ctx.require(bool(np.all(d[~got] == 0)), "masked pixel has data")
            ctx.same(t["IVAR"][use], (iv * cont**2)[use],
                     f"ivar of {name}", rtol=2e-5)
            # weights use the final variance and the fiducial function
            iw = t["IVAR"].astype('f8')
            if c["mode"] != "after":
                ctx.same(t["WEIGHT"], iw / (eta(w) + iw * lss(w)),
                         f"weight of {name}", rtol=1e-4)
            if c["coadd"] == "after":
                b = have & got
                fl = (1 + d[b]) * cont[b]
                tol = 1e-3 * np.abs(fl) + 1e-4
                ctx.require(bool(np.all((fl > lo[b] - tol)
                                        & (fl < hi[b] + tol))),
                            f"flux of {name} outside that of the arms")
        ctx.require(npix > 500, "too few pixels")


if __name__ == "__main__":
    qmc.main(Q27())
