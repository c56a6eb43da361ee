"""Q25: saved analysis products are mutually consistent."""
import os
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import itertools

import qmc
import pipe
import simmpi
import numpy as np
from numpy.polynomial.legendre import Legendre
from scipy.interpolate import CubicSpline, UnivariateSpline

SPECIAL = {3: 'lowr', 10: 'faint', 14: 'short', 8: 'neg', 17: 'neg',
           5: 'noB'}
FIDS = {"none": (0, 0), "flux": (1, 0), "var": (0, 1), "both": (1, 1)}
NQ = 36


def linear(x, y, t):
    """Piecewise linear with linear extrapolation."""
    i = np.clip(np.searchsorted(x, t, side='right') - 1, 0, x.size - 2)
    return y[i] + (y[i + 1] - y[i]) * (t - x[i]) / (x[i + 1] - x[i])


def cubic(x, y, t):
    return CubicSpline(x, y, bc_type='not-a-knot', extrapolate=True)(t)


class Q25(qmc.Check):
    pid = "Q25"
    case_timeout = 300
    bounds = {
        "quick": "whole-program runs on 36 quasars in 6 pixels: all "
                 "combinations of polynomial order 0-2, arm coadding "
                 "(before, off, after), fiducial functions (none, flux, "
                 "variance, both), eta fit, 1-2 iterations; all combinations "
                 "of stack normalisation, eta calibration, smoothing, "
                 "process count 1-2 and arm coadding; both minimisers; "
                 "covariance; up to 5 iterations",
        "thorough": "the full product of all of these options"}
    assumptions = [
        "the variance fitter uses 20 variance bins and 256 subsamples",
        "saved single precision columns are compared to 2e-5"]

    def setup(self):
        global fit
        import qsonic.scripts.qsonic_fit as fit
        import qsonic.picca_continuum as picca
        from qsonic.spectrum import Spectrum
        pipe.small_statistics(picca)
        qmc.snapshot(Spectrum)

    def cases(self, tier):
        dflt = dict(order=1, coadd="before", fid="none", eta=0, it=2,
                    norm=0, calib=0, smooth=0, size=1, mini="iminuit",
                    cov=0)
        modes = ("before", "disable", "after")
        out = []
        if tier == "quick":
            for o, c, f, e, it in itertools.product(
                    (0, 1, 2), modes, FIDS, (0, 1), (1, 2)):
                out.append(dict(dflt, order=o, coadd=c, fid=f, eta=e, it=it))
            for n, k, s, z, c in itertools.product(
                    (0, 1), (0, 1), (0, 16), (1, 2), modes):
                out.append(dict(dflt, eta=1, norm=n, calib=k, smooth=s,
                                size=z, coadd=c))
            for c, f in itertools.product(modes, ("none", "both")):
                out.append(dict(dflt, coadd=c, fid=f, mini="l_bfgs_b"))
                out.append(dict(dflt, coadd=c, fid=f, cov=1, eta=1))
            for it in (3, 4, 5):
                out.append(dict(dflt, it=it))
        else:
            for o, c, f, e, it, n, k, s, z, m, v in itertools.product(
                    (0, 1, 2), modes, FIDS, (0, 1), (1, 2, 3), (0, 1),
                    (0, 1), (0, 16), (1, 2), ("iminuit", "l_bfgs_b"),
                    (0, 1)):
                if m != "iminuit" and (z == 2 or v or n or k):
                    continue
                if v and (z == 2 or n or k):
                    continue
                out.append(dict(order=o, coadd=c, fid=f, eta=e, it=it,
                                norm=n, calib=k, smooth=s, size=z, mini=m,
                                cov=v))
        seen = set()
        for d in out:
            key = tuple(sorted(d.items()))
            if key not in seen:
                seen.add(key)
                yield d

    def close(self, ctx, a, b, what, rtol=2e-5, atol=1e-9, **k):
        a = np.asarray(a, 'f8')
        b = np.asarray(b, 'f8')
        ctx.same(a, np.broadcast_to(b, a.shape) if b.ndim == 0 else b, what,
                 rtol=rtol, atol=atol, **k)

    def run(self, case, ctx):
        c = case
        qs = pipe.quasars(NQ, special=SPECIAL)
        root = os.path.join(ctx.tmp, "in")
        cat = pipe.write(root, qs)
        stats = os.path.join(ctx.tmp, "stats.fits")
        pipe.write_stats(stats)
        fm, fv = FIDS[c["fid"]]
        args = ["--skip-resomat", "--min-rsnr", 0.3, "--min-forestsnr", 0.5,
                "--cont-order", c["order"], "--coadd-arms", c["coadd"],
                "--num-iterations", c["it"], "--smoothing-scale",
                c["smooth"], "--minimizer", c["mini"]]
        args += ["--fiducial-meanflux", stats] if fm else []
        args += ["--fiducial-varlss", stats] if fv else []
        args += ["--var-fit-eta"] if c["eta"] else []
        args += ["--var-use-cov"] if c["cov"] else []
        args += ["--normalize-stacked-flux"] if c["norm"] else []
        args += ["--eta-calib-ivar"] if c["calib"] else []
        out = os.path.join(ctx.tmp, "out")
        try:
            res = pipe.run(fit.main, pipe.argv(root, cat, out, *args),
                           c["size"])
        except simmpi.SimMPIError as e:
            ctx.require(False, f"protocol: {e}")
        for r, v in enumerate(res):
            ctx.require(v.kind == "value", f"rank {r}: {v} {v.text}")
        p = pipe.products(out)
        ctx.require(not p["dup"], "saved twice", ext=p["dup"])
        self.judge(ctx, c, qs, p)
        ctx.step(c["size"])
        ctx.trace()
        ctx.state("q25", sorted(c.items()))
        shutil.rmtree(out, ignore_errors=True)

    def judge(self, ctx, c, qs, p):
        fm, fv = FIDS[c["fid"]]
        at = p["attrs"]
        # -- each iteration and the final state are saved once -----------
        n = max(int(k.split("-")[1]) for k in at
                if k.startswith("CONT-") and k != "CONT-FIT"
                and k != "CONT-fit")
        names = []
        tails = [f"-{i + 1}" for i in range(n)] + [""]
        for t in tails + (["-FIT"] if fv else []):
            names += [f"CONT{t}", f"STACKED_FLUX{t}", f"STACKED_FLUX_RF{t}"]
            if not fv or t == "-FIT":
                names.append(f"VAR_FUNC{t}")
        names.append("VAR_STATS")
        got = sorted(k.upper() for k in at)
        ctx.require(got == sorted(names), "saved functions", got=got,
                    want=sorted(names))
        at = {k.upper(): v for k, v in at.items()}
        ctx.require(n <= c["it"], "more iterations than requested")
        conts = [at[f"CONT{t}"] for t in tails]
        if n < c["it"]:          # only when converged
            y, y0 = conts[-1], conts[-2]
            d = y["mean_cont"] / y0["mean_cont"] - 1
            e = y["e_mean_cont"]
            ctx.require(bool(np.all(np.abs(d) < 0.34 * e)
                             or np.mean((d / e)**2) < 1.1e-3),
                        "stopped before convergence", update=d, error=e)
        # -- mean continua ------------------------------------------------
        edges = np.linspace(pipe.FW1, pipe.FW2, 11)
        rf = 0.5 * (edges[1:] + edges[:-1])
        ln = np.log(rf[-1] / rf[0])
        x = np.log(rf / rf[0]) / ln
        for t, k in zip(tails, conts):
            self.close(ctx, k["lambda_rf"], rf, f"grid of CONT{t}",
                       rtol=1e-12)
            y = k["mean_cont"]
            ctx.require(bool(np.all(np.isfinite(y))), f"CONT{t} not finite")
            for o in range(c["order"] + 1):
                z = CubicSpline(x, y * Legendre.basis(o)(2 * x - 1),
                                bc_type='natural').integrate(0, 1)
                # projections are not exactly orthogonal on the grid
                self.close(ctx, z, float(o == 0),
                           f"component {o} of CONT{t}",
                           atol=1e-9 if o == 0 else 2e-3)
        self.close(ctx, conts[0]["mean_cont"], 1., "first mean continuum")
        self.updates(ctx, c, at, tails + (["-FIT"] if fv else []), rf, x)
        self.varfit(ctx, c, at, "-FIT" if fv else "")
        last = at[f"CONT-{n}"]

        def varfun(t, col):
            d = at[f"VAR_FUNC{t}"]
            return lambda w: cubic(d["lambda"], d[col], w)
        one = np.ones_like
        if fv:
            w0 = 3590. + 10. * np.arange(70)
            vl = 0.05 * (1 + 2e-4 * (w0 - 3600.))
            vlast = vfinal = lambda w: linear(w0, vl, w)
            elast = efinal = one
        else:
            vlast, elast = varfun(f"-{n}", "var_lss"), varfun(f"-{n}", "eta")
            vfinal, efinal = varfun("", "var_lss"), varfun("", "eta")
            f1 = at["VAR_FUNC-1"]
            self.close(ctx, f1["var_lss"], 0.1, "first var_lss")
            self.close(ctx, f1["eta"], 1., "first eta")
            if not c["eta"]:
                for t in tails:
                    self.close(ctx, at[f"VAR_FUNC{t}"]["eta"], 1.,
                               "eta is not fitted")
        mf = (lambda w: linear(
            3590. + 10. * np.arange(70),
            pipe.meanflux(3590. + 10. * np.arange(70)), w)) if fm else one
        stack = at["STACKED_FLUX"]
        # -- deltas -------------------------------------------------------
        by = {q["tid"]: q for q in qs}
        rows = {int(r["TARGETID"]): r for r in p["chi2"]}
        exts = {}
        for name, (t, h) in p["deltas"].items():
            exts.setdefault(int(name.split("-")[0]), []).append((name, t, h))
        ctx.require(sorted(exts) == sorted(
            k for k, r in rows.items() if r["CONT_valid"]),
            "deltas are not the valid quasars")
        ctx.require(len(exts) > 20, "too few valid quasars")
        whole = True
        pix = []
        for tid, lst in exts.items():
            q, r = by[tid], rows[tid]
            chi2, npix = 0., 0
            for name, t, h in lst:
                w, iv, wt = t["LAMBDA"], t["IVAR"], t["WEIGHT"]
                wrf = w / (1 + q["z"])
                s = 2 * np.log(wrf / rf[0]) / ln - 1
                ctx.require(np.ravel(r["CONT_x"]).size == c["order"] + 1,
                            "number of coefficients")
                cont = cubic(rf, last["mean_cont"], wrf) * np.polynomial.\
                    polynomial.polyval(s, np.ravel(r["CONT_x"]).astype('f8'))
                cont = cont * mf(w)
                if c["norm"]:
                    cont = cont * linear(stack["lambda"],
                                         stack["stacked_flux"], w)
                # coadded arms may have pixels that no arm covers
                k = (t["CONT"] != 0) | (iv > 0)
                self.close(ctx, t["CONT"][k], cont[k],
                           f"continuum of {name}",
                           atol=2e-6 * np.max(np.abs(r["CONT_x"])))
                good = iv > 0
                if c["coadd"] == "after":
                    i0 = iv
                    eta = one(w) if c["calib"] else efinal(w)
                    want = i0 / (eta + i0 * vfinal(w))
                else:
                    i0 = iv * efinal(w) if c["calib"] else iv
                    want = i0 / (elast(w) + i0 * vlast(w))
                if not c["smooth"] and (
                        not c["norm"] or c["coadd"] == "after"):
                    self.close(ctx, wt, want, f"weight of {name}",
                               rtol=2e-6)
                # (the fitted variance may be negative with few quasars)
                pos = want >= 0
                ctx.require(bool(np.all(((wt > 0) == good) | ~pos)) and
                            bool(np.all((wt != 0) == good)),
                            "weight where there is no data", ext=name)
                d = t["DELTA"]
                chi2 += np.sum(wt * np.where(good, d, 0.)**2)
                npix += int(good.sum())
                if c["smooth"]:
                    wt = np.where(good, wt, 0.)
                pix.append((w, wrf, d, i0, wt, good))
                self.data(ctx, c, q, name, t)
            self.catalog(ctx, c, q, r, lst)
            arms = r["ARMS"]
            arms = arms.decode() if isinstance(arms, bytes) else arms
            allarms = len(lst) == len(arms.strip().split(","))
            whole = whole and allarms
            if allarms and (not c["norm"] or c["coadd"] == "after") and not (
                    c["calib"] and c["coadd"] == "after"):
                self.close(ctx, r["CONT_chi2"], chi2, f"chi2 of {tid}",
                           rtol=1e-5)
            if allarms and c["coadd"] != "after":
                ctx.require(int(r["CONT_dof"]) == npix - c["order"] - 1,
                            "degrees of freedom", quasar=tid,
                            got=int(r["CONT_dof"]),
                            want=npix - c["order"] - 1)
        for tid, r in rows.items():
            if not r["CONT_valid"]:
                ctx.require(r["CONT_chi2"] == -1, "chi2 of an invalid fit")
        if whole and c["coadd"] != "after" and not c["norm"]:
            self.stacks(ctx, c, at, pix, rf)

    def updates(self, ctx, c, at, tails, rf, x):
        """Each mean continuum follows from the one before and the stack."""
        for t0, t1 in zip(tails, tails[1:]):
            st = at[f"STACKED_FLUX_RF{t1}"]
            self.close(ctx, st["lambda_rf"], rf, "grid of the stack",
                       rtol=1e-12)
            f, e = st["stacked_flux_rf"].copy(), st["e_stacked_flux_rf"].copy()
            k = e > 0
            f[~k], e[~k] = np.mean(f[k]), 10 * np.mean(e[k])
            y = UnivariateSpline(rf, f, w=1 / e)(rf) * \
                at[f"CONT{t0}"]["mean_cont"]
            for o in range(1, c["order"] + 1):
                L = Legendre.basis(o)(2 * x - 1)
                y = y - (2 * o + 1) * L * CubicSpline(
                    x, y * L, bc_type='natural').integrate(0, 1)
            m = CubicSpline(x, y, bc_type='natural').integrate(0, 1)
            self.close(ctx, at[f"CONT{t1}"]["mean_cont"], y / m,
                       f"update to CONT{t1}", rtol=1e-7)
            self.close(ctx, at[f"CONT{t1}"]["e_mean_cont"], e / m,
                       f"error of CONT{t1}", rtol=1e-7)

    def varfit(self, ctx, c, at, t):
        """The variance functions are the fit to the saved statistics."""
        st, vf = at["VAR_STATS"], at[f"VAR_FUNC{t}"]
        nw = vf.size
        nv = st.size // nw
        self.close(ctx, np.unique(st["wave"]), vf["lambda"],
                   "wavelengths of the variance", rtol=1e-12)
        ok, val = np.zeros(nw, bool), np.zeros((nw, 1 + c["eta"]))
        for i in range(nw):
            s = st[i * nv:(i + 1) * nv]
            use = (s["num_pixels"] >= 2) & (s["num_qso"] >= 1)
            if use.sum() < 5:
                use = s["num_pixels"] >= 1
            if use.sum() < 5:
                continue
            C = np.diag(s["e_var_delta"][use]**2)
            if c["cov"]:
                C = s["cov_var_delta"][use][:, use]
            sd = np.sqrt(np.diag(C))
            if not np.all(sd > 0) or np.linalg.cond(
                    C / sd / sd[:, None]) > 1e5:
                ctx.outcome("variance fit not checked")
                return
            A = np.ones((use.sum(), 1))
            y = s["var_delta"][use]
            if c["eta"]:
                A = np.column_stack((A, s["var_pipe"][use]))
            else:
                y = y - s["var_pipe"][use]
            L = np.linalg.cholesky(C)
            B, z = np.linalg.solve(L, A), np.linalg.solve(L, y)
            val[i] = np.linalg.lstsq(B, z, rcond=None)[0]
            if np.any(val[i] < 2e-3) or np.any(val[i] > 1.99):
                ctx.outcome("variance fit at a bound")
                return
            ok[i] = True
            e = np.sqrt(np.diag(np.linalg.inv(B.T @ B)))
            self.close(ctx, vf["e_var_lss"][i], e[0], "error of var_lss",
                       rtol=2e-3)
            if c["eta"]:
                self.close(ctx, vf["e_eta"][i], e[1], "error of eta",
                           rtol=2e-3)
        for k, n in enumerate(("var_lss", "eta")[:1 + c["eta"]]):
            want = UnivariateSpline(
                vf["lambda"][ok], val[ok, k], w=1 / vf["e_" + n][ok])(
                    vf["lambda"])
            self.close(ctx, vf[n], want, n, rtol=2e-3, atol=1e-4)
        ctx.outcome("variance fit checked")

    def catalog(self, ctx, c, q, r, lst):
        """Row of the catalog, headers and data of a quasar agree."""
        arms = r["ARMS"]
        arms = (arms.decode() if isinstance(arms, bytes) else arms).strip()
        snr = dict(zip(arms.split(","), r["MEANSNR"]))
        self.close(ctx, r["Z"], q["z"], "Z", rtol=1e-6)
        ctx.require(int(r["HPXPIXEL"]) == q["pix"], "HPXPIXEL",
                    quasar=q["tid"])
        ctx.require(0 <= int(r["MPI_RANK"]) < c["size"], "MPI_RANK")
        n = c["order"] + 1
        ctx.require(np.size(r["CONT_xcov"]) == n * n, "size of CONT_xcov")
        xc = np.reshape(r["CONT_xcov"], (n, n)).astype('f8')
        self.close(ctx, xc, xc.T, "CONT_xcov is not symmetric",
                   atol=1e-5 * np.max(np.abs(xc)))
        ctx.require(bool(np.all(np.diag(xc) > 0)), "CONT_xcov", got=xc)
        for name, t, h in lst:
            a = name.split("-")[1]
            ctx.require(a in snr, "arms of the catalog", arms=arms, ext=name)
            self.close(ctx, h["MEANSNR"], snr[a], f"MEANSNR of {name}")
            self.close(ctx, h["RSNR"], r["RSNR"], f"RSNR of {name}")
            self.close(ctx, h["Z"], q["z"], f"Z of {name}", rtol=1e-6)
            for k in ("ra", "dec"):
                self.close(ctx, h[k], np.radians(q[k]), f"{k} of {name}",
                           rtol=1e-6)
            ctx.require(int(h["TARGETID"]) == q["tid"], "TARGETID")
            if c["calib"]:
                continue
            g = t["IVAR"] > 0
            self.close(ctx, np.mean((1. + t["DELTA"][g]) * np.sqrt(
                t["IVAR"][g])), snr[a], f"mean S/N of {name}", rtol=1e-4)

    def data(self, ctx, c, q, name, t):
        """The saved data are those of the input spectrum."""
        if c["coadd"] != "disable" or c["calib"]:
            return
        arm = name.split("-")[1]
        f, iv, m = pipe.data(q, arm)
        i = np.round((t["LAMBDA"] - pipe.GRID[arm][0]) / pipe.DW).astype(int)
        good = m[i] == 0
        want = np.where(good, f[i] / t["CONT"] - 1, 0.)
        self.close(ctx, t["DELTA"], want, f"delta of {name}", atol=1e-5)
        self.close(ctx, t["IVAR"], np.where(good, iv[i], 0.) * t["CONT"]**2,
                   f"ivar of {name}", rtol=1e-4)

    def stacks(self, ctx, c, at, pix, rf):
        """Stacks and variance statistics are those of the saved deltas."""
        w, wrf, d, iv, wt, good = (np.concatenate([x[i] for x in pix])
                                   for i in range(6))
        s = at["STACKED_FLUX"]
        for name, grid, pos, val in (
                ("observed", s["lambda"], w, s["stacked_flux"]),
                ("rest-frame", rf, wrf,
                 at["STACKED_FLUX_RF"]["stacked_flux_rf"])):
            step = grid[1] - grid[0]
            u = (pos - grid[0]) / step + 0.5
            if np.any(np.abs(u - np.round(u))[good] < 1e-9):
                safe = ~np.isin(np.arange(grid.size), np.concatenate(
                    [np.round(u)[np.abs(u - np.round(u)) < 1e-9] - k
                     for k in (0, 1)]))
            else:
                safe = np.ones(grid.size, bool)
            b = np.floor(u).astype(int)
            num = np.bincount(b[good], (wt * (1 + d))[good], grid.size)
            den = np.bincount(b[good], wt[good], grid.size)
            want = np.where(den > 0, num / np.where(den > 0, den, 1.), 0.)
            self.close(ctx, val[safe], want[safe], f"{name} stack",
                       rtol=1e-7)
        if at["VAR_STATS"].size != 5 * pipe.NVAR:
            return
        st = at["VAR_STATS"]
        wed = np.linspace(pipe.W1, pipe.W2, 6)
        ied = np.logspace(-np.log10(20.), 4., pipe.NVAR + 1)
        iw = np.clip(np.searchsorted(wed, w, side='right') - 1, 0, 4)
        ii = np.searchsorted(ied, iv) - 1
        near = np.min(np.abs(np.log(np.where(iv > 0, iv, 1e-30))[:, None]
                             - np.log(ied)[None]), axis=1) < 1e-9
        ctx.require(not np.any(near & good), "harness: variance on an edge")
        ok = good & (ii >= 0) & (ii < pipe.NVAR)
        # a pixel on an inner wavelength edge may go to either side
        edge = np.min(np.abs(w[:, None] - wed[1:-1][None]), axis=1) < 1e-6
        size = 5 * pipe.NVAR
        b = iw * pipe.NVAR + ii
        sure = np.bincount(b[ok & ~edge], minlength=size)
        up = np.bincount(b[ok & edge], minlength=size)
        may = up + np.append(up[pipe.NVAR:], np.zeros(pipe.NVAR, int))
        n = st["num_pixels"]
        ctx.require(bool(np.all((n >= sure) & (n <= sure + may))),
                    "pixels of the variance statistics", got=n, want=sure)
        # over all wavelengths
        num = np.bincount(ii[ok], minlength=pipe.NVAR)
        k = num > 0

        def total(col):
            return (n * st[col]).reshape(5, -1).sum(axis=0)[k]

        def want(v):
            return np.bincount(ii[ok], v[ok], pipe.NVAR)[k]
        ctx.require(bool(np.all(n.reshape(5, -1).sum(axis=0) == num)),
                    "pixels of the variance statistics", got=n, want=num)
        self.close(ctx, total("mean_delta"), want(d), "mean delta",
                   rtol=1e-7, atol=1e-7)
        m2 = (n * (st["var_delta"] + st["mean_delta"]**2))
        self.close(ctx, m2.reshape(5, -1).sum(axis=0)[k], want(d**2),
                   "variance of delta", rtol=1e-6)
        self.close(ctx, total("var_pipe"),
                   want(1 / np.where(iv > 0, iv, 1.)), "pipeline variance",
                   rtol=1e-7)


if __name__ == "__main__":
    qmc.main(Q25())
