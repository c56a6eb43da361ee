"""Q21: continuum models - valid means positive, own and model-consistent."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import itertools

import qmc
import gen
import simmpi
import fitsio
import healpy
import numpy as np
from scipy.interpolate import CubicSpline

Z, DW = 2.5, 16.
W1, W2, FW1, FW2 = 3600., 4200., 1050., 1180.
GRID = {'B': 3664. + DW * np.arange(19),        # to 3952
        'R': 3920. + DW * np.arange(14)}        # to 4128
NRF = 10
RFDW = (FW2 - FW1) / NRF
RFWAVE = FW1 + RFDW * (np.arange(NRF) + 0.5)


def meanflux(w):
    return 0.8 - 2e-4 * (w - 3600.)


def slope(wrf):
    return 2 * np.log(wrf / RFWAVE[0]) / np.log(RFWAVE[-1] / RFWAVE[0]) - 1


def shape(kind, wrf):
    """mean continua used as the current state of the fitter"""
    s = (wrf - 1115.) / 65.
    return {'one': 1. + 0 * s, 'tilt': 1. + 0.2 * s,
            'bump': 1.1 - 0.15 * s**2 + 0.1 * s**3}[kind]


# amplitude/slope/curvature of the quasar; kinds of noise
AMPS = [(2., 0., 0.), (5., 1.5, 0.), (0.5, -0.4, 0.1), (3., 2.6, -0.4),
        (1., 1.6, 0.), (-1., 0.3, 0.), (2., -3., 0.5)]
RIPPLE = [0., 0.3]
MASKS = ['none', 'alt', 'hole', 'edge', 'B only', 'R only', 'blue']


class Q21(qmc.Check):
    pid = "Q21"
    case_timeout = 300
    bounds = {
        "quick": "fits: 7 amplitude/slope/curvature shapes x 2 ripples x 7 "
                 "mask patterns x arm sets {B, R, BR} x polynomial order 0-2 "
                 "x 3 mean continua x mean flux on/off x 2 minimizers x LSS "
                 "variance {0, 0.1}; every ordered list of <=3 of 5 quasars "
                 "(two unfittable) in the fitter with stacks, statistics, "
                 "catalog, and 2 iterations; input continua: 3 quasars x 6 "
                 "continuum states each, every order of rows and spectra, "
                 "pixels shared or not, absent files, 3 iterations, 1-2 "
                 "processes with possibly none; 29 quasars in 4x2 orders, "
                 "some negative in masked pixels only, some next to the border "
                 "of two pixels; forests of up to 235 pixels with 0-2 negative "
                 "ones; true continua: 3 quasars x "
                 "arm sets x shapes x order",
        "thorough": "lists of <=4 quasars; input of 4 quasars"}
    assumptions = ["input continua cover the forest", "true continua of "
                   "mocks are positive"]

    def setup(self):
        global fit, Spectrum, picca
        import qsonic.scripts.qsonic_fit as fit
        import qsonic.picca_continuum as picca
        from qsonic.spectrum import Spectrum
        qmc.snapshot(Spectrum, picca.VarLSSFitter)

    def cases(self, tier):
        for order in (0, 1, 2):
            for mini in ("iminuit", "l_bfgs_b"):
                for a in range(len(AMPS)):
                    for var in (0., 0.1):
                        yield dict(kind="fit", order=order, mini=mini, a=a,
                                   var=var)
        for mini in ("iminuit", "l_bfgs_b"):
            yield dict(kind="fine", mini=mini)
        n = 3 if tier == "quick" else 4
        for first in range(5):
            for order in (0, 1):
                yield dict(kind="list", first=first, n=n, order=order)
        for states in itertools.product(range(6), repeat=3):
            yield dict(kind="input", states=states)
        for rot in range(8 if tier == "quick" else 16):
            yield dict(kind="inputmany", rot=rot)
        for place in itertools.product((0, 1), repeat=3):
            for state in (0, 1, 4):
                yield dict(kind="inputmpi", place=place, state=state)
        for k in range(3):
            for arms in ("B", "R", "BR"):
                yield dict(kind="true", k=k, arms=arms)
        for unit in (1e-4, 1e3):
            yield dict(kind="true", k=0, arms="BR", unit=unit)

    def run(self, case, ctx):
        getattr(self, "run_" + case["kind"])(case, ctx)

    # -- pieces --------------------------------------------------------
    def stats(self, fname, var):
        w = 3590. + 10. * np.arange(64)
        gen.write_table(fname, gen.rec(dict(
            LAMBDA=w, MEANFLUX=meanflux(w), VAR_LSS=np.full(w.size, var))),
            'STATS')

    def args(self, ctx, *more, mf=False, var=0., outdir=None):
        f = os.path.join(ctx.tmp, f"stats{var}.fits")
        if not os.path.exists(f):
            self.stats(f, var)
        argv = ["-i", "none", "--catalog", "none", "--wave1", str(W1),
                "--wave2", str(W2), "--forest-w1", str(FW1), "--forest-w2",
                str(FW2), "--rfdwave", str(RFDW), "--fiducial-varlss", f]
        if mf:
            argv += ["--fiducial-meanflux", f]
        if outdir:
            argv += ["-o", outdir]
        a = fit.get_parser().parse_args(argv + list(more))
        if not fit.args_logic_fnc_qsonic_fit(a):
            raise qmc.Violation(f"options refused {argv}")
        return a

    def mask(self, kind, arm, n):
        m = np.zeros(n, int)
        if kind == 'alt':
            m[1::2] = 1
        elif kind == 'hole':
            m[4:8] = 4
        elif kind == 'blue':
            m[GRID[arm] < 1095. * (1 + Z)] = 1
        elif kind == 'edge':
            m[0], m[-1] = 1, 1
        elif kind == 'B only' and arm != 'B':
            m[:] = 1
        elif kind == 'R only' and arm != 'R':
            m[:] = 1
        return m

    def spectrum(self, amp, ripple=0., mk='none', arms="BR", tid=77,
                 base='one', mf=False, z=Z, ra=10., dec=5., hpx=7):
        d = {}
        for a in arms:
            w = GRID[a]
            i = np.arange(w.size)
            s = slope(w / (1 + z))
            c = shape(base, w / (1 + z)) * (
                amp[0] + amp[1] * s + amp[2] * s**2)
            if mf:
                c = c * meanflux(w)
            f = c + ripple * np.where(i % 3 == 0, 1., -0.5) * (
                1 if a == 'B' else -1)
            iv = 4. + (i % 5) * 3. + (8. if a == 'R' else 0.)
            m = self.mask(mk, a, w.size)
            f = np.where(m > 0, 1e4, f)      # masked pixels hold garbage
            d[a] = (w, f, iv, m)
        row = gen.catrow(tid, z, ra=ra, dec=dec, hpx=hpx)
        sp = gen.make_spectrum(Spectrum, row, d)
        sp.set_forest_region(W1, W2, FW1, FW2)
        sp.remove_nonforest_pixels()
        return sp

    def design(self, sp, order, base, mf):
        """stacked weighted design over all arms"""
        A, y, w = [], [], []
        for a, wv in sp.forestwave.items():
            s = slope(wv / (1 + sp.z_qso))
            g = base(wv / (1 + sp.z_qso))
            if mf:
                g = g * meanflux(wv)
            A.append(np.stack([g * s**k for k in range(order + 1)], 1))
            y.append(sp.forestflux[a])
            w.append(sp.forestivar[a])
        return np.concatenate(A), np.concatenate(y), np.concatenate(w)

    def lsq(self, sp, order, base, mf):
        A, y, w = self.design(sp, order, base, mf)
        q = np.sqrt(w)
        x, *_ = np.linalg.lstsq(A * q[:, None], y * q, rcond=None)
        N = (A * w[:, None]).T @ A
        return x, A @ x, N, (A, y, w)

    def flat(self, sp, d):
        return np.concatenate([d[a] for a in sp.forestwave])

    def check_invalid(self, ctx, sp, what):
        ctx.require(not sp.cont_params['valid'], f"{what}: flagged valid")
        ctx.require(not sp.cont_params['cont'], f"{what}: keeps a continuum")
        ctx.require(sp.cont_params['chi2'] == -1, f"{what}: chi2")

    def check_model(self, ctx, sp, order, base, mf, x, what):
        A, y, w = self.design(sp, order, base, mf)
        c = self.flat(sp, sp.cont_params['cont'])
        ctx.require(set(sp.cont_params['cont']) == set(sp.forestwave),
                    f"{what}: arms of the continuum")
        ctx.require(bool(np.all(np.isfinite(c)) and np.all(c >= 0)),
                    f"{what}: valid continuum is not finite and positive")
        ctx.same(c, A @ x, f"{what}: continuum is not the model",
                 rtol=1e-7, atol=1e-9)
        return A, y, w, c

    def judge(self, ctx, sp, order, base, mf, var, what, may_fail=False):
        """base: callable of rest-frame wavelength; var: LSS variance;
        may_fail: the minimizer may give up"""
        x, c, N, (A, y, w) = self.lsq(sp, order, base, mf)
        raw = c if not mf else c / meanflux(self.flat(sp, sp.forestwave))
        top = np.max(np.abs(raw))
        valid = bool(sp.cont_params['valid'])
        if not valid:
            self.check_invalid(ctx, sp, what)
            if var == 0 and not may_fail:
                ctx.require(raw.min() < 1e-3 * top,
                            f"{what}: good fit flagged invalid", min=raw.min())
            return False
        gx = np.asarray(sp.cont_params['x'])
        ctx.require(gx.shape == (order + 1,), f"{what}: parameters", x=gx)
        self.check_model(ctx, sp, order, base, mf, gx, what)
        if var == 0:
            ctx.require(raw.min() > -1e-3 * top,
                        f"{what}: negative best fit flagged valid",
                        x=x, got=gx)
            d = gx - x
            ctx.require(d @ N @ d < 1e-2,
                        f"{what}: not the least-squares fit", got=gx, want=x)
        else:
            self.local_min(ctx, gx, A, y, w, var, what)
        if var == 0:
            xc = np.asarray(sp.cont_params['xcov'])
            iN = np.linalg.inv(N)
            sd = np.sqrt(np.diag(iN))
            ctx.require(xc.shape == N.shape, f"{what}: covariance", got=xc)
            if not may_fail:
                bad = np.max(np.abs(xc - iN) / sd / sd[:, None])
                ctx.require(bool(bad < 1e-2), f"{what}: covariance of the parameters", got=xc, want=iN)
        # weights and chi2 belong to this continuum
        c = A @ gx
        wt = w / (1 + w * var * c**2)
        ctx.same(self.flat(sp, sp.forestweight), wt, f"{what}: weight",
                 rtol=1e-7)
        ctx.same(sp.cont_params['chi2'], np.sum(wt * (y - c)**2),
                 f"{what}: chi2", rtol=1e-6, atol=1e-9)
        ctx.require(sp.cont_params['dof'] == np.sum(w > 0) - order - 1,
                    f"{what}: degrees of freedom",
                    got=sp.cont_params['dof'])
        return True

    @staticmethod
    def cost(x, A, y, w, var):
        c = A @ x
        wt = w / (1 + w * var * c**2)
        return np.sum(wt * (y - c)**2) - np.sum(np.log(wt[wt > 0]))

    def local_min(self, ctx, x, A, y, w, var, what):
        c0 = self.cost(x, A, y, w, var)
        c = A @ x
        wt = w / (1 + w * var * c**2)
        N = (A * wt[:, None]).T @ A
        ev, V = np.linalg.eigh(N)
        for e, v in zip(ev, V.T):
            for s in (-.5, -.25, .25, .5):
                d = s * v / np.sqrt(max(e, 1e-12))
                c1 = self.cost(x + d, A, y, w, var)
                ctx.require(c1 > c0 - 2e-3 * max(1, abs(c0) * 1e-2),
                            f"{what}: not a minimum of the cost", x=x,
                            better=x + d, cost=c0, lower=c1)

    # -- single fits ---------------------------------------------------
    def run_fit(self, case, ctx):
        order, amp, var = case["order"], AMPS[case["a"]], case["var"]
        nval = 0
        for mf, kind in itertools.product((0, 1), ('one', 'tilt', 'bump')):
            qmc.fresh()
            a = self.args(ctx, "--cont-order", str(order), "--minimizer",
                          case["mini"], mf=mf, var=var)
            q = picca.PiccaContinuumFitter(a)
            y0 = shape(kind, RFWAVE)
            q.meancont_interp.reset(y0)
            base = CubicSpline(RFWAVE, y0)
            for rip, mk, arms in itertools.product(
                    RIPPLE, MASKS, ("B", "R", "BR")):
                if mk[2:] == 'only' and mk[0] not in arms:
                    continue
                qmc.fresh()
                ctx.inner = (mf, kind, rip, mk, arms)
                sp = self.spectrum(amp, rip, mk, arms, base=kind, mf=mf)
                keep = {x: sp.forestflux[x].copy() for x in sp.forestflux}
                q.model.init_spectra([sp])
                q.model.fit_continuum(sp)
                ctx.step()
                for x in keep:
                    ctx.require(np.array_equal(keep[x], sp.forestflux[x]),
                                "fitting changed the flux")
                ok = self.judge(ctx, sp, order, base, mf, var, "fit",
                                may_fail=case["mini"] != "iminuit")
                nval += ok
                ctx.outcome("valid" if ok else "invalid")
                ctx.trace()
                ctx.state("fit", case, ctx.inner)
        if amp[0] - abs(amp[1]) - abs(amp[2]) > 0:
            ctx.require(nval > 0, "no good quasar could be fitted")

    def run_fine(self, case, ctx):
        """long forests, negative at no, one or two pixels"""
        old = dict(GRID)
        GRID.update(B=3664. + 2. * np.arange(145), R=3920. + 2. * np.arange(105))
        try:
            a = self.args(ctx, "--cont-order", "1", "--minimizer",
                          case["mini"], var=0.)
            q = picca.PiccaContinuumFitter(a)
            base = CubicSpline(RFWAVE, np.ones(NRF))
            for arms, end, beyond, size in itertools.product(
                    ("B", "R", "BR"), (0, -1), (-9., 0.9, 1.9), (2., 300.)):
                qmc.fresh()
                sp = self.spectrum((1., 0., 0.), arms=arms)
                w = np.unique(np.concatenate(list(sp.forestwave.values())))
                # crosses zero that many pixels from the end
                zero = w[end] + (1 if end == 0 else -1) * 2. * beyond
                s = slope(zero / (1 + Z))
                amp = size * np.array([abs(s), -np.sign(s), 0.])
                ctx.inner = (arms, end, beyond, size)
                qmc.fresh()
                sp = self.spectrum(amp, arms=arms)
                q.model.init_spectra([sp])
                q.model.fit_continuum(sp)
                c = amp[0] + amp[1] * slope(w / (1 + Z))
                if c.mean() < 0:
                    continue
                ctx.require(np.sum(c < 0) == max(0, int(beyond + 1)),
                            "harness: negative pixels", got=np.sum(c < 0))
                ok = self.judge(ctx, sp, 1, base, 0, 0., "long forest",
                                may_fail=case["mini"] != "iminuit")
                ctx.require(ok == (beyond < 0) or case["mini"] != "iminuit",
                            "validity of a long forest", got=ok)
                ctx.step()
                ctx.trace()
                ctx.state("fine", case, ctx.inner)
        finally:
            GRID.update(old)

    # -- lists ---------------------------------------------------------
    def quasars(self):
        """five quasars; 2 and 4 cannot be fitted"""
        return [dict(amp=(2., 0.3, 0.), tid=5001, z=2.5),
                dict(amp=(4., -1., 0.), tid=11, z=2.45, mk='hole',
                     ripple=0.3),
                dict(amp=(-1., 0.1, 0.), tid=5000, z=2.5),
                dict(amp=(1., 0.2, 0.), tid=12, z=2.6, mk='alt', arms='BR',
                     ripple=0.2),
                dict(amp=(-2., -0.5, 0.), tid=5002, z=2.4, mk='edge')]

    def alone(self, ctx, a, order, i, kind):
        sp = self.spectrum(**self.quasars()[i])
        q = picca.PiccaContinuumFitter(a)
        q.meancont_interp.reset(shape(kind, RFWAVE))
        q.model.init_spectra([sp])
        q.model.fit_continuum(sp)
        return sp

    def run_list(self, case, ctx):
        order = case["order"]
        qs = self.quasars()
        lists = [(case["first"],) + r for d in range(case["n"])
                 for r in itertools.permutations(
                     [i for i in range(5) if i != case["first"]], d)]
        out = os.path.join(ctx.tmp, "out")
        os.makedirs(out)
        a = self.args(ctx, "--cont-order", str(order), var=0., outdir=out)
        ref = {i: self.alone(ctx, a, order, i, 'tilt') for i in range(5)}
        for ids in lists:
            qmc.fresh()
            picca.VarLSSFitter.min_num_pix = 1
            picca.VarLSSFitter.min_num_qso = 1
            ctx.inner = ids
            sps = [self.spectrum(**qs[i]) for i in ids]
            q = picca.PiccaContinuumFitter(a)
            y0 = shape('tilt', RFWAVE)
            q.meancont_interp.reset(y0.copy())
            base = CubicSpline(RFWAVE, y0)
            q.model.init_spectra(sps)
            good = [i for i in ids if i not in (2, 4)]
            if not good:
                ctx.raises(lambda: q.fit_continua(sps),
                           "nothing could be fitted")
                ctx.trace()
                continue
            for it in range(2):
                q.fit_continua(sps)
                ctx.step()
                for i, sp in zip(ids, sps):
                    ok = self.judge(ctx, sp, order, base, False, 0.,
                                    f"it {it} quasar {i}")
                    ctx.require(ok == (i in good), "validity", quasar=i)
                    if ok and it == 0:
                        for arm in sp.forestwave:
                            ctx.same(sp.cont_params['cont'][arm],
                                     ref[i].cont_params['cont'][arm],
                                     "depends on other quasars", rtol=1e-6)
                val = [sp for i, sp in zip(ids, sps) if i in good]
                if it == 0:
                    self.var_stats(ctx, q, sps, val)
                    q.varlss_fitter = None
                    q.save_contchi2_catalog(sps)
                    self.catalog(ctx, out, ids, sps, good)
                q.update_mean_cont(sps)
                self.stack(ctx, q, val)
                base = CubicSpline(RFWAVE, q.meancont_interp.fp.copy())
            ctx.trace()
            ctx.state("list", order, ids)

    def stack(self, ctx, q, val):
        n = round((W2 - W1) / 8.)
        num, den = np.zeros(n), np.zeros(n)
        nr, dr = np.zeros(NRF), np.zeros(NRF)
        for sp in val:
            for a, wv in sp.forestwave.items():
                c = sp.cont_params['cont'][a]
                wt = sp.forestivar[a] * c**2
                v = wt * sp.forestflux[a] / c
                k = np.floor((wv - W1) / 8.).astype(int)
                np.add.at(num, k, v)
                np.add.at(den, k, wt)
                k = np.floor((wv / (1 + sp.z_qso) - FW1) / RFDW).astype(int)
                np.add.at(nr, k, v)
                np.add.at(dr, k, wt)
        ctx.same(q.flux_stacker.stacked_flux,
                 np.divide(num, den, out=np.zeros(n), where=den > 0),
                 "stack is not the one of the valid spectra", rtol=1e-6)
        ctx.same(q.flux_stacker.stacked_flux_rf,
                 np.divide(nr, dr, out=np.zeros(NRF), where=dr > 0),
                 "rest-frame stack", rtol=1e-6)

    def var_stats(self, ctx, q, sps, val):
        """variance statistics come from valid spectra only"""
        q.varlss_fitter = picca.VarLSSFitter(W1, W2, nvarbins=4,
                                             nsubsamples=8)
        q.varlss_interp = q.varlss_fitter.construct_interp(0.1)
        q.eta_interp = q.varlss_fitter.construct_interp(1.0)
        try:
            q.update_var_lss_eta(sps)
        except Exception as e:
            if type(e).__name__ != "QsonicException":
                raise          # too few quasars for the fit itself
        n = sum(int(np.sum(iv > 0)) for sp in val
                for iv in sp.forestivar.values())
        ctx.require(int(q.varlss_fitter.num_pixels.sum()) == n,
                    "pixels in the variance statistics",
                    got=q.varlss_fitter.num_pixels.sum(), want=n)

    def catalog(self, ctx, out, ids, sps, good):
        t = fitsio.read(os.path.join(out, "continuum_chi2_catalog.fits"),
                        ext='CHI2_CAT')
        ctx.require(len(t) == len(ids), "rows of the chi2 catalog")
        by = {int(r['TARGETID']): r for r in t}
        for i, sp in zip(ids, sps):
            r = by.get(int(sp.targetid))
            ctx.require(r is not None, "quasar missing in the chi2 catalog")
            ctx.require(bool(r['CONT_valid']) == (i in good), "CONT_valid")
            ctx.same(r['CONT_chi2'], sp.cont_params['chi2'], "CONT_chi2",
                     rtol=1e-5)
            ctx.require(r['CONT_dof'] == sp.cont_params['dof'], "CONT_dof")
            ctx.same(np.ravel(r['CONT_x']), sp.cont_params['x'], "CONT_x",
                     rtol=1e-5, atol=1e-7)
            ctx.same(np.ravel(r['CONT_xcov']),
                     np.ravel(sp.cont_params['xcov']), "CONT_xcov",
                     rtol=1e-5, atol=1e-9)
            ctx.same(r['Z'], sp.z_qso, "Z", rtol=1e-6)
            ctx.require(r['HPXPIXEL'] == sp.hpix, "HPXPIXEL")

    # -- input continua ------------------------------------------------
    # states: good, other good, absent from the file, zero inside,
    #         negative inside, undefined
    IW1, IDW, IN = 1020., 5., 36              # to 1195

    def icont(self, k, state, wrf):
        s = (wrf - 1115.) / 65.
        if state == 0:
            return 2. + k + 0.3 * s - 0.2 * s**3
        if state == 1:       # positive in the forest, negative before it
            return 1. + 0.7 * s + 0.5 * k * (s + 1.4)
        if state == 3:
            return np.maximum(0., s - 0.2) + 0 * wrf
        if state in (4, 6):
            return 1. + 2.5 * s + 0 * k
        if state == 5:
            c = 2. + 0.1 * s
            return np.where(np.abs(wrf - 1110.) < 3., np.nan, c)
        return 1. + 0 * s

    POS = [(10., 5.), (200., -30.), (10.5, 5.2)] + [
        ((10., 200., 310.)[k % 3] + 0.01 * k, (5., -30., 60.)[k % 3])
        for k in range(26)]
    # two of these lie on either side of the border of two pixels
    lo, hi = 200., 225.
    while hi - lo > 1e-10:
        mid = 0.5 * (lo + hi)
        if healpy.ang2pix(8, mid, 11., lonlat=True, nest=True) == \
                healpy.ang2pix(8, 200., 11., lonlat=True, nest=True):
            lo = mid
        else:
            hi = mid
    for j in range(6):
        POS[12 + 2 * j] = (lo - 1e-6 * (j + 1), 11.)
        POS[13 + 2 * j] = (hi + 1e-6 * (j + 1), 11.)
    TID = [39627939372861215, 12, 39627939372861216] + [
        39627939372861300 - 7 * k if k % 2 else 900 + k for k in range(26)]

    def ispec(self, k, shared, state=0):
        ra, dec = self.POS[0] if shared else self.POS[k]
        return self.spectrum((2., 0.2, 0.), 0.2,
                             'blue' if state == 6 else 'hole', tid=self.TID[k],
                             ra=ra, dec=dec, hpx=3 * k, z=2.5 - 0.02 * (k % 5))

    def ifiles(self, d, states, shared, rows, nofile=None):
        os.makedirs(d)
        groups = {}
        for k in rows:
            ra, dec = self.POS[0] if shared else self.POS[k]
            p = int(healpy.ang2pix(8, ra, dec, lonlat=True, nest=True))
            groups.setdefault(p, []).append(k)
        wrf = self.IW1 + self.IDW * np.arange(self.IN)
        for p, ks in groups.items():
            if nofile is not None and nofile in ks:
                continue
            ids, data = [991], [np.full(self.IN, 50.)]  # someone else
            for k in ks:
                if states[k] == 2:
                    continue
                ids.append(self.TID[k])
                data.append(self.icont(k, states[k], wrf))
            ids.append(1)
            data.append(np.full(self.IN, 70.))
            with fitsio.FITS(f"{d}/input-continuum-8-{p}.fits", 'rw',
                             clobber=True) as f:
                f.write(gen.rec(dict(
                    TARGETID=np.array(ids, 'i8'),
                    Z=np.full(len(ids), 2.5))), extname='FIBERMAP')
                f.write(np.array(data), extname='CONTINUA', header=dict(
                    WAVE1=self.IW1, DWAVE=self.IDW))
        return {k: p for p, ks in groups.items() for k in ks}

    def icheck(self, ctx, sp, k, state, mf, there, what):
        ok = there and state in (0, 1)
        if not ok:
            self.check_invalid(ctx, sp, what)
            return
        ctx.require(bool(sp.cont_params['valid']), f"{what}: invalid")
        wrf = self.IW1 + self.IDW * np.arange(self.IN)
        cs = CubicSpline(wrf, self.icont(k, state, wrf))
        ctx.require(set(sp.cont_params['cont']) == set(sp.forestwave),
                    f"{what}: arms")
        chi = 0
        for a, wv in sp.forestwave.items():
            c = cs(wv / (1 + sp.z_qso)) * (meanflux(wv) if mf else 1.)
            ctx.same(sp.cont_params['cont'][a], c, f"{what}: continuum",
                     rtol=1e-8)
            iv = sp.forestivar[a]
            wt = iv / (1 + iv * 0.1 * c**2)
            ctx.same(sp.forestweight[a], wt, f"{what}: weight", rtol=1e-8)
            chi += np.sum(wt * (sp.forestflux[a] - c)**2)
        ctx.same(sp.cont_params['chi2'], chi, f"{what}: chi2", rtol=1e-7)

    def run_input(self, case, ctx):
        st = case["states"]
        h = st[0] + 6 * st[1] + 36 * st[2]
        n = 0
        for shared in (False, True):
            for rows in itertools.permutations(range(3)):
                for nofile in (None, 0, 1, 2) if rows[0] == h % 3 \
                        else (None,):
                    n += 1
                    mf = (n + h) % 2
                    qmc.fresh()
                    d = os.path.join(ctx.tmp, f"i{n}")
                    pix = self.ifiles(d, st, shared, rows, nofile)
                    order = list(itertools.permutations(range(3)))[
                        (n + h) % 6]
                    ctx.inner = (shared, rows, nofile, order, mf)
                    there = {k: nofile is None or pix[k] != pix[nofile]
                             for k in range(3)}
                    a = self.args(ctx, "--input-continuum-dir", d, mf=mf,
                                  var=0.1)
                    q = picca.PiccaContinuumFitter(a)
                    sps = [self.ispec(k, shared) for k in order]
                    hpx = [s.hpix for s in sps]
                    q.model.init_spectra(sps)
                    good = [k for k in order if there[k]
                            and st[k] in (0, 1)]
                    for it in range(3):
                        if not good:
                            ctx.raises(lambda: q.fit_continua(sps),
                                       "no continuum at all")
                        else:
                            q.fit_continua(sps)
                        ctx.step()
                        for k, sp in zip(order, sps):
                            self.icheck(ctx, sp, k, st[k], mf, there[k],
                                        f"it {it} quasar {k}")
                        if good:
                            q.update_mean_cont(sps)
                    ctx.require([s.hpix for s in sps] == hpx,
                                "catalog pixel changed")
                    ctx.trace()
                    ctx.state("input", st, shared, rows, nofile, order, mf)

    def run_inputmany(self, case, ctx):
        """29 quasars over a few pixels, rows and spectra in other orders"""
        rot, n = case["rot"], len(self.TID)
        # 6: negative, but only where everything is masked
        st = [(0, 1, 0, 2, 6, 1, 4, 0)[(k + rot) % 8] for k in range(n)]
        for shared, (s1, s2) in itertools.product(
                (False, True), ((1, 1), (3, 5), (15, 7), (5, 15))):
            qmc.fresh()
            d = os.path.join(ctx.tmp, f"i{shared}{s1}{s2}")
            self.ifiles(d, st, shared, [(k * s1 + rot) % n for k in range(n)])
            order = [(k * s2) % n for k in range(n)]
            ctx.inner = (shared, s1, s2)
            mf = (rot + s1) % 2
            a = self.args(ctx, "--input-continuum-dir", d, mf=mf, var=0.1)
            q = picca.PiccaContinuumFitter(a)
            sps = [self.ispec(k, shared, st[k]) for k in order]
            q.model.init_spectra(sps)
            for it in range(2):
                q.fit_continua(sps)
                ctx.step()
                for k, sp in zip(order, sps):
                    self.icheck(ctx, sp, k, st[k], mf, True,
                                f"it {it} quasar {k}")
                q.update_mean_cont(sps)
            ctx.trace()
            ctx.state("inputmany", case, shared, s1, s2)

    def run_inputmpi(self, case, ctx):
        """quasars spread over two processes, one may have none"""
        st = [case["state"], 0, 1]
        d = os.path.join(ctx.tmp, "in")
        self.ifiles(d, st, False, [0, 1, 2])
        a = self.args(ctx, "--input-continuum-dir", d, var=0.1)
        for order in ((0, 1), (1, 0)):
            ctx.inner = order
            qmc.fresh()
            self.ispec(0, False)

            def body(comm):
                q = picca.PiccaContinuumFitter(a)
                mine = [k for k, p in enumerate(case["place"])
                        if p == comm.rank]
                sps = [self.ispec(k, False) for k in mine]
                q.model.init_spectra(sps)
                q.fit_continua(sps)
                q.update_mean_cont(sps)
                return mine, sps
            try:
                res = simmpi.run_one(2, body, order)
            except simmpi.SimMPIError as e:
                ctx.require(False, f"protocol: {e}")
            seen = []
            for r, v in enumerate(res):
                ctx.require(v.kind == "value", f"rank {r}: {v} {v.text}")
                mine, sps = v.value
                seen += mine
                for k, sp in zip(mine, sps):
                    self.icheck(ctx, sp, k, st[k], 0, True, f"quasar {k}")
            ctx.require(sorted(seen) == [0, 1, 2], "harness")
            ctx.step(2)
            ctx.trace()
            ctx.state("inputmpi", case, order)

    # -- true continua -------------------------------------------------
    def run_true(self, case, ctx):
        k, arms = case["k"], case["arms"]
        TW, TDW, TN = 3500., 10., 80
        tw = TW + TDW * np.arange(TN)

        def tc(i):
            s = (tw - 3900.) / 400.
            c = [2. + 0.3 * s, 1. + 0.2 * s**2 + 0.1 * s**3,
                 4. - 0.5 * s**3][i]
            c[:2] = -0.1          # outside the forest
            return c * case.get("unit", 1.)
        for order in itertools.permutations(range(3)):
            for mk in MASKS[:4]:
                qmc.fresh()
                ctx.inner = (order, mk)
                a = self.args(ctx, "--mock-analysis", "--true-continuum",
                              mf=True, var=0.1)
                q = picca.PiccaContinuumFitter(a)
                wave = {x: GRID[x].copy() for x in arms}
                data = dict(wave=wave, reso={}, cont=dict(
                    w1=TW, dwave=TDW,
                    data=np.array([tc((i + k) % 3) for i in order])))
                for key in ('flux', 'ivar', 'mask'):
                    data[key] = {}
                for x in arms:
                    m = GRID[x].size
                    j = np.arange(m)
                    data['flux'][x] = np.array(
                        [1. + i + 0.1 * (j % 4) for i in order])
                    data['ivar'][x] = np.array(
                        [4. + i + (j % 3) for i in order])
                    data['mask'][x] = np.array(
                        [self.mask(mk, x, m) for i in order])
                sps = []
                for pos, i in enumerate(order):
                    sp = Spectrum.from_dictionary(
                        gen.catrow(100 + i, 2.5 - 0.01 * i), data, pos)
                    sp.set_forest_region(W1, W2, FW1, FW2)
                    sp.remove_nonforest_pixels()
                    sps.append(sp)
                q.model.init_spectra(sps)
                q.fit_continua(sps)
                ctx.step()
                for i, sp in zip(order, sps):
                    ctx.require(sp.cont_params['valid'], "true is invalid")
                    cs = CubicSpline(tw, tc((i + k) % 3))
                    chi = 0.
                    for x, wv in sp.forestwave.items():
                        c = cs(wv) * meanflux(wv)
                        ctx.same(sp.cont_params['cont'][x], c,
                                 f"true continuum of {i}", rtol=1e-8)
                        iv = sp.forestivar[x]
                        wt = iv / (1 + iv * 0.1 * c**2)
                        ctx.same(sp.forestweight[x], wt, "weight",
                                 rtol=1e-8)
                        chi += np.sum(wt * (sp.forestflux[x] - c)**2)
                    ctx.same(sp.cont_params['chi2'], chi, "chi2", rtol=1e-7)
                ctx.trace()
                ctx.state("true", case, order, mk)


if __name__ == "__main__":
    qmc.main(Q21())
