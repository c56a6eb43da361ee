"""Q28: updates of the mean continuum and the variance functions."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import itertools

import qmc
import gen
import pipe
import simmpi
import numpy as np
from numpy.polynomial.legendre import Legendre
from scipy.interpolate import CubicSpline, UnivariateSpline
from scipy.optimize import lsq_linear

# -- variance functions: 8 wavelength bins, 7 variance bins ---------------
W1, W2, NW, NV = 3600., 4560., 8, 7
DW = (W2 - W1) / NW
WAVE = W1 + DW * (np.arange(NW) + 0.5)
VEDGE = np.logspace(-2, 1, NV + 1)
VPIPE = np.sqrt(VEDGE[1:] * VEDGE[:-1])
MINPIX, MINQSO = 8, 6
TRUE = [(0.05 + 0.03 * i, 0.8 + 0.1 * ((3 * i) % 5)) for i in range(NW)]
# per variance bin: (number of quasars, number of pixels, wrong variance?)
OKB, SPARSE, FEW, EDGE, POOR = \
    (8, 8, 0), (4, 8, 1), (7, 7, 1), (6, 8, 0), (5, 9, 1)
HALF, LOWH, LOWQ, NONE = (3, 4, 0), (3, 3, 1), (2, 4, 1), (0, 0, 0)
PROFILES = {
    'G': [OKB] * 7,                          # plenty everywhere
    'P': [SPARSE, OKB, OKB, OKB, OKB, OKB, FEW],
    'E': [EDGE, EDGE, POOR, EDGE, EDGE, FEW, EDGE],   # exactly enough
    'H': [HALF, HALF, LOWH, HALF, LOWQ, HALF, HALF],  # half is enough
    'F': [OKB, OKB, NONE, OKB, NONE, OKB, LOWH],      # only four bins
    'Q': [OKB, OKB, OKB, OKB, HALF, LOWQ, LOWH],      # five with half
    'N': [NONE] * 7}
FAILS = "FN"

# -- mean continuum --------------------------------------------------------
Z, NRF, FW1, FW2 = 2.5, 8, 1050., 1178.
RFDW = (FW2 - FW1) / NRF
RF = FW1 + RFDW * (np.arange(NRF) + 0.5)
OBS = (FW1 + RFDW / 4 + RFDW / 2 * np.arange(2 * NRF)) * (1 + Z)


def old_cont(kind):
    s = (RF - 1114.) / 64.
    return {'one': 1. + 0 * s, 'bump': 1.1 - 0.15 * s**2 + 0.1 * s**3,
            'tilt': 1. + 0.2 * s}[kind]


class Q28(qmc.Check):
    pid = "Q28"
    case_timeout = 300
    bounds = {
        "quick": "variance functions: every assignment of 7 statistics "
                 "profiles (enough, exactly enough, half, too few pixels, "
                 "too few quasars, none) to 3 of 8 wavelength bins and every "
                 "subset of failing bins, with and without eta, covariance "
                 "and smoothing; every pattern of scatter on 7 variance "
                 "bins; best values outside the limits; "
                 "every number of failing bins out of 5-11; initial values inside and outside the limits; "
                 "two processes; statistics of 60 spectra, smoothed or not.  Mean continuum: "
                 "every set of <=4 empty of 8 rest-frame bins x 3 stacks x 3 "
                 "old continua x polynomial order 0-4 x fitted and input "
                 "continua x weights; grids of 12-160 bins with one precise "
                 "bin x 5 precisions x 5 slopes",
        "thorough": "profiles on 4 of 8 bins, all orders of the products"}
    assumptions = [
        "fits are compared to 1e-4, their errors to 1e-3",
        "the smoothing is scipy's UnivariateSpline with the inverse errors "
        "as weights, as documented"]

    def setup(self):
        global fit, Spectrum, picca
        import qsonic.scripts.qsonic_fit as fit
        import qsonic.picca_continuum as picca
        from qsonic.spectrum import Spectrum
        pipe.small_statistics(picca)       # where not given explicitly
        qmc.snapshot(Spectrum, picca.VarLSSFitter)

    def cases(self, tier):
        names = list(PROFILES)
        pos = [(0, 3, 7)] if tier == "quick" else [(0, 3, 4, 7)]
        for p in pos:
            for prof in itertools.product(names, repeat=len(p)):
                yield dict(kind="prof", pos=p, prof="".join(prof))
        for hi in range(16):
            yield dict(kind="holes", hi=hi)
        for pat in range(2**NV):
            yield dict(kind="scatter", pat=pat)
        yield dict(kind="shape")
        for fac in (0.3, 2.2, 3.5, 6.):
            yield dict(kind="bound", fac=fac)
        for n in (5, 7, 9, 10, 11):
            yield dict(kind="ratio", n=n)
        for smooth, arms, eta in itertools.product(
                (0., 8., 40.), (1, 2), (0, 1)):
            yield dict(kind="update", smooth=smooth, arms=arms, eta=eta)
        for lss, eta in itertools.product((0., 2e-3, 0.7), (0, 1)):
            yield dict(kind="update", smooth=0., arms=2, eta=eta, lss=lss)
        for place in itertools.product((0, 1), repeat=3):
            yield dict(kind="mpi", place=place)
        for n in range(0, 5):
            for empty in itertools.combinations(range(NRF), n):
                if tier == "quick" and n == 4 and sum(empty) % 3:
                    continue
                yield dict(kind="mean", empty=empty)
        # long grids, where single bins matter little
        for n in (12, 16, 40, 160):
            for spike in (0, n // 4, n - 1):
                yield dict(kind="mean", empty=(), nrf=n, spike=spike)
            yield dict(kind="mean", empty=(0, 3, n // 2, n // 2 + 1, n - 2),
                       nrf=n, spike=n - 1)

    def run(self, case, ctx):
        getattr(self, "run_" + case["kind"])(case, ctx)

    # -- variance functions ----------------------------------------------
    def quasars(self, profs, scatter=None, cov=0):
        """list of (wave, delta, ivar) realising the profiles.

        delta^2 takes two values around the target so that it has an error,
        with opposite signs so that the mean is small.  A covariance needs
        more quasars, so there are five times as many of everything."""
        out = []
        R = 5 if cov else 1
        for k in range(9 * R):
            w, d, iv = [], [], []
            for i, name in enumerate(profs):
                for j, (nq, npix, wrong) in enumerate(PROFILES[name]):
                    if k >= nq * R:
                        continue
                    mine = npix // nq + (1 if k // R < npix % nq else 0)
                    lss, eta = TRUE[i]
                    var = eta * VPIPE[j] + lss
                    if scatter is not None:
                        var *= scatter[j]
                    if wrong:
                        var *= 7.
                    for m in range(mine):
                        h = 0.3 + 0.05 * ((3 * i + j) % 4)
                        u = (k // 2) % 2
                        if cov:
                            u = (k * (2 * j + 3) * (i + 5) + k**2 * j) % 7 > 3
                        s = np.sqrt(var * (1 + (h if u else -h)))
                        w.append(WAVE[i] + (m - 0.5) * 11. + j)
                        d.append(s * (1 if k % 2 else -1))
                        iv.append(1. / VPIPE[j])
            out.append((np.array(w), np.array(d), np.array(iv)))
        return out

    def fitter(self, cov, comm=None):
        picca.VarLSSFitter.min_num_pix = MINPIX * (5 if cov else 1)
        picca.VarLSSFitter.min_num_qso = MINQSO * (5 if cov else 1)
        return picca.VarLSSFitter(
            W1, W2, NW, var1=VEDGE[0], var2=VEDGE[-1], nvarbins=NV,
            nsubsamples=40, use_cov=bool(cov), comm=comm)

    @staticmethod
    def valid(name):
        """variance bins used for the fit"""
        b = PROFILES[name]
        use = [j for j in range(NV) if b[j][1] >= MINPIX
               and b[j][0] >= MINQSO]
        if len(use) < 5:
            use = [j for j in range(NV) if b[j][1] >= MINPIX // 2
                   and b[j][0] >= MINQSO // 2]
        return use if len(use) >= 5 else None

    def expected(self, f, profs, eta, cov):
        """least squares on the statistics; None where there is no fit"""
        # statistics are listed with inverse variance increasing
        vp = f.var_centers.reshape(NW, NV)
        vd = f.var_delta.reshape(NW, NV)
        er = f.e_var_delta.reshape(NW, NV)
        out = []
        for i, name in enumerate(profs):
            use = self.valid(name)
            if use is None:
                out.append(None)
                continue
            k = [NV - 1 - j for j in sorted(use, reverse=True)]
            C = np.diag(er[i, k]**2)
            if cov:
                C = f.cov_var_delta[i][np.ix_(k, k)]
                dd = np.sqrt(np.diag(C))
                if np.linalg.cond(C / dd / dd[:, None]) > 1e6:
                    raise RuntimeError(
                        f"harness: ill-conditioned {i} {name}")
            A = np.ones((len(k), 1))
            y = vd[i, k].copy()
            if eta:
                A = np.column_stack((A, vp[i, k]))
            else:
                y = y - vp[i, k]
            L = np.linalg.cholesky(C)
            B, z = np.linalg.solve(L, A), np.linalg.solve(L, y)
            sc = np.linalg.norm(B, axis=0)
            r = lsq_linear(B / sc, z, (0., 2. * sc), tol=1e-14)
            out.append((r.x / sc, np.sqrt(np.diag(np.linalg.inv(B.T @ B)))))
        return out

    def one_fit(self, ctx, profs, eta, cov, smooth, scatter=None,
                guess=0.1, comm=None, mine=None):
        f = self.fitter(cov, comm)
        for k, (w, d, iv) in enumerate(self.quasars(profs, scatter, cov)):
            if w.size and (mine is None or mine(k)):
                f.add(w, d, iv)
        g = np.full(NW, guess)
        if eta:
            g = np.column_stack((g, np.ones(NW)))
        keep = g.copy()
        nfail = sum(self.valid(p) is None for p in profs)
        if nfail / NW > 0.4:
            def call():
                f.fit(g, smooth=bool(smooth))
            if mine is not None:
                try:
                    call()
                except picca.QsonicException:
                    return "refused"
                return "accepted"
            ctx.raises(call, "too many bins without statistics")
            return
        y, e = f.fit(g, smooth=bool(smooth))
        ctx.same(g, keep, "the initial guess changed")
        ref = self.expected(f, profs, eta, cov)
        ok = np.array([r is not None for r in ref])
        y2, e2 = np.asarray(y).reshape(NW, -1), np.asarray(e).reshape(NW, -1)
        raw = np.zeros(y2.shape)
        for i in np.nonzero(ok)[0]:
            v, s = ref[i]
            inside = np.all((v > 1e-3) & (v < 1.999))
            raw[i] = v
            if not smooth:
                ctx.same(y2[i], v, f"fit at bin {i}", rtol=1e-4, atol=2e-4)
            if inside:
                ctx.same(e2[i], s, f"error of the fit at bin {i}", rtol=2e-3)
        if smooth:
            # in two dimensions bins with positive var_lss are used
            for c in range(y2.shape[1]):
                use = ok & (raw[:, 0] > 1e-3)
                if np.any(ok & ~use):
                    return y
                s = UnivariateSpline(WAVE[use], raw[use, c],
                                     w=1 / e2[use, c])(WAVE)
                ctx.same(y2[:, c], s, "smoothed fit", rtol=2e-3, atol=1e-3)
        ctx.same(f.waveobs, WAVE, "wavelengths", rtol=1e-12)
        return np.concatenate((y2, e2))

    def run_prof(self, case, ctx):
        profs = ['G'] * NW
        for p, n in zip(case["pos"], case["prof"]):
            profs[p] = n
        for eta, cov, smooth in itertools.product((0, 1), repeat=3):
            ctx.inner = (eta, cov, smooth)
            self.one_fit(ctx, profs, eta, cov, smooth)
            ctx.step()
            ctx.trace()
            ctx.state("prof", profs, eta, cov, smooth)

    def run_holes(self, case, ctx):
        for lo in range(16):
            bits = case["hi"] * 16 + lo
            profs = ["FN"[i % 2] if bits >> i & 1 else 'G'
                     for i in range(NW)]
            for eta, smooth in itertools.product((0, 1), repeat=2):
                ctx.inner = (bits, eta, smooth)
                self.one_fit(ctx, profs, eta, 0, smooth)
                ctx.step()
                ctx.trace()
                ctx.state("holes", bits, eta, smooth)

    def run_scatter(self, case, ctx):
        sc = np.array([1.35 if case["pat"] >> j & 1 else 0.9
                       for j in range(NV)])
        for eta, cov, smooth in itertools.product((0, 1), repeat=3):
            for guess in (0.1, 1.5, -0.02, 2.3):
                ctx.inner = (eta, cov, smooth, guess)
                self.one_fit(ctx, ['G', 'E', 'P', 'H'] * 2, eta, cov, smooth,
                             scatter=sc, guess=guess)
                ctx.step()
                ctx.trace()
                ctx.state("scatter", case["pat"], ctx.inner)

    def run_bound(self, case, ctx):
        """best values outside the allowed range stop at its limits"""
        for eta, cov, smooth in itertools.product((0, 1), repeat=3):
            ctx.inner = (eta, cov, smooth)
            self.one_fit(ctx, ['G', 'E', 'P', 'H'] * 2, eta, cov, smooth,
                         scatter=np.full(NV, case["fac"]))
            ctx.step()
            ctx.trace()
            ctx.state("bound", case["fac"], ctx.inner)

    def run_ratio(self, case, ctx):
        """refused when more than 40% of the bins have no statistics"""
        n = case["n"]
        dw = (W2 - W1) / n
        picca.VarLSSFitter.min_num_pix = MINPIX
        picca.VarLSSFitter.min_num_qso = MINQSO
        for m, side, eta in itertools.product(range(n + 1), (0, 1), (0, 1)):
            good = list(range(m)) if side else list(range(n - m, n))
            ctx.inner = (m, side, eta)
            f = picca.VarLSSFitter(
                W1, W2, n, var1=VEDGE[0], var2=VEDGE[-1], nvarbins=NV,
                nsubsamples=40)
            for k in range(9):
                w, d, iv = [], [], []
                for i, j in itertools.product(good, range(NV)):
                    v = (0.1 + VPIPE[j]) * (1 + 0.3 * (-1)**(k // 2))
                    w.append(W1 + dw * (i + 0.5))
                    d.append(np.sqrt(v) * (-1)**k)
                    iv.append(1. / VPIPE[j])
                if w:
                    f.add(np.array(w), np.array(d), np.array(iv))
            g = np.full((n, 2) if eta else n, 0.5)
            if 10 * (n - m) > 4 * n:
                ctx.raises(lambda: f.fit(g, smooth=False),
                           "too many bins without statistics")
            else:
                y, e = f.fit(g, smooth=False)
                y, e = y.reshape(n, -1), e.reshape(n, -1)
                bad = [i for i in range(n) if i not in good]
                ctx.require(np.all(e[good] > 0) and np.all(e[bad] == 0),
                            "errors", got=e)
                ctx.require(np.all(np.abs(y[good, 0] - 0.1) < 0.2),
                            "fit", got=y)
            ctx.step()
            ctx.trace()
            ctx.state("ratio", n, ctx.inner)

    def run_update(self, case, ctx):
        """statistics of the fit: every valid pixel, its own variance"""
        picca.VarLSSFitter.min_num_pix = 2
        picca.VarLSSFitter.min_num_qso = 1
        argv = ["-i", "none", "--catalog", "none", "--wave1", "3600",
                "--wave2", "4200", "--forest-w1", str(FW1), "--forest-w2",
                str(FW2)] + (["--var-fit-eta"] if case["eta"] else [])
        a = fit.get_parser().parse_args(argv)
        fit.args_logic_fnc_qsonic_fit(a)
        qmc.fresh()
        rs = np.random.RandomState(7)
        sp, px = [], []
        for k in range(60):
            arms, cont = {}, {}
            for name, w0, n in (('B', 3600., 90), ('R', 3920., 80)):
                w = w0 + 4. * np.arange(n)
                c = 1. + 0.3 * (k % 4) + 0.1 * np.cos(w / 90.)
                var = 10**rs.uniform(-1.8, 0.8, n)
                f = c * (1 + rs.normal(size=n) * np.sqrt(
                    case.get("lss", 0.08) + 1.1 * var))
                m = (rs.uniform(size=n) < 0.1).astype(int)
                if name == 'R' and case["arms"] == 1 and k % 2:
                    m[:] = 1
                arms[name] = (w, f, 1 / var / c**2, m)
                cont[name] = c
            z = 2.4 + 0.005 * k
            s = gen.make_spectrum(Spectrum, gen.catrow(50 + k, z), arms)
            s.set_forest_region(3600., 4200., 1000., 1300.)
            s.set_smooth_forestivar(case["smooth"])
            s.cont_params['valid'] = k % 7 != 3
            s.cont_params['cont'] = {x: np.interp(
                s.forestwave[x], arms[x][0], cont[x]) for x in s.forestwave}
            if k % 7 != 3:
                for x, w in s.forestwave.items():
                    j = np.searchsorted(arms[x][0], w - 0.1)
                    ok = arms[x][3][j] == 0
                    px.append((w, np.where(ok, arms[x][1][j] / cont[x][j] - 1,
                                           -1.),
                               np.where(ok, arms[x][2][j] * cont[x][j]**2,
                                        0.)))
            s.set_forest_weight()
            sp.append(s)
        q = picca.PiccaContinuumFitter(a)
        g = np.column_stack((q.varlss_interp.fp, q.eta_interp.fp))
        ref = picca.VarLSSFitter(3600., 4200.)
        for w, d, iv in px:
            ref.add(w, d, iv)
        y, e = ref.fit(g.copy() if case["eta"] else g[:, 0].copy())
        y, e = y.reshape(len(g), -1), e.reshape(len(g), -1)
        for again in range(2):
            ctx.inner = again
            q.update_var_lss_eta(sp)
            for n in ("num_pixels", "num_qso", "var_delta", "mean_delta"):
                ctx.same(getattr(q.varlss_fitter, n), getattr(ref, n), n,
                         rtol=1e-7, atol=1e-9)
            ctx.same(q.varlss_interp.fp, y[:, 0], "var_lss", rtol=1e-3,
                     atol=np.fmax(1e-4, again * e[:, 0]) if "lss" in case
                     else 1e-4)
            ctx.same(q.varlss_interp.ep, e[:, 0], "error of var_lss",
                     rtol=1e-2)
            if case["eta"]:
                ctx.same(q.eta_interp.fp, y[:, 1], "eta", rtol=1e-3,
                         atol=1e-3)
            else:
                ctx.same(q.eta_interp.fp, np.ones(len(g)), "eta is fixed")
            ctx.step()
            ctx.trace()
            ctx.state("update", case, again)

    def run_shape(self, case, ctx):
        """initial values of a wrong shape are refused"""
        for shape in ((NW - 1,), (NW + 1,), (NW, 1), (NW, 3), (2, NW),
                      (NW, 2, 1)):
            f = self.fitter(0)
            for w, d, iv in self.quasars(['G'] * NW):
                f.add(w, d, iv)
            ctx.inner = shape
            ctx.raises(lambda: f.fit(np.full(shape, 0.5)), "wrong shape")
            ctx.step()
            ctx.trace()
            ctx.state("shape", shape)

    def run_mpi(self, case, ctx):
        place = case["place"]
        for profs in (['G'] * NW, list("GHGNGPGF"), list("GNGNGFGN")):
            want = None
            for eta, order in itertools.product(
                    (0, 1), itertools.permutations(range(2))):
                ctx.inner = (profs, eta, order)
                one = [None]
                nfail = sum(self.valid(p) is None for p in profs)
                if nfail / NW <= 0.4:
                    one = self.one_fit(ctx, profs, eta, 0, 1)

                def body(comm):
                    return self.one_fit(
                        ctx, profs, eta, 0, 1, comm=comm,
                        mine=lambda k: place[k % 3] == comm.rank)
                try:
                    res = simmpi.run_one(2, body, order)
                except simmpi.SimMPIError as e:
                    ctx.require(False, f"protocol: {e}")
                for r, v in enumerate(res):
                    ctx.require(v.kind == "value", f"rank {r}: {v} {v.text}")
                    if nfail / NW > 0.4:
                        ctx.require(v.value == "refused",
                                    "too many bins without statistics")
                    else:
                        ctx.same(v.value, one, f"rank {r}", rtol=1e-5,
                                 atol=1e-7)
                ctx.step(2)
                ctx.trace()
                ctx.state("mpi", place, profs, eta, order)

    # -- mean continuum ---------------------------------------------------
    def args(self, ctx, order, model):
        f = os.path.join(ctx.tmp, "stats.fits")
        if not os.path.exists(f):
            w = 3590. + 10. * np.arange(64)
            gen.write_table(f, gen.rec(dict(
                LAMBDA=w, MEANFLUX=np.ones(w.size),
                VAR_LSS=np.zeros(w.size))), 'STATS')
        argv = ["-i", "none", "--catalog", "none", "--wave1", "3600",
                "--wave2", "4200", "--forest-w1", str(FW1), "--forest-w2",
                str(FW2), "--rfdwave", str(RFDW), "--fiducial-varlss", f,
                "--cont-order", str(order)]
        if model == "input":
            argv += ["--input-continuum-dir", ctx.tmp]
        a = fit.get_parser().parse_args(argv)
        if not fit.args_logic_fnc_qsonic_fit(a):
            raise qmc.Violation(f"options refused {argv}")
        return a

    @staticmethod
    def grid(n):
        global NRF, RFDW, RF, OBS
        NRF, RFDW = n, (FW2 - FW1) / n
        RF = FW1 + RFDW * (np.arange(n) + 0.5)
        OBS = (FW1 + RFDW / 4 + RFDW / 2 * np.arange(2 * n)) * (1 + Z)

    def spectra(self, empty, stack, weight, spike=0):
        """three quasars, one without a valid continuum"""
        out = []
        for k in range(4):
            b = np.arange(2 * NRF) // 2
            c = 1.5 + k + 0.8 * b / NRF
            s = (b - (NRF - 1) / 2) / (NRF / 2)
            if isinstance(weight, float):
                # one bin is measured better than all others
                iv = 0.01 + 0 * s
                iv[b == spike] = weight
                r = 1 + stack * s
            else:
                r = {'flat': 1. + 0 * s, 'wave': 1. + 0.1 * np.cos(2. * b),
                     'tilt': 1. + 0.2 * s - 0.1 * s**2}[stack]
                iv = {'equal': 4. + 0 * s, 'mixed': 4. + 3. * (b % 3) + k,
                      'high': 4e4 + 0 * s}[weight]
            f = c * (r + 0.02 * (k - 1))
            m = np.isin(b, empty).astype(int)
            m[(5 * k) % (2 * NRF)] = 1
            if k == 3:
                f = f * 3.                   # not valid
            sp = gen.make_spectrum(
                Spectrum, gen.catrow(50 + k, Z), {'B': (OBS, f, iv, m)})
            sp.set_forest_region(3600., 4200., FW1, FW2)
            sp.cont_params['valid'] = k < 3
            sp.cont_params['cont'] = {'B': c.copy()}
            if k == 3:
                sp.cont_params['cont'] = {}
            sp.set_forest_weight()
            out.append((sp, f, iv * (m == 0), c))
        return out

    def run_mean(self, case, ctx):
        empty = list(case["empty"])
        self.grid(case.get("nrf", 8))
        todo = itertools.product(
            ('flat', 'wave', 'tilt'), ('equal', 'mixed', 'high'),
            ('one', 'bump', 'tilt'), (0, 1, 2, 3, 4), ("picca", "input"))
        if "spike" in case:
            todo = itertools.product(
                (0.002, 0.005, 0.01, 0.02, 0.05), (0.01, 0.1, 1., 10., 100.),
                ('one', 'bump'), (0, 1), ("picca",))
        for stack, weight, old, order, model in todo:
            if order > 2 and (old == 'tilt' or stack == 'flat'
                              or weight == 'high'):
                continue
            if model == "input" and (order or old != 'one'):
                continue
            ctx.inner = (stack, weight, old, order, model)
            qmc.fresh()
            sp = self.spectra(empty, stack, weight, case.get("spike", 0))
            q = picca.PiccaContinuumFitter(self.args(ctx, order, model))
            ctx.same(q.rfwave, RF, "rest-frame grid", rtol=1e-12)
            y0 = old_cont(old)
            q.meancont_interp.reset(y0.copy(), ep=np.zeros(NRF))
            conv = q.update_mean_cont([x[0] for x in sp])
            ctx.step()
            b = np.arange(2 * NRF) // 2
            num = np.zeros(NRF)
            den = np.zeros(NRF)
            for _, f, iv, c in sp[:3]:
                v = f / c if model == "picca" else c
                np.add.at(num, b, iv * c**2 * v)
                np.add.at(den, b, iv * c**2)
            has = den > 0
            ctx.require(not np.any(has[empty]), "harness")
            val = np.where(has, num / np.where(has, den, 1.), 0.)
            err = np.where(has, 1 / np.sqrt(np.where(has, den, 1.)), 0.)
            ctx.same(q.flux_stacker.stacked_flux_rf, val, "stack", rtol=1e-9)
            ctx.same(q.flux_stacker.std_flux_rf, err, "stack error",
                     rtol=1e-9)
            val[~has], err[~has] = val[has].mean(), 10 * err[has].mean()
            y = UnivariateSpline(RF, val, w=1 / err)(RF)
            if model == "picca":
                y = y * y0
            x = np.log(RF / RF[0]) / np.log(RF[-1] / RF[0])
            for o in range(1, order + 1):
                P = Legendre.basis(o)(2 * x - 1)
                y = y - (2 * o + 1) * P * CubicSpline(
                    x, y * P, bc_type='natural').integrate(0, 1)
            mean = CubicSpline(x, y, bc_type='natural').integrate(0, 1)
            y, err = y / mean, err / mean
            ctx.same(q.meancont_interp.fp, y, "mean continuum", rtol=1e-7,
                     atol=1e-9)
            ctx.same(q.meancont_interp.ep, err, "error of the mean continuum",
                     rtol=1e-7)
            # the interpolator is that of the new table
            ctx.same(q.meancont_interp(RF + 0.3 * RFDW), CubicSpline(
                RF, y)(RF + 0.3 * RFDW), "interpolated continuum", rtol=1e-7)
            d = np.abs(y / y0 - 1) / err
            chi2 = np.mean(d**2)
            sure = np.all(np.abs(d - 0.33) > 1e-6) and abs(
                chi2 - 1e-3) > 1e-8
            if sure:
                want = bool(chi2 < 1e-3 or np.all(d < 0.33))
                ctx.require(bool(conv) == want, "convergence", got=conv,
                            want=want, update=d)
                ctx.outcome("converged" if want else "not converged")
            for k, (s, f, iv, c) in enumerate(sp):
                if k < 3:
                    ctx.same(s.cont_params['cont']['B'], c, "spectrum")
            ctx.trace()
            ctx.state("mean", empty, ctx.inner)


if __name__ == "__main__":
    qmc.main(Q28())
