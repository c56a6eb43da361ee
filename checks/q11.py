"""Q11: noise smoothing and weights never revive or corrupt pixels."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import itertools

import qmc
import gen
import numpy as np

DW = 0.8
W0 = 3600.


def eta_fn(w):
    return 1.2 + 0.01 * (w - W0)


def lss_fn(w):
    return 0.3 + 0.02 * (w - W0)


class Q11(qmc.Check):
    pid = "Q11"
    bounds = {
        "quick": "every inverse-variance pattern of 1-6 pixels over {0, 1, 4, "
                 "0.0025} at 6 smoothing scales, with reversal and in 3 units; repeated "
                 "patterns on 40-733 pixels; 1-2 outliers at 7 positions of "
                 "41 pixels; every profile of 3 levels in four quarters of 4-200 "
                 "pixels at 4 scales; kernels on 4 grids; every sequence of <=4 of 9 "
                 "smoothing / continuum / weight / chi2 calls on two arms (<=3 in two other units)",
        "thorough": "patterns up to 8 pixels, sequences of 6"}
    assumptions = ["the range claim is made for smoothing scales of at least "
                   "10 pixels (the default is 20)"]

    def setup(self):
        global Spectrum
        from qsonic.spectrum import Spectrum
        qmc.snapshot(Spectrum)

    VALS = [0., 1., 4., 0.0025]
    SCALES = [-1., 0., 0.4, 2., 8., 16., 40.]

    def cases(self, tier):
        top = 6 if tier == "quick" else 8
        for n in range(1, top + 1):
            for first in itertools.product(range(4), repeat=min(2, n)):
                yield dict(kind="pattern", n=n, first=first)
        for n in (40, 61, 200, 733):
            for per in itertools.product(range(4), repeat=3):
                if any(per):
                    yield dict(kind="long", n=n, per=per)
        top = 2 if tier == "quick" else 3
        for n in range(1, top + 1):
            for where in itertools.combinations((0, 1, 7, 15, 16, 29, 40), n):
                yield dict(kind="outlier", where=where)
        for n in (4, 8, 12, 24, 61, 200):
            for pix in (10., 20., 30., 40.):
                yield dict(kind="profile", n=n, pix=pix)
        for dw, pix in itertools.product((0.4, 0.8, 1.6, 5.),
                                         (10., 20., 30., 40.)):
            yield dict(kind="kernel", dw=dw, pix=pix)
        depth = 4 if tier == "quick" else 6
        ops = ["sm16", "sm0", "sm4", "valid", "invalid", "nocont",
               "w", "wdef", "chi2"]
        for a, b in itertools.product(ops, repeat=2):
            yield dict(kind="seq", first=[a, b], ops=ops, depth=depth)
            # faint and bright units
            for unit in (1e-6, 1e6):
                yield dict(kind="seq", first=[a, b], ops=ops, depth=depth - 1,
                           unit=unit)

    def spec(self, ivar, ivar2=None, dw=DW):
        qmc.fresh()
        n = len(ivar)
        w = W0 + dw * np.arange(max(n, 2))
        iv = np.zeros(w.size)
        iv[:n] = ivar
        arms = {'B': (w, 1. + 0.1 * np.arange(w.size), iv,
                      np.zeros(w.size, int))}
        if ivar2 is not None:
            m = len(ivar2)
            arms['R'] = (W0 + 8. + DW * np.arange(m), 2. - 0.1 * np.arange(m),
                         ivar2, np.zeros(m, int))
        s = gen.make_spectrum(Spectrum, gen.catrow(5, 2.0), arms)
        s.set_forest_region(3000., 9000., 1000., 2000.)
        return s

    def run(self, case, ctx):
        getattr(self, "run_" + case["kind"])(case, ctx)

    def check_smooth(self, ctx, iv):
        if not np.any(iv > 0):
            return
        if iv.size < 2:
            iv = np.append(iv, 0.)
        for scale in self.SCALES:
            ctx.inner = dict(scale=scale, ivar=iv[:12])
            s = self.spec(iv)
            s.set_smooth_forestivar(scale)
            ctx.step()
            ctx.trace()
            ctx.same(s.forestivar['B'], iv, "stored inverse variance")
            for name in ("forestivar_sm", "forestweight"):
                sm = getattr(s, name)['B']
                ctx.require(sm.shape == iv.shape, f"{name} shape")
                ctx.require(np.all(np.isfinite(sm)), f"{name} not finite",
                            value=sm[:12])
                ctx.require(np.all((sm > 0) == (iv > 0)) and np.all(sm >= 0),
                            f"{name} must be zero exactly where ivar is",
                            value=sm[:12])
            sm = s.forestivar_sm['B'].copy()
            ctx.same(s.forestweight['B'], sm, "weight after smoothing")
            g = iv > 0
            if scale <= 0:
                ctx.same(sm, iv, "smoothing switched off")
            if len(set(iv[g])) == 1:
                ctx.same(sm, iv, "constant noise", rtol=1e-6)
            if scale >= 10 * DW:
                ctx.require(np.all(sm[g] >= iv[g].min() * (1 - 1e-3))
                            and np.all(sm[g] <= iv[g].max() * (1 + 1e-3)),
                            "smoothed noise outside the range of the noise",
                            value=sm[:12])
            r = self.spec(iv[::-1])
            r.set_smooth_forestivar(scale)
            ctx.same(r.forestivar_sm['B'][::-1], sm,
                     "smoothing depends on the direction", rtol=1e-6)
            for unit in (2.**-30, 2.**30):
                u = self.spec(iv * unit)
                u.set_smooth_forestivar(scale)
                ctx.same(u.forestivar_sm['B'] / unit, sm,
                         "smoothing depends on the unit of flux", rtol=1e-6,
                         atol=0.)
            if scale > 0:
                s.forestivar_sm['B'][:] = 77.
                ctx.same(s.forestivar['B'], iv, "smoothed and stored inverse "
                         "variance share memory")
            ctx.state("sm", iv, scale)

    def run_pattern(self, case, ctx):
        first = [self.VALS[k] for k in case["first"]]
        for rest in itertools.product(self.VALS,
                                      repeat=case["n"] - len(first)):
            self.check_smooth(ctx, np.array(first + list(rest)))

    def run_long(self, case, ctx):
        per = np.array([self.VALS[k] for k in case["per"]])
        iv = per[np.arange(case["n"]) % 3]
        self.check_smooth(ctx, iv)
        # a broad scale flattens a noise that changes pixel by pixel
        if tuple(case["per"]) == (1, 1, 1):
            iv = (1. + 0.1 * (np.arange(case["n"]) * 2 % 5))**-2.
            s = self.spec(iv)
            s.set_smooth_forestivar(16.)
            e = 1 / np.sqrt(s.forestivar_sm['B'][10:-10])
            ctx.require(np.ptp(e) < 0.2, "smoothing does not smooth",
                        spread=np.ptp(e))

    # errors of 1 with a median deviation of 0.1: the limit for outliers is
    # 3.5 x 1.4826 x 0.1 above the median, that is 1.519
    def noise(self, n=41):
        return 1. + 0.1 * np.array([0, 1, -1, 1, 0, -1, 1, -1])[
            np.arange(n) % 8]

    def smooth(self, e, scale, dw=DW, mask=()):
        iv = e**-2.
        iv[list(mask)] = 0.
        s = self.spec(iv, dw=dw)
        s.set_smooth_forestivar(scale)
        out = s.forestivar_sm['B']
        return np.where(iv > 0, 1 / np.sqrt(np.where(iv > 0, out, 1.)), 0.)

    def run_outlier(self, case, ctx):
        """noisy pixels keep their noise and do not spread it"""
        where = list(case["where"])
        rest = [i for i in range(41) if i not in where]
        for scale in (4., 16., 40.):
            e = self.noise()
            e[where] = 1.
            ref = self.smooth(e, scale)
            ctx.require(np.median(e) == 1., "harness")
            for val in itertools.product((1.55, 1.7, 10., 300.),
                                         repeat=len(where)):
                ctx.inner = (scale, val)
                b = e.copy()
                b[where] = val
                got = self.smooth(b, scale)
                ctx.same(got[where], val, "noise of an outlier", rtol=1e-9)
                ctx.same(got[rest], ref[rest], "noise next to an outlier",
                         rtol=1e-9)
                ctx.step()
                ctx.trace()
                ctx.state("outlier", where, scale, val)
            for val in itertools.product((1.3, 1.48), repeat=len(where)):
                ctx.inner = (scale, val)
                b = e.copy()
                b[where] = val
                got = self.smooth(b, scale)
                ctx.require(scale < 10 or bool(
                    np.all(got[where] < np.array(val) - 0.02)),
                            "a usual pixel is not smoothed", got=got[where])
                ctx.require(scale < 10 or bool(
                    np.all(got[rest] > ref[rest] - 1e-4)),
                    "noise of a usual pixel is not shared")
            # masked pixels are replaced by the median, too
            got = self.smooth(e, scale, mask=where)
            ctx.same(got[rest], ref[rest], "noise next to a masked pixel",
                     rtol=1e-9)
            ctx.step()
            ctx.trace()

    def run_profile(self, case, ctx):
        """every profile of low / middle / high levels in four quarters:
        the noise beyond an end is the noise at that end"""
        n, pix = case["n"], case["pix"]
        # width of the kernel, as run_kernel measures (and checks) it
        j = np.arange(401)
        base = 1. + 0.2 * (j % 2 * 2 - 1) + 0.05 * np.cos(0.7 * j)
        bump = base + 0.1 * (j == 200)
        sig2 = np.sum((self.smooth(bump, pix * DW) - self.smooth(
            base, pix * DW)) * (j - 200)**2) / 0.1
        i = np.arange(n)
        far = np.arange(-int(10 * pix), n + int(10 * pix))
        kern = np.exp(-(i[:, None] - far[None, :])**2 / 2. / sig2)
        kern /= kern.sum(axis=1)[:, None]
        for lev in itertools.product((0.75, 1., 1.25), repeat=4):
            for low in (None, 0, n // 2, n - 1, "odd", "half", "ends"):
                e = np.array(lev)[i * 4 // n] + 0.03 * (i % 2)
                med = np.median(e)
                mad = np.median(np.abs(e - med)) * 1.4826
                hide = {"odd": i % 3 != 1, "half": i >= n * 0.4, "ends":
                        np.minimum(i, n - 1 - i) < n / 3}.get(
                            low, np.zeros(n, bool))
                if isinstance(low, str):
                    if n < 24:
                        continue
                    # many masked pixels: they are not part of the sample
                    med = np.median(e[~hide])
                    mad = np.median(np.abs(e[~hide] - med)) * 1.4826
                elif low is not None:
                    # unusually low noise is smoothed like any other
                    e[low] = 0.1
                    med = np.median(e)
                    mad = np.median(np.abs(e - med)) * 1.4826
                lim = med + 3.5 * mad
                if np.min(np.abs(e[~hide] - lim)) < 1e-3:
                    continue
                bad = e > lim
                x = np.where(bad | hide, med, e)
                want = kern @ x[np.clip(far, 0, n - 1)]
                want[bad] = e[bad]
                ctx.inner = dict(lev=lev, low=low)
                got = self.smooth(e, pix * DW, mask=np.nonzero(hide)[0])
                want[hide] = got[hide]
                ctx.require(bool(np.all(np.abs(got - want) < 4e-3)),
                            "smoothed noise", got=got[:8], want=want[:8])
                ctx.step()
                ctx.trace()
                ctx.state("profile", n, pix, lev, low)

    def run_kernel(self, case, ctx):
        """symmetric, normalised, of a width in proportion to the scale and
        the same in pixels on every grid"""
        dw, pix = case["dw"], case["pix"]
        n = 401
        base = 1. + 0.2 * (np.arange(n) % 2 * 2 - 1) + 0.05 * np.cos(
            0.7 * np.arange(n))
        i = np.arange(n) - n // 2
        for amp in (0.1, 0.2, -0.2):
            ctx.inner = amp
            bump = base.copy()
            bump[n // 2] += amp
            k = []
            for f in (1., 2.):
                k.append((self.smooth(bump, f * pix * dw, dw)
                          - self.smooth(base, f * pix * dw, dw)) / amp)
                ctx.same(k[-1].sum(), 1., "noise is not conserved",
                         rtol=1e-6)
                ctx.require(pix < 10 or bool(np.all(k[-1] > -1e-3)),
                            "negative kernel")
                ctx.same(k[-1][::-1], k[-1], "kernel not symmetric",
                         atol=1e-9)
                ctx.require(int(np.argmax(k[-1])) == n // 2, "kernel peak")
                ctx.step()
            v = [np.sum(x * i**2) for x in k]
            if v[0] > 0.5:
                ctx.require(3.8 < v[1] / v[0] < 4.2, "width of the kernel is "
                            "not in proportion to the scale", width=v)
                # Gaussian
                ctx.same(k[0], np.exp(-i**2 / 2 / v[0]) / np.sqrt(
                    2 * np.pi * v[0]), "shape of the kernel", atol=5e-3)
            ref = (self.smooth(bump, pix * DW) - self.smooth(
                base, pix * DW)) / amp
            ctx.same(k[0], ref, "smoothing in pixels depends on the grid",
                     atol=1e-8)
            ctx.trace()
            ctx.state("kernel", dw, pix, amp)

    # ------------------------------------------------------------------
    IVB = np.array([1., 0., 4., 1., 0.5, 3., 0., 1.])
    IVR = np.array([0., 2., 2., 0.0025, 2.5])
    BRIGHT = np.array([0., 90., 0., -40., 0., 0., 0., 9.])

    def run_seq(self, case, ctx):
        self.u = u = case.get("unit", 1.)
        ref = {}
        for sc in (0., 4., 16.):
            # each arm on its own: smoothing one arm ignores the other
            out = {}
            for a, iv in (('B', self.IVB), ('R', self.IVR)):
                s = self.spec(iv * u)
                s.set_smooth_forestivar(sc)
                out[a] = s.forestivar_sm['B'].copy()
            ref[sc] = out
        for d in range(0, case["depth"] - 1):
            for rest in itertools.product(case["ops"], repeat=d):
                self.walk(ctx, list(case["first"]) + list(rest), ref)

    def walk(self, ctx, seq, ref):
        ctx.inner = seq
        s = self.spec(self.IVB * self.u, self.IVR * self.u)
        s.forestflux['B'] += self.BRIGHT
        flux = {a: v.copy() for a, v in s.forestflux.items()}
        cont = {a: 1.5 + 0.1 * np.arange(v.size) for a, v in flux.items()}
        scale, have, valid, formula = 0., False, False, None
        chi2 = None
        for op in seq:
            if op.startswith("sm"):
                scale = float(op[2:])
                s.set_smooth_forestivar(scale)
                formula = None
            elif op == "valid":
                s.cont_params['valid'] = valid = True
                s.cont_params['cont'] = {a: c.copy() for a, c in cont.items()}
                have = True
            elif op == "invalid":
                s.cont_params['valid'] = valid = False
            elif op == "nocont":
                s.cont_params['cont'] = {}
                have = False
            elif op in ("w", "wdef"):
                if op == "w":
                    s.set_forest_weight(lss_fn, eta_fn)
                else:
                    s.set_forest_weight()
                formula = None
                if valid and have:
                    formula = (lss_fn, eta_fn) if op == "w" else (
                        lambda w: 0., lambda w: 1.)
            else:
                chi2 = s.calc_continuum_chi2()
            ctx.step()
            want = {}
            for a, i in ref[scale].items():
                w = s.forestwave[a]
                want[a] = i
                if formula:
                    l, e = formula
                    want[a] = i / (e(w) + i * l(w) * cont[a]**2)
                ctx.same(s.forestivar_sm[a], i, f"smoothed ivar after {op}",
                         rtol=1e-9, atol=0.)
                ctx.same(s.forestweight[a], want[a], f"weight after {op}",
                         rtol=1e-9, atol=0.)
                ctx.same(s.forestivar[a], self.u * (
                    self.IVB if a == 'B' else self.IVR), "stored ivar")
                ctx.same(s.forestflux[a], flux[a], "flux")
            if op == "chi2":
                x = -1.
                if valid and have:
                    x = sum(np.sum(want[a] * (flux[a] - cont[a])**2)
                            for a in want)
                ctx.same(chi2, x, "chi-square")
                ctx.same(s.cont_params['chi2'], x, "stored chi-square")
            ctx.state("seq", scale, have, valid, op, formula is None)
        ctx.trace()


if __name__ == "__main__":
    qmc.main(Q11())
