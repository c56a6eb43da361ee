"""Q10: noise and flux calibrations rescale the data consistently."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import itertools

import qmc
import gen
import numpy as np
from scipy.interpolate import CubicSpline

W0, DT = 3600., 4.          # calibration grid
WAVES = {'B': 3597.5 + 1.25 * np.arange(12), 'R': 3609. + 1.25 * np.arange(9)}


def lin(x, y):
    xp = W0 + DT * np.arange(len(y))
    k = np.clip(((x - W0) // DT).astype(int), 0, len(y) - 2)
    return y[k] + (x - xp[k]) / DT * (y[k + 1] - y[k])


def cub(x, y):
    return CubicSpline(W0 + DT * np.arange(len(y)), y)(x)


def contfn(w, k):
    return 1.5 + 0.5 * k + 0.01 * (w - W0)


class Q10(qmc.Check):
    pid = "Q10"
    bounds = {
        "quick": "every table of 2-5 entries of a 3-7 value alphabet "
                 "including missing entries, on two arms of five spectra, "
                 "wavelengths inside and outside the table, 3 mask patterns, "
                 "eta/additive/no-eta options; every position of an uneven "
                 "spacing in tables of 3-6, 14 and 40; every sequence of <=3 of flux, "
                 "noise, additive calibration and sky masking; "
                 "tables of 7-130 entries with 5 patterns of missing ones on "
                 "12 spectra of up to 3300 pixels",
        "thorough": "tables up to 6 entries, sequences of 4"}
    assumptions = ["pixels where the interpolated factor is within 1e-6 of "
                   "zero are not compared"]

    def setup(self):
        global Spectrum, cal, masks
        from qsonic.spectrum import Spectrum
        import qsonic.calibration as cal
        import qsonic.masks as masks
        qmc.snapshot(Spectrum)

    ETA = [0., 0.7, 1., 1.6, 0.3, -0.4]
    FLX = [0., 0.8, 1., 1.3, 2., 0.3, -0.6]

    def cases(self, tier):
        top = 5 if tier == "quick" else 6
        for n in range(2, top + 1):
            fx = self.FLX[:{2: 7, 3: 7, 4: 5}.get(n, 3)]
            et = self.ETA[:{2: 6, 3: 6, 4: 4}.get(n, 3)]
            for f in itertools.product(range(len(fx)), repeat=min(n, 2)):
                yield dict(kind="flux", n=n, first=f, alpha=fx)
            for f in itertools.product(range(len(et)), repeat=min(n, 2)):
                yield dict(kind="noise", n=n, first=f, alpha=et)
        for what in ("flux", "noise"):
            for n in (3, 4, 5, 6, 14, 40):
                yield dict(kind="uneven", what=what, n=n)
        yield dict(kind="nocont")
        for n in (7, 12, 31, 64, 130):
            for dt in (4.9, 20.3):
                for holes in range(5):
                    yield dict(kind="long", n=n, dt=dt, holes=holes)
        for n in range(1, 4 if tier == "quick" else 5):
            for seq in itertools.product("FNAS", repeat=n):
                if seq.count("A") <= 1:
                    yield dict(kind="seq", seq="".join(seq))

    def run(self, case, ctx):
        getattr(self, "run_" + case["kind"])(case, ctx)

    MASKS = [lambda n, o: np.zeros(n, int), lambda n, o: np.arange(n) % 2,
             lambda n, o: (np.arange(n) >= 2 + o).astype(int)]

    # 0-1 all pixels; 2-4 six pixels each, at different wavelengths and arms
    B, R = WAVES['B'] - 0.1, WAVES['R'] - 0.1
    WIN = [(3000., 4000.)] * 2 + [(B[2], B[8]), (B[4], B[10]), (R[3], 4000.)]
    OFF = [0, 0, 2, 4, 3]

    def specs(self, mk, cont=True):
        qmc.fresh()
        out = []
        for k in range(5):
            arms = {}
            for a, w in WAVES.items():
                j = np.arange(w.size)
                arms[a] = (w, 1. + k + 0.1 * j - 2. * (j == 4),
                           2. + k + 0.25 * (j % 5), self.MASKS[mk](w.size, self.OFF[k]))
            s = gen.make_spectrum(Spectrum, gen.catrow(5 + k, 2.0), arms)
            s.set_forest_region(*self.WIN[k], 1000., 1300.)
            if cont:
                s.cont_params['valid'] = True
                s.cont_params['cont'] = {
                    a: contfn(w, k) for a, w in s.forestwave.items()}
            out.append(s)
        return out

    def smooth(self, specs):
        for s in specs:
            s.set_smooth_forestivar(3.)
            s.set_forest_weight()
        return specs

    def grab(self, specs):
        return [({a: v.copy() for a, v in s.forestflux.items()},
                 {a: v.copy() for a, v in s.forestivar.items()},
                 {a: v.copy() for a, v in s.forestwave.items()})
                for s in specs]

    def write(self, ctx, what, wave, y, y2=None, name=None):
        fn = os.path.join(ctx.tmp, (name or what) + ".fits")
        if what == "flux":
            gen.write_table(fn, gen.rec({
                'lambda': wave, 'stacked_flux': np.asarray(y, 'f8')}),
                'STACKED_FLUX')
        else:
            gen.write_table(fn, gen.rec({
                'lambda': wave, 'var_lss': np.asarray(y2, 'f8'),
                'e_var_lss': np.zeros(len(y)), 'eta': np.asarray(y, 'f8'),
                'e_eta': np.zeros(len(y))}), 'VAR_FUNC')
        return fn

    def compare(self, ctx, before, specs, fn):
        """fn(k, wave, flux, ivar) -> want flux, ivar, care"""
        for k, (s, (f0, i0, w0)) in enumerate(zip(specs, before)):
            ctx.require(list(s.forestflux) == list(f0), "arms changed")
            for a in f0:
                ctx.same(s.forestwave[a], w0[a], "wavelengths changed")
                wf, wi, care = fn(k, w0[a], f0[a], i0[a])
                f1, i1 = s.forestflux[a], s.forestivar[a]
                ctx.same(f1[care], wf[care], f"flux spectrum {k} arm {a}",
                         rtol=1e-7)
                ctx.same(i1[care], wi[care], f"ivar spectrum {k} arm {a}",
                         rtol=1e-7)
                ctx.require(np.all(i1[care] >= 0)
                            and np.all(np.isfinite(i1[care]))
                            and np.all(np.isfinite(f1[care])),
                            "negative or undefined values")
                ctx.require(np.all(i1[i0[a] == 0] == 0)
                            and np.all(f1[(i0[a] == 0) & care] == 0),
                            "a masked pixel came back")

    def run_flux(self, case, ctx):
        n = case["n"]
        for rest in itertools.product(case["alpha"], repeat=n - 2):
            y = np.array([case["alpha"][i] for i in case["first"]]
                         + list(rest))
            ctx.inner = y
            fn = self.write(ctx, "flux", W0 + DT * np.arange(n), y)
            eff = np.where(y == 0, 1., y)
            c = cal.FluxCalibrator(fn)
            for mk in range(3):
                sp = self.specs(mk)
                b = self.grab(sp)
                c.apply(sp)

                def want(k, w, f, i):
                    s = lin(w, eff)
                    return f / s, i * s**2, np.abs(s) > 1e-6
                self.compare(ctx, b, sp, want)
                ctx.step()
                ctx.trace()
            ctx.state("flux", y)

    def run_noise(self, case, ctx):
        n = case["n"]
        lss = 0.05 + 0.02 * np.arange(n)
        for rest in itertools.product(case["alpha"], repeat=n - 2):
            y = np.array([case["alpha"][i] for i in case["first"]]
                         + list(rest))
            ctx.inner = y
            fn = self.write(ctx, "noise", W0 + DT * np.arange(n), y, lss)
            eff = np.where(y == 0, 1., y)
            mk = int(y.sum() * 10) % 3
            for add, noeta in itertools.product((0, 1), repeat=2):
                qmc.poison_uninitialised()
                try:
                    c = cal.NoiseCalibrator(
                        fn, add_varlss=bool(add), no_eta=bool(noeta))
                finally:
                    qmc.unpoison()
                sp = self.specs(mk, cont=bool(add))
                b = self.grab(sp)
                c.apply(sp)

                def want(k, w, f, i):
                    den = np.ones(w.size) if noeta else cub(w, eff)
                    if add:
                        den = den + i * cub(w, lss) * contfn(w, k)**2
                    v = i / den
                    v[v < 0] = 0
                    return f, v, np.abs(den) > 1e-6
                ctx.inner = dict(y=y, add=add, noeta=noeta)
                self.compare(ctx, b, sp, want)
                # the noise of the pixels is calibrated, smoothed or not
                sp = self.smooth(self.specs(mk, cont=bool(add)))
                c.apply(sp)
                ctx.inner = dict(y=y, add=add, noeta=noeta, smoothed=1)
                self.compare(ctx, b, sp, want)
                ctx.trace()
                ctx.step()
                ctx.trace()
            ctx.state("noise", y)

    HOLES = [lambda j: j < 0, lambda j: j % 9 == 4, lambda j: j < 3,
             lambda j: j > j[-1] - 3, lambda j: (j // 4) % 2 == 1]

    def run_long(self, case, ctx):
        """tables and spectra of survey size"""
        n, dt = case["n"], case["dt"]
        g = 3590.7 + dt * np.arange(n)
        j = np.arange(n)
        hole = self.HOLES[case["holes"]](j)
        flx = np.where(hole, 0., 1. + 0.3 * np.sin(0.7 * j) + 0.1 * (j % 2))
        eta = np.where(hole, 0., 1.1 + 0.2 * np.cos(0.5 * j))
        lss = 0.1 + 0.05 * np.sin(0.3 * j)
        ef, ee = np.where(hole, 1., flx), np.where(hole, 1., eta)

        def linear(x):
            k = np.clip(((x - g[0]) // dt).astype(int), 0, n - 2)
            return ef[k] + (x - g[k]) / dt * (ef[k + 1] - ef[k])
        cube = CubicSpline(g, ee), CubicSpline(g, lss)
        ff = self.write(ctx, "flux", g, flx)
        fv = self.write(ctx, "noise", g, eta, lss)
        end = g[-1] + 2 * dt
        todo = [("F", cal.FluxCalibrator(ff)), ("N", cal.NoiseCalibrator(fv)),
                ("A", cal.NoiseCalibrator(fv, add_varlss=True, no_eta=True)),
                ("NA", cal.NoiseCalibrator(fv, add_varlss=True))]
        for dw, (name, c) in itertools.product((0.8, 2.4), todo):
            ctx.inner = (name, dw)
            qmc.fresh()
            sp = []
            m = int((end - 3580.) / dw) + 1
            for k in range(12):
                arms = {}
                for a, lo, hi in (('B', 0, 2 * m // 3), ('R', m // 2, m)):
                    i = np.arange(lo, hi)
                    arms[a] = (3580. + dw * i, 2. + k + np.sin(0.01 * i),
                               1. + 0.5 * k + 0.5 * (i % 7),
                               ((i + k) % 17 < k % 4).astype(int))
                s = gen.make_spectrum(Spectrum, gen.catrow(5 + k, 2.), arms)
                s.set_forest_region(3570. + 0.3 * k * dt, end + 9. - k * dt / 9,
                                    500., 3000.)
                s.cont_params['valid'] = True
                s.cont_params['cont'] = {
                    a: 2. + 0.1 * k + np.cos(w / 50.)
                    for a, w in s.forestwave.items()}
                sp.append(s)
            b = self.grab(sp)
            c.apply(sp)

            def want(k, w, f, i):
                if name == "F":
                    s = linear(w)
                    return f / s, i * s**2, np.abs(s) > 1e-3
                den = cube[0](w) if "N" in name else np.ones(w.size)
                if "A" in name:
                    cont = 2. + 0.1 * k + np.cos(w / 50.)
                    den = den + i * cube[1](w) * cont**2
                v = i / np.where(den == 0, 1., den)
                v[v < 0] = 0
                return f, v, np.abs(den) > 1e-3
            self.compare(ctx, b, sp, want)
            ctx.step()
            ctx.trace()
            ctx.state("long", case, name, dw)

    def run_uneven(self, case, ctx):
        n = case["n"]
        for pos in range(n - 1):
            # one gap, or two that leave the length as it is
            for d, other in itertools.product((-1., 0.05, 2.), range(-1, pos)):
                gaps = np.full(n - 1, DT)
                gaps[pos] += d
                if other >= 0:
                    gaps[other] -= d
                w = W0 + np.concatenate(([0.], np.cumsum(gaps)))
                fn = self.write(ctx, case["what"], w, np.ones(n), np.zeros(n))
                ctx.inner = w
                mk = cal.FluxCalibrator if case["what"] == "flux" \
                    else cal.NoiseCalibrator
                ctx.raises(lambda: mk(fn), "uneven calibration table")
                ctx.step()
                ctx.trace()
                ctx.state("uneven", case["what"], w)
        w = W0 + DT * np.arange(n)
        mk(self.write(ctx, case["what"], w, np.ones(n), np.zeros(n)))

    def run_nocont(self, case, ctx):
        fn = self.write(ctx, "noise", W0 + DT * np.arange(5), np.ones(5),
                        np.full(5, 0.1))
        c = cal.NoiseCalibrator(fn, add_varlss=True)
        for which in itertools.product((0, 1), repeat=2):
            sp = self.specs(0)
            for k, s in zip(which, sp[1:4:2]):
                if k:
                    s.cont_params['cont'] = {}
            if any(which):
                ctx.raises(lambda: c.apply(sp),
                           "additive noise without continuum")
            else:
                c.apply(sp)
            ctx.step()
            ctx.trace()
            ctx.state("nocont", which)

    def run_seq(self, case, ctx):
        n = 6
        g = W0 + DT * np.arange(n)
        eta = np.array([1.1, 0.9, 1.3, 0., 1.2, 0.8])
        sf = np.array([0.9, 1.1, 0., 1.2, 0.95, 1.05])
        lss = np.array([0.1, 0.2, 0.15, 0.1, 0.05, 0.1])
        ef, ee = np.where(sf == 0, 1, sf), np.where(eta == 0, 1, eta)
        F = cal.FluxCalibrator(self.write(ctx, "flux", g, sf))
        nfn = self.write(ctx, "noise", g, eta, lss)
        N = cal.NoiseCalibrator(nfn)
        A = cal.NoiseCalibrator(nfn, add_varlss=True, no_eta=True)
        sky = os.path.join(ctx.tmp, "sky.txt")
        with open(sky, "w") as f:
            f.write("l1 3601.0 3604.0 OBS\nl2 1205.0 1207.0 RF\n")
        S = masks.SkyMask(sky)
        for mk in range(3):
            sp = self.specs(mk)
            b = self.grab(sp)
            for op in case["seq"]:
                if op == "F":
                    F.apply(sp)
                elif op == "N":
                    N.apply(sp)
                elif op == "A":
                    A.apply(sp)
                else:
                    for s in sp:
                        S.apply(s)
                ctx.step()

            def want(k, w, f, i):
                f, i = f.copy(), i.copy()
                for op in case["seq"]:
                    if op == "F":
                        f, i = f / lin(w, ef), i * lin(w, ef)**2
                    elif op == "N":
                        i = i / cub(w, ee)
                    elif op == "A":
                        i = i / (1 + i * cub(w, lss) * contfn(w, k)**2)
                    i[i < 0] = 0
                # masking commutes with all of them: apply it last
                if "S" in case["seq"]:
                    bad = ((w >= 3601) & (w < 3604)) | (
                        (w / 3 >= 1205) & (w / 3 < 1207))
                    f[bad], i[bad] = 0, 0
                return f, i, np.ones(w.size, bool)
            self.compare(ctx, b, sp, want)
            ctx.trace()
            ctx.state("seq", case["seq"], mk)


if __name__ == "__main__":
    qmc.main(Q10())
