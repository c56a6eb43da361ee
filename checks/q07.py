"""Q07: bad pixels are nulled and the forest window is exact on ingestion."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import itertools

import qmc
import gen
import numpy as np

# pixel kinds: (flux, ivar, mask) transformations
KINDS = "gfFniNzZb0"
# keep their values (z: ivar 0, Z: negative flux, 0: flux exactly zero)
GOOD = "gzZ0"


def pixel(kind, k):
    f, i, m = 2. + k, 4. + k, 0
    if kind == 'f':
        m = 1
    elif kind == 'F':
        m = -2**31
    elif kind == 'n':
        f = np.nan
    elif kind == 'i':
        i = np.nan
    elif kind == 'N':
        i = -3.
    elif kind == 'z':
        i = 0.
    elif kind == 'Z':
        f = -5. - k
    elif kind == '0':
        f = 0.
    elif kind == 'b':
        f, i, m = np.nan, -1., 8
    return f, i, m


def reference(pat, off=0):
    f = np.zeros(len(pat))
    i = np.zeros(len(pat))
    for k, c in enumerate(pat):
        if c in GOOD:
            f[k], i[k], _ = pixel(c, k + off)
    return f, i


class Q07(qmc.Check):
    pid = "Q07"
    bounds = {
        "quick": "sanitation: every pattern of 10 pixel kinds on 1-3 pixels "
                 "x arms x 32/64-bit input; windows: every lower/upper "
                 "observed and rest-frame edge on a half-pixel lattice (also "
                 "5e-5 A off it) over "
                 "two overlapping arms of 5+4 pixels, 2 redshifts, every mask "
                 "pattern of the selected arm for single windows; "
                 "a window set anew after smoothing; arms of survey size x 5 redshifts x 16 windows; "
                 "red-side S/N: every line position x mask pattern",
        "thorough": "sanitation on 4 pixels; windows with every combination "
                    "of four edges and mask families"}
    assumptions = ["inputs are the arrays the readers hand over: evenly "
                   "spaced increasing wavelengths, infinities excluded"]

    def setup(self):
        global Spectrum, generate
        from qsonic.spectrum import Spectrum
        from qsonic.spectrum import generate_spectra_list_from_data
        generate = generate_spectra_list_from_data
        qmc.snapshot(Spectrum)

    def cases(self, tier):
        for n in (2, 3) if tier == "quick" else (2, 3, 4):
            for first in KINDS:
                for dt in ('f8', 'f4'):
                    yield dict(kind="clean", n=n, first=first, dt=dt)
        for z in (1.0, 3.0):
            for fam in range(3 if tier == "quick" else 6):
                for a in range(-2, 16):
                    for eps in (0, 1, -1) if fam < 2 else (0, ):
                        yield dict(kind="window", z=z, fam=fam, a=a,
                                   eps=5e-5 * eps)
        for z in (1.1234, 2.0567, 2.9871, 3.6431, 5.2123):
            for fam in range(4):
                yield dict(kind="desi", z=z, fam=fam)
        for z in (1.0, 2.37):
            for pos in range(-2, 7):
                yield dict(kind="rsnr", z=z, pos=pos)
        for n in (1, 2, 3):
            for reso in (0, 2, 3):
                for whole in (0, 1):
                    yield dict(kind="alias", n=n, reso=reso, whole=whole)
        for n in (3, 4, 5):
            for w in range(2 ** n):
                yield dict(kind="snr", n=n, mask=w)

    # ------------------------------------------------------------------
    def build(self, pats, dt='f8', z=1.0, waves=None, offs=None, idx=0,
              nspec=1, reso=None):
        """pats: arm -> list of patterns (one per spectrum)"""
        wave, flux, ivar, mask = {}, {}, {}, {}
        for a, plist in pats.items():
            n = len(plist[0])
            wave[a] = waves[a] if waves else 3600. + np.arange(n)
            fl, iv, ms = [], [], []
            for p in plist:
                t = [pixel(c, k + (offs or {}).get(a, 0))
                     for k, c in enumerate(p)]
                fl.append([x[0] for x in t])
                iv.append([x[1] for x in t])
                ms.append([x[2] for x in t])
            flux[a] = np.array(fl, dtype=dt)
            ivar[a] = np.array(iv, dtype=dt)
            mask[a] = np.array(ms, dtype='i4')
        return wave, flux, ivar, mask

    def run(self, case, ctx):
        getattr(self, "run_" + case["kind"])(case, ctx)

    def run_clean(self, case, ctx):
        n = case["n"]
        for rest in itertools.product(KINDS, repeat=n - 1):
            pat = case["first"] + "".join(rest)
            rev = pat[::-1]
            qmc.fresh()
            ctx.inner = pat
            pats = {'B': [pat, rev], 'R': [rev, pat]}
            arrs = self.build(pats, case["dt"])
            keep = [{a: v.copy() for a, v in d.items()} for d in arrs]
            data = dict(wave=arrs[0], flux=arrs[1], ivar=arrs[2],
                        mask=arrs[3], reso={})
            rows = np.array([gen.catrow(11, 1.0), gen.catrow(12, 1.0)])
            specs = generate(rows, data)
            ctx.require(len(specs) == 2, "number of spectra")
            for j, s in enumerate(specs):
                ctx.require(sorted(s.flux) == ['B', 'R'] == sorted(s.ivar),
                            "arms of the spectrum")
                for a in 'BR':
                    f, i = reference(pats[a][j])
                    ctx.same(s.flux[a], f, f"flux of spectrum {j} arm {a}")
                    ctx.same(s.ivar[a], i, f"ivar of spectrum {j} arm {a}")
                ctx.require(s.targetid == 11 + j, "target id")
            for d, k in zip(arrs, keep):
                for a in d:
                    ctx.require(d[a].tobytes() == k[a].tobytes(),
                                "input array changed by building a spectrum")
            ctx.step(2)
            ctx.trace()
            ctx.state("clean", pat)

    # ------------------------------------------------------------------
    WB = 3600. + np.arange(5.)      # 3600..3604
    WR = 3603. + np.arange(4.)      # 3603..3606

    def run_window(self, case, ctx):
        """Edges on the half-pixel lattice 3599 + a/2."""
        z, fam = case["z"], case["fam"]
        lat = [3599. + k / 2. + case["eps"] for k in range(-2, 20)]
        lo = 3599. + case["a"] / 2. + case["eps"]
        pats = [('ggggg', 'gggg'), ('gfgng', 'fggg'), ('zfNgg', 'ffff'),
                ('fffff', 'gZZg'), ('zzzzz', 'iiii'), ('ffffg', 'gfff')][fam]
        for hi in lat:
            if hi <= lo:
                continue
            # the limits are imposed by: 0 observed, 1 rest frame,
            # 2 lower observed / upper rest, 3 the other way, 4 both
            for how in range(5):
                o1, o2, r1, r2 = 1000., 9000., 1000., 9000.
                if how in (0, 2, 4):
                    o1 = lo
                if how in (0, 3, 4):
                    o2 = hi
                if how in (1, 3, 4):
                    r1 = lo
                if how in (1, 2, 4):
                    r2 = hi
                if how == 4:
                    o1, r2 = lo - 0.5, hi + 0.5
                self.one_window(ctx, z, pats, o1, o2, r1, r2,
                                max(o1, r1), min(o2, r2), lo, hi, how)
                if how == 0 and hi - lo > 2:
                    self.one_window(ctx, z, pats, o1, o2, r1, r2,
                                    max(o1, r1), min(o2, r2), lo, hi, how,
                                    again=0.7)

    def run_desi(self, case, ctx):
        """the arms of the survey, usual and unusual windows"""
        z, fam = case["z"], case["fam"]
        n = {'B': 2751, 'R': 2326, 'Z': 2881}
        waves = {'B': 3600. + 0.8 * np.arange(2751),
                 'R': 5760. + 0.8 * np.arange(2326),
                 'Z': 7520. + 0.8 * np.arange(2881)}
        P = {}
        for a, m in n.items():
            P[a] = ["".join(
                "ggfgZgng0iNg"[(i * (1 + fam) + (i // 97)) % 12]
                if fam and (i // 300) % 4 != fam - 1 else "gf"[fam == 3]
                for i in range(m))]
        for o1, o2 in ((3600.1, 9824.5), (3750.3, 6000.1), (5500.7, 5790.3),
                       (7000.9, 8123.3)):
            for f1, f2 in ((1040., 1205.), (900., 1300.), (1200., 2000.),
                           (1100., 1101.7)):
                r1, r2 = f1 * (1 + z), f2 * (1 + z)
                self.one_window(ctx, z, P, o1, o2, r1, r2, max(o1, r1),
                                min(o2, r2), o1, f1, fam, waves)

    def one_window(self, ctx, z, pats, o1, o2, r1, r2, l1, l2, lo, hi, how,
                   waves=None, again=0):
        qmc.fresh()
        ctx.inner = dict(lo=lo, hi=hi, how=how)
        if waves is None:
            waves = {'B': self.WB.copy(), 'R': self.WR.copy()}
            P = {'B': [pats[0]], 'R': [pats[1]]}
        else:
            P = pats
        arrs = self.build(P, waves=waves, offs={'R': 10})
        reso = {a: 100. * k + np.arange(3. * w.size).reshape(1, 3, w.size)
                for k, (a, w) in enumerate(waves.items())}
        s = Spectrum(gen.catrow(7, z), *arrs, reso, 0)
        if again:
            # the region can be set anew (here it is extended)
            c = (l1 + l2) / 2
            s.set_forest_region(c - again, c + again, 500., 9000.)
            s.set_smooth_forestivar(2.)
            s.set_forest_weight()
        s.set_forest_region(o1, o2, r1 / (1 + z), r2 / (1 + z))
        ctx.step(2)
        ctx.trace()
        for strip in (0, 1):
            for a, w in waves.items():
                f, i = reference(P[a][0], 10 if a == 'R' else 0)
                sel = (w >= l1) & (w < l2)
                if not np.any(i[sel] > 0):
                    for d in (s.forestwave, s.forestflux, s.forestivar,
                              s.forestreso, s.mean_snr):
                        ctx.require(a not in d,
                                    f"arm {a} has no good forest pixel but "
                                    "is present")
                    continue
                ctx.require(a in s.forestwave, f"arm {a} is missing")
                ctx.same(s.forestwave[a], w[sel], f"forest wavelengths {a}")
                ctx.same(s.forestflux[a], f[sel], f"forest flux {a}")
                ctx.same(s.forestivar[a], i[sel], f"forest ivar {a}")
                ctx.same(s.forestweight[a], i[sel], f"initial weight {a}")
                ctx.same(s.forestreso[a], reso[a][0][:, sel],
                         f"forest resolution {a}")
                ngood = np.sum(i[sel] > 0)
                ctx.same(s.mean_snr[a],
                         np.sum(f[sel] * np.sqrt(i[sel])) / ngood,
                         f"mean S/N {a}")
            n = sum(int(np.sum(v > 0)) for v in s.forestivar.values())
            ctx.require(s.get_real_size() == n, "usable pixel count")
            if strip == 0:
                s.remove_nonforest_pixels()
        ctx.state("win", len(P) if len(P) > 2 else pats, how, l1, l2, z)

    def run_rsnr(self, case, ctx):
        """Lyman-alpha emission at every half-pixel position."""
        z, pos = case["z"], case["pos"]
        lya = (1 + z) * 1215.67
        for nb in range(9):
            # first pixel such that lya lies at lattice position pos
            start = lya - (pos + 0.5 if nb % 2 else pos + 0.25)
            wave = {'B': start + np.arange(4.),
                    'R': start + 2. + np.arange(3.)}
            for pb in itertools.product("gfZz", repeat=4):
                for pr in ("ggg", "ffg", "fff"):
                    if nb > 1 and pr != "ggg":
                        continue
                    qmc.fresh()
                    ctx.inner = dict(nb=nb, pb=pb, pr=pr)
                    P = {'B': ["".join(pb)], 'R': [pr]}
                    a = self.build(P, waves=wave)
                    s = Spectrum(gen.catrow(7, z), *a, {}, 0)
                    num, den = 0., 0
                    for arm, w in wave.items():
                        f, i = reference(P[arm][0])
                        red = w >= lya
                        num += np.sum(f[red] * np.sqrt(i[red]))
                        den += np.sum(i[red] > 0)
                    want = num / den if den else 0.
                    ctx.same(s.rsnr, want, "red-side S/N", rtol=1e-5,
                             atol=1e-9)
                    ctx.step()
                    ctx.trace()
                    ctx.state("rsnr", pos, pb, pr)
            if nb >= 1:
                break

    def run_alias(self, case, ctx):
        """Editing spectrum i changes neither the inputs nor spectrum j."""
        n = case["n"]
        waves = {'B': self.WB.copy(), 'R': self.WR.copy()}

        def make():
            qmc.fresh()
            P = {'B': ['ggfgg'] * n, 'R': ['gggg'] * n}
            arrs = self.build(P, waves=waves)
            if case["reso"] == 0:
                reso = {}
            elif case["reso"] == 2:
                reso = {a: np.arange(3. * w.size).reshape(3, -1)
                        for a, w in waves.items()}
            else:
                reso = {a: np.arange(n * 3. * w.size).reshape(n, 3, -1)
                        for a, w in waves.items()}
            data = dict(wave=arrs[0], flux=arrs[1], ivar=arrs[2],
                        mask=arrs[3], reso=reso)
            rows = np.array([gen.catrow(7 + k, 1.0) for k in range(n)])
            specs = generate(rows, data)
            for s in specs:
                if case["whole"]:
                    s.set_forest_region(3000., 9000., 1000., 9000.)
                else:
                    s.set_forest_region(3601., 3606., 1000., 3000.)
            return data, specs

        def view(data, specs, skip):
            out = [{k: {a: v.copy() for a, v in d.items()}
                    for k, d in data.items()}]
            for j, s in enumerate(specs):
                if j == skip:
                    continue
                out.append({k: {a: v.copy() for a, v in getattr(s, k).items()}
                            for k in ('wave', 'flux', 'ivar', 'reso',
                                      'forestwave', 'forestflux',
                                      'forestivar', 'forestivar_sm',
                                      'forestweight', 'forestreso')})
            return out

        names = ['flux', 'ivar', 'reso', 'forestwave', 'forestflux',
                 'forestivar', 'forestreso', 'cont_params']
        edits = list(itertools.permutations(names, 2))
        for j in range(n):
            for two in edits:
                data, specs = make()
                before = view(data, specs, j)
                for name in two:
                    ctx.inner = dict(j=j, edit=two)
                    if name == 'cont_params':
                        specs[j].cont_params['x'] *= 3
                        specs[j].cont_params['cont']['B'] = np.ones(2)
                        for k in range(n):
                            if k != j:
                                ctx.require(
                                    not specs[k].cont_params['cont'],
                                    "continuum of another spectrum changed")
                    else:
                        for a, v in getattr(specs[j], name).items():
                            v *= 2
                            v -= 1
                    ctx.step()
                after = view(data, specs, j)
                ctx.require(qmc.canon(before) == qmc.canon(after),
                            "editing one spectrum changed the input or "
                            "another spectrum")
                ctx.trace()
                ctx.state("alias", n, case["reso"], j, two)

    def run_snr(self, case, ctx):
        """Effective S/N over arms from the per-arm definition."""
        n, m = case["n"], case["mask"]
        pb = "".join("f" if m >> k & 1 else "g" for k in range(n))
        for pr in itertools.product("gfZ", repeat=3):
            qmc.fresh()
            ctx.inner = pr
            P = {'B': [pb], 'R': ["".join(pr)]}
            waves = {'B': 3600. + np.arange(n), 'R': 3600. + np.arange(3.)}
            a = self.build(P, waves=waves)
            s = Spectrum(gen.catrow(7, 1.0), *a, {}, 0)
            s.set_forest_region(3000., 4000., 1000., 3000.)
            num, den = 0., 0.
            for arm in 'BR':
                f, i = reference(P[arm][0])
                if np.any(i > 0):
                    v = np.sum(f * np.sqrt(i)) / np.sum(i > 0)
                    num += v**3
                    den += v**2
            ctx.same(s.get_effective_meansnr(), num / den if den else 0.,
                     "effective S/N", rtol=1e-6)
            ctx.step(2)
            ctx.trace()
            ctx.state("snr", pb, pr)


if __name__ == "__main__":
    qmc.main(Q07())
