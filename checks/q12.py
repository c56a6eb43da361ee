"""Q12: any processing history keeps a spectrum consistent."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import itertools

import qmc
import gen
import numpy as np

DW = 0.8
W0 = 3600.
Z = 2.0


def gfn(w):
    g = 2. + 0.05 * (w - W0) + 0.3 * np.sin(w)
    # a usable pixel with no flux and one with negative flux
    k = np.round((w - W0) / DW).astype(int)
    return np.where(k == 4, 0., np.where(k == 11, -g, g))


def contfn(w):
    return 1.7 + 0.03 * (w - W0)


def sfn(w):
    return 1.1 + 0.004 * (w - W0)


def etafn(w):
    return 0.9 + 0.003 * (w - W0)


def lssfn(w):
    return 0.2 + 0.002 * (w - W0)


# (start, length, bad pixels) per arm
LAYOUTS = [
    {'B': (0, 9, (3,)), 'R': (7, 8, (0, 5))},            # overlap
    {'B': (0, 7, ()), 'R': (10, 6, (2,))},               # gap
    {'B': (0, 8, (1, 2)), 'R': (6, 6, ()), 'Z': (14, 5, (1,))},
    {'B': (0, 8, tuple(range(8))), 'R': (6, 9, (4,))},   # B all bad
    {'B': (0, 9, (0, 8))},
]

PRE = ["sky", "dla", "fcal", "ncal", "coadd", "dropB", "short0.3",
       "short0.6", "strip"]
POST = ["cont", "weight", "chi2", "coadd", "dropR", "short0.4", "slice",
        "slicelo", "slicehi", "sm16", "sm0", "addnoise"]


class Q12(qmc.Check):
    pid = "Q12"
    bounds = {
        "quick": "5 arm layouts (overlap, gap, three arms, bad arm, single) x "
                 "{arm-wise, full coadd} x all sequences of <=2 (<=1 for the full coadd) of 9 "
                 "pre-smoothing operations x {smoothing 16, off} x all "
                 "sequences of <=2 (<=3 without pre-operations) of 12 later "
                 "operations; consistency is evaluated after every step, a second spectrum is watched",
        "thorough": "later operations up to depth 3 (4 without pre-operations)"}
    assumptions = ["noise is (re)smoothed after masking and calibration, as "
                   "documented"]

    def setup(self):
        global Spectrum, cal, masks
        from qsonic.spectrum import Spectrum
        import qsonic.calibration as cal
        import qsonic.masks as masks
        qmc.snapshot(Spectrum)

    def cases(self, tier):
        depth = 3 if tier == "quick" else 4
        for lay in range(len(LAYOUTS)):
            for full in (0, 1):
                for n in range(0, 2 if full and tier == "quick" else 3):
                    for pre in itertools.product(PRE, repeat=n):
                        if pre.count("fcal") > 1 or pre.count("dla") > 1:
                            continue
                        yield dict(lay=lay, full=full, pre=pre,
                                   depth=depth if n == 0 else depth - 1)

    # ------------------------------------------------------------------
    def files(self, ctx):
        if hasattr(self, "_pid") and self._pid == os.getpid():
            return
        self._pid = os.getpid()
        d = os.path.join(os.path.dirname(ctx.tmp), "fixed")
        os.makedirs(d, exist_ok=True)
        g = W0 - 40. + 20. * np.arange(8)
        fn = os.path.join(d, "f.fits")
        gen.write_table(fn, gen.rec({'lambda': g, 'stacked_flux': sfn(g)}),
                        'STACKED_FLUX')
        self.F = cal.FluxCalibrator(fn)
        fn = os.path.join(d, "n.fits")
        gen.write_table(fn, gen.rec({'lambda': g, 'var_lss': lssfn(g),
                                     'eta': etafn(g)}), 'VAR_FUNC')
        self.N = cal.NoiseCalibrator(fn)
        self.A = cal.NoiseCalibrator(fn, add_varlss=True, no_eta=True)
        fn = os.path.join(d, "s.txt")
        with open(fn, "w") as f:
            f.write(f"a {W0 + 2.3} {W0 + 4.1} OBS\n"
                    f"b {(W0 + 8.5) / 3} {(W0 + 9.9) / 3} RF\n")
        self.S = masks.SkyMask(fn)
        fn = os.path.join(d, "d.fits")
        gen.write_table(fn, gen.rec({
            'TARGETID': np.array([5]),
            'Z_DLA': np.array([(W0 - 5.) / 1215.67 - 1]),
            'NHI': np.array([19.0])}), 'DLACAT')
        self.D = masks.DLAMask(fn)

    def dla_T(self, w):
        # transmission of the absorber, from the public profile (Q09 decides
        # the profile itself)
        return masks.DLAMask.get_dla_flux(
            w, (W0 - 5.) / 1215.67 - 1, 19.0)

    def make(self, case):
        qmc.fresh()
        out = []
        for tid in (5, 6):
            arms, reso = {}, {}
            for k, (a, (s, n, bad)) in enumerate(
                    LAYOUTS[case["lay"]].items()):
                w = W0 + DW * (s + np.arange(n))
                m = np.zeros(n, int)
                m[list(bad)] = 1
                arms[a] = (w, gfn(w), 2. + k + 0.3 * (np.arange(n) % 3), m)
                reso[a] = np.array([w / 1000., w / 500., w / 1000.])
            s = gen.make_spectrum(Spectrum, gen.catrow(tid, Z), arms,
                                  reso=reso)
            if case["full"]:
                s.simple_coadd()
            s.set_forest_region(W0 + 0.5, W0 + 13.5, 1000., 1300.)
            out.append(s)
        return out

    class Model:
        """good: arm -> {grid index: usable}; the arms present."""

        def __init__(self, case):
            lay = LAYOUTS[case["lay"]]
            arms = {}
            for a, (s, n, bad) in lay.items():
                arms[a] = {s + j: j not in bad for j in range(n)}
            if case["full"]:
                lo = min(min(d) for d in arms.values())
                hi = max(max(d) for d in arms.values())
                arms = {'brz': {k: any(d.get(k, False)
                                       for d in arms.values())
                                for k in range(lo, hi + 1)}}
                self.cover = {k for s, n, _ in lay.values()
                              for k in range(s, s + n)}
            else:
                self.cover = None
            # window: 0.5 <= w - W0 < 13.5
            self.arms = {}
            for a, d in arms.items():
                d = {k: g for k, g in d.items() if 0.5 <= DW * k < 13.5}
                if any(d.values()):
                    self.arms[a] = d
            self.fdiv = []
            self.cont = False
            self.scale = None

        def mask(self, fn):
            for d in self.arms.values():
                for k in d:
                    if fn(W0 + DW * k):
                        d[k] = False

        def coadd(self):
            if not self.arms:
                return
            ks = [k for d in self.arms.values() for k in d]
            lo, hi = min(ks), max(ks)
            cov = set(ks)
            self.cover = cov if self.cover is None else cov & self.cover
            self.arms = {'brz': {k: any(d.get(k, False)
                                        for d in self.arms.values())
                                 for k in range(lo, hi + 1)}}

    def apply(self, ctx, s, m, op):
        if op == "sky":
            self.S.apply(s)
            m.mask(lambda w: W0 + 2.3 <= w < W0 + 4.1
                   or (W0 + 8.5) / 3 <= w / 3 < (W0 + 9.9) / 3)
        elif op == "dla":
            self.D.apply(s)
            T = {}
            for d in m.arms.values():
                for k in d:
                    T[k] = self.dla_T(np.array([W0 + DW * k]))[0]
            lim = {k: t < 0.8 for k, t in T.items()}
            m.mask(lambda w: lim[int(round((w - W0) / DW))])
            m.fdiv.append(self.dla_T)
        elif op == "fcal":
            self.F.apply([s])
            m.fdiv.append(sfn)
        elif op == "ncal":
            self.N.apply([s])
        elif op == "coadd":
            if s.forestwave:
                s.coadd_arms_forest(lssfn, etafn) if m.cont \
                    else s.coadd_arms_forest()
            m.coadd()
        elif op in ("dropB", "dropR"):
            s.drop_arm(op[-1])
            m.arms.pop(op[-1], None)
        elif op.startswith("short"):
            # rest-frame length chosen for 20.5 expected pixels
            r = float(op[5:])
            L = 20.5 * DW / (1 + Z)
            s.drop_short_arms(1000., 1000. + L, r)
            need = int(r * 20.5) + 1
            for a in list(m.arms):
                if sum(m.arms[a].values()) < need:
                    del m.arms[a]
        elif op == "strip":
            s.remove_nonforest_pixels()
        elif op == "cont":
            s.cont_params['valid'] = True
            s.cont_params['cont'] = {
                a: contfn(w) for a, w in s.forestwave.items()}
            m.cont = True
            if not m.arms:
                m.cont = False
        elif op == "weight":
            s.set_forest_weight(lssfn, etafn)
        elif op == "chi2":
            s.calc_continuum_chi2()
        elif op.startswith("slice"):
            for a in list(m.arms):
                ks = sorted(m.arms[a])
                if len(ks) > 4:
                    i1, i2 = {"slice": (1, len(ks) - 2),
                              "slicelo": (0, len(ks) - 1),
                              "slicehi": (2, len(ks))}[op]
                    s.slice(a, i1, i2)
                    for k in ks[:i1] + ks[i2:]:
                        del m.arms[a][k]
        elif op == "addnoise":
            if m.cont and m.arms:
                self.A.apply([s])
                s.set_smooth_forestivar(m.scale)
                s.set_forest_weight(lssfn, etafn)
        elif op.startswith("sm"):
            m.scale = float(op[2:])
            s.set_smooth_forestivar(m.scale)

    def check(self, ctx, s, m, hist):
        dicts = dict(wave=s.forestwave, flux=s.forestflux, ivar=s.forestivar,
                     ivar_sm=s.forestivar_sm, weight=s.forestweight,
                     reso=s.forestreso)
        if m.cont:
            dicts['cont'] = s.cont_params['cont']
        for name, d in dicts.items():
            ctx.require(set(d) == set(m.arms), f"{name} arms after {hist}",
                        got=list(d), want=list(m.arms))
        nreal = 0
        for a, pix in m.arms.items():
            ks = np.array(sorted(pix))
            w = W0 + DW * ks
            good = np.array([pix[k] for k in ks], bool)
            nreal += int(good.sum())
            for name, d in dicts.items():
                n = d[a].shape[-1]
                ctx.require(n == ks.size, f"{name} of arm {a} has {n} pixels, "
                            f"wavelength grid {ks.size}, after {hist}")
                ctx.require(np.all(np.isfinite(d[a])),
                            f"{name} not finite after {hist}", value=d[a])
            ctx.same(s.forestwave[a], w, f"pixels of {a} after {hist}")
            f = gfn(w)
            for fn in m.fdiv:
                f = f / fn(w)
            ctx.same(s.forestflux[a][good], f[good],
                     f"flux of arm {a} after {hist}", rtol=1e-6)
            ctx.require(np.all((s.forestivar[a] > 0) == good)
                        and np.all(s.forestivar[a] >= 0),
                        f"usable pixels of arm {a} after {hist}",
                        got=s.forestivar[a], want=good)
            ctx.require(np.all(s.forestflux[a][~good] == 0),
                        f"masked flux after {hist}")
            for name in ("ivar_sm", "weight"):
                v = dicts[name][a]
                ctx.require(np.all((v > 0) == good) and np.all(v >= 0),
                            f"{name} of arm {a} after {hist}", got=v,
                            want=good)
            if m.scale == 0:
                ctx.same(dicts["ivar_sm"][a], s.forestivar[a],
                         f"noise is not smoothed after {hist}")
            cov = np.ones(ks.size, bool) if m.cover is None else \
                np.array([k in m.cover for k in ks])
            ctx.same(s.forestreso[a][1][cov], w[cov] / 500.,
                     f"resolution after {hist}", rtol=1e-6)
            if m.cont:
                ctx.same(s.cont_params['cont'][a][cov], contfn(w[cov]),
                         f"continuum after {hist}")
        ctx.require(s.get_real_size() == nreal, f"usable size after {hist}",
                    got=s.get_real_size(), want=nreal)
        for r in (0.12, 0.31, 0.52):
            ctx.require(bool(s.is_long(20. * DW / (1 + Z), r))
                        == (nreal > r * 20), f"long enough after {hist}",
                        n=nreal, ratio=r)

    def view(self, s):
        return qmc.canon([{a: np.array(v) for a, v in d.items()} for d in (
            s.forestwave, s.forestflux, s.forestivar, s.forestivar_sm,
            s.forestweight, s.forestreso, s.cont_params['cont'], s.flux,
            s.ivar, s.wave)])

    def run(self, case, ctx):
        self.files(ctx)
        tails = []
        few = len(case["pre"]) > 1 and ctx.tier == "quick"
        for d in range(0, case["depth"] + 1):
            for t in itertools.product(POST, repeat=d):
                # only maximal sequences: prefixes are checked on the way
                if few and ("slicelo" in t or "slicehi" in t):
                    continue
                if d == case["depth"] and t.count("addnoise") <= 1:
                    tails.append(t)
        for sm in ("sm16", "sm0"):
            pre_ok = None
            for t in tails:
                hist = list(case["pre"]) + [sm] + list(t)
                ctx.inner = hist
                s, other = self.make(case)
                m = self.Model(case)
                watch = self.view(other)
                if pre_ok is None:
                    self.check(ctx, s, m, "ingestion")
                start = 0 if pre_ok is None else len(case["pre"]) + 1
                for k, op in enumerate(hist):
                    self.apply(ctx, s, m, op)
                    ctx.step()
                    smoothed = k >= len(case["pre"])
                    if k >= start and (smoothed or True):
                        self.check(ctx, s, m, hist[:k + 1])
                        ctx.state(case["lay"], m.arms, m.cont, m.cover,
                                  len(m.fdiv), op)
                pre_ok = True
                if m.arms and not any(
                        x.startswith("slice") for x in hist) and hist[-1] in (
                            "coadd", "addnoise"):
                    # the noise is that of the last smoothing asked for
                    got = {a: v.copy() for a, v in s.forestivar_sm.items()}
                    s.set_smooth_forestivar(m.scale)
                    for a, v in s.forestivar_sm.items():
                        ctx.same(got[a], v, f"smoothed noise after {hist}",
                                 rtol=1e-7)
                ctx.require(self.view(other) == watch,
                            f"another spectrum changed by {hist}")
                ctx.trace()


if __name__ == "__main__":
    qmc.main(Q12())
