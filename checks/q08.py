"""Q08: coadding arms is the weighted mean on one grid."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import itertools

import qmc
import gen
import numpy as np

W0 = 3600.


def up(w):
    x = w - W0
    return x / (1. + np.abs(x) / 50.)


def contfn(w):
    return 2. + 0.1 * up(w)


def eta_fn(w):
    return 1. + 0.02 * up(w)


def lss_fn(w):
    return 0.1 + 0.01 * up(w)


def layouts(tier):
    """Arms as (start, length) on the common grid; the first arm sets dwave
    and therefore has at least two pixels."""
    out = []
    for nb in (2, 3):
        for s in range(-2, 6):
            for nr in (1, 2, 3):
                out.append(((0, nb), (s, nr)))
    out.append(((0, 2),))
    out.append(((0, 4),))
    three = [((0, 3), (2, 3), (4, 3)), ((0, 2), (3, 1), (4, 2)),
             ((0, 3), (1, 2), (0, 2)), ((0, 2), (3, 2), (7, 2)),
             ((4, 2), (2, 3), (0, 3))]
    if tier != "quick":
        for s, t in itertools.product(range(-2, 5), repeat=2):
            three.append(((0, 2), (s, 2), (t, 2)))
    return out + three


class Q08(qmc.Check):
    pid = "Q08"
    bounds = {
        "quick": "1-3 arms; every relative position (gap, touching, partial "
                 "and full overlap, either order) of 2-3 and 1-3 pixels; every "
                 "mask pattern; all arm orders; resolution absent / equal / "
                 "different bandwidth; forest coadd with and without "
                 "continuum, variance functions and smoothing; uninitialised "
                 "memory poisoned with NaN and with a huge number; "
                 "arms of 41-2881 pixels with 5 mask patterns",
        "thorough": "additionally all three-arm layouts, each with pixels of 0.8, "
                    "0.85 and 2.4 Angstrom (quick: one of them each)"}
    assumptions = ["arms lie on one common evenly spaced grid "
                   "(the documented 0.1 pixel tolerance is not exercised)",
                   "in overlaps the arms carry the same continuum function"]

    def setup(self):
        global Spectrum
        from qsonic.spectrum import Spectrum
        qmc.snapshot(Spectrum)

    def cases(self, tier):
        for n, lay in enumerate(layouts(tier)):
            for dw in ((0.8, 0.85, 2.4)[n % 3:n % 3 + 1] if tier == "quick"
                       else (0.8, 0.85, 2.4)):
                for reso in ("no", "same", "diff"):
                    for kind in ("full", "forest"):
                        yield dict(kind=kind, lay=lay, dw=dw, reso=reso)
        # the arms of the survey, and shorter ones
        for lay in (((0, 2751), (2700, 2326), (4900, 2881)),
                    ((0, 300), (280, 201)), ((0, 300), (310, 200)),
                    ((40, 64), (104, 64), (0, 41)), ((0, 500), (20, 90))):
            for reso in ("no", "same", "diff"):
                for kind in ("full", "forest"):
                    yield dict(kind=kind, lay=lay, dw=0.8, reso=reso, long=1)

    @staticmethod
    def patterns(lay):
        for k in range(5):
            yield [[int((i * (3 + a) + k) % 11 < 3) * (k > 0)
                    or int(k > 2 and (i // 25 + a) % 4 == k - 3)
                    or int(k == 4 and a == 1) for i in range(n)]
                   for a, (_, n) in enumerate(lay)]

    def arms_of(self, lay, dw, pat, reso):
        arms, rs = {}, {}
        for k, (s, n) in enumerate(lay):
            a = "BRZ"[k]
            w = W0 + dw * (s + np.arange(n))
            j = s + np.arange(n) + 3
            f = 1. + j % 97 + 20. * k
            i = 0.5 + 0.25 * k + 0.125 * (j % 3)
            m = np.array(pat[k])
            arms[a] = (w, f, i, m)
            if reso != "no":
                nd = 3 if (reso == "same" or k != 1) else 5
                rs[a] = (1. + np.arange(nd)[:, None] * 0.5
                         + 0.1 * (j % 40)[None, :] + 2. * k)
        return arms, (rs or None)

    def run(self, case, ctx):
        lay, dw, reso = case["lay"], case["dw"], case["reso"]
        ntot = sum(n for _, n in lay)
        variants = [(0, 0, 0)]
        if case["kind"] == "forest":
            variants = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (1, 1, 1),
                        (0, 1, 1)]
        def short():
            for bits in itertools.product((0, 1), repeat=ntot):
                pat, k = [], 0
                for _, n in lay:
                    pat.append(bits[k:k + n])
                    k += n
                yield pat
        for np_, pat in enumerate(
                self.patterns(lay) if case.get("long") else short()):
            for var in variants:
                if (len(lay) == 3 or reso != "no") and \
                        var in ((1, 0, 0), (0, 1, 1)):
                    continue
                ref = None
                for perm in itertools.permutations(range(len(lay))):
                    if perm[0] != 0 and lay[perm[0]][1] < 2:
                        continue
                    if ntot > 5000 and perm not in ((0, 1, 2), (1, 0, 2)):
                        continue
                    ctx.inner = dict(
                        pat=np_ if case.get("long") else pat, var=var,
                        perm=perm)
                    got = self.one(ctx, case, pat, var, perm)
                    if got is None:
                        continue
                    if ref is None:
                        ref = got
                    for name, v in got.items():
                        ctx.same(v, ref[name],
                                 f"{name} depends on the arm order")

    def spec(self, case, pat, perm):
        qmc.fresh()
        arms, rs = self.arms_of(case["lay"], case["dw"], pat, case["reso"])
        names = [list(arms)[p] for p in perm]
        arms = {a: arms[a] for a in names}
        if rs:
            rs = {a: rs[a] for a in names}
        return gen.make_spectrum(Spectrum, gen.catrow(5, 1.0), arms, reso=rs)

    def one(self, ctx, case, pat, var, perm):
        poison = "nan" if sum(map(sum, pat)) % 2 == 0 else "huge"
        s = self.spec(case, pat, perm)
        dw = case["dw"]
        cont, lss, smooth = var
        full = case["kind"] == "full"
        if not full:
            s.set_forest_region(1000., 9000., 500., 4500.)
            if not s.forestwave:
                ctx.outcome("no forest")
                return None
            if smooth:
                s.set_smooth_forestivar(3.3 * dw)
            if cont:
                s.cont_params['valid'] = True
                s.cont_params['cont'] = {
                    a: contfn(w) for a, w in s.forestwave.items()}
                if lss:
                    s.set_forest_weight(lss_fn, eta_fn)
            src = (s.forestwave, s.forestflux, s.forestivar, s.forestweight,
                   s.forestreso)
        else:
            src = (s.wave, s.flux, s.ivar, s.ivar, s.reso)
        wave, flux, ivar, wgt, reso = [
            {a: np.array(v) for a, v in d.items()} for d in src]

        lo = min(w[0] for w in wave.values())
        hi = max(w[-1] for w in wave.values())
        nw = int(round((hi - lo) / dw)) + 1
        ef, ei, en = np.zeros(nw), np.zeros(nw), np.zeros(nw)
        cover = np.zeros(nw, dtype=bool)
        nd = max([r.shape[0] for r in reso.values()] or [0])
        er, ern = np.zeros((nd, nw)), np.zeros(nw)
        for a in wave:
            for j, w in enumerate(wave[a]):
                p = int(round((w - lo) / dw))
                cover[p] = True
                q = wgt[a][j]
                if q > 0:
                    ef[p] += q * flux[a][j]
                    en[p] += q
                    ei[p] += q**2 / ivar[a][j]
        for p in range(nw):
            if en[p] > 0:
                ef[p] /= en[p]
                ei[p] = en[p]**2 / ei[p]
        if nd:
            for p in range(nw):
                cols = [(a, int(round((lo + p * dw - wave[a][0]) / dw)))
                        for a in wave]
                cols = [(a, j) for a, j in cols if 0 <= j < wave[a].size]
                ws = [wgt[a][j] for a, j in cols]
                if not any(ws):
                    ws = [1.] * len(ws)
                for q, (a, j) in zip(ws, cols):
                    pad = (nd - reso[a].shape[0]) // 2
                    er[pad:nd - pad, p] += q * reso[a][:, j] / sum(ws)

        qmc.poison_uninitialised(poison)
        try:
            if full:
                s.simple_coadd()
            elif lss:
                s.coadd_arms_forest(lss_fn, eta_fn)
            else:
                s.coadd_arms_forest()
        finally:
            qmc.unpoison()
        ctx.step()
        ctx.trace()
        ctx.state(case["kind"], case["lay"], pat, var, case["reso"])

        if full:
            out = dict(wave=s.wave, flux=s.flux, ivar=s.ivar, reso=s.reso)
        else:
            out = dict(wave=s.forestwave, flux=s.forestflux,
                       ivar=s.forestivar, reso=s.forestreso,
                       weight=s.forestweight, ivar_sm=s.forestivar_sm,
                       snr=s.mean_snr)
            if cont:
                out['cont'] = s.cont_params['cont']
        for k, d in out.items():
            if k == 'reso' and not nd:
                ctx.require(not d, "resolution out of nothing")
                continue
            ctx.require(len(d) == 1, f"{k} has one arm", got=list(d))
        keys = {list(d)[0] for d in out.values() if d}
        ctx.require(len(keys) == 1, "all quantities under one key", keys=keys)
        out = {k: np.array(list(d.values())[0]) for k, d in out.items() if d}
        for k, v in out.items():
            ctx.require(np.all(np.isfinite(v)), f"{k} has non-finite values",
                        value=v)
        ctx.same(out['wave'], lo + dw * np.arange(nw), "coadded wavelengths",
                 rtol=1e-12)
        ctx.same(out['flux'], ef, "coadded flux")
        ctx.same(out['ivar'], ei, "coadded inverse variance")
        if nd:
            ctx.same(out['reso'][:, cover], er[:, cover],
                     "coadded resolution", rtol=1e-5, atol=2e-5)
        if not full:
            ctx.require(np.all((out['weight'] > 0) == (en > 0)),
                        "weight is zero exactly where nothing contributes",
                        got=out['weight'], want=en)
            if en.any():
                ctx.same(out['snr'], np.sum(ef * np.sqrt(ei))
                         / np.sum(ei > 0), "mean S/N of the coadd")
            if cont:
                grid = out['wave']
                ctx.same(out['cont'][cover], contfn(grid[cover]),
                         "continuum on covered pixels")
                if not smooth:
                    want = np.zeros(nw)
                    g = en > 0
                    c2 = contfn(grid[g])**2
                    e, l = (eta_fn(grid[g]), lss_fn(grid[g])) if lss \
                        else (1., 0.)
                    want[g] = ei[g] / (e + ei[g] * l * c2)
                    ctx.same(out['weight'], want, "weight of the coadd")
            elif not smooth:
                ctx.same(out['weight'], ei, "weight of the coadd")
        return out


if __name__ == "__main__":
    qmc.main(Q08())
