"""Q26: selection cuts keep exactly the spectra that satisfy them."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import itertools

import qmc
import gen
import pipe
import simmpi
import numpy as np

DW = 4.
GRID = {'B': 3600. + DW * np.arange(120), 'R': 4044. + DW * np.arange(140)}
# the last one has a single pixel of the blue arm redwards of Lya
ZS = [2.5, 2.3, 2.3512]
LYA = 1215.67
PIX = 9
# usable pixels of the forest: (kept fraction, how the others are lost)
FILL = [(1., 'mask'), (0.72, 'ivar'), (0.41, 'nan'), (0.13, 'mask'),
        (0.0, 'mask'), (0.33, 'neg')]
LEVEL = [-1., 0.5, 3.]


class Quasar:
    def __init__(self, tid, z, forest, red, fill, side):
        self.tid, self.z, self.forest, self.red = tid, z, forest, red
        frac, how = fill
        l1 = max(3600., (1 + z) * 1050.)
        l2 = (1 + z) * 1180.
        grid = np.concatenate([GRID['B'], GRID['R'][9:]])
        inf = grid[(grid >= l1) & (grid < l2)]
        n = int(round(frac * inf.size))
        use = inf[:n] if side == 0 else inf[inf.size - n:]
        lo, hi = (use[0], use[-1]) if n else (0., -1.)
        self.flux, self.ivar, self.mask = {}, {}, {}
        self.good = {}
        for a, w in GRID.items():
            f = np.where(w < (1 + z) * LYA, forest, red).astype('f8')
            iv = np.ones(w.size)
            m = np.zeros(w.size, int)
            win = (w >= l1) & (w < l2)
            bad = win & ~((w >= lo) & (w <= hi))
            if how == 'mask':
                m[bad] = 2
            elif how == 'ivar':
                iv[bad] = 0.
            elif how == 'nan':
                f[bad] = np.nan
            else:
                iv[bad] = -1.
            self.flux[a], self.ivar[a], self.mask[a] = f, iv, m
            self.good[a] = win & ~bad

    def usable(self, arms, sky=(), coadd=False):
        """wavelengths of usable forest pixels by arm"""
        out = {}
        for a in arms:
            w = GRID[a][self.good[a]]
            if w.size:
                for lo, hi in sky:
                    w = w[(w < lo) | (w >= hi)]
                out[a] = w
        if coadd and out:
            out = {'brz': np.unique(np.concatenate(list(out.values())))}
        return out


def quasars():
    out, tid = [], 1000
    for z in ZS:
        for k, fill in enumerate(FILL):
            for f, r in itertools.product(LEVEL, LEVEL):
                out.append(Quasar(tid, z, f, r, fill, (k + (z < 2.4)) % 2))
                tid += 7
    return out


class Q26(qmc.Check):
    pid = "Q26"
    case_timeout = 200
    bounds = {
        "quick": "162 quasars: 3 redshifts x 6 usable fractions (0-1, lost "
                 "by mask, zero/negative inverse variance, NaN) x 3 forest x "
                 "3 red flux levels, x skip {0, 0.2, 0.5, 0.9} x minimum "
                 "signal-to-noise {0, 1}^2 x arm coaddition x arm lists x "
                 "sky masks {none, partial, whole forest, whole arm}; exact ties of "
                 "both minima; every subset of 6 quasars; arms of every "
                 "usable size around every threshold; 54 exposures of 3 quasars "
                 "x 12 cuts; whole program: 166 "
                 "quasars whose forest enters or leaves the observed window, "
                 "3 windows x 6 values of skip x 1 and 3 processes",
        "thorough": "every pair of quasars together"}
    assumptions = ["number of usable pixels never equals the fraction of "
                   "the expected number exactly"]

    def setup(self):
        global fit, Spectrum, masks
        import qsonic.scripts.qsonic_fit as fit
        import qsonic.picca_continuum as picca
        pipe.small_statistics(picca)
        from qsonic.spectrum import Spectrum
        import qsonic.masks as masks
        qmc.snapshot(Spectrum)
        self.all = quasars()

    SKY = [(), ((3700., 3830.),), ((3590., 4200.),), ((3590., 4079.),)]
    ARMS = [('B', 'R'), ('R', 'B'), ('B',), ('R',)]

    def cases(self, tier):
        for coadd in ("before", "disable", "after"):
            for arms in range(4):
                for sky in range(4):
                    yield dict(kind="lattice", coadd=coadd, arms=arms,
                               sky=sky)
                yield dict(kind="ties", coadd=coadd, arms=arms)
        for coadd in ("before", "disable"):
            for first in itertools.product((0, 1), repeat=2):
                yield dict(kind="subset", coadd=coadd, first=first)
        for z in ZS:
            for skip in (0., 0.1, 0.2, 0.23, 0.37, 0.5, 0.77, 0.9, 1.):
                yield dict(kind="arms", z=z, skip=skip)
        for skip in (0., 0.1, 0.2, 0.37, 0.5, 0.8):
            for win in range(len(self.WINDOWS)):
                for kind in ("data", "mock"):
                    if kind == "mock" and (win or skip not in (0.2, 0.5)):
                        continue
                    yield dict(kind="program", skip=skip, win=win, data=kind)
        for coadd in ("before", "disable", "after"):
            for z in ZS:
                for order in range(2 if tier == "quick" else 4):
                    yield dict(kind="expo", coadd=coadd, z=z, order=order)
        if tier != "quick":
            for a in range(len(self.all)):
                yield dict(kind="pairs", a=a)

    def run(self, case, ctx):
        getattr(self, "run_" + case["kind"])(case, ctx)

    def write(self, ctx, qs):
        root = os.path.join(ctx.tmp, "in")
        gen.write_spectra_file(
            f"{root}/main/dark/0/{PIX}/coadd-main-dark-{PIX}.fits",
            [q.tid for q in qs],
            {a: dict(wave=GRID[a], flux=[q.flux[a] for q in qs],
                     ivar=[q.ivar[a] for q in qs],
                     mask=[q.mask[a] for q in qs]) for a in GRID})
        return root

    def sky(self, ctx, wins):
        if not wins:
            return []
        fn = os.path.join(ctx.tmp, "sky.txt")
        with open(fn, "w") as f:
            f.write("# type wave_min wave_max frame\n")
            for k, (a, b) in enumerate(wins):
                f.write(f"l{k} {a!r} {b!r} OBS\n")
        return [masks.SkyMask(fn)]

    def select(self, ctx, root, qs, arms, coadd, maskers, skip, rmin, fmin,
               split=False):
        qmc.fresh()
        argv = ["-i", root, "--catalog", "none", "--arms", *arms,
                "--coadd-arms", coadd, "--skip-resomat", "--skip", str(skip)]
        args = fit.get_parser().parse_args(argv)
        args.min_rsnr, args.min_forestsnr = rmin, fmin
        cat = np.array([gen.catrow(q.tid, q.z, hpx=PIX) for q in qs])
        queue = [cat] if len(qs) else []
        comm = simmpi._self_comm
        out = fit.mpi_read_calibrate_mask_select_spectra(
            queue, maskers, args, comm, 0)
        ctx.step()
        return out

    def expected(self, q, arms, coadd, sky, skip, rmin, fmin):
        before = q.usable(arms)
        if not before:
            return False, None
        if 'R' not in arms:
            red = 0. if np.max(GRID['B']) < (1 + q.z) * LYA else q.red
        else:
            red = q.red
        if red < rmin - 1e-3 or (red < 0 and rmin >= 0):
            return False, None
        if q.forest < 0 and fmin >= 0:
            return False, None
        # both arms have the level of the forest; coadded pixels up to sqrt2
        if q.forest * 1.4143 < fmin:
            return False, None
        after = q.usable(arms, sky, coadd == "before")
        npix = sum(w.size for w in after.values())
        need = skip * (1 + q.z) * 130. / DW
        assert npix != need or npix == 0
        return npix > need, after

    def content(self, s):
        return {a: (s.forestwave[a].copy(), s.forestflux[a].copy(),
                    s.forestivar[a].copy()) for a in s.forestwave}

    def check(self, ctx, specs, qs, arms, coadd, sky, skip, rmin, fmin):
        want = []
        for q in qs:
            k, after = self.expected(q, arms, coadd, sky, skip, rmin, fmin)
            if k:
                want.append((q, after))
        ctx.require([s.targetid for s in specs] == [q.tid for q, _ in want],
                    "kept quasars", got=[int(s.targetid) for s in specs],
                    want=[q.tid for q, _ in want], arms=arms, coadd=coadd,
                    sky=sky, skip=skip, rmin=rmin, fmin=fmin)
        for s, (q, after) in zip(specs, want):
            got = {a: w[s.forestivar[a] > 0] for a, w in s.forestwave.items()}
            got = {a: w for a, w in got.items() if w.size}
            exp = {a: w for a, w in after.items() if w.size}
            ctx.require(sorted(got) == sorted(exp), f"arms of {q.tid}",
                        got=sorted(got), want=sorted(exp))
            for a in exp:
                ctx.same(got[a], exp[a], f"usable pixels of {q.tid}/{a}")
                g = s.forestivar[a] > 0
                ctx.same(s.forestflux[a][g], np.full(g.sum(), q.forest),
                         f"flux of {q.tid}/{a}", rtol=1e-6)
            for a in s.forestwave:
                ctx.require(a in exp, f"arm {a} of {q.tid} has no usable "
                            "pixel", sky=sky)
            ctx.require(s.rsnr >= rmin, "rsnr of a kept spectrum")

    def run_lattice(self, case, ctx):
        arms, sky = self.ARMS[case["arms"]], self.SKY[case["sky"]]
        root = self.write(ctx, self.all)
        mk = self.sky(ctx, sky)
        for skip in (0., 0.2, 0.5, 0.9):
            for rmin, fmin in itertools.product((0., 1.), repeat=2):
                if sky and fmin:
                    continue
                if len(arms) == 1 and arms[0] == 'B' and rmin:
                    pass
                ctx.inner = (skip, rmin, fmin)
                sp = self.select(ctx, root, self.all, arms, case["coadd"],
                                 mk, skip, rmin, fmin)
                self.check(ctx, sp, self.all, arms, case["coadd"], sky,
                           skip, rmin, fmin)
                ctx.trace()
                ctx.state(case, skip, rmin, fmin, [s.targetid for s in sp])

    def run_ties(self, case, ctx):
        """at least the minimum: equality passes, the next number fails"""
        arms = self.ARMS[case["arms"]]
        qs = self.all[::5]
        root = self.write(ctx, qs)
        base = self.select(ctx, root, qs, arms, case["coadd"], [], 0.,
                           -1e9, -1e9)
        ctx.require(len(base) > 5, "nothing kept without cuts")
        val = {int(s.targetid): (float(s.rsnr),
                                 float(s.get_effective_meansnr()))
               for s in base}
        data = {int(s.targetid): self.content(s) for s in base}
        for q in qs:
            if q.tid not in val:
                ctx.require(not q.usable(arms), "spectrum without cuts lost",
                            tid=q.tid)
                continue
            red = 0. if 'R' not in arms and (
                np.max(GRID['B']) < (1 + q.z) * LYA) else q.red
            ctx.same(val[q.tid][0], red, "red-side S/N", rtol=1e-5,
                     atol=1e-9)
            lo, hi = sorted((q.forest, 1.4143 * q.forest))
            ctx.require(lo - 1e-5 <= val[q.tid][1] <= hi + 1e-5,
                        "effective S/N", got=val[q.tid][1])
        for which in (0, 1):
            for t in sorted({v[which] for v in val.values()}):
                for thr in (t, float(np.nextafter(t, np.inf)),
                            float(np.nextafter(t, -np.inf))):
                    ctx.inner = (which, thr)
                    cut = [-1e9, -1e9]
                    cut[which] = thr
                    sp = self.select(ctx, root, qs, arms, case["coadd"], [],
                                     0., *cut)
                    got = [int(s.targetid) for s in sp]
                    want = [k for k, v in val.items() if v[which] >= thr]
                    ctx.require(got == want, "kept at the minimum", got=got,
                                want=want, threshold=thr)
                    for s in sp:
                        c, d = self.content(s), data[int(s.targetid)]
                        ctx.require(sorted(c) == sorted(d), "arms changed")
                        for a in c:
                            for x, y in zip(c[a], d[a]):
                                ctx.same(x, y, "kept spectrum unchanged",
                                         rtol=0, atol=0)
                    ctx.trace()
                    ctx.state("tie", case, which, thr)

    def run_subset(self, case, ctx):
        """every subset is treated like the whole"""
        pool = [self.all[i] for i in (2, 4, 11, 26, 44, 98)]
        sky = self.SKY[1]
        mk = self.sky(ctx, sky)
        root = self.write(ctx, self.all)
        for rest in itertools.product((0, 1), repeat=4):
            pick = list(case["first"]) + list(rest)
            qs = [q for q, p in zip(pool, pick) if p]
            for skip, rmin in itertools.product((0., 0.2, 0.5), (0., 1.)):
                ctx.inner = (pick, skip, rmin)
                sp = self.select(ctx, root, qs, ('B', 'R'), case["coadd"],
                                 mk, skip, rmin, 0.)
                self.check(ctx, sp, qs, ('B', 'R'), case["coadd"], sky,
                           skip, rmin, 0.)
                ctx.trace()
                ctx.state("subset", case, pick, skip, rmin)

    def run_pairs(self, case, ctx):
        root = self.write(ctx, self.all)
        for b in range(case["a"] + 1, len(self.all)):
            qs = [self.all[case["a"]], self.all[b]]
            ctx.inner = b
            for coadd in ("before", "disable"):
                sp = self.select(ctx, root, qs, ('B', 'R'), coadd, [], 0.2,
                                 1., 0.)
                self.check(ctx, sp, qs, ('B', 'R'), coadd, (), 0.2, 1., 0.)
                ctx.trace()
                ctx.state("pairs", case["a"], b, coadd)

    def run_expo(self, case, ctx):
        """exposures read after the fit have to pass the cuts on their own"""
        z, coadd = case["z"], case["coadd"]
        good = [Quasar(500 - 7 * k, z, 3., 3., FILL[0], 0) for k in range(3)]
        root = self.write(ctx, good)
        expo, eid = [], 100
        lev = list(itertools.product(FILL, LEVEL, LEVEL))
        if case["order"] % 2:
            lev = lev[::-1]
        for k, (fill, f, r) in enumerate(lev):
            # (two of the three quasars are valid)
            q = Quasar(good[k % 3].tid, z, f, r, fill, (k + case["order"]) % 2)
            q.eid, eid = eid, eid + 1
            expo.append(q)
        n = len(expo)
        gen.write_spectra_file(
            f"{root}/main/dark/0/{PIX}/spectra-main-dark-{PIX}.fits",
            [q.tid for q in expo],
            {a: dict(wave=GRID[a], flux=[q.flux[a] for q in expo],
                     ivar=[q.ivar[a] for q in expo],
                     mask=[q.mask[a] for q in expo]) for a in GRID},
            dict(EXPID=np.array([q.eid for q in expo]),
                 NIGHT=np.full(n, 20210101), TILEID=np.full(n, 80),
                 FIBER=np.arange(n), PETAL_LOC=np.zeros(n, int)))
        for skip, rmin, fmin in itertools.product((0., 0.2, 0.5), (0., 1.),
                                                  (0., 1.)):
            ctx.inner = (skip, rmin, fmin)
            valid = good[:2] if case["order"] < 2 else good[1:]
            specs = self.select(ctx, root, valid, ('B', 'R'), coadd, [],
                                skip, rmin, fmin)
            ctx.require(len(specs) == 2, "harness: coadds are kept")
            for s in specs:
                s.cont_params['valid'] = True
                s.cont_params['cont'] = {
                    a: np.full(w.size, 2.) for a, w in s.forestwave.items()}
                s.set_forest_weight()
                if coadd == "after":
                    s.coadd_arms_forest()
            args = fit.get_parser().parse_args(
                ["-i", root, "--catalog", "none", "--coadd-arms", coadd,
                 "--skip-resomat", "--skip", str(skip), "--exposures",
                 "after", "--min-rsnr", str(rmin), "--min-forestsnr",
                 str(fmin)])
            got = fit.mpi_read_exposures_after(
                specs, [], args, simmpi._self_comm, 0)
            ctx.step()
            mode = "disable" if coadd == "disable" else "before"
            tids = [q.tid for q in valid]
            want = [q.eid for q in expo if q.tid in tids and self.expected(
                q, ('B', 'R'), mode, (), skip, rmin, fmin)[0]]
            ids = [int(s.catrow['EXPID']) for s in got]
            ctx.require(sorted(ids) == sorted(want), "kept exposures",
                        got=sorted(ids), want=sorted(want))
            by = {q.eid: q for q in expo}
            for s in got:
                q = by[int(s.catrow['EXPID'])]
                ctx.require(int(s.targetid) == q.tid, "target of exposure")
                for a in s.forestwave:
                    g = s.forestivar[a] > 0
                    ctx.same(s.forestflux[a][g], np.full(g.sum(), q.forest),
                             "flux of an exposure", rtol=1e-6)
            ctx.trace()
            ctx.state("expo", case, skip, rmin, fmin)

    # observed and rest-frame limits of whole-program runs
    WINDOWS = [(3600., 4200., 1050., 1180.), (3650., 4600., 1040., 1200.),
               (3608., 5000., 1055., 1150.)]

    def run_program(self, case, ctx):
        """the whole program, quasars whose forest enters or leaves the
        observed window"""
        qmc.fresh()
        w1, w2, f1, f2 = self.WINDOWS[case["win"]]
        skip = case["skip"]
        zs = np.concatenate([
            w1 / f2 - 1 + 0.005 * np.arange(-3, 65),
            w2 / f1 - 1 + 0.005 * np.arange(-64, 4),
            np.linspace(w1 / f2 - 0.7, w2 / f1 - 1.3, 30)])
        qs = pipe.quasars(n=zs.size)
        grid = np.unique(np.concatenate(list(pipe.GRID.values())))
        must, may = set(), set()
        for q, z in zip(qs, zs):
            q["z"], q["tilt"] = float(z), 0.1 * q["tilt"]
            q["tid"] = 5000 + (q["k"] * 7919) % 1009
            q["ra"], q["dec"] = 2. * q["k"], -50. + 0.6 * q["k"]
            bad = {a: pipe.data(q, a)[2] > 0 for a in pipe.GRID}
            good = np.unique(np.concatenate(
                [w[~bad[a]] for a, w in pipe.GRID.items()]))
            lo, hi = max(w1, (1 + z) * f1), min(w2, (1 + z) * f2)
            n = np.sum((good >= lo) & (good < hi))
            need = skip * (1 + z) * (f2 - f1) / pipe.DW
            if n > need + 1.7:
                must.add(q["tid"])
            if n > need - 1.7 and n:
                may.add(q["tid"])
        ctx.require(len(must) > 15 and len(may) < len(qs) - 2,
                    "harness: quasars on both sides")
        root = os.path.join(ctx.tmp, "in")
        cat = pipe.write(root, qs, case["data"])
        cont = os.path.join(ctx.tmp, "cont")
        pipe.write_input_continua(cont, qs)
        stats = os.path.join(ctx.tmp, "stats.fits")
        w = 3500. + 20. * np.arange(90)
        gen.write_table(stats, gen.rec(dict(
            LAMBDA=w, MEANFLUX=pipe.meanflux(w), VAR_LSS=0.05 + 0 * w)),
            'STATS')
        for size in (1, 3):
            out = os.path.join(ctx.tmp, f"out{size}")
            res = pipe.run(fit.main, [
                "qsonic-fit", "-i", root, "--catalog", cat, "-o", out,
                "--wave1", str(w1), "--wave2", str(w2), "--forest-w1",
                str(f1), "--forest-w2", str(f2), "--rfdwave", "13",
                "--skip", str(skip), "--skip-resomat",
                "--input-continuum-dir", cont, "--fiducial-meanflux", stats,
                "--fiducial-varlss", stats, "--num-iterations", "1"] + (
                    ["--mock-analysis"] if case["data"] == "mock" else []),
                size)
            for r, v in enumerate(res):
                ctx.require(v.kind == "value", f"rank {r} of {size}: {v} "
                            f"{v.text}")
            got = sorted(int(t) for t in pipe.products(out)["chi2"]["TARGETID"])
            ctx.require(len(got) == len(set(got)), "listed twice", got=got)
            zof = {q["tid"]: q["z"] for q in qs}
            ctx.require(must <= set(got), "quasar with enough pixels is lost",
                        z=sorted(zof[t] for t in must - set(got)))
            ctx.require(set(got) <= may, "quasar with too few pixels is kept",
                        z=sorted(zof[t] for t in set(got) - may))
            ctx.step(size)
            ctx.trace()
            ctx.state("program", case, size, got)

    def run_arms(self, case, ctx):
        """arms of every size around the threshold"""
        z, skip = case["z"], case["skip"]
        need = skip * (1 + z) * 130. / DW
        sizes = sorted({n for c in (0, need, 113) for n in
                        range(int(c) - 2, int(c) + 4) if 1 <= n <= 113})
        for nb, nr in itertools.product(sizes, repeat=2):
            for pad in (0, 3):
                qmc.fresh()
                ctx.inner = (nb, nr, pad)
                arms, n = {}, dict(B=nb, R=nr)
                w0 = max(3600., (1 + z) * 1050.) + 1.
                for k, a in enumerate('BR'):
                    m = 118
                    w = w0 + DW * np.arange(m)
                    iv = np.zeros(m)
                    iv[pad + k:pad + k + n[a]] = 1.
                    arms[a] = (w, np.ones(m), iv, np.zeros(m, int))
                s = gen.make_spectrum(Spectrum, gen.catrow(5, z, hpx=PIX),
                                      arms)
                s.set_forest_region(3600., 9000., 1050., 1400.)
                keep = {a: s.forestflux[a].copy() for a in s.forestwave}
                ok = all(np.sum(s.forestivar[a] > 0) == n[a] for a in n)
                ctx.require(ok, "harness sizes")
                if abs(nb + nr - need) > 1e-6:
                    ctx.require(bool(s.is_long(130., skip))
                                == (nb + nr > need), "long spectrum",
                                size=nb + nr, need=need)
                s.drop_short_arms(1050., 1180., skip)
                ctx.step()
                for a in 'BR':
                    if n[a] == need:
                        continue
                    ctx.require((a in s.forestwave) == (n[a] > need),
                                f"arm {a}", usable=n[a], need=need)
                    for d in (s.forestflux, s.forestivar, s.forestweight,
                              s.forestivar_sm):
                        ctx.require((a in d) == (a in s.forestwave),
                                    "arm is dropped completely")
                    if a in s.forestwave:
                        ctx.same(s.forestflux[a], keep[a], "kept arm")
                ctx.trace()
                ctx.state("arms", z, skip, nb, nr, pad)


if __name__ == "__main__":
    qmc.main(Q26())
