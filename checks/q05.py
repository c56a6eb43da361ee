"""Q05: readers give every quasar its own data, and only its own."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import itertools
import warnings

import qmc
import gen
import numpy as np
import fitsio

TID = [39627939372861215, -7, 39627939372861216, 12]     # not in order
TID += [39627939372861215 + (k * 11) % 31 + 10 for k in range(6)] + \
    [1000 - 3 * k for k in range(4)]
EXTRA = [39627939372861217, 5]
ARMS = {'B': 3600. + 0.8 * np.arange(6), 'R': 3603.2 + 0.8 * np.arange(7),
        'Z': 3608. + 0.8 * np.arange(5)}
NDIA = {'B': 3, 'R': 5, 'Z': 3}
GROUPS = {'coadd': ['main', 'sv1'], 'tile': [2, 9], 'mock': [0]}


def val(tid, grp, arm, what):
    """Unique small integers (exact in f4) per (target, group, arm, array)."""
    alltid = TID + EXTRA
    base = alltid.index(tid) * 64 + grp * 2048 + "BRZ".index(arm) * 16
    n = ARMS[arm].size
    if what == 'flux':
        return base + np.arange(n) + 1.
    if what == 'ivar':
        return base + np.arange(n) + 8192.
    if what == 'mask':
        m = np.zeros(n, 'i4')
        # any bit means flagged
        m[(alltid.index(tid) + grp) % n] = \
            1 << (0, 8, 16, 24, 30)[(alltid.index(tid) + grp) % 5]
        return m
    return base + 16384. + np.arange(n * NDIA[arm]).reshape(NDIA[arm], n)


def expected(tid, grp, arm):
    m = val(tid, grp, arm, 'mask') != 0
    f, i = val(tid, grp, arm, 'flux'), val(tid, grp, arm, 'ivar')
    f[m] = 0
    i[m] = 0
    return f, i


class Q05(qmc.Check):
    pid = "Q05"
    bounds = {
        "quick": "<=3 requested quasars over 2 surveys/petals x all missing "
                 "subsets x 0-2 foreign rows x all row orders x 4 arm "
                 "selections x resolution on/off/absent; mocks with all "
                 "orders of the truth table; 14 quasars with every one and "
                 "14 pairs missing x 6 row orders",
        "thorough": "<=4 requested quasars"}
    assumptions = [
        "the catalog given to a reader is the sorted part of one pixel/tile, "
        "as the catalog functions produce it",
        "a target occurs once per coadded file"]

    def setup(self):
        global io, Spectrum
        import qsonic.io as io
        from qsonic.spectrum import Spectrum
        qmc.snapshot(Spectrum)

    def cases(self, tier):
        nmax = 3 if tier == "quick" else 4
        for kind in ('coadd', 'tile'):
            for n in range(1, nmax + 1):
                for grp in itertools.product(range(2), repeat=n):
                    for miss in itertools.product((0, 1), repeat=n):
                        for extra in (0, 1, 2):
                            if extra == 2 and n > 2:
                                continue
                            yield dict(kind=kind, grp=grp, miss=miss,
                                       extra=extra)
        N = len(TID)
        for kind in ('coadd', 'tile', 'mock'):
            for pat in (0, 1) if kind != 'mock' else (0,):
                grp = [0 if kind == 'mock' else
                       (k // 3 + pat) % 2 for k in range(N)]
                for m in range(-1, N):
                    for m2 in ((-1,) if m < 0 else (-1, (m + 5) % N)):
                        yield dict(
                            kind=kind, grp=grp, extra=(m + pat) % 3
                            if kind != 'mock' else 1, big=1,
                            miss=[int(k in (m, m2)) for k in range(N)],
                            survey=pat)
        for n in range(1, nmax + 1):
            for miss in itertools.product((0, 1), repeat=n):
                for extra in (0, 1):
                    for survey in (0, 1):
                        yield dict(kind='mock', grp=[0] * n, miss=miss,
                                   extra=extra, survey=survey)

    # ------------------------------------------------------------------
    def write(self, fname, rows, reso):
        """rows: list of (tid, grp)"""
        arms = {}
        for arm, w in ARMS.items():
            z = np.zeros((0, w.size))
            arms[arm] = dict(wave=w, **{
                k: np.array([val(t, g, arm, k) for t, g in rows])
                if rows else z for k in ('flux', 'ivar', 'mask')})
        r = {arm: np.array([val(t, g, arm, 'reso') for t, g in rows])
             for arm in ARMS} if reso else None
        gen.write_spectra_file(fname, [t for t, _ in rows], arms, reso=r)

    def catalog(self, kind, tids, grp, survey=1):
        n = len(tids)
        cols = {'TARGETID': np.array(tids, 'i8'),
                'Z': 2.5 + 0.01 * np.array([(TID + EXTRA).index(t)
                                            for t in tids]),
                'RA': np.array([float((TID + EXTRA).index(t)) for t in tids]),
                'DEC': np.zeros(n), 'HPXPIXEL': np.full(n, 1234, 'i8')}
        if kind == 'coadd':
            cols['SURVEY'] = np.array([GROUPS[kind][g] for g in grp])
            order = ['SURVEY', 'TARGETID']
        elif kind == 'tile':
            cols['PETAL_LOC'] = np.array([GROUPS[kind][g] for g in grp])
            cols['TILEID'] = np.full(n, 77)
            cols['LASTNIGHT'] = np.full(n, 20210505)
            order = ['PETAL_LOC', 'TARGETID']
        else:
            order = ['TARGETID']
            if survey:
                # survey order opposite to the target id order
                s = np.argsort(np.argsort(tids))
                cols['SURVEY'] = np.array([f"s{9 - k}" for k in s])
                order = ['SURVEY', 'TARGETID']
        c = gen.rec(cols)
        return np.sort(c, order=order)

    def fname(self, kind, d, g):
        if kind == 'coadd':
            s = GROUPS[kind][g]
            return f"{d}/{s}/dark/12/1234/coadd-{s}-dark-1234.fits"
        if kind == 'tile':
            p = GROUPS[kind][g]
            return f"{d}/77/20210505/coadd-{p}-77-thru20210505.fits"
        return f"{d}/12/1234/spectra-16-1234.fits"

    def verify(self, ctx, specs, want, arms, reso, mock):
        got = sorted(int(s.targetid) for s in specs)
        ctx.require(got == sorted(t for t, g in want), "spectra returned",
                    got=got, want=want)
        g_of = dict(want)
        for s in specs:
            t = int(s.targetid)
            g = g_of[t]
            ctx.require(float(s.ra) == float((TID + EXTRA).index(t)),
                        "catalog row of another quasar", tid=t)
            ctx.require(sorted(s.flux) == sorted(set(arms)), "arms",
                        got=list(s.flux))
            for arm in arms:
                f, i = expected(t, g, arm)
                ctx.same(s.wave[arm], ARMS[arm], f"wave {t} {arm}")
                ctx.same(s.flux[arm], f, f"flux of {t} {arm}")
                ctx.same(s.ivar[arm], i, f"ivar of {t} {arm}")
                if not reso:
                    ctx.require(not s.reso, "unexpected resolution")
                elif mock:
                    ctx.same(s.reso[arm], val(TID[0], 0, arm, 'reso'),
                             "mock resolution")
                else:
                    ctx.same(s.reso[arm], val(t, g, arm, 'reso'),
                             f"resolution of {t} {arm}")
        ctx.state(sorted(g_of.items()), arms, reso)

    def run(self, case, ctx):
        kind = case["kind"]
        n = len(case["grp"])
        tids = TID[:n]
        d = ctx.tmp
        used = sorted(set(case["grp"]))
        cat = self.catalog(kind, tids, case["grp"], case.get("survey", 1))
        files = {}
        for g in used:
            rows = [(t, g) for t, gg, m in zip(tids, case["grp"],
                                               case["miss"])
                    if gg == g and not m]
            if case["extra"] >= 1:
                rows.append((EXTRA[g % 2], g))
            if case["extra"] == 2:
                # the other group's target also appears here
                rows += [(t, g) for t, gg in zip(tids, case["grp"])
                         if gg != g]
            files[g] = rows
        if any(not r for r in files.values()):
            return      # an empty file cannot be written
        want = [(t, g) for t, g, m in zip(tids, case["grp"], case["miss"])
                if not m]
        orders = {g: self.orders(r) for g, r in files.items()}
        if kind == 'mock':
            self.truth_arms(d)
        k = 0
        nmax = max(len(o) for o in orders.values())
        combos = list(itertools.product(*orders.values())) if nmax <= 6 \
            and not case.get("big") \
            else list(zip(*[itertools.islice(itertools.cycle(o), nmax)
                            for o in orders.values()]))
        armsel = (['B'], ['R', 'B'], ['B', 'R', 'Z'], ['Z'])
        for combo in combos:
            for reso in (True, False):
                for g, rows in zip(files, combo):
                    self.write(self.fname(kind, d, g), rows, reso)
                for arms in (armsel if k == 0 else [armsel[k % 4]]):
                    for skip in ((False, True) if reso else (False,)):
                        ctx.inner = dict(files={
                            str(g): r for g, r in zip(files, combo)},
                            arms=arms, reso=reso, skip=skip)
                        if kind == 'mock':
                            self.run_mock(ctx, d, cat, want, arms, skip,
                                          tids, k)
                        else:
                            self.one(ctx, kind, d, cat, want, arms, skip,
                                     reso)
                    k += 1
                ctx.step()
        if kind == 'coadd' and not any(case["miss"]):
            self.late_reso(ctx, d, cat, files, want)
        ctx.outcome("missing" if any(case["miss"]) else "all present")

    @staticmethod
    def orders(rows):
        rows = list(rows)
        n = len(rows)
        if n <= 5:
            return list(itertools.permutations(rows))
        # sorted, reversed and strided orders of longer files
        up = sorted(rows)
        return [tuple(up), tuple(up[::-1])] + [
            tuple(rows[(i * k + k) % n] for i in range(n))
            for k in range(2, n) if np.gcd(k, n) == 1][:4]

    def one(self, ctx, kind, d, cat, want, arms, skip, reso):
        qmc.fresh()
        fnc = io.get_spectra_reader_function(
            d, arms, False, skip, False, kind == 'tile', False)
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            specs = fnc(cat.copy())
        if len(want) < cat.size:
            ctx.require(any(issubclass(w.category, RuntimeWarning)
                            for w in ws), "no warning for missing quasars")
        self.verify(ctx, specs, want, arms, reso and not skip, False)
        ctx.trace()

    def truth_arms(self, d):
        os.makedirs(f"{d}/12/1234", exist_ok=True)

    def run_mock(self, ctx, d, cat, want, arms, skip, tids, k):
        """all orders of the truth table rows, one extra target in it"""
        pool = tids + [EXTRA[0]]
        perms = self.orders(pool)
        for perm in ([perms[k % len(perms)], perms[-1 - k % len(perms)]]):
            fn = f"{d}/12/1234/truth-16-1234.fits"
            tc = {t: 100. * (TID + EXTRA).index(t) + np.arange(8)
                  for t in pool}
            with fitsio.FITS(fn, 'rw', clobber=True) as f:
                f.write(gen.rec({
                    'TARGETID': np.array(perm, 'i8'),
                    'TRUE_CONT': np.array([tc[t] for t in perm], 'f4')}),
                    extname='TRUE_CONT', header=dict(
                        WMIN=3590.1, WMAX=3625.1, DWAVE=5.))
                for arm in ARMS:
                    f.write(val(TID[0], 0, arm, 'reso'),
                            extname=f'{arm}_RESOLUTION')
            for cont in (True, False):
                qmc.fresh()
                fnc = io.get_spectra_reader_function(
                    d, arms, True, skip, cont, False, False)
                specs = fnc(cat.copy())
                self.verify(ctx, specs, want, arms, not skip, True)
                ctx.trace()
                if cont:
                    for s in specs:
                        ctx.same(s.cont_params['true_data'],
                                 tc[int(s.targetid)],
                                 f"true continuum of {s.targetid}")
                        ctx.require(
                            s.cont_params['true_data_w1'] == 3590.1
                            and s.cont_params['true_data_dwave'] == 5.,
                            "true continuum grid")

    def late_reso(self, ctx, d, cat, files, want):
        """resolution read separately after the forest was cut"""
        for g, rows in files.items():
            self.write(self.fname('coadd', d, g), rows[::-1], True)
        qmc.fresh()
        specs = io.get_spectra_reader_function(
            d, ['B', 'R'], False, True, False, False, False)(cat.copy())
        for s in specs:
            s.set_forest_region(3601., 3606., 900., 1200.)
        specs = io.read_resolution_matrices_onehealpix_data(
            cat.copy(), d, specs)
        g_of = dict(want)
        for s in specs:
            t = int(s.targetid)
            for arm in s.forestwave:
                i1 = np.searchsorted(ARMS[arm], s.forestwave[arm][0])
                i2 = i1 + s.forestwave[arm].size
                ctx.same(s.forestreso[arm],
                         val(t, g_of[t], arm, 'reso')[:, i1:i2],
                         f"late resolution of {t} {arm}")
        ctx.trace()


if __name__ == "__main__":
    qmc.main(Q05())
