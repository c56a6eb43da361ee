"""Q06: exposure reading returns every exposure once with its own metadata."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import itertools

import qmc
import gen
import numpy as np

TID = [39627939372861215, -7, 39627939372861216]
TID += [39627939372861300 + (k * 5) % 7 for k in range(7)]
FOREIGN = 39627939372861217
ARMS = {'B': 3600. + 0.8 * np.arange(5), 'R': 3603.2 + 0.8 * np.arange(4)}
META = ['EXPID', 'NIGHT', 'TILEID', 'FIBER', 'PETAL_LOC']
SURV = ['main', 'sv1']


def meta(e, g):
    """e = 128 * (which exposure of its quasar) + row number. Quasars of one
    file are observed in the same exposures."""
    occ, k = divmod(e, 128)
    return dict(EXPID=1000 + 10 * occ + g, NIGHT=20210101 + 3 * k,
                TILEID=80 + k // 2, FIBER=4000 - k, PETAL_LOC=k % 3)


def arr(e, g, arm, what):
    k = e % 128
    n = ARMS[arm].size
    base = 32 * k + 8192 * g + 8 * "BR".index(arm)
    if what == 'flux':
        return base + 1. + np.arange(n)
    if what == 'ivar':
        return base + 20000. + np.arange(n)
    if what == 'mask':
        m = np.zeros(n, 'i4')
        m[k % n] = 4
        return m
    return base + 40000. + np.arange(3 * n).reshape(3, n)


class Q06(qmc.Check):
    pid = "Q06"
    bounds = {
        "quick": "<=3 quasars in one file with 0-3 exposures (<=4 rows) plus "
                 "0-1 foreign rows, all row orders, exposure ids shared by "
                 "quasars; two surveys with 0-2 "
                 "exposures each; 10 quasars with 0-12 exposures; catalog with/without its own tile columns",
        "thorough": "<=5 rows plus foreign row, all orders"}
    assumptions = ["the catalog of a pixel is ordered by survey, target id"]

    def setup(self):
        global io, Spectrum
        import qsonic.io as io
        from qsonic.spectrum import Spectrum
        qmc.snapshot(Spectrum)

    def cases(self, tier):
        top = 4 if tier == "quick" else 5
        for n in (1, 2, 3):
            for mult in itertools.product(range(4), repeat=n):
                if not 1 <= sum(mult) <= top:
                    continue
                for foreign in (0, 1):
                    for cols in (0, 1):
                        yield dict(kind="one", mult=mult, foreign=foreign,
                                   tilecols=cols)
        for n in (2, 3):
            for grp in itertools.product(range(2), repeat=n):
                if len(set(grp)) < 2:
                    continue
                for mult in itertools.product(range(3), repeat=n):
                    if sum(mult) <= 4:
                        yield dict(kind="two", mult=mult, grp=grp)
        N = len(TID)
        for rot in range(N):
            for two in (0, 1):
                yield dict(kind="big", two=two, grp=[
                    two * ((k + rot) % 3 == 1) for k in range(N)],
                    mult=[(3, 1, 9, 0, 2, 12, 1, 4, 2, 1)[(k + rot) % N]
                          for k in range(N)])
        for mult in ((0,), (0, 0), (0, 2), (2, 0)):
            yield dict(kind="allmissing", mult=mult)

    def catalog(self, tids, grp, tilecols=0):
        n = len(tids)
        c = {'TARGETID': np.array(tids, 'i8'),
             'Z': np.array([2.5 + 0.1 * TID.index(t) for t in tids]),
             'RA': np.array([float(TID.index(t)) for t in tids]),
             'DEC': np.zeros(n), 'HPXPIXEL': np.full(n, 1234, 'i8'),
             'SURVEY': np.array([SURV[g] for g in grp]),
             'LASTNIGHT': np.full(n, 20230101)}
        if tilecols:
            c['TILEID'] = np.full(n, 999)
            c['PETAL_LOC'] = np.full(n, 99)
        return np.sort(gen.rec(c), order=['SURVEY', 'TARGETID'])

    def write(self, d, g, rows):
        s = SURV[g]
        fn = f"{d}/{s}/dark/12/1234/spectra-{s}-dark-1234.fits"
        arms = {a: dict(wave=w, **{
            k: np.array([arr(e, g, a, k) for _, e in rows])
            for k in ('flux', 'ivar', 'mask')}) for a, w in ARMS.items()}
        reso = {a: np.array([arr(e, g, a, 'reso') for _, e in rows])
                for a in ARMS}
        fb = {m: np.array([meta(e, g)[m] for _, e in rows]) for m in META}
        gen.write_spectra_file(fn, [t for t, _ in rows], arms, fb, reso)

    def read(self, ctx, d, cat, arms, skip):
        qmc.fresh()
        ctx.trace()
        ctx.step()
        return io.get_spectra_reader_function(
            d, arms, False, skip, False, False, True)(cat.copy())

    def verify(self, ctx, specs, want, arms, skip):
        """want: list (tid, e, g)"""
        got = sorted((int(s.targetid), int(s.catrow['EXPID']))
                     for s in specs)
        exp = sorted((t, meta(e, g)['EXPID']) for t, e, g in want)
        ctx.require(got == exp, "exposures returned", got=got, want=exp)
        byexp = {(t, meta(e, g)['EXPID']): (e, g) for t, e, g in want}
        for s in specs:
            t = int(s.targetid)
            e, g = byexp[t, int(s.catrow['EXPID'])]
            for m in META:
                ctx.require(int(s.catrow[m]) == meta(e, g)[m],
                            f"{m} of exposure {e}", got=s.catrow[m])
            ctx.require(abs(s.z_qso - 2.5 - 0.1 * TID.index(t)) < 1e-12
                        and s.ra == TID.index(t)
                        and s.catrow['SURVEY'] == SURV[g]
                        and s.hpix == 1234,
                        "catalog values of another quasar", tid=t)
            for a in arms:
                bad = arr(e, g, a, 'mask') != 0
                f, i = arr(e, g, a, 'flux'), arr(e, g, a, 'ivar')
                f[bad] = 0
                i[bad] = 0
                ctx.same(s.wave[a], ARMS[a], "wave")
                ctx.same(s.flux[a], f, f"flux of exposure {e} {a}")
                ctx.same(s.ivar[a], i, f"ivar of exposure {e} {a}")
                if skip:
                    ctx.require(not s.reso, "resolution not skipped")
                else:
                    ctx.same(s.reso[a], arr(e, g, a, 'reso'),
                             f"resolution of exposure {e} {a}")
        ctx.state(exp, arms, skip)

    def run(self, case, ctx):
        d = ctx.tmp
        kind = case["kind"]
        n = len(case["mult"])
        tids = TID[:n]
        grp = case.get("grp", [0] * n)
        rows, k = {0: [], 1: []}, 0
        for t, m, g in zip(tids, case["mult"], grp):
            for occ in range(m):
                rows[g].append((t, 128 * occ + k))
                k += 1
        want = [(t, e, g) for g in rows for t, e in rows[g]]
        used = sorted(set(grp))
        cat = self.catalog(tids, grp, case.get("tilecols", 0))
        if kind == "one":
            pool = rows[0] + [(FOREIGN, k)] * case["foreign"]
            for i, perm in enumerate(itertools.permutations(pool)):
                ctx.inner = dict(rows=perm)
                self.write(d, 0, perm)
                arms = (['B'], ['B', 'R'], ['R', 'B'])[i % 3]
                for skip in ((True, False) if i < 3 else (bool(i % 2),)):
                    specs = self.read(ctx, d, cat, arms, skip)
                    self.verify(ctx, specs, want, arms, skip)
            ctx.outcome("missing" if 0 in case["mult"] else "all present")
        elif kind == "big":
            if case["two"]:
                for g in used:
                    rows[g] += [(t, k + j) for j, (t, gg) in
                                enumerate(zip(tids, grp)) if gg != g]
            for i in range(6):
                for g in used:
                    r = rows[g] + [(FOREIGN, 100), (FOREIGN, 101)]
                    n = len(r)
                    st = [q for q in range(1, n) if np.gcd(q, n) == 1]
                    st = st[(i * 5) % len(st)]
                    self.write(d, g, [r[(j * st + i) % n] for j in range(n)])
                arms = (['B'], ['B', 'R'], ['R', 'B'])[i % 3]
                ctx.inner = dict(order=i)
                specs = self.read(ctx, d, cat, arms, bool(i % 2))
                self.verify(ctx, specs, want, arms, bool(i % 2))
            ctx.outcome("many exposures")
        elif kind == "two":
            # the other survey's targets appear in each file as well
            for g in used:
                rows[g] += [(t, k + j) for j, (t, gg) in
                            enumerate(zip(tids, grp)) if gg != g]
            for p0 in itertools.permutations(rows[0]):
                for p1 in (rows[1], rows[1][::-1], sorted(rows[1])):
                    ctx.inner = dict(rows0=p0, rows1=p1)
                    self.write(d, 0, p0)
                    self.write(d, 1, p1)
                    specs = self.read(ctx, d, cat, ['B', 'R'], False)
                    self.verify(ctx, specs, want, ['B', 'R'], False)
            ctx.outcome("two surveys")
        else:
            self.write(d, 0, rows[0] + [(FOREIGN, k), (FOREIGN, k + 1)])
            specs = self.read(ctx, d, cat, ['B', 'R'], False)
            self.verify(ctx, specs, want, ['B', 'R'], False)
            ctx.outcome("targets without exposures")


if __name__ == "__main__":
    qmc.main(Q06())
