"""Q01: catalog selection is exact and the result is ordered."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import itertools

import qmc
import gen
import numpy as np

SURV = ['main', 'sv1', 'sv3']
BIG = [39627939372861215, 7, 39627939372861216, 616088561849467904]
ZIN, ZOUT = 2.5, 4.5
# sky positions: poles, wraps, pixel borders and their neighbours
# survey names of which one is part of, or almost, another
NEAR = ['main', 'mai', 'amain', 'main2', 'Main', 'sv1', 'sv', 'sv11']
SKY = [(0., 0.), (359.999, -0.001), (45., 0.), (45., 41.8), (120.3, -33.2),
       (180., 89.9), (300., -89.9), (90., 66.4), (266.4, 12.25), (45.0001, 1e-4),
       (-12.5, 3.), (-170.2, -60.)]


def zdt_edge(zdt, z):
    # a limit which the redshift type of the catalog cannot hold exactly is
    # decided by the boundary cases, not here
    return float(np.dtype(zdt).type(z)) != float(z)


class Q01(qmc.Check):
    pid = "Q01"
    bounds = {
        "quick": "rows<=3 (pixel 2 x survey 2 x z in/out) x all id orders x 5 "
                 "survey lists; 8 similar survey names x all lists of <=2; given pixels "
                 "{0,31,400}^<=3; both sides of pixel borders from 24 seeds x "
                 "mock/data; catalogs of 41 and 130 rows in 6 strided orders; 5 boundary redshifts and NaN x f4/f8 x 4 intervals; "
                 "tile rows<=3; all pairs of 12 sky positions x mock/data",
        "thorough": "rows<=4, surveys 3, tile rows<=4, sky triples"}
    assumptions = [
        "healpy.ang2pix is the definition of the healpix pixel",
        "columns outside the documented set may be dropped",
        "mock catalogs have no SURVEY column"]

    def setup(self):
        global catalog
        import qsonic.catalog as catalog

    def cases(self, tier):
        nmax = 3 if tier == "quick" else 4
        ns = 2 if tier == "quick" else 3
        for n in range(1, nmax + 1):
            alpha = list(itertools.product(range(2), range(ns), (1, 0)))
            if n == 4:
                alpha = list(itertools.product(range(2), range(2), (1, 0)))
            for rows in itertools.product(alpha, repeat=n):
                yield dict(kind="sort", rows=rows)
        for dt in ("f8", "f4"):
            for n in (1, 2, 3):
                for zs in itertools.product(range(6), repeat=n):
                    yield dict(kind="z", dt=dt, zs=zs)
        alpha = list(itertools.product(range(2), range(2), range(2)))
        for n in range(1, nmax + 1):
            for rows in itertools.permutations(alpha, n):
                if len({(r[0], r[2]) for r in rows}) == n:
                    yield dict(kind="tile", rows=rows)
        for k in (1, 2):
            for keep in itertools.combinations(range(len(NEAR)), k):
                for tile in (False, True):
                    yield dict(kind="surv", keep=keep, tile=tile)
        for n in (1, 2, 3):
            for pix in itertools.product((0, 31, 400), repeat=n):
                for mock in (False, True):
                    yield dict(kind="given", pix=pix, mock=mock)
        nseed = 24 if tier == "quick" else 96
        for mock in (False, True):
            for seed in range(nseed):
                yield dict(kind="edge", mock=mock, seed=seed, n=nseed)
        for n in (41, 130) if tier == "quick" else (41, 130, 600):
            for stride in (1, 3, 7, 11, n - 1, n // 2 + 1):
                if np.gcd(stride, n) == 1:
                    for mode in ("data", "mock", "tile"):
                        for zdt in ("f8", "f4"):
                            yield dict(kind="many", n=n, stride=stride,
                                       mode=mode, zdt=zdt)
        k = 2 if tier == "quick" else 3
        for mock in (False, True):
            for names in (0, 1):
                for pos in itertools.permutations(range(len(SKY)), k):
                    yield dict(kind="hpx", mock=mock, names=names, pos=pos)

    # -- helpers ---------------------------------------------------------
    @staticmethod
    def table(n, tids, z, pix, surv, zdt="f8", mock=False, night="LASTNIGHT",
              extra=None, hpx=True, pos=None, posnames=("RA", "DEC")):
        ra = [10.5 + i for i in range(n)] if pos is None else \
            [p[0] for p in pos]
        dec = [-3.25 + i for i in range(n)] if pos is None else \
            [p[1] for p in pos]
        cols = {'Z': np.array(z, dtype=zdt),
                'TARGETID': np.array(tids, dtype='i8')}
        if not mock:
            cols['SURVEY'] = np.array(surv, dtype='S5')
            cols[night] = np.array([20210101 + i for i in range(n)], 'i4')
        cols[posnames[0]] = np.array(ra)
        cols[posnames[1]] = np.array(dec)
        if hpx:
            cols['HPXPIXEL'] = np.array(pix, dtype='i8')
        if extra:
            cols.update(extra)
        cols['VMIN_CIV_450'] = np.arange(2. * n).reshape(n, 2)
        return gen.rec(cols)

    @staticmethod
    def rows_of(cat, names):
        out = []
        for r in cat:
            t = []
            for c in names:
                v = r[c]
                if isinstance(v, np.ndarray):
                    v = tuple(v.tolist())
                elif isinstance(v, bytes):
                    v = v.decode().strip()
                elif isinstance(v, np.generic):
                    v = v.item()
                    v = v.strip() if isinstance(v, str) else v
                    v = v.decode().strip() if isinstance(v, bytes) else v
                t.append(v)
            out.append(tuple(t))
        return out

    def compare(self, ctx, fname, table, key, keep, zmin, zmax, mock, tile,
                rename=None, pixof=None):
        rename = rename or {}
        names = [n for n in table.dtype.names]
        outnames = [rename.get(n, n) for n in names]
        full = self.rows_of(table, names)
        iz = names.index('Z')
        sel = []
        for k, r in enumerate(full):
            if not (zmin <= r[iz] <= zmax):
                continue
            if keep is not None and 'SURVEY' in names \
                    and r[names.index('SURVEY')] not in keep:
                continue
            if pixof is not None:
                r = r + (pixof[k],)
            sel.append(r)
        if pixof is not None:
            outnames = outnames + ['HPXPIXEL']
        idx = [outnames.index(c) for c in key]
        want = sorted(sel, key=lambda r: tuple(r[i] for i in idx))
        ctx.inner = dict(keep=keep, zmin=zmin, zmax=zmax)
        ctx.step()
        ctx.trace()
        kw = dict(is_mock=mock, is_tile=tile, keep_surveys=keep,
                  zmin=zmin, zmax=zmax)
        if not want:
            ctx.raises(lambda: catalog.read_quasar_catalog(fname, **kw),
                       "empty selection")
            ctx.outcome("empty")
            return
        got = catalog.read_quasar_catalog(fname, **kw)
        miss = [c for c in outnames if c not in got.dtype.names]
        ctx.require(not miss, f"columns lost: {miss}")
        grows = self.rows_of(got, outnames)
        ctx.require(sorted(map(repr, grows)) == sorted(map(repr, want)),
                    "rows selected differ", got=grows, want=want)
        ctx.require(grows == want, "order differs", got=grows, want=want)
        ctx.state(grows)
        ctx.outcome(f"{len(want)} rows")

    def run(self, case, ctx):
        fname = os.path.join(ctx.tmp, "cat.fits")
        kind = case["kind"]
        if kind == "sort":
            rows = case["rows"]
            n = len(rows)
            for perm in itertools.permutations(range(n)):
                tids = [BIG[p] for p in perm]
                t = self.table(
                    n, tids, [ZIN if r[2] else ZOUT for r in rows],
                    [(400, 31)[r[0]] for r in rows],
                    [SURV[r[1]] for r in rows])
                gen.write_table(fname, t, "QSO_CAT")
                for keep in (None, ['main'], ['sv1'], ['sv1', 'main'],
                             ['main', 'sv3', 'sv1']):
                    self.compare(ctx, fname, t,
                                 ('HPXPIXEL', 'SURVEY', 'TARGETID'),
                                 keep, 2.0, 4.0, False, False)
                tm = self.table(n, tids, t['Z'], t['HPXPIXEL'], None,
                                mock=True)
                gen.write_table(fname, tm, "ZCATALOG")
                self.compare(ctx, fname, tm, ('HPXPIXEL', 'TARGETID'),
                             ['main'], 2.0, 4.0, True, False)
        elif kind == "z":
            dt = np.dtype(case["dt"]).type
            zlo, zhi = dt(2.1), dt(3.7)
            z5 = [np.nextafter(zlo, dt(0)), zlo, dt(3), zhi,
                  np.nextafter(zhi, dt(9)), dt('nan')]
            n = len(case["zs"])
            t = self.table(n, BIG[:n], [z5[i] for i in case["zs"]],
                           [3] * n, ['main'] * n, zdt=case["dt"])
            gen.write_table(fname, t, "QSO_CAT")
            lo, hi = float(zlo), float(zhi)
            for zmin, zmax in ((lo, hi), (0, hi), (lo, 100.0), (lo, lo)):
                self.compare(ctx, fname, t, ('HPXPIXEL', 'TARGETID'),
                             None, zmin, zmax, False, False)
        elif kind == "tile":
            rows = case["rows"]
            n = len(rows)
            for zpat in itertools.product((1, 0), repeat=n):
                t = self.table(
                    n, [BIG[r[2]] for r in rows],
                    [ZIN if p else ZOUT for p in zpat],
                    [(400, 31)[(i + r[2]) % 2] for i, r in enumerate(rows)],
                    [SURV[(i + 1) % 2] for i in range(n)],
                    extra={'TILEID': np.array([(80605, 1000)[r[0]]
                                               for r in rows], 'i4'),
                           'PETAL_LOC': np.array([(9, 0)[r[1]]
                                                  for r in rows], 'i4')})
                gen.write_table(fname, t, "QSO_CAT")
                for keep in (None, ['main'], ['main', 'sv1']):
                    self.compare(ctx, fname, t,
                                 ('TILEID', 'PETAL_LOC', 'TARGETID'),
                                 keep, 2.0, 4.0, False, True)
        elif kind == "surv":
            n = len(NEAR)
            tids = [BIG[0] + (i * 3) % n for i in range(n)]
            extra = None
            if case["tile"]:
                extra = {'TILEID': np.array([80605] * n, 'i4'),
                         'PETAL_LOC': np.array([9 - i for i in range(n)],
                                               'i4')}
            t = self.table(n, tids, [ZIN] * n, [31] * n, NEAR, extra=extra)
            gen.write_table(fname, t, "QSO_CAT")
            key = ('TILEID', 'PETAL_LOC', 'TARGETID') if case["tile"] else \
                ('HPXPIXEL', 'SURVEY', 'TARGETID')
            self.compare(ctx, fname, t, key, [NEAR[i] for i in case["keep"]],
                         2.0, 4.0, False, case["tile"])
        elif kind == "many":
            n, mode = case["n"], case["mode"]
            ii = (np.arange(n) * case["stride"]) % n
            zs = [2.5, 4.5, 2.0, 3.1, 4.0, 1.5, 3.75]
            t = self.table(
                n, [BIG[0] + int(i) * (1, -5)[int(i) % 2] for i in ii],
                [zs[i % 7] for i in ii],
                [(400, 31, 7, 9999, 32, 4000, 0, 310, 41)[(i // 2) % 9]
                 for i in ii],
                [('main', 'sv1', 'sv3', 'cmx')[(i // 3) % 4] for i in ii],
                zdt=case["zdt"], mock=mode == "mock",
                extra={'TILEID': np.array([(8060, 1000, 99, 80605)[i % 4]
                                           for i in ii], 'i4'),
                       'PETAL_LOC': np.array([(i // 4) % 10 for i in ii],
                                             'i4')}
                if mode == "tile" else None)
            gen.write_table(fname, t, "QSO_CAT")
            key = {"tile": ('TILEID', 'PETAL_LOC', 'TARGETID'),
                   "mock": ('HPXPIXEL', 'TARGETID'),
                   "data": ('HPXPIXEL', 'SURVEY', 'TARGETID')}[mode]
            for keep in (None, ['main'], ['sv3', 'cmx'],
                         ['sv1', 'sv3', 'cmx']):
                for zmin, zmax in ((2., 4.), (0, 100.), (3.1, 3.75)):
                    if zdt_edge(case["zdt"], zmin):
                        continue
                    self.compare(ctx, fname, t, key, keep, zmin, zmax,
                                 mode == "mock", mode == "tile")
        elif kind == "given":
            n = len(case["pix"])
            for pdt in ('i8', 'i4'):
                t = self.table(n, BIG[:n], [ZIN] * n, case["pix"],
                               ['main'] * n, mock=case["mock"])
                dt = [(c, pdt) if c == 'HPXPIXEL' else (c,) + (
                    (t.dtype[c].base, t.dtype[c].shape)
                    if t.dtype[c].shape else (t.dtype[c],))
                    for c in t.dtype.names]
                t = t.astype(dt)
                gen.write_table(fname, t, "QSO_CAT")
                self.compare(ctx, fname, t, ('HPXPIXEL', 'TARGETID'), None,
                             0, 100.0, case["mock"], False)
        elif kind == "edge":
            from healpy import ang2pix
            nside = 16 if case["mock"] else 64

            def pix(r, d):
                return int(ang2pix(nside, float(r), float(d), lonlat=True,
                                   nest=True))
            f = float
            # points spread over the sphere, then the border of their pixel
            k = case["seed"] + 0.5
            ra0 = (k * 137.50776405) % 360
            dec0 = np.degrees(np.arcsin(1 - 2 * k / case["n"]))
            pos = []
            for axis in (0, 1):
                lo = [f(ra0), f(dec0)]
                hi = list(lo)
                step = 10. / nside
                while pix(*hi) == pix(*lo):
                    hi[axis] = f(hi[axis] + (step if hi[axis] < 80 else
                                             -step))
                while True:
                    mid = list(lo)
                    mid[axis] = f((float(lo[axis]) + float(hi[axis])) / 2)
                    if mid[axis] in (lo[axis], hi[axis]) or \
                            abs(float(lo[axis]) - float(hi[axis])) < 1e-7:
                        break
                    if pix(*mid) == pix(*lo):
                        lo = mid
                    else:
                        hi = mid
                pos += [tuple(lo), tuple(hi)]
            n = len(pos)
            t = self.table(n, BIG[:n], [ZIN] * n, None, ['main'] * n,
                           mock=case["mock"], hpx=False, pos=pos)
            gen.write_table(fname, t, "QSO_CAT")
            self.compare(ctx, fname, t, ('HPXPIXEL', 'TARGETID'), None,
                         0, 100.0, case["mock"], False,
                         pixof=[pix(*p) for p in pos])
        else:
            from healpy import ang2pix
            pos = [SKY[i] for i in case["pos"]]
            n = len(pos)
            nside = 16 if case["mock"] else 64
            names = ("RA", "DEC") if case["names"] == 0 else \
                ("TARGET_RA", "TARGET_DEC")
            pix = [int(ang2pix(nside, p[0], p[1], lonlat=True, nest=True))
                   for p in pos]
            t = self.table(n, BIG[:n], [ZIN] * n, None, ['main'] * n,
                           mock=case["mock"], hpx=False, pos=pos,
                           posnames=names)
            gen.write_table(fname, t, "QSO_CAT")
            for keep in (None, ['main'], ['main', 'sv1']):
                self.compare(ctx, fname, t, ('HPXPIXEL', 'TARGETID'), keep,
                             0, 100.0, case["mock"], False,
                             rename={"TARGET_RA": "RA", "TARGET_DEC": "DEC"},
                             pixof=pix)


if __name__ == "__main__":
    qmc.main(Q01())
