"""Q02: catalog validation, accepted spellings, choice of the table."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import itertools
import subprocess

import qmc
import gen
import numpy as np
import fitsio

NIGHTS = ['COADD_LASTNIGHT', 'LAST_NIGHT', 'LASTNIGHT']
NAMES = ['QSO_CAT', 'ZCATALOG', 'METADATA']
MODES = {'data': dict(), 'mock': dict(is_mock=True), 'tile': dict(is_tile=True)}

CHILD = r'''
import sys, json, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, sys.argv[1])
import qmc
import qsonic.catalog as c
print(json.dumps([[int(t) for t in c.read_quasar_catalog(f)['TARGETID']]
                  for f in sys.argv[2:]]))
'''


class Q02(qmc.Check):
    pid = "Q02"
    bounds = {
        "quick": "all subsets of the 13 required/alternative column names x "
                 "data/mock/tile; all duplicate patterns of <=4 rows "
                 "(small and 17-digit ids) and every pair of 24 rows; all orders of <=3 HDUs of 5 "
                 "names; 5 survey lists x 4 redshift ranges x 48 catalogs "
                 "for empty selections; 5 hash seeds",
        "thorough": "same with <=5 rows, <=4 HDUs, 10 hash seeds"}
    assumptions = [
        "with several spellings present the canonical one wins; between two "
        "non-canonical last-night spellings either is accepted"]

    def setup(self):
        global catalog
        import qsonic.catalog as catalog

    def cases(self, tier):
        nmax = 4 if tier == "quick" else 5
        for n in range(1, nmax + 1):
            for ids in itertools.product(range(min(n, 3)), repeat=n):
                yield dict(kind="dup", ids=ids)
        N = 24
        for i in range(N):
            for j in range(i):
                yield dict(kind="pair", n=N, ij=(i, j))
        hmax = 3 if tier == "quick" else 4
        for n in range(1, hmax + 1):
            for names in itertools.permutations(NAMES + ['OTHER', 'TARGETS'],
                                                n):
                yield dict(kind="hdu", names=names)
        for mode in MODES:
            for zs in itertools.product((2.5, 4.5), repeat=2):
                for svs in itertools.product(('main', 'sv1'), repeat=2):
                    yield dict(kind="empty", mode=mode, zs=zs, svs=svs)
        yield dict(kind="hash", seeds=5 if tier == "quick" else 10)
        opt = list(itertools.product((1, 0), (1, 0), range(4), range(4),
                                     (1, 0)))
        for mode in MODES:
            for t, z, ra, dec, sv in opt:
                yield dict(kind="cols", mode=mode,
                           cfg=[t, z, ra, dec, sv])

    @staticmethod
    def full(n, ids=None, tiles=None, petals=None, base=0, survey=True):
        cols = {'TARGETID': np.array(ids if ids is not None
                                     else np.arange(n) + 100 + base, 'i8'),
                'Z': 2.2 + 0.1 * np.arange(n),
                'RA': 10. + np.arange(n), 'DEC': 1. * np.arange(n),
                'HPXPIXEL': np.full(n, 7, 'i8')}
        if survey:
            cols['SURVEY'] = np.array(['main'] * n, 'S4')
            cols['LASTNIGHT'] = np.arange(n) + 20210101
        if tiles is not None:
            cols['TILEID'] = np.array(tiles, 'i4')
            cols['PETAL_LOC'] = np.array(petals, 'i4')
        return cols

    def run(self, case, ctx):
        fname = os.path.join(ctx.tmp, "c.fits")
        getattr(self, "run_" + case["kind"])(case, ctx, fname)

    def run_dup(self, case, ctx, fname):
        ids = case["ids"]
        n = len(ids)
        dup = len(set(ids)) < n
        for tids in ([900 - 7 * i for i in ids],
                     [39627939372861215 + i for i in ids],
                     [(-5, 5, 0)[i] for i in ids],
                     [77 + (0, 2**32, 2**16)[i] for i in ids]):
            self.run_dup_ids(ctx, fname, ids, tids, dup, n)

    def run_dup_ids(self, ctx, fname, ids, tids, dup, n):
        for mode in ('data', 'mock'):
            gen.write_table(fname, gen.rec(self.full(
                n, tids, survey=mode == 'data')), 'QSO_CAT')
            ctx.step()
            ctx.trace()
            call = lambda: catalog.read_quasar_catalog(fname, **MODES[mode])
            if dup:
                ctx.raises(call, f"{mode}: duplicate target ids {tids}")
                ctx.outcome("duplicate refused")
            else:
                got = call()
                ctx.require(sorted(got['TARGETID'].tolist()) == sorted(tids),
                            "rows changed")
                ctx.outcome("accepted")
        for tiles in itertools.product(range(2), repeat=n):
            for petals in ([3] * n, list(range(n))):
                ctx.inner = dict(tiles=tiles, petals=petals)
                pairs = set(zip(ids, tiles))
                gen.write_table(fname, gen.rec(self.full(
                    n, tids, [50 + t for t in tiles], petals)), 'QSO_CAT')
                ctx.step()
                ctx.trace()
                call = lambda: catalog.read_quasar_catalog(
                    fname, is_tile=True)
                if len(pairs) < n:
                    ctx.raises(call, "tile: duplicate target-tile pair")
                    ctx.outcome("duplicate refused")
                else:
                    got = call()
                    ctx.require(
                        sorted(zip(got['TARGETID'].tolist(),
                                   got['TILEID'].tolist())) == sorted(
                            zip(tids, [50 + t for t in tiles])),
                        "tile rows changed")
                    ctx.outcome("accepted")
                ctx.state(ids, tiles, petals)

    def run_pair(self, case, ctx, fname):
        n, (i, j) = case["n"], case["ij"]
        tids = [39627939372861215 + (k * 7) % n for k in range(n)]
        bad = list(tids)
        bad[i] = bad[j]
        # refused wherever the repeated target is, in the selection or out
        # of any order; the same target on two tiles is not a repetition
        ti = [80605 - k % 5 for k in range(n)]
        ti[i] = ti[j] + 1
        tj = list(ti)
        tj[i] = tj[j]
        pet = [k % 10 for k in range(n)]
        for what, cols, kw, dup in (
                ("data", self.full(n, bad), {}, True),
                ("mock", self.full(n, bad, survey=False),
                 dict(is_mock=True), True),
                ("tile", self.full(n, bad, ti, pet), dict(is_tile=True),
                 False),
                ("tile", self.full(n, bad, tj, pet), dict(is_tile=True),
                 True),
                ("tile", self.full(n, tids, tj, pet), dict(is_tile=True),
                 False)):
            # one of the surveys and pixels differs
            cols['HPXPIXEL'][i] = 3
            gen.write_table(fname, gen.rec(cols), 'QSO_CAT')
            ctx.inner = what
            ctx.step()
            ctx.trace()
            call = lambda: catalog.read_quasar_catalog(fname, **kw)
            if dup:
                ctx.raises(call, f"{what}: rows {i} and {j} are the same")
                ctx.outcome("duplicate refused")
            else:
                ctx.same(sorted(call()['TARGETID'].tolist()),
                         sorted(cols['TARGETID'].tolist()), "rows")
                ctx.outcome("accepted")
        ctx.state(n, i, j)

    def run_hdu(self, case, ctx, fname):
        names = case["names"]
        with fitsio.FITS(fname, 'rw', clobber=True) as f:
            for i, nm in enumerate(names):
                f.write(gen.rec(self.full(2, base=10 * i)), extname=nm)
        want = next((names.index(nm) for nm in NAMES if nm in names), 0)
        ctx.step()
        ctx.trace()
        got = catalog.read_quasar_catalog(fname)
        ctx.same(got['TARGETID'], [100 + 10 * want, 101 + 10 * want],
                 f"table chosen among {names}")
        ctx.state(names)
        ctx.outcome("by name" if names[want] in NAMES else "fallback")

    def run_empty(self, case, ctx, fname):
        mode = case["mode"]
        cols = self.full(2, survey=mode != 'mock', tiles=[50, 51],
                         petals=[1, 2])
        cols['Z'] = np.array(case["zs"])
        if mode != 'mock':
            cols['SURVEY'] = np.array(case["svs"], 'S4')
        gen.write_table(fname, gen.rec(cols), 'QSO_CAT')
        for keep in (None, ['main'], ['sv1'], ['sv3'], ['sv3', 'main']):
            for zmin, zmax in ((2., 4.), (3., 4.), (4., 5.), (2.5, 2.5)):
                ctx.inner = dict(keep=keep, zmin=zmin, zmax=zmax)
                want = [t for t, z, s in zip(
                    (100, 101), case["zs"], case["svs"])
                    if zmin <= z <= zmax and (
                        mode == 'mock' or keep is None or s in keep)]
                ctx.step()
                ctx.trace()
                call = lambda: catalog.read_quasar_catalog(
                    fname, keep_surveys=keep, zmin=zmin, zmax=zmax,
                    **MODES[mode])
                if want:
                    ctx.same(sorted(call()['TARGETID'].tolist()), want,
                             "rows")
                    ctx.outcome("accepted")
                else:
                    ctx.raises(call, "nothing selected")
                    ctx.outcome("empty refused")
                ctx.state(mode, case["zs"], case["svs"], keep, zmin, zmax)

    def run_hash(self, case, ctx, fname):
        files = []
        for k in (2, 3):
            for names in itertools.permutations(NAMES, k):
                fn = os.path.join(ctx.tmp, "-".join(names) + ".fits")
                with fitsio.FITS(fn, 'rw', clobber=True) as f:
                    for i, nm in enumerate(names):
                        f.write(gen.rec(self.full(2, base=10 * i)),
                                extname=nm)
                files.append(fn)
        outs = {}
        for seed in range(case["seeds"]):
            env = dict(os.environ, PYTHONHASHSEED=str(seed),
                       PYTHONDONTWRITEBYTECODE="1")
            r = subprocess.run([sys.executable, "-c", CHILD, qmc.LIB] + files,
                               env=env, capture_output=True, text=True)
            ctx.require(r.returncode == 0, f"failed: {r.stderr[-800:]}")
            outs[r.stdout] = seed
            ctx.step(len(files))
            ctx.trace()
        ctx.require(len(outs) == 1, "the table read from one and the same "
                    f"file differs between runs (hash seeds {outs})")
        ctx.outcome("same in every run")

    def run_cols(self, case, ctx, fname):
        t, z, ra, dec, sv = case["cfg"]
        mode = case["mode"]
        n = 2
        for nights in itertools.product((0, 1), repeat=3):
            for tile, petal in itertools.product((1, 0), repeat=2):
                cols = {'HPXPIXEL': np.array([5, 5], 'i8'),
                        'VMIN_CIV_450': np.zeros((n, 2))}
                if t:
                    cols['TARGETID'] = np.array([11, 12], 'i8')
                if z:
                    cols['Z'] = np.array([2.5, 2.75])
                exp = {}
                for c, (nm, k) in enumerate((('RA', ra), ('DEC', dec))):
                    if k & 1:
                        cols[nm] = np.array([1.5, 2.5]) + 10 * c
                    if k & 2:
                        cols['TARGET_' + nm] = np.array([3.5, 4.5]) + 10 * c
                    if k:
                        exp[nm] = [cols[nm if k & 1 else 'TARGET_' + nm]]
                if sv:
                    cols['SURVEY'] = np.array(['main', 'sv1'], 'S4')
                have = [nm for nm, k in zip(NIGHTS, nights) if k]
                for nm in have:
                    cols[nm] = np.array([20210101, 20210203], 'i4') + \
                        NIGHTS.index(nm) * 1000
                if have:
                    src = ['LASTNIGHT'] if 'LASTNIGHT' in have else have
                    exp['LASTNIGHT'] = [cols[s] for s in src]
                if tile:
                    cols['TILEID'] = np.array([70, 71], 'i4')
                if petal:
                    cols['PETAL_LOC'] = np.array([2, 3], 'i4')
                ok = t and z and ra and dec
                if mode != 'mock':
                    ok = ok and sv and have
                if mode == 'tile':
                    ok = ok and tile and petal
                table = gen.rec(cols)
                gen.write_table(fname, table, 'QSO_CAT')
                ctx.inner = dict(columns=list(cols))
                ctx.step()
                ctx.trace()
                ctx.state(mode, sorted(cols))
                call = lambda: catalog.read_quasar_catalog(
                    fname, **MODES[mode])
                if not ok:
                    ctx.raises(call, f"{mode}: required column absent from "
                               f"{sorted(cols)}")
                    ctx.outcome("refused")
                    continue
                got = call()
                for nm, alts in exp.items():
                    ctx.require(nm in got.dtype.names, f"no column {nm}")
                    ctx.require(any(np.array_equal(got[nm], a)
                                    for a in alts),
                                f"{nm} has wrong values", got=got[nm])
                ctx.same(got['TARGETID'], [11, 12], "TARGETID")
                ctx.outcome("accepted")


if __name__ == "__main__":
    qmc.main(Q02())
