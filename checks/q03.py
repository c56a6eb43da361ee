"""Q03: the catalog is distributed as an exact, pixel-preserving partition."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import itertools

import qmc
import gen
import simmpi
import numpy as np


class Q03(qmc.Check):
    pid = "Q03"
    bounds = {
        "quick": "all group size sequences of <=4 groups with sizes 1-3 (and "
                 "1-5 groups of sizes 1,4) x 1-4 and 7 processes x healpix/tile, two "
                 "extreme schedules each; 6-34 groups of sizes 1-40 x up to "
                 "33 processes; all schedules for <=3 processes; "
                 "balance_load directly: multisets of <=7 groups, sizes 1-4, "
                 "1-6 processes",
        "thorough": "<=5 groups with sizes 1-4, 1-8 and 12 processes; balance_load "
                    "<=9 groups, sizes 1-5, 1-8 processes"}
    assumptions = [
        "non-master processes get a file name that does not exist, so any "
        "reading outside the master shows up"]

    def setup(self):
        global catalog, mpi_utils, QsonicException
        import qsonic.catalog as catalog
        import qsonic.mpi_utils as mpi_utils
        from qsonic import QsonicException

    def cases(self, tier):
        q = tier == "quick"
        yield dict(kind="fail")
        for tile in (False, True):
            for sizes in ([1], [2, 1], [1, 3, 2]):
                yield dict(kind="sched", sizes=sizes, tile=tile)
        seen = set()
        for ng in range(1, 6):
            alpha = (range(1, 4) if ng < 5 else (1, 4)) if q \
                else range(1, 5)
            for sizes in itertools.product(alpha, repeat=ng):
                for tile in (False, True):
                    if (sizes, tile) not in seen:
                        seen.add((sizes, tile))
                        yield dict(kind="run", sizes=sizes, tile=tile)
        for ng in (6, 9, 17, 34):
            for rot in range(0, 17, 4 if q else 1):
                sizes = [self.BIGS[(i * (1 + ng // 17) + rot) % 17]
                         for i in range(ng)]
                for tile in (False, True):
                    yield dict(kind="run", sizes=sizes, tile=tile, big=1)
                yield dict(kind="balance", sizes=sizes, big=1)
                for mul in (7, 41, 1000):
                    yield dict(kind="balance", big=1,
                               sizes=[s * mul + k for k, s in
                                      enumerate(sizes)])
        for ng in range(0, 8 if q else 10):
            for sizes in itertools.combinations_with_replacement(
                    range(1, 5 if q else 6), ng):
                yield dict(kind="balance", sizes=sizes)

    # small, beyond 8, 15, 16 and 31 bits, up to the last pixel of nside 64
    PIX = [5, 49151, 300, 40000, 8, 65541] + [
        (i * 1237 + 11) % 49139 for i in range(40)]
    BIGS = [1, 40, 3, 12, 12, 7, 1, 25, 2, 9, 33, 4, 1, 1, 18, 6, 5]

    @classmethod
    def table(cls, sizes, tile):
        n = sum(sizes)
        rng = np.arange(n)
        pix = np.repeat(cls.PIX[:len(sizes)], sizes)
        # input rows interleaved, not sorted
        perm = np.lexsort((pix, -(rng * 7 % n)))
        cols = {'TARGETID': (1000 - rng * 3 + (rng % 3) * 2**55).astype('i8'),
                'Z': 2.0 + 0.001 * rng, 'RA': 10. + rng, 'DEC': 1. * rng,
                'SURVEY': np.array([('main', 'sv1')[i % 2]
                                    for i in range(n)], 'S4'),
                'LASTNIGHT': 20210000 + rng}
        if tile:
            cols['TILEID'] = pix.astype('i4')
            cols['PETAL_LOC'] = (rng % 3).astype('i4')
            cols['HPXPIXEL'] = (rng % 2).astype('i8')
        else:
            cols['HPXPIXEL'] = pix.astype('i8')
        return gen.rec(cols)[perm]

    def verify(self, ctx, results, table, tile, size):
        key = 'TILEID' if tile else 'HPXPIXEL'
        order = [key, 'PETAL_LOC' if tile else 'SURVEY', 'TARGETID']
        want = np.sort(table, order=order)
        groups, counts, rows = [], [], []
        for r, res in enumerate(results):
            ctx.require(res.kind == 'value', f"rank {r}: {res!r} {res.text}")
            ctx.require(isinstance(res.value, list),
                        f"rank {r} received {type(res.value)}")
            counts.append(sum(c.size for c in res.value))
            for c in res.value:
                ctx.require(c.size > 0, "empty group")
                u = np.unique(c[key])
                ctx.require(u.size == 1, f"group mixes {key}", got=u)
                groups.append(int(u[0]))
                rows.append(c)
                ctx.require(all(c['TARGETID'] == np.sort(
                    c, order=order)['TARGETID']), "group is not sorted")
        ctx.require(len(groups) == len(set(groups)),
                    f"a {key} is split over groups", groups=groups)
        allr = np.concatenate(rows)
        ctx.require(allr.size == want.size, "number of rows", got=allr.size,
                    want=want.size)
        allr = np.sort(allr, order=order)
        for nm in table.dtype.names:
            ctx.require(all(np.char.strip(allr[nm].astype(str)) ==
                            np.char.strip(want[nm].astype(str))),
                        f"column {nm} changed")
        big = max(np.unique(table[key], return_counts=True)[1])
        ctx.require(max(counts) - min(counts) <= big,
                    "unbalanced: process loads differ by more than the "
                    "largest group", counts=counts, largest=big)
        ctx.state(counts, groups)

    def run(self, case, ctx):
        getattr(self, "run_" + case["kind"])(case, ctx)

    def body(self, fname, tile, **kw):
        def f(comm):
            r = comm.Get_rank()
            fn = fname if r == 0 else fname + ".absent"
            return catalog.mpi_get_local_queue(
                fn, comm, r, comm.Get_size(), is_tile=tile, **kw)
        return f

    def run_run(self, case, ctx):
        fname = os.path.join(ctx.tmp, "c.fits")
        t = self.table(case["sizes"], case["tile"])
        gen.write_table(fname, t, 'QSO_CAT')
        for size in (1, 2, 3, 5, 8, 16, 33) if case.get("big") else \
                (1, 2, 3, 4, 7) if ctx.tier == "quick" else \
                (1, 2, 3, 4, 5, 6, 7, 8, 12):
            for order in (range(size), range(size)[::-1]):
                ctx.inner = dict(size=size, order=list(order))
                res = simmpi.run_one(size, self.body(fname, case["tile"]),
                                     order)
                self.verify(ctx, res, t, case["tile"], size)
                ctx.step(size)
                ctx.trace()
                ctx.outcome(f"{size} processes")

    def run_sched(self, case, ctx):
        fname = os.path.join(ctx.tmp, "c.fits")
        t = self.table(case["sizes"], case["tile"])
        gen.write_table(fname, t, 'QSO_CAT')
        # serial use
        q = catalog.mpi_get_local_queue(fname, is_tile=case["tile"])
        self.verify(ctx, [simmpi.Result('value', q)], t, case["tile"], 1)
        for size in (1, 2, 3):
            for sync in (False, True):
                def check(res, choices, w):
                    ctx.inner = dict(size=size, schedule=choices, sync=sync)
                    ctx.require(not isinstance(res, BaseException),
                                f"protocol: {res}")
                    self.verify(ctx, res, t, case["tile"], size)
                n, st, full = simmpi.explore_schedules(
                    size, lambda: self.body(fname, case["tile"]), check, sync)
                ctx.add("schedules", n)
                if not full:
                    ctx.add("preemption_bounded", 1)
                ctx.step(st)
                ctx.trace(n)

    def run_fail(self, case, ctx):
        good = os.path.join(ctx.tmp, "c.fits")
        gen.write_table(good, self.table([2, 1], False), 'QSO_CAT')
        bad = os.path.join(ctx.tmp, "bad.fits")
        t = self.table([2, 1], False)
        gen.write_table(bad, t[['TARGETID', 'RA']], 'QSO_CAT')
        dup = os.path.join(ctx.tmp, "dup.fits")
        t['TARGETID'] = 5
        gen.write_table(dup, t, 'QSO_CAT')
        for what, fn, kw in (("missing file", good + "x", {}),
                             ("missing column", bad, {}),
                             ("duplicates", dup, {}),
                             ("nothing selected", good, dict(zmin=50))):
            for size in (1, 2, 3):
                for sync in (False, True):
                    def check(res, choices, w):
                        ctx.inner = dict(size=size, what=what,
                                         schedule=choices, sync=sync)
                        ctx.require(not isinstance(res, BaseException),
                                    f"protocol: {res}")
                        for r in res:
                            ctx.require(
                                r.kind == 'raise' and isinstance(
                                    r.value, QsonicException),
                                f"{what}: {r!r} {r.text}")
                        ctx.require(len({str(r.value) for r in res}) == 1,
                                    "different errors")
                    n, st, full = simmpi.explore_schedules(
                        size, lambda: self.body(fn, False, **kw), check, sync)
                    ctx.add("schedules", n)
                    if not full:
                        ctx.add("preemption_bounded", 1)
                    ctx.step(st)
                    ctx.trace(n)
                    ctx.outcome("same failure everywhere")

    def run_balance(self, case, ctx):
        sizes = case["sizes"]
        for perm in (sizes, sizes[::-1]):
            for size in (1, 2, 3, 7, 16, 40) if case.get("big") else \
                    range(1, 7 if ctx.tier == "quick" else 9):
                ctx.inner = dict(order=perm, size=size)
                cats = [np.full(s, i) for i, s in enumerate(perm)]
                q = mpi_utils.balance_load(list(cats), size)
                ctx.require(len(q) == size, "a process gets no list")
                ids = sorted(int(c[0]) for p in q for c in p)
                ctx.require(ids == list(range(len(perm))),
                            "groups lost or repeated", got=ids)
                for p in q:
                    for c in p:
                        ctx.require(c.size == perm[int(c[0])], "group cut")
                n = [sum(c.size for c in p) for p in q]
                ctx.require(max(n) - min(n) <= max(sizes, default=0),
                            "unbalanced", loads=n)
                ctx.state(n)
                ctx.step()
                ctx.trace()


if __name__ == "__main__":
    qmc.main(Q03())
