"""Q16: coadding delta files conserves targets and averages correctly."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import glob
import itertools
import multiprocessing

import qmc
import gen
import fitsio
import healpy
import numpy as np

W0, DW = 3600., 0.8
REAL_POOL = multiprocessing.Pool
FAKE = {"order": None, "real": False}


class _Res:
    def __init__(self, v):
        self.v = v

    def get(self, timeout=None):
        return self.v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return True


class FakePool:
    """Runs the tasks one by one in a chosen completion order."""
    def __init__(self, processes=None, initializer=None, initargs=(), **k):
        if initializer:
            initializer(*initargs)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def _run(self, calls, ordered=True):
        calls = list(calls)
        idx = list(range(len(calls)))
        if FAKE["order"] == "reverse":
            idx = idx[::-1]
        elif FAKE["order"] == "rotate" and idx:
            idx = idx[1:] + idx[:1]
        res = {i: calls[i]() for i in idx}
        return [res[i] for i in (range(len(calls)) if ordered else idx)]

    def map(self, f, it, chunksize=None):
        return self._run([lambda x=x: f(x) for x in it])

    def starmap(self, f, it, chunksize=None):
        return self._run([lambda x=x: f(*x) for x in it])

    def imap(self, f, it, chunksize=None):
        return iter(self.map(f, it))

    def imap_unordered(self, f, it, chunksize=None):
        return iter(self._run([lambda x=x: f(x) for x in it], False))

    def map_async(self, f, it, chunksize=None, callback=None, **k):
        r = self.map(f, it)
        if callback:
            callback(r)
        return _Res(r)

    def starmap_async(self, f, it, chunksize=None, callback=None, **k):
        r = self.starmap(f, it)
        if callback:
            callback(r)
        return _Res(r)

    def apply(self, f, args=(), kwds={}):
        return f(*args, **kwds)

    def apply_async(self, f, args=(), kwds={}, callback=None, **k):
        r = f(*args, **kwds)
        if callback:
            callback(r)
        return _Res(r)

    def close(self):
        pass

    join = terminate = close


def pool(*a, **k):
    return REAL_POOL(*a, **k) if FAKE["real"] else FakePool(*a, **k)


# -- controlled directory listing order ------------------------------------
_glob, _iglob, _listdir, _scandir = (
    glob.glob, glob.iglob, os.listdir, os.scandir)
LIST = {"rev": None}


def _ordered(names, key=lambda x: x):
    names = list(names)
    if LIST["rev"] is None:
        return names
    return sorted(names, key=key, reverse=LIST["rev"])


class Q16(qmc.Check):
    pid = "Q16"
    bounds = {
        "quick": "every pair of deltas of 1-3 pixels over 15 relative "
                 "placements (disjoint, touching, overlapping, nested) x "
                 "every mask pattern x {no, equal, different} large-scale "
                 "variance, weights above the inverse variance x resolution {none, equal, different widths}, "
                 "both orders, pixels of 0.6-10 A; every triple over 6 placements x masks "
                 "without large-scale variance, all 6 orders; the tool on "
                 "every distribution of 5 deltas of 3 targets over 3 files "
                 "in 2 directories x 2 listing orders x 3 completion orders "
                 "x nside {2, 8} x ring/nested; real pools of 1-3 workers; 16 targets with 1-8 "
                 "deltas of up to 60 pixels in 1-4 directories; 20-260 targets in "
                 "one pixel of the sky; targets 0.007-1 arcsec from the border of "
                 "two pixels; 130-201 files; pixel widths that change from "
                 "coadd to coadd; ids of both signs",
        "thorough": "pairs of 1-4 pixels, triples over 12 placements"}
    assumptions = [
        "wavelengths lie on one common grid, of 0.8 A or as in the header",
        "where weights exceed the inverse variance (eta < 1) coadded weights "
        "are only bounded",
        "all deltas of a target have the same blinding and position"]

    def setup(self):
        global Delta, tool, read_deltas
        multiprocessing.Pool = pool
        from qsonic.spectrum import Delta
        from qsonic.io import read_deltas
        import qsonic.scripts.qsonic_coadd_deltas as tool
        glob.glob = lambda *a, **k: _ordered(_glob(*a, **k))
        glob.iglob = lambda *a, **k: iter(_ordered(_iglob(*a, **k)))
        os.listdir = lambda *a: _ordered(_listdir(*a))
        qmc.snapshot(Delta)

    # ------------------------------------------------------------------
    def cases(self, tier):
        nmax = 3 if tier == "quick" else 4
        lay = []
        for n1, n2 in itertools.product(range(1, nmax + 1), repeat=2):
            for off in range(-n2 - 2, n1 + 3):
                lay.append((n1, n2, off))
        for n1, n2, off in lay:
            if tier == "quick" and max(n1, n2) == 3 and off not in (
                    -5, -3, -2, 0, 1, 3, 5):
                continue
            for lss in (0, 1, 2):
                yield dict(kind="pair", n1=n1, n2=n2, off=off, lss=lss)
            yield dict(kind="pair", n1=n1, n2=n2, off=off, lss=3)
            if tier != "quick" or max(n1, n2) < 3:
                for dw in (0.6, 2.4, 10.):
                    yield dict(kind="pair", n1=n1, n2=n2, off=off, lss=1,
                               dw=dw)
        trip = [(0, 0, 0), (0, 1, 2), (0, 3, 1), (0, 4, 8), (0, 0, 5),
                (2, 0, 1)]
        if tier != "quick":
            trip += [(5, 0, 2), (0, 2, 4), (1, 1, 0), (0, 8, 4), (0, 9, 5),
                     (3, 0, 3)]
        for t in trip:
            for reso in (0, 1):
                yield dict(kind="triple", offs=t, reso=reso)
            yield dict(kind="triple", offs=t, reso=0, eta=1)
        for files in itertools.product(range(3), repeat=5):
            yield dict(kind="tool", files=files)
        for nproc in (1, 2, 3):
            for nf in (1, 2, 3, 5):
                yield dict(kind="pool", nproc=nproc, nf=nf)
        for rot in range(4 if tier == "quick" else 16):
            for ndir in (1, 3, 4):
                yield dict(kind="big", rot=rot, ndir=ndir)
        for dw in (2.4, 0.6):
            yield dict(kind="widths", dw=dw)
        for n, nproc in ((130, 2), (201, 3), (130, None)):
            yield dict(kind="files", n=n, nproc=nproc)
        yield dict(kind="border")
        for n in (20, 110, 260):
            for nproc in (None, 3):
                yield dict(kind="crowd", n=n, nproc=nproc)
        yield dict(kind="none")

    def run(self, case, ctx):
        FAKE.update(order=None, real=False)
        LIST["rev"] = False
        self.dw = case.get("dw", DW)
        getattr(self, "run_" + case["kind"])(case, ctx)

    # ------------------------------------------------------------------
    dw = DW

    def data(self, k, start, mask, lss, ndiag=0):
        """boring description of a delta, arrays by grid index"""
        n = len(mask)
        i = np.arange(n)
        good = np.array([m == 0 for m in mask])
        ivar = np.where(good, 1. + 0.5 * k + 0.25 * i, 0.)
        d = np.where(good, 0.3 * k - 0.2 + 0.1 * i * (-1)**k, 7.)
        w = np.zeros(n)
        w[good] = 1. / (1. / ivar[good] + lss)
        return dict(start=start, wave=W0 + self.dw * (start + i), delta=d,
                    ivar=ivar, weight=w, cont=2. + k + 0.125 * i,
                    reso=None if not ndiag else np.exp(
                        -np.arange(-(ndiag // 2), ndiag // 2 + 1)[:, None]**2
                        / (2. + 0.5 * k + 0.1 * i)))

    def hdu(self, f, d, tid, ra=10., dec=20., blind=False, ext=None):
        t = {'LAMBDA': d['wave'],
             'DELTA_BLIND' if blind else 'DELTA': d['delta'],
             'IVAR': d['ivar'], 'WEIGHT': d['weight'], 'CONT': d['cont']}
        if d['reso'] is not None:
            t['RESOMAT'] = np.ascontiguousarray(d['reso'].T)
        good = d['ivar'] > 0
        snr = np.sum(np.sqrt(d['ivar'][good]) * (1 + d['delta'][good])) / max(
            1, good.sum())
        # files without the pixel width are on the default grid
        h = {} if self.dw == DW and tid % 2 else {'DELTA_LAMBDA': self.dw}
        f.write(gen.rec(t), header={
            **h, 'TARGETID': tid, 'LOS_ID': tid, 'RA': np.radians(ra),
            'DEC': np.radians(dec), 'Z': 2.5, 'MEANSNR': snr,
            'BLINDING': blind or 'none'},
            extname=ext or f"{tid}-B")

    def merge(self, parts):
        """index -> weighted mean of all parts at that pixel"""
        lo = min(p['start'] for p in parts)
        hi = max(p['start'] + len(p['delta']) for p in parts)
        out = []
        nd = max(p['reso'].shape[0] if p['reso'] is not None else 0
                 for p in parts)
        if any(p['reso'] is None for p in parts):
            nd = 0
        for i in range(lo, hi):
            c = [(p, i - p['start']) for p in parts
                 if p['start'] <= i < p['start'] + len(p['delta'])]
            w = [p['weight'][j] for p, j in c]
            W = sum(w)
            row = dict(wave=W0 + self.dw * i, delta=0., ivar=0., weight=0.,
                       cont=0., reso=None, cover=len(c), W=W)
            pads = []
            for p, j in c if nd else ():
                e = (nd - p['reso'].shape[0]) // 2
                pads.append(np.pad(p['reso'][:, j], (e, e)))
            row['pads'] = pads
            if W > 0:
                row['delta'] = sum(
                    x * p['delta'][j] for x, (p, j) in zip(w, c)) / W
                row['cont'] = sum(
                    x * p['cont'][j] for x, (p, j) in zip(w, c)) / W
                v = sum(x**2 / p['ivar'][j]
                        for x, (p, j) in zip(w, c) if x > 0) / W**2
                lss = sum(x * (1 / x - 1 / p['ivar'][j])
                          for x, (p, j) in zip(w, c) if x > 0) / W
                row['ivar'] = 1 / v
                row['weight'] = 1 / (v + lss)
                if nd:
                    row['reso'] = sum(
                        x * r for x, r in zip(w, pads)) / W
            out.append(row)
        return out, nd

    def compare(self, ctx, d, parts, what):
        want, nd = self.merge(parts)
        for at in ('wave', 'delta', 'ivar', 'weight', 'cont'):
            g = np.asarray(getattr(d, at))
            ctx.require(bool(np.all(np.isfinite(g))), f"{what}: {at} finite",
                        got=g)
            if at == 'cont':
                m = [r['W'] > 0 for r in want]
                ctx.require(g.size == len(want), f"{what}: size of cont")
                ctx.same(g[m], np.array([r[at] for r in want])[m],
                         f"{what}: {at}", rtol=1e-7, atol=1e-9)
            elif at == 'weight' and any(
                    np.any(p['weight'] > p['ivar']) for p in parts):
                iv = np.array([r['ivar'] for r in want])
                ctx.require(g.size == iv.size and bool(
                    np.all((g > 0) == (iv > 0))
                    and np.all(g <= np.array([r['W'] for r in want])
                               * (1 + 1e-9))),
                    f"{what}: weights", got=g, want=want)
            else:
                ctx.same(g, [r[at] for r in want], f"{what}: {at}",
                         rtol=1e-7, atol=1e-9)
        good = np.array([r['ivar'] > 0 for r in want])
        if good.any():
            snr = np.mean([np.sqrt(r['ivar']) * (1 + r['delta'])
                           for r in want if r['ivar'] > 0])
            ctx.same(d.mean_snr, snr, f"{what}: mean S/N", rtol=1e-7)
        ctx.require(bool(np.isfinite(d.mean_snr)), f"{what}: mean S/N finite")
        if not nd:
            ctx.require(d.reso is None, f"{what}: resolution of nothing")
            return
        ctx.require(d.reso is not None, f"{what}: resolution lost")
        ctx.require(d.reso.shape == (nd, len(want)),
                    f"{what}: shape of resolution", got=d.reso.shape,
                    want=(nd, len(want)))
        ctx.require(bool(np.all(np.isfinite(d.reso))),
                    f"{what}: resolution is finite", got=d.reso)
        for i, r in enumerate(want):
            if r['reso'] is not None:
                ctx.same(d.reso[:, i], r['reso'], f"{what}: resolution at "
                         f"pixel {i}", rtol=1e-5, atol=1e-7)
            elif r['pads']:
                # no weight at all: any mixture of what is there (an
                # earlier merge may have left an empty pixel here)
                lo = np.min(r['pads'], 0) if len(parts) == 2 else 0.
                hi = np.max(r['pads'], 0)
                ctx.require(bool(np.all(d.reso[:, i] >= lo - 1e-9)
                                 and np.all(d.reso[:, i] <= hi + 1e-9)),
                            f"{what}: resolution of a masked pixel is that "
                            "of its deltas", got=d.reso[:, i])

    def bounded(self, ctx, d, parts, what):
        """weights above the inverse variance, several merges"""
        want, _ = self.merge(parts)
        ctx.same(d.wave, [r['wave'] for r in want], f"{what}: wave",
                 rtol=1e-9)
        for i, r in enumerate(want):
            c = [p['delta'][j] for p in parts
                 for j in (int(round((r['wave'] - p['wave'][0]) / self.dw)),)
                 if 0 <= j < len(p['delta']) and p['ivar'][j] > 0]
            ok = (d.ivar[i] > 0) == bool(c) and (d.weight[i] > 0) == bool(c) \
                and d.weight[i] <= r['W'] * (1 + 1e-9)
            ctx.require(bool(ok), f"{what}: pixel {i}", ivar=d.ivar[i],
                        weight=d.weight[i], parts=c)
            if c:
                ctx.require(min(c) - 1e-9 <= d.delta[i] <= max(c) + 1e-9,
                            f"{what}: delta of pixel {i}", got=d.delta[i],
                            parts=c)

    def load(self, ctx, parts, tid=77):
        fn = os.path.join(ctx.tmp, "p.fits")
        with fitsio.FITS(fn, 'rw', clobber=True) as f:
            for k, p in enumerate(parts):
                self.hdu(f, p, tid, ext=f"{tid}-{k}")
        return lambda: read_deltas(fn)

    def run_pair(self, case, ctx):
        n1, n2, off = case["n1"], case["n2"], case["off"]
        lss = {0: (0., 0.), 1: (0.5, 0.5), 2: (0.25, 1.5),
               3: (0., 0.)}[case["lss"]]
        for m1 in itertools.product((0, 1), repeat=n1):
            for m2 in itertools.product((0, 1), repeat=n2):
                for nd in ((0, 0), (5, 5), (3, 7), (3, 0)):
                    ctx.inner = (m1, m2, nd)
                    base = max(0, -off)
                    parts = [self.data(0, base, m1, lss[0], nd[0]),
                             self.data(1, base + off, m2, lss[1], nd[1])]
                    if case["lss"] == 3:
                        parts[0]['weight'] *= 3.
                        parts[1]['weight'] *= 2.5
                    rd = self.load(ctx, parts)
                    for o in ((0, 1), (1, 0)):
                        ds = rd()
                        ds[o[0]].coadd(ds[o[1]])
                        self.compare(ctx, ds[o[0]], parts, f"order {o}")
                        ctx.step()
                    ctx.trace(2)
                    ctx.state("pair", case, m1, m2, nd)

    def run_triple(self, case, ctx):
        offs = case["offs"]
        nd = (3, 5, 3) if case["reso"] else (0, 0, 0)
        for m in itertools.product(
                itertools.product((0, 1), repeat=2), repeat=3):
            parts = [self.data(k, offs[k], (m[k] + (0,))[:3], 0., nd[k])
                     for k in range(3)]
            if case.get("eta"):
                for p in parts:
                    p['weight'] *= 3.
            rd = self.load(ctx, parts)
            for o in itertools.permutations(range(3)):
                ctx.inner = (m, o)
                ds = rd()
                d = ds[o[0]]
                d.coadd(ds[o[1]])
                d.coadd(ds[o[2]])
                if case.get("eta"):
                    self.bounded(ctx, d, parts, f"order {o}")
                else:
                    self.compare(ctx, d, parts, f"order {o}")
                ctx.step(2)
                ctx.trace()
            ctx.state("triple", offs, m)

    # -- the tool ------------------------------------------------------
    POS = {39627939372861215: (10., 20.), 8: (200.5, -30.),
           2305843050176020481: (10.1, 20.1)}
    TIDS = [39627939372861215, 8, 39627939372861215, 2305843050176020481, 8]

    def inputs(self, root, files, lss=0.4, blind=False, reso=5):
        dirs = [os.path.join(root, x) for x in ("a", "b")]
        names = [os.path.join(dirs[0], "delta-0.fits"),
                 os.path.join(dirs[0], "delta-12.fits"),
                 os.path.join(dirs[1], "delta-main-0.fits"),
                 os.path.join(dirs[1], "delta-1.fits"),
                 os.path.join(dirs[1], "delta-2.fits")]
        for d in dirs:
            os.makedirs(d)
        parts, ext = {}, {}
        for k, fi in enumerate(files):
            tid = self.TIDS[k]
            p = self.data(k, [0, 2, 3, 1, 9][k], [(0, 1, 0), (0, 0), (1, 0),
                          (0, 0, 0, 0), (0,)][k], lss, reso)
            parts.setdefault(tid, []).append(p)
            ext.setdefault(fi, []).append((tid, p, k))
        for fi, hs in ext.items():
            with fitsio.FITS(names[fi], 'rw', clobber=True) as f:
                for tid, p, k in hs:
                    self.hdu(f, p, tid, *self.POS[tid], blind=blind,
                             ext=f"{tid}-{'BRZ'[k % 3]}")
        # files the tool must not take for deltas
        with open(os.path.join(dirs[0], "attributes.fits"), "w") as f:
            f.write("x")
        return dirs, parts

    def tool_run(self, ctx, dirs, out, nside, nest, nproc):
        os.makedirs(out)
        argv = sys.argv
        sys.argv = ["qsonic-coadd-deltas", "--input-dirs"] + dirs + [
            "--output-dir", out]
        if nside != 8:
            sys.argv += ["--nside", str(nside)]
        if nest:
            sys.argv.append("--nest")
        if nproc:
            sys.argv += ["--nproc", str(nproc)]
        try:
            ctx.step()
            tool.main()
        finally:
            sys.argv = argv

    def check_out(self, ctx, out, parts, nside, nest, blind=False):
        seen = {}
        for fn in sorted(_listdir(out)):
            p = os.path.join(out, fn)
            with fitsio.FITS(p) as f:
                cols = [h.get_colnames() for h in f[1:]]
                labels = {h.read_header()['BLINDING'].strip() for h in f[1:]}
            ctx.require(labels == {blind or "none"}, "blinding label kept",
                        got=labels)
            for c in cols:
                ctx.require(("DELTA_BLIND" in c) == bool(blind),
                            "blinded column kept", got=c)
            for d in read_deltas(p):
                tid = int(d.targetid)
                ctx.require(tid not in seen, "target is written twice",
                            tid=tid)
                seen[tid] = fn
                ctx.require(tid in parts, "unknown target", tid=tid)
                ra, dec = self.POS[tid]
                pix = healpy.ang2pix(nside, ra, dec, lonlat=True, nest=nest)
                ctx.require(fn == f"delta-{pix}.fits", "file of the target",
                            got=fn, want=pix)
                ctx.same(d.ra, ra, "position kept")
                ctx.same(d.dec, dec, "position kept")
                if len(parts[tid]) > 1:
                    self.compare(ctx, d, parts[tid], f"target {tid}")
                else:
                    q = parts[tid][0]
                    want = dict(q)
                    want['delta'] = np.where(q['ivar'] > 0, q['delta'], 0)
                    for at in ('wave', 'delta', 'ivar', 'weight', 'cont'):
                        ctx.same(getattr(d, at), want[at],
                                 f"single delta unchanged: {at}")
                    if q['reso'] is not None:
                        ctx.same(d.reso, q['reso'],
                                 "single delta unchanged: resolution")
                    else:
                        ctx.require(d.reso is None, "resolution of nothing")
        ctx.require(sorted(seen) == sorted(parts), "targets written",
                    got=sorted(seen), want=sorted(parts))

    def run_tool(self, case, ctx):
        files = case["files"]
        ndir = 1 if 2 not in files else 2
        confs = [(2, False, None), (8, False, 3), (8, True, None),
                 (2, True, 2)]
        h = sum(f * 3**k for k, f in enumerate(files))
        blind = ("", "desi_m2", "desi_y1", "desi_y3")[(h // 4 + h) % 4]
        dirs, parts = self.inputs(ctx.tmp, files, blind=blind,
                                  reso=5 if h % 3 else 0)
        for c, (rev, order) in enumerate(itertools.product(
                (False, True), (None, "reverse", "rotate"))):
            for dd in (dirs[:ndir], dirs[::-1]):
                if ndir == 1 and dd == dirs[::-1]:
                    continue
                nside, nest, nproc = confs[(h + c) % 4]
                ctx.inner = (rev, order, dd, nside, nest)
                LIST["rev"], FAKE["order"] = rev, order
                out = os.path.join(ctx.tmp, f"o{c}{dd[0][-1]}")
                self.tool_run(ctx, dd, out, nside, nest, nproc)
                self.check_out(ctx, out, parts, nside, nest, blind)
                ctx.trace()
                ctx.state("tool", files, rev, order, len(dd), nside, nest)

    # ids of both signs: 75 and -75 are two targets
    BIGPOS = {39627939372861215 + (k * 7) % 16 if k < 9
              else {12: -75, 13: -50}.get(k, 5 * k):
              ((k * 47.3) % 360, -60. + 9. * k) for k in range(16)}

    def run_big(self, case, ctx):
        """many targets with 1-8 deltas of up to 60 pixels, files of the
        same name in several directories"""
        rot, nd = case["rot"], case["ndir"]
        self.dw = (DW, 2.4, 0.6, 1.1)[rot % 4]
        tids = list(self.BIGPOS)
        dirs = [os.path.join(ctx.tmp, f"in{i}") for i in range(nd)]
        ext, parts, k = {}, {}, 0
        for i, t in enumerate(tids):
            m = (1, 2, 8, 1, 3, 5, 2, 1, 4, 6, 1, 2, 3, 2, 1, 7)[
                (i + rot) % 16]
            for j in range(m):
                n = (60, 3, 1, 25, 41)[(i + j) % 5]
                start = (0, 40, 13, 90, 7, 58, 20, 33)[(j + rot) % 8]
                mask = [int((x * (j + 2) + i) % 7 < 2) for x in range(n)]
                p = self.data(j, start, mask, 0. if m > 2 else 0.4, 5)
                parts.setdefault(t, []).append(p)
                ext.setdefault((k % nd, (k // nd) % 4), []).append((t, p, j))
                k += 1
        for d in dirs:
            os.makedirs(d)
        for (di, fi), hs in ext.items():
            fn = os.path.join(dirs[di], f"delta-{(0, 12, 7, 100)[fi]}.fits")
            with fitsio.FITS(fn, 'rw', clobber=True) as f:
                for t, p, j in hs:
                    self.hdu(f, p, t, *self.BIGPOS[t], ext=f"{t}-B-{j}")
        for c, (rev, order, nside, nest, nproc) in enumerate((
                (False, None, 8, False, 3), (True, "reverse", 2, True, 2),
                (False, "rotate", 16, True, None))):
            ctx.inner = (rev, order, nside)
            LIST["rev"], FAKE["order"] = rev, order
            out = os.path.join(ctx.tmp, f"o{c}")
            self.tool_run(ctx, dirs, out, nside, nest, nproc)
            pos, self.POS = self.POS, self.BIGPOS
            try:
                self.check_out(ctx, out, parts, nside, nest)
            finally:
                self.POS = pos
            ctx.trace()
            ctx.state("big", case, c)

    def run_widths(self, case, ctx):
        """coadds of different pixel widths one after the other"""
        for rep in range(3):
            for dw in (DW, case["dw"], 1.1):
                self.dw = dw
                ctx.inner = (rep, dw)
                parts = [self.data(k, o, (0, k % 2, 0), 0., 3)
                         for k, o in enumerate((0, 2, 7))]
                ds = self.load(ctx, parts, 76)()
                ds[rep].coadd(ds[(rep + 1) % 3])
                ds[rep].coadd(ds[(rep + 2) % 3])
                self.compare(ctx, ds[rep], parts, f"pixels of {dw}")
                ctx.step(2)
                ctx.trace()
                ctx.state("widths", case, rep, dw)

    def tool_twice(self, ctx, d, parts, pos, nproc, confs):
        for c, (nside, nest) in enumerate(confs):
            ctx.inner = (nside, nest)
            out = os.path.join(ctx.tmp, f"o{c}")
            self.tool_run(ctx, [d], out, nside, nest, nproc)
            old, self.POS = self.POS, pos
            try:
                self.check_out(ctx, out, parts, nside, nest)
            finally:
                self.POS = old
            ctx.trace()
            ctx.state("tool", parts.keys(), c)

    def run_files(self, case, ctx):
        """many files of few deltas, read by real processes"""
        FAKE["real"] = True
        n = case["n"]
        pos = {5 + k: ((k * 31.137 + 0.77) % 360, -70.31
                       + (k * 17.171) % 140) for k in range(n)}
        d = os.path.join(ctx.tmp, "in")
        os.makedirs(d)
        parts = {}
        for k in range(n):
            with fitsio.FITS(os.path.join(d, f"delta-{k}.fits"), 'rw',
                             clobber=True) as f:
                for t in {5 + k, 5 + (k * k) % n}:
                    p = self.data(k % 5, t % 7, (0, k % 2, 0, 0), 0.)
                    parts.setdefault(t, []).append(p)
                    self.hdu(f, p, t, *pos[t])
        self.tool_twice(ctx, d, parts, pos, case["nproc"], ((8, False),))

    def run_border(self, case, ctx):
        """targets close to both sides of the border of two pixels"""
        pos, k = {}, 0
        for dec in (20.003, -35.001, 61.2):
            for nside in (8, 2):
                lo, hi = 10., 10. + 200. / nside
                p0 = healpy.ang2pix(nside, lo, dec, lonlat=True)
                while hi - lo > 1e-9:
                    mid = 0.5 * (lo + hi)
                    if healpy.ang2pix(nside, mid, dec, lonlat=True) == p0:
                        lo = mid
                    else:
                        hi = mid
                for e in (2e-6, 1e-5, 3e-5, 3e-4):
                    for x in (lo - e, hi + e):
                        pos[100 + 3 * k] = (x, dec)
                        k += 1
        d = os.path.join(ctx.tmp, "in")
        os.makedirs(d)
        parts = {}
        for fi in range(2):
            with fitsio.FITS(os.path.join(d, f"delta-{fi}.fits"), 'rw',
                             clobber=True) as f:
                for t in pos:
                    if t % 2 or not fi:
                        p = self.data(fi, t % 7, (0, fi, 0, 0), 0.4)
                        parts.setdefault(t, []).append(p)
                        self.hdu(f, p, t, *pos[t])
        self.tool_twice(ctx, d, parts, pos, 2, (
            (8, False), (2, False), (8, True), (2, True)))

    def run_crowd(self, case, ctx):
        """many targets in a single pixel of the sky"""
        n = case["n"]
        pos = {(1 - 2 * (k % 3 == 2)) * (10 + k): (
            33.0 + 0.001 * k, 5. - 0.002 * k) for k in range(n)}
        d = os.path.join(ctx.tmp, "in")
        os.makedirs(d)
        parts = {}
        for fi in range(3):
            with fitsio.FITS(os.path.join(d, f"delta-{fi}.fits"), 'rw',
                             clobber=True) as f:
                for k, t in enumerate(pos):
                    if fi in {0: (0,), 1: (1,), 2: (0, 2), 3: (2,)}[k % 4]:
                        p = self.data(k % 5 + fi, k % 7, (0, k % 2, 0, 0),
                                      0.4)
                        parts.setdefault(t, []).append(p)
                        self.hdu(f, p, t, *pos[t])
        for c, (nside, nest) in enumerate(((8, False), (2, True))):
            ctx.inner = (nside, nest)
            out = os.path.join(ctx.tmp, f"o{c}")
            self.tool_run(ctx, [d], out, nside, nest, case["nproc"])
            old, self.POS = self.POS, pos
            try:
                self.check_out(ctx, out, parts, nside, nest)
            finally:
                self.POS = old
            ctx.trace()
            ctx.state("crowd", case, c)

    def run_pool(self, case, ctx):
        """real worker processes"""
        FAKE["real"] = True
        files = [k % case["nf"] for k in range(5)]
        dirs, parts = self.inputs(ctx.tmp, files)
        out = os.path.join(ctx.tmp, "o")
        self.tool_run(ctx, dirs, out, 8, False, case["nproc"])
        self.check_out(ctx, out, parts, 8, False)
        ctx.trace()
        ctx.state("pool", case)

    def run_none(self, case, ctx):
        d = os.path.join(ctx.tmp, "e")
        os.makedirs(d)
        out = os.path.join(ctx.tmp, "o")
        ctx.raises(lambda: self.tool_run(ctx, [d], out, 8, False, 1),
                   "coadding a directory without deltas",
                   (Exception, SystemExit))
        ctx.require(_listdir(out) == [], "output of nothing")
        ctx.trace()


if __name__ == "__main__":
    qmc.main(Q16())
