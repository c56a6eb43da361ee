"""Q13: delta files record the spectrum faithfully and round-trip."""
import argparse
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import itertools
import json
import subprocess

import qmc
import gen
import fitsio
import numpy as np

DW, W0 = 0.8, 3600.
LAY = {'B': (0, 5), 'R': (4, 4), 'Z': (12, 3)}
# exposures whose numbers differ in the leading digits only
BIG = 3 * 10**9
TIDS = [39627939372861215, 2305843050176020481, 7]
NIGHT = {"none": 20200101, "desi_m2": 20210601, "desi_y1": 20220101,
         "desi_y3": 20230101}


def lssfn(w):
    return 0.2 + 0.002 * (w - W0)


def etafn(w):
    return 1.1 + 0.003 * (w - W0)


def contfn(w, k):
    return 1.5 + 0.3 * k + 0.02 * (w - W0)


CHILD = """
import sys, json
sys.path.insert(0, sys.argv[1])
import qmc
from qsonic.io import read_deltas
out = []
for f in sys.argv[2:]:
    out.append([[int(d.targetid), d.wave.tolist(), d.delta.tolist()]
                for d in read_deltas(f)])
print(json.dumps(out))
"""


def mean_reso(s, arm):
    """Gaussian sigma in km/s of the weighted mean resolution column, from
    the two pixels on either side of its peak"""
    wt = s.forestweight[arm]
    col = (s.forestreso[arm] * wt).sum(1) / wt.sum()
    lam = (s.forestwave[arm] * wt).sum() / wt.sum()
    c = int(np.argmax(col))
    sig = [abs(d) / np.sqrt(2 * np.log(col[c] / col[c + d]))
           for d in (-2, -1, 1, 2) if col[c + d] < col[c]]
    return np.mean(sig) * DW / lam * 3e5


class Q13(qmc.Check):
    pid = "Q13"
    bounds = {
        "quick": "every mask pattern of a 5-pixel arm x 3 patterns of a "
                 "second x arm subsets of 3 x resolution on/off x 4 blinding "
                 "labels x smoothing on/off; 1-3 spectra of one file; 1-3 "
                 "exposures; every combination of accepted and missing "
                 "column and key spellings x 32/64 bit in files of 1-2 "
                 "extensions, and several at once; 1-24 spectra of long arms; 5 hash seeds",
        "thorough": "all mask patterns of both arms, 12 hash seeds"}
    assumptions = ["wavelength spacing is that of the first arm"]

    def setup(self):
        global Spectrum, io, Delta
        from qsonic.spectrum import Spectrum, Delta
        import qsonic.io as io
        qmc.snapshot(Spectrum, Delta)

    def cases(self, tier):
        for arms in (("B",), ("B", "R"), ("R", "B"), ("B", "R", "Z")):
            for reso in (0, 1):
                for bl in NIGHT:
                    for sm in (0., 16.):
                        yield dict(kind="write", arms=arms, reso=reso,
                                   blind=bl, sm=sm)
        for n in (1, 2, 3):
            for reso in (0, 1):
                yield dict(kind="expo", n=n, reso=reso)
        for w, d in itertools.product(
                ("LAMBDA", "LOGLAM", None), ("DELTA", "DELTA_BLIND", None)):
            for i in ("TARGETID", "MOCKID", "THING_ID", None):
                yield dict(kind="alt", cols=(w, d, i))
        for n in (1, 5, 24):
            for reso in (0, 1):
                for bl in ("none", "desi_y3"):
                    yield dict(kind="long", n=n, reso=reso, blind=bl)
        yield dict(kind="hash", seeds=5 if tier == "quick" else 12)

    def run(self, case, ctx):
        getattr(self, "run_" + case["kind"])(case, ctx)

    def spec(self, k, arms, pats, reso, sm, extra=(), lay=LAY):
        tid = TIDS[k % 3] if k < 3 else TIDS[0] + k
        row = gen.catrow(tid, 2.0 + 0.1 * (k % 8), ra=(211.5 + 100 * k) % 360,
                         dec=(-3.25, 16.75, -0.3, 56.75)[k % 4], hpx=7, extra=extra)
        A, rs = {}, {}
        for a in arms:
            s, n = lay[a]
            w = W0 + DW * (s + np.arange(n))
            f = 1. + 0.2 * k + 0.1 * (np.arange(n) % 9)
            if k == 1:
                # far from the continuum, and negative on average
                f[3 % n] = 4000.
                f = -f if a == 'R' else f
            iv = 2. + k + 0.5 * (np.arange(n) % 11)
            if k % 4 == 1 and a != 'Z':
                # noisy beyond use, yet not masked
                iv[1] = 1e-14
            A[a] = (w, f, iv,
                    np.array([int(c) for c in pats[a]]))
            rs[a] = np.exp(-np.arange(-3, 4)[:, None]**2 / 2.
                           / (1.2 + 0.01 * (np.arange(n) % 50) + 0.1 * (k % 9)
                              + 0.4 * "BRZ".index(a)))
        s = gen.make_spectrum(Spectrum, row, A, reso=rs if reso else None)
        s.set_forest_region(3000., 9000., 900., 1600.)
        if sm:
            s.set_smooth_forestivar(sm)
        s.requested_scale = sm
        s.cont_params['valid'] = True
        s.cont_params['cont'] = {
            a: contfn(w, k) for a, w in s.forestwave.items()}
        s.set_forest_weight(lssfn, etafn)
        return s

    def blinding(self, label, reso):
        Spectrum.set_blinding(NIGHT[label], argparse.Namespace(
            mock_analysis=False, forest_w1=1050., skip_resomat=not reso))

    def expected(self, s, label, reso):
        out = {}
        for a in s.forestwave:
            c = s.cont_params['cont'][a]
            iv = s.forestivar[a]
            good = iv > 0
            if not good.any():
                continue
            d = np.where(good, s.forestflux[a] / c - 1, 0.)
            h = dict(TARGETID=int(s.targetid), RA=np.radians(s.ra),
                     DEC=np.radians(s.dec), Z=s.z_qso, BLINDING=label,
                     MEANSNR=np.sum(s.forestflux[a] * np.sqrt(iv))
                     / good.sum(), RSNR=s.rsnr, DELTA_LAMBDA=DW,
                     SMSCALE=s.requested_scale)
            if reso:
                h['MEANRESO'] = mean_reso(s, a)
            out[a] = (dict(
                LAMBDA=s.forestwave[a].copy(), DELTA=d, IVAR=iv * c**2,
                WEIGHT=s.forestweight[a] * c**2, CONT=c.copy(),
                RESOMAT=s.forestreso[a].T.copy() if reso else None), h)
        return out

    def check_file(self, ctx, fn, specs, exps, label, reso, suffix=None):
        """raw file content and what the reader returns"""
        want = {}
        for k, (s, e) in enumerate(zip(specs, exps)):
            for a, v in e.items():
                name = f"{s.targetid}-{a}"
                if suffix:
                    name += f"-{suffix[k]}"
                ctx.require(name not in want, "extension names collide")
                want[name] = v
        with fitsio.FITS(fn) as f:
            names = [h.get_extname() for h in f[1:]]
            ctx.require(len(names) == len(set(names)),
                        "extension names are not unique", names=names)
            ctx.require(sorted(names) == sorted(want), "extensions",
                        got=names, want=list(want))
            for h in f[1:]:
                arr, hdr = want[h.get_extname()]
                cn = h.get_colnames()
                dn = "DELTA" if label == "none" else "DELTA_BLIND"
                exp_names = ["LAMBDA", dn, "IVAR", "WEIGHT", "CONT"]
                if reso:
                    exp_names.append("RESOMAT")
                ctx.require(sorted(cn) == sorted(exp_names), "columns",
                            got=cn, want=exp_names)
                data = h.read()
                rh = h.read_header()
                for c in exp_names:
                    ctx.same(data[c], arr["DELTA" if c == dn else c],
                             f"{c} of {h.get_extname()}", rtol=1e-9)
                for key, v in hdr.items():
                    if isinstance(v, str) or key in (
                            "TARGETID", "EXPID", "NIGHT", "TILEID", "FIBER",
                            "PETAL_LOC"):
                        ctx.require(rh[key] == v, f"{key} in the header",
                                    got=rh[key], want=v)
                    else:
                        ctx.same(rh[key], v, f"{key} in the header")
        ds = io.read_deltas(fn)
        ctx.require(len(ds) == len(want), "deltas read back")
        for d, name in zip(ds, names):
            arr, hdr = want[name]
            self.check_delta(ctx, d, arr, hdr, reso)
        # write the deltas again and read them back
        fn2 = fn + ".copy.fits"
        with fitsio.FITS(fn2, 'rw', clobber=True) as f:
            for d in ds:
                d.write(f)
        for d, name in zip(io.read_deltas(fn2), names):
            arr, hdr = want[name]
            self.check_delta(ctx, d, arr, hdr, reso)
        ctx.step(3)

    def check_delta(self, ctx, d, arr, hdr, reso):
        ctx.require(int(d.targetid) == hdr['TARGETID'], "target id read back")
        for at, c in (('wave', 'LAMBDA'), ('delta', 'DELTA'),
                      ('ivar', 'IVAR'), ('weight', 'WEIGHT'),
                      ('cont', 'CONT')):
            ctx.same(getattr(d, at), arr[c], f"{at} read back")
        if reso:
            ctx.same(d.reso, arr['RESOMAT'].T, "resolution read back")
        else:
            ctx.require(d.reso is None, "resolution out of nothing")
        ctx.same(d.mean_snr, hdr['MEANSNR'], "mean S/N read back")
        ctx.same(d.ra, np.degrees(hdr['RA']), "ra read back")
        ctx.same(d.dec, np.degrees(hdr['DEC']), "dec read back")

    def run_write(self, case, ctx):
        arms, reso, label = case["arms"], case["reso"], case["blind"]
        pb = ["".join(p) for p in itertools.product("01", repeat=5)]
        pr = ["0000", "1010", "1111"]
        if ctx.tier != "quick":
            pr = ["".join(p) for p in itertools.product("01", repeat=4)]
        for b in pb if "B" in arms else ["0"]:
            for r in pr if "R" in arms else ["0"]:
                qmc.fresh()
                ctx.inner = (b, r)
                pats = dict(B=b, R=r, Z="010")
                specs = []
                for k in range(2):
                    if k:
                        pats = dict(B=b[::-1], R=r[::-1], Z="001")
                    s = self.spec(k, arms, pats, reso, case["sm"])
                    if s.forestwave:
                        specs.append(s)
                if not specs:
                    continue
                exps = [self.expected(s, label, reso) for s in specs]
                self.blinding(label, reso)
                io.save_deltas(specs, ctx.tmp, mpi_rank=3)
                fn = os.path.join(ctx.tmp, "delta-3.fits")
                self.check_file(ctx, fn, specs, exps, label, reso)
                ctx.trace()
                ctx.state(arms, reso, label, case["sm"], b, r)

    def run_expo(self, case, ctx):
        """exposures of the same target are separate extensions"""
        for m in itertools.product(("00000", "01001"), repeat=case["n"]):
            for fields in (("EXPID",), ("EXPID", "NIGHT", "TILEID", "FIBER",
                                        "PETAL_LOC")):
                qmc.fresh()
                ctx.inner = (m, fields)
                specs, sufs = [], []
                for e in range(case["n"]):
                    extra = [(f, 'i8', 100 * (i + 1) + BIG * e)
                             for i, f in enumerate(fields)]
                    s = self.spec(0, ("B", "R"), dict(B=m[e], R="0100"),
                                  case["reso"], 0., extra)
                    s.forestflux['B'] += 0.25 * e
                    s.mean_snr['B'] = np.sum(
                        s.forestflux['B'] * np.sqrt(s.forestivar['B'])
                    ) / np.sum(s.forestivar['B'] > 0)
                    specs.append(s)
                    sufs.append(100 + BIG * e)
                exps = [self.expected(s, "none", case["reso"])
                        for s in specs]
                for e, x in enumerate(exps):
                    for a in x:
                        x[a][1].update({f: 100 * (i + 1) + BIG * e
                                        for i, f in enumerate(fields)})
                self.blinding("none", case["reso"])
                io.save_deltas(specs, ctx.tmp, save_by_hpx=True)
                self.check_file(ctx, os.path.join(ctx.tmp, "delta-7.fits"),
                                specs, exps, "none", case["reso"], sufs)
                ctx.trace()
                ctx.state("expo", m, fields, case["reso"])

    def run_long(self, case, ctx):
        """many spectra of long arms in one file"""
        lay = {'B': (0, 260), 'R': (240, 131), 'Z': (400, 90)}
        for arms in (("B",), ("R", "B"), ("B", "R", "Z")):
            qmc.fresh()
            ctx.inner = arms
            specs = []
            for k in range(case["n"]):
                pats = {a: "".join(
                    "01"[(i * (k + 3)) % 7 < 2 or i // 40 == k % 5]
                    for i in range(n)) for a, (_, n) in lay.items()}
                specs.append(self.spec(k, arms, pats, case["reso"], 16.,
                                       lay=lay))
            exps = [self.expected(s, case["blind"], case["reso"])
                    for s in specs]
            self.blinding(case["blind"], case["reso"])
            io.save_deltas(specs, ctx.tmp, mpi_rank=3)
            self.check_file(ctx, os.path.join(ctx.tmp, "delta-3.fits"),
                            specs, exps, case["blind"], case["reso"])
            ctx.trace()
            ctx.state("long", case, arms)

    # ------------------------------------------------------------------
    def alt_hdu(self, k, cols, dt, reso):
        w, d, i = cols
        n = 4 + k
        wave = W0 + DW * np.arange(n)
        delta = np.array([0.125, -0.5, 3., 0.25, 0.75, 0.5])[:n] + k
        ivar = np.array([1., 0., 2., 0., 4., 1.])[:n]
        t = {}
        if w:
            t[w] = (np.log10(wave) if w == "LOGLAM" else wave).astype(
                'f8' if w == "LOGLAM" else dt)
        if d:
            t[d] = delta.astype(dt)
        t['IVAR'] = ivar.astype(dt)
        # a usable pixel without weight keeps its delta
        weight = ivar / 2
        weight[2] = 0.
        t['WEIGHT'] = weight.astype(dt)
        t['CONT'] = np.arange(1., n + 1).astype(dt)
        if reso:
            t['RESOMAT'] = np.arange(3. * n).reshape(n, 3).astype(dt)
        hdr = {'MEANSNR': 1.5 + k, 'RA': 0.25, 'DEC': -0.5, 'Z': 2.5}
        if i:
            hdr[i] = TIDS[k]
        arr = dict(LAMBDA=wave, DELTA=np.where(ivar > 0, delta, 0.),
                   IVAR=ivar, WEIGHT=weight, CONT=np.arange(1., n + 1),
                   RESOMAT=np.arange(3. * n).reshape(n, 3) if reso else None)
        return gen.rec(t), hdr, arr

    def run_alt(self, case, ctx):
        cols = case["cols"]
        good = ("LAMBDA", "DELTA", "TARGETID")
        for dt in ('f8', 'f4'):
            for reso in (0, 1):
                for order in ([cols], [cols, good], [good, cols]):
                    fn = os.path.join(ctx.tmp, "a.fits")
                    want = []
                    ctx.inner = (dt, reso, order)
                    with fitsio.FITS(fn, 'rw', clobber=True) as f:
                        for k, c in enumerate(order):
                            t, h, a = self.alt_hdu(k, c, dt, reso)
                            f.write(t, header=h, extname=f"x{k}")
                            want.append((a, dict(h, TARGETID=TIDS[k])))
                    if None in cols:
                        ctx.raises(lambda: io.read_deltas(fn),
                                   f"delta file without {cols}")
                    else:
                        ds = io.read_deltas(fn)
                        ctx.require(len(ds) == len(order), "extensions read")
                        for d, (a, h) in zip(ds, want):
                            a = dict(a)
                            if dt == 'f4':
                                a['LAMBDA'] = d.wave if np.allclose(
                                    d.wave, a['LAMBDA'], rtol=1e-6) \
                                    else a['LAMBDA']
                            self.check_delta(ctx, d, a, h, reso)
                    ctx.step()
                    ctx.trace()
                    ctx.state("alt", cols, dt, reso, order)

    def run_hash(self, case, ctx):
        files = []
        for m, ids in enumerate(itertools.permutations(
                ("TARGETID", "MOCKID", "THING_ID"), 2)):
            # the first of the documented order counts
            ids = list(ids)
            first = min(ids, key=("TARGETID", "MOCKID", "THING_ID").index)
            fn = os.path.join(ctx.tmp, f"h{m}.fits")
            t, h, _ = self.alt_hdu(0, ("LAMBDA", "DELTA", None), 'f8', 0)
            for k, i in enumerate(ids):
                h[i] = 50 + k
            t2 = gen.rec({**{n: t[n] for n in t.dtype.names},
                          'LOGLAM': np.log10(t['LAMBDA'] + 1.),
                          'DELTA_BLIND': t['DELTA'] + 9.})
            with fitsio.FITS(fn, 'rw', clobber=True) as f:
                f.write(t, header=h, extname="x")
                f.write(t2, header=h, extname="y")
            files.append(fn)
            for d in io.read_deltas(fn):
                ctx.require(int(d.targetid) == h[first],
                            f"target id among {ids}", got=d.targetid)
                ctx.same(d.wave, t['LAMBDA'], "wavelength column")
                ctx.same(d.delta, np.where(t['IVAR'] > 0, t['DELTA'], 0.),
                         "delta column")
        outs = {}
        for seed in range(case["seeds"]):
            env = dict(os.environ, PYTHONHASHSEED=str(seed))
            r = subprocess.run([sys.executable, "-c", CHILD, qmc.LIB] + files,
                               env=env, capture_output=True, text=True)
            ctx.require(r.returncode == 0, "reading failed",
                        err=r.stderr[-500:])
            outs[r.stdout] = seed
            ctx.step(len(files))
            ctx.trace()
        ctx.require(len(outs) == 1, "what is read from one and the same "
                    "delta file differs between runs", seeds=list(
                        outs.values()))


if __name__ == "__main__":
    qmc.main(Q13())
