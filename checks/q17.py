"""Q17: the calibration tool uses each delta exactly once."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import glob
import itertools

import qmc
import gen
import simmpi
import fitsio
import numpy as np

W1, W2, DW = 3600., 3636., 0.8
NW, NV = 4, 6
VAR1, VAR2 = 1e-3, 1e3
IV = [3e-3, 3e-2, 0.3, 3., 30., 300.]           # one per variance bin
_glob, _iglob, _listdir = glob.glob, glob.iglob, os.listdir
LIST = {"mode": None, "n": 0}


def _order(x):
    x = sorted(x)
    LIST["n"] += 1
    m = LIST["mode"]
    if m == "rev" or (m == "alt" and LIST["n"] % 2 == 0):
        x = x[::-1]
    return x


def delta_arrays(k, first=1, last=44, hole=()):
    """pixel indices on the W1 + 0.8 i grid"""
    i = np.array([j for j in range(first, last + 1)])
    n = i.size
    iv = np.array([IV[(j + k) % NV] * (1 + 0.03 * k) for j in i])
    d = 0.4 * np.sin(1.3 * i + k) + 0.1 * k
    for h in hole:
        iv[i == h] = 0.
    iv[(i == 0) | (i == 45)] = 0.               # bin edges: not decided here
    d[iv == 0] = 0.
    w = np.where(iv > 0, 1. / (0.2 + 1. / np.where(iv > 0, iv, 1.)), 0.)
    return i, d, iv, w


class Q17(qmc.Check):
    pid = "Q17"
    case_timeout = 200
    bounds = {
        "quick": "every count of 1-6 delta files x 1-5 processes x listing "
                 "orders (equal, reversed, different on every call) x "
                 "process orders x {one delta per file, empty and full "
                 "files}; selection: exclusion lists of 0-3 ids x BAL "
                 "removal x kept surveys x signal-to-noise limits, each "
                 "delta at, inside and outside every limit, on 1 and 3 "
                 "processes; 40 targets with 14 or 3014 excluded, on 1 and 4; deltas reaching beyond the wavelength range, "
                 "with masked pixels; 5 ends of the range x 4 roundings of the "
                 "pixel spacing; 4 pixel widths x 4 offsets of the range; saved functions for 15 variance models",
        "thorough": "1-9 files, 1-8 processes, all priority orders of 3"}
    assumptions = [
        "target ids are unique in the catalog",
        "minimum number of pixels and quasars per bin lowered to one"]

    def setup(self):
        global calib, VarLSSFitter
        import qsonic.scripts.qsonic_calib as calib
        from qsonic.picca_continuum import VarLSSFitter
        glob.glob = lambda *a, **k: _order(_glob(*a, **k))
        glob.iglob = lambda *a, **k: iter(_order(_iglob(*a, **k)))
        os.listdir = lambda *a: _order(_listdir(*a))
        qmc.snapshot(VarLSSFitter)

    def cases(self, tier):
        nf = 6 if tier == "quick" else 9
        sz = 5 if tier == "quick" else 8
        for n in range(1, nf + 1):
            for size in range(1, sz + 1):
                for lay in ("one", "mixed"):
                    yield dict(kind="part", n=n, size=size, lay=lay)
        for excl in range(5):
            for bal in (0, 1):
                for surv in range(3):
                    yield dict(kind="sel", excl=excl, bal=bal, surv=surv)
        for rot in range(3 if tier == "quick" else 9):
            for size in (1, 4):
                yield dict(kind="many", rot=rot, size=size)
        for size in (1, 2, 3):
            yield dict(kind="wave", size=size)
        for w2 in (3636., 3636.5, 3636.7, 3635.9, 3636.05):
            for ddw in (0., 2e-13, -2e-13, 1.8e-13):
                yield dict(kind="end", w2=w2, ddw=ddw)
        for dw in (0.25, 0.8, 1.25, 0.07):
            for off in (0., 0.3, -0.35, 0.45):
                yield dict(kind="grid", dw=dw, off=off)
        for eta in (0.1, 0.4, 1., 1.7, 3.):
            for lss in (0., 0.05, 0.6):
                yield dict(kind="func", eta=eta, lss=lss)

    def run(self, case, ctx):
        VarLSSFitter.min_num_pix = 1
        VarLSSFitter.min_num_qso = 1
        LIST["mode"] = None
        self.dw, self.off = DW, 0.
        getattr(self, "run_" + case["kind"])(case, ctx)

    # ------------------------------------------------------------------
    def write(self, d, files, dw=None):
        """files: list of lists of (tid, snr, arrays)"""
        os.makedirs(d)
        dw = self.dw if dw is None else dw
        for n, lst in enumerate(files):
            ext = ".fits.gz" if n % 3 == 2 else ".fits"
            fn = os.path.join(d, f"delta-{(n * 7) % 11}{ext}")
            with fitsio.FITS(fn, 'rw', clobber=True) as f:
                f.write(None)
                for q, (tid, snr, (i, dl, iv, w)) in enumerate(lst):
                    f.write(gen.rec({
                        'LAMBDA': W1 + self.dw * (i + self.off), 'DELTA': dl, 'IVAR': iv,
                        'WEIGHT': w, 'CONT': np.ones(i.size)}), header={
                            'TARGETID': tid, 'MEANSNR': snr, 'RA': 0.1,
                            'DEC': 0.1, 'Z': 2.5, 'DELTA_LAMBDA': dw},
                        extname=f"{tid}-{q}")
        # must not be taken for deltas
        open(os.path.join(d, "attributes.fits"), "w").close()

    def reference(self, kept, w2=W2):
        nst = int((w2 - W1) / self.dw + 1e-6) + 1
        npix = np.zeros((NW, NV), int)
        nqso = np.zeros((NW, NV), int)
        vals = {}
        sf = np.zeros(nst)
        sw = np.zeros(nst)
        for tid, snr, (i, dl, iv, w) in kept:
            seen = set()
            for a in range(i.size):
                if 0 <= i[a] < nst:
                    sf[i[a]] += w[a] * (1 + dl[a])
                    sw[i[a]] += w[a]
                x = self.dw * (i[a] + self.off)
                if iv[a] == 0 or not 0 < x < w2 - W1:
                    continue
                k = int(x // ((w2 - W1) / NW))
                v = int(np.floor(np.log10(iv[a]) + 3))
                vals.setdefault((k, v), []).append((dl[a], 1 / iv[a]))
                npix[k, v] += 1
                seen.add((k, v))
            for b in seen:
                nqso[b] += 1
        mean, var, pipe = (np.zeros((NW, NV)) for _ in range(3))
        for b, lst in vals.items():
            dd = np.array([x[0] for x in lst])
            mean[b], var[b] = dd.mean(), dd.var()
            pipe[b] = np.mean([x[1] for x in lst])
        stack = np.where(sw > 0, sf / np.where(sw > 0, sw, 1), 0)
        return dict(npix=npix, nqso=nqso, mean=mean, var=var, pipe=pipe,
                    stack=stack)

    def tool(self, ctx, args, size, order, sync=False):
        argv = sys.argv
        sys.argv = ["qsonic-calib"] + [str(a) for a in args]
        try:
            res = simmpi.run_one(size, lambda c: calib.main(), order, sync)
        except simmpi.SimMPIError as e:
            ctx.require(False, f"protocol: {e}")
        finally:
            sys.argv = argv
        ctx.step(size)
        return res

    def check(self, ctx, d, kept, size, order, opts=(), sync=False, w2=W2,
              func=None):
        out = os.path.join(ctx.tmp, "out")
        res = self.tool(ctx, [
            "-i", d, "-o", out, "--wave1", W1, "--wave2", w2, "--nwbins", NW,
            "--nvarbins", NV, "--var1", VAR1, "--var2", VAR2] + list(opts),
            size, order, sync)
        if not kept:
            for r, v in enumerate(res):
                ctx.require(v.kind != "value", "nothing left to fit, yet "
                            f"rank {r} succeeded")
            return
        for r, v in enumerate(res):
            ctx.require(v.kind == "value", f"rank {r} of {size}: {v} "
                        f"{v.text[-1500:]}")
        fns = _listdir(out)
        ctx.require(len(fns) == 1, "output files", got=fns)
        ref = self.reference(kept, w2)
        with fitsio.FITS(os.path.join(out, fns[0])) as f:
            ctx.require(sorted(h.get_extname() for h in f[1:]) == [
                "STACKED_FLUX", "VAR_FUNC", "VAR_STATS"], "extensions")
            s = f["VAR_STATS"].read()
            ctx.same(s['num_pixels'].reshape(NW, NV), ref["npix"],
                     "number of pixels")
            ctx.same(s['num_qso'].reshape(NW, NV), ref["nqso"],
                     "number of deltas per bin")
            ctx.same(s['mean_delta'].reshape(NW, NV), ref["mean"],
                     "mean delta")
            ctx.same(s['var_delta'].reshape(NW, NV), ref["var"],
                     "variance of delta", atol=1e-10)
            ctx.same(s['var_pipe'].reshape(NW, NV), ref["pipe"],
                     "pipeline variance")
            ctx.same(s['wave'].reshape(NW, NV)[:, 0],
                     W1 + (w2 - W1) / NW * (0.5 + np.arange(NW)),
                     "wavelength bins")
            t = f["STACKED_FLUX"].read()
            ctx.same(t['lambda'], W1 + self.dw * np.arange(ref['stack'].size),
                     "wavelengths of the stack")
            ctx.same(t['stacked_flux'], ref["stack"], "stacked flux")
            v = f["VAR_FUNC"].read()
            ctx.require(all(np.all(np.isfinite(v[c]))
                            for c in v.dtype.names), "fit is finite")
            if func is not None:
                y, e = func
                for c, x in zip(('var_lss', 'e_var_lss', 'eta', 'e_eta'),
                                (y[:, 0], e[:, 0], y[:, 1], e[:, 1])):
                    ctx.same(v[c], x, f"{c} is not that of the fit",
                             rtol=1e-6, atol=1e-9)
                ctx.same(v['lambda'], s['wave'].reshape(NW, NV)[:, 0],
                         "wavelengths of the functions")
        os.remove(os.path.join(out, fns[0]))

    def orders(self, tier, size):
        if size <= 1:
            return [(0,)]
        if tier != "quick" and size <= 3:
            return list(itertools.permutations(range(size)))
        r = list(range(size))
        return [r, r[::-1]]

    def run_part(self, case, ctx):
        n, size = case["n"], case["size"]
        files = []
        for k in range(n):
            m = 1 if case["lay"] == "one" else [2, 0, 1, 3][k % 4]
            files.append([(100 + 10 * k + q, 2. + 0.1 * k,
                           delta_arrays(k + 3 * q)) for q in range(m)])
        # only the ratios of the weights matter
        unit = (1., 1e-6, 1e6)[n % 3]
        files = [[(t, s, (i, dl, iv, w * unit)) for t, s, (i, dl, iv, w) in f]
                 for f in files]
        d = os.path.join(ctx.tmp, "d")
        # as the program computes it, or exact
        self.write(d, files, (W1 + DW) - W1 if n % 2 else DW)
        kept = [x for f in files for x in f]
        for mode in (None, "rev", "alt"):
            for j, order in enumerate(self.orders(ctx.tier, size)):
                ctx.inner = (mode, order)
                LIST["mode"] = mode
                LIST["n"] = 0
                self.check(ctx, d, kept, size, order, sync=bool(j % 2))
                ctx.trace()
                ctx.state("part", n, size, case["lay"], mode, order)

    # -- selection -----------------------------------------------------
    def run_sel(self, case, ctx):
        # target: (id, survey, bal kind, snr)
        surveys = ["main", "main", "sv3", "sv1", "main", "main", "sv3"]
        bals = [None, "ai", None, None, "bi", None, "ai2"]
        snrs = [0.5, 2., 5., 3., 7., 1., 9.]
        tids = [39627939372861215, 12, 35, 39627939372861216, 77, 5, 123456]
        files = [[], [], []]
        for k, t in enumerate(tids):
            files[k % 3].append((t, snrs[k], delta_arrays(k)))
        # not in the catalog at all
        files[1].append((999, 64., delta_arrays(9)))
        d = os.path.join(ctx.tmp, "d")
        self.write(d, files)
        n = len(tids)
        cat = dict(
            TARGETID=np.array(tids[::-1]), Z=np.linspace(0.05, 8., n),
            RA=np.linspace(0, 300, n), DEC=np.linspace(-20, 60, n),
            HPXPIXEL=np.arange(n), SURVEY=np.array(surveys[::-1]),
            LASTNIGHT=np.full(n, 20210101),
            VMIN_CIV_450=np.full((n, 2), -1.),
            VMAX_CIV_450=np.full((n, 2), -1.),
            VMIN_CIV_2000=np.full((n, 2), -1.),
            VMAX_CIV_2000=np.full((n, 2), -1.))
        for k, b in enumerate(bals[::-1]):
            if b == "ai":
                cat["VMIN_CIV_450"][k, 0], cat["VMAX_CIV_450"][k, 0] = 10, 500
            if b == "ai2":
                cat["VMIN_CIV_450"][k, 1], cat["VMAX_CIV_450"][k, 1] = 10, 500
            if b == "bi":
                cat["VMIN_CIV_2000"][k, 1] = 10.
                cat["VMAX_CIV_2000"][k, 1] = 500.
        cfn = os.path.join(ctx.tmp, "cat.fits")
        gen.write_table(cfn, gen.rec(cat), "ZCATALOG")
        excl = [None, [12], [39627939372861215, 5, 35], [4242],
                [999, 39627939372861216]][case["excl"]]
        keep = [None, ["main"], ["main", "sv3"]][case["surv"]]
        opts = []
        if excl is not None:
            fn = os.path.join(ctx.tmp, "excl.txt")
            with open(fn, "w") as f:
                f.write("\n".join(map(str, excl)) + "\n")
            opts += ["--remove-targetid-list", fn]
        if case["bal"] or keep or case["excl"] == 3:
            opts += ["--catalog", cfn]
        if case["bal"]:
            opts += ["--remove-bal-qsos"]
        if keep:
            opts += ["--keep-surveys"] + keep
        al = [x for f in files for x in f]
        for lim in (None, (1., 7.), (2., 9.), (0., 5.), (50., 60.), (30., 64.5),
                    (64., 100.)):
            kept = []
            for t, snr, a in al:
                k = tids.index(t) if t in tids else None
                if excl and t in excl:
                    continue
                if case["bal"] and k is not None and bals[k]:
                    continue
                if keep and k is not None and surveys[k] not in keep:
                    continue
                lo, hi = lim or (0., 100.)
                if not lo < snr < hi:
                    continue
                kept.append((t, snr, a))
            o = list(opts)
            if lim:
                o += ["--min-snr", lim[0], "--max-snr", lim[1]]
            for size, order in ((1, (0,)), (3, (2, 0, 1))):
                ctx.inner = (lim, size, [x[0] for x in kept])
                self.check(ctx, d, kept, size, order, o)
                ctx.trace()
                ctx.state("sel", case, lim, size)

    def run_many(self, case, ctx):
        """40 targets, long exclusion lists in no order"""
        n, rot = 40, case["rot"]
        tids = [39627939372861215 + 3 * k if k % 3 else 1000 - 7 * k
                for k in range(n)]
        surv = [("main", "sv3", "sv1", "cmx")[(k // 2 + rot) % 4]
                for k in range(n)]
        bal = [(k + rot) % 5 == 2 for k in range(n)]
        snr = [0.25 + (k * 11) % n * 0.5 for k in range(n)]
        files = [[] for _ in range(6)]
        for k, t in enumerate(tids):
            files[(k * k + rot) % 6].append((t, snr[k], delta_arrays(k % 9)))
        d = os.path.join(ctx.tmp, "d")
        self.write(d, files)
        p = [(k * 17 + rot) % n for k in range(n)]
        vm = np.array([[-1., 10.][bal[k]] for k in p])
        cat = {
            'TARGETID': np.array([tids[k] for k in p]),
            'Z': np.array([0.1 + 0.15 * k for k in p]),
            'RA': np.array([(9. * k) % 360 for k in p]),
            'DEC': np.array([-50. + 3 * k for k in p]),
            'SURVEY': np.array([surv[k] for k in p]),
            'LASTNIGHT': np.full(n, 20210101)}
        for c in ("450", "2000"):
            x = np.full((n, 3), -1.)
            x[:, rot % 3] = vm if (c == "450") == (rot % 2 == 0) else -1.
            cat[f'VMIN_CIV_{c}'] = x
            cat[f'VMAX_CIV_{c}'] = np.where(x > 0, 900., -1.)
        cfn = os.path.join(ctx.tmp, "cat.fits")
        gen.write_table(cfn, gen.rec(cat), "QSO_CAT")
        excl = [tids[(k * 7 + rot) % n] for k in range(13)] + [31337]
        if rot == 1:        # more than there are quasars
            excl = [-10**6 - k for k in range(1500)] + excl + [
                2 * 10**6 + 3 * k for k in range(1500)]
        fn = os.path.join(ctx.tmp, "excl.txt")
        with open(fn, "w") as f:
            f.write("\n".join(map(str, excl)) + "\n")
        for ue, ub, keep, lim in itertools.product(
                (0, 1), (0, 1), (None, ["cmx", "main"]),
                (None, (3.1, 15.1))):
            opts = ["--remove-targetid-list", fn] if ue else []
            if ub or keep:
                opts += ["--catalog", cfn]
            if ub:
                opts += ["--remove-bal-qsos"]
            if keep:
                opts += ["--keep-surveys"] + keep
            if lim:
                opts += ["--min-snr", lim[0], "--max-snr", lim[1]]
            kept = []
            for f in files:
                for t, s, a in f:
                    k = tids.index(t)
                    if (ue and t in excl) or (ub and bal[k]) or (
                            keep and surv[k] not in keep) or (
                            lim and not lim[0] < s < lim[1]):
                        continue
                    kept.append((t, s, a))
            ctx.inner = (ue, ub, keep, lim)
            self.check(ctx, d, kept, case["size"],
                       list(range(case["size"]))[::-1], opts)
            ctx.trace()
            ctx.state("many", case, ue, ub, keep, lim)

    def run_end(self, case, ctx):
        """end of the range and rounding of the pixel spacing"""
        files = [[(1, 2., delta_arrays(0))], [(2, 2., delta_arrays(1))],
                 [(3, 2., delta_arrays(2, -3, 50))]]
        d = os.path.join(ctx.tmp, "d")
        self.write(d, files, DW + case["ddw"])
        for size in (1, 2, 5):
            ctx.inner = size
            self.check(ctx, d, [x for f in files for x in f], size,
                       list(range(size)), w2=case["w2"])
            ctx.trace()
            ctx.state("end", case, size)

    def run_grid(self, case, ctx):
        """other pixel widths, range that starts between two pixels"""
        self.dw, self.off = case["dw"], case["off"]
        files = [[(1, 2., delta_arrays(0))], [(2, 2., delta_arrays(1))],
                 [(3, 2., delta_arrays(2, -3, 50))]]
        d = os.path.join(ctx.tmp, "d")
        self.write(d, files)
        for size in (1, 2, 5):
            ctx.inner = size
            self.check(ctx, d, [x for f in files for x in f], size,
                       list(range(size)), w2=W1 + 45 * self.dw)
            ctx.trace()
            ctx.state("grid", case, size)

    def run_func(self, case, ctx):
        """saved functions are those of the fit to these statistics"""
        lst = []
        ref = VarLSSFitter(W1, W2, NW, VAR1, VAR2, NV)
        for k in range(30):
            i, _, iv, _ = delta_arrays(k)
            v = case["lss"] + case["eta"] / np.where(iv > 0, iv, 1.)
            dl = np.where(iv > 0, np.sqrt(v) * 1.3 * np.sin(
                2.1 * i * (k + 1) + k), 0.)
            w = np.where(iv > 0, 1. / (0.2 + 1. / np.where(
                iv > 0, iv, 1.)), 0.)
            lst.append((100 + k, 2., (i, dl, iv, w)))
            ref.add(W1 + DW * i, dl, iv)
        g = np.ones((NW, 2))
        g[:, 0] = 0.1
        d = os.path.join(ctx.tmp, "d")
        self.write(d, [lst])
        func = ref.fit(g)
        self.check(ctx, d, lst, 1, (0,), func=func)
        ctx.trace()
        ctx.state("func", case)

    def run_wave(self, case, ctx):
        """deltas beyond the range, with holes, all combinations of two"""
        shapes = [(1, 44, ()), (-6, 44, (3, 4)), (1, 60, (20,)),
                  (-3, 50, (0, 45)), (10, 15, ()), (1, 44, tuple(range(9)))]
        for a, b in itertools.product(range(len(shapes)), repeat=2):
            files = [[(1, 2., delta_arrays(0))],
                     [(2, 2., delta_arrays(1, *shapes[a]))],
                     [(3, 2., delta_arrays(2, *shapes[b]))]]
            d = os.path.join(ctx.tmp, f"d{a}{b}")
            self.write(d, files)
            ctx.inner = (a, b)
            self.check(ctx, d, [x for f in files for x in f], case["size"],
                       list(range(case["size"])))
            ctx.trace()
            ctx.state("wave", case["size"], a, b)


if __name__ == "__main__":
    qmc.main(Q17())
