"""Q19: variance and flux stacks count each pixel once in its own bin."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import itertools

import qmc
import simmpi
import numpy as np

W1, W2, NW = 3600., 3900., 3
IEDGE = [0.1, 1., 10.]                  # ivar edges: var1=0.1, var2=10
NV = 2
# (wavelength, ivar) of one pixel: inside and outside of every bin
WAVES = [3550., 3420., 3610., 3690., 3750., 3899., 3950., 4300.]
IVARS = [0., 0.05, 0.15, 0.9, 3., 50.]
DELTAS = [0.5, -0.25, 1.5, 0.125]


def wbin(w):
    for k in range(NW):
        if W1 + 100. * k < w < W1 + 100. * (k + 1):
            return k
    return None


# unit of the variances
UNIT = [1.]


def vbin(iv):
    iv = iv * UNIT[0]
    for k in range(NV):
        if IEDGE[k] < iv < IEDGE[k + 1]:
            return k
    return None


def reference(spectra):
    """plain averages by bin"""
    out = dict(npix=np.zeros((NW, NV), int), nqso=np.zeros((NW, NV), int))
    pix = {}
    for s, (w, d, iv) in enumerate(spectra):
        for x, y, z in zip(w, d, iv):
            k, v = wbin(x), vbin(z)
            if k is None or v is None:
                continue
            pix.setdefault((k, v), []).append((s, y, 1 / z))
    for key in ("mean", "var", "pipe"):
        out[key] = np.zeros((NW, NV))
    out["err"] = np.full((NW, NV), np.nan)
    n = len(spectra)
    jk = {}
    for (k, v), lst in pix.items():
        d = np.array([p[1] for p in lst])
        sp = np.array([p[0] for p in lst])
        out["npix"][k, v] = len(lst)
        out["nqso"][k, v] = len(set(sp))
        out["mean"][k, v] = d.mean()
        out["var"][k, v] = np.mean((d - d.mean())**2)
        out["pipe"][k, v] = np.mean([p[2] for p in lst])
        if len(set(sp)) > 1:
            jk[k, v] = (d, sp)
    return out, jk, n


def jackknife(jk, k, v, nsub, f):
    """delete-one means of f(delta); subsamples without data keep the mean"""
    d, sp = jk[k, v]
    vals = [f(d).mean()] * nsub
    for q, s in enumerate(sorted(set(sp))):
        vals[q] = f(d[sp != s]).mean()
    # order subsamples by spectrum index for covariances
    full = {s: f(d[sp != s]).mean() for s in set(sp)}
    return np.array(vals), full, f(d).mean()


class Q19(qmc.Check):
    pid = "Q19"
    bounds = {
        "quick": "variance: every spectrum of 1-2 pixels over 8 wavelengths "
                 "x 6 inverse variances (inside, outside every bin, masked), "
                 "every pair of spectra of a 24-element alphabet, every "
                 "order; 1-300 spectra of 1-150 pixels, weights and variances in 3 units; every history of <=5 {add 3 spectra, calculate, "
                 "reset}; flux stacks: every 1-2 pixel spectrum over 5 "
                 "observed x 4 rest-frame wavelengths x 3 weights, histories "
                 "of <=5; every distribution of <=4 spectra over 1-3 "
                 "processes, all schedules of 2 (one round), extreme ones of "
                 "1-3 (two rounds with reset)",
        "thorough": "three-pixel spectra, histories of 6, 5 spectra"}
    assumptions = [
        "flux stacks: pixels lie inside the stacked range (documented)",
        "jackknife errors are compared where every spectrum is its own "
        "subsample and at least two spectra share the bin"]

    def setup(self):
        global VarLSSFitter, FluxStacker
        from qsonic.picca_continuum import VarLSSFitter, FluxStacker
        qmc.snapshot(VarLSSFitter, FluxStacker)

    # ------------------------------------------------------------------
    def cases(self, tier):
        for w in range(len(WAVES)):
            for i in range(len(IVARS)):
                yield dict(kind="two", first=(w, i))
        for a in range(24):
            yield dict(kind="pair", a=a)
        d = 5 if tier == "quick" else 6
        for seq in itertools.product("abckr", repeat=2):
            yield dict(kind="vhist", first=seq, depth=d)
        for o in range(5):
            for r in range(4):
                yield dict(kind="flux", first=(o, r))
        for seq in itertools.product("abckr", repeat=2):
            yield dict(kind="fhist", first=seq, depth=d)
        nmax = 4 if tier == "quick" else 5
        for size in (1, 2, 3):
            for n in range(0, nmax + 1):
                for cov in (0, 1):
                    yield dict(kind="vmpi", size=size, n=n, cov=cov)
                yield dict(kind="fmpi", size=size, n=n)
        for n in (1, 2, 7, 33):
            for m in (1, 3, 40, 150):
                yield dict(kind="long", n=n, m=m)
        for unit in (1e-8, 1e8):
            for n in (2, 33):
                yield dict(kind="long", n=n, m=40, unit=unit)
        yield dict(kind="long", n=300, m=30)
        for v in (1e-4, 3e5):
            yield dict(kind="long", n=7, m=40, vunit=v)
        for span, want in ((480., 4), (500., 4), (600., 5), (1000., 8)):
            yield dict(kind="auto", span=span, want=want)

    def run(self, case, ctx):
        UNIT[0] = case.get("vunit", 1.)
        getattr(self, "run_" + case["kind"])(case, ctx)

    # -- variance ------------------------------------------------------
    def fitter(self, comm=None, nsub=16, cov=False):
        return VarLSSFitter(W1, W2, NW, var1=0.1 * UNIT[0],
                            var2=10. * UNIT[0], nvarbins=NV,
                            nsubsamples=nsub, use_cov=cov, comm=comm)

    def compare(self, ctx, f, spectra, what, nsub=16, cov=False):
        self.compare_values(ctx, self.values(f), spectra, what, nsub, cov)

    @staticmethod
    def values(f):
        v = {k: np.array(getattr(f, k), copy=True) for k in (
            "num_pixels", "num_qso", "mean_delta", "var_delta",
            "var_centers", "e_var_delta", "waveobs")}
        c = f.cov_var_delta
        v["cov"] = None if c is None else np.array(c, copy=True)
        return v

    def compare_values(self, ctx, f, spectra, what, nsub=16, cov=False):
        ref, jk, n = reference(spectra)
        sh = (NW, NV)
        ctx.same(f["waveobs"], [3650., 3750., 3850.], f"{what}: bin centers")
        ctx.same(f["num_pixels"].reshape(sh), ref["npix"],
                 f"{what}: number of pixels")
        ctx.same(f["num_qso"].reshape(sh), ref["nqso"],
                 f"{what}: number of quasars")
        ctx.same(f["mean_delta"].reshape(sh), ref["mean"],
                 f"{what}: mean delta")
        ctx.same(f["var_delta"].reshape(sh), ref["var"],
                 f"{what}: variance of delta", atol=1e-11)
        ctx.same(f["var_centers"].reshape(sh), ref["pipe"],
                 f"{what}: mean pipeline variance")
        err = f["e_var_delta"].reshape(sh)
        ctx.require(bool(np.all(np.isfinite(err))), f"{what}: errors finite")
        fac = (nsub - 1) / nsub
        if cov:
            self.compare_cov(ctx, f["cov"], jk, n, nsub, what)
            return
        for (k, v) in jk:
            d, _ = jk[k, v]
            j0, _, m0 = jackknife(jk, k, v, nsub, lambda x: x)
            j1, _, m1 = jackknife(jk, k, v, nsub, lambda x: x**2)
            v0 = np.sum((j0 - j0.mean())**2) * fac
            v1 = np.sum((j1 - j1.mean())**2) * fac
            e2 = v1 + 4 * m0**2 * v0 + 2 * v0**2
            g = (np.mean(d**4) - ref["var"][k, v]**2) / d.size
            # see the documentation of e_var_delta
            ctx.same(err[k, v]**2, max(e2, g),
                     f"{what}: squared error of var_delta in bin {(k, v)}",
                     rtol=1e-6, atol=1e-10)

    def compare_cov(self, ctx, cov, jk, n, nsub, what):
        fac = (nsub - 1) / nsub
        ctx.require(cov is not None and cov.shape == (NW, NV, NV),
                    f"{what}: covariance", got=None if cov is None
                    else cov.shape)
        for k in range(NW):
            for v, u in itertools.product(range(NV), repeat=2):
                if (k, v) not in jk or (k, u) not in jk:
                    continue

                def xd(b, f):
                    _, full, m = jackknife(jk, k, b, nsub, f)
                    x = np.array([full.get(s, m) for s in range(n)]
                                 + [m] * (nsub - n))
                    return x - x.mean(), m
                a0, ma = xd(v, lambda x: x)
                b0, mb = xd(u, lambda x: x)
                a1, _ = xd(v, lambda x: x**2)
                b1, _ = xd(u, lambda x: x**2)
                C = fac * a0.dot(b0)
                va, vb = fac * a0.dot(a0), fac * b0.dot(b0)
                want = fac * a1.dot(b1) + va * vb + C**2 + 2 * C * ma * mb \
                    + va * mb**2 + vb * ma**2
                ctx.same(cov[k, v, u], want,
                         f"{what}: covariance {(k, v, u)}",
                         rtol=1e-6, atol=1e-10)

    @staticmethod
    def spec(pix, shift=0):
        """pix: list of (wavelength index, ivar index)"""
        w = np.array([WAVES[p[0]] for p in pix])
        iv = np.array([IVARS[p[1]] for p in pix])
        d = np.array([DELTAS[(q + shift) % 4] * (1 + 0.5 * shift)
                      for q in range(len(pix))])
        return w, d, iv

    def add(self, ctx, f, s):
        keep = [x.copy() for x in s]
        f.add(*s)
        ctx.step()
        for a, b in zip(keep, s):
            ctx.require(np.array_equal(a, b), "adding changed its input")

    def run_two(self, case, ctx):
        alpha = list(itertools.product(range(len(WAVES)),
                                       range(len(IVARS))))
        tails = [()] + [(a,) for a in alpha]
        if ctx.tier != "quick":
            tails += [(a, b) for a in alpha for b in alpha[::3]]
        f = self.fitter()
        for t in tails:
            pix = [tuple(case["first"])] + list(t)
            ctx.inner = pix
            s = self.spec(pix)
            f.reset()
            self.add(ctx, f, s)
            f.calculate_subsampler_stats()
            self.compare(ctx, f, [s], "one spectrum")
            ctx.trace()
            ctx.state("two", sorted(pix))

    def alphabet(self):
        a = [[(w, i)] for w in (0, 2, 4, 5) for i in (0, 2, 4)]
        a += [[(2, 2), (3, 2)], [(2, 2), (3, 3)], [(2, 2), (4, 2)],
              [(2, 4), (2, 4), (2, 4)], [(2, 1), (3, 5), (6, 2)],
              [(4, 4), (4, 3), (5, 4)], [(5, 2), (3, 4)], [],
              [(2, 0), (3, 2), (3, 0)], [(6, 4), (7, 4)],
              [(2, 2), (3, 2), (2, 3), (3, 4), (4, 2)],
              [(2, 4), (4, 4), (5, 4)]]
        return a

    def run_pair(self, case, ctx):
        al = self.alphabet()
        for b in range(len(al)):
            for c in (None, 13, 18, 22):
                ids = [case["a"], b] + ([c] if c is not None else [])
                ctx.inner = ids
                sp = [self.spec(al[i], k) for k, i in enumerate(ids)]
                f = self.fitter()
                for s in sp:
                    self.add(ctx, f, s)
                f.calculate_subsampler_stats()
                self.compare(ctx, f, sp, "spectra")
                ctx.trace()
                ctx.state("pair", ids)

    def run_vhist(self, case, ctx):
        """a b c: add; k: calculate; r: reset"""
        al = self.alphabet()
        lib = dict(a=self.spec(al[22], 0), b=self.spec(al[15], 1),
                   c=self.spec(al[12], 2))
        for d in range(0, case["depth"] - 1):
            for rest in itertools.product("abckr", repeat=d):
                ops = list(case["first"]) + list(rest)
                ctx.inner = "".join(ops)
                f = self.fitter()
                cur, done, ok = [], False, True
                for o in ops:
                    ctx.step()
                    if o == "r":
                        f.reset()
                        cur, done = [], False
                    elif o == "k":
                        f.calculate_subsampler_stats()
                        done = True
                        self.compare(ctx, f, cur, "calculated")
                    elif done:
                        ctx.raises(lambda: f.add(*lib[o]),
                                   "adding after calculation")
                        ok = False
                        break
                    else:
                        f.add(*lib[o])
                        cur.append(lib[o])
                if ok:
                    f.calculate_subsampler_stats()
                    self.compare(ctx, f, cur, "at the end")
                ctx.trace()
                ctx.state("vh", [id(x) for x in cur], done, ok)

    def run_long(self, case, ctx):
        """many long spectra, in increasing wavelength as from a reader and
        in any other order"""
        n, m = case["n"], case["m"]
        nsub = max(40, n + 3)
        for rot in range(3):
            sp, fs = [], []
            for q in range(n):
                i = np.arange(m - (q * 5) % m)
                # away from the edges of the bins
                w = 3560.3 + 2.6 * i + 7.3 * (q % 5) + 120. * ((q // 5) % 2)
                iv = np.array([0.03, 0.15, 0.4, 0.9, 3., 7., 50., 0.])[
                    (i * (q + 1) + q + rot) % 8]
                d = np.sin(0.7 * i + q) * (1 + 0.3 * (q % 4)) + 0.1 * rot
                iv = iv / UNIT[0]
                d = np.where(iv > 0, d, 0.)
                if rot == 2:
                    w, d, iv = w[::-1].copy(), d[::-1].copy(), iv[::-1].copy()
                sp.append((w, d, iv))
                k = (i * 7 + q) % 5
                r = (i * 3 + rot) % 4
                wt = np.array([0., 1., 2.5, 0.3])[(i + q) % 4] * case.get(
                    "unit", 1.)
                fs.append((np.array(self.OBS)[k], np.array(self.RF)[r],
                           wt * (1. + d), wt * (2. - d), wt))
            for cov in (False, True):
                ctx.inner = (rot, cov)
                f = self.fitter(nsub=nsub, cov=cov)
                for x in sp:
                    self.add(ctx, f, x)
                f.calculate_subsampler_stats()
                self.compare(ctx, f, sp, "many spectra", nsub, cov)
                ctx.trace()
            g = self.stacker()
            g.reset()
            for x in fs:
                self.add(ctx, g, x)
            g.calculate()
            self.fcompare(ctx, self.fvalues(g), fs, "many spectra")
            ctx.trace()
            ctx.state("long", case, rot)

    def run_auto(self, case, ctx):
        """default bins are about 120 A wide"""
        f = VarLSSFitter(W1, W1 + case["span"], nvarbins=3)
        ctx.require(f.nwbins == case["want"], "number of wavelength bins",
                    got=f.nwbins)
        dw = case["span"] / case["want"]
        ctx.same(f.waveobs, W1 + dw * (0.5 + np.arange(case["want"])),
                 "wavelength bins")
        f.add(np.array([W1 + 1.]), np.array([1.]), np.array([1.]))
        f.calculate_subsampler_stats()
        ctx.require(f.num_pixels.sum() == 1 and f.num_pixels[:3].sum() == 1,
                    "pixel in the first bin")
        ctx.trace()

    # -- flux stacks ---------------------------------------------------
    OBS = [3600.5, 3603., 3605., 3609., 3611.5]   # 3 bins of 4 A
    RF = [1050., 1051.9, 1052.2, 1055.9]          # bins at 1050 + 2k
    WT = [0., 1., 2.5]

    def stacker(self, comm=None):
        return FluxStacker(3600., 3612., 4., 1050. + 2 * np.arange(4), 2.,
                           comm=comm)

    def fspec(self, pix, shift=0):
        o = np.array([self.OBS[p[0]] for p in pix])
        r = np.array([self.RF[p[1]] for p in pix])
        w = np.array([self.WT[p[2]] for p in pix])
        f = np.array([1. + 0.25 * q + shift for q in range(len(pix))])
        c = np.array([2. - 0.125 * q + shift for q in range(len(pix))])
        return o, r, w * f, w * c, w

    @staticmethod
    def fref(specs):
        S = dict(o=np.zeros((3, 2)), r=np.zeros((4, 2)))
        for o, r, wf, wc, w in specs:
            for i in range(len(o)):
                k = int((o[i] - 3600.) // 4.)
                S['o'][k] += (wf[i], w[i])
                k = int((r[i] - 1049.) // 2.)
                S['r'][k] += (wc[i], w[i])
        out = {}
        for x in 'or':
            W = S[x][:, 1]
            out[x] = np.array([a / b if b > 0 else 0. for a, b in S[x]])
            out['w' + x] = W
        return out

    @staticmethod
    def fvalues(f):
        return {k: np.array(getattr(f, k), copy=True) for k in (
            "waveobs", "stacked_flux", "weights", "stacked_flux_rf",
            "std_flux_rf")}

    def fcompare(self, ctx, f, specs, what):
        ref = self.fref(specs)
        ctx.same(f["waveobs"], [3602., 3606., 3610.], f"{what}: bins")
        ctx.same(f["stacked_flux"], ref['o'], f"{what}: observed stack")
        ctx.same(f["weights"], ref['wo'], f"{what}: observed weights")
        ctx.same(f["stacked_flux_rf"], ref['r'],
                 f"{what}: rest-frame stack")
        w = ref['wr'] > 0
        ctx.same(f["std_flux_rf"][w], 1 / np.sqrt(ref['wr'][w]),
                 f"{what}: rest-frame error")
        ctx.require(bool(np.all(np.isfinite(f["std_flux_rf"]))),
                    f"{what}: error finite")

    def run_flux(self, case, ctx):
        alpha = list(itertools.product(range(5), range(4), range(3)))
        tails = [()] + [(a,) for a in alpha]
        if ctx.tier != "quick":
            tails += [(a, b) for a in alpha for b in alpha[::4]]
        f = self.stacker()
        for w in range(3):
            for t in tails:
                pix = [tuple(case["first"]) + (w,)] + list(t)
                ctx.inner = pix
                s = self.fspec(pix)
                f.reset()
                self.add(ctx, f, s)
                f.calculate()
                self.fcompare(ctx, self.fvalues(f), [s], "one spectrum")
                ctx.trace()
                ctx.state("flux", sorted(pix))

    def flib(self):
        return dict(
            a=self.fspec([(0, 0, 1), (2, 1, 2), (3, 2, 1)], 0.),
            b=self.fspec([(1, 0, 2), (0, 1, 0), (2, 2, 2)], 1.),
            c=self.fspec([(4, 3, 1), (3, 3, 2), (0, 0, 1), (1, 2, 1)], -.5),
            d=self.fspec([], 0.),
            e=self.fspec([(2, 3, 0)], 0.))

    def run_fhist(self, case, ctx):
        lib = self.flib()
        for d in range(0, case["depth"] - 1):
            for rest in itertools.product("abckr", repeat=d):
                ops = list(case["first"]) + list(rest)
                ctx.inner = "".join(ops)
                f = self.stacker()
                ctx.same(f.stacked_flux, np.ones(3), "initial stack")
                f.reset()
                cur, done = [], False
                for o in ops:
                    ctx.step()
                    if o == "r":
                        f.reset()
                        cur, done = [], False
                        ctx.require(not f.stacked_flux.any()
                                    and not f.weights.any(), "reset")
                    elif done:
                        break           # reset is needed after calculate
                    elif o == "k":
                        f.calculate()
                        done = True
                        self.fcompare(ctx, self.fvalues(f), cur,
                                      "calculated")
                    else:
                        f.add(*lib[o])
                        cur.append(lib[o])
                if not done:
                    f.calculate()
                    self.fcompare(ctx, self.fvalues(f), cur, "at the end")
                x = np.array([3602., 3604., 3608.5])
                ctx.same(f(x), np.interp(x, f.waveobs, f.stacked_flux),
                         "evaluating the stack")
                ctx.trace()
                ctx.state("fh", ops)

    # -- processes -----------------------------------------------------
    def explore(self, ctx, size, factory, check, rounds):
        if size <= 2 and rounds == 1:
            n, _, full = simmpi.explore_schedules(size, factory, check)
            ctx.add("schedules", n)
            if not full:
                ctx.add("preemption_bounded", 1)
        else:
            for o in itertools.permutations(range(size)):
                for sync in (False, True):
                    try:
                        res = simmpi.run_one(size, factory(), o, sync)
                    except simmpi.SimMPIError as e:
                        res = e
                    check(res, list(o), None)
                    ctx.add("schedules", 1)

    def results(self, ctx, res, choices, owner):
        ctx.inner = (owner, choices)
        ctx.step(len(choices))
        ctx.require(not isinstance(res, BaseException), f"protocol: {res}")
        for r, v in enumerate(res):
            ctx.require(v.kind == "value", f"rank {r}: {v} {v.text}")
        return [v.value for v in res]

    def run_vmpi(self, case, ctx):
        size, n, cov = case["size"], case["n"], bool(case["cov"])
        al = self.alphabet()
        ids = [22, 15, 12, 17, 13][:n]
        sp = [self.spec(al[i], k) for k, i in enumerate(ids)]
        for owner in itertools.product(range(size), repeat=n):
            # one round: every schedule; two rounds: the extreme ones
            rounds = 1 if sum(owner) % 2 else 2

            def factory(owner=owner, rounds=rounds):
                def body(comm):
                    f = self.fitter(comm, cov=cov)
                    out = []
                    for rep in range(rounds):
                        for k, o in enumerate(owner):
                            # the second round drops the first spectrum
                            if o == comm.rank and k >= rep:
                                f.add(*sp[k])
                        f.calculate_subsampler_stats()
                        out.append(self.values(f))
                        f.reset()
                    return out
                return body

            def check(res, choices, w, owner=owner, rounds=rounds):
                for r, v in enumerate(
                        self.results(ctx, res, choices, owner)):
                    for rep in range(rounds):
                        self.compare_values(
                            ctx, v[rep], sp[rep:], f"rank {r} round {rep}",
                            cov=cov)
                ctx.trace()

            self.explore(ctx, size, factory, check, rounds)
            ctx.state("vmpi", size, owner, cov)

    def run_fmpi(self, case, ctx):
        size, n = case["size"], case["n"]
        lib = list(self.flib().values())
        sp = lib[:n]
        for owner in itertools.product(range(size), repeat=n):
            rounds = 1 if sum(owner) % 2 else 2

            def factory(owner=owner, rounds=rounds):
                def body(comm):
                    f = self.stacker(comm)
                    out = []
                    for rep in range(rounds):
                        f.reset()
                        for k, o in enumerate(owner):
                            if o == comm.rank and k >= rep:
                                f.add(*sp[k])
                        f.calculate()
                        out.append(self.fvalues(f))
                    return out
                return body

            def check(res, choices, w, owner=owner, rounds=rounds):
                for r, v in enumerate(
                        self.results(ctx, res, choices, owner)):
                    for rep in range(rounds):
                        self.fcompare(ctx, v[rep], sp[rep:],
                                      f"rank {r} round {rep}")
                ctx.trace()

            self.explore(ctx, size, factory, check, rounds)
            ctx.state("fmpi", size, owner)


if __name__ == "__main__":
    qmc.main(Q19())
