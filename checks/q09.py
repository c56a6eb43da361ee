"""Q09: masks remove exactly the contaminated pixels and nothing else."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import itertools
import json
import subprocess

import qmc
import gen
import fitsio
import numpy as np

C = 299792.458
LINES = [1549, 1403, 1394, 1240.81, 1216.1, 1175, 1128, 1117, 1074, 1062,
         1031, 1037, 1039, 1025.7, 972.5, 977.0, 989.9, 949.7]
TIDS = [39627939372861215, 39627939372861216, -3]
NODLA = TIDS[0] + 2**32    # without absorbers; same low word


def transmission(wave, zdla, nhi, b=10.):
    """Tepper-Garcia (2006) Voigt wings of Lya + Lyb, from scratch."""
    tau = np.zeros(wave.size)
    for lam, f, A in ((1215.67, 4.1641e-01, 6.2648e8),
                      (1025.7220, 7.9142e-02, 1.6725e8)):
        s = b / C
        a = A * lam * 1e-8 / (4 * np.pi * C * 1e5) / s
        x = np.abs(wave / (1 + zdla) / lam - 1) / s
        H = np.exp(-x**2)
        far = x > 1e-3
        P = x[far]**2
        K = 1.5 / P
        R = np.exp(-P)
        H[far] = R - a / P / np.sqrt(np.pi) * (
            R**2 * (4 * P**2 + 7 * P + 4 + K) - K - 1)
        cross = np.pi * 4.803204e-10**2 / 9.109384e-28 / (C * 1e5)
        tau += H * cross * f * 10**(nhi - 13) * lam / b / np.sqrt(np.pi)
    return np.exp(-tau)


class Q09(qmc.Check):
    pid = "Q09"
    bounds = {
        "quick": "sky: every single window with edges on a half-pixel lattice "
                 "and every pair of a reduced lattice and every set of 3-9 of "
                 "nine windows, observed and rest "
                 "frame, 2 redshifts, 2 overlapping arms, 4 prior mask "
                 "patterns; BAL: all velocity pairs in every slot and all "
                 "slot pairs of an alphabet, all 18 lines; DLA: every multiset "
                 "of <=3 absorbers of 7 on 2 targets, all row orders, column "
                 "spellings, 5 hash seeds; all mask sequences of length <=3",
        "thorough": "all window pairs of the full lattice, all sequences of "
                    "length 4, <=4 absorbers"}
    assumptions = ["pixels within 1e-6 A of a trough edge or 1e-6 of the "
                   "transmission limit may fall on either side",
                   "survey-size instances (30-130 sky windows over 2 200 "
                   "pixels, 22 BAL slots, DLA tables of 40-120 targets with "
                   "up to 12 absorbers each) are enumerated for a fixed "
                   "family of contents, not for all"]

    def setup(self):
        global Spectrum, masks
        from qsonic.spectrum import Spectrum
        import qsonic.masks as masks
        qmc.snapshot(Spectrum, masks.SkyMask, masks.BALMask, masks.DLAMask)

    def cases(self, tier):
        lat = [k / 2. for k in range(-3, 17)]
        for frame in ("OBS", "RF"):
            for lo in lat:
                yield dict(kind="sky1", frame=frame, lo=lo, lat=lat)
        red = [-1., 0., 1.5, 2., 4., 4.5, 6., 9.] if tier == "quick" else lat
        wins = [(f, a, b) for f in ("OBS", "RF")
                for a, b in itertools.combinations(red, 2)]
        for k in range(len(wins)):
            yield dict(kind="sky2", first=wins[k], rest=wins[k + 1:])
        for mix in ("OBS", "RF", "both"):
            for n in range(3, 10):
                yield dict(kind="skymany", mix=mix, n=n)
        yield dict(kind="skyempty")
        vel = [0., -1., 500., 3000., 10000., 25000.]
        for slot in range(5):
            yield dict(kind="bal", slots=[slot], vel=vel)
        vel2 = [-1., 0., 800., 12000.] if tier == "quick" else vel
        for two in itertools.combinations(range(5), 2):
            for v in itertools.product(vel2, repeat=2):
                yield dict(kind="bal", slots=two, vel=vel2, v0=v)
        top = 3 if tier == "quick" else 4
        for n in range(0, top + 1):
            for abs_ in itertools.combinations_with_replacement(
                    range(7), n):
                yield dict(kind="dla", abs=abs_)
        for col in ("Z_DLA", "Z", "both"):
            yield dict(kind="dlacol", col=col)
        for n in (30, 64, 130) if tier == "quick" else (30, 64, 130, 260):
            for mix in ("OBS", "RF", "both"):
                for order in range(3):
                    yield dict(kind="skylarge", n=n, mix=mix, order=order)
        for used in list(range(22)) + ["all", "ai", "bi", "odd"]:
            yield dict(kind="ballarge", used=used)
        for nt, most in ((40, 12), (120, 3)) if tier == "quick" \
                else ((40, 12), (120, 3), (300, 5)):
            for order in range(3):
                yield dict(kind="dlalarge", nt=nt, most=most, order=order)
        yield dict(kind="hash", seeds=5 if tier == "quick" else 12)
        top = 3 if tier == "quick" else 4
        for n in range(1, top + 1):
            for seq in itertools.product("SBD", repeat=n):
                if seq.count("D") <= 1:
                    yield dict(kind="seq", seq="".join(seq))

    def run(self, case, ctx):
        getattr(self, "run_" + case["kind"])(case, ctx)

    # -- sky -----------------------------------------------------------
    WB = 3600. + np.arange(7.)
    WR = 3605. + np.arange(4.)
    PRIOR = [("0000000", "0000"), ("1000001", "0110"), ("0101010", "1000"),
             ("1111110", "0001")]

    def sky_spec(self, z, prior, tid=9):
        arms = {}
        for a, w, p in (('B', self.WB, prior[0]), ('R', self.WR, prior[1])):
            m = np.array([int(c) for c in p])
            arms[a] = (w, 1. + np.arange(w.size), 3. + np.arange(w.size), m)
        reso = {a: np.arange(3. * v[0].size).reshape(3, -1)
                for a, v in arms.items()}
        s = gen.make_spectrum(Spectrum, gen.catrow(tid, z), arms, reso=reso)
        s.set_forest_region(3000., 4000., 1000. / (1 + z), 4000.)
        return s

    def grab(self, s):
        return {k: {a: np.array(v) for a, v in getattr(s, k).items()}
                for k in ('flux', 'ivar', 'reso', 'forestwave', 'forestflux',
                          'forestivar', 'forestreso')}

    def expect_mask(self, ctx, before, s, bad, exact=True, care=None,
                    trans=None):
        """bad(arm wave) -> boolean; everything else must be unchanged."""
        after = self.grab(s)
        for k in ('flux', 'ivar', 'reso', 'forestwave', 'forestreso'):
            ctx.require(qmc.canon(after[k]) == qmc.canon(before[k]),
                        f"the mask changed {k}")
        ctx.require(list(after['forestflux']) == list(before['forestflux']),
                    "the mask changed the arms")
        for a, w in before['forestwave'].items():
            b = bad(w)
            f0, i0 = before['forestflux'][a], before['forestivar'][a]
            f1, i1 = after['forestflux'][a], after['forestivar'][a]
            T = trans(w) if trans is not None else None
            k = care(w) if care is not None else np.ones(w.size, bool)
            ef, ei = f0.copy(), i0.copy()
            if T is not None:
                ef, ei = ef / T, ei * T**2
            ef[b], ei[b] = 0, 0
            if exact:
                ok = np.all(f1[k] == ef[k]) and np.all(i1[k] == ei[k])
            else:
                ok = np.allclose(f1[k], ef[k], rtol=1e-6, atol=0) \
                    and np.allclose(i1[k], ei[k], rtol=1e-6, atol=0)
            if not ok:
                j = np.nonzero(k & ((f1 != ef) | (i1 != ei)))[0][:5]
                ctx.require(False, f"arm {a}: wrong values after masking",
                            wave=w[j], flux=f1[j], ivar=i1[j],
                            want_flux=ef[j], want_ivar=ei[j])

    def write_sky(self, ctx, wins):
        fn = os.path.join(ctx.tmp, "sky.txt")
        with open(fn, "w") as f:
            f.write("# type wave_min wave_max frame\n")
            for k, (fr, a, b) in enumerate(wins):
                f.write(f"l{k} {a!r} {b!r} {fr}\n")
        return fn

    def check_sky(self, ctx, wins):
        """wins in lattice units of the observed grid"""
        for zmask in (1.0, 3.0):
            use = []
            for fr, a, b in wins:
                a, b = 3600. + a, 3600. + b
                if fr == "RF":
                    a, b = a / (1 + zmask), b / (1 + zmask)
                use.append((fr, a, b))
            m = masks.SkyMask(self.write_sky(ctx, use))
            ctx.step()
            for z in (1.0, 3.0):
                for prior in self.PRIOR:
                    qmc.fresh()
                    s = self.sky_spec(z, prior)
                    before = self.grab(s)

                    def bad(w):
                        out = np.zeros(w.size, bool)
                        for fr, a, b in use:
                            x = w / (1 + z) if fr == "RF" else w
                            out |= (x >= a) & (x < b)
                        return out
                    ctx.inner = dict(wins=use, z=z, prior=prior)
                    for rep in range(2):
                        m.apply(s)
                        self.expect_mask(ctx, before, s, bad)
                        ctx.step()
                    ctx.trace()
                    ctx.state("sky", wins, zmask, z, prior)

    def run_sky1(self, case, ctx):
        for hi in case["lat"]:
            if hi > case["lo"]:
                self.check_sky(ctx, [(case["frame"], case["lo"], hi)])

    def run_sky2(self, case, ctx):
        for w in case["rest"]:
            pair = [tuple(case["first"]), tuple(w)]
            self.check_sky(ctx, pair if len(case["rest"]) % 2 else pair[::-1])

    def run_skymany(self, case, ctx):
        # every set of n of nine one-pixel windows
        for who in itertools.combinations(range(9), case["n"]):
            fr = [case["mix"]] * 9 if case["mix"] != "both" \
                else ["OBS", "RF"] * 5
            order = who if sum(who) % 2 else who[::-1]
            self.check_sky(ctx, [(fr[k], k - 0.25, k + 0.5) for k in order])

    def run_skyempty(self, case, ctx):
        # windows that contain no pixel, or are outside the spectrum
        self.check_sky(ctx, [("OBS", 0.25, 0.75), ("RF", 100., 200.),
                             ("OBS", -200., -100.)])

    def run_skylarge(self, case, ctx):
        # survey-size arms and as many windows as a real sky-line list has
        z, n = 2.37, case["n"]
        wb = 3600. + 0.8 * np.arange(1500)
        wr = wb[1380] + 0.8 * np.arange(700)
        top = wr[-1]
        step = (top - 3600.) / (n + 1)
        wins = []
        for k in range(n):
            a = 3600.27 + step * (k + 0.3)
            b = a + (0.7, 2.5, 9.3, 0.05)[k % 4]
            fr = case["mix"]
            if fr == "both":
                fr = ("OBS", "RF", "RF")[k % 3]
            if fr == "RF":
                a, b = a / (1 + z), b / (1 + z)
            wins.append((fr, a, b))
        order = list(range(n))
        order = (order, order[::-1], order[1::2] + order[::2])[case["order"]]
        m = masks.SkyMask(self.write_sky(ctx, [wins[k] for k in order]))

        def bad(w):
            out = np.zeros(w.size, bool)
            for fr, a, b in wins:
                x = w / (1 + zz) if fr == "RF" else w
                out |= (x >= a) & (x < b)
            return out

        def care(w):
            ok = np.ones(w.size, bool)
            for fr, a, b in wins:
                x = w / (1 + zz) if fr == "RF" else w
                ok &= (np.abs(x - a) > 1e-6) & (np.abs(x - b) > 1e-6)
            return ok
        for zz in (z, 3.1):
            qmc.fresh()
            arms = {'B': (wb, 1. + np.arange(wb.size) % 9,
                          2. + np.arange(wb.size) % 5,
                          (np.arange(wb.size) % 29 == 0).astype(int)),
                    'R': (wr, 2. + np.arange(wr.size) % 7,
                          3. + np.arange(wr.size) % 4,
                          np.zeros(wr.size, int))}
            s = gen.make_spectrum(Spectrum, gen.catrow(7, zz), arms)
            s.set_forest_region(3600., 6000., 900., 2000.)
            before = self.grab(s)
            ctx.inner = dict(z=zz)
            m.apply(s)
            self.expect_mask(ctx, before, s, bad, care=care)
            ctx.step()
            ctx.trace()
            ctx.state("skylarge", case["n"], case["mix"], order, zz)

    # -- BAL -----------------------------------------------------------
    def run_ballarge(self, case, ctx):
        # catalogue columns as wide as in the survey: 17 AI and 5 BI troughs
        u = case["used"]
        use = {"all": range(22), "ai": range(17), "bi": range(17, 22),
               "odd": range(1, 22, 2)}.get(u, [u])
        vmin, vmax = np.full(22, -1.), np.full(22, -1.)
        for k in use:
            vmin[k] = 300. + 1090. * k
            vmax[k] = vmin[k] + 450. + 37. * (k % 5)
        for z in (2.0, 2.77):
            for sets in ("both", "swapped"):
                if sets == "swapped":
                    a, b = vmin[5:], vmin[:5]
                    c, d = vmax[5:], vmax[:5]
                else:
                    a, b = vmin[:17], vmin[17:]
                    c, d = vmax[:17], vmax[17:]
                qmc.fresh()
                s = self.bal_spec(z, np.zeros(5), np.zeros(5))
                s.catrow = gen.catrow(9, z, extra=[
                    (f"{v}_CIV_{x}", ('f8', (y.size, )), y) for v, x, y in (
                        ("VMIN", 450, a), ("VMAX", 450, c),
                        ("VMIN", 2000, b), ("VMAX", 2000, d))])
                before = self.grab(s)
                ctx.inner = dict(z=z, sets=sets)
                bad, care = self.bal_funcs(z, vmin, vmax)
                masks.BALMask.apply(s)
                self.expect_mask(ctx, before, s, bad, care=care)
                ctx.step()
                ctx.trace()
                ctx.state("ballarge", u, z, sets)

    def bal_spec(self, z, vmin, vmax, tid=9):
        g = 935. * (1 + z) + 1.37 + 3.1 * np.arange(
            int(630. * (1 + z) / 3.1))
        arms = {'B': (g[:300], 1. + np.arange(300) % 7, np.full(300, 2.),
                      np.zeros(300, int)),
                'R': (g[290:], 2. + np.arange(g.size - 290) % 5,
                      np.full(g.size - 290, 3.),
                      (np.arange(g.size - 290) % 11 == 0).astype(int))}
        row = gen.catrow(tid, z, VMIN_CIV_450=vmin[:3], VMAX_CIV_450=vmax[:3],
                         VMIN_CIV_2000=vmin[3:], VMAX_CIV_2000=vmax[3:])
        s = gen.make_spectrum(Spectrum, row, arms)
        s.set_forest_region(3000., 9000., 900., 1600.)
        return s

    @staticmethod
    def bal_edges(z, vmin, vmax):
        out = []
        for a, b in zip(vmin, vmax):
            if a > 0 and b > 0:
                for line in LINES:
                    e = sorted(line * (1 + z) * (1 - v / C) for v in (a, b))
                    out.append(e)
        return out

    def bal_funcs(self, z, vmin, vmax):
        edges = self.bal_edges(z, vmin, vmax)

        def bad(w):
            out = np.zeros(w.size, bool)
            for a, b in edges:
                out |= (w >= a) & (w < b)
            return out

        def care(w):
            ok = np.ones(w.size, bool)
            for e in edges:
                for x in e:
                    ok &= np.abs(w - x) > 1e-6
            return ok
        return bad, care

    def run_bal(self, case, ctx):
        vals = case["vel"]
        for v in itertools.product(vals, repeat=2):
            vmin, vmax = np.zeros(5), np.zeros(5)
            vmin[case["slots"][-1]], vmax[case["slots"][-1]] = v
            if "v0" in case:
                vmin[case["slots"][0]], vmax[case["slots"][0]] = case["v0"]
            for z in (2.0, 2.77):
                qmc.fresh()
                s = self.bal_spec(z, vmin, vmax)
                before = self.grab(s)
                ctx.inner = dict(vmin=vmin, vmax=vmax, z=z)
                bad, care = self.bal_funcs(z, vmin, vmax)
                for rep in range(2):
                    masks.BALMask.apply(s)
                    self.expect_mask(ctx, before, s, bad, care=care)
                    ctx.step()
                ctx.trace()
                ctx.state("bal", vmin, vmax, z)

    # -- DLA -----------------------------------------------------------
    ZQ = 2.5
    GRID = 3600. + 2.3 * np.arange(300)          # up to 4287.7
    ABSORB = [(2.1, 20.3), (2.1, 21.7), (2.499, 20.5), (2.3, 22.0),
              (2.62, 20.8), (GRID[160] / 1215.67 - 1, 20.4),
              (2.2, 19.6)]

    def dla_spec(self, tid, z=ZQ):
        n = self.GRID.size
        f = 1. + 0.1 * (np.arange(n) % 9)
        iv = 2. + np.arange(n) % 4
        m = (np.arange(n) % 17 == 0).astype(int)
        arms = {'B': (self.GRID[:180], f[:180], iv[:180], m[:180]),
                'R': (self.GRID[150:] + 1e-7, f[150:], iv[150:], m[150:])}
        s = gen.make_spectrum(Spectrum, gen.catrow(tid, z), arms)
        s.set_forest_region(3500., 9000., 1000., 1300.)
        return s

    def write_dla(self, ctx, rows, col="Z_DLA", name="dla.fits"):
        fn = os.path.join(ctx.tmp, name)
        cols = {'TARGETID': np.array([r[0] for r in rows], 'i8')}
        z = np.array([r[1] for r in rows], 'f8')
        if col == "both":
            cols['Z'] = z * 0 + self.ZQ
            cols['Z_DLA'] = z
        else:
            cols[col] = z
        cols['NHI'] = np.array([r[2] for r in rows], 'f8')
        gen.write_table(fn, gen.rec(cols), 'DLACAT')
        return fn

    def dla_funcs(self, absorbers, zq=ZQ, limit=0.8):
        def tr(w):
            T = np.ones(w.size)
            for zd, nhi in absorbers:
                T *= transmission(w, zd, nhi)
            T[w >= (1 + zq) * 1215.67] = 1
            return T

        def bad(w):
            return tr(w) < limit

        def care(w):
            return (np.abs(tr(w) - limit) > 1e-6) & (
                np.abs(w - (1 + zq) * 1215.67) > 1e-6)

        def trans(w):
            T = tr(w)
            T[T < limit] = 1
            return T
        return bad, care, trans

    def check_dla(self, ctx, m, rows, zq=ZQ, limit=0.8, tids=None):
        for tid in TIDS[:2] + [NODLA]:
            own = [(z, n) for t, z, n in rows if t == tid]
            if tids is not None and tid not in tids:
                own = []
            qmc.fresh()
            s = self.dla_spec(tid, zq)
            before = self.grab(s)
            bad, care, trans = self.dla_funcs(own, zq, limit)
            ctx.inner = dict(rows=rows, tid=tid, own=own)
            m.apply(s)
            for a in s.forestflux:
                ctx.require(np.all(np.isfinite(s.forestflux[a]))
                            and np.all(np.isfinite(s.forestivar[a])),
                            "non-finite values after DLA masking")
            self.expect_mask(ctx, before, s, bad, exact=not own, care=care,
                             trans=trans if own else None)
            ctx.step()
            ctx.trace()
            ctx.state("dla", rows, tid)

    def run_dla(self, case, ctx):
        # all distributions of the absorbers over two targets, all row orders
        n = len(case["abs"])
        filler = [(TIDS[2], 2.2, 21.), (TIDS[2], 2.1, 20.3)]
        for who in itertools.product((0, 1), repeat=n):
            rows = [(TIDS[w],) + self.ABSORB[k]
                    for w, k in zip(who, case["abs"])]
            orders = list(itertools.permutations(range(n + 1)))
            if n >= 3:
                orders = orders[::5]
            for order in orders:
                rr = [(rows + filler[:1])[k] for k in order] + filler[1:]
                fn = self.write_dla(ctx, rr)
                self.check_dla(ctx, masks.DLAMask(fn), rr)
        rr = [(TIDS[0],) + self.ABSORB[k] for k in case["abs"]] + filler
        fn = self.write_dla(ctx, rr)
        for tids in ([TIDS[0]], [TIDS[1], TIDS[2]], TIDS, [NODLA]):
            m = masks.DLAMask(fn, local_targetids=np.array(tids))
            self.check_dla(ctx, m, rr, tids=tids)
        for lim in (0.5, 0.95):
            self.check_dla(ctx, masks.DLAMask(fn, dla_mask_limit=lim), rr,
                           limit=lim)
        self.check_dla(ctx, masks.DLAMask(fn), rr, zq=2.3)

    def run_dlalarge(self, case, ctx):
        # a table with many targets; target k has k % (most + 1) absorbers
        nt, most = case["nt"], case["most"]
        tids = [(-1)**k * (39627939372861215 + 3 * k + (k % 7) * 2**33)
                for k in range(nt)]
        rows = []
        for k, t in enumerate(tids):
            for j in range(k % (most + 1)):
                rows.append((t, 1.99 + 0.037 * j + 0.0011 * k,
                             19.5 + 0.15 * ((j + k) % 6)))
        if case["order"] == 1:
            rows = rows[::-1]
        elif case["order"] == 2:
            n = len(rows)
            rows = [rows[i] for k in range(7) for i in range(k, n, 7)]
        fn = self.write_dla(ctx, rows)
        for local in (None, tids[::2]):
            m = masks.DLAMask(fn, local_targetids=local)
            for k, t in enumerate(tids):
                own = [(z, n) for i, z, n in rows if i == t]
                if local is not None and t not in local:
                    own = []
                s = self.dla_spec(t)
                before = self.grab(s)
                ctx.inner = dict(target=k, own=own, local=local is not None)
                bad, care, trans = self.dla_funcs(own)
                m.apply(s)
                self.expect_mask(ctx, before, s, bad, exact=not own,
                                 care=care, trans=trans if own else None)
                ctx.step()
                ctx.trace()
                ctx.state("dlalarge", nt, case["order"], k, local is None)

    def run_dlacol(self, case, ctx):
        rr = [(TIDS[0], 2.1, 20.7), (TIDS[1], 2.3, 21.)]
        fn = self.write_dla(ctx, rr, case["col"])
        self.check_dla(ctx, masks.DLAMask(fn), rr)

    def run_hash(self, case, ctx):
        rr = [(TIDS[0], 2.1, 20.7), (TIDS[1], 2.3, 21.)]
        code = (
            "import sys, json; sys.path.insert(0, %r); import qmc, gen\n"
            "sys.path.insert(0, %r)\nimport q09; c = q09.Q09(); c.setup()\n"
            "s = c.dla_spec(q09.TIDS[0])\n"
            "q09.masks.DLAMask(sys.argv[1]).apply(s)\n"
            "print(json.dumps([s.forestflux[a].tolist() for a in 'BR']))\n"
            % (qmc.LIB, os.path.dirname(os.path.abspath(__file__))))
        bad, care, trans = self.dla_funcs([rr[0][1:]])
        for col in ("Z_DLA", "Z", "both"):
            fn = self.write_dla(ctx, rr, col, f"{col}.fits")
            for seed in range(case["seeds"]):
                env = dict(os.environ, PYTHONHASHSEED=str(seed))
                r = subprocess.run([sys.executable, "-c", code, fn], env=env,
                                   capture_output=True, text=True)
                ctx.require(r.returncode == 0, "DLA mask failed",
                            err=r.stderr[-500:])
                out = json.loads(r.stdout)
                s = self.dla_spec(TIDS[0])
                for a, got in zip('BR', out):
                    w = s.forestwave[a]
                    want = s.forestflux[a] / trans(w)
                    want[bad(w)] = 0
                    k = care(w)
                    ctx.inner = dict(col=col, seed=seed)
                    ctx.same(np.array(got)[k], want[k], "flux after DLA mask "
                             f"({col} columns, hash seed {seed})", rtol=1e-6)
                ctx.trace()
                ctx.step()

    # -- sequences -----------------------------------------------------
    def run_seq(self, case, ctx):
        zq = self.ZQ
        vmin, vmax = np.zeros(5), np.zeros(5)
        vmin[1], vmax[1] = 2000., 6000.
        wins = [("OBS", 3700., 3711.5), ("RF", 1100.1, 1103.)]
        rows = [(TIDS[0], 2.1, 20.6), (TIDS[0], 2.2, 21.1),
                (TIDS[1], 2.4, 20.3)]
        sky = masks.SkyMask(self.write_sky(ctx, wins))
        dla = masks.DLAMask(self.write_dla(ctx, rows))
        obj = {'S': sky, 'B': masks.BALMask, 'D': dla}
        n = self.GRID.size
        specs = []
        for tid in TIDS[:2]:
            row = gen.catrow(
                tid, zq, VMIN_CIV_450=vmin[:3] * (tid == TIDS[0]),
                VMAX_CIV_450=vmax[:3])
            arms = {'B': (self.GRID, 1. + 0.1 * (np.arange(n) % 9),
                          2. + np.arange(n) % 4,
                          (np.arange(n) % 23 == 0).astype(int))}
            s = gen.make_spectrum(Spectrum, row, arms)
            s.set_forest_region(3500., 9000., 1000., 1300.)
            specs.append(s)
        befores = [self.grab(s) for s in specs]
        for op in case["seq"]:
            for s in specs:
                obj[op].apply(s)
                ctx.step()
        for s, before in zip(specs, befores):
            own = [(z, nh) for t, z, nh in rows if t == s.targetid]
            vm = vmin * (s.targetid == TIDS[0])
            db, dc, dt = self.dla_funcs(own)
            bb, bc = self.bal_funcs(zq, vm, vmax)
            sq = case["seq"]

            def bad(w):
                out = np.zeros(w.size, bool)
                if 'S' in sq:
                    out |= (w >= 3700.) & (w < 3711.5)
                    r = w / (1 + zq)
                    out |= (r >= 1100.1) & (r < 1103.)
                if 'B' in sq:
                    out |= bb(w)
                if 'D' in sq:
                    out |= db(w)
                return out
            self.expect_mask(ctx, before, s, bad, exact='D' not in sq,
                             care=lambda w: dc(w) & bc(w),
                             trans=dt if 'D' in sq else None)
        ctx.trace()
        ctx.state("seq", case["seq"])


if __name__ == "__main__":
    qmc.main(Q09())
