"""Q23: exposures saved after fitting carry their own quasar's continuum."""
import argparse
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import itertools

import qmc
import gen
import simmpi
import fitsio
import numpy as np

W0, N = 3700., 8
DWS = [0.8, 4., 2.1]          # pixel widths, exact in floating point or not
START = {'overlap': 6, 'adjacent': 8, 'gap': 11}
SURV = ['main', 'sv3']
PIX = [9, 700]
# target ids whose order conflicts with pixel and survey order
TIDS = [39627939372861215, 12, 39627939372861216, 7, 3333]
FOREIGN = 4                             # in the files, not in the catalog


def cont(k, w):
    return 1.5 + 0.5 * k + 0.001 * (k + 1) * (w - W0)


def expflux(k, e, arm, i):
    return 2. + k + 0.25 * e + 0.125 * 'BR'.index(arm) + 0.03125 * i


class Q23(qmc.Check):
    pid = "Q23"
    case_timeout = 200
    bounds = {
        "quick": "one quasar: arms of the coadd {B, R, BR} x arms of 1-2 "
                 "exposures {B, R, BR}^n x overlapping, adjacent, separated "
                 "arms x coaddition before/after/disabled x arm orders x "
                 "noise smoothing of the fit x 3 pixel widths; 2-3 quasars over every "
                 "assignment of 2 surveys and 2 pixels x every order of the "
                 "fitted list x row orders x 1-2 exposures; quasars without "
                 "exposures or without valid fit; lists split over 1-2 "
                 "processes, one possibly empty",
        "thorough": "4 quasars, 3 exposures"}
    assumptions = ["the wavelength grid of an arm is the same for all data"]

    def setup(self):
        global fit, Spectrum, io
        import qsonic.scripts.qsonic_fit as fit
        import qsonic.io as io
        from qsonic.spectrum import Spectrum
        qmc.snapshot(Spectrum)

    def cases(self, tier):
        ex = ("B", "R", "BR")
        ne = 2 if tier == "quick" else 3
        for lay in START:
            for mode in ("before", "after", "disable"):
                for c in ex:
                    for reso in (0, 1):
                        for dw in range(3):
                            if tier == "thorough" or dw == 0 or not reso:
                                yield dict(kind="one", lay=lay, mode=mode,
                                           c=c, ne=ne, reso=reso, dw=dw)
        for n in (2, 3) if tier == "quick" else (2, 3, 4):
            for place in itertools.product(range(4), repeat=n):
                yield dict(kind="many", place=place, dw=sum(place) % 3)
        for place in itertools.product(range(2), repeat=3):
            for size in (1, 2):
                yield dict(kind="mpi", place=place, size=size, dw=0)

    def run(self, case, ctx):
        self.dw = DWS[case["dw"]]
        getattr(self, "run_" + case["kind"])(case, ctx)

    # -- files ---------------------------------------------------------
    def grid(self, lay):
        return {'B': W0 + self.dw * np.arange(N),
                'R': W0 + self.dw * (START[lay] + np.arange(N))}

    def table(self, lay, rows, reso):
        """rows: (k, e or None, arms present)"""
        g = self.grid(lay)
        out, rs = {}, {}
        for a in 'BR':
            fl, iv, mk = [], [], []
            for k, e, arms in rows:
                ee = 9 if e is None else e
                fl.append([expflux(k, ee, a, i) for i in range(N)])
                iv.append([4. + 0.5 * i + ee for i in range(N)])
                m = np.zeros(N, int)
                if a not in arms:
                    m[:] = 1
                elif e is not None:
                    m[(2 + e + k) % N] = 1      # one bad pixel
                mk.append(m)
            out[a] = dict(wave=g[a], flux=fl, ivar=iv, mask=mk)
            rs[a] = np.ones((len(rows), 5, N)) * np.array(
                [.1, .5, 1., .5, .1])[None, :, None]
        return out, rs if reso else None

    def write(self, root, lay, qsos, reso=0, rev=False):
        """qsos: dict(k, survey, pix, c=arms, e=[arms...])"""
        groups = {}
        for q in qsos:
            groups.setdefault((q["survey"], q["pix"]), []).append(q)
        for (s, p), lst in groups.items():
            d = f"{root}/{s}/dark/{p // 100}/{p}"
            rows = [(q["k"], None, q["c"]) for q in lst]
            arms, rs = self.table(lay, rows, reso)
            gen.write_spectra_file(
                f"{d}/coadd-{s}-dark-{p}.fits",
                [TIDS[r[0]] for r in rows], arms, reso=rs)
            rows = [(q["k"], e, a) for q in lst
                    for e, a in enumerate(q["e"])]
            rows.append((FOREIGN, 7, "BR"))
            if rev:
                rows = rows[::-1]
            arms, rs = self.table(lay, rows, reso)
            n = len(rows)
            gen.write_spectra_file(
                f"{d}/spectra-{s}-dark-{p}.fits",
                [TIDS[r[0]] for r in rows], arms, dict(
                    EXPID=np.array([100 * r[0] + r[1] for r in rows]),
                    NIGHT=np.full(n, 20210101), TILEID=np.full(n, 80),
                    FIBER=np.arange(n), PETAL_LOC=np.zeros(n, int)),
                reso=rs)

    def fitted(self, root, qsos, mode, arms, reso, smooth):
        """what the analysis has after continuum fitting"""
        argv = ["-i", root, "--catalog", "none", "--arms", *arms,
                "--coadd-arms", mode, "--skip", "0", "--exposures", "after"]
        if not reso:
            argv.append("--skip-resomat")
        args = fit.get_parser().parse_args(argv)
        args.exposures = "disable"
        specs = []
        for q in qsos:
            cat = np.array([self.row(q)])
            s, = fit.mpi_read_calibrate_mask_select_spectra(
                [cat], [], args, simmpi._self_comm, 0)
            if smooth:
                s.set_smooth_forestivar(40.)
            s.cont_params['valid'] = True
            s.cont_params['cont'] = {
                a: cont(q["k"], w) for a, w in s.forestwave.items()}
            s.set_forest_weight()
            if mode == "after":
                s.coadd_arms_forest()
            specs.append(s)
        args.exposures = "after"
        return specs, args

    def row(self, q):
        return gen.catrow(TIDS[q["k"]], 2.5, ra=10. + q["k"],
                          hpx=q["pix"], survey=q["survey"])

    def extent(self, arms, lay):
        s = START[lay]
        rng = {'B': range(0, N), 'R': range(s, s + N)}
        cov = set()
        for a in arms:
            cov |= set(rng[a])
        return range(min(cov), max(cov) + 1), cov

    def expected(self, q, lay, mode, want_arms="BR"):
        """(exposure, arm) -> (indices, usable, value of the continuum)"""
        out = {}
        s0 = {'B': 0, 'R': START[lay]}
        for e, ea in enumerate(q["e"]):
            ea = [a for a in ea if a in want_arms]
            ca = [a for a in q["c"] if a in want_arms]
            bad = (2 + e + q["k"]) % N
            if mode == "disable":
                for a in ea:
                    if a in ca:
                        idx = [s0[a] + i for i in range(N)]
                        use = [i != bad for i in range(N)]
                        out[e, a] = (idx, use, [True] * N)
                continue
            if not ea or not ca:
                continue
            er, _ = self.extent(ea, lay)
            cr, cc = self.extent(ca, lay)
            idx = [i for i in er if i in cr]
            use = [any(0 <= i - s0[a] < N and i - s0[a] != bad
                       for a in ea) for i in idx]
            if mode == "after":
                has = [i in cc for i in idx]
            else:
                has = [True] * len(idx)
            if any(use):
                out[e, 'brz'] = (idx, use, has)
        return out

    def check(self, ctx, d, qsos, lay, mode, arms="BR"):
        got = {}
        for fn in sorted(os.listdir(d)):
            with fitsio.FITS(os.path.join(d, fn)) as f:
                for h in f[1:] if len(f) > 1 else []:
                    n = h.get_extname()
                    ctx.require(n not in got, "saved twice", ext=n)
                    got[n] = (h.read(), h.read_header())
        want = {}
        for q in qsos:
            for (e, a), v in self.expected(q, lay, mode, arms).items():
                want[f"{TIDS[q['k']]}-{a}-{100 * q['k'] + e}"] = (
                    q["k"], e, a) + v
        ctx.require(sorted(got) == sorted(want), "saved exposures",
                    got=sorted(got), want=sorted(want))
        s0 = {'B': 0, 'R': START[lay]}
        for n, (k, e, a, idx, use, has) in want.items():
            t, hdr = got[n]
            w = W0 + self.dw * np.array(idx)
            ctx.require(hdr['TARGETID'] == TIDS[k], "target id", ext=n)
            ctx.require(hdr['EXPID'] == 100 * k + e, "exposure id", ext=n)
            ctx.same(t['LAMBDA'], w, f"wavelengths of {n}")
            c = np.where(has, cont(k, w), 0.)
            ctx.same(t['CONT'], c, f"continuum of {n}", rtol=1e-12)
            # data stay aligned with it
            eas = [a] if a != 'brz' else [x for x in 'BR' if x in arms]
            q = [x for x in qsos if x["k"] == k][0]
            eas = [x for x in eas if x in q["e"][e]]
            bad = (2 + e + k) % N
            for j, i in enumerate(idx):
                W = F = 0.
                for x in eas:
                    p = i - s0[x]
                    if 0 <= p < N and p != bad:
                        v = 4. + 0.5 * p + e
                        W += v
                        F += v * expflux(k, e, x, p)
                ctx.require((W > 0) == use[j], "harness")
                ctx.same(t['IVAR'][j], W * c[j]**2, f"IVAR of {n} at {j}",
                         rtol=1e-6)
                if W > 0 and c[j] > 0:
                    dl = F / W / c[j] - 1
                    col = 'DELTA' if 'DELTA' in t.dtype.names \
                        else 'DELTA_BLIND'
                    ctx.same(t[col][j], dl, f"delta of {n} at pixel {j}",
                             rtol=1e-5, atol=1e-6)
                else:
                    col = 'DELTA' if 'DELTA' in t.dtype.names \
                        else 'DELTA_BLIND'
                    ctx.same(t[col][j], 0., f"masked delta of {n}")

    def after(self, specs, args, comm, out, rank=0):
        Spectrum.set_blinding(20200101, argparse.Namespace(
            mock_analysis=False, forest_w1=1050., skip_resomat=True))
        res = fit.mpi_read_exposures_after(specs, [], args, comm, rank)
        for s in res:
            s.drop_short_arms(args.forest_w1, args.forest_w2, args.skip)
        io.save_deltas(res, out, mpi_rank=rank)
        return len(res)

    def run_one(self, case, ctx):
        lay, mode, reso = case["lay"], case["mode"], case["reso"]
        n = 0
        for ne in range(1, case["ne"] + 1):
            for e in itertools.product(("B", "R", "BR"), repeat=ne):
                q = [dict(k=0, survey="main", pix=9, c=case["c"], e=e)]
                root = os.path.join(ctx.tmp, f"i{n}")
                self.write(root, lay, q, reso, rev=bool(n % 2))
                n += 1
                for arms in ("BR", "RB") + (("B",) if "B" in case["c"]
                                            else ()):
                    for smooth in (0, 1):
                        qmc.fresh()
                        ctx.inner = (e, arms, smooth)
                        specs, args = self.fitted(
                            root, q, mode, arms, reso, smooth)
                        out = os.path.join(ctx.tmp, f"o{n}{arms}{smooth}")
                        os.makedirs(out)
                        self.after(specs, args, simmpi._self_comm, out)
                        ctx.step()
                        self.check(ctx, out, q, lay, mode, arms)
                        ctx.trace()
                        ctx.state("one", case, e, arms, smooth)

    def run_many(self, case, ctx):
        n = len(case["place"])
        h = sum(p * 4**i for i, p in enumerate(case["place"]))
        lay = list(START)[h % 3]
        mode = ("before", "disable", "after")[(h // 3) % 3]
        shapes = [("BR", ("BR",)), ("B", ("BR", "B")), ("BR", ("R", "BR")),
                  ("BR", ())]
        qs = []
        for k, p in enumerate(case["place"]):
            c, e = shapes[(k + h) % 4]
            qs.append(dict(k=k, survey=SURV[p % 2], pix=PIX[p // 2], c=c,
                           e=e))
        root = os.path.join(ctx.tmp, "in")
        self.write(root, lay, qs, rev=bool(h % 2))
        for j, order in enumerate(itertools.permutations(range(n))):
            for drop in (None, order[0]):
                sub = [i for i in order if i != drop]
                qmc.fresh()
                ctx.inner = (sub,)
                specs, args = self.fitted(
                    root, [qs[i] for i in sub], mode, "BR", 0, 0)
                out = os.path.join(ctx.tmp, f"o{j}{drop}")
                os.makedirs(out)
                self.after(specs, args, simmpi._self_comm, out)
                ctx.step()
                self.check(ctx, out, [qs[i] for i in sub], lay, mode)
                ctx.trace()
                ctx.state("many", case["place"], sub)

    def run_mpi(self, case, ctx):
        """the list is split over processes, some may have none"""
        size = case["size"]
        qs = [dict(k=k, survey=SURV[k % 2], pix=PIX[k // 2], c="BR",
                   e=("BR", "B")) for k in range(3)]
        root = os.path.join(ctx.tmp, "in")
        self.write(root, "overlap", qs)
        place = [p % size for p in case["place"]]
        for order in itertools.permutations(range(size)):
            for nothing in (False, True):
                qmc.fresh()
                ctx.inner = (order, nothing)
                use = [] if nothing else qs
                out = os.path.join(ctx.tmp, "o" + "".join(
                    map(str, order)) + str(nothing))
                os.makedirs(out)

                def body(comm):
                    mine = [q for q, p in zip(qs, place)
                            if p == comm.rank and q in use]
                    specs, args = self.fitted(root, mine, "before", "BR",
                                              0, 0)
                    args.outdir = out
                    return self.after(specs, args, comm, out, comm.rank)
                # class-level wavelength grid, as in a run that read spectra
                self.fitted(root, qs[:1], "before", "BR", 0, 0)
                try:
                    res = simmpi.run_one(size, body, order)
                except simmpi.SimMPIError as e:
                    ctx.require(False, f"protocol: {e}")
                for r, v in enumerate(res):
                    ctx.require(v.kind == "value", f"rank {r}: {v} {v.text}")
                ctx.step(size)
                self.check(ctx, out, use, "overlap", "before")
                ctx.trace()
                ctx.state("mpi", place, size, order, nothing)


if __name__ == "__main__":
    qmc.main(Q23())
