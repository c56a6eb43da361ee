"""Q14: saving deltas writes every valid spectrum once, in the right file."""
import argparse
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import itertools

import qmc
import gen
import fitsio
import numpy as np

W0, DW = 3600., 0.8
PIX = [3, 12, 700, 4, 49151, 120, 7001, 70, 40000]


class Q14(qmc.Check):
    pid = "Q14"
    bounds = {
        "quick": "every list of 0-4 spectra over {2 pixels} x {valid, "
                 "invalid} x {one, two arms}, every order; every list of 3 "
                 "over 3 pixels; grouping by pixel / rank 0 / rank 2 / both / "
                 "neither; lists of 12 and 40 over 9 pixels, targets on two tiles; no output directory; blinding not decided; every "
                 "sequence of <=3 saves of 5 lists into one directory",
        "thorough": "lists of 5 spectra, sequences of 4 saves"}
    assumptions = ["saved spectra have a non-zero mean signal-to-noise"]

    def setup(self):
        global Spectrum, io
        from qsonic.spectrum import Spectrum
        import qsonic.io as io
        qmc.snapshot(Spectrum)

    MODES = ["hpx", "rank0", "rank2", "both", "none", "nodir", "emptydir",
             "noblind", "noblindhpx"]

    def cases(self, tier):
        top = 4 if tier == "quick" else 5
        alpha = list(itertools.product((0, 1), (0, 1), (0, 1)))
        for n in range(0, top + 1):
            for first in itertools.product(alpha, repeat=min(2, n)):
                for mode in self.MODES:
                    if n >= 4 and (first[0][2] or first[1][2]):
                        continue
                    yield dict(kind="list", n=n, first=first, mode=mode)
        for pix in itertools.product(range(3), repeat=3):
            for mode in ("hpx", "rank2"):
                yield dict(kind="three", pix=pix, mode=mode)
        for n in (12, 40):
            for stride in (1, 5, 7, 11):
                for mode in ("hpx", "rank2"):
                    yield dict(kind="many", n=n, stride=stride, mode=mode)
        for d in range(2, 4 if tier == "quick" else 5):
            for seq in itertools.product(range(5), repeat=d):
                yield dict(kind="again", seq=seq)

    def spec(self, k, pix, valid, two, shift=0., tid=None):
        arms = {'B': (W0 + DW * np.arange(3), 1. + k + np.arange(3.) + shift,
                      np.full(3, 2.), np.zeros(3, int))}
        if two:
            arms['R'] = (W0 + DW * (3 + np.arange(2)), 3. + k + np.arange(2.),
                         np.full(2, 2.), np.zeros(2, int))
        else:
            arms['R'] = (W0 + DW * (3 + np.arange(2)), np.ones(2),
                         np.zeros(2), np.ones(2, int))
        s = gen.make_spectrum(Spectrum, gen.catrow(
            1000 + (k * 7) % 5 if tid is None else tid, 2.0, hpx=PIX[pix]), arms)
        s.set_forest_region(3000., 9000., 1000., 1600.)
        s.cont_params['valid'] = bool(valid)
        if valid:
            s.cont_params['cont'] = {
                a: np.full(w.size, 2.) for a, w in s.forestwave.items()}
        return s

    def blind(self):
        Spectrum.set_blinding(20200101, argparse.Namespace(
            mock_analysis=False, forest_w1=1050., skip_resomat=True))

    def content(self, d):
        """file -> {extname: DELTA}"""
        out = {}
        for fn in sorted(os.listdir(d)):
            out[fn] = {}
            p = os.path.join(d, fn)
            try:
                with fitsio.FITS(p) as f:
                    for h in f[1:] if len(f) > 1 else []:
                        e = h.get_extname()
                        if e in out[fn]:
                            out[fn][e] = "twice"
                        else:
                            out[fn][e] = h['DELTA'].read()
            except OSError:
                if os.path.getsize(p) > 0:
                    raise
        return out

    def save(self, ctx, specs, mode, d):
        """returns the grouping, or None when the save must be refused"""
        kw, out, group = {}, d, None
        if mode in ("hpx", "both", "noblindhpx"):
            kw["save_by_hpx"] = True
            group = "hpx"
        if mode in ("rank0", "rank2", "both", "noblind"):
            kw["mpi_rank"] = 0 if mode == "rank0" else 2
            if group is None:
                group = kw["mpi_rank"]
        if mode == "nodir":
            out = None
            kw["mpi_rank"] = 1
        if mode == "emptydir":
            out = ""
            kw["save_by_hpx"] = True
        cwd = os.getcwd()
        os.chdir(d)
        try:
            ctx.step()
            if mode in ("none", "noblind", "noblindhpx"):
                ctx.raises(lambda: io.save_deltas(specs, out, **kw),
                           f"save in mode {mode}")
                return None
            io.save_deltas(specs, out, **kw)
        finally:
            os.chdir(cwd)
        return group if out else None

    def expect(self, specs, group):
        want = {}
        if group is None:
            return want
        for s in specs:
            fn = f"delta-{s.hpix if group == 'hpx' else group}.fits"
            if s.cont_params['valid']:
                for a in s.forestwave:
                    want.setdefault(fn, {})[f"{s.targetid}-{a}"] = \
                        s.forestflux[a] / 2. - 1
        return want

    def compare(self, ctx, d, want, what):
        got = self.content(d)
        got = {k: v for k, v in got.items() if v}
        ctx.require(sorted(got) == sorted(want), f"{what}: files",
                    got=sorted(got), want=sorted(want))
        for fn in want:
            ctx.require(sorted(got[fn]) == sorted(want[fn]),
                        f"{what}: extensions of {fn}", got=sorted(got[fn]),
                        want=sorted(want[fn]))
            for e in want[fn]:
                ctx.require(not isinstance(got[fn][e], str),
                            f"{what}: {e} written twice")
                ctx.same(got[fn][e], want[fn][e], f"{what}: {fn}[{e}]")

    def run(self, case, ctx):
        getattr(self, "run_" + case["kind"])(case, ctx)

    def one(self, ctx, items, mode):
        qmc.fresh()
        d = os.path.join(ctx.tmp, "o")
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        specs = [self.spec(k, *it) for k, it in enumerate(items)]
        if not mode.startswith("noblind"):
            self.blind()
        group = self.save(ctx, specs, mode, d)
        if group is None:
            ctx.require(os.listdir(d) == [], "nothing is written",
                        got=os.listdir(d))
        self.compare(ctx, d, self.expect(specs, group), mode)
        ctx.trace()
        ctx.state(items, mode)
        ctx.outcome("saved" if group is not None else "refused/none")

    def run_list(self, case, ctx):
        alpha = list(itertools.product((0, 1), (0, 1), (0, 1)))
        if case["n"] >= 4:
            alpha = [a for a in alpha if a[2] == 0]
        first = [tuple(x) for x in case["first"]]
        for rest in itertools.product(alpha, repeat=case["n"] - len(first)):
            ctx.inner = first + list(rest)
            self.one(ctx, first + list(rest), case["mode"])

    def run_three(self, case, ctx):
        for val in itertools.product((0, 1), repeat=3):
            items = [(p, v, 1) for p, v in zip(case["pix"], val)]
            ctx.inner = items
            self.one(ctx, items, case["mode"])

    def run_many(self, case, ctx):
        """long lists; one target may occur on two tiles"""
        n, st = case["n"], case["stride"]
        for same in (False, True):
            qmc.fresh()
            d = os.path.join(ctx.tmp, f"o{same}")
            os.makedirs(d)
            specs = []
            for i in range(n):
                k = (i * st) % n
                specs.append(self.spec(
                    k, (k // 2 if not same else k // 4) % 9, k % 6 != 4,
                    k % 2, tid=5000 + (k // 2 if same else k)))
            self.blind()
            ctx.inner = same
            group = self.save(ctx, specs, case["mode"], d)
            want = {}
            for s in specs:
                fn = f"delta-{s.hpix if group == 'hpx' else group}.fits"
                for a in s.forestwave if s.cont_params['valid'] else ():
                    want.setdefault(fn, []).append(
                        (f"{s.targetid}-{a}",
                         (s.forestflux[a] / 2. - 1).round(6).tolist()))
            got = {}
            for fn in os.listdir(d):
                with fitsio.FITS(os.path.join(d, fn)) as f:
                    x = [(h.get_extname(), h['DELTA'].read().round(6)
                          .tolist()) for h in f[1:]] if len(f) > 1 else []
                if x:
                    got[fn] = x
            ctx.require(sorted(got) == sorted(want), "files",
                        got=sorted(got), want=sorted(want))
            for fn in want:
                ctx.require(sorted(got[fn]) == sorted(want[fn]),
                            f"content of {fn}", got=sorted(got[fn]),
                            want=sorted(want[fn]))
            ctx.trace()
            ctx.state("many", case, same)
            ctx.outcome("saved")

    def run_again(self, case, ctx):
        """later saves replace files of the same name, keep the others"""
        lists = [[(0, 1, 1), (1, 1, 0)], [(1, 1, 1)], [(0, 0, 0)],
                 [(0, 1, 0), (0, 1, 1), (2, 1, 0)], []]
        for mode in ("hpx", "rank0", "rank2"):
            qmc.fresh()
            self.blind()
            d = os.path.join(ctx.tmp, mode)
            os.makedirs(d)
            model = {}
            for step, k in enumerate(case["seq"]):
                specs = [self.spec(j, *it, shift=step)
                         for j, it in enumerate(lists[k])]
                group = self.save(ctx, specs, mode, d)
                names = {f"delta-{s.hpix if group == 'hpx' else group}.fits"
                         for s in specs}
                if not specs and group != 'hpx':
                    # the file of the process is replaced by an empty one
                    names = {f"delta-{group}.fits"}
                new = self.expect(specs, group)
                for n in names:
                    model.pop(n, None)
                model.update(new)
                ctx.inner = (mode, step)
                self.compare(ctx, d, model, f"save {step}")
            ctx.trace()
            ctx.state("again", case["seq"], mode)


if __name__ == "__main__":
    qmc.main(Q14())
