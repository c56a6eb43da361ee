"""Q15: blinding follows the latest night and cannot be forgotten."""
import argparse
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import itertools

import qmc
import gen
import pipe
import simmpi
import fitsio
import numpy as np

W0, DW = 3600., 0.8
NIGHTS = [20191231, 20210513, 20210514, 20210515, 20210731, 20210801,
          20210802, 20220731, 20220801, 20220802, 20250101]


def label_of(night, mock, w1):
    if mock or w1 > 1215.67:
        return "none"
    if night < 20210514:
        return "none"
    if night < 20210801:
        return "desi_m2"
    if night < 20220801:
        return "desi_y1"
    return "desi_y3"


class Q15(qmc.Check):
    pid = "Q15"
    bounds = {
        "quick": "11 nights around every threshold x mock/data x 5 forest "
                 "starts x resolution on/off; every sequence of <=4 of "
                 "{set: 4 strategies x resolution option, save with / without "
                 "resolution}; full analyses with every placement of 4 "
                 "nights on 3 pixels over 1-3 and 5 processes, the latest night on "
                 "any quasar of a pixel or on one that is cut",
        "thorough": "sequences of 5"}
    assumptions = []

    def setup(self):
        global Spectrum, io, fit
        import qsonic.scripts.qsonic_fit as fit
        import qsonic.picca_continuum as picca
        pipe.small_statistics(picca)
        from qsonic.spectrum import Spectrum
        import qsonic.io as io
        qmc.snapshot(Spectrum)

    def cases(self, tier):
        for night in NIGHTS:
            yield dict(kind="label", night=night)
        depth = 4 if tier == "quick" else 5
        ops = ["n0", "n1", "y0", "y1", "s0", "s1"]
        for k, nights in enumerate(itertools.product(
                (20200101, 20210601, 20220101, 20230101), repeat=3)):
            if tier == "quick" and len(set(nights)) == 1:
                continue
            yield dict(kind="pipe", nights=nights, where=k % 3)
        for j in range(4):
            yield dict(kind="pipe", nights=[20200101, 20200101, 20220101],
                       where=j)
        for a, b in itertools.product(ops, repeat=2):
            yield dict(kind="seq", first=[a, b], ops=ops, depth=depth)

    def run(self, case, ctx):
        getattr(self, "run_" + case["kind"])(case, ctx)

    def spec(self, tid, reso):
        w = W0 + DW * np.arange(4)
        rs = {'B': np.exp(-np.arange(-3, 4)[:, None]**2 / 2.
                          / (1.2 + 0.01 * np.arange(4)))}
        s = gen.make_spectrum(
            Spectrum, gen.catrow(tid, 2.0), {'B': (
                w, 1. + np.arange(4.), np.full(4, 2.), np.zeros(4, int))},
            reso=rs if reso else None)
        s.set_forest_region(3000., 9000., 1000., 1600.)
        s.cont_params['valid'] = True
        s.cont_params['cont'] = {'B': np.full(4, 2.)}
        return s

    def check_saved(self, ctx, d, label, reso, what):
        for n in sorted(os.listdir(d)):
            os.remove(os.path.join(d, n))
        specs = [self.spec(t, reso) for t in (5, 6)]
        io.save_deltas(specs, d, mpi_rank=0)
        with fitsio.FITS(os.path.join(d, "delta-0.fits")) as f:
            ctx.require(len(f) == 3, f"{what}: deltas in the file")
            for h in f[1:]:
                got = h.read_header()['BLINDING']
                ctx.require(got == label, f"{what}: BLINDING", got=got,
                            want=label)
                cols = h.get_colnames()
                ctx.require(
                    ("DELTA" in cols) == (label == "none")
                    and ("DELTA_BLIND" in cols) == (label != "none"),
                    f"{what}: delta column", cols=cols, label=label)
                ctx.require(("RESOMAT" in cols) == bool(reso),
                            f"{what}: resolution column", cols=cols)
                dn = "DELTA" if label == "none" else "DELTA_BLIND"
                ctx.same(h[dn].read(), (1. + np.arange(4.)) / 2 - 1,
                         f"{what}: values")
        for dl in io.read_deltas(os.path.join(d, "delta-0.fits")):
            ctx.same(dl.delta, (1. + np.arange(4.)) / 2 - 1,
                     f"{what}: values read back")

    def args(self, mock=False, w1=1050., skip=True):
        return argparse.Namespace(mock_analysis=mock, forest_w1=w1,
                                  skip_resomat=skip)

    def run_label(self, case, ctx):
        n = case["night"]
        d = os.path.join(ctx.tmp, "o")
        os.makedirs(d)
        for mock in (False, True):
            for w1 in (1040., 1150., 1215.5, 1216., 1420.):
                for skip in (False, True):
                    qmc.fresh()
                    ctx.inner = (mock, w1, skip)
                    ctx.require(Spectrum.blinding_not_set(),
                                "blinding set before it is decided")
                    ctx.raises(lambda: io.save_deltas(
                        [self.spec(5, 0)], d, mpi_rank=0),
                        "save before blinding is decided")
                    ctx.require(not os.listdir(d), "refused save wrote")
                    for night in ((n, np.int32(n)) if not mock
                                  else (None, n)):
                        qmc.fresh()
                        Spectrum.set_blinding(
                            night, self.args(mock, w1, skip))
                        ctx.require(not Spectrum.blinding_not_set(),
                                    "blinding is decided")
                        self.check_saved(ctx, d, label_of(n, mock, w1),
                                         not skip, "label")
                        ctx.step(2)
                        ctx.trace()
                    os.remove(os.path.join(d, "delta-0.fits"))
                    ctx.state(n, mock, w1, skip)

    def run_pipe(self, case, ctx):
        """Whole analyses: the strategy is that of the latest night."""
        special, nights = {}, {}
        for i, n in enumerate(case["nights"]):
            # quasars of pixel i are i, i + 3, ...
            nights[i + 3 * (4 * case["where"] + i)] = n
        if case["where"] == 3:
            nights = {2 + 9: max(case["nights"])}
            special = {2 + 9: 'lowr'}
        qs = pipe.quasars(36, npix=3, lastnight=nights, special=special)
        root = os.path.join(ctx.tmp, "in")
        cat = pipe.write(root, qs)
        label = label_of(max(case["nights"]), False, pipe.FW1)
        # also a process without quasars
        for size in (1, 2, 3, 5) if case["where"] == 1 else (1, 2, 3):
            ctx.inner = size
            out = os.path.join(ctx.tmp, f"out{size}")
            av = pipe.argv(root, cat, out, "--skip-resomat",
                           "--num-iterations", 1, "--min-rsnr", 0.3)
            try:
                res = pipe.run(fit.main, av, size)
            except simmpi.SimMPIError as e:
                ctx.require(False, f"protocol with {size} processes: {e}")
            for r, v in enumerate(res):
                ctx.require(v.kind == "value", f"rank {r}: {v} {v.text}")
            p = pipe.products(out)
            ctx.require(len(p["deltas"]) > 25, "number of deltas")
            for n, (t, h) in p["deltas"].items():
                ctx.require(h["BLINDING"].strip() == label, "BLINDING",
                            ext=n, got=h["BLINDING"], want=label)
                ctx.require(
                    ("DELTA" in t.dtype.names) == (label == "none")
                    and ("DELTA_BLIND" in t.dtype.names)
                    == (label != "none"), "delta column", ext=n,
                    cols=t.dtype.names)
            ctx.step(size)
            ctx.trace()
            ctx.state("pipe", case["nights"], case["where"], size)

    def run_seq(self, case, ctx):
        d = os.path.join(ctx.tmp, "o")
        os.makedirs(d)
        for rest in itertools.product(
                case["ops"], repeat=case["depth"] - 2):
            seq = list(case["first"]) + list(rest)
            qmc.fresh()
            label = None
            for k, op in enumerate(seq):
                ctx.inner = seq[:k + 1]
                ctx.step()
                if op[0] == "s":
                    reso = int(op[1])
                    if label is None:
                        ctx.raises(lambda: io.save_deltas(
                            [self.spec(5, reso)], d, mpi_rank=0),
                            "save before blinding is decided")
                        continue
                    self.check_saved(ctx, d, label, reso,
                                     f"after {seq[:k + 1]}")
                else:
                    night = 20200101 if op[0] == "n" else 20230101
                    label = "none" if op[0] == "n" else "desi_y3"
                    # mocks have no nights
                    mock = op == "n1"
                    Spectrum.set_blinding(
                        None if mock else night,
                        self.args(mock=mock, skip=op[1] == "0"))
                ctx.state("seq", label, seq[:k + 1])
            ctx.trace()


if __name__ == "__main__":
    qmc.main(Q15())
