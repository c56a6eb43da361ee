"""Q22: the full analysis does not depend on how it is parallelised."""
import os
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import itertools

import qmc
import gen
import pipe
import simmpi
import numpy as np

SV = ("main", "sv3")
# pixels that lose all their quasars in some way (index modulo 6)
EMPTY = {}
for _k in range(36):
    if _k % 6 == 0:
        EMPTY[_k] = 'lowr'
    elif _k % 6 == 1:
        EMPTY[_k] = 'dead' if _k % 4 == 1 else 'short'
SOME = {3: 'lowr', 10: 'faint', 14: 'short', 21: 'dead', 8: 'neg',
        17: 'neg', 5: 'noB', 28: 'noB'}
NEGPIX = {k: 'neg' for k in range(36) if k % 6 == 2}
CUT = ["--min-rsnr", 0.3, "--min-forestsnr", 0.5]

# name -> (kind, dataset options, files, arguments)
CONFIGS = {
    "default": ("data", {}, {}, []),
    "after-eta": ("data", dict(special=SOME), {},
                  ["--coadd-arms", "after", "--var-fit-eta",
                   "--smoothing-scale", 0] + CUT),
    "disable-fid": ("data", dict(special=SOME, surveys=SV), {},
                    ["--coadd-arms", "disable", "--save-by-hpx",
                     "--fiducial-meanflux", "STATS", "--fiducial-varlss",
                     "STATS", "--keep-surveys", "main", "sv3"] + CUT),
    "exp-before": ("data", dict(n=30), dict(exposures=True),
                   ["--exposures", "before"]),
    "exp-after": ("data", dict(special=SOME, surveys=SV),
                  dict(exposures=True),
                  ["--exposures", "after", "--keep-surveys", "main",
                   "sv3"]),
    "exp-after-dis": ("data", dict(n=30), dict(exposures=True, reso=True),
                      ["--exposures", "after", "--coadd-arms", "disable",
                       "--save-by-hpx", "--min-rsnr", 0.3]),
    "mock-reso": ("mock", dict(n=30), {}, ["--mock-analysis"]),
    "mock-true": ("mock", dict(special={4: 'lowr'}), {},
                  ["--mock-analysis", "--true-continuum",
                   "--fiducial-meanflux", "STATS", "--fiducial-varlss",
                   "STATS", "--min-rsnr", 0.3, "--skip-resomat"]),
    "tile": ("tile", dict(special=SOME), {}, ["--tile-format"] + CUT),
    "input": ("data", dict(special={4: 'lowr'}), {},
              ["--input-continuum-dir", "CONT", "--fiducial-meanflux",
               "STATS", "--min-rsnr", 0.3]),
    "masks": ("data", {}, dict(bal=True),
              ["--bal-mask", "--sky-mask", "SKY", "--dla-mask", "DLA"]),
    "calib": ("data", {}, {},
              ["--noise-calibration", "NOISE", "--flux-calibration", "FLUX",
               "--varlss-as-additive-noise"]),
    "norm": ("data", dict(special=SOME), {},
             ["--normalize-stacked-flux", "--eta-calib-ivar",
              "--var-fit-eta", "--cont-order", 2] + CUT),
    "cov": ("data", {}, {}, ["--var-use-cov", "--cont-order", 0]),
    "empty": ("data", dict(n=36, special=EMPTY), {}, CUT),
    "converge": ("data", dict(n=36, special=EMPTY), {},
                 CUT + ["--num-iterations", 12]),
    "converge-fid": ("data", dict(n=36, special=EMPTY), {},
                     CUT + ["--num-iterations", 12, "--fiducial-meanflux",
                            "STATS", "--fiducial-varlss", "STATS"]),
    "empty-exp": ("data", dict(n=36, special=EMPTY), dict(exposures=True),
                  ["--exposures", "after", "--save-by-hpx"] + CUT),
    "empty-input": ("data", dict(n=36, special=EMPTY), {},
                    ["--input-continuum-dir", "CONT"] + CUT),
    "invalid-rank": ("data", dict(n=36, special=NEGPIX),
                     dict(exposures=True), ["--exposures", "after"]),
}
TILES = ("tile",)
# more processes than pixels or tiles
IDLE = [(8, tuple(range(8)), 0), (8, tuple(range(8))[::-1], 0)]


class Q22(qmc.Check):
    pid = "Q22"
    case_timeout = 400
    bounds = {
        "quick": "20 configurations of the whole program on 30-36 quasars in "
                 "6 pixels (data, tile, mock; arm coadding before, after, "
                 "off; exposures before, after; fitted, input and true "
                 "continua; fiducial functions; masks; calibrations; "
                 "smoothing; eta; covariance; cuts that empty a process; "
                 "2 or, until convergence, up to 12 iterations); "
                 "each with 1-4, 6 and 8 processes (tiles 1-3 and 8), so "
                 "that there are more processes than pixels, every priority "
                 "order of 2 and 3 processes, weak and strong collective "
                 "synchronisation, both groupings, both arm orders",
        "thorough": "all orders of 4 processes and all rotations and "
                    "reversals of 5-6 processes"}
    assumptions = [
        "the variance fitter uses 20 variance bins and 256 subsamples, so "
        "that every spectrum has its own subsample",
        "results of numerical fits agree to 1e-5"]

    def setup(self):
        global fit
        import qsonic.scripts.qsonic_fit as fit
        import qsonic.picca_continuum as picca
        from qsonic.spectrum import Spectrum
        pipe.small_statistics(picca)
        qmc.snapshot(Spectrum)

    def plans(self, cfg, tier):
        mx = 3 if cfg in TILES else 6
        if cfg in TILES:
            yield "two", [(2, o, s) for o in itertools.permutations(range(2))
                          for s in (0, 1)]
            yield "three", [(3, o, 0)
                            for o in itertools.permutations(range(3))]
            yield "idle", IDLE
            return
        yield "two", [(2, o, s) for o in itertools.permutations(range(2))
                      for s in (0, 1)]
        yield "three", [(3, o, 0) for o in itertools.permutations(range(3))]
        yield "idle", IDLE
        if tier == "quick":
            yield "many", [(4, (0, 1, 2, 3), 0), (4, (3, 2, 1, 0), 1),
                           (mx, tuple(range(mx)), 0),
                           (mx, tuple(range(mx))[::-1], 0)]
        else:
            for i, o in enumerate(itertools.permutations(range(4))):
                yield f"four{i}", [(4, o, 0), (4, o, 1)]
            for n in (5, 6):
                for r in range(n):
                    o = tuple(np.roll(range(n), r).tolist())
                    yield f"n{n}-{r}", [(n, o, 0), (n, o[::-1], 0)]

    def cases(self, tier):
        for cfg in CONFIGS:
            for name, plan in self.plans(cfg, tier):
                yield dict(cfg=cfg, plan=name, runs=plan)
            yield dict(cfg=cfg, plan="variant", runs=[])

    # ------------------------------------------------------------------
    def inputs(self, ctx, cfg):
        kind, dopt, fopt, args = CONFIGS[cfg]
        qs = pipe.quasars(**dict(dict(n=36), **dopt))
        root = os.path.join(ctx.tmp, "in")
        cat = pipe.write(root, qs, kind, **fopt)
        d = ctx.tmp
        names = {n: os.path.join(d, n.lower()) for n in (
            "STATS", "CONT", "SKY", "DLA", "NOISE", "FLUX")}
        for n in ("STATS", "DLA", "NOISE", "FLUX"):
            names[n] += ".fits"
        use = set(a for a in args if a in names)
        if "STATS" in use:
            pipe.write_stats(names["STATS"])
        if "CONT" in use:
            pipe.write_input_continua(names["CONT"], qs, skip=(7, 20))
        if "SKY" in use:
            with open(names["SKY"], "w") as f:
                f.write("# type wave_min wave_max frame\n"
                        "a 3710. 3722. OBS\nb 1100. 1105. RF\n")
        if "DLA" in use:
            rows = [(q["tid"], q["z"] - 0.1, 20.5 + 0.1 * (q["k"] % 4))
                    for q in qs if q["k"] % 3 == 1]
            gen.write_table(names["DLA"], gen.rec(dict(
                TARGETID=np.array([r[0] for r in rows], 'i8'),
                Z_DLA=np.array([r[1] for r in rows]),
                NHI=np.array([r[2] for r in rows]))), 'DLACAT')
        w = 3600. + 60. * np.arange(12)
        if "NOISE" in use:
            gen.write_table(names["NOISE"], gen.rec({
                'lambda': w, 'var_lss': 0.01 + 1e-5 * (w - 3600.),
                'e_var_lss': 0 * w, 'eta': 1.1 + 1e-4 * (w - 3600.),
                'e_eta': 0 * w}), 'VAR_FUNC')
        if "FLUX" in use:
            gen.write_table(names["FLUX"], gen.rec({
                'lambda': w, 'stacked_flux': 1. + 5e-5 * (w - 3900.)}),
                'STACKED_FLUX')
        args = [names.get(a, a) for a in args]
        if kind == "data" and not fopt.get("reso"):
            args.append("--skip-resomat")
        if kind == "tile":
            args.append("--skip-resomat")
        if "--num-iterations" not in args:
            args += ["--num-iterations", 2]
        return qs, root, cat, args

    def launch(self, ctx, root, cat, args, tag, size=1, order=None, sync=0):
        out = os.path.join(ctx.tmp, "out" + tag)
        try:
            res = pipe.run(fit.main, pipe.argv(root, cat, out, *args), size,
                           order, bool(sync))
        except simmpi.SimMPIError as e:
            ctx.require(False, f"protocol with {size} processes: {e}")
        for r, v in enumerate(res):
            ctx.require(v.kind == "value", f"rank {r} of {size}: {v} "
                        f"{v.text}")
        ctx.step(size)
        p = pipe.products(out)
        shutil.rmtree(out, ignore_errors=True)
        ctx.require(not p["dup"], "saved twice", ext=p["dup"])
        return p

    # -- what one run has to satisfy on its own --------------------------
    def judge(self, ctx, cfg, qs, p, args):
        kind = CONFIGS[cfg][0]
        cut = "--min-rsnr" in args
        fcut = "--min-forestsnr" in args
        drop = {'short', 'dead'}
        if cut:
            drop.add('lowr')
        if fcut:
            drop.add('faint')
        surveys = SV if "--keep-surveys" in args else ("main",)
        want = sorted(q["tid"] for q in qs if q["state"] not in drop
                      and (kind == "mock" or q["survey"] in surveys))
        exps = {}
        for q in qs:
            exps[q["tid"]] = [100 * q["k"] + e for e in (0, 1)
                              if not (e == 1 and q["k"] % 3 == 2)]
        before = "before" in args and "--exposures" in args \
            and args[args.index("--exposures") + 1] == "before"
        if before:
            want = sorted(t for t in want for _ in exps[t])
        got = sorted(int(t) for t in p["chi2"]["TARGETID"])
        ctx.require(got == want, "quasars in the chi2 catalog",
                    got=got, want=want)
        by = {q["tid"]: q for q in qs}
        for r in p["chi2"]:
            q = by[int(r["TARGETID"])]
            ctx.require(abs(r["Z"] - q["z"]) < 1e-5, "redshift", row=r)
            if kind != "tile":
                ctx.require(r["HPXPIXEL"] == q["pix"], "pixel", row=r)
            if "--input-continuum-dir" in args:
                ctx.require(bool(r["CONT_valid"]) == (q["k"] not in (7, 20)),
                            "validity with input continua", quasar=q["k"])
            elif q["state"] == 'neg':
                ctx.require(not r["CONT_valid"] or kind == "mock",
                            "negative continuum is valid", row=r)
        after = "--exposures" in args and not before
        names = {}
        for n in p["deltas"]:
            w = n.split("-")
            names.setdefault(int(w[0]), []).append(tuple(w[1:]))
        valid = sorted(set(int(r["TARGETID"]) for r in p["chi2"]
                           if r["CONT_valid"]))
        ctx.require(len(valid) > 0.5 * len(set(want)), "too few valid fits")
        if not before:
            ctx.require(sorted(names) == valid,
                        "deltas are not the valid quasars",
                        got=sorted(names), want=valid)
            for t, lst in names.items():
                arms = sorted(set(x[0] for x in lst))
                if "disable" in args:
                    ctx.require(set(arms) <= set("BR"), "arms", got=lst)
                else:
                    ctx.require(arms == ["brz"], "arms", got=lst)
                if after:
                    ctx.require(
                        set(int(x[1]) for x in lst) == set(exps[t]),
                        "exposures of a quasar", got=lst)
                else:
                    ctx.require(all(len(x) == 1 for x in lst), "names")
        for n, (t, h) in p["deltas"].items():
            q = by[int(n.split("-")[0])]
            ctx.require(h["TARGETID"] == q["tid"]
                        and abs(h["Z"] - q["z"]) < 1e-6
                        and abs(h["RA"] - np.radians(q["ra"])) < 1e-8,
                        "header of another quasar", ext=n)
            rf = t["LAMBDA"] / (1 + q["z"])
            ctx.require(len(t) > 0 and rf.min() >= pipe.FW1 - 1e-6
                        and rf.max() <= pipe.FW2 + 1e-6
                        and t["LAMBDA"].min() >= pipe.W1
                        and t["LAMBDA"].max() <= pipe.W2, "range", ext=n)
            for c in t.dtype.names:
                ctx.require(bool(np.all(np.isfinite(t[c]))),
                            f"{c} is not finite", ext=n)
            ctx.require(bool(np.all(t["WEIGHT"][t["IVAR"] == 0] == 0)),
                        "masked pixel has weight", ext=n)
        if "--save-by-hpx" in args:
            for n, f in p["where"].items():
                q = by[int(n.split("-")[0])]
                ctx.require(f == f"delta-{q['pix']}.fits", "grouping",
                            ext=n, file=f)

    # -- two runs agree ---------------------------------------------------
    def close(self, ctx, a, b, what, rtol=1e-5, atol=1e-7):
        ctx.same(np.asarray(a), np.asarray(b), what, rtol=rtol, atol=atol,
                 nan_ok=True)

    def agree(self, ctx, p, q, what):
        ctx.require(sorted(p["deltas"]) == sorted(q["deltas"]),
                    f"{what}: set of deltas", got=sorted(p["deltas"]),
                    want=sorted(q["deltas"]))
        for n, (t, h) in p["deltas"].items():
            t0, h0 = q["deltas"][n]
            ctx.require(t.dtype.names == t0.dtype.names,
                        f"{what}: columns of {n}")
            for c in t.dtype.names:
                self.close(ctx, t[c], t0[c], f"{what}: {c} of {n}",
                           atol=1e-6 * (1 + np.max(np.abs(t0[c]))))
            for k in ("TARGETID", "RA", "DEC", "Z", "BLINDING", "MEANSNR",
                      "RSNR", "SMSCALE", "EXPID", "MEANRESO", "TILEID"):
                x, y = h.get(k, None), h0.get(k, None)
                if isinstance(y, float):
                    self.close(ctx, x, y, f"{what}: {k} of {n}")
                else:
                    ctx.require(x == y, f"{what}: {k} of {n}", got=x,
                                want=y)

        def rows(c):
            out = {}
            for r in c:
                arms = r["ARMS"]
                arms = (arms.decode() if isinstance(arms, bytes)
                        else arms).strip().split(",")
                key = (int(r["TARGETID"]), int(r["HPXPIXEL"]))
                v = [float(r[x]) for x in (
                    "Z", "RSNR", "CONT_valid", "CONT_chi2", "CONT_dof")]
                v += list(np.ravel(r["CONT_x"])) if r["CONT_valid"] else []
                snr = dict(zip(arms, r["MEANSNR"]))
                v += [float(snr[a]) for a in sorted(snr)]
                out.setdefault(key + tuple(sorted(arms)), []).append(v)
            return {k: sorted(v) for k, v in out.items()}
        a, b = rows(p["chi2"]), rows(q["chi2"])
        ctx.require(sorted(a) == sorted(b), f"{what}: chi2 catalog rows",
                    got=sorted(a), want=sorted(b))
        for k in a:
            self.close(ctx, a[k], b[k], f"{what}: chi2 row {k}", rtol=1e-4,
                       atol=1e-5)
        ctx.require(list(p["attrs"]) == list(q["attrs"]),
                    f"{what}: saved functions", got=list(p["attrs"]),
                    want=list(q["attrs"]))
        for n, t in p["attrs"].items():
            t0 = q["attrs"][n]
            ctx.require(t.dtype.names == t0.dtype.names,
                        f"{what}: columns of {n}")
            for c in t.dtype.names:
                self.close(ctx, t[c], t0[c], f"{what}: {c} of {n}",
                           rtol=1e-4, atol=1e-6)

    def run(self, case, ctx):
        cfg = case["cfg"]
        qs, root, cat, args = self.inputs(ctx, cfg)
        ctx.inner = "one process"
        ref = self.launch(ctx, root, cat, args, "ref")
        self.judge(ctx, cfg, qs, ref, args)
        ctx.state("q22", cfg, "ref")
        for i, (size, order, sync) in enumerate(case["runs"]):
            ctx.inner = (size, list(order), sync)
            p = self.launch(ctx, root, cat, args, str(i), size, order, sync)
            self.judge(ctx, cfg, qs, p, args)
            self.agree(ctx, p, ref, f"{size} processes")
            if cfg.startswith(("empty", "invalid", "converge")) and size == 6 \
                    and "MPI_RANK" in p["chi2"].dtype.names:
                r = set(p["chi2"]["MPI_RANK"][p["chi2"]["CONT_valid"]])
                ctx.require(len(r) < 6, "harness: no process is empty")
            if cfg.startswith("converge"):
                ctx.require("CONT-12" not in p["attrs"],
                            "harness: does not converge")
            ctx.trace()
            ctx.state("q22", cfg, size, list(order), sync)
        if case["plan"] == "variant":
            alt = [a for a in args if a != "--save-by-hpx"]
            if len(alt) == len(args) and "--tile-format" not in args:
                alt = args + ["--save-by-hpx"]
            for name, av in (("grouping", alt),
                             ("arms R B", args + ["--arms", "R", "B"]),
                             ("arms B R B", args + ["--arms", "B", "R",
                                                    "B"])):
                for size in (1, 2):
                    ctx.inner = (name, size)
                    p = self.launch(ctx, root, cat, av,
                                    name.replace(" ", "") + str(size), size)
                    self.judge(ctx, cfg, qs, p, av)
                    self.agree(ctx, p, ref, name)
                    ctx.trace()
                    ctx.state("q22", cfg, name, size)


if __name__ == "__main__":
    qmc.main(Q22())
