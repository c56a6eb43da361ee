"""Q20: interpolators reproduce the exact linear and cubic spline."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import itertools

import qmc
import numpy as np
from scipy.interpolate import CubicSpline

GRIDS = [(0., 1.), (3604.3, 0.8), (-7.5, 120.), (1e-3, 1e-3)]


class Q20(qmc.Check):
    pid = "Q20"
    bounds = {
        "quick": "table sizes 2-80 and every unit table of each size (spans "
                 "all tables by linearity) plus three generic tables, 4 "
                 "grids, linear / not-a-knot / natural, all nodes, three "
                 "positions per interval and eight outside positions; all reset "
                 "sequences of length <=3 over 4 tables",
        "thorough": "table sizes up to 160, reset sequences of length 5"}
    assumptions = ["numba-compiled code computes what its Python source does "
                   "(numba is replaced by plain execution)"]

    def setup(self):
        global mt
        import qsonic.mathtools as mt

    def cases(self, tier):
        top = 80 if tier == "quick" else 160
        for n in range(2, top + 1):
            for g in range(len(GRIDS)):
                yield dict(kind="unit", n=n, grid=g)
        depth = 3 if tier == "quick" else 5
        for bc in ("lin", "not-a-knot", "natural"):
            for n in (2, 3, 4, 7, 20):
                for d in range(1, depth + 1):
                    for seq in itertools.product(range(3), repeat=d):
                        yield dict(kind="reset", bc=bc, n=n, seq=seq)

    def make(self, bc, x0, dx, y, copy=False):
        if bc == "lin":
            return mt.FastLinear1DInterp(x0, dx, y, copy=copy)
        if bc == "not-a-knot":
            return mt.FastCubic1DInterp(x0, dx, y, copy=copy)
        return mt.FastCubic1DInterp(x0, dx, y, copy=copy, bc_type=bc)

    def ref(self, bc, x0, dx, y, t):
        """t: position in units of the spacing"""
        n = len(y)
        if bc == "lin":
            k = np.clip(np.floor(t), 0, n - 2).astype(int)
            return y[k] + (t - k) * (y[k + 1] - y[k])
        if n == 2:
            return y[0] + t * (y[1] - y[0])
        return CubicSpline(np.arange(n), y, bc_type=bc)(t)

    def positions(self, n):
        t = [np.arange(n, dtype=float), np.arange(n - 1) + 0.5,
             np.arange(n - 1) + 0.25, np.arange(n - 1) + 0.9,
             [-30.5, -2.5, -1., -0.3, n - 0.7, n, n + 1.5, n + 25.]]
        return np.concatenate(t)

    def evaluate(self, ctx, f, bc, x0, dx, y, what):
        t = self.positions(len(y))
        x = x0 + dx * t
        keep = x.copy(), y.copy()
        got = f(x)
        want = self.ref(bc, x0, dx, y, (x - x0) / dx)
        scale = np.max(np.abs(y)) * (1 + np.abs(t) * 0) + 1e-300
        far = np.maximum(1., np.maximum(-t, t - len(y) + 1))**3 * 10
        bad = ~(np.abs(got - want) <= 1e-7 * scale * far)
        if bad.any():
            j = np.nonzero(bad)[0][0]
            ctx.require(False, f"{bc} {what}: at position {t[j]} of a table "
                        f"of {len(y)} got {got[j]!r}, expected {want[j]!r}",
                        table=y)
        ctx.require(np.array_equal(x, keep[0]) and np.array_equal(y, keep[1]),
                    "evaluation changed its inputs")
        ctx.step(t.size)

    def tables(self, n):
        for j in range(n):
            e = np.zeros(n)
            e[j] = 1.
            yield e
        k = np.arange(n)
        yield 1. + 0. * k
        yield 0.3 * k - 2.
        yield np.cos(k * 1.3) + 2.

    def run(self, case, ctx):
        if case["kind"] == "unit":
            x0, dx = GRIDS[case["grid"]]
            for y in self.tables(case["n"]):
                for bc in ("lin", "not-a-knot", "natural"):
                    ctx.inner = dict(y=y, bc=bc)
                    for mode in ("nan", "huge"):
                        qmc.poison_uninitialised(mode)
                        try:
                            f = self.make(bc, x0, dx, y)
                            self.evaluate(ctx, f, bc, x0, dx, y, "interp")
                        finally:
                            qmc.unpoison()
                    ctx.trace()
                    ctx.state(bc, y, x0, dx)
            return
        n, bc = case["n"], case["bc"]
        k = np.arange(n)
        tabs = [np.cos(k * 1.3) + 2., 0.1 * k**2 - k, (-1.)**k]
        x0, dx = GRIDS[1]
        for copy in (False, True):
            f = self.make(bc, x0, dx, np.full(n, 7.), copy=copy)
            for step, i in enumerate(case["seq"]):
                y = tabs[i].copy()
                if step % 2:
                    f.reset(y, copy=copy, ep=0.1 * y)
                    ctx.same(f.ep, 0.1 * tabs[i], "errors after a reset")
                else:
                    f.reset(y, copy=copy)
                    ctx.require(f.ep is None, "errors of another table")
                self.evaluate(ctx, f, bc, x0, dx, tabs[i].copy(),
                              f"after {step + 1} resets")
                if copy:
                    y += 100.
                    self.evaluate(ctx, f, bc, x0, dx, tabs[i].copy(),
                                  "after editing the copied source")
            ctx.trace()
            ctx.state("reset", bc, n, case["seq"], copy)


if __name__ == "__main__":
    qmc.main(Q20())
