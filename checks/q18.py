"""Q18: jackknife statistics equal the delete-one definition."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import itertools

import qmc
import simmpi
import numpy as np

# (nset, ndata) values and weights of the measurements one can add
MEAS = [
    (np.array([[1., 2., -1., 4.], [0.5, -2., 3., 1.]]),
     np.array([1., 2., 0.5, 1.])),
    (np.array([[2.5, -1., 0.25, 3.], [1., 1., -1., 2.]]),
     np.array([2., 0., 1., 3.])),
    (np.array([[-0.5, 0.75, 2., 1.], [4., 2., 0., -3.]]),
     np.array([0.25, 1., 0., 2.])),
]
OPS = ["a0", "a1", "a2", "mean", "var", "cov", "bcov", "icov", "bias",
       "biascov", "reset"]
SMALL = ["a0", "a1", "mean", "var", "cov", "reset"]


class Model:
    """sums per subsample; statistics by definition"""
    def __init__(self, nset, nd, ns, istart):
        self.shape, self.ns, self.istart = (nset, nd), ns, istart
        self.reset()

    def reset(self):
        self.n = 0
        self.X = np.zeros((self.ns,) + self.shape)
        self.W = np.zeros((self.ns, self.shape[1]))
        self.asked = False
        self.biased = False

    def add(self, x, w):
        s = (self.istart + self.n) % self.ns
        self.X[s] += x * w
        self.W[s] += w
        self.n += 1

    def mean(self):
        m = np.zeros(self.shape)
        for j in range(self.shape[0]):
            for k in range(self.shape[1]):
                W = sum(self.W[s, k] for s in range(self.ns))
                if W:
                    m[j, k] = sum(
                        self.X[s, j, k] for s in range(self.ns)) / W
        return m

    def defined(self):
        """components with at least two populated subsamples, or none"""
        c = (self.W > 0).sum(0)
        return c != 1

    def jack(self):
        out = np.zeros((self.ns,) + self.shape)
        for s in range(self.ns):
            o = [t for t in range(self.ns) if t != s]
            for j in range(self.shape[0]):
                for k in range(self.shape[1]):
                    W = sum(self.W[t, k] for t in o)
                    if W:
                        out[s, j, k] = sum(self.X[t, j, k] for t in o) / W
        return out

    def cov(self, j):
        x = self.jack()[:, j]
        x = x - x.mean(0)
        return x.T @ x * (self.ns - 1) / self.ns

    def bias_mean(self):
        m = self.mean()
        return m - (self.ns - 1) * (self.jack().mean(0) - m)


class Q18(qmc.Check):
    pid = "Q18"
    bounds = {
        "quick": "every history of <=4 operations over {add 3 measurements "
                 "(some without weight), mean, variance, covariance, block "
                 "and partial covariance, bias-corrected ones, reset}, and "
                 "of <=5 (one shape: 6) over {2 adds, mean, variance, covariance, "
                 "reset}, "
                 "x 2-4 subsamples x start offsets x 1-2 quantities; 0-60 measurements of 12 components, weights in 3 units, x "
                 "2-20 subsamples x every block size and subset of 1-3 "
                 "quantities; sums "
                 "over 1-3 processes, every distribution of <=4 "
                 "measurements, every schedule of 2 processes",
        "thorough": "histories of <=5 and <=7"}
    assumptions = ["components populated in a single subsample have no "
                   "delete-one variance; only finiteness is required there"]

    def setup(self):
        global SubsampleCov
        from qsonic.mathtools import SubsampleCov

    CONF = [(1, 1, 2, 0), (1, 2, 3, 1), (2, 4, 2, 3), (2, 4, 4, 2),
            (2, 2, 3, 4)]

    def cases(self, tier):
        d1 = 4 if tier == "quick" else 5
        d2 = 6 if tier == "quick" else 7
        for c in range(len(self.CONF)):
            for o in OPS:
                yield dict(kind="hist", conf=c, first=o, depth=d1)
            for o in itertools.product(SMALL, repeat=2):
                yield dict(kind="small", conf=c, first=o, depth=d2 - (c != 1))
        for nset in (1, 2, 3):
            for ns in (2, 3, 7, 20) if tier == "quick" else range(2, 25):
                for n in (0, 1, 5, 21, 60):
                    yield dict(kind="big", nset=nset, ns=ns, n=n)
                for unit in (1e-9, 1e9):
                    yield dict(kind="big", nset=nset, ns=ns, n=21, unit=unit)
        for size in (1, 2, 3):
            for n in range(0, 5):
                yield dict(kind="mpi", size=size, n=n)

    def run(self, case, ctx):
        getattr(self, "run_" + case["kind"])(case, ctx)

    def make(self, conf):
        nset, nd, ns, istart = self.CONF[conf]
        arg = nd if nset == 1 else (nset, nd)
        return SubsampleCov(arg, ns, istart), Model(
            nset, nd, ns, istart % ns)

    def do(self, ctx, s, m, op):
        nset, nd = m.shape
        ctx.step()
        if op[0] == "a":
            x, w = MEAS[int(op[1])]
            x, w = x[:nset, :nd], w[:nd]
            keep = (x.copy(), w.copy())
            xw = x * w
            if nset == 1:
                xw = xw[0]
            if m.asked:
                ctx.raises(lambda: s.add_measurement(xw, w),
                           "adding after a result was requested")
                return
            s.add_measurement(xw, w)
            m.add(x, w)
            ctx.require(np.array_equal(keep[1], w), "weights changed")
            return
        if op == "reset":
            s.reset()
            m.reset()
            return
        dfn = m.defined()
        m.asked = True
        if op == "mean":
            ctx.same(s.get_mean(), m.mean(), "mean", rtol=1e-10, atol=1e-12)
            return
        if op in ("var", "bias"):
            if op == "bias":
                mean, var = s.get_mean_n_var(bias_correct=True)
            else:
                mean, var = s.get_mean_n_var()
            want = np.array([np.diag(m.cov(j)) for j in range(nset)])
            ctx.same(var[:, dfn], want[:, dfn], "jackknife variance",
                     rtol=1e-7, atol=1e-11)
            ctx.require(bool(np.all(np.isfinite(var))), "variance finite")
            ctx.require(bool(np.all(var >= 0)), "variance non-negative")
        else:
            kw = {}
            idx = list(range(nset))
            if op == "bcov":
                kw["blockdim"] = max(1, nd // 2)
            if op == "icov":
                kw["indices"] = idx = [nset - 1]
            if op == "biascov":
                kw["bias_correct"] = True
            mean, cov = s.get_mean_n_cov(**kw)
            for j in range(nset):
                if j not in idx:
                    continue
                c = m.cov(j)
                g = np.asarray(cov[j])
                ctx.require(bool(np.all(np.isfinite(g))),
                            "covariance finite")
                if op == "bcov":
                    b = kw["blockdim"]
                    ctx.require(g.shape == (nd // b, b, b), "blocks",
                                got=g.shape)
                    for q in range(nd // b):
                        d = dfn[q * b:(q + 1) * b]
                        ctx.same(
                            g[q][np.ix_(d, d)],
                            c[q * b:(q + 1) * b, q * b:(q + 1) * b][
                                np.ix_(d, d)], f"block {q}",
                            rtol=1e-7, atol=1e-11)
                else:
                    ctx.same(g[np.ix_(dfn, dfn)], c[np.ix_(dfn, dfn)],
                             "jackknife covariance", rtol=1e-7, atol=1e-11)
                    ctx.same(g, g.T, "covariance symmetric")
        # the mean returned along
        if op.startswith("bias"):
            if not m.biased:
                pass
            m.biased = True
            w1, w2 = m.bias_mean(), m.mean()
            for k in np.flatnonzero(dfn):
                ok = np.allclose(mean[:, k], w1[:, k], rtol=1e-7,
                                 atol=1e-10) or (
                    m_asked_jack(m) and np.allclose(
                        mean[:, k], w2[:, k], rtol=1e-7, atol=1e-10))
                ctx.require(ok, "bias-corrected mean", got=mean[:, k],
                            want=w1[:, k])
            m.jacked = True
        else:
            w2 = m.mean()
            if not m.biased:
                ctx.same(mean, w2, "mean along with the variance",
                         rtol=1e-10, atol=1e-12)
            m.jacked = True

    def walk(self, ctx, conf, ops):
        ctx.inner = ops
        s, m = self.make(conf)
        m.jacked = False
        for op in ops:
            self.do(ctx, s, m, op)
            if op == "reset":
                m.jacked = False
        # a final look: whatever happened, all three agree at the end
        for op in ("var", "mean", "cov"):
            self.do(ctx, s, m, op)
        ctx.trace()
        ctx.state(conf, m.X, m.W, m.asked, m.biased, m.jacked)

    def run_hist(self, case, ctx):
        for d in range(case["depth"]):
            for rest in itertools.product(OPS, repeat=d):
                self.walk(ctx, case["conf"], [case["first"]] + list(rest))

    def run_small(self, case, ctx):
        for rest in itertools.product(SMALL, repeat=case["depth"] - 2):
            self.walk(ctx, case["conf"], list(case["first"]) + list(rest))

    def run_big(self, case, ctx):
        """long data vectors, every block size, every subset of sets"""
        nset, ns, n, nd = case["nset"], case["ns"], case["n"], 12
        for istart in (0, 1, ns - 1):
            m = Model(nset, nd, ns, istart)
            j, k = np.arange(nset)[:, None], np.arange(nd)
            meas = []
            for q in range(n):
                x = np.sin(1. + 3. * j + 2.3 * q + 0.7 * k) + 0.2 * j
                w = 0.5 + ((5 * q + 3 * k) % 7)
                w[(k + q) % 5 == 0] = 0.
                w[k == nd - 1] = 0.
                w *= case.get("unit", 1.)
                meas.append((x, w))
                m.add(x, w)
            covs = [m.cov(i) for i in range(nset)]
            dfn = m.defined()
            dd = np.ix_(dfn, dfn)
            for b in (None, 1, 2, 3, 4, 6, 12):
                for r in range(0, nset + 1):
                    for idx in itertools.combinations(range(nset), r):
                        if idx == () and b is not None:
                            continue
                        s = SubsampleCov((nset, nd), ns, istart)
                        for x, w in meas:
                            s.add_measurement(x * w, w)
                        ctx.inner = (istart, b, idx)
                        ctx.step(n + 1)
                        mean, cov = s.get_mean_n_cov(
                            indices=list(idx) or None, blockdim=b)
                        ctx.same(mean, m.mean(), "mean", rtol=1e-9,
                                 atol=1e-12)
                        for i in idx or range(nset):
                            g = np.asarray(cov[i])
                            ctx.require(bool(np.all(np.isfinite(g))),
                                        "covariance finite")
                            if b is None:
                                ctx.same(g[dd], covs[i][dd], f"covariance {i}",
                                         rtol=1e-7, atol=1e-11)
                                continue
                            ctx.require(g.shape == (nd // b, b, b), "blocks")
                            for q in range(nd // b):
                                sl = slice(q * b, (q + 1) * b)
                                dq = np.ix_(dfn[sl], dfn[sl])
                                ctx.same(g[q][dq], covs[i][sl, sl][dq],
                                         f"block {q} of {i}", rtol=1e-7,
                                         atol=1e-11)
                        v = s.get_mean_n_var()[1]
                        for i in range(nset):
                            ctx.same(v[i][dfn], np.diag(covs[i])[dfn],
                                     "variance", rtol=1e-7, atol=1e-11)
                        ctx.trace()
            ctx.state("big", case, istart)

    def run_mpi(self, case, ctx):
        size, n = case["size"], case["n"]
        nset, nd, ns = 2, 4, 4
        for owner in itertools.product(range(size), repeat=n):
            # after a reset: none, or every distribution of a second round
            for again in [None] + (list(itertools.product(
                    range(size), repeat=n)) if n <= (
                        3 if size == 2 else 2) else []):

                def body_factory(owner=owner, again=again):
                    def body(comm):
                        # the start index wraps around
                        ist = comm.rank * ns // size + ns * (n % 2)
                        s = SubsampleCov((nset, nd), ns, ist)
                        out = []
                        for rep, who in enumerate((owner, again)):
                            if who is None:
                                break
                            for k, o in enumerate(who):
                                if o == comm.rank:
                                    x, w = MEAS[(k + rep) % 3]
                                    s.add_measurement(x * w, w)
                            s.allreduce(comm, simmpi.IN_PLACE)
                            mean, var = s.get_mean_n_var()
                            cov = s.get_mean_n_cov()[1]
                            out.append((mean.copy(), var.copy(),
                                        [c.copy() for c in cov]))
                            s.reset()
                        return out
                    return body

                def check(res, choices, world, owner=owner, again=again):
                    ctx.inner = (owner, again, choices)
                    ctx.require(not isinstance(res, BaseException),
                                f"protocol: {res}")
                    for rep, who in enumerate((owner, again)):
                        if who is None:
                            break
                        tot = Model(nset, nd, ns, 0)
                        for r in range(size):
                            mr = Model(nset, nd, ns, r * ns // size)
                            for k, o in enumerate(who):
                                if o == r:
                                    mr.add(*MEAS[(k + rep) % 3])
                            tot.X += mr.X
                            tot.W += mr.W
                        dfn = tot.defined()
                        for r, v in enumerate(res):
                            ctx.require(v.kind == "value",
                                        f"rank {r} failed: {v} {v.text}")
                            mean, var, cov = v.value[rep]
                            ctx.same(mean, tot.mean(),
                                     f"mean on rank {r}")
                            for j in range(nset):
                                c = tot.cov(j)
                                ctx.same(var[j][dfn], np.diag(c)[dfn],
                                         f"variance on rank {r}",
                                         rtol=1e-7, atol=1e-11)
                                ctx.same(cov[j][np.ix_(dfn, dfn)],
                                         c[np.ix_(dfn, dfn)],
                                         f"covariance on rank {r}",
                                         rtol=1e-7, atol=1e-11)
                    ctx.trace()
                    ctx.step(len(choices))

                if size <= 2:
                    simmpi.explore_schedules(size, body_factory, check)
                else:
                    for o in ([0, 1, 2], [2, 1, 0], [1, 2, 0]):
                        check(simmpi.run_one(size, body_factory(), o),
                              o, None)
                ctx.state("mpi", size, owner, again)


def m_asked_jack(m):
    """a jackknife result was already cached before this request"""
    return getattr(m, "jacked", False)


if __name__ == "__main__":
    qmc.main(Q18())
