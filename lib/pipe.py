"""Whole-program runs of qsonic-fit on small synthetic inputs."""
import os
import sys

import fitsio
import healpy
import numpy as np

import gen
import simmpi

DW = 8.
GRID = {'B': 3600. + DW * np.arange(60),         # to 4072
        'R': 4040. + DW * np.arange(150)}        # to 5232
W1, W2, FW1, FW2 = 3600., 4200., 1050., 1180.
LYA = 1215.67
PIXELS = [9, 700, 701, 1503, 40, 2222]
TILES = [80, 7, 80600]
NVAR, NSUB = 20, 256


def meanflux(w):
    return 0.85 - 1e-4 * (w - 3600.)


def quasars(n=30, npix=6, special=(), lastnight=None, surveys=('main',)):
    """special: dict index -> state, see ``flux``"""
    special = dict(special)
    out = []
    for k in range(n):
        # ids that do not follow any other order
        tid = (39627939372861215 if k % 3 == 0 else 1000) + (k * 7919) % 101
        out.append(dict(
            k=k, tid=tid, z=2.43 + 0.33 / n * ((k * 7) % n), pix=PIXELS[k % npix],
            survey=surveys[(k // 3) % len(surveys)],
            ra=10. + 3.1 * k, dec=-20. + 1.7 * k,
            tile=TILES[k % 3], petal=(k // 3) % 2,
            night=(lastnight or {}).get(k, 20200101),
            amp=1.5 + 0.5 * (k % 5), tilt=0.2 * ((k % 3) - 1),
            noise=0.002 * 2.2**((k * 3) % 8),
            state=special.get(k, 'good')))
        if out[-1]["state"] in ('neg', 'noB'):
            out[-1]["noise"] = 0.01          # safely above the cuts
    return out


def qcont(q, w):
    s = (w / (1 + q["z"]) - 1115.) / 65.
    return q["amp"] * (1. + q["tilt"] * s) * (1 + 0.05 * np.cos(4 * s))


def data(q, arm, expo=None):
    """flux, ivar, mask of one arm"""
    w = GRID[arm]
    rs = np.random.RandomState(1000 * q["k"] + ord(arm))
    lss = np.random.RandomState(77 * q["k"] + 5).normal(size=400)
    idx = np.round((w - 3600.) / DW).astype(int)
    c = qcont(q, w)
    forest = (w < (1 + q["z"]) * 1200.)
    f = c * np.where(forest, meanflux(w) * (1 + 0.25 * lss[idx]), 1.)
    var = q["noise"] * c**2 * (1 + 0.3 * np.sin(idx + q["k"]))
    if expo is not None:
        rs = np.random.RandomState(5000 + 1000 * q["k"] + ord(arm) + expo)
        var = 2.5 * var
    f = f + np.sqrt(var) * rs.normal(size=w.size)
    mask = np.zeros(w.size, 'i4')
    mask[(3 * q["k"] + 1) % 20::20] = 2
    st = q["state"]
    if st == 'neg':                  # best fit is negative at the red end
        rf = w / (1 + q["z"])
        b = max(FW1, W1 / (1 + q["z"]))
        e = min(FW2, W2 / (1 + q["z"]))
        f = np.where(forest, f * (1.4 - 1.7 * (rf - b) / (e - b)), f)
    elif st == 'lowr':               # nothing redwards of Lya
        f = np.where(forest, f, 0.)
    elif st == 'faint':              # no signal in the forest
        f = np.where(forest, 1e-4 * np.abs(f), f)
    elif st == 'short':
        mask[30:] |= np.where(forest[30:], 1, 0)
        mask[:25] |= 1
    elif st == 'dead':
        mask |= np.where(forest, 1, 0).astype('i4')
    elif st == 'noB' and arm == 'B':
        mask[:] = 1
    f = np.where(mask > 0, -99., f)
    return f, 1 / var, mask


def _table(rows):
    arms = {}
    for a, w in GRID.items():
        d = [data(q, a, e) for q, e in rows]
        arms[a] = dict(wave=w, flux=np.array([x[0] for x in d]),
                       ivar=np.array([x[1] for x in d]),
                       mask=np.array([x[2] for x in d]))
    return arms


def _reso(n):
    return {a: np.ones((n, 5, w.size)) * np.array(
        [.1, .5, 1., .5, .1])[None, :, None] for a, w in GRID.items()}


def write(root, qs, kind='data', exposures=False, reso=False, bal=False,
          hpxcol=True):
    """kind: data, tile, mock. Returns the name of the catalog."""
    os.makedirs(root, exist_ok=True)
    n = len(qs)
    cols = dict(
        TARGETID=np.array([q["tid"] for q in qs], 'i8'),
        Z=np.array([q["z"] for q in qs]), RA=np.array([q["ra"] for q in qs]),
        DEC=np.array([q["dec"] for q in qs]))
    if hpxcol:
        cols['HPXPIXEL'] = np.array([q["pix"] for q in qs], 'i8')
    if kind != 'mock':
        cols['SURVEY'] = np.array([q["survey"] for q in qs])
        cols['LASTNIGHT'] = np.array([q["night"] for q in qs], 'i4')
    if kind == 'tile':
        cols['TILEID'] = np.array([q["tile"] for q in qs], 'i8')
        cols['PETAL_LOC'] = np.array([q["petal"] for q in qs], 'i4')
        cols['LASTNIGHT'][:] = 20200505
    if bal:
        for t, m in (('450', 3), ('2000', 2)):
            vmin = np.full((n, m), -1.)
            vmax = np.full((n, m), -1.)
            if t == '450':
                for i, q in enumerate(qs):
                    if q["k"] % 4 == 1:
                        vmin[i, 0], vmax[i, 0] = 3000., 6000.
            cols[f'VMIN_CIV_{t}'], cols[f'VMAX_CIV_{t}'] = vmin, vmax
    cat = os.path.join(root, "cat.fits")
    rows = np.random.RandomState(3).permutation(n)
    gen.write_table(cat, gen.rec(cols)[rows], 'QSO_CAT')

    groups = {}
    for q in qs:
        key = {'data': (q["survey"], q["pix"]), 'mock': q["pix"],
               'tile': (q["tile"], q["petal"])}[kind]
        groups.setdefault(key, []).append(q)
    for key, lst in groups.items():
        lst = lst[::-1]
        rs = _reso(len(lst)) if reso else None
        tids = [q["tid"] for q in lst]
        arms = _table([(q, None) for q in lst])
        if kind == 'data':
            s, p = key
            d = f"{root}/{s}/dark/{p // 100}/{p}"
            gen.write_spectra_file(
                f"{d}/coadd-{s}-dark-{p}.fits", tids, arms, reso=rs)
            if exposures:
                rw = [(q, e) for e in (0, 1) for q in lst
                      if not (e == 1 and q["k"] % 3 == 2)]
                m = len(rw)
                gen.write_spectra_file(
                    f"{d}/spectra-{s}-dark-{p}.fits",
                    [q["tid"] for q, e in rw], _table(rw), dict(
                        EXPID=np.array([100 * q["k"] + e for q, e in rw]),
                        NIGHT=np.full(m, 20210101), TILEID=np.full(m, 80),
                        FIBER=np.arange(m), PETAL_LOC=np.zeros(m, int)),
                    reso=_reso(m) if reso else None)
        elif kind == 'tile':
            t, p = key
            gen.write_spectra_file(
                f"{root}/{t}/20200505/coadd-{p}-{t}-thru20200505.fits",
                tids, arms, reso=rs)
        else:
            d = f"{root}/{key // 100}/{key}"
            gen.write_spectra_file(f"{d}/spectra-16-{key}.fits", tids, arms)
            tw = 3500. + 10. * np.arange(200)
            with fitsio.FITS(f"{d}/truth-16-{key}.fits", 'rw',
                             clobber=True) as f:
                f.write(gen.rec(dict(
                    TARGETID=np.array(tids, 'i8'), TRUE_CONT=np.array(
                        [qcont(q, tw) for q in lst]))),
                    extname='TRUE_CONT', header=dict(
                        WMIN=tw[0], WMAX=tw[-1], DWAVE=10.))
                for a, r in _reso(1).items():
                    f.write(r[0], extname=f'{a}_RESOLUTION')
    return cat


def write_stats(fname, var=0.05):
    w = 3590. + 10. * np.arange(70)
    gen.write_table(fname, gen.rec(dict(
        LAMBDA=w, MEANFLUX=meanflux(w),
        VAR_LSS=var * (1 + 2e-4 * (w - 3600.)))), 'STATS')


def write_input_continua(d, qs, skip=()):
    os.makedirs(d, exist_ok=True)
    groups = {}
    for q in qs:
        if q["k"] in skip:
            continue
        p = int(healpy.ang2pix(8, q["ra"], q["dec"], lonlat=True, nest=True))
        groups.setdefault(p, []).append(q)
    w = 1020. + 5. * np.arange(40)
    for p, lst in groups.items():
        with fitsio.FITS(f"{d}/input-continuum-8-{p}.fits", 'rw',
                         clobber=True) as f:
            f.write(gen.rec(dict(TARGETID=np.array(
                [q["tid"] for q in lst], 'i8'))), extname='FIBERMAP')
            f.write(np.array([qcont(q, w * (1 + q["z"])) for q in lst]),
                    extname='CONTINUA', header=dict(WAVE1=w[0], DWAVE=5.))


def small_statistics(picca):
    """Fewer variance bins and subsamples, no minimum number of quasars."""
    cls = picca.VarLSSFitter
    cls.min_num_pix = 2
    cls.min_num_qso = 1
    init = cls.__init__

    def __init__(self, w1, w2, *a, **k):
        if len(a) < 4:
            k.setdefault('nvarbins', NVAR)
        if len(a) < 5:
            k.setdefault('nsubsamples', NSUB)
        init(self, w1, w2, *a, **k)
    cls.__init__ = __init__
    return cls


def argv(root, cat, out, *more):
    return ["qsonic-fit", "-i", root, "--catalog", cat, "-o", out,
            "--wave1", str(W1), "--wave2", str(W2), "--forest-w1", str(FW1),
            "--forest-w2", str(FW2), "--rfdwave", "13"] + [
                str(m) for m in more]


def run(main, av, size=1, order=None, sync=False, timeout=300):
    """Runs the program; returns the list of results of the ranks."""
    def body(comm):
        sys.argv = list(av)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
        main()
        return "ok"
    return simmpi.ForkWorld(size, order, sync, timeout).run(body)


def products(out):
    """Everything the program saved."""
    deltas, where = {}, {}
    chi2 = attrs = None
    dup = []
    if not os.path.isdir(out):
        return dict(deltas={}, where={}, chi2=None, attrs=None, dup=[])
    for fn in sorted(os.listdir(out)):
        path = os.path.join(out, fn)
        with fitsio.FITS(path) as f:
            if fn == "attributes.fits":
                attrs = {}
                for h in f[1:] if len(f) > 1 else []:
                    n = h.get_extname()
                    if n in attrs:
                        dup.append(n)
                    attrs[n] = h.read()
            elif fn == "continuum_chi2_catalog.fits":
                chi2 = f['CHI2_CAT'].read()
            else:
                for h in f[1:] if len(f) > 1 else []:
                    n = h.get_extname()
                    if n in deltas:
                        dup.append(n)
                    deltas[n] = (h.read(), h.read_header())
                    where[n] = fn
    return dict(deltas=deltas, where=where, chi2=chi2, attrs=attrs, dup=dup)
