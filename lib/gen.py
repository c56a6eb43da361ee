"""Small inputs for the code under test (FITS catalogs, spectra files)."""
import os

import fitsio
import numpy as np


def rec(cols):
    """dict name -> array to structured array (column order kept)."""
    arrs = {k: np.asarray(v) for k, v in cols.items()}
    dt = [(k, a.dtype.str if a.dtype.kind != 'U' else a.dtype,
           a.shape[1:]) if a.ndim > 1 else (k, a.dtype)
          for k, a in arrs.items()]
    out = np.zeros(len(next(iter(arrs.values()))), dtype=dt)
    for k, a in arrs.items():
        out[k] = a
    return out


def write_table(fname, data, extname=None, pre=(), clobber=True):
    """pre: list of (data, extname) HDUs written before."""
    with fitsio.FITS(fname, 'rw', clobber=clobber) as f:
        for d, e in pre:
            f.write(d, extname=e)
        f.write(data, extname=extname)


def write_spectra_file(fname, targetids, arms, fbr_extra=None, reso=None,
                       cont=None):
    """arms: dict arm -> dict(wave, flux[n,m], ivar, mask); reso: arm->3D."""
    os.makedirs(os.path.dirname(fname), exist_ok=True)
    cols = {'TARGETID': np.asarray(targetids, dtype='i8')}
    if fbr_extra:
        cols.update(fbr_extra)
    with fitsio.FITS(fname, 'rw', clobber=True) as f:
        f.write(rec(cols), extname='FIBERMAP')
        for arm, d in arms.items():
            f.write(np.asarray(d['wave'], dtype='f8'),
                    extname=f'{arm}_WAVELENGTH')
            f.write(np.asarray(d['flux'], dtype='f4'), extname=f'{arm}_FLUX')
            f.write(np.asarray(d['ivar'], dtype='f4'), extname=f'{arm}_IVAR')
            f.write(np.asarray(d['mask'], dtype='i4'), extname=f'{arm}_MASK')
            if reso is not None and arm in reso:
                f.write(np.asarray(reso[arm], dtype='f4'),
                        extname=f'{arm}_RESOLUTION')


CAT_DTYPE = [('TARGETID', 'i8'), ('Z', 'f8'), ('RA', 'f8'), ('DEC', 'f8'),
             ('HPXPIXEL', 'i8'), ('SURVEY', 'U4'), ('LASTNIGHT', 'i4'),
             ('VMIN_CIV_450', 'f8', 3), ('VMAX_CIV_450', 'f8', 3),
             ('VMIN_CIV_2000', 'f8', 2), ('VMAX_CIV_2000', 'f8', 2)]


def catrow(targetid=39627939372861215, z=2.5, ra=10.0, dec=5.0, hpx=7,
           survey='main', lastnight=20200101, extra=(), **kw):
    """One catalog row; extra = [(name, dtype, value), ...]."""
    new = [n for n, _, _ in extra]
    dt = [d for d in CAT_DTYPE if d[0] not in new] \
        + [(n, t) if not isinstance(t, tuple) else (n,) + t
           for n, t, _ in extra]
    r = np.zeros(1, dtype=dt)
    r['TARGETID'], r['Z'], r['RA'], r['DEC'] = targetid, z, ra, dec
    r['HPXPIXEL'], r['SURVEY'], r['LASTNIGHT'] = hpx, survey, lastnight
    for k, v in kw.items():
        r[k] = v
    for n, _, v in extra:
        r[n] = v
    return r[0]


def make_spectrum(cls, row, arms, idx=0, reso=None):
    """arms: dict arm->(wave, flux, ivar, mask) 1D arrays."""
    wave = {a: np.array(v[0], dtype='f8') for a, v in arms.items()}
    flux = {a: np.array([v[1]], dtype='f8') for a, v in arms.items()}
    ivar = {a: np.array([v[2]], dtype='f8') for a, v in arms.items()}
    mask = {a: np.array([v[3]], dtype='i4') for a, v in arms.items()}
    rs = {a: np.array([r], dtype='f8') for a, r in reso.items()} \
        if reso else {}
    return cls(row, wave, flux, ivar, mask, rs, idx)
