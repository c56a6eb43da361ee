From 90743534b293f970c404dca3fcf1e52d4573a75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:44 +0000
Subject: [PATCH 01/41] fix: order catalogs by survey whenever they have one

---
 py/qsonic/catalog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/catalog.py b/py/qsonic/catalog.py
index cec749a..f6945be 100644
--- a/py/qsonic/catalog.py
+++ b/py/qsonic/catalog.py
@@ -373,14 +373,14 @@ def _prime_catalog(
         sort_order = ['TILEID', 'PETAL_LOC', 'TARGETID']
     else:
         sort_order = ["HPXPIXEL", 'TARGETID']
+        if 'SURVEY' in colnames:
+            sort_order.insert(1, 'SURVEY')
 
     # Filter all the objects in the catalogue not belonging to the specified
     # surveys.
     if 'SURVEY' in colnames and keep_surveys is not None:
         w = np.isin(catalog["SURVEY"], keep_surveys)
         catalog = catalog[w]
-        if len(keep_surveys) > 1 and not is_tile:
-            sort_order.insert(1, 'SURVEY')
         logging.info(
             f"There are {w.sum()} quasars in given surveys {keep_surveys}.")
 
-- 
2.43.0


From 494d72388e0daf2b1825ccf5d08951f4e34e1df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:36 +0000
Subject: [PATCH 02/41] fix: choose the catalog extension by preference, not by
 set order

---
 py/qsonic/catalog.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/py/qsonic/catalog.py b/py/qsonic/catalog.py
index f6945be..d540d4a 100644
--- a/py/qsonic/catalog.py
+++ b/py/qsonic/catalog.py
@@ -12,8 +12,9 @@ from numpy.lib.recfunctions import rename_fields, append_fields
 from qsonic import QsonicException
 from qsonic.mpi_utils import balance_load, mpi_fnc_bcast
 
-_accepted_extnames = set(['QSO_CAT', 'ZCATALOG', 'METADATA'])
-"""set: Accepted extensions for quasar catalog."""
+_accepted_extnames = ['QSO_CAT', 'ZCATALOG', 'METADATA']
+"""list(str): Accepted extensions for quasar catalog in order of preference.
+"""
 _required_columns = [
     set(['TARGETID']), set(['Z']), set(['TARGET_RA', 'RA']),
     set(['TARGET_DEC', 'DEC'])
@@ -293,14 +294,14 @@ def _read(filename):
     logging.info(f'Reading catalogue from {filename}')
     fitsfile = fitsio.FITS(filename)
     extnames = [hdu.get_extname() for hdu in fitsfile]
-    cat_hdu = _accepted_extnames.intersection(extnames)
+    cat_hdu = [ext for ext in _accepted_extnames if ext in extnames]
     if not cat_hdu:
         cat_hdu = 1
         warnings.warn(
             "Catalog HDU not found by hduname. Using extension 1.",
             RuntimeWarning)
     else:
-        cat_hdu = cat_hdu.pop()
+        cat_hdu = cat_hdu[0]
 
     colnames = fitsfile[cat_hdu].get_colnames()
     keep_columns = [col for col in colnames if col in _all_columns]
-- 
2.43.0


From b971c2070b40f342404d0be4ea8748cb085b40e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:36 +0000
Subject: [PATCH 03/41] fix: let mpi_get_local_queue work without MPI as
 documented

---
 py/qsonic/catalog.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/catalog.py b/py/qsonic/catalog.py
index d540d4a..c29b4c9 100644
--- a/py/qsonic/catalog.py
+++ b/py/qsonic/catalog.py
@@ -179,7 +179,8 @@ def mpi_get_local_queue(
     else:
         status = False
 
-    status = comm.bcast(status)
+    if comm is not None:
+        status = comm.bcast(status)
     if not status:
         raise QsonicException("Error while reading catalog.")
 
@@ -198,6 +199,9 @@ def mpi_get_local_queue(
     else:
         local_queue = None
 
+    if comm is None:
+        return local_queue[0]
+
     return comm.scatter(local_queue)
 
 
-- 
2.43.0


From 82cfb0a6ef7b5c63cb1d971222f1903fde29b0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:28 +0000
Subject: [PATCH 04/41] fix: do not hang other processes when a callable
 without __name__ fails

---
 py/qsonic/mpi_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/mpi_utils.py b/py/qsonic/mpi_utils.py
index eb0a3c9..ab859c5 100644
--- a/py/qsonic/mpi_utils.py
+++ b/py/qsonic/mpi_utils.py
@@ -95,7 +95,7 @@ def mpi_fnc_bcast(fnc, comm=None, mpi_rank=0, err_msg="", *args, **kwargs):
             result = fnc(*args, **kwargs)
         except Exception as e:
             logging.exception(e)
-            logging.error(f"Error in {fnc.__module__}.{fnc.__name__}.")
+            logging.error(f"Error in {fnc!r}.")
             result = _INVALID_VALUE
 
     if comm is not None:
-- 
2.43.0


From 0f483ba892f9f41fc6a55b111f1987ab0a3ec1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:28 +0000
Subject: [PATCH 05/41] fix: read the sky mask on the master process only

---
 py/qsonic/scripts/qsonic_fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 4d7ed37..f718780 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -193,7 +193,8 @@ def mpi_read_masks(local_queue, args, comm, mpi_rank):
 
     if args.sky_mask:
         logging.info("Reading sky mask.")
-        skymasker = qsonic.masks.SkyMask(args.sky_mask)
+        skymasker = qsonic.masks.SkyMask(
+            args.sky_mask, comm, mpi_rank)
 
         maskers.append(skymasker)
 
-- 
2.43.0


From c1a8ddc3a83575f3e225d024d1e7078efd30198d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:28 +0000
Subject: [PATCH 06/41] fix: accept an exclusion list with a single TARGETID

---
 py/qsonic/scripts/qsonic_calib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index 1cf9374..333dbc8 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -116,7 +116,7 @@ def mpi_set_targetid_list_to_remove(args, comm=None, mpi_rank=0):
         ids_to_remove = mpi_fnc_bcast(
             np.loadtxt, comm, mpi_rank,
             "Error while reading remove_targetid_list.",
-            args.remove_targetid_list, dtype=int)
+            args.remove_targetid_list, dtype=int, ndmin=1)
 
     if args.catalog:
         catalog = qsonic.catalog.mpi_read_quasar_catalog(
-- 
2.43.0


From ca1491b7559975b7a2c802f4d9b200066db8191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:21 +0000
Subject: [PATCH 07/41] fix: match mock spectra to a catalog ordered by survey

---
 py/qsonic/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/io.py b/py/qsonic/io.py
index 46e5a6f..0c9ed8a 100644
--- a/py/qsonic/io.py
+++ b/py/qsonic/io.py
@@ -693,8 +693,8 @@ def read_onehealpix_file_mock(
     data, idx_cat, _ = _read_onehealpix_file(
         catalog_hpx['TARGETID'], fspec, arms_to_keep, skip_resomat)
 
-    if idx_cat.size != catalog_hpx.size:
-        catalog_hpx = catalog_hpx[idx_cat]
+    # Spectra are in TARGETID order. Catalog is not if it has surveys.
+    catalog_hpx = catalog_hpx[idx_cat]
 
     fspec = f"{input_dir}/{pixnum//100}/{pixnum}/truth-{nside}-{pixnum}.fits"
     if read_true_continuum:
-- 
2.43.0


From a26c1846ff84fac596797d5c9310ab3ab0c7c7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:17 +0000
Subject: [PATCH 08/41] fix: read exposures of a catalog that has tile columns

---
 py/qsonic/io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/py/qsonic/io.py b/py/qsonic/io.py
index 0c9ed8a..033c1d6 100644
--- a/py/qsonic/io.py
+++ b/py/qsonic/io.py
@@ -593,10 +593,11 @@ def read_onehealpix_file_data_uncoadd(
 
         new_cat = cat_by_survey[
             np.searchsorted(cat_by_survey['TARGETID'], fbrmap['TARGETID'])]
+        # Exposure properties of the catalog (if any) are superseded
+        fbrmap = drop_fields(fbrmap, 'TARGETID', usemask=False)
+        new_cat = drop_fields(new_cat, fbrmap.dtype.names, usemask=False)
         new_cat = merge_arrays(
-            (new_cat, drop_fields(fbrmap, 'TARGETID', usemask=False)),
-            flatten=True, usemask=False
-        )
+            (new_cat, fbrmap), flatten=True, usemask=False)
 
         spectra_list.extend(
             qsonic.spectrum.generate_spectra_list_from_data(new_cat, data)
-- 
2.43.0


From 4b82a4020f79c18a4b4daef09c3651286b737b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:18 +0000
Subject: [PATCH 09/41] fix: no uninitialised continuum between coadded arms

---
 py/qsonic/spectrum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index c2d65ba..01c174b 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -638,7 +638,8 @@ class Spectrum():
         self._forestivar = {'brz': coadd_ivar}
 
         if self.cont_params['cont']:
-            coadd_cont = np.empty(nwaves)
+            # Pixels that are not covered by any arm have no continuum
+            coadd_cont = np.zeros(nwaves)
 
             for arm, idx in idxes.items():
                 # continuum needs not weighting
-- 
2.43.0


From 2616c70a1344a10e8c98ab8332cf105cd869acfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:19 +0000
Subject: [PATCH 10/41] fix: no undefined resolution between coadded arms

---
 py/qsonic/spectrum.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 01c174b..e7884fe 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -579,7 +579,8 @@ class Spectrum():
                 coadd_reso[:, idxes[arm]] += weight * reso_arm
                 coadd_norm[idxes[arm]] += weight
 
-            coadd_reso /= coadd_norm
+            w = coadd_norm > 0
+            coadd_reso[:, w] /= coadd_norm[w]
             self.reso = {'brz': coadd_reso}
 
         self._current_wave = Spectrum._coadd_wave
@@ -666,7 +667,8 @@ class Spectrum():
                 coadd_reso[:, idxes[arm]] += weight * reso_arm
                 coadd_norm[idxes[arm]] += weight
 
-            coadd_reso /= coadd_norm
+            w = coadd_norm > 0
+            coadd_reso[:, w] /= coadd_norm[w]
             self._forestreso = {'brz': coadd_reso}
 
         self.set_smooth_forestivar(self._smoothing_scale)
-- 
2.43.0


From 464da4d01d805899cfee101dd613568af0b0f02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:55 +0000
Subject: [PATCH 11/41] fix: prefer Z_DLA when a DLA catalog also has Z

---
 py/qsonic/masks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/py/qsonic/masks.py b/py/qsonic/masks.py
index f6faa2c..f650877 100644
--- a/py/qsonic/masks.py
+++ b/py/qsonic/masks.py
@@ -388,11 +388,11 @@ class DLAMask():
         catalog: :external+numpy:py:class:`ndarray <numpy.ndarray>`
             DLA catalog.
         """
-        z_colname = DLAMask.accepted_zcolnames[0]
         fts = fitsio.FITS(fname)
 
-        fts_colnames = set(fts["DLACAT"].get_colnames())
-        z_colname = fts_colnames.intersection(DLAMask.accepted_zcolnames)
+        fts_colnames = fts["DLACAT"].get_colnames()
+        z_colname = [
+            c for c in DLAMask.accepted_zcolnames if c in fts_colnames]
 
         if not z_colname:
             fts.close()
@@ -400,7 +400,7 @@ class DLAMask():
                 "DLA mask error::Z colname has to be one of "
                 f"{', '.join(DLAMask.accepted_zcolnames)}")
 
-        z_colname = z_colname.pop()
+        z_colname = z_colname[0]
         columns_list = ["TARGETID", z_colname, "NHI"]
         catalog = fts['DLACAT'].read(columns=columns_list)
 
-- 
2.43.0


From 375a201417102c6ffb065295b2de488b042331ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:49 +0000
Subject: [PATCH 12/41] fix: no cancellation at the center of a DLA line

---
 py/qsonic/masks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/masks.py b/py/qsonic/masks.py
index f650877..5bc8d55 100644
--- a/py/qsonic/masks.py
+++ b/py/qsonic/masks.py
@@ -258,7 +258,8 @@ class DLAMask():
         -------
         :external+numpy:py:class:`ndarray <numpy.ndarray>`
         """
-        P = u**2 + 1e-12
+        # Smaller values cancel catastrophically at the line center
+        P = u**2 + 1e-8
         Q = 1.5 / P
         R = np.exp(-P)
         corr = (R**2 * (4 * P**2 + 7 * P + 4 + Q) - Q - 1)
-- 
2.43.0


From 8cbcc06601b34c3653106a105fb62a956a23e781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:29 +0000
Subject: [PATCH 13/41] fix: not-a-knot spline through two or three points

---
 py/qsonic/mathtools.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/py/qsonic/mathtools.py b/py/qsonic/mathtools.py
index 53b7ec3..b51b82d 100644
--- a/py/qsonic/mathtools.py
+++ b/py/qsonic/mathtools.py
@@ -91,6 +91,8 @@ def _spline_cubic_notaknot(fp, dxp):
 
         y''_0 - 2 y''_1 + y''_2 = 0
 
+    This is the parabola for three points, and the line for two points.
+
     Arguments
     ---------
     fp: ndarray
@@ -104,6 +106,12 @@ def _spline_cubic_notaknot(fp, dxp):
         Second derivative array. Same size as ``fp``.
     """
     N = fp.size
+    if N < 4:
+        y2p = np.zeros(N)
+        if N == 3:
+            y2p += (fp[0] - 2 * fp[1] + fp[2]) / dxp**2
+        return y2p
+
     y2p = np.empty(N)
     # Solve the submatrix 1:-1 using precalculated u and p values
     u = np.array([
-- 
2.43.0


From 630fc1ecc42fdc915059c9b2aa5b142377fb4157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:38 +0000
Subject: [PATCH 14/41] fix: no negative inverse variance from noise
 calibration

---
 py/qsonic/calibration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/qsonic/calibration.py b/py/qsonic/calibration.py
index 7a33d0a..fbeab2f 100644
--- a/py/qsonic/calibration.py
+++ b/py/qsonic/calibration.py
@@ -132,6 +132,7 @@ class NoiseCalibrator():
                 for arm, wave_arm in spec.forestwave.items():
                     eta = self.eta_interp(wave_arm)
                     spec.forestivar[arm] /= eta
+                    spec.forestivar[arm][spec.forestivar[arm] < 0] = 0
 
 
 class FluxCalibrator():
-- 
2.43.0


From 93bfcf9ea457f382ed33bdfc7ccd7a651475f7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:08 +0000
Subject: [PATCH 15/41] fix: slice a spectrum whose noise is not smoothed

---
 py/qsonic/spectrum.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index e7884fe..62cc011 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -290,9 +290,10 @@ class Spectrum():
 
         self._forestwave[arm] = self._forestwave[arm][i1:i2]
         self._forestflux[arm] = self._forestflux[arm][i1:i2]
-        self._forestivar[arm] = self._forestivar[arm][i1:i2]
-        self._forestivar_sm[arm] = self._forestivar_sm[arm][i1:i2]
-        self._forestweight[arm] = self._forestweight[arm][i1:i2]
+        # These can point to the same dictionary
+        ivars = (self._forestivar, self._forestivar_sm, self._forestweight)
+        for ivar in {id(x): x for x in ivars}.values():
+            ivar[arm] = ivar[arm][i1:i2]
 
         if arm in self._forestreso:
             self._forestreso[arm] = self._forestreso[arm][:, i1:i2]
-- 
2.43.0


From 4e41009ae75b8f7d5a79a8b4d709351c3098545a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:07 +0000
Subject: [PATCH 16/41] fix: choose delta columns and id key by preference, not
 by set order

---
 py/qsonic/spectrum.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 62cc011..0ccc646 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -890,12 +890,12 @@ class Delta():
     mean_snr: float
         MEANSNR from header.
     """
-    _accepted_wave_columns = set(["LAMBDA", "LOGLAM"])
-    """set: Supported column names for wavelength."""
-    _accepted_delta_columns = set(['DELTA', 'DELTA_BLIND'])
-    """set: Supported column names for delta."""
-    _accepted_targetid_keys = set(['MOCKID', 'TARGETID', 'THING_ID'])
-    """set: Supported header keys for unique ID."""
+    _accepted_wave_columns = ["LAMBDA", "LOGLAM"]
+    """list: Supported column names for wavelength in order of preference."""
+    _accepted_delta_columns = ['DELTA', 'DELTA_BLIND']
+    """list: Supported column names for delta in order of preference."""
+    _accepted_targetid_keys = ['TARGETID', 'MOCKID', 'THING_ID']
+    """list: Supported header keys for unique ID in order of preference."""
     _accepted_colums_map = {
         "wave": _accepted_wave_columns,
         "delta": _accepted_delta_columns
@@ -904,24 +904,24 @@ class Delta():
     @staticmethod
     def _check_hdu(colnames, attr):
         req_map = Delta._accepted_colums_map[attr]
-        key = req_map.intersection(colnames)
+        key = [name for name in req_map if name in colnames]
         if not key:
             raise RuntimeError(
                 "One of these must be present in delta files: "
                 f"{', '.join(req_map)} for {attr}!")
 
-        return key.pop()
+        return key[0]
 
     def __init__(self, hdu):
         self.header = hdu.read_header()
-        key = Delta._accepted_targetid_keys.intersection(self.header.keys())
+        header_keys = self.header.keys()
+        key = [k for k in Delta._accepted_targetid_keys if k in header_keys]
         if not key:
             raise RuntimeError(
                 "One of these must be present in delta file header: "
                 f"{', '.join(Delta._accepted_targetid_keys)} for TARGETID!")
 
-        key = key.pop()
-        self.targetid = self.header[key]
+        self.targetid = self.header[key[0]]
         self.mean_snr = self.header['MEANSNR']
 
         colnames = hdu.get_colnames()
-- 
2.43.0


From 1d43143d2302b08ec43cd3594fe75e2c5a70500e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:02 +0000
Subject: [PATCH 17/41] fix: save a readable delta file when no spectrum is
 valid

---
 py/qsonic/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/qsonic/io.py b/py/qsonic/io.py
index 033c1d6..71418d6 100644
--- a/py/qsonic/io.py
+++ b/py/qsonic/io.py
@@ -268,6 +268,8 @@ def save_deltas(
     for healpix, hp_specs in zip(unique_pix, split_spectra):
         results = fitsio.FITS(
             f"{outdir}/delta-{healpix}.fits", 'rw', clobber=True)
+        # Primary HDU. Otherwise the file is not FITS without valid spectra
+        results.write(None)
 
         for spec in qsonic.spectrum.valid_spectra(hp_specs):
             spec.write(results)
-- 
2.43.0


From ca367a9b18d34237035932ec756cc4c816dadc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:02 +0000
Subject: [PATCH 18/41] fix: name delta columns by the current blinding and the
 saved content

---
 py/qsonic/spectrum.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 0ccc646..96a63e6 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -162,9 +162,8 @@ class Spectrum():
 
         if Spectrum._blinding != "none":
             Spectrum._fits_colnames[1] = 'DELTA_BLIND'
-
-        if not args.skip_resomat:
-            Spectrum._fits_colnames.append('RESOMAT')
+        else:
+            Spectrum._fits_colnames[1] = 'DELTA'
 
     @staticmethod
     def blinding_not_set():
@@ -767,12 +766,14 @@ class Spectrum():
             delta[ivar == 0] = 0
 
             cols = [wave_arm, delta, ivar, weight, cont_est]
+            names = Spectrum._fits_colnames.copy()
             if self.forestreso:
                 hdr_dict['MEANRESO'] = self.mean_resolution(arm)
                 cols.append(self.forestreso[arm].T.astype('f8'))
+                names.append('RESOMAT')
 
             fts_file.write(
-                cols, names=Spectrum._fits_colnames, header=hdr_dict,
+                cols, names=names, header=hdr_dict,
                 extname=f"{self.targetid}-{arm}{expid}")
 
     @property
-- 
2.43.0


From 721f4c863a020b8b5d53e93c62665c2ff78071d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:04 +0000
Subject: [PATCH 19/41] fix: no undefined resolution between coadded deltas

---
 py/qsonic/spectrum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 96a63e6..aeb3fb5 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -996,7 +996,8 @@ class Delta():
             coadd_reso[:, idxes[j]] += weight * obj.reso
             coadd_norm[idxes[j]] += weight
 
-        coadd_reso /= coadd_norm
+        w = coadd_norm > 0
+        coadd_reso[:, w] /= coadd_norm[w]
         self.reso = coadd_reso
 
     def coadd(self, other, dwave=0.8):
-- 
2.43.0


From 2f9e1ea4a317dff22240753ca9a282a0dee7b9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:04 +0000
Subject: [PATCH 20/41] fix: masked pixels do not add large-scale variance to
 coadded deltas

---
 py/qsonic/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index aeb3fb5..c398cfc 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -1025,7 +1025,7 @@ class Delta():
             coadd_delta[idx] += obj.weight * obj.delta
             coadd_cont[idx] += obj.weight * obj.cont
             coadd_ivar[idx] += obj.weight**2 * var
-            coadd_lss[idx] += 1 - obj.weight * var
+            coadd_lss[idx] += np.where(w, 1 - obj.weight * var, 0)
             coadd_norm[idx] += obj.weight
 
         w = coadd_norm > 0
-- 
2.43.0


From 189ce85cb58df72230e25ef7f5e47777a6a385cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:04 +0000
Subject: [PATCH 21/41] fix: coadd a delta with one that has no resolution
 matrix

---
 py/qsonic/spectrum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index c398cfc..86d02bd 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -1034,8 +1034,10 @@ class Delta():
         coadd_lss[w] /= coadd_norm[w]
         coadd_ivar[w] = coadd_norm[w]**2 / coadd_ivar[w]
 
-        if self.reso is not None:
+        if self.reso is not None and other.reso is not None:
             self._coadd_reso(other, nwaves, idxes)
+        else:
+            self.reso = None
 
         self.wave = coadd_wave
         self.delta = coadd_delta
-- 
2.43.0


From 8704e0da98b3d39422abc862cf5eb9f280cb07f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:04 +0000
Subject: [PATCH 22/41] fix: finite MEANSNR of a fully masked coadded delta

---
 py/qsonic/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 86d02bd..797dc4c 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -1046,7 +1046,7 @@ class Delta():
         self.cont = coadd_cont
 
         self.mean_snr = np.dot(
-            np.sqrt(coadd_ivar), coadd_delta + 1) / np.sum(coadd_ivar > 0)
+            np.sqrt(coadd_ivar), coadd_delta + 1) / max(1, np.sum(w))
         self.header['MEANSNR'] = self.mean_snr
 
     @property
-- 
2.43.0


From b681ae7d955c300400957ceab91d4c61d042a131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:31 +0000
Subject: [PATCH 23/41] fix: jackknife variance and covariance after get_mean

---
 py/qsonic/mathtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/mathtools.py b/py/qsonic/mathtools.py
index b51b82d..34074db 100644
--- a/py/qsonic/mathtools.py
+++ b/py/qsonic/mathtools.py
@@ -650,7 +650,7 @@ class SubsampleCov():
         cov: list(:class:`ndarray <numpy.ndarray>`)
             Covariances of the mean.
         """
-        if self.mean is None:
+        if self.xdiff is None:
             mean_xvec = self.get_mean()
             self.mean, self.xdiff = self._get_xdiff(mean_xvec, bias_correct)
 
@@ -693,7 +693,7 @@ class SubsampleCov():
         var_xvec: :class:`ndarray <numpy.ndarray>`
             Variance of the mean. 1D array
         """
-        if self.mean is None:
+        if self.xdiff is None:
             mean_xvec = self.get_mean()
             self.mean, self.xdiff = self._get_xdiff(mean_xvec, bias_correct)
 
-- 
2.43.0


From cb36849ae298546db7ede5ca6f12668712d1c70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:53 +0000
Subject: [PATCH 24/41] fix: read the remaining delta files in calibration

---
 py/qsonic/scripts/qsonic_calib.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index 333dbc8..bc2f9e0 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -160,9 +160,8 @@ def mpi_read_all_deltas(args, comm=None, mpi_rank=0, mpi_size=1):
         warnings.warn(
             "There are more MPI processes then number of delta files.")
 
-    nfiles_per_rank = max(1, ndelta_all // mpi_size)
-    i1 = nfiles_per_rank * mpi_rank
-    i2 = min(ndelta_all, i1 + nfiles_per_rank)
+    i1 = (ndelta_all * mpi_rank) // mpi_size
+    i2 = (ndelta_all * (mpi_rank + 1)) // mpi_size
     files_this_rank = all_delta_files[i1:i2]
 
     deltas_list = [qsonic.io.read_deltas(fname) for fname in files_this_rank]
-- 
2.43.0


From 9bfd0dfa9e084134f4f603bfb994f59510443a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:53 +0000
Subject: [PATCH 25/41] fix: stack fluxes when a process has no deltas

---
 py/qsonic/scripts/qsonic_calib.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index bc2f9e0..8a2a0df 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -173,7 +173,9 @@ def mpi_read_all_deltas(args, comm=None, mpi_rank=0, mpi_size=1):
 
 
 def mpi_stack_fluxes(args, comm, deltas_list):
-    dwave = deltas_list[0].header['DELTA_LAMBDA']
+    # A process may have no deltas, so get the pixel spacing from all
+    dwave = deltas_list[0].header['DELTA_LAMBDA'] if deltas_list else 0.
+    dwave = max(comm.allgather(dwave))
     nwaveobs = int((args.wave2 - args.wave1) / dwave) + 1
     waveobs = np.linspace(args.wave1, args.wave2, nwaveobs)
     stacked_flux = np.zeros(nwaveobs)
-- 
2.43.0


From 62dd45a6e4919104946e4bb4f6894386e5a456cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:19 +0000
Subject: [PATCH 26/41] fix: remove spectra without usable pixels also when
 skip is zero

---
 py/qsonic/scripts/qsonic_fit.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index f718780..424dcd6 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -254,9 +254,6 @@ def apply_masks(maskers, spectra_list, mpi_rank=0):
 
 
 def remove_short_spectra(spectra_list, lya1, lya2, skip_ratio):
-    if not skip_ratio:
-        return spectra_list
-
     logging.info("Removing short spectra.")
     dforest_wave = lya2 - lya1
     spectra_list = [spec for spec in spectra_list
-- 
2.43.0


From d2587b84871c70ada9519a860617cf1daeaede40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:55 +0000
Subject: [PATCH 27/41] fix: drop exposure arms that have no continuum

---
 py/qsonic/scripts/qsonic_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 424dcd6..c1a3b92 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -414,7 +414,7 @@ def mpi_read_exposures_after(spectra_list, maskers, args, comm, mpi_rank):
         spec.cont_params = spec_coadd.cont_params.copy()
         spec.cont_params['cont'] = {}
 
-        for arm, wave_arm in spec.forestwave.items():
+        for arm, wave_arm in list(spec.forestwave.items()):
             wave_coadd = spec_coadd.forestwave
             if arm not in wave_coadd:
                 spec.drop_arm(arm)
-- 
2.43.0


From 521e6922be4a17836a7015fb93acb09daa64099b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:06 +0000
Subject: [PATCH 28/41] fix: order the exposure catalog by survey

---
 py/qsonic/scripts/qsonic_fit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index c1a3b92..0ea8283 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -387,7 +387,10 @@ def mpi_read_exposures_after(spectra_list, maskers, args, comm, mpi_rank):
     local_catalog = np.hstack([_.catrow for _ in spectra_list])
 
     # local_catalog is not sorted
-    idx_sort = local_catalog.argsort(order=['HPXPIXEL', 'TARGETID'])
+    # SURVEY must be grouped within each healpix to read the right files
+    order = ['HPXPIXEL', 'SURVEY', 'TARGETID']
+    order = [_ for _ in order if _ in local_catalog.dtype.names]
+    idx_sort = local_catalog.argsort(order=order)
     spectra_list = np.array(spectra_list)[idx_sort]
     local_catalog = local_catalog[idx_sort]
     # assert all(np.arange(idx_sort.size) == idx_sort)
-- 
2.43.0


From d7e360ae03735b5c002226b704cf2d70a465e1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:52 +0000
Subject: [PATCH 29/41] fix: read exposures when a process has no valid spectra

---
 py/qsonic/scripts/qsonic_fit.py | 35 ++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 0ea8283..ce2f290 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -384,22 +384,25 @@ def mpi_read_exposures_after(spectra_list, maskers, args, comm, mpi_rank):
     logging.info("Reading exposures and applying RSNR cut.")
     start_time = time.time()
 
-    local_catalog = np.hstack([_.catrow for _ in spectra_list])
-
-    # local_catalog is not sorted
-    # SURVEY must be grouped within each healpix to read the right files
-    order = ['HPXPIXEL', 'SURVEY', 'TARGETID']
-    order = [_ for _ in order if _ in local_catalog.dtype.names]
-    idx_sort = local_catalog.argsort(order=order)
-    spectra_list = np.array(spectra_list)[idx_sort]
-    local_catalog = local_catalog[idx_sort]
-    # assert all(np.arange(idx_sort.size) == idx_sort)
-    del idx_sort
-
-    # exposures cannot be saved in tile format
-    unique_pix, s = np.unique(local_catalog['HPXPIXEL'], return_index=True)
-    local_queue = np.split(local_catalog, s[1:])
-    del s, unique_pix
+    local_queue = []
+    # This process may have no valid spectra
+    if len(spectra_list) > 0:
+        local_catalog = np.hstack([_.catrow for _ in spectra_list])
+
+        # local_catalog is not sorted
+        # SURVEY must be grouped within each healpix to read the right files
+        order = ['HPXPIXEL', 'SURVEY', 'TARGETID']
+        order = [_ for _ in order if _ in local_catalog.dtype.names]
+        idx_sort = local_catalog.argsort(order=order)
+        spectra_list = np.array(spectra_list)[idx_sort]
+        local_catalog = local_catalog[idx_sort]
+        # assert all(np.arange(idx_sort.size) == idx_sort)
+        del idx_sort
+
+        # exposures cannot be saved in tile format
+        unique_pix, s = np.unique(local_catalog['HPXPIXEL'], return_index=True)
+        local_queue = np.split(local_catalog, s[1:])
+        del s, unique_pix
 
     args.exposures = "before"
     if args.coadd_arms != "disable":
-- 
2.43.0


From 9dff6acab24974e2784de71513f18a238d9ea278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:23 +0000
Subject: [PATCH 30/41] fix: read input continua when a process has no spectra

---
 py/qsonic/continuum_models/input_continuum_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/qsonic/continuum_models/input_continuum_model.py b/py/qsonic/continuum_models/input_continuum_model.py
index 7d0a2ca..60e80ba 100644
--- a/py/qsonic/continuum_models/input_continuum_model.py
+++ b/py/qsonic/continuum_models/input_continuum_model.py
@@ -143,6 +143,9 @@ class InputContinuumModel(BaseContinuumModel):
         spectra_list: list(Spectrum)
             Spectrum objects.
         """
+        if len(spectra_list) == 0:
+            return
+
         local_catalog = np.hstack([_.catrow for _ in spectra_list]).copy()
         local_catalog['HPXPIXEL'] = ang2pix(
             self.nside, local_catalog['RA'], local_catalog['DEC'],
-- 
2.43.0


From 2f3423698be541d50944fbe89b120107ab963a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:56 +0000
Subject: [PATCH 31/41] fix: refuse an undefined ratio

---
 py/qsonic/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/io.py b/py/qsonic/io.py
index 71418d6..6d1ffa1 100644
--- a/py/qsonic/io.py
+++ b/py/qsonic/io.py
@@ -723,7 +723,7 @@ def _float_range(f1, f2):
             f = float(arg)
         except ValueError:
             raise argparse.ArgumentTypeError("must be a floating point number")
-        if f < f1 or f > f2:
+        if not f1 <= f <= f2:
             raise argparse.ArgumentTypeError(f"must be in range [{f1}--{f2}]")
         return f
 
-- 
2.43.0


From a6d4f0dbb694ff6f09696286475bfa46dfcb2910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:01 +0000
Subject: [PATCH 32/41] fix: keep the requested order of arms

---
 py/qsonic/scripts/qsonic_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index ce2f290..1725f5b 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -58,7 +58,7 @@ def get_parser(add_help=True):
 
 
 def args_logic_fnc_qsonic_fit(args):
-    args.arms = list(set(args.arms))
+    args.arms = list(dict.fromkeys(args.arms))
     args.true_continuum |= (args.continuum_model == "true")
 
     condition_msg = [
-- 
2.43.0


From 493913c06beac01446b84baa8cf5044a4089b430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:26 +0000
Subject: [PATCH 33/41] fix: weights of arms coadded after fitting use the
 fiducial var_lss

---
 py/qsonic/picca_continuum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/qsonic/picca_continuum.py b/py/qsonic/picca_continuum.py
index 5859ec3..f4f859d 100644
--- a/py/qsonic/picca_continuum.py
+++ b/py/qsonic/picca_continuum.py
@@ -574,8 +574,11 @@ class PiccaContinuumFitter():
 
         self.save(fattr)
         if self.varlss_fitter is None:
+            fiducial_interps = self.varlss_interp, self.eta_interp
             self.fit_final_varlss(spectra_list)
             self.save(fattr, '-fit')
+            # Weights are always based on fiducial values
+            self.varlss_interp, self.eta_interp = fiducial_interps
 
         self.varlss_fitter.write(fattr)
         fattr.close()
-- 
2.43.0


From 8b029a0aa3b1448421369619f2b90578e36e7542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:26 +0000
Subject: [PATCH 34/41] fix: do not apply eta twice to calibrated IVAR

---
 py/qsonic/scripts/qsonic_fit.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 1725f5b..2d0cad0 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -325,6 +325,11 @@ def mpi_continuum_fitting(spectra_list, args, comm, mpi_rank):
 
     valid_spectra = list(qsonic.spectrum.valid_spectra(spectra_list))
 
+    # IVAR already includes eta if it was calibrated
+    interps = [qcfit.varlss_interp]
+    if not args.eta_calib_ivar:
+        interps.append(qcfit.eta_interp)
+
     # Final noise calibration for additive var_lss.
     if args.noise_calibration and args.varlss_as_additive_noise:
         logging.info("Applying noise calibration (varlss only).")
@@ -335,12 +340,12 @@ def mpi_continuum_fitting(spectra_list, args, comm, mpi_rank):
 
         for spec in valid_spectra:
             spec.set_smooth_forestivar(spec._smoothing_scale)
-            spec.set_forest_weight(qcfit.varlss_interp, qcfit.eta_interp)
+            spec.set_forest_weight(*interps)
 
     if args.coadd_arms == "after":
         logging.info("Coadding arms.")
         for spec in valid_spectra:
-            spec.coadd_arms_forest(qcfit.varlss_interp, qcfit.eta_interp)
+            spec.coadd_arms_forest(*interps)
             spec.calc_continuum_chi2()
 
     qcfit.save_contchi2_catalog(spectra_list)
-- 
2.43.0


From 40d2d93d7fff37d278fe4d1cebc1e644b6e9fa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:45 +0000
Subject: [PATCH 35/41] fix: coadd deltas on the pixel spacing they were saved
 with

Delta.coadd assumed 0.8 A pixels, so the coadding tool put deltas with any
other DELTA_LAMBDA on a wrong wavelength grid.
---
 py/qsonic/spectrum.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 797dc4c..8c22f5a 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -1000,7 +1000,11 @@ class Delta():
         coadd_reso[:, w] /= coadd_norm[w]
         self.reso = coadd_reso
 
-    def coadd(self, other, dwave=0.8):
+    def coadd(self, other, dwave=None):
+        if dwave is None:
+            # Pixel spacing of the saved spectrum, else the DESI grid
+            dwave = self.header.get('DELTA_LAMBDA', 0.8)
+
         min_wave = min(self.wave[0], other.wave[0])
         max_wave = max(self.wave[-1], other.wave[-1])
 
-- 
2.43.0


From 94a9f343515580b5bbfb9d1ecba9417c1ae0bb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:45 +0000
Subject: [PATCH 36/41] fix: weights of coadded deltas stay positive

With eta < 1 the estimated large-scale variance is negative, which made
coadded weights negative or arbitrarily large and lost pixels in the next
coadd.
---
 py/qsonic/spectrum.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 8c22f5a..9bc350d 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -1046,7 +1046,12 @@ class Delta():
         self.wave = coadd_wave
         self.delta = coadd_delta
         self.ivar = coadd_ivar
-        self.weight = self.ivar / (1 + self.ivar * coadd_lss)
+        # The LSS term is negative if the noise was scaled by eta < 1. Weight
+        # must still be positive and can at most be the sum of weights.
+        denom = 1 + self.ivar * coadd_lss
+        self.weight = coadd_norm
+        w2 = coadd_norm * denom > self.ivar
+        self.weight[w2] = self.ivar[w2] / denom[w2]
         self.cont = coadd_cont
 
         self.mean_snr = np.dot(
-- 
2.43.0


From 009ece0a5b4dc029ab2ec049f1ff503eb0ae898e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:09 +0000
Subject: [PATCH 37/41] fix: run with more processes than healpixels

---
 py/qsonic/scripts/qsonic_fit.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 2d0cad0..aabaaa8 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -12,7 +12,7 @@ import qsonic.catalog
 import qsonic.io
 import qsonic.spectrum
 import qsonic.masks
-from qsonic.mpi_utils import mpi_parse
+from qsonic.mpi_utils import mpi_fnc_bcast, mpi_parse
 from qsonic.picca_continuum import (
     PiccaContinuumFitter, add_picca_continuum_parser)
 
@@ -201,15 +201,18 @@ def mpi_read_masks(local_queue, args, comm, mpi_rank):
     # BAL mask
     if args.bal_mask:
         logging.info("Checking BAL mask.")
-        qsonic.masks.BALMask.check_catalog(local_queue[0])
+        # Other processes may have an empty queue
+        mpi_fnc_bcast(
+            lambda: qsonic.masks.BALMask.check_catalog(local_queue[0]),
+            comm, mpi_rank, "Input catalog is missing BAL columns.")
 
         maskers.append(qsonic.masks.BALMask)
 
     # DLA mask
     if args.dla_mask:
         logging.info("Reading DLA mask.")
-        local_targetids = np.concatenate(
-            [cat['TARGETID'] for cat in local_queue])
+        local_targetids = [
+            targetid for cat in local_queue for targetid in cat['TARGETID']]
 
         # Read catalog
         dlamasker = qsonic.masks.DLAMask(
@@ -478,7 +481,8 @@ def mpi_run_all(comm, mpi_rank, mpi_size):
     if args.mock_analysis:
         maxlastnight = None
     else:
-        maxlastnight = np.max([_['LASTNIGHT'].max() for _ in local_queue])
+        maxlastnight = max(
+            (_['LASTNIGHT'].max() for _ in local_queue), default=0)
         maxlastnight = comm.allreduce(maxlastnight, max)
     qsonic.spectrum.Spectrum.set_blinding(maxlastnight, args)
 
-- 
2.43.0


From 3e6f1cf89dc1083f715ed240754a28abd390a4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:09 +0000
Subject: [PATCH 38/41] fix: refused options end with a failure status

---
 py/qsonic/mpi_utils.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/py/qsonic/mpi_utils.py b/py/qsonic/mpi_utils.py
index ab859c5..09c9e18 100644
--- a/py/qsonic/mpi_utils.py
+++ b/py/qsonic/mpi_utils.py
@@ -28,19 +28,18 @@ def mpi_parse(
     args_logic_fnc: Callable[[args], bool], default: True
         Logic function to check for args.
     """
+    args, exit_code = None, 0
     if mpi_rank == 0:
         try:
             args = parser.parse_args(options)
             if not args_logic_fnc(args):
-                args = -1
-        except SystemExit:
-            args = -1
-    else:
-        args = -1
-
-    args = comm.bcast(args)
-    if args == -1:
-        exit(0)
+                args, exit_code = None, 1
+        except SystemExit as e:
+            exit_code = e.code
+
+    args, exit_code = comm.bcast((args, exit_code))
+    if args is None:
+        exit(exit_code)
 
     return args
 
-- 
2.43.0


From f362b2b8d06b1acfd8e6a079b5f399d2ae959188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:09 +0000
Subject: [PATCH 39/41] fix: unexpected errors end with a failure status

---
 py/qsonic/scripts/qsonic_calib.py | 2 +-
 py/qsonic/scripts/qsonic_fit.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index 8a2a0df..ceeaee3 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -279,4 +279,4 @@ def main():
     except Exception as e:
         logging.critical(
             f"Unexpected error on Rank{mpi_rank}: {e}. Abort.", exc_info=True)
-        comm.Abort()
+        comm.Abort(1)
diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index aabaaa8..4a8fb61 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -537,7 +537,7 @@ def main():
     except Exception as e:
         logging.critical(
             f"Unexpected error on Rank{mpi_rank}: {e}. Abort.", exc_info=True)
-        comm.Abort()
+        comm.Abort(1)
 
     etime = (time.time() - start_time) / 60  # min
     logging.info(f"Total time spent is {etime:.1f} mins.")
-- 
2.43.0


From f329c52476b48483607ceb529faa443d44caaa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:43 +0000
Subject: [PATCH 40/41] fix: stacked flux of qsonic-calib is saved at the
 wavelengths of its pixels

The wavelength grid was stretched to end at wave2 while pixels are
assigned with the pixel spacing, so a range that is not an exact multiple
of the (rounded) spacing shifted the saved stack by up to one pixel and
lost the last bin.
---
 py/qsonic/scripts/qsonic_calib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index ceeaee3..3707f0f 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -176,8 +176,9 @@ def mpi_stack_fluxes(args, comm, deltas_list):
     # A process may have no deltas, so get the pixel spacing from all
     dwave = deltas_list[0].header['DELTA_LAMBDA'] if deltas_list else 0.
     dwave = max(comm.allgather(dwave))
-    nwaveobs = int((args.wave2 - args.wave1) / dwave) + 1
-    waveobs = np.linspace(args.wave1, args.wave2, nwaveobs)
+    # dwave has rounding errors and may not divide the range evenly
+    nwaveobs = int((args.wave2 - args.wave1) / dwave + 1e-3) + 1
+    waveobs = args.wave1 + dwave * np.arange(nwaveobs)
     stacked_flux = np.zeros(nwaveobs)
     weights = np.zeros(nwaveobs)
 
-- 
2.43.0


From d2e425ee9ee23d756376a672443e3a3440b39346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:36 +0000
Subject: [PATCH 41/41] fix: fit variance functions when the previous ones are
 out of bounds

---
 py/qsonic/picca_continuum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/picca_continuum.py b/py/qsonic/picca_continuum.py
index f4f859d..be79569 100644
--- a/py/qsonic/picca_continuum.py
+++ b/py/qsonic/picca_continuum.py
@@ -1089,7 +1089,8 @@ class VarLSSFitter():
                     VarLSSFitter.variance_function,
                     self.var_centers[wave_slice][w],
                     self.var_delta[wave_slice][w],
-                    p0=initial_guess[iwave],
+                    # Smoothed functions can be out of (or stuck at) bounds
+                    p0=np.clip(initial_guess[iwave], 0.01, 1.99),
                     sigma=err2use,
                     absolute_sigma=True,
                     check_finite=True,
-- 
2.43.0

