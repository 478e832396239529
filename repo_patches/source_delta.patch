From e1b4bbada6ea2d781d592fd9162e3f32086909aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:20 +0000
Subject: [PATCH 01/16] fix: accept scalar and integer radiances in
 blackbody_rad2temp

A Python float radiance raised AttributeError (no dtype) although scalars are documented as accepted, and an
integer radiance truncated the wavelength to zero, giving NaN for every element.
---
 pyspectral/blackbody.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyspectral/blackbody.py b/pyspectral/blackbody.py
index cbfcfbd..f110c06 100644
--- a/pyspectral/blackbody.py
+++ b/pyspectral/blackbody.py
@@ -35,9 +35,10 @@ def blackbody_rad2temp(wavelength, radiance):
         The derived temperature in Kelvin.
 
     """
-    if getattr(wavelength, "dtype", None) != radiance.dtype:
+    dtype = getattr(radiance, "dtype", None)
+    if dtype is not None and np.issubdtype(dtype, np.floating) and getattr(wavelength, "dtype", None) != dtype:
         # avoid a wavelength numpy scalar upcasting radiances (ex. 32-bit to 64-bit float)
-        wavelength = radiance.dtype.type(wavelength)
+        wavelength = dtype.type(wavelength)
     with np.errstate(divide='ignore', invalid='ignore'):
         return PLANCK_C1 / (wavelength * np.log(PLANCK_C2 / (radiance * wavelength**5) + 1.0))
 
-- 
2.43.0


From c1f73ec5e29a262b29eec7b9c79c1e00d8947ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:20 +0000
Subject: [PATCH 02/16] fix: let functions using map_blocks take the chunked
 argument by keyword

blackbody_rad2temp(wavelength=w, radiance=r) raised IndexError for every kind of array.
---
 pyspectral/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 14a9dca..374bd27 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -8,7 +8,7 @@ import sys
 import tarfile
 import warnings
 from functools import wraps
-from inspect import getfullargspec
+from inspect import getfullargspec, signature
 from pathlib import Path
 
 import numpy as np
@@ -679,6 +679,8 @@ def use_map_blocks_on(argument_to_run_map_blocks_on):
 
         @wraps(f)
         def wrapper(*args, **kwargs):
+            bound_args = signature(f).bind(*args, **kwargs)
+            args, kwargs = bound_args.args, bound_args.kwargs
             array = args[argument_index]
             chunks = getattr(array, "chunks", None)
             if chunks is None:
-- 
2.43.0


From 1fb311f87f27de2abfff8fbf51dac38dfb0a218b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:11 +0000
Subject: [PATCH 03/16] fix: find the band of a numeric wavelength when
 converting in wavenumber space

RadTbConverter(..., band=<wavelength>, wavespace='wavenumber') raised KeyError('central_wavelength'): the band
was looked up in the converted responses, which do not carry the central wavelength.
---
 pyspectral/radiance_tb_conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index 97a925e..0e352a7 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -129,7 +129,7 @@ class RadTbConverter(object):
             self.bandname = BANDNAMES.get(self.instrument, BANDNAMES['generic']).get(self.band, self.band)
         elif isinstance(self.band, Number):
             self.bandwavelength = self.band
-            self.bandname = get_bandname_from_wavelength(self.instrument, self.band, self.rsr)
+            self.bandname = get_bandname_from_wavelength(self.instrument, self.band, sensor.rsr)
 
         self.wavelength_or_wavenumber = (self.rsr[self.bandname][self.detector][self.wavespace] *
                                          self._wave_si_scale)
-- 
2.43.0


From dddb7ee74261c738c0e6d2ab71a2dfbecf84237a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:12 +0000
Subject: [PATCH 04/16] fix: no reflectance where the thermal brightness
 temperature is missing

With the look-up table conversion a NaN in tb_thermal is cast to an arbitrary table index, and a finite
reflectance came out for a pixel without thermal data.
---
 pyspectral/near_infrared_reflectance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index ef33ba0..e03fbd9 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -278,6 +278,7 @@ class Calculator(RadTbConverter):
             sunzmask = (sun_zenith < 0.0) | (sun_zenith > self.masking_limit)
             logical_or(sunzmask, mask, out=mask)
         logical_or(mask, np.isnan(tb_nir), out=mask)
+        logical_or(mask, np.isnan(tb_therm), out=mask)
 
         self._r3x = where(mask, np.nan, data)
 
-- 
2.43.0


From d8792caa6afe65545de8606563a917af63fd1694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:12 +0000
Subject: [PATCH 05/16] fix: keep the generated tb2rad look-up table name a
 plain file name

An instrument name such as 'avhrr/3' put a directory separator in the name, and the calculator failed with
FileNotFoundError when writing the table.
---
 pyspectral/near_infrared_reflectance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index e03fbd9..d1d5a70 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -95,7 +95,7 @@ class Calculator(RadTbConverter):
             LOG.debug("No lut filename available in config file. "
                       "Will generate filename automatically")
             lutname = "tb2rad_lut_{0}_{1}_{band}".format(
-                self.platform_name.lower(), self.instrument.lower(), band=self.bandname.lower())
+                self.platform_name.lower(), self.instrument.lower().replace("/", ""), band=self.bandname.lower())
             self.lutfile = os.path.join(tb2rad_dir, lutname + ".npz")
 
     def _lutfile_from_config(self, options, tb2rad_dir):
-- 
2.43.0


From 2385a56fe0756706094a6378eef9c165c9e108e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:12 +0000
Subject: [PATCH 06/16] fix: do not share the cached tb2rad look-up table
 between detectors

The generated name ignored the detector, so a calculator for another detector silently read the table cached
for the first one and derived radiances with the wrong spectral response.
---
 pyspectral/near_infrared_reflectance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index d1d5a70..f7c4418 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -96,6 +96,8 @@ class Calculator(RadTbConverter):
                       "Will generate filename automatically")
             lutname = "tb2rad_lut_{0}_{1}_{band}".format(
                 self.platform_name.lower(), self.instrument.lower().replace("/", ""), band=self.bandname.lower())
+            if self.detector != "det-1":
+                lutname = lutname + "_" + self.detector
             self.lutfile = os.path.join(tb2rad_dir, lutname + ".npz")
 
     def _lutfile_from_config(self, options, tb2rad_dir):
-- 
2.43.0


From fb9279806f3fc8e852b730a6e66fa09c86d5862e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:33 +0000
Subject: [PATCH 07/16] fix: return zero Rayleigh reflectance outside the LUT
 range for numpy input

---
 pyspectral/rayleigh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/rayleigh.py b/pyspectral/rayleigh.py
index caa585e..39394ed 100644
--- a/pyspectral/rayleigh.py
+++ b/pyspectral/rayleigh.py
@@ -237,7 +237,7 @@ class Rayleigh(RayleighConfigBaseClass):
                                              chunks=getattr(res, "chunks", None))
 
         res = np.clip(res, 0, 100)
-        if compute:
+        if compute and isinstance(res, da.Array):
             res = res.compute()
         return res
 
-- 
2.43.0


From c0f9850309f9f95f8c2969186c1be54ac24a85e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:33 +0000
Subject: [PATCH 08/16] fix: store the wavelengths, not the responses, as
 wavelengths in convert2hdf5

---
 pyspectral/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 374bd27..a423612 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -327,7 +327,7 @@ def _write_single_detector_data(grp, sensor, scale, detectors):
     dset = grp.create_dataset("response", arr.shape, dtype="f")
     dset[...] = arr
 
-    _save_wavelengths(grp, arr, scale)
+    _save_wavelengths(grp, sensor.rsr["wavelength"], scale)
 
 
 def _save_wavelengths(grp, arr, scale):
@@ -350,7 +350,7 @@ def _write_multidetector_data(grp, sensor, scale, detectors):
         dset = det_grp.create_dataset("response", arr.shape, dtype="f")
         dset[...] = arr
 
-    _save_wavelengths(grp, arr, scale)
+    _save_wavelengths(grp, sensor.rsr[detectors[0]]["wavelength"], scale)
 
 
 def download_rsr(dest_dir: str | Path | None = None, dry_run: bool = False) -> None:
-- 
2.43.0


From f6b8fd9ae43c226d8aa5cc94ea94da51ebf76a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:33 +0000
Subject: [PATCH 09/16] fix: write converted RSR files under the name they are
 read from

---
 pyspectral/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index a423612..fa9643c 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -287,7 +287,7 @@ def convert2hdf5(ClassIn, platform_name, bandnames, scale=1e-06, detectors=None)
     import h5py
 
     instruments = [ClassIn(bandnames[i], platform_name) for i in range(len(bandnames))]
-    instr_name = instruments[0].instrument.replace("/", "")
+    instr_name = instruments[0].instrument.replace("/", "").replace("-", "")
     filename = os.path.join(instruments[0].output_dir,
                             "rsr_{0}_{1}.h5".format(instr_name,
                                                     platform_name))
-- 
2.43.0


From 457b8516d49146a9f634f142d07b56ff20531496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:27 +0000
Subject: [PATCH 10/16] fix: apply the IR limb correction to plain numpy arrays
 too

viewzen_corr read data.mask, which plain arrays do not have.
---
 pyspectral/atm_correction_ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/atm_correction_ir.py b/pyspectral/atm_correction_ir.py
index c19df0e..f528092 100644
--- a/pyspectral/atm_correction_ir.py
+++ b/pyspectral/atm_correction_ir.py
@@ -124,7 +124,7 @@ def viewzen_corr(data, view_zen):
     y0, x0 = np.ma.where(view_zen == 0)
     data[y0, x0] += tau0(data[y0, x0])
 
-    y, x = np.ma.where((view_zen > 0) & (view_zen < 90) & (~data.mask))
+    y, x = np.ma.where((view_zen > 0) & (view_zen < 90) & ~np.ma.getmaskarray(data))
     data[y, x] += tau(data[y, x]) * delta(view_zen[y, x])
     return data
 
-- 
2.43.0


From 7c2529343e063632cc9b7447f5f470a46a37299e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:23 +0000
Subject: [PATCH 11/16] fix: keep masked pixels missing in the 3.x micron
 reflectance

---
 pyspectral/near_infrared_reflectance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index f7c4418..6898101 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -289,7 +289,10 @@ def get_as_array(variable):
     """Return variable as a Dask or Numpy array.
 
     Variable may be a scalar, a list or a Numpy/Dask array.
+    The masked elements of a masked array are missing (NaN) in the result.
     """
+    if np.ma.is_masked(variable):
+        variable = variable.filled(np.nan)
     if np.isscalar(variable):
         return asanyarray([variable, ])
 
-- 
2.43.0


From cd26c5090b2573b1b5d5561d2e7b57b09e8d7158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:23 +0000
Subject: [PATCH 12/16] fix: treat every masked input of the 3.x micron
 reflectance alike

---
 pyspectral/near_infrared_reflectance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index 6898101..c3c2938 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -291,8 +291,8 @@ def get_as_array(variable):
     Variable may be a scalar, a list or a Numpy/Dask array.
     The masked elements of a masked array are missing (NaN) in the result.
     """
-    if np.ma.is_masked(variable):
-        variable = variable.filled(np.nan)
+    if np.ma.isMaskedArray(variable):
+        variable = variable.astype(np.result_type(variable, np.float32)).filled(np.nan)
     if np.isscalar(variable):
         return asanyarray([variable, ])
 
-- 
2.43.0


From 217603d1e246ea55c73185222903b3dc4fa042e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:06 +0000
Subject: [PATCH 13/16] fix: use the detector's own response for the default
 in-band solar flux

---
 pyspectral/near_infrared_reflectance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index c3c2938..018dc44 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -158,7 +158,7 @@ class Calculator(RadTbConverter):
         solar_spectrum = \
             SolarIrradianceSpectrum(dlambda=0.0005,
                                     wavespace=self.wavespace)
-        self.solar_flux = solar_spectrum.inband_solarflux(self.rsr[self.bandname])
+        self.solar_flux = solar_spectrum.inband_solarflux(self.rsr[self.bandname][self.detector])
 
     def emissive_part_3x(self, tb=True):
         """Get the emissive part of the 3.x band."""
-- 
2.43.0


From 3271f0061a7ab6f75e1dd6f9ab5d4540083c3273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:41 +0000
Subject: [PATCH 14/16] fix: look up fine radiance tables without 16 bit
 overflow

With a temperature resolution below 0.0064 K, or a temperature far above the
table, the 16 bit table index wrapped around and warm pixels were given the
radiance of the coldest entry.
---
 pyspectral/radiance_tb_conversion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index 0e352a7..a740106 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -179,11 +179,11 @@ class RadTbConverter(object):
 
         if lut:
             lut_radiance = lut['radiance'].astype(tb_.dtype)
-            ntb = (tb_ * self.tb_scale).astype('int16')
+            ntb = (tb_ * self.tb_scale).astype('int32')
             start = int(lut['tb'][0] * self.tb_scale)
             retv = {}
-            bounds = 0, lut_radiance.shape[0] - 1
-            index = (ntb - start).clip(bounds[0], bounds[1])
+            bounds = start, start + lut_radiance.shape[0] - 1
+            index = ntb.clip(bounds[0], bounds[1]) - start
             try:
                 retv['radiance'] = index.map_blocks(self._getitem, lut_radiance, dtype=lut_radiance.dtype)
             except AttributeError:
-- 
2.43.0


From b963ee239cfffd4d6481159973f8355ffcbe175e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:25 +0000
Subject: [PATCH 15/16] fix: store the central wavelength in microns whatever
 the raw unit

convert2hdf5 scaled the wavelengths it was given but stored the central
wavelength in the raw unit, so that files converted with another scale than
1e-6 read back with inconsistent wavelengths.
---
 pyspectral/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index fa9643c..a4e5e5c 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -320,7 +320,7 @@ def _write_single_detector_data(grp, sensor, scale, detectors):
     wvl = sensor.rsr["wavelength"][~np.isnan(sensor.rsr["wavelength"])]
     # Store detector central wavelength
     rsp = sensor.rsr["response"][~np.isnan(sensor.rsr["wavelength"])]
-    grp.attrs["central_wavelength"] = get_central_wave(wvl, rsp)
+    grp.attrs["central_wavelength"] = get_central_wave(wvl, rsp) * (scale * 1e6)
 
     # Store resonse data
     arr = sensor.rsr["response"]
@@ -345,7 +345,7 @@ def _write_multidetector_data(grp, sensor, scale, detectors):
     for cur_det in detectors:
         det_grp = grp.create_group(cur_det)
         rsp = sensor.rsr[cur_det]["response"][~np.isnan(sensor.rsr[cur_det]["wavelength"])]
-        det_grp.attrs["central_wavelength"] = get_central_wave(wvl, rsp)
+        det_grp.attrs["central_wavelength"] = get_central_wave(wvl, rsp) * (scale * 1e6)
         arr = sensor.rsr[cur_det]["response"]
         dset = det_grp.create_dataset("response", arr.shape, dtype="f")
         dset[...] = arr
-- 
2.43.0


From 929fe3820a3f8d5988fb08e82275bb8589f26991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:21 +0000
Subject: [PATCH 16/16] fix: refuse an object array holding neither text nor
 bytes with ValueError

---
 pyspectral/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index a4e5e5c..3654b83 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -605,9 +605,10 @@ def np2str(value):
         value = value.item()
         # python 3 - was scalar numpy array of bytes
         # otherwise python 2 - scalar numpy array of "str"
-        if not isinstance(value, str):
+        if isinstance(value, bytes):
             return value.decode()
-        return value
+        if isinstance(value, str):
+            return value
 
     raise ValueError("Array is not a string type or is larger than 1")
 
-- 
2.43.0

