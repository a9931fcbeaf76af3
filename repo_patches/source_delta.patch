From cd2e6a8f5986bddde645727fd9e8c3d4cde7cdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 01/44] fix: make saving the calibration database atomic

The CSV file was truncated and rewritten in place, so a crash or a full disk
during any registration lost every calibration registered before.
---
 corgidrp/atomic.py | 41 +++++++++++++++++++++++++++++++++++++++++
 corgidrp/caldb.py  |  5 ++++-
 2 files changed, 45 insertions(+), 1 deletion(-)
 create mode 100644 corgidrp/atomic.py

diff --git a/corgidrp/atomic.py b/corgidrp/atomic.py
new file mode 100644
index 0000000..d050278
--- /dev/null
+++ b/corgidrp/atomic.py
@@ -0,0 +1,41 @@
+"""
+Helper for writing files such that an interrupted write never damages an existing file
+"""
+import contextlib
+import os
+
+@contextlib.contextmanager
+def atomic_write_path(filepath):
+    """
+    Context manager to (over)write a file in an all-or-nothing way. The caller writes the complete file to the temporary
+    path that is provided, which replaces the final file only once everything is safely on disk. If anything goes wrong
+    before then, the previous version of the file is left as it was.
+
+    Args:
+        filepath (str): path of the file that should be written
+
+    Yields:
+        str: path to a temporary file in the same folder that should be written instead
+    """
+    filepath = os.path.realpath(filepath) # keep symbolic links to files in place
+    root, ext = os.path.splitext(filepath)
+    if ext.lower() in [".gz", ".bz2", ".xz", ".zip", ".zst"]:
+        # keep the ending so that the file is still compressed
+        temp_filepath = root + ".tmp" + ext
+    else:
+        temp_filepath = filepath + ".tmp"
+
+    try:
+        yield temp_filepath
+
+        # make sure the content is on disk before replacing the old file
+        fd = os.open(temp_filepath, os.O_RDWR)
+        try:
+            os.fsync(fd)
+        finally:
+            os.close(fd)
+        os.replace(temp_filepath, filepath)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.remove(temp_filepath)
+        raise
diff --git a/corgidrp/caldb.py b/corgidrp/caldb.py
index f8e4426..d8b52f6 100644
--- a/corgidrp/caldb.py
+++ b/corgidrp/caldb.py
@@ -6,6 +6,7 @@ import numpy as np
 import pandas as pd
 import corgidrp
 import corgidrp.data as data
+from corgidrp.atomic import atomic_write_path
 import astropy.time as time
 
 column_dtypes = {
@@ -91,7 +92,9 @@ class CalDB:
         """
         Save file without numbered index to disk with user specified filepath as a CSV file
         """
-        self._db.to_csv(self.filepath, index=False)
+        # an interrupted save should never lose the entries that are already in the database
+        with atomic_write_path(self.filepath) as temp_filepath:
+            self._db.to_csv(temp_filepath, index=False)
 
     def _get_values_from_entry(self, entry, is_calib=True):
         """
-- 
2.43.0


From 47b4fec734ae5eda562b3a17fe9a0fd946122fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 02/44] fix: make saving images and calibration products atomic

Overwriting deleted the existing file before writing the new one, so a crash or
a full disk lost the old product and left a truncated FITS file.
---
 corgidrp/data.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 1405464..f64b82a 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -14,6 +14,7 @@ from scipy.interpolate import LinearNDInterpolator
 from astropy import wcs
 import copy
 import corgidrp
+from corgidrp.atomic import atomic_write_path
 from datetime import datetime, timedelta, timezone
 
 class Dataset():
@@ -462,7 +463,9 @@ class Image():
         for hdu in self.hdu_list:
             hdulist.append(hdu)
 
-        hdulist.writeto(self.filepath, overwrite=True)
+        # an interrupted save should never leave a partial file or lose an existing one
+        with atomic_write_path(self.filepath) as temp_filepath:
+            hdulist.writeto(temp_filepath, overwrite=True)
         hdulist.close()
 
     def _record_parent_filenames(self, input_dataset):
@@ -936,7 +939,9 @@ class KGain(Image):
         ptchdu = fits.ImageHDU(data=self.ptc, header = self.ptc_hdr)
         hdulist.append(ptchdu)
 
-        hdulist.writeto(self.filepath, overwrite=True)
+        # an interrupted save should never leave a partial file or lose an existing one
+        with atomic_write_path(self.filepath) as temp_filepath:
+            hdulist.writeto(temp_filepath, overwrite=True)
         hdulist.close()
 
 class BadPixelMap(Image):
-- 
2.43.0


From cc11bec5851ce6553de21840a8d985d00be4c8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 03/44] fix: autoload ND filter sweet spot products

Their DATATYPE keyword had no entry in the table of datatypes, so autoload and
CalDB.scan_dir_for_new_entries raised a KeyError on any such file.
---
 corgidrp/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index f64b82a..08d7451 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -2564,7 +2564,8 @@ datatypes = { "Image" : Image,
               "FluxcalFactor" : FluxcalFactor,
               "FpamFsamCal" : FpamFsamCal,
               "CoreThroughputCalibration": CoreThroughputCalibration,
-              "NDFilterSweetSpot": NDFilterSweetSpotDataset}
+              "NDFilterSweetSpot": NDFilterSweetSpotDataset,
+              "NDFilterSweetSpotDataset": NDFilterSweetSpotDataset} # name used in the DATATYPE keyword
 
 def autoload(filepath):
     """
-- 
2.43.0


From 9e31561ce65eacb58d8a0632e5818edf46511d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 04/44] fix: register the default calibrations after an
 interrupted initialization

If the first start-up died after writing the default calibration files but
before scanning them, they were never added to the caldb afterwards.
---
 corgidrp/caldb.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/corgidrp/caldb.py b/corgidrp/caldb.py
index d8b52f6..53360da 100644
--- a/corgidrp/caldb.py
+++ b/corgidrp/caldb.py
@@ -375,20 +375,27 @@ def initialize():
     ### Create set of default calibrations
     rescan_needed = False
     # Add default detector_params calibration file if it doesn't exist
-    if not os.path.exists(os.path.join(corgidrp.default_cal_dir, "DetectorParams_2023-11-01T00:00:00.000.fits")):
+    detparams_filepath = os.path.join(corgidrp.default_cal_dir, "DetectorParams_2023-11-01T00:00:00.000.fits")
+    if not os.path.exists(detparams_filepath):
         default_detparams = data.DetectorParams({}, date_valid=time.Time("2023-11-01 00:00:00", scale='utc'))
         default_detparams.save(filedir=corgidrp.default_cal_dir)
         rescan_needed = True
     # Add default FpamFsamCal calibration file if it doesn't exist
-    if not os.path.exists(os.path.join(corgidrp.default_cal_dir, "FpamFsamCal_2024-02-10T00:00:00.000.fits")):
+    fpamfsam_filepath = os.path.join(corgidrp.default_cal_dir, "FpamFsamCal_2024-02-10T00:00:00.000.fits")
+    if not os.path.exists(fpamfsam_filepath):
         fpamfsam_2excam = data.FpamFsamCal([],
             date_valid=time.Time("2024-02-10 00:00:00", scale='utc'))
         fpamfsam_2excam.save(filedir=corgidrp.default_cal_dir)
         rescan_needed = True
 
+    # the files may exist without being in the caldb if a previous initialization was interrupted
+    default_caldb = CalDB()
+    for filepath in [detparams_filepath, fpamfsam_filepath]:
+        if os.path.abspath(filepath) not in default_caldb._db["Filepath"].values:
+            rescan_needed = True
+
     if rescan_needed:
         # add default caldb entries
-        default_caldb = CalDB()
         default_caldb.scan_dir_for_new_entries(corgidrp.default_cal_dir)
 
     # set initialization
-- 
2.43.0


From eddc4a0ac69ed4ecc530ab61d99cfe13390db440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 05/44] fix: make the creation and migration of the
 configuration crash safe

The legacy configuration was deleted before the new one was written, and the new
one was written in place and never rewritten, so an interrupted first start-up
lost the user's settings or left a truncated configuration for good.
---
 corgidrp/__init__.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/corgidrp/__init__.py b/corgidrp/__init__.py
index 05c68ad..21912c4 100644
--- a/corgidrp/__init__.py
+++ b/corgidrp/__init__.py
@@ -2,6 +2,7 @@ import configparser
 import os
 import pathlib
 import configparser
+from corgidrp.atomic import atomic_write_path
 
 __version__ = "2.0"
 version = __version__ # temporary backwards compatability 
@@ -15,21 +16,22 @@ def create_config_dir():
     homedir = pathlib.Path.home()
     config_folder = os.path.join(homedir, ".corgidrp")
     # replace legacy file with folder if needed
+    # set the legacy file aside until its settings have been saved in the new config
+    legacy_config = config_folder + "_legacy"
     if os.path.isfile(config_folder):
+        os.replace(config_folder, legacy_config)
+    if os.path.isfile(legacy_config):
         oldconfig = configparser.ConfigParser()
-        oldconfig.read(config_folder)
-        os.remove(config_folder)
+        oldconfig.read(legacy_config)
     else:
         oldconfig = None
 
     # make folder if doesn't exist
-    if not os.path.isdir(config_folder):
-        os.mkdir(config_folder)
+    os.makedirs(config_folder, exist_ok=True)
 
     # make default calibrations folder if it doesn't exist
     default_cal_dir = os.path.join(config_folder, "default_calibs")
-    if not os.path.exists(default_cal_dir):
-        os.mkdir(default_cal_dir)
+    os.makedirs(default_cal_dir, exist_ok=True)
 
     # write config if it doesn't exist
     config_filepath = os.path.join(config_folder, "corgidrp.cfg")
@@ -44,14 +46,19 @@ def create_config_dir():
         config["WALKER"]["skip_missing_cal_steps"] = "False"
         config["WALKER"]["jit_calib_id"] = "False"
         # overwrite with old settings if needed
-        if oldconfig is not None:
+        if oldconfig is not None and oldconfig.has_option("PATH", "caldb"):
             config["PATH"]["caldb"] = oldconfig["PATH"]["caldb"]
 
-        with open(config_filepath, 'w') as f:
-            config.write(f)
+        with atomic_write_path(config_filepath) as temp_filepath:
+            with open(temp_filepath, 'w') as f:
+                config.write(f)
 
         print("corgidrp: Configuration file written to {0}. Please edit if you want things stored in different locations.".format(config_filepath))
 
+    # the legacy settings are now stored in the new config
+    if oldconfig is not None:
+        os.remove(legacy_config)
+
 
 def update_pipeline_settings():
     """
-- 
2.43.0


From 5420ae50c49a37a4f6c7cc22b1401dd10190b4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 06/44] fix: make content hashes the same in memory, on disk
 and in every process

The builtin hash() of bytes and strings is randomised per process, and the raw
bytes of an array depend on its byte order, which differs after loading from FITS.
---
 corgidrp/data.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 08d7451..e5a926a 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -13,10 +13,23 @@ from pyklip.instruments.utils.wcsgen import generate_wcs
 from scipy.interpolate import LinearNDInterpolator
 from astropy import wcs
 import copy
+import hashlib
 import corgidrp
 from corgidrp.atomic import atomic_write_path
 from datetime import datetime, timedelta, timezone
 
+def _stable_hash(content):
+    """
+    Computes a hash that, unlike the builtin hash(), is the same in every Python process
+
+    Args:
+        content (bytes): the bytes to hash
+
+    Returns:
+        str: the hash as a string of a signed 64-bit integer
+    """
+    return str(int.from_bytes(hashlib.sha256(content).digest()[:8], "big", signed=True))
+
 class Dataset():
     """
     A sequence of data of the same kind. Can be indexed and looped over
@@ -593,13 +606,13 @@ class Image():
         Returns:
             str: the hash of the data, err, and dq
         """
-        data_bytes = self.data.data.tobytes()
-        err_bytes = self.err.data.tobytes()
-        dq_bytes = self.dq.data.tobytes()
-
-        total_bytes = data_bytes + err_bytes + dq_bytes
+        total_bytes = b""
+        for array in (self.data, self.err, self.dq):
+            # use the native byte order, since data read in from disk is big-endian
+            array = np.asarray(array)
+            total_bytes += array.astype(array.dtype.newbyteorder("=")).tobytes()
 
-        return str(hash(total_bytes))
+        return _stable_hash(total_bytes)
 
     def add_extension_hdu(self, name, data = None, header=None):
         """
@@ -1234,7 +1247,7 @@ class DetectorParams(Image):
         for key in self.params:
             hashing_str += str(self.params[key])
 
-        return str(hash(hashing_str))
+        return _stable_hash(hashing_str.encode())
 
 class AstrometricCalibration(Image):
     """
-- 
2.43.0


From 7fc08405f01e8802f8a88d6a90492c337dd2f143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 07/44] fix: record parent filenames in a reproducible order

---
 corgidrp/data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index e5a926a..05ee2e2 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -492,14 +492,14 @@ class Image():
             input_dataset (corgidrp.data.Dataset): the input dataset that were combined together to make this image
         """
 
-        parent_filenames = set()
+        parent_filenames = {} # a dictionary rather than a set, to keep the order the same in every process
         # go through filenames and also check each frames parents
         for img in input_dataset:
-            parent_filenames.add(img.filename)
+            parent_filenames[img.filename] = True
             # also check if this frame has parent frames. keep trakc of them too
             if 'DRPNFILE' in img.ext_hdr:
                 for j in range(img.ext_hdr['DRPNFILE']):
-                    parent_filenames.add(img.ext_hdr['FILE{0}'.format(j)])
+                    parent_filenames[img.ext_hdr['FILE{0}'.format(j)]] = True
         
         for i, filename in enumerate(parent_filenames):
             self.ext_hdr.set('FILE{0}'.format(i), filename, "File #{0} filename used to create this frame".format(i))
-- 
2.43.0


From 30b58be7d40304b899fba97ea1bb322c8a21698a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 08/44] fix: always copy the headers of an Image

Copies with copy_data=False shared their headers with the original, contrary to the
documentation, so that the data level updates altered their inputs. In-memory
DetectorParams and FpamFsamCal could not be copied this way at all.
---
 corgidrp/data.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 05ee2e2..7fb96f7 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -521,8 +521,12 @@ class Image():
             new_img = copy.deepcopy(self)
         else:
             new_img = copy.copy(self)
-            # copy the hdu_list and hdu_names list, but not their pointers
-            new_img.hdu_list = self.hdu_list.copy()
+            # always copy the headers, so that editing them doesn't alter the original
+            for name, value in vars(self).items():
+                if isinstance(value, fits.Header):
+                    setattr(new_img, name, value.copy())
+            # copy the hdu_list (including its headers) and hdu_names list, but not their pointers
+            new_img.hdu_list = fits.HDUList([hdu.copy() for hdu in self.hdu_list])
             new_img.hdu_names = copy.copy(self.hdu_names)
 
         # update DRP version tracking
@@ -1200,6 +1204,7 @@ class DetectorParams(Image):
             self.dq_hdr = fits.Header()
 
             self.hdu_list = fits.HDUList()
+            self.hdu_names = ["ERR", "DQ"]
 
         # make a dictionary that's easy to use
         self.params = {}
@@ -1528,6 +1533,7 @@ class FpamFsamCal(Image):
             self.dq_hdr = fits.Header()
 
             self.hdu_list = fits.HDUList()
+            self.hdu_names = ["ERR", "DQ"]
 
         # if this is a new FpamFsamCal file, we need to bookkeep it in the
         # header b/c of logic in the super.__init__, we just need to check this
-- 
2.43.0


From 5164b9e2101a799b272a0e047490d1619a7e9593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 09/44] fix: report folders that cannot be read when scanning
 for calibrations

---
 corgidrp/caldb.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/corgidrp/caldb.py b/corgidrp/caldb.py
index 53360da..b06209a 100644
--- a/corgidrp/caldb.py
+++ b/corgidrp/caldb.py
@@ -340,8 +340,14 @@ class CalDB:
             to_disk (bool): True by default, will update DB from disk before adding entry and saving it back to disk
         """
         calib_frames = []
+
+        def on_error(error):
+            # by default, os.walk would skip folders that cannot be read
+            if not isinstance(error, FileNotFoundError):
+                raise error
+
         # walk the directory to find all the calibration files
-        for dirpath, subfolders, filenames in os.walk(filedir):
+        for dirpath, subfolders, filenames in os.walk(filedir, onerror=on_error):
             for filename in filenames:
                 # hard coded check only for files that end in .fits
                 if filename[-5:] != ".fits":
-- 
2.43.0


From 9f84fe9ac658f1f2647738fb647369d1d2edb6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 10/44] fix: use a separate temporary file for each process

---
 corgidrp/atomic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/corgidrp/atomic.py b/corgidrp/atomic.py
index d050278..fbcc33a 100644
--- a/corgidrp/atomic.py
+++ b/corgidrp/atomic.py
@@ -18,12 +18,13 @@ def atomic_write_path(filepath):
         str: path to a temporary file in the same folder that should be written instead
     """
     filepath = os.path.realpath(filepath) # keep symbolic links to files in place
+    suffix = ".{0}.tmp".format(os.getpid()) # other processes may be writing the same file
     root, ext = os.path.splitext(filepath)
     if ext.lower() in [".gz", ".bz2", ".xz", ".zip", ".zst"]:
         # keep the ending so that the file is still compressed
-        temp_filepath = root + ".tmp" + ext
+        temp_filepath = root + suffix + ext
     else:
-        temp_filepath = filepath + ".tmp"
+        temp_filepath = filepath + suffix
 
     try:
         yield temp_filepath
-- 
2.43.0


From d0b3f0a5291ea450665a4bb6603e5c74bdca5579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 11/44] fix: name the ERR and DQ extensions of new
 DetectorParams and FpamFsamCal

Without a name they were not recognised when the file was loaded, so their
uncertainties and flags were lost and became unnamed extra extensions.
---
 corgidrp/data.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 7fb96f7..0119573 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -1198,10 +1198,12 @@ class DetectorParams(Image):
             self.ext_hdr = ext_hdr
             self.data = np.zeros([1,1])
             self.dq = np.zeros([1,1])
-            self.err = np.zeros([1,1])
+            self.err = np.zeros([1,1,1])
 
             self.err_hdr = fits.Header()
+            self.err_hdr["EXTNAME"] = "ERR"
             self.dq_hdr = fits.Header()
+            self.dq_hdr["EXTNAME"] = "DQ"
 
             self.hdu_list = fits.HDUList()
             self.hdu_names = ["ERR", "DQ"]
@@ -1527,10 +1529,12 @@ class FpamFsamCal(Image):
             self.ext_hdr = exthdr
             self.data = data_or_filepath
             self.dq = self.data * 0
-            self.err = self.data * 0
+            self.err = np.zeros((1,)+self.data.shape)
 
             self.err_hdr = fits.Header()
+            self.err_hdr["EXTNAME"] = "ERR"
             self.dq_hdr = fits.Header()
+            self.dq_hdr["EXTNAME"] = "DQ"
 
             self.hdu_list = fits.HDUList()
             self.hdu_names = ["ERR", "DQ"]
-- 
2.43.0


From 0652642d2d9bfcb3c08ca8395a28f06951810bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:42 +0000
Subject: [PATCH 12/44] fix: report configuration files that cannot be read

ConfigParser.read() silently skips files it fails to open, so a read error made
start-up continue with default settings and drop the settings of a legacy file.
---
 corgidrp/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/corgidrp/__init__.py b/corgidrp/__init__.py
index 21912c4..259489a 100644
--- a/corgidrp/__init__.py
+++ b/corgidrp/__init__.py
@@ -22,7 +22,8 @@ def create_config_dir():
         os.replace(config_folder, legacy_config)
     if os.path.isfile(legacy_config):
         oldconfig = configparser.ConfigParser()
-        oldconfig.read(legacy_config)
+        with open(legacy_config) as f: # unlike config.read(), don't ignore a file that can't be read
+            oldconfig.read_file(f)
     else:
         oldconfig = None
 
@@ -70,7 +71,9 @@ def update_pipeline_settings():
     # load in default caldbs based on configuration file
     config_filepath = os.path.join(pathlib.Path.home(), ".corgidrp", "corgidrp.cfg")
     config = configparser.ConfigParser()
-    config.read(config_filepath)
+    if os.path.exists(config_filepath):
+        with open(config_filepath) as f: # unlike config.read(), don't ignore a file that can't be read
+            config.read_file(f)
 
     _bool_map = {"true" : True, "false" : False}
 
-- 
2.43.0


From 58601f588c535125a5a0de73d32aa4dbf8fd63cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 13/44] fix: keep the frames of a dataset linked to its cube
 when a subset is taken

Indexing or splitting a dataset pointed its frames to the arrays of the subset, so
that edits of the frames and of the stacked arrays no longer saw each other.
---
 corgidrp/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 0119573..764148a 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -83,7 +83,8 @@ class Dataset():
             return self.frames[indices]
         else:
             # return a subset of the dataset
-            return Dataset(self.frames[indices])
+            # with its own frame objects, so that the frames of this dataset keep pointing to the data in its cube
+            return Dataset([copy.copy(frame) for frame in self.frames[indices]])
 
     def __len__(self):
         return len(self.frames)
-- 
2.43.0


From f28c884239be1d12a6e6c5f92fa8d5e5dc9fc06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 14/44] fix: share the data of neighbouring frames between a
 dataset and its subsets

---
 corgidrp/data.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 764148a..e9ccca2 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -84,7 +84,19 @@ class Dataset():
         else:
             # return a subset of the dataset
             # with its own frame objects, so that the frames of this dataset keep pointing to the data in its cube
-            return Dataset([copy.copy(frame) for frame in self.frames[indices]])
+            subset = Dataset([copy.copy(frame) for frame in self.frames[indices]])
+            # neighbouring frames share their data with this dataset, as with slices of an array
+            positions = np.arange(len(self))[indices]
+            if len(positions) > 0 and np.all(np.diff(positions) == 1):
+                shared = slice(positions[0], positions[-1] + 1)
+                subset.all_data = self.all_data[shared]
+                subset.all_err = self.all_err[shared]
+                subset.all_dq = self.all_dq[shared]
+                for i, frame in enumerate(subset.frames):
+                    frame.data = subset.all_data[i]
+                    frame.err = subset.all_err[i]
+                    frame.dq = subset.all_dq[i]
+            return subset
 
     def __len__(self):
         return len(self.frames)
-- 
2.43.0


From 297c3b97c5cacf352cf26be39d2e7ab173d40fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:57 +0000
Subject: [PATCH 15/44] fix: fluxcal leaves headers and frames of its input
 alone

---
 corgidrp/fluxcal.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/corgidrp/fluxcal.py b/corgidrp/fluxcal.py
index 8eaea3e..b6b894b 100644
--- a/corgidrp/fluxcal.py
+++ b/corgidrp/fluxcal.py
@@ -453,7 +453,7 @@ def calibrate_fluxcal_aper(dataset_or_image, flux_or_irr = 'flux', phot_kwargs=N
         dataset = dataset_or_image
     else:
         image = dataset_or_image
-        dataset = corgidrp.data.Dataset([image])
+        dataset = corgidrp.data.Dataset([image.copy(copy_data=False)])
     
     if phot_kwargs is None:
         phot_kwargs = {
@@ -477,14 +477,17 @@ def calibrate_fluxcal_aper(dataset_or_image, flux_or_irr = 'flux', phot_kwargs=N
     calspec_filepath = get_calspec_file(star_name) 
     flux_ref = read_cal_spec(calspec_filepath, wave)
     
+    # the calibration gets its own headers, those of the input stay as they are
+    ext_hdr = image.ext_hdr.copy()
+    err_hdr = fits.Header()
     if flux_or_irr == 'flux':
         flux = calculate_band_flux(filter_trans, flux_ref, wave)
-        image.ext_hdr['BUNIT'] = 'erg/(s * cm^2 * AA)/(electron/s)'
-        image.err_hdr['BUNIT'] = 'erg/(s * cm^2 * AA)/(electron/s)'
+        ext_hdr['BUNIT'] = 'erg/(s * cm^2 * AA)/(electron/s)'
+        err_hdr['BUNIT'] = 'erg/(s * cm^2 * AA)/(electron/s)'
     elif flux_or_irr == 'irr':
         flux = calculate_band_irradiance(filter_trans, flux_ref, wave)
-        image.ext_hdr['BUNIT'] = 'erg/(s * cm^2)/(electron/s)'
-        image.err_hdr['BUNIT'] = 'erg/(s * cm^2)/(electron/s)'
+        ext_hdr['BUNIT'] = 'erg/(s * cm^2)/(electron/s)'
+        err_hdr['BUNIT'] = 'erg/(s * cm^2)/(electron/s)'
     else:
         raise ValueError("Invalid flux method. Choose 'flux' or 'irr'.")
     
@@ -500,8 +503,9 @@ def calibrate_fluxcal_aper(dataset_or_image, flux_or_irr = 'flux', phot_kwargs=N
     fluxcal_obj = corgidrp.data.FluxcalFactor(
         np.array([[fluxcal_fac]]),
         err=np.array([[[fluxcal_fac_err]]]),
-        pri_hdr=image.pri_hdr,
-        ext_hdr=image.ext_hdr,
+        pri_hdr=image.pri_hdr.copy(),
+        ext_hdr=ext_hdr,
+        err_hdr=err_hdr,
         input_dataset=dataset
     )
 
@@ -556,7 +560,7 @@ def calibrate_fluxcal_gauss2d(dataset_or_image, flux_or_irr = 'flux', phot_kwarg
         dataset = dataset_or_image
     else:
         image = dataset_or_image
-        dataset = corgidrp.data.Dataset([image])
+        dataset = corgidrp.data.Dataset([image.copy(copy_data=False)])
     
     if phot_kwargs is None:
         phot_kwargs = {
@@ -576,14 +580,17 @@ def calibrate_fluxcal_gauss2d(dataset_or_image, flux_or_irr = 'flux', phot_kwarg
     calspec_filepath = get_calspec_file(star_name)
     flux_ref = read_cal_spec(calspec_filepath, wave)
     
+    # the calibration gets its own headers, those of the input stay as they are
+    ext_hdr = image.ext_hdr.copy()
+    err_hdr = fits.Header()
     if flux_or_irr == 'flux':
         flux = calculate_band_flux(filter_trans, flux_ref, wave)
-        image.ext_hdr['BUNIT'] = 'erg/(s * cm^2 * AA)/(electron/s)'
-        image.err_hdr['BUNIT'] = 'erg/(s * cm^2 * AA)/(electron/s)'
+        ext_hdr['BUNIT'] = 'erg/(s * cm^2 * AA)/(electron/s)'
+        err_hdr['BUNIT'] = 'erg/(s * cm^2 * AA)/(electron/s)'
     elif flux_or_irr == 'irr':
         flux = calculate_band_irradiance(filter_trans, flux_ref, wave)
-        image.ext_hdr['BUNIT'] = 'erg/(s * cm^2)/(electron/s)'
-        image.err_hdr['BUNIT'] = 'erg/(s * cm^2)/(electron/s)'
+        ext_hdr['BUNIT'] = 'erg/(s * cm^2)/(electron/s)'
+        err_hdr['BUNIT'] = 'erg/(s * cm^2)/(electron/s)'
     else:
         raise ValueError("Invalid flux method. Choose 'flux' or 'irr'.")
     
@@ -598,8 +605,9 @@ def calibrate_fluxcal_gauss2d(dataset_or_image, flux_or_irr = 'flux', phot_kwarg
     fluxcal_obj = corgidrp.data.FluxcalFactor(
         np.array([[fluxcal_fac]]),
         err=np.array([[[fluxcal_fac_err]]]),
-        pri_hdr=image.pri_hdr,
-        ext_hdr=image.ext_hdr,
+        pri_hdr=image.pri_hdr.copy(),
+        ext_hdr=ext_hdr,
+        err_hdr=err_hdr,
         input_dataset=dataset
     )
     
-- 
2.43.0


From cd51f758be5907af837fd956e7638e38bd5672b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:57 +0000
Subject: [PATCH 16/44] fix: calibration products get their own headers instead
 of the input's

---
 corgidrp/calibrate_kgain.py       |  4 ++--
 corgidrp/calibrate_nonlin.py      |  4 ++--
 corgidrp/corethroughput.py        |  4 ++--
 corgidrp/darks.py                 | 10 +++++-----
 corgidrp/nd_filter_calibration.py |  4 ++--
 corgidrp/pump_trap_calibration.py |  4 ++--
 6 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/corgidrp/calibrate_kgain.py b/corgidrp/calibrate_kgain.py
index 8c4c99b..d9371d5 100644
--- a/corgidrp/calibrate_kgain.py
+++ b/corgidrp/calibrate_kgain.py
@@ -772,8 +772,8 @@ def calibrate_kgain(dataset_kgain,
              compiled_binned_shot_deviations]
     ptc = np.column_stack(ptc_list)
 
-    prhd = dataset_kgain.frames[0].pri_hdr
-    exthd = dataset_kgain.frames[0].ext_hdr
+    prhd = dataset_kgain.frames[0].pri_hdr.copy()
+    exthd = dataset_kgain.frames[0].ext_hdr.copy()
     # Read noise and error
     exthd['RN'] = mean_rn_gauss_e
     
diff --git a/corgidrp/calibrate_nonlin.py b/corgidrp/calibrate_nonlin.py
index 3abe5d0..7e03b97 100644
--- a/corgidrp/calibrate_nonlin.py
+++ b/corgidrp/calibrate_nonlin.py
@@ -822,8 +822,8 @@ def calibrate_nonlin(dataset_nl,
     nonlin_data=np.insert(nonlin_arr3, 0, actual_gain_arr).reshape(n_col,n_row)
     
     # Return NonLinearity instance
-    prhd = dataset_nl.frames[0].pri_hdr
-    exthd = dataset_nl.frames[0].ext_hdr
+    prhd = dataset_nl.frames[0].pri_hdr.copy()
+    exthd = dataset_nl.frames[0].ext_hdr.copy()
     exthd['HISTORY'] = f"Non-linearity calibration derived from a set of frames on {exthd['DATETIME']}"
     # Just for the purpose of getting the instance created
     nonlin = data.NonLinearityCalibration(nonlin_data,
diff --git a/corgidrp/corethroughput.py b/corgidrp/corethroughput.py
index 1f33ce9..d2e26fa 100644
--- a/corgidrp/corethroughput.py
+++ b/corgidrp/corethroughput.py
@@ -301,7 +301,7 @@ def generate_psf_cube(
             ' locations.'))
 
     # PSF cube header
-    ext_hdr = dataset[0].ext_hdr
+    ext_hdr = dataset[0].ext_hdr.copy()
     # Add history
     ext_hdr['HISTORY'] = ('Core Throughput calibration derived from a '
         f'set of frames from {dataset[0].ext_hdr["DATETIME"]} to '
@@ -315,7 +315,7 @@ def generate_psf_cube(
     psf_hdu = fits.ImageHDU(data=psf_cube, header=ext_hdr, name='PSFCUBE')
 
     # Data quality cube
-    dq_hdr = dataset[0].dq_hdr
+    dq_hdr = dataset[0].dq_hdr.copy()
     # Add specific information
     dq_hdr['COMMENT'] = 'Data quality for each image' 
     # Add EXTNAME
diff --git a/corgidrp/darks.py b/corgidrp/darks.py
index eb1b9aa..e7c747d 100644
--- a/corgidrp/darks.py
+++ b/corgidrp/darks.py
@@ -245,9 +245,9 @@ def build_trad_dark(dataset, detector_params, detector_regions=None, full_frame=
         data = mean_frame
 
     # get from one of the noise maps and modify as needed
-    prihdr = dataset.frames[0].pri_hdr
-    exthdr = dataset.frames[0].ext_hdr
-    errhdr = dataset.frames[0].err_hdr
+    prihdr = dataset.frames[0].pri_hdr.copy()
+    exthdr = dataset.frames[0].ext_hdr.copy()
+    errhdr = dataset.frames[0].err_hdr.copy()
     exthdr['NAXIS1'] = data.shape[1]
     exthdr['NAXIS2'] = data.shape[0]
     exthdr['DATATYPE'] = 'Dark'
@@ -721,8 +721,8 @@ def calibrate_darks_lsq(dataset, detector_params, detector_regions=None):
     # using these noise maps, just bundle stacks_err in with C_std_map
     C_std_map_combo = np.sqrt(CIC_std_map**2 + stacks_err**2)
     # assume headers from a dataset frame for headers of calibrated noise map
-    prihdr = datasets[0].frames[0].pri_hdr
-    exthdr = datasets[0].frames[0].ext_hdr
+    prihdr = datasets[0].frames[0].pri_hdr.copy()
+    exthdr = datasets[0].frames[0].ext_hdr.copy()
     exthdr['EXPTIME'] = None
     if 'EMGAIN_M' in exthdr.keys():
         exthdr['EMGAIN_M'] = None
diff --git a/corgidrp/nd_filter_calibration.py b/corgidrp/nd_filter_calibration.py
index 0a97c93..0fbf55e 100644
--- a/corgidrp/nd_filter_calibration.py
+++ b/corgidrp/nd_filter_calibration.py
@@ -329,8 +329,8 @@ def create_nd_sweet_spot_dataset(aggregated_sweet_spot_data, common_metadata, od
     final_sweet_spot_data = aggregated_sweet_spot_data.copy()
 
     # Build the NDFilterSweetSpotDataset, use info from last/ most recent
-    pri_hdr = input_dataset[-1].pri_hdr
-    ext_hdr = input_dataset[-1].ext_hdr
+    pri_hdr = input_dataset[-1].pri_hdr.copy()
+    ext_hdr = input_dataset[-1].ext_hdr.copy()
 
     # keeping the common metadata because if you do provide dim stars as part of the dataset
     # and grab the last header you might get the FPAM info of a frame with no ND filter in.
diff --git a/corgidrp/pump_trap_calibration.py b/corgidrp/pump_trap_calibration.py
index adca7b3..0aa60bf 100644
--- a/corgidrp/pump_trap_calibration.py
+++ b/corgidrp/pump_trap_calibration.py
@@ -3289,8 +3289,8 @@ def create_TrapCalibration_from_trap_dict(trap_dict,input_dataset):
         trap_cal_array[i,9] = dict_entry['tau at input T']
 
     #Great the header from the first file
-    first_file_pri_hdr = input_dataset[0].pri_hdr
-    first_file_ext_hdr = input_dataset[0].ext_hdr
+    first_file_pri_hdr = input_dataset[0].pri_hdr.copy()
+    first_file_ext_hdr = input_dataset[0].ext_hdr.copy()
 
     trapcal = TrapCalibration(trap_cal_array,pri_hdr = first_file_pri_hdr, 
                     ext_hdr = first_file_ext_hdr, 
-- 
2.43.0


From 1a1b0e452daff8ff8b462fc8261e44e7a3fd3d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:57 +0000
Subject: [PATCH 17/44] fix: on-sky flat works on copies of the input pixels
 and headers

---
 corgidrp/flat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/flat.py b/corgidrp/flat.py
index 4cf5dbd..7cfeb5b 100644
--- a/corgidrp/flat.py
+++ b/corgidrp/flat.py
@@ -229,9 +229,9 @@ def create_onsky_flatfield(dataset, planet=None,band=None,up_radius=55,im_size=N
 
     smooth_images=[]; raster_images_cent=[]; cent=[]; act_cents=[]; frames=[];
     for j in range(len(dataset)):
-        planet_image=dataset[j].data
-        prihdr=dataset[j].pri_hdr
-        exthdr=dataset[j].ext_hdr
+        planet_image=dataset[j].data.copy()
+        prihdr=dataset[j].pri_hdr.copy()
+        exthdr=dataset[j].ext_hdr.copy()
         image_size=np.shape(planet_image)
         centroid = centr.centroid_com(planet_image)
         centroid[np.isnan(centroid)]=0
-- 
2.43.0


From ff3e6eca2afdc8ced442efb539e9b477b562f9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:57 +0000
Subject: [PATCH 18/44] fix: photon counting keeps the frames of its input
 attached to it

---
 corgidrp/photon_counting.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/corgidrp/photon_counting.py b/corgidrp/photon_counting.py
index 5f8978e..884e1f0 100644
--- a/corgidrp/photon_counting.py
+++ b/corgidrp/photon_counting.py
@@ -150,8 +150,7 @@ def get_pc_mean(input_dataset, pc_master_dark=None, T_factor=None, pc_ecount_max
     index_of_last_frame_used = num_bins*(len(input_dataset)//num_bins)
     # this for loop ignores the remainder from the division above
     for i in range(num_bins):
-        subset_frames = input_dataset.frames[bin_size*i:bin_size*(i+1)]
-        sub_dataset = data.Dataset(subset_frames)
+        sub_dataset = input_dataset[bin_size*i:bin_size*(i+1)]
 
         test_dataset, _ = sub_dataset.copy().split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR', 'RN'])
         if len(test_dataset) > 1:
-- 
2.43.0


From 7389b5a814701907b73029bc65a00e56c4133310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:57 +0000
Subject: [PATCH 19/44] fix: boresight calibration leaves its input alone

---
 corgidrp/astrom.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 36e9d18..df819a3 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -1080,7 +1080,7 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
                 file_name = input_dataset[count].filename
 
             comb = np.mean(sub_array, axis=0)
-            im = corgidrp.data.Image(comb, pri_hdr=input_dataset[count - frames_to_combine].pri_hdr, ext_hdr=input_dataset[0].ext_hdr)
+            im = corgidrp.data.Image(comb, pri_hdr=input_dataset[count - frames_to_combine].pri_hdr.copy(), ext_hdr=input_dataset[0].ext_hdr.copy())
             im.filename = file_name
             image_objects.append(im)
         
@@ -1094,7 +1094,7 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
     corrected_positions_boresight = []      # place to hold the corrected target position based on boresight offsets for each frame
 
     for i in range(len(dataset)):
-        in_dataset = corgidrp.data.Dataset([dataset[i]])
+        in_dataset = corgidrp.data.Dataset([dataset[i].copy(copy_data=False)])
         image = dataset[i].data
 
         # call the target coordinates from the image header
@@ -1120,7 +1120,7 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
 
         # return a single AstrometricCalibration data file
         astrom_data = np.array([corr_ra, corr_dec, cal_properties[0], cal_properties[0], cal_properties[1], ra, dec, np.inf, np.inf])
-        astrom_cal = corgidrp.data.AstrometricCalibration(astrom_data, pri_hdr=dataset[i].pri_hdr, ext_hdr=dataset[i].ext_hdr, input_dataset=in_dataset)
+        astrom_cal = corgidrp.data.AstrometricCalibration(astrom_data, pri_hdr=dataset[i].pri_hdr.copy(), ext_hdr=dataset[i].ext_hdr.copy(), input_dataset=in_dataset)
         # change the filename here since the astrom_cals will be averaged later and arent individually saved ('_AST_CAL' will be added to filename twice otherwise)
         astrom_cal.filename = astrom_cal.filename.split("_AST_CAL")[0] + '.fits'
         astroms.append(astrom_cal)
@@ -1150,7 +1150,7 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
     astromcal_data = np.concatenate((np.array([corr_pos_ra, corr_pos_dec, avg_platescale_x, avg_platescale_y, avg_northangle, avg_ra, avg_dec]), np.array(distortion_coeffs), np.array([order])), axis=0)
 
     astroms_dataset = corgidrp.data.Dataset(astroms)
-    avg_cal = corgidrp.data.AstrometricCalibration(astromcal_data, pri_hdr=input_dataset[0].pri_hdr, ext_hdr=input_dataset[0].ext_hdr, input_dataset=astroms_dataset)
+    avg_cal = corgidrp.data.AstrometricCalibration(astromcal_data, pri_hdr=input_dataset[0].pri_hdr.copy(), ext_hdr=input_dataset[0].ext_hdr.copy(), input_dataset=astroms_dataset)
     # add the corrected RA/DEC for each frame to the ext_hdr
     for i, corr in enumerate(corrected_positions_boresight):
         name = 'F'+str(i)+'POS'
@@ -1160,8 +1160,6 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
     history_msg = "Boresight calibration completed"
     astrom_cal_dataset = corgidrp.data.Dataset([avg_cal])
     astrom_cal_dataset.update_after_processing_step(history_msg)
-    ## history message should be added to the input dataset(?)
-    input_dataset.update_after_processing_step(history_msg)
 
     return avg_cal
 
-- 
2.43.0


From 4a904ceb8ccfcc389b3ec9cf15e8b6a9eadc3ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:57 +0000
Subject: [PATCH 20/44] fix: bad pixel map and companion measurement keep the
 frames of their input attached

---
 corgidrp/bad_pixel_calibration.py | 4 ++--
 corgidrp/measure_companions.py    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/bad_pixel_calibration.py b/corgidrp/bad_pixel_calibration.py
index 2a95c0f..8697ce9 100644
--- a/corgidrp/bad_pixel_calibration.py
+++ b/corgidrp/bad_pixel_calibration.py
@@ -23,7 +23,7 @@ def create_bad_pixel_map(dataset, master_dark, master_flat, dthresh = 5., ffrac
     """
     if isinstance(master_dark, DetectorNoiseMaps):
         noise_map = master_dark
-        master_dark = build_synthesized_dark(Dataset([master_flat]), noise_map)
+        master_dark = build_synthesized_dark(Dataset([master_flat.copy(copy_data=False)]), noise_map)
         if dark_outputdir is not None:
             master_dark.save(filedir=dark_outputdir)
 
@@ -50,7 +50,7 @@ def create_bad_pixel_map(dataset, master_dark, master_flat, dthresh = 5., ffrac
     dark_ext_hdr['DATALVL']  = 'CAL'
     dark_ext_hdr['HISTORY'] = "Bad Pixel Map created using {} and {}".format(master_dark.filename,master_flat.filename)
 
-    input_dataset = Dataset([master_dark,master_flat])
+    input_dataset = Dataset([master_dark.copy(copy_data=False),master_flat.copy(copy_data=False)])
 
     #Make the BadPixelMap object
     badpixelmap = BadPixelMap(combined_badpixels,pri_hdr=dark_hdr,ext_hdr=dark_ext_hdr,input_dataset=input_dataset)
diff --git a/corgidrp/measure_companions.py b/corgidrp/measure_companions.py
index 08384d9..33e0d55 100644
--- a/corgidrp/measure_companions.py
+++ b/corgidrp/measure_companions.py
@@ -103,7 +103,7 @@ def measure_companions(
 
     
     # Create a for the single psf subtraction for API purposes
-    psf_sub_dataset = Dataset([psf_sub_image])
+    psf_sub_dataset = Dataset([psf_sub_image.copy(copy_data=False)])
 
     # Measure the flux of each companion
     results = []
-- 
2.43.0


From baaa98cd7de995606d9fb30de81b9a8adcd3e6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:57 +0000
Subject: [PATCH 21/44] fix: star center search does not change the default
 parameters of the module

---
 corgidrp/star_center.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/corgidrp/star_center.py b/corgidrp/star_center.py
index fbae097..16f7b64 100644
--- a/corgidrp/star_center.py
+++ b/corgidrp/star_center.py
@@ -1,3 +1,4 @@
+import copy
 import numpy as np
 from scipy.optimize import minimize
 
@@ -166,6 +167,9 @@ def update_parameters(params, new_values):
         >>> update_parameters(params, new_values)
         KeyError: "Subkey 'w' is not a valid parameter under key 'b'."
     """
+    # the parameters passed in (e.g. the defaults of this module) stay as they are
+    params = copy.deepcopy(params)
+
     for key, subdict in new_values.items():
         if key not in params:
             raise KeyError(f"Key '{key}' is not a valid parameter.")
-- 
2.43.0


From 3f5c73e5774cc996defd9d0e11e2db82926df483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:57 +0000
Subject: [PATCH 22/44] fix: flagging NaNs keeps the flags a pixel already has

---
 corgidrp/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/detector.py b/corgidrp/detector.py
index 77b3c0d..253f0bc 100644
--- a/corgidrp/detector.py
+++ b/corgidrp/detector.py
@@ -608,6 +608,6 @@ def flag_nans(dataset,flag_val=1):
 
     # mask bad pixels
     bad = np.isnan(dataset_out.all_data)
-    dataset_out.all_dq[bad] = flag_val
+    dataset_out.all_dq[bad] = np.bitwise_or(dataset_out.all_dq[bad].astype(int), flag_val)
 
     return dataset_out
-- 
2.43.0


From 2a670cbf0f4a6edda227ff99c4cc0b3dfb8aae19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 23/44] fix: converting to electrons scales the individual
 error layers too

---
 corgidrp/l2a_to_l2b.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l2a_to_l2b.py b/corgidrp/l2a_to_l2b.py
index 3b03767..a121b5d 100644
--- a/corgidrp/l2a_to_l2b.py
+++ b/corgidrp/l2a_to_l2b.py
@@ -273,7 +273,7 @@ def convert_to_electrons(input_dataset, k_gain):
     kgain = k_gain.value #extract from caldb
     kgainerr = k_gain.error[0]
     # x = c*kgain, where c (counts beforehand) and kgain both have error, so do propogation of error due to the product of 2 independent sources
-    kgain_error = np.zeros_like(input_dataset.all_err)
+    kgain_error = kgain_dataset.all_err*kgain # the individual error terms scale with the data
     kgain_tot_err = (np.sqrt((kgain*kgain_dataset.all_err[:,0,:,:])**2 + (kgain_cube*kgainerr)**2))
     kgain_error[:,0,:,:] = kgain_tot_err
     kgain_cube *= kgain
-- 
2.43.0


From c25b2f71dac48d9a285009f01ccc35114ef1f909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 24/44] fix: correct_bad_pixels keeps flags above the eighth
 bit

---
 corgidrp/l2a_to_l2b.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l2a_to_l2b.py b/corgidrp/l2a_to_l2b.py
index a121b5d..5d53594 100644
--- a/corgidrp/l2a_to_l2b.py
+++ b/corgidrp/l2a_to_l2b.py
@@ -367,7 +367,7 @@ def correct_bad_pixels(input_dataset, bp_mask):
 
     data = input_dataset.copy()
     data_cube = data.all_data
-    dq_cube = data.all_dq.astype(np.uint8)
+    dq_cube = data.all_dq.astype(np.uint16)
 
     for i in range(data_cube.shape[0]):
         # combine DQ and BP masks
-- 
2.43.0


From 818c05308c41510039ec5cefd40b8a25ac12094b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 25/44] fix: cropped frames can be saved

---
 corgidrp/l3_to_l4.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 0305bb4..29a3b63 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -361,6 +361,10 @@ def crop(input_dataset, sizexy=None, centerxy=None):
             raise ValueError('Crop function only supports 2D or 3D frame data.')
 
         # Update headers
+        # (axis lengths without their number cannot be saved)
+        exthdr["NAXIS"] = cropped_frame_data.ndim
+        dqhdr["NAXIS"] = cropped_frame_dq.ndim
+        errhdr["NAXIS"] = cropped_frame_err.ndim
         exthdr["NAXIS1"] = sizexy[0]
         exthdr["NAXIS2"] = sizexy[1]
         dqhdr["NAXIS1"] = sizexy[0]
-- 
2.43.0


From 0eec6c92fb5d3ebcf86a59c07b4a92551d1b91dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 26/44] fix: northup rotates every error layer

---
 corgidrp/l3_to_l4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 29a3b63..f5c3a79 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -716,7 +716,7 @@ def northup(input_dataset,use_wcs=True,rot_center='im_center'):
 
         ## HDU ERR ##
         err_data = processed_data.err
-        err_derot = np.expand_dims(rotate(err_data[0],roll_angle,(xcen,ycen)), axis=0) # err data shape is 1x1024x1024
+        err_derot = np.array([rotate(err_layer,roll_angle,(xcen,ycen)) for err_layer in err_data]) # err data shape is nx1024x1024
         new_all_err.append(err_derot)
         #############
 
-- 
2.43.0


From 6218f3c4ad3030aa12eae2f417d6fc2b11bca330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:05 +0000
Subject: [PATCH 27/44] fix: generating a recipe leaves the template alone

---
 corgidrp/walker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index 4204983..0b6e98a 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -1,4 +1,5 @@
 import os
+import copy
 import json
 import astropy.time as time
 import warnings
@@ -148,7 +149,7 @@ def autogen_recipe(filelist, outputdir, template=None):
     recipe_list = []
     for template in recipe_template_list:
         # create the personalized recipe
-        recipe = template.copy()
+        recipe = copy.deepcopy(template) # the template can be used again
         recipe["template"] = False
 
         for filename in filelist:
-- 
2.43.0


From 5b900d144aa0eb58396b32ea1c62ad7756f00a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:05 +0000
Subject: [PATCH 28/44] fix: only calibrations marked AUTOMATIC are looked up

---
 corgidrp/walker.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index 0b6e98a..0e5a728 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -203,7 +203,9 @@ def _fill_in_calib_files(step, this_caldb, ref_frame):
     for calib in step["calibs"]:
         # order matters, so only one calibration file per dictionary
 
-        if "AUTOMATIC" in step["calibs"][calib].upper():
+        # no calibration (None) and explicit file paths stay as they are
+        requested = [word.strip() for word in (step["calibs"][calib] or "").upper().split(",")]
+        if "AUTOMATIC" in requested:
             calib_dtype = data.datatypes[calib]
 
             # try to look up the best calibration, but it could raise an error
@@ -211,7 +213,7 @@ def _fill_in_calib_files(step, this_caldb, ref_frame):
                 best_cal_file = this_caldb.get_calib(ref_frame, calib_dtype)
                 best_cal_filepath = best_cal_file.filepath
             except ValueError as e:
-                if "OPTIONAL" in step["calibs"][calib].upper():
+                if "OPTIONAL" in requested:
                     # couldn't find a good cal but this one is optional, so we are going to put nothing in there
                     # this means the step function can run without this calibration file
                     best_cal_filepath = None
-- 
2.43.0


From 5c29e84b333f805c010e763dc36c0af5d8c1d7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:05 +0000
Subject: [PATCH 29/44] fix: skip every step that is marked to be skipped

---
 corgidrp/walker.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index 0e5a728..6d9d70f 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -387,6 +387,10 @@ def run_recipe(recipe, save_recipe_file=True):
     # execute each pipeline step
     for i, step in enumerate(recipe["steps"]):
         print("Walker step {0}/{1}: {2}".format(i+1, tot_steps, step["name"]))
+        # edge case if this step has been specified to be skipped
+        if "skip" in step and step["skip"]:
+            continue
+
         if step["name"].lower() == "save":
             # special save instruction
             
@@ -401,10 +405,6 @@ def run_recipe(recipe, save_recipe_file=True):
         else:
             step_func = all_steps[step["name"]]
 
-            # edge case if this step has been specified to be skipped
-            if "skip" in step and step["skip"]:
-                continue
-
             other_args = ()
             if "calibs" in step:
                 # if JIT calibration resolving is toggled, figure out the calibrations here
@@ -424,6 +424,9 @@ def run_recipe(recipe, save_recipe_file=True):
                     for frame in list_of_frames:
                         frame.ext_hdr["RECIPE"] = json.dumps(recipe)
 
+                    # a required calibration may be missing
+                    if "skip" in step and step["skip"]:
+                        continue
 
                 # load the calibration files in from disk
                 for calib in step["calibs"]:
-- 
2.43.0


From 2198e6a0f09d616fb30f764cc3ab390e49318ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:05 +0000
Subject: [PATCH 30/44] fix: recipes without inputs can resolve calibrations
 just in time

---
 corgidrp/walker.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index 6d9d70f..e1c6774 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -415,6 +415,10 @@ def run_recipe(recipe, save_recipe_file=True):
                     if isinstance(curr_dataset, data.Dataset):
                         ref_image = curr_dataset[0]
                         list_of_frames = curr_dataset
+                    elif not recipe["inputs"] and isinstance(curr_dataset, list):
+                        # no input data
+                        ref_image = None
+                        list_of_frames = []
                     else:
                         ref_image = curr_dataset
                         list_of_frames = [curr_dataset]
-- 
2.43.0


From be2317c0dc5f541e8e2de140b5fdfb9db48b3b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:05 +0000
Subject: [PATCH 31/44] fix: pipeline settings of a recipe apply to that recipe
 only

---
 corgidrp/walker.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index e1c6774..82260d0 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -360,11 +360,26 @@ def run_recipe(recipe, save_recipe_file=True):
         # need to load in
         recipe = json.load(open(recipe, "r"))
 
-    # configure pipeline as needed
-    for setting in recipe['drpconfig']:
-        # equivalent to corgidrp.setting = recipe['drpconfig'][setting]
-        setattr(corgidrp, setting, recipe['drpconfig'][setting])
+    # configure pipeline as needed, for the duration of this recipe
+    previous_settings = {setting : getattr(corgidrp, setting) for setting in recipe['drpconfig'] if hasattr(corgidrp, setting)}
+    try:
+        for setting in recipe['drpconfig']:
+            # equivalent to corgidrp.setting = recipe['drpconfig'][setting]
+            setattr(corgidrp, setting, recipe['drpconfig'][setting])
+
+        _execute_recipe(recipe, save_recipe_file=save_recipe_file)
+    finally:
+        for setting in previous_settings:
+            setattr(corgidrp, setting, previous_settings[setting])
+
+def _execute_recipe(recipe, save_recipe_file=True):
+    """
+    Execute the steps of a recipe. Pipeline settings need to be configured already.
 
+    Args:
+        recipe (dict): the already loaded in recipe
+        save_recipe_file (bool): saves the recipe as a JSON file in the outputdir (true by default)
+    """
     # read in data, if not doing bp map
     if recipe["inputs"]:
         filelist = recipe["inputs"]
-- 
2.43.0


From 78be234ebf1b3b69aca63daf0605d96b2d699905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:25 +0000
Subject: [PATCH 32/44] fix: every product saved by a recipe records the recipe
 in its header

---
 corgidrp/walker.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index 82260d0..6becce4 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -415,6 +415,10 @@ def _execute_recipe(recipe, save_recipe_file=True):
             else:
                 suffix = ''
                 
+            # products with headers of their own (e.g. those of a calibration file) also record the recipe
+            for frame in (curr_dataset if isinstance(curr_dataset, data.Dataset) else [curr_dataset]):
+                frame.ext_hdr["RECIPE"] = json.dumps(recipe)
+
             save_data(curr_dataset, recipe["outputdir"], suffix=suffix)
 
         else:
-- 
2.43.0


From eca0ddb03279de846f4f2fff138958ddb1b13357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 33/44] fix: photon-counted darks record only the frames that
 went into them

---
 corgidrp/photon_counting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/photon_counting.py b/corgidrp/photon_counting.py
index 884e1f0..3010929 100644
--- a/corgidrp/photon_counting.py
+++ b/corgidrp/photon_counting.py
@@ -147,7 +147,7 @@ def get_pc_mean(input_dataset, pc_master_dark=None, T_factor=None, pc_ecount_max
     list_new_image = []
     list_err = [] # only used for dark processing case
     list_dq = [] # only used for dark processing case
-    index_of_last_frame_used = num_bins*(len(input_dataset)//num_bins)
+    index_of_last_frame_used = num_bins*bin_size
     # this for loop ignores the remainder from the division above
     for i in range(num_bins):
         sub_dataset = input_dataset[bin_size*i:bin_size*(i+1)]
-- 
2.43.0


From dae30d1d4c9de616c3ea1d8231fb481a1a74360d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 34/44] fix: boresight calibrations record every frame that was
 averaged

---
 corgidrp/astrom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index df819a3..74b10cf 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -1077,11 +1077,12 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
                 file_name = input_dataset[-1].filename
             else:
                 sub_array = data_array[count - frames_to_combine: count]
-                file_name = input_dataset[count].filename
+                file_name = input_dataset[count - 1].filename
 
             comb = np.mean(sub_array, axis=0)
             im = corgidrp.data.Image(comb, pri_hdr=input_dataset[count - frames_to_combine].pri_hdr.copy(), ext_hdr=input_dataset[0].ext_hdr.copy())
             im.filename = file_name
+            im._record_parent_filenames(input_dataset[count - frames_to_combine: count])
             image_objects.append(im)
         
         dataset = corgidrp.data.Dataset(image_objects)
-- 
2.43.0


From 8a60ed0b9f849f4b35f3b3ba66c7c5af2feecd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 35/44] fix: plate scale measured from the same star pairs
 every time

---
 corgidrp/astrom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 74b10cf..2a45f78 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -715,7 +715,8 @@ def compute_platescale_and_northangle(image, source_info, center_coord, center_r
     # create random combinations of stars
     all_combinations = list(compute_combinations(sub_guesses))
     if len(all_combinations) > 200:
-        rand_inds = np.random.randint(low=0, high=len(all_combinations), size=200)
+        # always the same choice, so that the same frame gives the same answer in every process
+        rand_inds = np.random.RandomState(0).randint(low=0, high=len(all_combinations), size=200)
         combo_list = np.array(all_combinations)[rand_inds]
     else:
         combo_list = np.array(all_combinations)
-- 
2.43.0


From 4d60ebc349298af732cc898b890055197ec0a3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 36/44] fix: darks made from combined frames record the files
 of all of them

---
 corgidrp/darks.py           | 4 ++++
 corgidrp/photon_counting.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/corgidrp/darks.py b/corgidrp/darks.py
index e7c747d..b6ccf8b 100644
--- a/corgidrp/darks.py
+++ b/corgidrp/darks.py
@@ -251,6 +251,8 @@ def build_trad_dark(dataset, detector_params, detector_regions=None, full_frame=
     exthdr['NAXIS1'] = data.shape[1]
     exthdr['NAXIS2'] = data.shape[0]
     exthdr['DATATYPE'] = 'Dark'
+    # what went into the first frame alone is not what went into the dark
+    exthdr.remove('DRPNFILE', ignore_missing=True)
 
     master_dark = Dark(data, prihdr, exthdr, dataset, err, dq, errhdr)
     master_dark.ext_hdr['BUNIT'] = 'Detected Electrons'
@@ -734,6 +736,8 @@ def calibrate_darks_lsq(dataset, detector_params, detector_regions=None):
     err_hdr['BUNIT'] = 'Detected Electrons'
 
     exthdr['DATATYPE'] = 'DetectorNoiseMaps'
+    # what went into the first frame alone is not what went into the noise maps
+    exthdr.remove('DRPNFILE', ignore_missing=True)
 
     # bias offset
     exthdr['B_O'] = bias_offset
diff --git a/corgidrp/photon_counting.py b/corgidrp/photon_counting.py
index 3010929..a9dc692 100644
--- a/corgidrp/photon_counting.py
+++ b/corgidrp/photon_counting.py
@@ -325,6 +325,8 @@ def get_pc_mean(input_dataset, pc_master_dark=None, T_factor=None, pc_ecount_max
         return pc_ill_dataset
     else:
         ext_hdr['PC_STAT'] = 'photon-counted master dark'
+        # what went into one frame alone is not what went into the dark
+        ext_hdr.remove('DRPNFILE', ignore_missing=True)
         ext_hdr['NAXIS1'] = combined_pc_mean.shape[0]
         ext_hdr['NAXIS2'] = combined_pc_mean.shape[1]
         ext_hdr['PCTHRESH'] = thresh
-- 
2.43.0


From 48ef958474d92fbc82a8bbaaac42a24aa8343754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:54 +0000
Subject: [PATCH 37/44] fix: every raster image has the same weight in an
 on-sky flat

---
 corgidrp/flat.py | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/corgidrp/flat.py b/corgidrp/flat.py
index 7cfeb5b..a8a7704 100644
--- a/corgidrp/flat.py
+++ b/corgidrp/flat.py
@@ -121,6 +121,7 @@ def combine_flatfield_rasters(residual_images,cent=None,planet=None,band=None,im
     n = im_size
     
     full_residuals = np.zeros((n,n))
+    n_residuals = np.zeros((n,n), dtype=int)
     err_residuals= np.zeros((n,n))
     if planet_rad is None:
         if planet.lower() == 'neptune':
@@ -134,38 +135,28 @@ def combine_flatfield_rasters(residual_images,cent=None,planet=None,band=None,im
          elif band[0] == "4":
             rad_mask = 1.75
     
-    aperture = CircularAperture((np.ceil(rad_mask), np.ceil(rad_mask)), r=rad_mask)
-    mask= aperture.to_mask().data
     rad = planet_rad
     for i in np.arange(len(residual_images)):
         nx = np.arange(0,residual_images[i].shape[1])
         ny = np.arange(0,residual_images[i].shape[0])
         nxx,nyy = np.meshgrid(nx,ny)
         nrr = np.sqrt((nxx-rad-5)**2 + (nyy-rad-5)**2)
-        nrr_copy = nrr.copy();  nrr_err_copy=nrr.copy()
-        nrr_copy[nrr<rad] = residual_images[i][nrr<rad]
-        nrr_copy[nrr>=rad] = None
         ymin = int(cent[i][0])
         ymax = int(cent[i][1])
         xmin = int(cent[i][2])
         xmax = int(cent[i][3])
-        
-        bool_innotzero = np.logical_and(nrr<rad,full_residuals[ymin:ymax,xmin:xmax]!=0)
-        bool_iniszero = np.logical_and(nrr<rad,full_residuals[ymin:ymax,xmin:xmax]==0)
-        bool_outisnotzero = np.logical_and(nrr>=rad,full_residuals[ymin:ymax,xmin:xmax]!=0)
-        
-        full_residuals[ymin:ymax,xmin:xmax][bool_innotzero] = (nrr_copy[bool_innotzero] + full_residuals[ymin:ymax,xmin:xmax][bool_innotzero])/2
-        full_residuals[ymin:ymax,xmin:xmax][bool_iniszero] = nrr_copy[bool_iniszero]
-        full_residuals[ymin:ymax,xmin:xmax][bool_outisnotzero] = full_residuals[ymin:ymax,xmin:xmax][bool_outisnotzero]
 
-    
-        full_residuals_resel = ndimage.convolve(full_residuals,mask)
-        
-        
-    
+        # every raster image that covers a pixel has the same weight in its average
+        inside = nrr<rad
+        full_residuals[ymin:ymax,xmin:xmax][inside] += residual_images[i][inside]
+        n_residuals[ymin:ymax,xmin:xmax][inside] += 1
+
+    covered = n_residuals>0
+    full_residuals[covered] /= n_residuals[covered]
+
     full_residuals[full_residuals==0] = None
-    nx = np.arange(0,full_residuals_resel.shape[1])
-    ny = np.arange(0,full_residuals_resel.shape[0])
+    nx = np.arange(0,full_residuals.shape[1])
+    ny = np.arange(0,full_residuals.shape[0])
     nxx,nyy = np.meshgrid(ny,nx)
     nrr = np.sqrt((nxx-n/2)**2 + (nyy-n/2)**2)
     full_residuals[nrr>n_pix]= 1
-- 
2.43.0


From 24d82453e4dcb4ce4dd505ca208253ea2a2c78b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 38/44] fix: frames with a measured gain take part in cosmic
 ray detection with others

---
 corgidrp/l1_to_l2a.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l1_to_l2a.py b/corgidrp/l1_to_l2a.py
index c0d30b6..96c6362 100644
--- a/corgidrp/l1_to_l2a.py
+++ b/corgidrp/l1_to_l2a.py
@@ -230,7 +230,7 @@ def detect_cosmic_rays(input_dataset, detector_params, k_gain = None, sat_thresh
                 emgain = frame.ext_hdr['EMGAIN_A']
             else: # otherwise use commanded EM gain
                 emgain = frame.ext_hdr['EMGAIN_C']
-            emgain_list.append(emgain)
+        emgain_list.append(emgain)
     emgain_arr = np.array(emgain_list)
     fwcpp_e_arr = np.array([detector_params.params['FWC_PP_E'] for frame in crmasked_dataset])
     fwcem_e_arr = np.array([detector_params.params['FWC_EM_E'] for frame in crmasked_dataset])
-- 
2.43.0


From eaf3b839182c672bb6dbb339dd1ce239e908bc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 39/44] fix: frames of the dataset find_star returns stay
 linked to it

---
 corgidrp/l3_to_l4.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index f5c3a79..1704593 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -255,6 +255,9 @@ def find_star(input_dataset,
 
     if drop_satspots_frames:
         dataset = sci_dataset
+    else:
+        # the two datasets above took over the frames of this one: collect them again
+        dataset = data.Dataset(dataset.frames)
 
     history_msg = (
         f"Satellite spots analyzed. Star location at x={star_xy[0]} "
-- 
2.43.0


From e4c8acbcd94aed87ddf07d6784bf255e86e6ddb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 40/44] fix: frames show the dataset's pixels after dividing by
 exposure time

---
 corgidrp/l2b_to_l3.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/corgidrp/l2b_to_l3.py b/corgidrp/l2b_to_l3.py
index e982997..a0731a0 100644
--- a/corgidrp/l2b_to_l3.py
+++ b/corgidrp/l2b_to_l3.py
@@ -89,7 +89,6 @@ def divide_by_exptime(input_dataset):
     for i in range(len(data.frames)):
         exposure_time = float(data.frames[i].ext_hdr['EXPTIME'])
 
-        data.frames[i].data = data.frames[i].data / exposure_time
         # data.frames[i].err = data.frames[i].err / exposure_time
         scale_factor = (1/exposure_time) * np.ones([data.frames[i].err.shape[1], data.frames[i].err.shape[2]])
         # print(data.frames[i].err.shape)
@@ -98,7 +97,7 @@ def divide_by_exptime(input_dataset):
         #data.frames[i].rescale_error(data.frames[i].err, 'normalized by the exposure time')
         data.frames[i].rescale_error(scale_factor, 'normalized by the exposure time')
 
-        all_data_new[i] = data.frames[i].data
+        all_data_new[i] = data.frames[i].data / exposure_time
         all_err_new[i] = data.frames[i].err
 
         data.frames[i].ext_hdr.set('BUNIT', 'photoelectrons/s')
-- 
2.43.0


From bfe098f4014f02e5e26e000a8c6f6ac0b07ba354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 41/44] fix: a dark subtraction step without keywords can be in
 a recipe

---
 corgidrp/walker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index 6becce4..6d0d817 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -170,7 +170,8 @@ def autogen_recipe(filelist, outputdir, template=None):
                 _fill_in_calib_files(step, this_caldb, first_frame)
 
             if step["name"].lower() == "dark_subtraction":
-                if step["keywords"]["outputdir"].upper() == "AUTOMATIC":
+                dark_outputdir = step.get("keywords", {}).get("outputdir") # optional, like all keywords
+                if isinstance(dark_outputdir, str) and dark_outputdir.upper() == "AUTOMATIC":
                     step["keywords"]["outputdir"] = recipe["outputdir"]
 
         recipe_list.append(recipe)
-- 
2.43.0


From a674f6a3161d885747cd33df92122de270ab77d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:34 +0000
Subject: [PATCH 42/44] fix: a calibration database that can't be reached is
 not replaced with a blank one

---
 corgidrp/atomic.py | 45 ++++++++++++++++++++++++++++++++++++++++++++-
 corgidrp/caldb.py  |  8 ++++----
 2 files changed, 48 insertions(+), 5 deletions(-)

diff --git a/corgidrp/atomic.py b/corgidrp/atomic.py
index fbcc33a..0671779 100644
--- a/corgidrp/atomic.py
+++ b/corgidrp/atomic.py
@@ -1,8 +1,51 @@
 """
-Helper for writing files such that an interrupted write never damages an existing file
+Helpers for working with files such that an interrupted write or a failing disk never damages an existing file
 """
 import contextlib
 import os
+import stat
+
+def path_mode(filepath):
+    """
+    Looks up what is at a path. Unlike os.path.exists() and similar functions, a file whose status cannot be determined
+    (e.g., because the disk it is on is temporarily not reachable) is not taken for a missing file, which
+    would be replaced with a new one.
+
+    Args:
+        filepath (str): path of the file or folder
+
+    Returns:
+        int: file type and mode (as in os.stat_result.st_mode). None if nothing exists at this path
+    """
+    try:
+        return os.stat(filepath).st_mode
+    except FileNotFoundError:
+        return None
+
+def path_exists(filepath):
+    """
+    Checks if a file or folder exists. An error is raised when it cannot be determined.
+
+    Args:
+        filepath (str): path of the file or folder
+
+    Returns:
+        bool: True if it exists, False if it certainly doesn't
+    """
+    return path_mode(filepath) is not None
+
+def is_file(filepath):
+    """
+    Checks if there is a regular file at this path. An error is raised when it cannot be determined.
+
+    Args:
+        filepath (str): path of the file
+
+    Returns:
+        bool: True if it is a file, False if it certainly isn't
+    """
+    mode = path_mode(filepath)
+    return mode is not None and stat.S_ISREG(mode)
 
 @contextlib.contextmanager
 def atomic_write_path(filepath):
diff --git a/corgidrp/caldb.py b/corgidrp/caldb.py
index b06209a..3af41dc 100644
--- a/corgidrp/caldb.py
+++ b/corgidrp/caldb.py
@@ -6,7 +6,7 @@ import numpy as np
 import pandas as pd
 import corgidrp
 import corgidrp.data as data
-from corgidrp.atomic import atomic_write_path
+from corgidrp.atomic import atomic_write_path, path_exists
 import astropy.time as time
 
 column_dtypes = {
@@ -72,7 +72,7 @@ class CalDB:
             self.filepath = filepath
 
         # if database does't exist, create a blank one
-        if not os.path.exists(self.filepath):
+        if not path_exists(self.filepath):
             # new database
             self.columns = column_names
             self._db = pd.DataFrame(columns=self.columns)
@@ -382,13 +382,13 @@ def initialize():
     rescan_needed = False
     # Add default detector_params calibration file if it doesn't exist
     detparams_filepath = os.path.join(corgidrp.default_cal_dir, "DetectorParams_2023-11-01T00:00:00.000.fits")
-    if not os.path.exists(detparams_filepath):
+    if not path_exists(detparams_filepath):
         default_detparams = data.DetectorParams({}, date_valid=time.Time("2023-11-01 00:00:00", scale='utc'))
         default_detparams.save(filedir=corgidrp.default_cal_dir)
         rescan_needed = True
     # Add default FpamFsamCal calibration file if it doesn't exist
     fpamfsam_filepath = os.path.join(corgidrp.default_cal_dir, "FpamFsamCal_2024-02-10T00:00:00.000.fits")
-    if not os.path.exists(fpamfsam_filepath):
+    if not path_exists(fpamfsam_filepath):
         fpamfsam_2excam = data.FpamFsamCal([],
             date_valid=time.Time("2024-02-10 00:00:00", scale='utc'))
         fpamfsam_2excam.save(filedir=corgidrp.default_cal_dir)
-- 
2.43.0


From 0234ac209adb4ddff85c9870718c69c15ee62c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:34 +0000
Subject: [PATCH 43/44] fix: settings that can't be reached during start-up are
 not replaced with defaults

---
 corgidrp/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/corgidrp/__init__.py b/corgidrp/__init__.py
index 259489a..7758541 100644
--- a/corgidrp/__init__.py
+++ b/corgidrp/__init__.py
@@ -2,7 +2,7 @@ import configparser
 import os
 import pathlib
 import configparser
-from corgidrp.atomic import atomic_write_path
+from corgidrp.atomic import atomic_write_path, path_exists, is_file
 
 __version__ = "2.0"
 version = __version__ # temporary backwards compatability 
@@ -18,9 +18,9 @@ def create_config_dir():
     # replace legacy file with folder if needed
     # set the legacy file aside until its settings have been saved in the new config
     legacy_config = config_folder + "_legacy"
-    if os.path.isfile(config_folder):
+    if is_file(config_folder):
         os.replace(config_folder, legacy_config)
-    if os.path.isfile(legacy_config):
+    if is_file(legacy_config):
         oldconfig = configparser.ConfigParser()
         with open(legacy_config) as f: # unlike config.read(), don't ignore a file that can't be read
             oldconfig.read_file(f)
@@ -36,7 +36,7 @@ def create_config_dir():
 
     # write config if it doesn't exist
     config_filepath = os.path.join(config_folder, "corgidrp.cfg")
-    if not os.path.exists(config_filepath):
+    if not path_exists(config_filepath):
         config = configparser.ConfigParser()
         config["PATH"] = {}
         config["PATH"]["caldb"] = os.path.join(config_folder, "corgidrp_caldb.csv") # location to store caldb
@@ -71,7 +71,7 @@ def update_pipeline_settings():
     # load in default caldbs based on configuration file
     config_filepath = os.path.join(pathlib.Path.home(), ".corgidrp", "corgidrp.cfg")
     config = configparser.ConfigParser()
-    if os.path.exists(config_filepath):
+    if path_exists(config_filepath):
         with open(config_filepath) as f: # unlike config.read(), don't ignore a file that can't be read
             config.read_file(f)
 
-- 
2.43.0


From 0fa3a99c26e3bc6bd8e12b5b426e80333a121c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:10 +0000
Subject: [PATCH 44/44] fix: paths with a percent sign can be in the
 configuration

---
 corgidrp/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/corgidrp/__init__.py b/corgidrp/__init__.py
index 7758541..e6efc34 100644
--- a/corgidrp/__init__.py
+++ b/corgidrp/__init__.py
@@ -39,8 +39,9 @@ def create_config_dir():
     if not path_exists(config_filepath):
         config = configparser.ConfigParser()
         config["PATH"] = {}
-        config["PATH"]["caldb"] = os.path.join(config_folder, "corgidrp_caldb.csv") # location to store caldb
-        config["PATH"]["default_calibs"] = default_cal_dir
+        # a percent sign is special in config files
+        config["PATH"]["caldb"] = os.path.join(config_folder, "corgidrp_caldb.csv").replace("%", "%%") # location to store caldb
+        config["PATH"]["default_calibs"] = default_cal_dir.replace("%", "%%")
         config["DATA"] = {}
         config["DATA"]["track_individual_errors"] = "False"
         config["WALKER"] = {}
@@ -48,7 +49,7 @@ def create_config_dir():
         config["WALKER"]["jit_calib_id"] = "False"
         # overwrite with old settings if needed
         if oldconfig is not None and oldconfig.has_option("PATH", "caldb"):
-            config["PATH"]["caldb"] = oldconfig["PATH"]["caldb"]
+            config["PATH"]["caldb"] = oldconfig["PATH"]["caldb"].replace("%", "%%")
 
         with atomic_write_path(config_filepath) as temp_filepath:
             with open(temp_filepath, 'w') as f:
-- 
2.43.0

