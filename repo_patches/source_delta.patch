From 7fccc7395664e108497e8b53b27237950ffd27ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:30 +0000
Subject: [PATCH 01/72] fix: commify no longer loops forever with an empty
 separator

---
 impactutils/textformat/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/impactutils/textformat/text.py b/impactutils/textformat/text.py
index c4ff3b1..7b0422e 100644
--- a/impactutils/textformat/text.py
+++ b/impactutils/textformat/text.py
@@ -246,6 +246,8 @@ def commify(num, separator=','):
     """
     regex = re.compile(r'^(-?\d+)(\d{3})')
     num = str(num)  # just in case we were passed a numeric value
+    if not separator:  # nothing to insert
+        return num
     more_to_do = 1
     while more_to_do:
         substring = rf'\1{separator}\2'
-- 
2.43.0


From fd2043a5c1957a67067f46078312952b70189411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:30 +0000
Subject: [PATCH 02/72] fix: dollar_round long form of exactly one million

---
 impactutils/textformat/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/textformat/text.py b/impactutils/textformat/text.py
index 7b0422e..d0cfc7b 100644
--- a/impactutils/textformat/text.py
+++ b/impactutils/textformat/text.py
@@ -126,7 +126,7 @@ def dollar_round(value, digits=2, mode='short'):
         if value >= suffixdict['K'] and value < suffixdict['M']:
             dollar_value = set_num_precision(value / 1e3, digits, mode='float')
             return (f'${dollar_value} thousand')
-        if value > suffixdict['M'] and value < suffixdict['B']:
+        if value >= suffixdict['M'] and value < suffixdict['B']:
             dollar_value = set_num_precision(value / 1e6, digits, mode='float')
             return (f'${dollar_value} million')
         else:
-- 
2.43.0


From 7f01202726b13babc58230ee84b84a185ff2e2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:17 +0000
Subject: [PATCH 03/72] fix: HistoricTime.strftime for years 300, 700, 1100 and
 1500

---
 impactutils/time/ancient_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/time/ancient_time.py b/impactutils/time/ancient_time.py
index 5d852c7..9b3c038 100755
--- a/impactutils/time/ancient_time.py
+++ b/impactutils/time/ancient_time.py
@@ -37,7 +37,7 @@ class HistoricTime(datetime):
         assert year < 1900
         factor = (1900 - year - 1) // 400 + 1
         future_year = year + factor * 400
-        assert future_year > 1900
+        assert future_year >= 1900
 
         format = Specifier('%Y').replace_in(format, year)
         result = self.replace(year=future_year).strftime(format)
-- 
2.43.0


From 2f4b3a58952275098db15e4480f3e6a3d780a1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:17 +0000
Subject: [PATCH 04/72] fix: HistoricTime.strftime refers to an undefined name
 for %c and %x

---
 impactutils/time/ancient_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/time/ancient_time.py b/impactutils/time/ancient_time.py
index 9b3c038..d23f1c9 100755
--- a/impactutils/time/ancient_time.py
+++ b/impactutils/time/ancient_time.py
@@ -30,7 +30,7 @@ class Specifier(str):
 
 class HistoricTime(datetime):
 
-    def strftime(self, format):
+    def strftime(self, format, force=False):
         year = self.year
         if year >= 1900:
             return super(HistoricTime, self).strftime(format)
-- 
2.43.0


From 9d5920928764224beb72a6e212240e18469d3300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:17 +0000
Subject: [PATCH 05/72] fix: HistoricTime.strftime overlooks %c or %x after an
 escaped one

---
 impactutils/time/ancient_time.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/impactutils/time/ancient_time.py b/impactutils/time/ancient_time.py
index d23f1c9..b902804 100755
--- a/impactutils/time/ancient_time.py
+++ b/impactutils/time/ancient_time.py
@@ -14,8 +14,9 @@ class Specifier(str):
         return self
 
     def ispresent_in(self, format):
-        m = self._regex.search(format)
-        return m and m.group(1).count('%') & 1  # odd number of '%'
+        # odd number of '%' in front of any occurrence
+        return any(m.group(1).count('%') & 1
+                   for m in self._regex.finditer(format))
 
     def replace_in(self, format, by):
         def repl(m):
-- 
2.43.0


From 8e16437b30ef9e196b14d522ace184f17e5f6a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:17 +0000
Subject: [PATCH 06/72] fix: local/UTC conversion ignores the requested
 rounding method

---
 impactutils/time/timeutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index bad0ff5..ab15d2b 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -545,7 +545,7 @@ class TimeConversion(object):
         Returns:
             Datetime object for the local time.
         """
-        code = self.get_timezone_code(lat, lon)
+        code = self.get_timezone_code(lat, lon, rounding_method)
         timezone = pytz.timezone(code)
         local_time = pytz.utc.localize(utctime).astimezone(timezone)
         return local_time
@@ -565,7 +565,7 @@ class TimeConversion(object):
         Returns:
             Datetime object for the UTC time.
         """
-        code = self.get_timezone_code(lat, lon)
+        code = self.get_timezone_code(lat, lon, rounding_method)
         timezone = pytz.timezone(code)
         # Set the local timezone information
         local = timezone.localize(localtime)
-- 
2.43.0


From 38f5445612c2826b21435145fdebcb0a9be9ac4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:17 +0000
Subject: [PATCH 07/72] fix: LocalTime.getTimeZone reads an attribute that is
 never set

---
 impactutils/time/timeutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index ab15d2b..411bffb 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -272,7 +272,7 @@ class LocalTime(object):
         return self._utcoffset
 
     def getTimeZone(self):
-        return self._timezone
+        return self._timezone_str
 
     def update(self, utctime, lat, lon):
         self._lat = lat
-- 
2.43.0


From e00d68b44303faefb395026a1587693c7bc5dcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:17 +0000
Subject: [PATCH 08/72] fix: nautical fallback reports its UTC offset as a
 timedelta and no zone name

---
 impactutils/time/timeutils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index 411bffb..9c2e268 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -249,8 +249,9 @@ class LocalTime(object):
                 break
         if local_time is None:
             # this is effectively nautical time as the ultimate failover.
-            utcoffset = round(lon / 15)
-            local_time = utctime + timedelta(seconds=utcoffset * 3600)
+            utcoffset = timedelta(seconds=round(lon / 15) * 3600)
+            local_time = utctime + utcoffset
+            timezone = 'undefined'
         self._local_time = local_time
         self._timezone_str = timezone
         self._utcoffset = utcoffset
@@ -356,8 +357,9 @@ class LocalTimeNE(LocalTime):
                 break
         if local_time is None:
             # this is effectively nautical time as the ultimate failover.
-            utcoffset = round(lon / 15)
-            local_time = utctime + timedelta(seconds=utcoffset * 3600)
+            utcoffset = timedelta(seconds=round(lon / 15) * 3600)
+            local_time = utctime + utcoffset
+            timezone = 'undefined'
         self._local_time = local_time
         self._timezone_str = timezone
         self._utcoffset = utcoffset
-- 
2.43.0


From f21484ca537224d04716bbedc9b3ab916981b511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:17 +0000
Subject: [PATCH 09/72] fix: get_compass_dir ignores the format argument

---
 impactutils/mapping/compass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/mapping/compass.py b/impactutils/mapping/compass.py
index 652f3d6..b23b5eb 100755
--- a/impactutils/mapping/compass.py
+++ b/impactutils/mapping/compass.py
@@ -42,7 +42,7 @@ def get_compass_dir(lat1, lon1, lat2, lon2, resolution='intercardinal', format='
     az = azimuth(lon1, lat1, lon2, lat2)
     if az < 0:
         az += 360
-    return get_compass_dir_azimuth(az, resolution=resolution)
+    return get_compass_dir_azimuth(az, resolution=resolution, format=format)
 
 
 def get_compass_dir_azimuth(azimuth, resolution='intercardinal', format='short'):
-- 
2.43.0


From 968cb597b312d999b268f4d3a0f201edf3e12f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:29 +0000
Subject: [PATCH 10/72] fix: timezone lookup in rasters that cross the
 antimeridian

The limited-extent clamp ran before the antimeridian adjustment, so every
longitude east of the (wrapped) right edge was moved to that edge.
---
 impactutils/time/timeutils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/impactutils/time/timeutils.py b/impactutils/time/timeutils.py
index 9c2e268..a55952a 100644
--- a/impactutils/time/timeutils.py
+++ b/impactutils/time/timeutils.py
@@ -478,6 +478,13 @@ class TimeConversion(object):
         min_lat = self._extents['Lower Left'][1]
         max_lat = self._extents['Upper Left'][1]
 
+        # If the raster crosses the antimeridian, let longitudes increase past
+        # 180 and use the representation of the input closest to the raster
+        if max_lon < min_lon:
+            max_lon += 360
+            if lon + 360 - max_lon < min_lon - lon:
+                lon += 360
+
         # Account for rasters with limited extent
         # If the value is less than or greater than the extent, then set it to
         # the closest boundary
@@ -493,8 +500,6 @@ class TimeConversion(object):
         # Set the resolution in x (longitude) and y (latitude)
         resx = self._resolution[0]
         resy = self._resolution[1]
-        if max_lon < min_lon and lon < min_lon:
-            lon += 360
         col = (lon - min_lon) / resx
         row = (max_lat - lat) / resy
 
-- 
2.43.0


From ab45e1d42c0adace29b2d31b56383404a276d1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:50 +0000
Subject: [PATCH 11/72] fix: container listings include groups that no longer
 hold anything

After the last item of a sub group was dropped the group itself was listed
as if it were a stored item.
---
 impactutils/io/smcontainers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/impactutils/io/smcontainers.py b/impactutils/io/smcontainers.py
index cff91ec..5a5591a 100644
--- a/impactutils/io/smcontainers.py
+++ b/impactutils/io/smcontainers.py
@@ -89,9 +89,8 @@ class HDFContainerBase(object):
         except Exception:
             return plist
         for kk in k:
-            paths = self._getGroupPaths(dd[kk])
-            if len(paths) > 0:
-                for path in paths:
+            if hasattr(dd[kk], 'keys'):
+                for path in self._getGroupPaths(dd[kk]):
                     nn = kk + '/' + path
                     plist.append(nn)
             else:
-- 
2.43.0


From 5a1dfcb623765a72f49363fccf2a396019bab338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:50 +0000
Subject: [PATCH 12/72] fix: setRuptureDict deletes the stored rupture before
 rejecting a bad one

---
 impactutils/io/smcontainers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/io/smcontainers.py b/impactutils/io/smcontainers.py
index 5a5591a..cb9a87e 100644
--- a/impactutils/io/smcontainers.py
+++ b/impactutils/io/smcontainers.py
@@ -371,11 +371,11 @@ class ShakeMapContainerBase(HDFContainerBase):
             TypeError: If input object or dictionary does not
                 represent a Rupture object.
         """
-        if 'rupture' in self.getDictionaries():
-            self.dropDictionary([], 'rupture')
         if not isinstance(rupture, dict):
             fmt = 'Input dict does not represent a rupture object.'
             raise TypeError(fmt)
+        if 'rupture' in self.getDictionaries():
+            self.dropDictionary([], 'rupture')
         self.setDictionary([], 'rupture', rupture)
 
     def getRuptureDict(self):
-- 
2.43.0


From 857e50c505fa92a9ee6f4ad9c54199d1a2cda791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:50 +0000
Subject: [PATCH 13/72] fix: rejected point data no longer fixes the data type
 of the container

---
 impactutils/io/smcontainers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/io/smcontainers.py b/impactutils/io/smcontainers.py
index cb9a87e..65ccbdd 100644
--- a/impactutils/io/smcontainers.py
+++ b/impactutils/io/smcontainers.py
@@ -634,7 +634,6 @@ class ShakeMapOutputContainer(ShakeMapContainerBase):
 
         if self.getDataType() == 'grid':
             raise TypeError('Setting point data in a file containing grids')
-        self.setDataType('points')
 
         #
         # Check that all of the arrays are the same
@@ -645,6 +644,7 @@ class ShakeMapOutputContainer(ShakeMapContainerBase):
            lons.shape != imt_mean.shape or \
            lons.shape != imt_std.shape:
             raise ValueError('All input arrays must be the same shape')
+        self.setDataType('points')
 
         # set up the name of the group holding all the information for the IMT
         sub_groups = ['imts', component, imt_name]
-- 
2.43.0


From 2dda32f39bf6f6c7eee784b14b49bb2ccd3e0c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:50 +0000
Subject: [PATCH 14/72] fix: setIMTGrids ignores the compression argument

---
 impactutils/io/smcontainers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/impactutils/io/smcontainers.py b/impactutils/io/smcontainers.py
index 65ccbdd..3c6af1d 100644
--- a/impactutils/io/smcontainers.py
+++ b/impactutils/io/smcontainers.py
@@ -561,8 +561,10 @@ class ShakeMapOutputContainer(ShakeMapContainerBase):
         self.setDataType('grid')
 
         sub_groups = ['imts', component, imt_name]
-        self.setArray(sub_groups, 'mean', imt_mean, mean_metadata)
-        self.setArray(sub_groups, 'std', imt_std, std_metadata)
+        self.setArray(sub_groups, 'mean', imt_mean, mean_metadata,
+                      compression=compression)
+        self.setArray(sub_groups, 'std', imt_std, std_metadata,
+                      compression=compression)
         return
 
     def getIMTGrids(self, imt_name, component):
-- 
2.43.0


From b98cccea0b03dfa54be760782958064a4f0e2dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:26 +0000
Subject: [PATCH 15/72] fix: stored data frames cannot be read back with h5py 3

h5py 3 returns string attributes as str, which has no decode().
---
 impactutils/io/container.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/impactutils/io/container.py b/impactutils/io/container.py
index fa3cbcd..fd80015 100644
--- a/impactutils/io/container.py
+++ b/impactutils/io/container.py
@@ -460,7 +460,10 @@ class HDFContainer(object):
         # date/time columns in an attribute.  Let's use that
         # now to make sure those are read back in with the appropriate
         # type
-        clist = json.loads(mdataset.attrs['time_columns'].decode('utf-8'))
+        cstr = mdataset.attrs['time_columns']
+        if isinstance(cstr, bytes):  # h5py < 3 returns bytes
+            cstr = cstr.decode('utf-8')
+        clist = json.loads(cstr)
         dataframe = pd.read_json(outstring, convert_dates=clist)
 
         return dataframe
-- 
2.43.0


From cec815f03c098f91fc761ee3e71cde882b18b13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:43 +0000
Subject: [PATCH 16/72] fix: ColorPalette accepts sequences of different
 lengths

The chained != comparison only rejects a few of the mismatches; the
shaketopo preset relied on it with one upper bound missing.
---
 impactutils/colors/cpalette.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/colors/cpalette.py b/impactutils/colors/cpalette.py
index 89b6f85..8d8e60a 100644
--- a/impactutils/colors/cpalette.py
+++ b/impactutils/colors/cpalette.py
@@ -55,7 +55,7 @@ POP = {'z0': [0, 4, 49, 99, 499, 999, 4999, 9999],
 
 
 TOPO = {'z0': [-100, 0, 50, 350, 1000, 1800, 2300, 2600, 4000, 9000, 9100],
-        'z1': [0, 50, 350, 1000, 1800, 2300, 2600, 4000, 9000, 9200],
+        'z1': [0, 50, 350, 1000, 1800, 2300, 2600, 4000, 9000, 9100, 9200],
         'rgb0': [(195, 255, 193),
                  (110, 135, 80),
                  (120, 160, 90),
@@ -108,7 +108,7 @@ class ColorPalette(object):
                 transparent, and 255 is opaque.)
         """
         # validate that lengths are all identical
-        if len(z0) != len(z1) != len(rgb0) != len(rgb1):
+        if not len(z0) == len(z1) == len(rgb0) == len(rgb1):
             raise ConsistentLengthError('Lengths of input sequences to ColorPalette() '
                                       'must be identical.')
         self._is_log = is_log
-- 
2.43.0


From 7d0b99cbe2b601919290e7c1adb8d6d9c9f59128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:48 +0000
Subject: [PATCH 17/72] fix: missing sender directory raises NameError instead
 of FileNotFoundError

---
 impactutils/transfer/sender.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/transfer/sender.py b/impactutils/transfer/sender.py
index f402a13..e74b29f 100644
--- a/impactutils/transfer/sender.py
+++ b/impactutils/transfer/sender.py
@@ -65,7 +65,7 @@ class Sender(object):
         if local_directory is not None:
             if not os.path.isdir(local_directory):
                 raise FileNotFoundError(
-                    f'Input directory {directory} could not be found')
+                    f'Input directory {local_directory} could not be found')
         if local_files is not None:
             self._local_files = local_files
         else:
@@ -90,7 +90,7 @@ class Sender(object):
     def changeDirectory(self, local_directory, directory_alias=None):
         if not os.path.isdir(local_directory):
             raise FileNotFoundError(
-                f'Input directory {directory} could not be found')
+                f'Input directory {local_directory} could not be found')
         self._local_directory = local_directory
         self._directory_alias = directory_alias
 
-- 
2.43.0


From da334f5b644b14e5d3b009ef3326c1bc79d86f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:48 +0000
Subject: [PATCH 18/72] fix: Sender.addFiles refers to an undefined name

---
 impactutils/transfer/sender.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/transfer/sender.py b/impactutils/transfer/sender.py
index e74b29f..5850659 100644
--- a/impactutils/transfer/sender.py
+++ b/impactutils/transfer/sender.py
@@ -82,7 +82,7 @@ class Sender(object):
         self._properties[key] = value
 
     def addFiles(self, local_files):
-        for f in files:
+        for f in local_files:
             if not os.path.isfile(f):
                 raise FileNotFoundError(f'Input file {f} could not be found')
         self._local_files += local_files
-- 
2.43.0


From 3667b6d387ea5426de8dd553716ff3e4f031dc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:48 +0000
Subject: [PATCH 19/72] fix: Sender.addFiles changes the list the caller passed
 in

---
 impactutils/transfer/sender.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/transfer/sender.py b/impactutils/transfer/sender.py
index 5850659..20970fa 100644
--- a/impactutils/transfer/sender.py
+++ b/impactutils/transfer/sender.py
@@ -67,7 +67,7 @@ class Sender(object):
                 raise FileNotFoundError(
                     f'Input directory {local_directory} could not be found')
         if local_files is not None:
-            self._local_files = local_files
+            self._local_files = list(local_files)
         else:
             self._local_files = []
 
-- 
2.43.0


From 5c9d286fd1883fbeb26ad77f0eb761cee10ce919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:18 +0000
Subject: [PATCH 20/72] fix: CopySender counts the files of the local directory
 twice

---
 impactutils/transfer/copysender.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/impactutils/transfer/copysender.py b/impactutils/transfer/copysender.py
index 891bd02..a73feec 100755
--- a/impactutils/transfer/copysender.py
+++ b/impactutils/transfer/copysender.py
@@ -76,9 +76,6 @@ class CopySender(Sender):
                     filename, remote_folder, local_folder=local_folder)
                 nfiles += 1
 
-            nfiles += sum([len(files)
-                           for r, d, files in os.walk(local_folder)])
-
         # copy files to remote location
         for filename in self._local_files:
             self._copy_file_with_path(filename, remote_folder)
-- 
2.43.0


From 527d2fba286f91296a540f9279e0a2014b32f5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:18 +0000
Subject: [PATCH 21/72] fix: CopySender sends directory contents to the wrong
 place

Every occurrence of the local directory name was removed from the path of a
file, not just the leading one, and a relative remote directory was taken to
start at the file system root.
---
 impactutils/transfer/copysender.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/impactutils/transfer/copysender.py b/impactutils/transfer/copysender.py
index a73feec..f6118dd 100755
--- a/impactutils/transfer/copysender.py
+++ b/impactutils/transfer/copysender.py
@@ -133,11 +133,8 @@ class CopySender(Sender):
                 name (not preserving path) into remote_folder.
         """
         if local_folder is not None:
-            local_parts = local_file.replace(local_folder, '').strip(
-                os.path.sep).split(os.path.sep)
-            remote_parts = remote_folder.strip(os.path.sep).split(os.path.sep)
-            all_parts = [os.path.sep] + remote_parts + local_parts
-            remote_file = os.path.join(*all_parts)
+            relative_path = os.path.relpath(local_file, local_folder)
+            remote_file = os.path.join(remote_folder, relative_path)
             root, rfile = os.path.split(remote_file)
             if not os.path.isdir(root):
                 os.makedirs(root)
-- 
2.43.0


From b02dc1dadce35f48b280ee550b1c7f0b89ea3aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:39 +0000
Subject: [PATCH 22/72] fix: FTPSender sends directory contents to the wrong
 place

Every occurrence of the local directory name was removed from the path of a
file, not just the leading one.
---
 impactutils/transfer/ftpsender.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/transfer/ftpsender.py b/impactutils/transfer/ftpsender.py
index f736392..81b106c 100755
--- a/impactutils/transfer/ftpsender.py
+++ b/impactutils/transfer/ftpsender.py
@@ -228,8 +228,8 @@ class FTPSender(Sender):
             ftp.cwd(remote_folder)
             self.__sendfile(filename, ftp)
         else:
-            local_parts = local_file.replace(local_folder, '').strip(
-                os.path.sep).split(os.path.sep)
+            relative_path = os.path.relpath(local_file, local_folder)
+            local_parts = relative_path.split(os.path.sep)
             remote_parts = self._split(remote_folder)
             all_parts = remote_parts + local_parts
             remote_file = '/' + '/'.join(all_parts)
-- 
2.43.0


From 8afbf7264238ef8b21c315b48d7a4ec9b5864247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:39 +0000
Subject: [PATCH 23/72] fix: FTPSender hides failures to send files

Failures on files of a directory were ignored, and the message for all other
failures referred to an undefined name.
---
 impactutils/transfer/ftpsender.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/impactutils/transfer/ftpsender.py b/impactutils/transfer/ftpsender.py
index 81b106c..17d9bd0 100755
--- a/impactutils/transfer/ftpsender.py
+++ b/impactutils/transfer/ftpsender.py
@@ -83,19 +83,16 @@ class FTPSender(Sender):
                 local_directory = self._local_directory
                 allfiles = self.getAllLocalFiles()
                 for filename in allfiles:
-                    try:
-                        self._copy_file_with_path(
-                            ftp, filename, remote_folder,
-                            local_folder=local_directory)
-                        nfiles += 1
-                    except:
-                        x = 1
+                    self._copy_file_with_path(
+                        ftp, filename, remote_folder,
+                        local_folder=local_directory)
+                    nfiles += 1
 
             ftp.quit()
             return (nfiles, f'{int(nfiles):d} files were sent successfully to {remote_host} {remote_folder}')
         except Exception as obj:
             raise Exception(
-                f'Could not send to {host}.  Error "{str(obj)}"')
+                f'Could not send to {remote_host}.  Error "{str(obj)}"')
 
     def cancel(self):
         """
-- 
2.43.0


From e9cada4be045db90f0f0bc3822e562401abc84b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:39 +0000
Subject: [PATCH 24/72] fix: FTPSender fails with a relative remote directory

It is relative to the root of the server, also when the current directory is
another one.
---
 impactutils/transfer/ftpsender.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/impactutils/transfer/ftpsender.py b/impactutils/transfer/ftpsender.py
index 17d9bd0..8291df7 100755
--- a/impactutils/transfer/ftpsender.py
+++ b/impactutils/transfer/ftpsender.py
@@ -116,7 +116,7 @@ class FTPSender(Sender):
             tfile = os.path.join(tempdir, self._cancelfile)  # local file
             f = open(tfile, 'wt')
             f.close()
-            ftp.cwd(remote_folder)
+            ftp.cwd(self._join(*self._split(remote_folder)))
             self.__sendfile(tfile, ftp)
         except Exception as e:
             raise Exception(
@@ -222,8 +222,8 @@ class FTPSender(Sender):
                 name (not preserving path) into remote_folder.
         """
         if local_folder is None:
-            ftp.cwd(remote_folder)
-            self.__sendfile(filename, ftp)
+            ftp.cwd(self._join(*self._split(remote_folder)))
+            self.__sendfile(local_file, ftp)
         else:
             relative_path = os.path.relpath(local_file, local_folder)
             local_parts = relative_path.split(os.path.sep)
@@ -238,7 +238,7 @@ class FTPSender(Sender):
                 self._create_remote_directory(ftp, remfolder)
 
             self.__sendfile(local_file, ftp)
-            ftp.cwd(remote_folder)
+            ftp.cwd(self._join(*remote_parts))
 
     def __sendfile(self, filename, ftp):
         '''Internal function used to send a file using an FTP object.
-- 
2.43.0


From b26eb540cc39ac6ec3fac023c5dd9ec06db6d980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:39 +0000
Subject: [PATCH 25/72] fix: FTPSender.cancel does not accept the documented
 cancel_content

---
 impactutils/transfer/ftpsender.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/impactutils/transfer/ftpsender.py b/impactutils/transfer/ftpsender.py
index 8291df7..b15ea04 100755
--- a/impactutils/transfer/ftpsender.py
+++ b/impactutils/transfer/ftpsender.py
@@ -94,7 +94,7 @@ class FTPSender(Sender):
             raise Exception(
                 f'Could not send to {remote_host}.  Error "{str(obj)}"')
 
-    def cancel(self):
+    def cancel(self, cancel_content=None):
         """
         Create a cancel file (named as indicated in constructor "cancelfile"
         parameter) in remote_directory on remote_host.
@@ -115,6 +115,8 @@ class FTPSender(Sender):
         try:
             tfile = os.path.join(tempdir, self._cancelfile)  # local file
             f = open(tfile, 'wt')
+            if cancel_content is not None:
+                f.write(cancel_content)
             f.close()
             ftp.cwd(self._join(*self._split(remote_folder)))
             self.__sendfile(tfile, ftp)
-- 
2.43.0


From 1991a73aed948262eedc3b24fa7a62857c936ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:30 +0000
Subject: [PATCH 26/72] fix: SecureSender sends directory contents to the wrong
 place

---
 impactutils/transfer/securesender.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/impactutils/transfer/securesender.py b/impactutils/transfer/securesender.py
index b6138fe..3d4a1fc 100755
--- a/impactutils/transfer/securesender.py
+++ b/impactutils/transfer/securesender.py
@@ -198,11 +198,8 @@ class SecureSender(Sender):
         """
         remote_host = self._properties['remote_host']
         if local_folder is not None:
-            local_parts = local_file.replace(local_folder, '').strip(
-                os.path.sep).split(os.path.sep)
-            remote_parts = remote_folder.strip(os.path.sep).split(os.path.sep)
-            all_parts = [os.path.sep] + remote_parts + local_parts
-            remote_file = os.path.join(*all_parts)
+            remote_file = os.path.join(
+                remote_folder, os.path.relpath(local_file, local_folder))
             root, rfile = os.path.split(remote_file)
             exists, isdir = self._check_remote_folder(ssh, root)
             if not isdir:
-- 
2.43.0


From 7508616bf5644d805ee13d4efff326711c4272ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:30 +0000
Subject: [PATCH 27/72] fix: SecureSender puts file names into remote commands
 unquoted

---
 impactutils/transfer/securesender.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/impactutils/transfer/securesender.py b/impactutils/transfer/securesender.py
index 3d4a1fc..36a2ce4 100755
--- a/impactutils/transfer/securesender.py
+++ b/impactutils/transfer/securesender.py
@@ -4,6 +4,7 @@
 import os.path
 import datetime
 import getpass
+import shlex
 
 # depends on https://github.com/jbardin/scp.py
 # pip install git+git://github.com/jbardin/scp.py.git
@@ -122,9 +123,10 @@ class SecureSender(Sender):
         remote_host = self._properties['remote_host']
         ssh = self._connect()
         cancelfile = os.path.join(remote_folder, self._cancelfile)
-        echo_cmd = f'echo {cancel_content} > {cancelfile}'
+        echo_cmd = (f'echo {shlex.quote(str(cancel_content))} > '
+                    f'{shlex.quote(cancelfile)}')
         stdin, stdout, stderr1 = ssh.exec_command(echo_cmd)
-        chk_cmd = f'[ -e {cancelfile} ];echo $?'
+        chk_cmd = f'[ -e {shlex.quote(cancelfile)} ];echo $?'
         stdin, stdout, stderr = ssh.exec_command(chk_cmd)
         exists = not int(stdout.read().decode('utf-8').strip())
         if not exists:
@@ -217,7 +219,7 @@ class SecureSender(Sender):
             datetime.datetime.utcnow().strftime('%Y%m%d%H%M%S')
         print(f'Copying {local_file}...')
         scp.put(local_file, remote_tmp_file)
-        rename_cmd = f'mv {remote_tmp_file} {remote_file}'
+        rename_cmd = f'mv {shlex.quote(remote_tmp_file)} {shlex.quote(remote_file)}'
         stdin, stdout, stderr = ssh.exec_command(rename_cmd)
 
     def _check_remote_folder(self, ssh, remote_folder):
@@ -231,10 +233,10 @@ class SecureSender(Sender):
             Tuple with two booleans -- (does a file or directory of this name
             exist, is it a directory?)
         """
-        chk_cmd1 = f'[ -e {remote_folder} ];echo $?'
+        chk_cmd1 = f'[ -e {shlex.quote(remote_folder)} ];echo $?'
         stdin, stdout, stderr = ssh.exec_command(chk_cmd1)
         exists = not int(stdout.read().decode('utf-8').strip())
-        chk_cmd2 = f'[ -d {remote_folder} ];echo $?'
+        chk_cmd2 = f'[ -d {shlex.quote(remote_folder)} ];echo $?'
         stdin, stdout, stderr = ssh.exec_command(chk_cmd2)
         isdir = not int(stdout.read().decode('utf-8').strip())
         return (exists, isdir)
@@ -251,15 +253,15 @@ class SecureSender(Sender):
             Boolean indicating success or failure.
         """
         exists, isdir = self._check_remote_folder(ssh, remote_folder)
-        chk_cmd1 = f'[ -d {remote_folder} ];echo $?'
+        chk_cmd1 = f'[ -d {shlex.quote(remote_folder)} ];echo $?'
         if not isdir:
             if exists:
-                rm_cmd = f'rm {remote_folder}'
+                rm_cmd = f'rm {shlex.quote(remote_folder)}'
                 stdin, stdout, stderr = ssh.exec_command(rm_cmd)
                 stdin, stdout, stderr = ssh.exec_command(chk_cmd1)
                 exists = not int(stdout.read().decode('utf-8').strip())
             if not exists:
-                mk_cmd = f'mkdir -p {remote_folder}'
+                mk_cmd = f'mkdir -p {shlex.quote(remote_folder)}'
                 stdin, stdout, stderr = ssh.exec_command(mk_cmd)
                 exists, isdir = self._check_remote_folder(ssh, remote_folder)
                 if not isdir:
-- 
2.43.0


From 1a11f6264ea926d252ef08b22cf1a22a5939b8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:30 +0000
Subject: [PATCH 28/72] fix: SecureSender does not wait for the files it
 renames

---
 impactutils/transfer/securesender.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/impactutils/transfer/securesender.py b/impactutils/transfer/securesender.py
index 36a2ce4..dcc8bc7 100755
--- a/impactutils/transfer/securesender.py
+++ b/impactutils/transfer/securesender.py
@@ -221,6 +221,12 @@ class SecureSender(Sender):
         scp.put(local_file, remote_tmp_file)
         rename_cmd = f'mv {shlex.quote(remote_tmp_file)} {shlex.quote(remote_file)}'
         stdin, stdout, stderr = ssh.exec_command(rename_cmd)
+        # wait for the command, which closing the connection would cut short
+        if stdout.channel.recv_exit_status() != 0:
+            error = stderr.read().decode('utf-8').strip()
+            raise Exception(
+                f'Could not rename {remote_tmp_file} on host {remote_host} '
+                f'due to error: {error}')
 
     def _check_remote_folder(self, ssh, remote_folder):
         """Check to see if remote folder exists and is a directory.
-- 
2.43.0


From 613578e1dbb7d228ab7a29f77a6499916c6ec2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:30 +0000
Subject: [PATCH 29/72] fix: SecureSender checks the results of commands still
 running

---
 impactutils/transfer/securesender.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/impactutils/transfer/securesender.py b/impactutils/transfer/securesender.py
index dcc8bc7..2e48d80 100755
--- a/impactutils/transfer/securesender.py
+++ b/impactutils/transfer/securesender.py
@@ -126,6 +126,8 @@ class SecureSender(Sender):
         echo_cmd = (f'echo {shlex.quote(str(cancel_content))} > '
                     f'{shlex.quote(cancelfile)}')
         stdin, stdout, stderr1 = ssh.exec_command(echo_cmd)
+        # the check below must not run before the file has been written
+        stdout.channel.recv_exit_status()
         chk_cmd = f'[ -e {shlex.quote(cancelfile)} ];echo $?'
         stdin, stdout, stderr = ssh.exec_command(chk_cmd)
         exists = not int(stdout.read().decode('utf-8').strip())
@@ -264,11 +266,13 @@ class SecureSender(Sender):
             if exists:
                 rm_cmd = f'rm {shlex.quote(remote_folder)}'
                 stdin, stdout, stderr = ssh.exec_command(rm_cmd)
+                stdout.channel.recv_exit_status()
                 stdin, stdout, stderr = ssh.exec_command(chk_cmd1)
                 exists = not int(stdout.read().decode('utf-8').strip())
             if not exists:
                 mk_cmd = f'mkdir -p {shlex.quote(remote_folder)}'
                 stdin, stdout, stderr = ssh.exec_command(mk_cmd)
+                stdout.channel.recv_exit_status()
                 exists, isdir = self._check_remote_folder(ssh, remote_folder)
                 if not isdir:
                     return False
-- 
2.43.0


From 0be9d73c3445c7b42158b49e4f47e036ec41fb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:30 +0000
Subject: [PATCH 30/72] fix: SecureSender.cancel without content writes None

---
 impactutils/transfer/securesender.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/impactutils/transfer/securesender.py b/impactutils/transfer/securesender.py
index 2e48d80..1fce8ed 100755
--- a/impactutils/transfer/securesender.py
+++ b/impactutils/transfer/securesender.py
@@ -123,6 +123,8 @@ class SecureSender(Sender):
         remote_host = self._properties['remote_host']
         ssh = self._connect()
         cancelfile = os.path.join(remote_folder, self._cancelfile)
+        if cancel_content is None:
+            cancel_content = ''
         echo_cmd = (f'echo {shlex.quote(str(cancel_content))} > '
                     f'{shlex.quote(cancelfile)}')
         stdin, stdout, stderr1 = ssh.exec_command(echo_cmd)
-- 
2.43.0


From c30127be6b3b159b8d6e23685083a1f911a3423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:13 +0000
Subject: [PATCH 31/72] fix: EmailSender with max_bcc=1 never ends, larger
 batches are one short

---
 impactutils/transfer/emailsender.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index 35903be..8f82a72 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -287,7 +287,7 @@ def _split_addresses(recipients, max_bcc, primary_recipient):
     iend = max_bcc
     while istart < len(recipients):
         address = primary_recipient
-        iend = min(len(recipients), istart + (max_bcc - 1))
+        iend = min(len(recipients), istart + max_bcc)
         bcclist = recipients[istart:iend]
         tuples.append((address, bcclist))
         istart = iend
-- 
2.43.0


From 65707861c4faff8797f5b6fb619e02f7231cc315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:13 +0000
Subject: [PATCH 32/72] fix: EmailSender sends a message again when quitting
 the session fails

---
 impactutils/transfer/emailsender.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index 8f82a72..a30bd6a 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -319,7 +319,11 @@ def _send_email(sender, address, msgtxt, smtp_servers):
             resp, servername = session.helo()
             session.sendmail(sender, address, msgtxt)
             messageSent = True
-            session.quit()
+            try:
+                session.quit()
+            except smtplib.SMTPException:
+                # the message has been accepted, do not send it again
+                pass
             break
         except smtplib.SMTPRecipientsRefused:
             errormsg.append({server: 'Recipients refused'})
-- 
2.43.0


From 9360c8d5091488c9099850020a45b7ee0a105227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:13 +0000
Subject: [PATCH 33/72] fix: EmailSender discloses the Bcc recipients in the
 message headers

---
 impactutils/transfer/emailsender.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index a30bd6a..4e82978 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -187,13 +187,10 @@ class EmailSender(Sender):
                     msg['To'] = address
                     msg['Subject'] = subject
                     msg['Date'] = email.utils.formatdate()
-                    if bcc is not None:
-                        bccstr = ', '.join(bcc)
-                        msg['Bcc'] = bccstr
                     msgtxt = msg.as_string()
                 else:
                     msgtxt = _get_encoded_message(
-                        address, subject, text, sender, attachments, bcc=bcc)
+                        address, subject, text, sender, attachments)
                 if bcc is not None:
                     all_addresses = [address] + bcc
                 else:
@@ -258,8 +255,6 @@ class EmailSender(Sender):
             msg['To'] = address
             msg['Subject'] = subject
             msg['Date'] = email.utils.formatdate()
-            bccstr = ', '.join(bcc)
-            msg['Bcc'] = bccstr
             msgtxt = msg.as_string()
             all_addresses = [address] + bcc
             _send_email(sender, all_addresses, msgtxt, smtp_servers)
@@ -354,8 +349,7 @@ def _send_email(sender, address, msgtxt, smtp_servers):
     #     print('Bcc: %s' % ','.join(bcc))
 
 
-def _get_encoded_message(address, subject, text, sender, attachments,
-                         bcc=None):
+def _get_encoded_message(address, subject, text, sender, attachments):
     """Private method for encoding attachment into a MIME string.
 
     Args:
@@ -363,7 +357,6 @@ def _get_encoded_message(address, subject, text, sender, attachments,
         subject: String email subject line.
         text: String text of email message.
         attachments: List of files to be attached to message.
-        bcc: List of email addresses to Bcc.
 
     Returns:
         Message text.
@@ -373,8 +366,6 @@ def _get_encoded_message(address, subject, text, sender, attachments,
     outer['To'] = address
     outer['From'] = sender
     outer['Date'] = email.utils.formatdate()
-    if bcc is not None:
-        outer['Bcc'] = ', '.join(bcc)
 
     # insert the text into the email as a MIMEText part...
     firstSubMsg = Message()
-- 
2.43.0


From d252ca45818b5a7ebfcae31c70bee476a3f279fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:13 +0000
Subject: [PATCH 34/72] fix: EmailSender cannot attach a directory without
 files or zip_file

---
 impactutils/transfer/emailsender.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index 4e82978..3a38993 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -177,7 +177,7 @@ class EmailSender(Sender):
                         for filename in self._local_files:
                             attachments.append(filename)
 
-                            all_files = self.getAllLocalFiles()
+                        all_files = self.getAllLocalFiles()
                         for filename in all_files:
                             attachments.append(filename)
 
-- 
2.43.0


From 41427433aef3fa3312f046f1ca0e2b8b638a1d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:14 +0000
Subject: [PATCH 35/72] fix: EmailSender archives directory contents under
 wrong names

---
 impactutils/transfer/emailsender.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index 3a38993..293d1dd 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -168,8 +168,8 @@ class EmailSender(Sender):
                         if self._local_directory:
                             allfiles = self.getAllLocalFiles()
                             for filename in allfiles:
-                                arcname = filename.replace(
-                                    self._local_directory, '')
+                                arcname = os.path.relpath(
+                                    filename, self._local_directory)
                                 myzip.write(filename, arcname)
                         myzip.close()
                         attachments.append(zfilename)
-- 
2.43.0


From 79e43a678224cc0cfaba0ece17f75091b0b5953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:14 +0000
Subject: [PATCH 36/72] fix: EmailSender cannot send attachments with a text
 that is not ASCII

---
 impactutils/transfer/emailsender.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/impactutils/transfer/emailsender.py b/impactutils/transfer/emailsender.py
index 293d1dd..33fe55f 100644
--- a/impactutils/transfer/emailsender.py
+++ b/impactutils/transfer/emailsender.py
@@ -4,7 +4,6 @@ import shutil
 import smtplib
 import mimetypes
 from email import encoders
-from email.message import Message
 from email.mime.text import MIMEText
 from email.mime.audio import MIMEAudio
 from email.mime.base import MIMEBase
@@ -368,11 +367,7 @@ def _get_encoded_message(address, subject, text, sender, attachments):
     outer['Date'] = email.utils.formatdate()
 
     # insert the text into the email as a MIMEText part...
-    firstSubMsg = Message()
-    firstSubMsg["Content-type"] = "text/plain"
-    firstSubMsg["Content-transfer-encoding"] = "7bit"
-    firstSubMsg.set_payload(text)
-    outer.attach(firstSubMsg)
+    outer.attach(MIMEText(text))
 
     for attachment in attachments:
         ctype, encoding = mimetypes.guess_type(attachment)
-- 
2.43.0


From 5c57c99b8f1236f50523e053c556c2da690b14c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:50 +0000
Subject: [PATCH 37/72] fix: PDLSender passes property values to the shell
 unquoted

---
 impactutils/transfer/pdlsender.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/impactutils/transfer/pdlsender.py b/impactutils/transfer/pdlsender.py
index 8732447..4275e53 100755
--- a/impactutils/transfer/pdlsender.py
+++ b/impactutils/transfer/pdlsender.py
@@ -3,6 +3,7 @@
 # stdlib imports
 import os.path
 import datetime
+import shlex
 
 # third party
 
@@ -98,7 +99,8 @@ class PDLSender(Sender):
     def _replace_required_properties(self, cmd):
         for propkey in self._required_properties:
             propvalue = self._properties[propkey]
-            cmd = cmd.replace('[' + propkey.upper() + ']', propvalue)
+            cmd = cmd.replace('[' + propkey.upper() + ']',
+                              shlex.quote(propvalue))
         return cmd
 
     def _replace_product_properties(self, cmd):
@@ -115,23 +117,27 @@ class PDLSender(Sender):
                     prop_nuggets.append(
                         f'--property-{propkey}={propvalue.strftime(DATE_TIME_FMT)[0:23]}')
                 elif isinstance(propvalue, str):
-                    prop_nuggets.append(f'--property-{propkey}="{propvalue}"')
+                    prop_nuggets.append(f'--property-{propkey}={propvalue}')
                 else:
                     prop_nuggets.append(
                         f'--property-{propkey}={str(propvalue)}')
-            cmd = cmd.replace('[PRODUCT_PROPERTIES]', ' '.join(prop_nuggets))
+            cmd = cmd.replace('[PRODUCT_PROPERTIES]',
+                              ' '.join(shlex.quote(nugget)
+                                       for nugget in prop_nuggets))
         else:
             cmd = cmd.replace('[PRODUCT_PROPERTIES]', '')
         return cmd
 
     def _replace_files(self, cmd):
         if self._local_files:
-            cmd = cmd.replace('[FILE]', f'--file={self._local_files[0]}')
+            cmd = cmd.replace(
+                '[FILE]', f'--file={shlex.quote(self._local_files[0])}')
         else:
             cmd = cmd.replace('[FILE]', '')
         if self._local_directory:
             cmd = cmd.replace(
-                '[DIRECTORY]', f'--directory={self._local_directory}')
+                '[DIRECTORY]',
+                f'--directory={shlex.quote(self._local_directory)}')
         else:
             cmd = cmd.replace('[DIRECTORY]', '')
 
-- 
2.43.0


From ecd70c213550575680b55a23327f25b231da5f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:01 +0000
Subject: [PATCH 38/72] fix: is_quad measures the distance of the fourth corner
 from a plane through itself

---
 impactutils/rupture/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/rupture/utils.py b/impactutils/rupture/utils.py
index b42275c..c7d0446 100755
--- a/impactutils/rupture/utils.py
+++ b/impactutils/rupture/utils.py
@@ -44,7 +44,7 @@ def is_quad(q):
     new_p2 = p3 + v0 * d
 
     # How far off of the plane is the origin p2?
-    planepoints = [p0, p1, p2]
+    planepoints = [p0, p1, p3]
     dist = get_distance_to_plane(planepoints, p2)
 
     # Is it close enough?
-- 
2.43.0


From 7b9ffe1dd13c4c0590a0203096093098b359d7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:01 +0000
Subject: [PATCH 39/72] fix: get_distance_to_plane returns 0 for planes through
 the Earth's centre

---
 impactutils/rupture/utils.py | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/impactutils/rupture/utils.py b/impactutils/rupture/utils.py
index c7d0446..1efa3bb 100755
--- a/impactutils/rupture/utils.py
+++ b/impactutils/rupture/utils.py
@@ -505,27 +505,11 @@ def get_distance_to_plane(planepoints, otherpoint):
         float: Distance (in meters) from otherpoint to plane.
 
     """
-    # from
-    # https://en.wikipedia.org/wiki/Plane_(geometry)#Describing_a_plane_through_three_points
     p0, p1, p2 = planepoints
-    x1, y1, z1 = p0.getArray()
-    x2, y2, z2 = p1.getArray()
-    x3, y3, z3 = p2.getArray()
-    D = np.linalg.det(np.array([[x1, y1, z1], [x2, y2, z2], [x3, y3, z3]]))
-    if D != 0:
-        d = -1
-        at = np.linalg.det(np.array([[1, y1, z1], [1, y2, z2], [1, y3, z3]]))
-        bt = np.linalg.det(np.array([[x1, 1, z1], [x2, 1, z2], [x3, 1, z3]]))
-        ct = np.linalg.det(np.array([[x1, y1, 1], [x2, y2, 1], [x3, y3, 1]]))
-        a = (-d / D) * at
-        b = (-d / D) * bt
-        c = (-d / D) * ct
-
-        numer = np.abs(a * otherpoint.x +
-                       b * otherpoint.y +
-                       c * otherpoint.z + d)
-        denom = np.sqrt(a**2 + b**2 + c**2)
-        dist = numer / denom
+    normal = (p1 - p0).cross(p2 - p0)
+    length = normal.mag()
+    if length != 0:
+        dist = np.abs(normal.dot(otherpoint - p0)) / length
     else:
         dist = 0
     return dist
-- 
2.43.0


From 4df665347800e20afe2159df58df0c0fbefe5249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:01 +0000
Subject: [PATCH 40/72] fix: EdgeRupture.getQuadrilaterals returns the first
 group for every group

---
 impactutils/rupture/edge_rupture.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/impactutils/rupture/edge_rupture.py b/impactutils/rupture/edge_rupture.py
index b65a0ab..9ac9034 100755
--- a/impactutils/rupture/edge_rupture.py
+++ b/impactutils/rupture/edge_rupture.py
@@ -503,18 +503,18 @@ class EdgeRupture(Rupture):
             ind = np.where(self._group_index == ugroup[i])[0]
             nq = len(ind) - 1
             for j in range(nq):
-                P0 = Point(self._toplons[j],
-                           self._toplats[j],
-                           self._topdeps[j])
-                P1 = Point(self._toplons[j + 1],
-                           self._toplats[j + 1],
-                           self._topdeps[j + 1])
-                P2 = Point(self._botlons[j + 1],
-                           self._botlats[j + 1],
-                           self._botdeps[j + 1])
-                P3 = Point(self._botlons[j],
-                           self._botlats[j],
-                           self._botdeps[j])
+                P0 = Point(self._toplons[ind[j]],
+                           self._toplats[ind[j]],
+                           self._topdeps[ind[j]])
+                P1 = Point(self._toplons[ind[j + 1]],
+                           self._toplats[ind[j + 1]],
+                           self._topdeps[ind[j + 1]])
+                P2 = Point(self._botlons[ind[j + 1]],
+                           self._botlats[ind[j + 1]],
+                           self._botdeps[ind[j + 1]])
+                P3 = Point(self._botlons[ind[j]],
+                           self._botlats[ind[j]],
+                           self._botdeps[ind[j]])
                 qlist.append([P0, P1, P2, P3])
 
         return qlist
-- 
2.43.0


From e3a242f42bf293a3f5079651fefe09c807814655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:30 +0000
Subject: [PATCH 41/72] fix: EdgeRupture strike and dip of exactly vertical
 ruptures

---
 impactutils/rupture/edge_rupture.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/rupture/edge_rupture.py b/impactutils/rupture/edge_rupture.py
index 9ac9034..f019b89 100755
--- a/impactutils/rupture/edge_rupture.py
+++ b/impactutils/rupture/edge_rupture.py
@@ -461,8 +461,8 @@ class EdgeRupture(Rupture):
 
         # Do I need to flip the vector because it is pointing down (i.e.,
         # right-hand rule is violated)?
-        flip = np.sign(up_vec.dot(norm_vec))
-        norm_vec = flip * norm_vec
+        if up_vec.dot(norm_vec) < 0:
+            norm_vec = -1 * norm_vec
 
         # Angle between up_vec and norm_vec is dip
         self._dip = np.arcsin(up_vec.cross(norm_vec).mag()) * 180 / np.pi
-- 
2.43.0


From 03a7d6b925ebd5c0fa7c975d361edadde2324333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:30 +0000
Subject: [PATCH 42/72] fix: GC2 takes the wrong corners as ends of traces of
 several quadrilaterals

---
 impactutils/rupture/gc2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/rupture/gc2.py b/impactutils/rupture/gc2.py
index 6a7687a..1cf89bc 100644
--- a/impactutils/rupture/gc2.py
+++ b/impactutils/rupture/gc2.py
@@ -105,9 +105,9 @@ def _computeGC2(rupture, lon, lat, depth):
             else:
                 P0 = quadlist[iq1[s0ind]][1]
             if p1ind == 0:
-                P1 = quadlist[iq1[s1ind]][0]
+                P1 = quadlist[iq0[s1ind]][0]
             else:
-                P1 = quadlist[iq0[s1ind]][1]
+                P1 = quadlist[iq1[s1ind]][1]
 
             dist = geodetic.distance(P0.longitude, P0.latitude, 0.0,
                                      P1.longitude, P1.latitude, 0.0)
-- 
2.43.0


From c48e5f3a3517d18207d14615e9c3fe8dd1e01d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:18 +0000
Subject: [PATCH 43/72] fix: GC2 coordinates of sites exactly on the trace

---
 impactutils/rupture/gc2.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/impactutils/rupture/gc2.py b/impactutils/rupture/gc2.py
index 1cf89bc..3c95d54 100644
--- a/impactutils/rupture/gc2.py
+++ b/impactutils/rupture/gc2.py
@@ -187,6 +187,10 @@ def _computeGC2(rupture, lon, lat, depth):
     s_i = 0.0
     l_i = np.zeros(len(quadgc2))
 
+    # Sites on a trace (case 3 below), and their U coordinates
+    on_trace = np.zeros(newshape, dtype=bool)
+    trace_u = np.zeros(newshape, dtype=lon.dtype)
+
     for i in range(len(quadgc2)):
         G0, G1, G2, G3 = quadgc2[i]
 
@@ -203,10 +207,8 @@ def _computeGC2(rupture, lon, lat, depth):
 
         # Case 3: t_i == 0 and 0 <= u_i <= l_i
         w_i = np.zeros_like(t_i)
-
-        # To avoid division by zero in totweight later on:
-        ix = (t_i == 0) & (0 <= u_i) & (u_i <= l_i[i])
-        totweight[ix] = 1.0
+        on_this = (t_i == 0) & (0 <= u_i) & (u_i <= l_i[i])
+        on_trace = on_trace | on_this
 
         # Case 1:
         ix = t_i != 0
@@ -222,6 +224,7 @@ def _computeGC2(rupture, lon, lat, depth):
 
         if n_groups == 1:
             GC2U = GC2U + w_i * (u_i + s_i)
+            trace_u[on_this] = u_i[on_this] + s_i
         else:
             if i == 0:
                 qind = np.array(range(len(quadgc2)))
@@ -240,9 +243,14 @@ def _computeGC2(rupture, lon, lat, depth):
 
             s_ij = s_ij_1 + s_ij_2
             GC2U = GC2U + w_i * (u_i + s_ij)
+            trace_u[on_this] = u_i[on_this] + s_ij
 
         s_i = s_i + l_i[i]
 
+    # The weight of the segment that a site is on is infinite
+    totweight[on_trace] = 1.0
+    GC2T[on_trace] = 0.0
+    GC2U[on_trace] = trace_u[on_trace]
     GC2T = GC2T / totweight
     GC2U = GC2U / totweight
 
-- 
2.43.0


From 8f907de066b57864a250e1b2b9872771ec676ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:54 +0000
Subject: [PATCH 44/72] fix: GC2 Ry0 depends on the order in which the traces
 are listed

---
 impactutils/rupture/gc2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/impactutils/rupture/gc2.py b/impactutils/rupture/gc2.py
index 3c95d54..e87d85b 100644
--- a/impactutils/rupture/gc2.py
+++ b/impactutils/rupture/gc2.py
@@ -188,6 +188,7 @@ def _computeGC2(rupture, lon, lat, depth):
     l_i = np.zeros(len(quadgc2))
 
     # Sites on a trace (case 3 below), and their U coordinates
+    u_max = -np.inf  # largest U of any trace
     on_trace = np.zeros(newshape, dtype=bool)
     trace_u = np.zeros(newshape, dtype=lon.dtype)
 
@@ -244,6 +245,7 @@ def _computeGC2(rupture, lon, lat, depth):
             s_ij = s_ij_1 + s_ij_2
             GC2U = GC2U + w_i * (u_i + s_ij)
             trace_u[on_this] = u_i[on_this] + s_ij
+            u_max = max(u_max, s_ij + l_i[i])
 
         s_i = s_i + l_i[i]
 
@@ -275,7 +277,7 @@ def _computeGC2(rupture, lon, lat, depth):
     ix = GC2U < 0
     Ry0[ix] = np.abs(GC2U[ix])
     if n_groups > 1:
-        s_i = s_ij + l_i[-1]
+        s_i = u_max
     ix = GC2U > s_i
     Ry0[ix] = GC2U[ix] - s_i
     Ry0 = Ry0.reshape(oldshape)
-- 
2.43.0


From 67cb8fb4277e46013519a546da128da8edf1551c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:51 +0000
Subject: [PATCH 45/72] fix: GC2 of edge ruptures with several groups raises
 IndexError

---
 impactutils/rupture/edge_rupture.py | 14 ++++++++++++++
 impactutils/rupture/gc2.py          |  2 +-
 impactutils/rupture/quad_rupture.py | 10 ++++++++++
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/impactutils/rupture/edge_rupture.py b/impactutils/rupture/edge_rupture.py
index f019b89..30edf2e 100755
--- a/impactutils/rupture/edge_rupture.py
+++ b/impactutils/rupture/edge_rupture.py
@@ -372,6 +372,20 @@ class EdgeRupture(Rupture):
         """
         return copy.deepcopy(self._group_index)
 
+    def _getQuadGroupIndex(self):
+        """
+        Return a list of quadrilateral group indexes.
+
+        Returns:
+            list: Group indexes; one for each quadrilateral that
+                getQuadrilaterals returns.
+        """
+        quad_index = []
+        for group in np.unique(self._group_index):
+            nq = np.sum(self._group_index == group) - 1
+            quad_index.extend([group] * nq)
+        return quad_index
+
     def _computeStrikeDip(self):
         """
         Loop over all triangles and get the average normal, north, and up
diff --git a/impactutils/rupture/gc2.py b/impactutils/rupture/gc2.py
index e87d85b..2378dd3 100644
--- a/impactutils/rupture/gc2.py
+++ b/impactutils/rupture/gc2.py
@@ -60,7 +60,7 @@ def _computeGC2(rupture, lon, lat, depth):
     # First sort out strike discordance and nominal strike prior to
     # starting the loop if there is more than one group/trace.
     # -------------------------------------------------------------------------
-    group_ind = rupture._getGroupIndex()
+    group_ind = rupture._getQuadGroupIndex()
 
     # Need group_ind as numpy array for sensible indexing...
     group_ind_np = np.array(group_ind)
diff --git a/impactutils/rupture/quad_rupture.py b/impactutils/rupture/quad_rupture.py
index 7a5c52f..f206e9f 100755
--- a/impactutils/rupture/quad_rupture.py
+++ b/impactutils/rupture/quad_rupture.py
@@ -874,6 +874,16 @@ class QuadRupture(Rupture):
         """
         return copy.deepcopy(self._group_index)
 
+    def _getQuadGroupIndex(self):
+        """
+        Return a list of quadrilateral group indexes.
+
+        Returns:
+            list: Group indexes; one for each quadrilateral that
+                getQuadrilaterals returns.
+        """
+        return self._getGroupIndex()
+
     @property
     def lats(self):
         """
-- 
2.43.0


From e94d8c53d3f2420d1e7a731779afb03d666a85d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:26 +0000
Subject: [PATCH 46/72] fix: getDepthAtPoint mixes kilometres and metres

---
 impactutils/rupture/quad_rupture.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/impactutils/rupture/quad_rupture.py b/impactutils/rupture/quad_rupture.py
index f206e9f..17fccf1 100755
--- a/impactutils/rupture/quad_rupture.py
+++ b/impactutils/rupture/quad_rupture.py
@@ -137,8 +137,8 @@ class QuadRupture(Rupture):
         # dot product
         sxdd = ddn.dot(s0sx)
 
-        # get width of quad (convert from km to m)
-        w = get_quad_width(quad) * 1000
+        # get width of quad (km, like the projected coordinates)
+        w = get_quad_width(quad)
 
         # Get weights for top and bottom edge depths
         N = get_quad_normal(quad)
@@ -149,7 +149,7 @@ class QuadRupture(Rupture):
         wtb = sxdd / ws
 
         # Compute the depth of of the plane at Px:
-        depth = wtt * P0.z + wtb * P3.z * 1000
+        depth = wtt * P0.z + wtb * P3.z
 
         return depth
 
-- 
2.43.0


From 6cb1251d7fa9a5a73bff28c8a6c58a5593e519aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:11 +0000
Subject: [PATCH 47/72] fix: Rjb of vertical ruptures along the equator is 0
 everywhere

---
 impactutils/rupture/utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/impactutils/rupture/utils.py b/impactutils/rupture/utils.py
index 1efa3bb..8f07c2c 100755
--- a/impactutils/rupture/utils.py
+++ b/impactutils/rupture/utils.py
@@ -445,7 +445,12 @@ def _quad_distance(q, points, horizontal=False):
     p3 = Vector.fromPoint(P3)
 
     # Make a unit vector normal to the plane
-    normalVector = (p1 - p0).cross(p2 - p0).norm()
+    normalVector = (p1 - p0).cross(p2 - p0)
+
+    # The surface projection of a vertical quad is a line
+    is_line = normalVector.mag() == 0
+    if not is_line:
+        normalVector = normalVector.norm()
 
     dist = np.ones_like(points[:, 0]) * np.nan
 
@@ -466,6 +471,8 @@ def _quad_distance(q, points, horizontal=False):
     sgn3 = np.signbit(np.sum(n3 * p3d, axis=1))
 
     inside_idx = (sgn0 == sgn1) & (sgn1 == sgn2) & (sgn2 == sgn3)
+    if is_line:
+        inside_idx[:] = False
     if horizontal:
         dist[inside_idx] = 0.0
     else:
-- 
2.43.0


From eb66f01e9c0b0915c2f0d84e761ac28568c8385d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:55 +0000
Subject: [PATCH 48/72] fix: get_distance changes the mesh spacing of the
 rupture

---
 impactutils/rupture/distance.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/impactutils/rupture/distance.py b/impactutils/rupture/distance.py
index 3684f23..a57feae 100755
--- a/impactutils/rupture/distance.py
+++ b/impactutils/rupture/distance.py
@@ -168,8 +168,6 @@ def get_distance(methods, lat, lon, dep, rupture, dx=0.5):
     Returns:
        dict: dictionary of numpy arrays of distances, size of lon.shape.
     """
-    rupture._mesh_dx = dx
-
     # Dictionary for holding/returning the requested distances
     distdict = dict()
 
@@ -202,13 +200,19 @@ def get_distance(methods, lat, lon, dep, rupture, dx=0.5):
     # Rupture distances
     # -------------------------------------------------------------------------
     gc2_distances = set(['rx', 'ry', 'ry0', 'U', 'T'])
-    if 'rrup' in methods:
-        distdict['rrup'], distdict['rrup_var'] = rupture.computeRrup(lon, lat,
-                                                                     dep)
-
-    if 'rjb' in methods:
-        distdict['rjb'], distdict['rjb_var'] = rupture.computeRjb(lon, lat,
-                                                                  dep)
+    # The mesh spacing applies to these distances only
+    mesh_dx = getattr(rupture, '_mesh_dx', dx)
+    rupture._mesh_dx = dx
+    try:
+        if 'rrup' in methods:
+            distdict['rrup'], distdict['rrup_var'] = rupture.computeRrup(
+                lon, lat, dep)
+
+        if 'rjb' in methods:
+            distdict['rjb'], distdict['rjb_var'] = rupture.computeRjb(
+                lon, lat, dep)
+    finally:
+        rupture._mesh_dx = mesh_dx
 
     # If any of the GC2-related distances are requested, may as well do all
     if len(set(methods).intersection(gc2_distances)) > 0:
-- 
2.43.0


From 8690ca957db5e346d858cab12951e1292627b4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:03 +0000
Subject: [PATCH 49/72] fix: rupture text files with commas between the
 coordinates are rejected

---
 impactutils/rupture/factory.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/impactutils/rupture/factory.py b/impactutils/rupture/factory.py
index ca57dd9..59c013d 100644
--- a/impactutils/rupture/factory.py
+++ b/impactutils/rupture/factory.py
@@ -322,21 +322,16 @@ def text_to_json(file, new_format=True):
             polygon = []
             continue
 
-        # first try to split on whitespace
-        parts = line.split()
+        # coordinates are separated by commas and/or whitespace
+        parts = line.replace(',', ' ').split()
         if len(parts) == 1:
-            if new_format:
-                raise Exception(
-                    f'Rupture file {file} has unspecified delimiters.')
-            parts = line.split(',')
-            if len(parts) == 1:
-                raise Exception(
-                    f'Rupture file {file} has unspecified delimiters.')
+            raise Exception(
+                f'Rupture file {file} has unspecified delimiters.')
 
         if len(parts) != 3:
             msg = f'Rupture file {file} is not in lat, lon, depth format.'
             if new_format:
-                f'Rupture file {file} is not in lon, lat, depth format.'
+                msg = f'Rupture file {file} is not in lon, lat, depth format.'
             raise Exception(msg)
 
         parts = [float(p) for p in parts]
-- 
2.43.0


From fa2cbb2bdd546a183dbbd57f21473d3d61588ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:39 +0000
Subject: [PATCH 50/72] fix: writeTextFile writes references of several lines
 as coordinates

---
 impactutils/rupture/quad_rupture.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/impactutils/rupture/quad_rupture.py b/impactutils/rupture/quad_rupture.py
index 17fccf1..875f219 100755
--- a/impactutils/rupture/quad_rupture.py
+++ b/impactutils/rupture/quad_rupture.py
@@ -408,7 +408,9 @@ class QuadRupture(Rupture):
             f = open(rupturefile, 'wt')
         else:
             f = rupturefile  # just a reference to the input file-like object
-        f.write(f'#{self._reference}\n')
+        # every line of the reference has to be a comment
+        for line in str(self._reference).splitlines() or ['']:
+            f.write(f'#{line}\n')
         for quad in self.getQuadrilaterals():
             P0, P1, P2, P3 = quad
             f.write(f"{P0.latitude:.4f} {P0.longitude:.4f} {P0.depth:.4f}\n")
-- 
2.43.0


From 4a213e00afea6423e39cba6612ceac28ba4c2f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:30 +0000
Subject: [PATCH 51/72] fix: Origin changes the event dictionary it is made
 from

---
 impactutils/rupture/origin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/impactutils/rupture/origin.py b/impactutils/rupture/origin.py
index ba3505c..417404f 100755
--- a/impactutils/rupture/origin.py
+++ b/impactutils/rupture/origin.py
@@ -74,6 +74,9 @@ class Origin(object):
         # ---------------------------------------------------------------------
         # Check some types, ranges, and defaults
         # ---------------------------------------------------------------------
+        # don't change the dictionary of the caller
+        event = dict(event)
+
         if not type(event['id']) is str and event['id'] is not None:
             raise TypeError('event id  must be a string.')
 
-- 
2.43.0


From f2353e8d2bad43fbcd7345ab48bc3399baf67306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:30 +0000
Subject: [PATCH 52/72] fix: event files with separate date attributes cannot
 be read

---
 impactutils/rupture/origin.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/impactutils/rupture/origin.py b/impactutils/rupture/origin.py
index 417404f..fabadf0 100755
--- a/impactutils/rupture/origin.py
+++ b/impactutils/rupture/origin.py
@@ -384,13 +384,13 @@ def read_event_file(eventxml):
            'day' not in xmldict or 'hour' not in xmldict or \
            'minute' not in xmldict or 'second' not in xmldict:
             raise ValueError("Missing date/time elements in event file.")
-        eqdict['time'] = HistoricTime.datetime(
-            xmldict['year'],
-            xmldict['month'],
-            xmldict['day'],
-            xmldict['hour'],
-            xmldict['minute'],
-            xmldict['second'])
+        eqdict['time'] = HistoricTime(
+            int(xmldict['year']),
+            int(xmldict['month']),
+            int(xmldict['day']),
+            int(xmldict['hour']),
+            int(xmldict['minute']),
+            int(xmldict['second']))
 
     eqdict['lat'] = float(xmldict['lat'])
     eqdict['lon'] = float(xmldict['lon'])
-- 
2.43.0


From 97d4eab3aa973b2bc3f734403c30664aed422a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:30 +0000
Subject: [PATCH 53/72] fix: read_source fails on blank lines and cuts values
 at an equals sign

---
 impactutils/rupture/origin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impactutils/rupture/origin.py b/impactutils/rupture/origin.py
index fabadf0..c81fb5c 100755
--- a/impactutils/rupture/origin.py
+++ b/impactutils/rupture/origin.py
@@ -426,9 +426,9 @@ def read_source(sourcefile):
         f = sourcefile
     params = {}
     for line in f.readlines():
-        if line.startswith('#'):
+        if line.startswith('#') or not line.strip():
             continue
-        parts = line.split('=')
+        parts = line.split('=', 1)
         key = parts[0].strip()
         value = parts[1].strip()
         # see if this is some sort of number
-- 
2.43.0


From d5315a005d27a6b79397d443d24c2a674113aaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:09 +0000
Subject: [PATCH 54/72] fix: HistoricTime writes years before 1000 in a form
 strptime cannot read

---
 impactutils/time/ancient_time.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/impactutils/time/ancient_time.py b/impactutils/time/ancient_time.py
index b902804..a1e4717 100755
--- a/impactutils/time/ancient_time.py
+++ b/impactutils/time/ancient_time.py
@@ -40,7 +40,8 @@ class HistoricTime(datetime):
         future_year = year + factor * 400
         assert future_year >= 1900
 
-        format = Specifier('%Y').replace_in(format, year)
+        # four digits, so that strptime can read the year back
+        format = Specifier('%Y').replace_in(format, f'{year:04d}')
         result = self.replace(year=future_year).strftime(format)
         if any(f.ispresent_in(format) for f in map(Specifier, ['%c', '%x'])):
             msg = "'%c', '%x' produce unreliable results for year < 1900"
-- 
2.43.0


From c6e3fec41279923d635baf4735239065ed252355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:47 +0000
Subject: [PATCH 55/72] fix: the reference of the event replaces the reference
 of the rupture

---
 impactutils/rupture/edge_rupture.py  | 4 ++++
 impactutils/rupture/point_rupture.py | 2 ++
 impactutils/rupture/quad_rupture.py  | 6 ++++++
 3 files changed, 12 insertions(+)

diff --git a/impactutils/rupture/edge_rupture.py b/impactutils/rupture/edge_rupture.py
index 30edf2e..a3baadd 100755
--- a/impactutils/rupture/edge_rupture.py
+++ b/impactutils/rupture/edge_rupture.py
@@ -83,6 +83,8 @@ class EdgeRupture(Rupture):
         # Add origin information to metadata
         odict = origin.__dict__
         for k, v in odict.items():
+            if k == 'reference':
+                continue  # the rupture has its own reference
             if isinstance(v, HistoricTime):
                 d['metadata'][k] = v.strftime(constants.TIMEFMT)
             else:
@@ -172,6 +174,8 @@ class EdgeRupture(Rupture):
         # Add origin information to metadata
         odict = origin.__dict__
         for k, v in odict.items():
+            if k == 'reference':
+                continue  # the rupture has its own reference
             if isinstance(v, HistoricTime):
                 d['metadata'][k] = v.strftime(constants.TIMEFMT)
             else:
diff --git a/impactutils/rupture/point_rupture.py b/impactutils/rupture/point_rupture.py
index 8f0872a..e883055 100755
--- a/impactutils/rupture/point_rupture.py
+++ b/impactutils/rupture/point_rupture.py
@@ -58,6 +58,8 @@ class PointRupture(Rupture):
         # Add origin information to metadata
         odict = origin.__dict__
         for k, v in odict.items():
+            if k == 'reference':
+                continue  # the rupture has its own reference
             if isinstance(v, HistoricTime):
                 d['metadata'][k] = v.strftime(TIMEFMT)
             else:
diff --git a/impactutils/rupture/quad_rupture.py b/impactutils/rupture/quad_rupture.py
index 875f219..ae09f62 100755
--- a/impactutils/rupture/quad_rupture.py
+++ b/impactutils/rupture/quad_rupture.py
@@ -65,6 +65,8 @@ class QuadRupture(Rupture):
         # Add origin information to metadata
         odict = origin.__dict__
         for k, v in odict.items():
+            if k == 'reference':
+                continue  # the rupture has its own reference
             if isinstance(v, datetime):
                 d['metadata'][k] = v.strftime(constants.TIMEFMT)
             else:
@@ -384,6 +386,8 @@ class QuadRupture(Rupture):
         # Add origin information to metadata
         odict = origin.__dict__
         for k, v in odict.items():
+            if k == 'reference':
+                continue  # the rupture has its own reference
             if isinstance(v, HistoricTime):
                 d['metadata'][k] = v.strftime(constants.TIMEFMT)
             else:
@@ -664,6 +668,8 @@ class QuadRupture(Rupture):
         # Add origin information to metadata
         odict = origin.__dict__
         for k, v in odict.items():
+            if k == 'reference':
+                continue  # the rupture has its own reference
             if isinstance(v, HistoricTime):
                 d['metadata'][k] = v.strftime(constants.TIMEFMT)
             else:
-- 
2.43.0


From 8620b71af4472cbf0b1e7e34370bb6f42d4970af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:47 +0000
Subject: [PATCH 56/72] fix: rupture_from_dict loses the reference of point
 ruptures

---
 impactutils/rupture/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/rupture/factory.py b/impactutils/rupture/factory.py
index 59c013d..e1eea15 100644
--- a/impactutils/rupture/factory.py
+++ b/impactutils/rupture/factory.py
@@ -178,7 +178,7 @@ def rupture_from_dict(d):
         else:
             rupt = QuadRupture(d, origin)
     elif geo_type == 'Point':
-        rupt = PointRupture(origin)
+        rupt = PointRupture(origin, reference=d['metadata']['reference'])
 
     return rupt
 
-- 
2.43.0


From c8d5079b3c61f41ee57979dd0183282ae451ce2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:47 +0000
Subject: [PATCH 57/72] fix: rupture_from_dict_and_origin adds the origin to
 the dictionary of the caller

---
 impactutils/rupture/factory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/impactutils/rupture/factory.py b/impactutils/rupture/factory.py
index e1eea15..6199461 100644
--- a/impactutils/rupture/factory.py
+++ b/impactutils/rupture/factory.py
@@ -123,6 +123,9 @@ def rupture_from_dict_and_origin(rupdict, origin, mesh_dx=0.5):
     """
     validate_json(rupdict)
 
+    # The origin is added to the dictionary, don't mess with the input
+    rupdict = copy.deepcopy(rupdict)
+
     # Is this a QuadRupture or an EdgeRupture?
     valid_quads = is_quadrupture_class(rupdict)
 
-- 
2.43.0


From e5eb126da44036aaaa42c94a7f3211052460c719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:20 +0000
Subject: [PATCH 58/72] fix: sorting cities by columns always failed

---
 impactutils/mapping/city.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/impactutils/mapping/city.py b/impactutils/mapping/city.py
index 1c70718..41c43fe 100755
--- a/impactutils/mapping/city.py
+++ b/impactutils/mapping/city.py
@@ -198,7 +198,8 @@ class Cities(object):
         Raises:
             KeyError: When column(s) are not in the list of dataframe columns.
         """
-        bad_columns = set(columns).difference(set(self._dataframe.columns()))
+        names = [columns] if isinstance(columns, str) else columns
+        bad_columns = set(names).difference(set(self._dataframe.columns))
         if bad_columns:
             raise KeyError(
                 f'Column(s) not in list of DataFrame columns: {str(bad_columns)}')
-- 
2.43.0


From d42fd7fd1229011ec4150cc5720ea9706a7577e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:20 +0000
Subject: [PATCH 59/72] fix: limitByGrid uses DataFrame.append, which pandas 2
 removed

---
 impactutils/mapping/city.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/mapping/city.py b/impactutils/mapping/city.py
index 41c43fe..36d031d 100755
--- a/impactutils/mapping/city.py
+++ b/impactutils/mapping/city.py
@@ -327,7 +327,7 @@ class Cities(object):
                 if newdf is None:
                     newdf = tdf.copy()
                 else:
-                    newdf = newdf.append(tdf)
+                    newdf = pd.concat([newdf, tdf])
         return type(self)(newdf)
 
     def limitByName(self, cityname):
-- 
2.43.0


From e9506661fbd20d7bf35a6d8f1e2a410fa8ab9e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:20 +0000
Subject: [PATCH 60/72] fix: limitByGrid dropped the westernmost and
 southernmost cities

---
 impactutils/mapping/city.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/impactutils/mapping/city.py b/impactutils/mapping/city.py
index 36d031d..e35c59c 100755
--- a/impactutils/mapping/city.py
+++ b/impactutils/mapping/city.py
@@ -308,12 +308,14 @@ class Cities(object):
         newdf = None
         # start from the bottom left of our grid, and trim our cities.
 
+        # limitByBounds leaves out the lower bounds, so the outer cells have to
+        # be open for the cities on the edge of the grid to be in them.
         for i in range(0, ny):
-            cellymin = ymin + (i * dy)
-            cellymax = cellymin + dy
+            cellymin = ymin + (i * dy) if i > 0 else -np.inf
+            cellymax = ymin + ((i + 1) * dy) if i < ny - 1 else np.inf
             for j in range(0, nx):
-                cellxmin = xmin + (j * dx)
-                cellxmax = cellxmin + dx
+                cellxmin = xmin + (j * dx) if j > 0 else -np.inf
+                cellxmax = xmin + ((j + 1) * dx) if j < nx - 1 else np.inf
                 tcities = self.limitByBounds(
                     (cellxmin, cellxmax, cellymin, cellymax))
                 # older versions of pandas use a different sort function
-- 
2.43.0


From 98001febf65e297bbc2c9a62c3d4bf17ae6a1018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:26 +0000
Subject: [PATCH 61/72] fix: getAxesClone failed

---
 impactutils/mapping/mercatormap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/mapping/mercatormap.py b/impactutils/mapping/mercatormap.py
index 4ee38a7..61eb584 100644
--- a/impactutils/mapping/mercatormap.py
+++ b/impactutils/mapping/mercatormap.py
@@ -173,7 +173,7 @@ class MercatorMap(object):
         Returns:
             Cartopy GeoAxes instance.
         """
-        return self._axes_clone
+        return self._ax_clone
 
     def getFonts(self):
         """Get list of supported fonts.
-- 
2.43.0


From ae473173cacf4986a3b9e9cf5afcad61c419bffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:26 +0000
Subject: [PATCH 62/72] fix: the largest city was drawn even when its label was
 off the map

---
 impactutils/mapping/mercatormap.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/impactutils/mapping/mercatormap.py b/impactutils/mapping/mercatormap.py
index 61eb584..d5e9812 100644
--- a/impactutils/mapping/mercatormap.py
+++ b/impactutils/mapping/mercatormap.py
@@ -261,8 +261,8 @@ class MercatorMap(object):
         rights = rights[ikeep]
         bottoms = bottoms[ikeep]
         tops = tops[ikeep]
-        ikeep = [0]  # indices of non-overlapping cities in dataframe
-        for i in range(1, len(tops)):
+        ikeep = []  # indices of non-overlapping cities in dataframe
+        for i in range(0, len(tops)):
             # what is this cities name?
             # Seems like an unused variable...
             # cname = newdf.iloc[i]['name']
@@ -313,16 +313,8 @@ class MercatorMap(object):
         lefts = np.ones(len(df)) * np.nan
         rights = np.ones(len(df)) * np.nan
 
-        # get the extent of the first city
-        left, right, bottom, top = self.getCityEdges(
-            df.iloc[0], fontname, fontsize, shadow, zorder)
-        lefts[0] = left
-        rights[0] = right
-        bottoms[0] = bottom
-        tops[0] = top
-
         # loop over all the cities and get their extents on the map
-        for i in range(1, len(df)):
+        for i in range(0, len(df)):
             row = df.iloc[i]
             left, right, bottom, top = self.getCityEdges(
                 row, fontname, fontsize, shadow, zorder)
-- 
2.43.0


From 6218abe8fb29945c300d17822e7fc6809eae733c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:53 +0000
Subject: [PATCH 63/72] fix: draw_scale failed when given the length of the bar

---
 impactutils/mapping/scalebar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/mapping/scalebar.py b/impactutils/mapping/scalebar.py
index 7f85a5c..5840e55 100644
--- a/impactutils/mapping/scalebar.py
+++ b/impactutils/mapping/scalebar.py
@@ -224,9 +224,9 @@ def draw_scale(ax, pos='ll', padx=0.1, pady=0.1, font_size=None, units='km',
     gap_height = top_data - bottom_data
 
     # what is the bar length data units?
+    map_width_data = xmax - xmin
     if bar_length is None:
         lengths = np.array(list(LENGTHS.keys()))
-        map_width_data = xmax - xmin
         map_width_meters = map_width_data * dataunits_to_meters
         map_width_scale_units = map_width_meters * 1 / UNITS[units]
         qmap_width_scale_units = map_width_scale_units * BAR_WIDTH_FRACTION
-- 
2.43.0


From 0e57c9c52e3ea605c2c4394f3d5d2de1eabf6df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:53 +0000
Subject: [PATCH 64/72] fix: scale bar labels of lengths that are not whole
 numbers were cut

---
 impactutils/mapping/scalebar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/impactutils/mapping/scalebar.py b/impactutils/mapping/scalebar.py
index 5840e55..c48e96b 100644
--- a/impactutils/mapping/scalebar.py
+++ b/impactutils/mapping/scalebar.py
@@ -288,8 +288,8 @@ def draw_scale(ax, pos='ll', padx=0.1, pady=0.1, font_size=None, units='km',
             color = 'black'
         else:
             color = 'white'
-            tick_i = int(i * (bar_length / divisions))
-            scale_tick = f'{tick_i:d}'
+            tick_i = i * bar_length / divisions
+            scale_tick = f'{tick_i:.10g}'
             if is_div_even or i == 0:
                 # if we have an even number of divisions, draw every other
                 # tick mark
@@ -306,7 +306,7 @@ def draw_scale(ax, pos='ll', padx=0.1, pady=0.1, font_size=None, units='km',
         ax.fill(barx, recty, color, zorder=zorder)
     # draw the last tick mark and number
     ax.text(bar_left + bar_length_data, bar_bottom - (tick_height + gap_height),
-            f'{int(bar_length):d}', ha='center', zorder=zorder, va='top',
+            f'{bar_length:.10g}', ha='center', zorder=zorder, va='top',
             fontsize=font_size)
     left = bar_left + bar_length_data
     bottom = bar_bottom - tick_height
-- 
2.43.0


From ac792d6c0ddf4d62d60ef2ab44cacc8a1b5865d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:50 +0000
Subject: [PATCH 65/72] fix: import time, so that a 503 answer is asked for
 again

---
 impactutils/comcat/query.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/impactutils/comcat/query.py b/impactutils/comcat/query.py
index 98f7c3a..31153b8 100644
--- a/impactutils/comcat/query.py
+++ b/impactutils/comcat/query.py
@@ -3,6 +3,7 @@ from datetime import datetime
 import json
 from urllib import request
 from urllib.error import HTTPError
+import time
 import warnings
 
 
-- 
2.43.0


From b2edfbffd06329ede8d80e4d151ec4ac6b6333da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:50 +0000
Subject: [PATCH 66/72] fix: do not take other HTTP errors for an empty answer

---
 impactutils/comcat/query.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/impactutils/comcat/query.py b/impactutils/comcat/query.py
index 31153b8..170cd82 100644
--- a/impactutils/comcat/query.py
+++ b/impactutils/comcat/query.py
@@ -33,6 +33,7 @@ def _get_url_data(url, timeout=TIMEOUT):
             except Exception as msg:
                 raise Exception(
                     f'Error downloading data from url {url}.  "{msg}".')
+        raise
 
 
 class GeoServe(object):
-- 
2.43.0


From 893fedf93d3b25a43ec2f4b77259848207b754e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:50 +0000
Subject: [PATCH 67/72] fix: omit the metadata from GeoServe regions, as
 documented

---
 impactutils/comcat/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/comcat/query.py b/impactutils/comcat/query.py
index 170cd82..fe7133e 100644
--- a/impactutils/comcat/query.py
+++ b/impactutils/comcat/query.py
@@ -95,7 +95,7 @@ class GeoServe(object):
             dict: geojson-like dictionaries, described here: https://earthquake.usgs.gov/ws/geoserve/regions.php
                   The 'metadata' dictionary is omitted.
         """
-        self._regdict.get('metadata', None)
+        self._regdict.pop('metadata', None)
         return self._regdict
 
     def getAuthoritative(self):
-- 
2.43.0


From cd3ac00707877762e649b710818336f95b8556e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:17 +0000
Subject: [PATCH 68/72] fix: scp put: a file cut while it is sent is an error,
 a grown one is sent up to its announced size

---
 impactutils/extern/scp/scp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/impactutils/extern/scp/scp.py b/impactutils/extern/scp/scp.py
index 88b1ddf..36addf8 100644
--- a/impactutils/extern/scp/scp.py
+++ b/impactutils/extern/scp/scp.py
@@ -251,7 +251,11 @@ class SCPClient(object):
             buff_size = self.buff_size
             chan = self.channel
             while file_pos < size:
-                chan.sendall(file_hdl.read(buff_size))
+                data = file_hdl.read(min(buff_size, size - file_pos))
+                if not data:
+                    raise SCPException(
+                        f"File '{asunicode(name)}' is shorter than announced")
+                chan.sendall(data)
                 file_pos = file_hdl.tell()
                 if self._progress:
                     self._progress(basename, size, file_pos)
-- 
2.43.0


From 445b439a426f011ea52d9c9bfb52dd7a6de60ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:17 +0000
Subject: [PATCH 69/72] fix: scp get: a connection closed within a file is an
 error

---
 impactutils/extern/scp/scp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/impactutils/extern/scp/scp.py b/impactutils/extern/scp/scp.py
index 36addf8..21b7a69 100644
--- a/impactutils/extern/scp/scp.py
+++ b/impactutils/extern/scp/scp.py
@@ -414,7 +414,10 @@ class SCPClient(object):
                 # we have to make sure we don't read the final byte
                 if size - pos <= buff_size:
                     buff_size = size - pos
-                file_hdl.write(chan.recv(buff_size))
+                data = chan.recv(buff_size)
+                if not data:
+                    raise SCPException('Connection closed while receiving')
+                file_hdl.write(data)
                 pos = file_hdl.tell()
                 if self._progress:
                     self._progress(path, size, pos)
-- 
2.43.0


From f7ece9364a94cff167956e1d4fa21f19f7873253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:17 +0000
Subject: [PATCH 70/72] fix: scp put: directories given with a trailing slash
 were sent without a name

---
 impactutils/extern/scp/scp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/extern/scp/scp.py b/impactutils/extern/scp/scp.py
index 21b7a69..3f32999 100644
--- a/impactutils/extern/scp/scp.py
+++ b/impactutils/extern/scp/scp.py
@@ -299,7 +299,7 @@ class SCPClient(object):
 
     def _send_pushd(self, directory):
         (mode, size, mtime, atime) = self._read_stats(directory)
-        basename = asbytes(os.path.basename(directory))
+        basename = os.path.basename(asbytes(directory).rstrip(bytes_sep))
         if self.preserve_times:
             self._send_time(mtime, atime)
         self.channel.sendall((f'D{mode} 0 ').encode('ascii') +
-- 
2.43.0


From 917376f6f830becad7e8e1e9fb53d7836feb56c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:17 +0000
Subject: [PATCH 71/72] fix: scp get: keep spaces at the end of file names

---
 impactutils/extern/scp/scp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impactutils/extern/scp/scp.py b/impactutils/extern/scp/scp.py
index 3f32999..d3326b3 100644
--- a/impactutils/extern/scp/scp.py
+++ b/impactutils/extern/scp/scp.py
@@ -374,7 +374,7 @@ class SCPClient(object):
 
     def _recv_file(self, cmd):
         chan = self.channel
-        parts = cmd.strip().split(b' ', 2)
+        parts = cmd.split(b' ', 2)
 
         try:
             mode = int(parts[0], 8)
-- 
2.43.0


From a260ac4f0cae6adc8051bbbef8812a6b5a5a34a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:17 +0000
Subject: [PATCH 72/72] fix: scp get: refuse file names that leave the local
 path

---
 impactutils/extern/scp/scp.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/impactutils/extern/scp/scp.py b/impactutils/extern/scp/scp.py
index d3326b3..c6b14e5 100644
--- a/impactutils/extern/scp/scp.py
+++ b/impactutils/extern/scp/scp.py
@@ -74,6 +74,16 @@ def asunicode_win(s):
         return s
 
 
+def _checked_name(name):
+    """
+    Return the name of a received file or directory, which must be a plain
+    name (as in openssh): anything else would be put outside the local path.
+    """
+    if name in (b'', b'.', b'..') or b'/' in name:
+        raise ValueError('unexpected filename')
+    return name
+
+
 class SCPClient(object):
     """
     An scp1 implementation, compatible with openssh scp.
@@ -387,7 +397,7 @@ class SCPClient(object):
                                     parts[2].decode('utf-8'))
             else:
                 path = os.path.join(asbytes(self._recv_dir),
-                                    parts[2])
+                                    _checked_name(parts[2]))
         except:
             chan.send('\x01')
             chan.close()
@@ -451,7 +461,7 @@ class SCPClient(object):
                                     parts[2].decode('utf-8'))
             else:
                 path = os.path.join(asbytes(self._recv_dir),
-                                    parts[2])
+                                    _checked_name(parts[2]))
         except:
             self.channel.send(b'\x01')
             raise SCPException('Bad directory format')
-- 
2.43.0

