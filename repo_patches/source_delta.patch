From a879c72cd6b3181225797520745e5064038d4378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:26 +0000
Subject: [PATCH 01/30] fix: compare blank optional catalogue fields explicitly

An optional field left blank is an empty string; comparing it with a number
raises TypeError where mixed comparisons are not allowed, so no catalogue with
a blank error ellipse or sigma could be read.
---
 mtoolkit/eqcatalog.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 723bf19..7ee32ef 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -212,7 +212,8 @@ class EqEntryReader(object):
 
         if field in self.compulsory_fields:
             return eq_entry[field] > 0
-        if eq_entry[field] < 0:
+        if eq_entry[field] != EqEntryReader.EMPTY_STRING and \
+            eq_entry[field] < 0:
             eq_entry[field] = EqEntryReader.EMPTY_STRING
         return True
 
@@ -260,7 +261,8 @@ class EqEntryReader(object):
         of the value in the eq_entry.
         """
 
-        if not 0 <= eq_entry[field] <= 59:
+        if eq_entry[field] == EqEntryReader.EMPTY_STRING or \
+            not 0 <= eq_entry[field] <= 59:
             eq_entry[field] = EqEntryReader.EMPTY_STRING
         return True
 
@@ -287,7 +289,8 @@ class EqEntryReader(object):
         (i.e. ErrorStrike, SemiMinor90, SemiMajor90).
         """
 
-        if not 0 <= eq_entry[field] <= 360 or \
+        if eq_entry[field] == EqEntryReader.EMPTY_STRING or \
+            not 0 <= eq_entry[field] <= 360 or \
             eq_entry['SemiMinor90'] == EqEntryReader.EMPTY_STRING or \
             eq_entry['SemiMajor90'] == EqEntryReader.EMPTY_STRING or \
             not (eq_entry['SemiMinor90'] <= eq_entry['SemiMajor90']):
-- 
2.43.0


From 9ffc850501245011121411bbdec44c72233814ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:31 +0000
Subject: [PATCH 02/30] fix: convert with float() rather than the removed
 np.float alias

numpy 1.24 removed np.float, so every b-value and maximum magnitude estimate raised AttributeError.
---
 mtoolkit/scientific/maximum_magnitude.py | 10 +++++-----
 mtoolkit/scientific/recurrence.py        |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/mtoolkit/scientific/maximum_magnitude.py b/mtoolkit/scientific/maximum_magnitude.py
index ea5f84f..d5f31e1 100755
--- a/mtoolkit/scientific/maximum_magnitude.py
+++ b/mtoolkit/scientific/maximum_magnitude.py
@@ -57,7 +57,7 @@ def h_smooth(mag):
     :rtype hfact: Float
     """
 
-    neq = np.float(np.shape(mag)[0])
+    neq = float(np.shape(mag)[0])
 
     # Calculate inter-quartile range
     qtiles = mquantiles(mag, prob=[0.25, 0.75])
@@ -204,12 +204,12 @@ def kijko_nonparametric_gauss(mag, mag_sig, neq,
     # Find number_eqs largest events
     if np.shape(mag)[0] <= neq:
         # Catalogue smaller than number of required events
-        neq = np.float(np.shape(mag)[0])
+        neq = float(np.shape(mag)[0])
     else:
         # Select number_eqs largest events
         mag = np.sort(mag, kind='quicksort')
         mag = mag[-neq:]
-        neq = np.float(neq)
+        neq = float(neq)
 
     mmin = np.min(mag)
     # Get smoothing factor
@@ -252,7 +252,7 @@ def cumulative_moment(year, mag):
     # Calculate seismic moment
     m_o = 10. ** (9.05 + 1.5 * mag)
     year_range = np.arange(np.min(year), np.max(year) + 1, 1)
-    nyr = np.float(np.shape(year_range)[0])
+    nyr = np.shape(year_range)[0]
     morate = np.zeros(nyr, dtype=float)
     # Get moment release per year
     for loc, tyr in enumerate(year_range):
@@ -260,7 +260,7 @@ def cumulative_moment(year, mag):
         if np.sum(idx) > 0:
             # Some moment release in that year
             morate[loc] = np.sum(m_o[idx])
-    ave_morate = np.sum(morate) / nyr
+    ave_morate = np.sum(morate) / float(nyr)
 
     # Average moment rate vector
     exp_morate = np.cumsum(ave_morate * np.ones(nyr))
diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index af60234..609ecb4 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -205,15 +205,15 @@ def b_maxlike_time(year, mag, ctime, cmag, dmag, ref_mag=0.0):
         # differences.
         id1 = np.logical_and(year >= ctime[ival],
                     mag >= (m_c - mag_eq_tolerance))
-        nyr = np.float(np.max(year[id1]) - np.min(year[id1]) + 1)
+        nyr = float(np.max(year[id1]) - np.min(year[id1]) + 1)
 
         # Get a- and b- value for the selected events
         temp_rec_table = recurrence_table(mag[id1], dmag, year[id1])
         bval, sigma_b = b_max_likelihood(temp_rec_table[:, 0],
                                          temp_rec_table[:, 1], dmag, m_c)
 
-        aval = np.log10(np.float(np.sum(id1)) / nyr) + bval * m_c
-        sigma_a = np.abs(np.log10(np.float(np.sum(id1)) / nyr) +
+        aval = np.log10(float(np.sum(id1)) / nyr) + bval * m_c
+        sigma_a = np.abs(np.log10(float(np.sum(id1)) / nyr) +
             (bval + sigma_b) * ref_mag - aval)
 
         # Calculate reference rate
-- 
2.43.0


From a2a150723061898d52df82c99901c2847c9a512c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:50 +0000
Subject: [PATCH 03/30] fix: use the standard deviation of the magnitudes in
 the Silverman smoothing

h_smooth compared the function np.std with the interquartile range instead of the deviation of the sample, which raises TypeError (and under Python 2 silently dropped that term).
---
 mtoolkit/scientific/maximum_magnitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/maximum_magnitude.py b/mtoolkit/scientific/maximum_magnitude.py
index d5f31e1..dc25f54 100755
--- a/mtoolkit/scientific/maximum_magnitude.py
+++ b/mtoolkit/scientific/maximum_magnitude.py
@@ -62,7 +62,7 @@ def h_smooth(mag):
     # Calculate inter-quartile range
     qtiles = mquantiles(mag, prob=[0.25, 0.75])
     iqr = qtiles[1] - qtiles[0]
-    hfact = 0.9 * np.min([np.std, iqr / 1.34]) * (neq ** (-1. / 5.))
+    hfact = 0.9 * np.min([np.std(mag), iqr / 1.34]) * (neq ** (-1. / 5.))
     # Round h to 2 dp
     hfact = np.round(100. * hfact) / 100.
     return hfact
-- 
2.43.0


From 60a63abb49a87eddccf38008840dce858ef6a2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:50 +0000
Subject: [PATCH 04/30] fix: write the NRML result in binary mode

lxml writes bytes; a text-mode file raised TypeError on every result.
---
 nrml/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrml/writer.py b/nrml/writer.py
index d793fdc..98c3a48 100644
--- a/nrml/writer.py
+++ b/nrml/writer.py
@@ -59,7 +59,7 @@ class AreaSourceWriter(object):
         root_elem = _write_body(root_elem, area_sources)
 
         tree = etree.ElementTree(root_elem)
-        tree.write(open(self.filename, 'w'),
+        tree.write(open(self.filename, 'wb'),
             xml_declaration=True, encoding='utf-8',
             pretty_print=True)
 
-- 
2.43.0


From 9e5d9b22c63246a538784e11be0e8bde8a033340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:50 +0000
Subject: [PATCH 05/30] fix: flatten the distance column before indexing in
 Gardner-Knopoff

haversine returns an (n, 1) array, which cannot be assigned through a boolean mask.
---
 mtoolkit/scientific/declustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/declustering.py b/mtoolkit/scientific/declustering.py
index 3f0983a..2905a39 100644
--- a/mtoolkit/scientific/declustering.py
+++ b/mtoolkit/scientific/declustering.py
@@ -207,7 +207,7 @@ def gardner_knopoff_decluster(
             vsel1 = haversine(
                 catalog_matrix[vsel, 3], catalog_matrix[vsel, 4],
                 catalog_matrix[i, 3], catalog_matrix[i, 4]) <= sw_space[i]
-            vsel[vsel] = vsel1
+            vsel[vsel] = vsel1.flatten()
             temp_vsel = np.copy(vsel)
             temp_vsel[i] = False
             if any(temp_vsel):
-- 
2.43.0


From 346904ddc138b3f1e3111e776b0dde947e3ac7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:10 +0000
Subject: [PATCH 06/30] fix: report the line of an unconvertible compulsory
 float field

EqEntryValidationError was built without its line number, so a bad longitude, latitude, depth or Mw raised TypeError instead.
---
 mtoolkit/eqcatalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 7ee32ef..ee3356b 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -189,7 +189,7 @@ class EqEntryReader(object):
                 except ValueError:
                     if key in self.compulsory_fields:
                         raise EqEntryValidationError(key,
-                            dict_fields_values[key])
+                            dict_fields_values[key], self.current_line)
                     else:
                         dict_fields_values[key] = EqEntryReader.EMPTY_STRING
 
-- 
2.43.0


From 373bf5df713104d2521d069e5a1021485e875d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:39 +0000
Subject: [PATCH 07/30] fix: treat the columns a short catalogue row lacks as
 blank

csv gives None for them, on which int() and float() raise TypeError: a missing optional field is now blank and a missing compulsory one is a validation error.
---
 mtoolkit/eqcatalog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index ee3356b..1e22270 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -176,7 +176,7 @@ class EqEntryReader(object):
                 try:
                     dict_fields_values[key] = int(
                         dict_fields_values[key])
-                except ValueError:
+                except (ValueError, TypeError):
                     # fields in self.to_int are all compulsory
                     raise EqEntryValidationError(key,
                             dict_fields_values[key], self.current_line)
@@ -186,7 +186,7 @@ class EqEntryReader(object):
                 try:
                     dict_fields_values[key] = float(
                         dict_fields_values[key])
-                except ValueError:
+                except (ValueError, TypeError):
                     if key in self.compulsory_fields:
                         raise EqEntryValidationError(key,
                             dict_fields_values[key], self.current_line)
-- 
2.43.0


From b9c50dae448b7797d3a4c19c5b92b72757b7f30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:48 +0000
Subject: [PATCH 08/30] fix: reject day zero and negative days in February

check_day had a lower bound for every month but February.
---
 mtoolkit/eqcatalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 1e22270..ce517d6 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -236,7 +236,7 @@ class EqEntryReader(object):
         Return a bool stating if check is passed.
         """
 
-        return (eq_entry['month'] == 2 and eq_entry[field] <= 29)\
+        return (eq_entry['month'] == 2 and 1 <= eq_entry[field] <= 29)\
             or (eq_entry['month'] != 2 and 1 <= eq_entry[field] <= 31)
 
     def check_hour(self, field, eq_entry):
-- 
2.43.0


From b2c20215283b923db96bfbcbc724631dedb17292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:56 +0000
Subject: [PATCH 09/30] fix: keep seconds between 59 and 60

second is a float; the upper bound of 59 blanked valid values such as 59.4, which the catalogues under tests/data contain.
---
 mtoolkit/eqcatalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index ce517d6..33644da 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -262,7 +262,7 @@ class EqEntryReader(object):
         """
 
         if eq_entry[field] == EqEntryReader.EMPTY_STRING or \
-            not 0 <= eq_entry[field] <= 59:
+            not 0 <= eq_entry[field] < 60:
             eq_entry[field] = EqEntryReader.EMPTY_STRING
         return True
 
-- 
2.43.0


From 9ff95ce4380b7e205558a74e3b0ccfb05338fa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:06 +0000
Subject: [PATCH 10/30] fix: accept an output file name without a directory

os.path.dirname gives '' for a file in the current directory, which both writers reported as a missing directory.
---
 mtoolkit/eqcatalog.py | 2 +-
 nrml/writer.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 33644da..cb2c5f9 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -339,7 +339,7 @@ class EqEntryWriter(object):
     """
 
     def __init__(self, output_filename):
-        output_dir = os.path.dirname(output_filename)
+        output_dir = os.path.dirname(output_filename) or os.curdir
         if not os.path.exists(output_dir):
             raise IOError('Invalid dir: %s' % output_dir)
         self.output_filename = output_filename
diff --git a/nrml/writer.py b/nrml/writer.py
index 98c3a48..d545d02 100644
--- a/nrml/writer.py
+++ b/nrml/writer.py
@@ -42,7 +42,7 @@ class AreaSourceWriter(object):
         :type filename: string
         """
 
-        dirname = os.path.dirname(filename)
+        dirname = os.path.dirname(filename) or os.curdir
         if not os.path.exists(dirname):
             raise IOError('Dir %s not found' %
                 (os.path.abspath(dirname), ))
-- 
2.43.0


From 379c6743eef49e52d3a2f9510c27afb1bb972c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:26 +0000
Subject: [PATCH 11/30] fix: keep Gardner-Knopoff clusters apart

The third argument of np.logical_and is the output array, so events already in a cluster (its mainshock included) were absorbed again by later, smaller events, leaving clusters with no mainshock.
---
 mtoolkit/scientific/declustering.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/scientific/declustering.py b/mtoolkit/scientific/declustering.py
index 2905a39..ee6aab5 100644
--- a/mtoolkit/scientific/declustering.py
+++ b/mtoolkit/scientific/declustering.py
@@ -200,8 +200,9 @@ def gardner_knopoff_decluster(
             # Find Events inside both fore- and aftershock time windows
             dt = year_dec - year_dec[i]
             vsel = np.logical_and(dt >= (-sw_time[i] * fs_time_prop),
-                                              dt <= sw_time[i],
-                                              flagvector == 0)
+                                              dt <= sw_time[i])
+            # Events already allocated to a cluster stay in it
+            vsel = np.logical_and(vsel, vcl == 0)
             # Of those events inside time window, find those inside distance
             # window
             vsel1 = haversine(
-- 
2.43.0


From 09c411279072448194c4826cccb927b68104fb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:58 +0000
Subject: [PATCH 12/30] fix: do not remove an event as the aftershock of a
 smaller one

A larger event outside its own cluster, but shortly after a smaller one, was flagged as the aftershock of that smaller event and dropped from the declustered catalogue by Gardner-Knopoff.
---
 mtoolkit/scientific/declustering.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mtoolkit/scientific/declustering.py b/mtoolkit/scientific/declustering.py
index ee6aab5..9d91286 100644
--- a/mtoolkit/scientific/declustering.py
+++ b/mtoolkit/scientific/declustering.py
@@ -203,6 +203,8 @@ def gardner_knopoff_decluster(
                                               dt <= sw_time[i])
             # Events already allocated to a cluster stay in it
             vsel = np.logical_and(vsel, vcl == 0)
+            # Larger events come first and are never aftershocks of this one
+            vsel[:i] = False
             # Of those events inside time window, find those inside distance
             # window
             vsel1 = haversine(
-- 
2.43.0


From 67f146f95a40d71e9a65850619a7b6e9e8898024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:07 +0000
Subject: [PATCH 13/30] fix: move the Afteran time window through the events in
 time order

The window was moved through the candidates in order of magnitude, starting from the largest in the distance window rather than from the main event, and skipped the candidate after every aftershock: events linked by gaps shorter than the window stayed in the catalogue.
---
 mtoolkit/scientific/declustering.py | 32 +++++++++++++++--------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/mtoolkit/scientific/declustering.py b/mtoolkit/scientific/declustering.py
index 9d91286..b53e51b 100644
--- a/mtoolkit/scientific/declustering.py
+++ b/mtoolkit/scientific/declustering.py
@@ -253,15 +253,16 @@ def _find_aftershocks(dtime, nval, time_window):
     vsel = np.array(np.ones(nval), dtype=bool)
     initval = dtime[0]  # Start with the mainshock
 
-    j = 1
-    while j < nval:
+    # Move forward in time
+    for j in np.argsort(dtime, kind='mergesort'):
+        if j == 0:
+            continue
         ddt = dtime[j] - initval
         # Is event after previous event and within time window?
         vsel[j] = np.logical_and(ddt >= 0.0, ddt <= time_window)
         if vsel[j]:
             # Reset time window to new event time
             initval = dtime[j]
-        j += 1
     return vsel
 
 
@@ -281,23 +282,21 @@ def _find_foreshocks(dtime, nval, time_window, vsel_aftershocks):
     :rtype: numpy.ndarray
     """
 
-    j = 1
     vsel = np.array(np.zeros(nval), dtype=bool)
     initval = dtime[0]
 
-    while j < nval:
+    # Move backward in time
+    for j in np.flipud(np.argsort(dtime, kind='mergesort')):
         if vsel_aftershocks[j]:
         # Event already allocated as an aftershock - skip
-            j += 1
-        else:
-            ddt = dtime[j] - initval
-            # Is event before previous event and within time window?
-            vsel[j] = np.logical_and(ddt <= 0.0,
-                                      ddt >= -(time_window))
-            if vsel[j]:
-            # Yes, reset time window to new event
-                initval = dtime[j]
-        j += 1
+            continue
+        ddt = dtime[j] - initval
+        # Is event before previous event and within time window?
+        vsel[j] = np.logical_and(ddt <= 0.0,
+                                  ddt >= -(time_window))
+        if vsel[j]:
+        # Yes, reset time window to new event
+            initval = dtime[j]
 
     return vsel
 
@@ -360,6 +359,9 @@ def afteran_decluster(
 
             # Select earthquakes inside distance window and not in cluster
             vsel = np.logical_and(mdist <= sw_space[i], vcl == 0).flatten()
+            # The main event comes first: larger events are not part of its
+            # cluster
+            vsel[:i] = False
             dtime = year_dec[vsel] - year_dec[i]
 
             nval = np.shape(dtime)[0]  # Number of events inside valid window
-- 
2.43.0


From 30926459fc44661d23c74d4547baa30f2640412f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:24 +0000
Subject: [PATCH 14/30] fix: count a change at the first Stepp interval

np.any looks at the values of the indices, so a departure from the Poisson rate found only at index 0 was taken for none at all.
---
 mtoolkit/scientific/completeness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/completeness.py b/mtoolkit/scientific/completeness.py
index afd3adf..88b893b 100644
--- a/mtoolkit/scientific/completeness.py
+++ b/mtoolkit/scientific/completeness.py
@@ -108,7 +108,7 @@ def stepp_analysis(year, mw, dm=0.1, dt=1, ttol=0.2, iloc=True):
         resid1 = grad1 - time_diff
         test1 = np.abs(resid1[1:] - resid1[:-1])
         tloct = np.nonzero(test1 > ttol)[0]
-        if not(np.any(tloct)):
+        if np.size(tloct) == 0:
             tloct = -1
         else:
             tloct = tloct[-1]
-- 
2.43.0


From 71c85a4ef374cf04243a17c1bd4f6a45a8da25fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:55 +0000
Subject: [PATCH 15/30] fix: use every completeness period once in the maximum
 likelihood b-value

Advancing by the number of rows of the same year skips and repeats periods when these rows are not contiguous, as in a Stepp table computed without the increment lock.
---
 mtoolkit/scientific/recurrence.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index 609ecb4..b282e7e 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -198,6 +198,10 @@ def b_maxlike_time(year, mag, ctime, cmag, dmag, ref_mag=0.0):
     mag_eq_tolerance = 1E-5
     while ival < np.shape(ctime)[0]:
         id0 = np.abs(ctime - ctime[ival]) < mag_eq_tolerance
+        if np.any(id0[:ival]):
+            # Period already considered with a previous row
+            ival += 1
+            continue
         m_c = np.min(cmag[id0])
         # Find events later than cut-off year, and with magnitude
         # greater than or equal to the corresponding completeness magnitude.
@@ -228,7 +232,7 @@ def b_maxlike_time(year, mag, ctime, cmag, dmag, ref_mag=0.0):
             gr_pars = np.vstack([gr_pars, np.hstack([bval, sigma_b, rate,
                                                      sigrate])])
             neq = np.hstack([neq, np.sum(id1)])
-        ival = ival + np.sum(id0)
+        ival += 1
 
     # The nextapproach is to work out the average values of the G-R parameters
     # from these periods, weighted by the number of events in each period
-- 
2.43.0


From 484a770eb3c72cd110f87e9f9c83a341dc67f5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:15 +0000
Subject: [PATCH 16/30] fix: stop the Weichert iteration when it does not
 converge

With no complete events, or all of them in one magnitude bin, beta becomes infinite or nan, the convergence test never holds and the toolkit hangs.
---
 mtoolkit/scientific/recurrence.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index b282e7e..88acdc1 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -30,6 +30,8 @@ import logging
 
 LOGGER = logging.getLogger('mt_logger')
 
+MAX_WEICHERT_ITERATIONS = 1000
+
 
 def recurrence_analysis(year_col, magnitude_col,
                         completeness_table, magnitude_window,
@@ -334,10 +336,13 @@ def weichert(tper, fmag, nobs, mrate=0.0, beta=1.5, itstab=1E-5):
     :type itstab: float
     :returns: b-value, sigma_b, a-value, sigma_a
     :rtype: float
+    :raises ValueError: if the iteration does not converge (e.g. too few
+                        events)
     """
 
     d_m = fmag[1] - fmag[0]
     itbreak = 0
+    itcount = 0
     while (itbreak != 1):
         snm = np.sum(nobs * fmag)
         nkount = np.sum(nobs)
@@ -352,6 +357,9 @@ def weichert(tper, fmag, nobs, mrate=0.0, beta=1.5, itstab=1E-5):
         dldb = (dldb * nkount) - snm
         betl = np.copy(beta)
         beta = beta - (dldb / d2ldb2)
+        itcount += 1
+        if not np.isfinite(beta) or itcount > MAX_WEICHERT_ITERATIONS:
+            raise ValueError('Weichert iteration does not converge')
         sigbeta = np.sqrt(-1. / d2ldb2)
         bval = beta / np.log(10.0)
         sigb = sigbeta / np.log(10.)
-- 
2.43.0


From e951a7f195a2af1f309e560b313ac81e1c726a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:24 +0000
Subject: [PATCH 17/30] fix: keep the values of zones without enough events,
 with a warning

As docs/source/user/area_source.rst states. An empty zone raised IndexError and ended the whole run; one with too few events had nan written over its values.
---
 mtoolkit/jobs.py | 60 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 12 deletions(-)

diff --git a/mtoolkit/jobs.py b/mtoolkit/jobs.py
index 40af0ad..a341dc3 100644
--- a/mtoolkit/jobs.py
+++ b/mtoolkit/jobs.py
@@ -297,6 +297,26 @@ def retrieve_completeness_table(context):
     LOGGER.debug("* Completeness Table retrieved")
 
 
+def check_enough_events(filtered_eq):
+    """
+    Check that the zone contains events.
+    :raises ValueError: if it does not
+    """
+
+    if len(filtered_eq) == 0:
+        raise ValueError('no events in the zone')
+
+
+def check_finite(*values):
+    """
+    Check that computed values are finite numbers.
+    :raises ValueError: if one is not
+    """
+
+    if not np.all(np.isfinite(values)):
+        raise ValueError('the result is not finite')
+
+
 @logged_job
 def recurrence(context):
     """
@@ -306,7 +326,9 @@ def recurrence(context):
         in a pipeline
     """
 
-    bval, sigb, a_m, siga_m = context.map_sc['recurrence'](
+    try:
+        check_enough_events(context.current_filtered_eq)
+        bval, sigb, a_m, siga_m = context.map_sc['recurrence'](
             context.current_filtered_eq[:,
                 CATALOG_COMPLETENESS_MATRIX_YEAR_INDEX],
             context.current_filtered_eq[:, CATALOG_MATRIX_MW_INDEX],
@@ -315,6 +337,12 @@ def recurrence(context):
             context.config['Recurrence']['recurrence_algorithm'],
             context.config['Recurrence']['reference_magnitude'],
             context.config['Recurrence']['time_window'])
+        check_finite(bval, sigb, a_m, siga_m)
+    except (ValueError, IndexError) as error:
+        LOGGER.warning("Recurrence not possible for source %s, "
+            "its values are not overwritten: %s"
+            % (context.cur_sm.area_source_id, error))
+        return
 
     t = context.cur_sm.rupture_rate_model.truncated_gutenberg_richter._replace(
         a_value=a_m,
@@ -341,17 +369,25 @@ def maximum_magnitude(context):
     :param context: shared datastore across different jobs
         in a pipeline
     """
-    max_mag, max_mag_sigma = context.map_sc['maximum_magnitude'](
-        context.current_filtered_eq[:,
-            CATALOG_COMPLETENESS_MATRIX_YEAR_INDEX],
-        context.current_filtered_eq[:, CATALOG_MATRIX_MW_INDEX],
-        context.current_filtered_eq[:, SIGMA_MW_INDEX],
-        context.config['MaximumMagnitude']['maxim_mag_algorithm'],
-        context.config['MaximumMagnitude']['iteration_tolerance'],
-        context.config['MaximumMagnitude']['maximum_iterations'],
-        context.config['MaximumMagnitude']['neq'],
-        context.config['MaximumMagnitude']['number_samples'],
-        context.config['MaximumMagnitude']['number_bootstraps'])
+    try:
+        check_enough_events(context.current_filtered_eq)
+        max_mag, max_mag_sigma = context.map_sc['maximum_magnitude'](
+            context.current_filtered_eq[:,
+                CATALOG_COMPLETENESS_MATRIX_YEAR_INDEX],
+            context.current_filtered_eq[:, CATALOG_MATRIX_MW_INDEX],
+            context.current_filtered_eq[:, SIGMA_MW_INDEX],
+            context.config['MaximumMagnitude']['maxim_mag_algorithm'],
+            context.config['MaximumMagnitude']['iteration_tolerance'],
+            context.config['MaximumMagnitude']['maximum_iterations'],
+            context.config['MaximumMagnitude']['neq'],
+            context.config['MaximumMagnitude']['number_samples'],
+            context.config['MaximumMagnitude']['number_bootstraps'])
+        check_finite(max_mag, max_mag_sigma)
+    except (ValueError, IndexError) as error:
+        LOGGER.warning("Maximum magnitude not possible for source %s, "
+            "its value is not overwritten: %s"
+            % (context.cur_sm.area_source_id, error))
+        return
 
     t = context.cur_sm.rupture_rate_model.truncated_gutenberg_richter._replace(
         max_magnitude=max_mag)
-- 
2.43.0


From 72cae7d8fca22664d9734bfd84a6a7e6fa9cc744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:04 +0000
Subject: [PATCH 18/30] fix: give a distance for antipodal points

The rounded haversine may exceed 1 there, and the distance, or the length of a fault, was nan.
---
 mtoolkit/geo/simple_fault.py               | 2 ++
 mtoolkit/scientific/catalogue_utilities.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mtoolkit/geo/simple_fault.py b/mtoolkit/geo/simple_fault.py
index 8890cfd..7c85565 100644
--- a/mtoolkit/geo/simple_fault.py
+++ b/mtoolkit/geo/simple_fault.py
@@ -97,6 +97,8 @@ class SimpleFaultGeo(object):
 
             a = sin(dlat / 2.0) ** 2 + (
                 (cos(lat1) * cos(lat2)) * (sin(dlon / 2.0) ** 2))
+            # Rounding may exceed 1 for antipodal points
+            a = min(a, 1.0)
 
             c = 2.0 * arctan2(sqrt(a), sqrt(1.0 - a))
 
diff --git a/mtoolkit/scientific/catalogue_utilities.py b/mtoolkit/scientific/catalogue_utilities.py
index f9e1bfb..8fb824d 100644
--- a/mtoolkit/scientific/catalogue_utilities.py
+++ b/mtoolkit/scientific/catalogue_utilities.py
@@ -100,6 +100,8 @@ def haversine(lon1, lat1, lon2, lat2, radians=False, earth_rad=6371.227):
         dlon = lon1 - lon2[i]
         aval = (np.sin(dlat / 2.) ** 2.) + (np.cos(lat1) * np.cos(lat2[i]) *
              (np.sin(dlon / 2.) ** 2.))
+        # Rounding may exceed 1 for antipodal points
+        aval = np.minimum(aval, 1.)
         distance[:, i] = (2. * earth_rad * np.arctan2(np.sqrt(aval),
                                                     np.sqrt(1 - aval))).T
         i += 1
-- 
2.43.0


From 1f01b6ff647afad7f2d5ac75514598c2dc1ef596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:14 +0000
Subject: [PATCH 19/30] fix: allow for rounding in the sum of the tectonic
 region weights

0.7 + 0.2 + 0.1 is not exactly 1.0, and these weights were rejected.
---
 mtoolkit/geo/tectonic_region.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mtoolkit/geo/tectonic_region.py b/mtoolkit/geo/tectonic_region.py
index 1420c1f..a6499e3 100644
--- a/mtoolkit/geo/tectonic_region.py
+++ b/mtoolkit/geo/tectonic_region.py
@@ -25,6 +25,7 @@ DEFAULT_DLR = {'value': [1.25E-5], 'weight': [1.0]}
 VOL_STCON_SMOD = {'value': [29.0], 'weight': [1.0]}
 SUBD_SMOD = {'value': [49.0], 'weight': [1.0]}
 SUPPORTED_MSR = ('Peer', 'WC1994')
+WEIGHT_TOLERANCE = 1.0E-9
 
 
 class TectonicRegion(object):
@@ -148,13 +149,13 @@ class TectonicRegion(object):
         sum_weights_smod = reduce(lambda x, y: x + y, smod)
         sum_weights_dlr = reduce(lambda x, y: x + y, dlr)
 
-        if sum_weights_msr != 1.0:
+        if not abs(sum_weights_msr - 1.0) <= WEIGHT_TOLERANCE:
             raise ValueError('The sum of weights for magnitude scaling'
                             ' relations should be one')
-        if sum_weights_smod != 1.0:
+        if not abs(sum_weights_smod - 1.0) <= WEIGHT_TOLERANCE:
             raise ValueError('The sum of weights for shear modulus'
                            ' should be one')
-        if sum_weights_dlr != 1.0:
+        if not abs(sum_weights_dlr - 1.0) <= WEIGHT_TOLERANCE:
             raise ValueError('The sum of weights for displacement length ratio'
                             ' should be one')
 
-- 
2.43.0


From 6e96c3e252f555f608dc190d650809a4ba14603e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:52 +0000
Subject: [PATCH 20/30] fix: stop after reporting a missing input file

cmd_line printed the error and still returned the arguments, so that main.py went on and crashed; without -i it crashed itself.
---
 mtoolkit/console.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mtoolkit/console.py b/mtoolkit/console.py
index 1b3c657..e8a33d1 100644
--- a/mtoolkit/console.py
+++ b/mtoolkit/console.py
@@ -63,9 +63,10 @@ def cmd_line():
         parser.print_help()
     else:
         args = parser.parse_args()
-        if not os.path.exists(args.input_file[0]):
+        if not args.input_file or not os.path.exists(args.input_file[0]):
             print 'Error: non existent input file\n'
             parser.print_help()
+            args = None
 
     return args
 
-- 
2.43.0


From d8b4f9d8b5704962b6b44170184623f1f9d3cd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:37 +0000
Subject: [PATCH 21/30] fix: refuse nan and inf as catalogue numbers

A compulsory field holding nan or inf (e.g. Mw) passed as a valid number and
spoiled all later calculations; optional ones were kept as valid values.
---
 mtoolkit/eqcatalog.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index cb2c5f9..c48b26a 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -184,7 +184,7 @@ class EqEntryReader(object):
             elif key in self.to_float:
 
                 try:
-                    dict_fields_values[key] = float(
+                    dict_fields_values[key] = self.to_finite_float(
                         dict_fields_values[key])
                 except (ValueError, TypeError):
                     if key in self.compulsory_fields:
@@ -195,6 +195,18 @@ class EqEntryReader(object):
 
         return dict_fields_values
 
+    @classmethod
+    def to_finite_float(cls, text):
+        """
+        Return the decimal number the text holds, a
+        text as nan or inf does not hold any.
+        """
+
+        value = float(text)
+        if value - value != 0:
+            raise ValueError('not a finite number: %s' % text)
+        return value
+
     def no_check(self, field, eq_entry):
         """
         Return True without applying any check.
-- 
2.43.0


From fd1704029f5edb92e48cbb871b20146a157f9698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:39 +0000
Subject: [PATCH 22/30] fix: drop the fraction of the month term of the Julian
 date

The dates from March to August of 1700, 1800 and 1900 were a day off: the
century has to be that of the year the month belongs to, so (month - 9) / 7
is a whole number in the formula.
---
 mtoolkit/scientific/catalogue_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/catalogue_utilities.py b/mtoolkit/scientific/catalogue_utilities.py
index 8fb824d..712d404 100644
--- a/mtoolkit/scientific/catalogue_utilities.py
+++ b/mtoolkit/scientific/catalogue_utilities.py
@@ -113,7 +113,7 @@ def greg2julian(year, month, day, hour, minute, second):
     timeut = hour + (minute / 60.0) + (second / 3600.0)
     jd = (367.0 * year) - np.floor(7.0 * (year +
              np.floor((month + 9.0) / 12.0)) / 4.0) - np.floor(3.0 *
-             (np.floor((year + (month - 9.0) / 7.0) / 100.0) + 1.0) /
+             (np.floor((year + np.fix((month - 9.0) / 7.0)) / 100.0) + 1.0) /
              4.0) + np.floor((275.0 * month) / 9.0) + day +\
              1721028.5 + (timeut / 24.0)
     return jd
-- 
2.43.0


From 27c91f4f69f5c05ae631adefd48507d7add13fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 23/30] fix: give a Stepp row for events that all have one
 magnitude

When the magnitudes were all equal to one multiple of 0.1 there was no
magnitude class and the completeness table was empty.
---
 mtoolkit/scientific/completeness.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mtoolkit/scientific/completeness.py b/mtoolkit/scientific/completeness.py
index 88b893b..1e24192 100644
--- a/mtoolkit/scientific/completeness.py
+++ b/mtoolkit/scientific/completeness.py
@@ -60,6 +60,8 @@ def stepp_analysis(year, mw, dm=0.1, dt=1, ttol=0.2, iloc=True):
     mw = np.around(100.0 * mw) / 100.0
     lowm = np.floor(10. * np.min(mw)) / 10.
     highm = np.ceil(10. * np.max(mw)) / 10.
+    if highm == lowm:
+        highm = lowm + dm
     # Determine magnitude bins
     mbin = np.arange(lowm, highm + dm, dm)
     ntb = np.max(np.shape(mbin))
-- 
2.43.0


From 28676d02490cb3f956b3b906ce88fd4eeb37c24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:31 +0000
Subject: [PATCH 24/30] fix: count events on the limit of a magnitude bin in
 this bin

The limits of the bins came from repeated floating point steps, so that many
of them were slightly above the decimal number they stand for: events with
just this magnitude, the normal case for catalogues with one decimal, were
counted in the bin below, and the completeness table removed them from the
class that begins with their magnitude.
---
 mtoolkit/scientific/completeness.py |  4 +++-
 mtoolkit/scientific/recurrence.py   | 10 ++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/mtoolkit/scientific/completeness.py b/mtoolkit/scientific/completeness.py
index 1e24192..f538a31 100644
--- a/mtoolkit/scientific/completeness.py
+++ b/mtoolkit/scientific/completeness.py
@@ -63,7 +63,9 @@ def stepp_analysis(year, mw, dm=0.1, dt=1, ttol=0.2, iloc=True):
     if highm == lowm:
         highm = lowm + dm
     # Determine magnitude bins
-    mbin = np.arange(lowm, highm + dm, dm)
+    # The limits are rounded: with the error of the floating point steps
+    # events on a limit would belong to the class below
+    mbin = np.around(np.arange(lowm, highm + dm, dm), decimals=6)
     ntb = np.max(np.shape(mbin))
     # Determine time bins
     end_time = np.max(year)
diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index 88acdc1..8d32e3e 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -115,7 +115,10 @@ def recurrence_table(mag, dmag, year):
     num_year = np.max(year) - np.min(year) + 1.
     upper_m = np.max(np.ceil(10.0 * mag) / 10.0)
     lower_m = np.min(np.floor(10.0 * mag) / 10.0)
-    mag_range = np.arange(lower_m, upper_m + (2 * dmag), dmag)
+    # The limits are rounded: with the error of the floating point steps
+    # events on a limit would be counted in the bin below
+    mag_range = np.around(np.arange(lower_m, upper_m + (2 * dmag), dmag),
+                          decimals=6)
     mval = mag_range[:-1] + (dmag / 2.0)
     # Find number of earthquakes inside range
     number_obs = np.histogram(mag, mag_range)[0]
@@ -280,7 +283,10 @@ def weichert_prep(year, fmag, ctime, cmag, d_m, d_t):
     # Use 2d histogram to get overall density.
     time_int = np.arange(np.min(year), np.max(year) + 1.5 * d_t, d_t)
     fmag = np.around(fmag, decimals=1)
-    mag_int = np.arange(np.min(fmag), np.max(fmag) + 1.5 * d_m, d_m)
+    # The limits are rounded: with the error of the floating point steps
+    # events on a limit would be counted in the bin below
+    mag_int = np.around(np.arange(np.min(fmag), np.max(fmag) + 1.5 * d_m,
+                                  d_m), decimals=6)
     fullcount1 = np.histogram2d(year, fmag,
                                 bins=[time_int, mag_int])[0]
     # Now remove events below the completeness intervals
-- 
2.43.0


From 4ff8f3a8b231197c6d63cd197bf2b1535401e87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:36 +0000
Subject: [PATCH 25/30] fix: refuse Weichert input that does not fix a b-value

With all the events in the lowest bin the likelihood has no maximum; the
iteration mostly failed, but for some counts rounding errors stopped it at
b-values above 40.
---
 mtoolkit/scientific/recurrence.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index 8d32e3e..4a593c0 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -347,6 +347,9 @@ def weichert(tper, fmag, nobs, mrate=0.0, beta=1.5, itstab=1E-5):
     """
 
     d_m = fmag[1] - fmag[0]
+    if np.all(nobs[1:] == 0) or np.all(nobs[:-1] == 0):
+        raise ValueError('All events in the lowest or the highest bin, '
+                         'no b-value fits them')
     itbreak = 0
     itcount = 0
     while (itbreak != 1):
-- 
2.43.0


From 1dff1731d76ec40490d9a6ffa5c3f76b6dcc0fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:47 +0000
Subject: [PATCH 26/30] fix: refuse tectonic region parameters without values
 with ValueError

The sum of an empty list of weights raised TypeError (reduce of an empty
sequence) instead of the documented ValueError.
---
 mtoolkit/geo/tectonic_region.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mtoolkit/geo/tectonic_region.py b/mtoolkit/geo/tectonic_region.py
index a6499e3..7ca1da3 100644
--- a/mtoolkit/geo/tectonic_region.py
+++ b/mtoolkit/geo/tectonic_region.py
@@ -145,9 +145,9 @@ class TectonicRegion(object):
             is not one.
         """
 
-        sum_weights_msr = reduce(lambda x, y: x + y, msr)
-        sum_weights_smod = reduce(lambda x, y: x + y, smod)
-        sum_weights_dlr = reduce(lambda x, y: x + y, dlr)
+        sum_weights_msr = sum(msr)
+        sum_weights_smod = sum(smod)
+        sum_weights_dlr = sum(dlr)
 
         if not abs(sum_weights_msr - 1.0) <= WEIGHT_TOLERANCE:
             raise ValueError('The sum of weights for magnitude scaling'
-- 
2.43.0


From 667615e047d899044bd4b8fdb68cce8cc22c12d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:35 +0000
Subject: [PATCH 27/30] fix: count every cluster when all events belong to one

The report took the number of distinct cluster numbers less one, which is
one too few when no event is outside the clusters.
---
 mtoolkit/jobs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/jobs.py b/mtoolkit/jobs.py
index a341dc3..5ae1014 100644
--- a/mtoolkit/jobs.py
+++ b/mtoolkit/jobs.py
@@ -163,7 +163,7 @@ def gardner_knopoff(context):
 
     LOGGER.debug(
         "* Number of clusters identified: %s" %
-        (np.size(np.unique(vcl), 0) - 1))
+        np.size(np.setdiff1d(vcl, [0])))
 
 
 @logged_job
@@ -192,7 +192,7 @@ def afteran(context):
 
     LOGGER.debug(
         "* Number of clusters identified: %s" %
-        (np.size(np.unique(vcl), 0) - 1))
+        np.size(np.setdiff1d(vcl, [0])))
 
 
 @logged_job
-- 
2.43.0


From 7cc51db18fc769fa10b6b6f7fd542343832ea720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:13 +0000
Subject: [PATCH 28/30] fix: name the line of the file an invalid entry stands
 in

The reader counted entries, which is not the line when blank lines or
quoted line ends come before.
---
 mtoolkit/eqcatalog.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index c48b26a..36ef582 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -142,8 +142,9 @@ class EqEntryReader(object):
         with valid values.
         """
         eq_reader = DictReader(self.eq_entries_source, fieldnames=FIELDNAMES)
-        # eq definitions start at line 2
-        for self.current_line, eq_line in enumerate(eq_reader, start=2):
+        for eq_line in eq_reader:
+            # the header, at line 1, is not read by eq_reader
+            self.current_line = eq_reader.line_num + 1
             eq_entry = self.convert_values(eq_line)
             for field in eq_entry.keys():
                 if not self.check_map[field](field, eq_entry) and (field in
-- 
2.43.0


From a3d9b6b7671471c6c215ad959e88e12a2f834fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:46 +0000
Subject: [PATCH 29/30] fix: take an overflow in the Weichert iteration for no
 convergence

---
 mtoolkit/scientific/recurrence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index 4a593c0..4baf9b2 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -367,7 +367,8 @@ def weichert(tper, fmag, nobs, mrate=0.0, beta=1.5, itstab=1E-5):
         betl = np.copy(beta)
         beta = beta - (dldb / d2ldb2)
         itcount += 1
-        if not np.isfinite(beta) or itcount > MAX_WEICHERT_ITERATIONS:
+        if (not np.isfinite(beta) or not np.isfinite(d2ldb2) or
+                itcount > MAX_WEICHERT_ITERATIONS):
             raise ValueError('Weichert iteration does not converge')
         sigbeta = np.sqrt(-1. / d2ldb2)
         bval = beta / np.log(10.0)
-- 
2.43.0


From e01b22fb4e9fc30596115b710a03fa0fae65fa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:00 +0000
Subject: [PATCH 30/30] fix: read values of the source model that have comments
 in them whole

---
 nrml/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nrml/reader.py b/nrml/reader.py
index 65db6e2..e2902b2 100644
--- a/nrml/reader.py
+++ b/nrml/reader.py
@@ -69,7 +69,8 @@ class NRMLReader(object):
         """
 
         with open(self.filename, 'rb') as nrml_file:
-            for source_model in etree.iterparse(nrml_file, schema=self.schema):
+            for source_model in etree.iterparse(nrml_file, schema=self.schema,
+                    remove_comments=True, remove_pis=True):
                 tag = source_model[XML_NODE].tag
                 if tag in self.tag_action:
                     yield self.tag_action[tag](source_model[XML_NODE])
-- 
2.43.0

