From dca8ba3fea92503cec734c7d6d1cd07d97a0b37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:15 +0000
Subject: [PATCH 01/44] fix: write gust files under a temporary name until they
 are complete

A run killed while writing a gust file left a partial file under the final
name. The next run failed to open it for writing, so the wind field stage
could not be resumed.
---
 wind/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index d909e64..0a8dcff 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -702,7 +702,11 @@ class WindfieldGenerator(object):
             }
         }
 
-        nctools.ncSaveGrid(filename, dimensions, variables, gatts=gatts)
+        # Write under a temporary name first: an interrupted write must not
+        # leave a partial file where a later run looks for a finished one.
+        tmpfile = filename + '.tmp'
+        nctools.ncSaveGrid(tmpfile, dimensions, variables, gatts=gatts)
+        os.replace(tmpfile, filename)
 
     def dumpGustsFromTrackfiles(self, trackfiles, windfieldPath,
                                 timeStepCallback=None):
-- 
2.43.0


From b49395ecf2adb086d94f2e3104bde7675fba0193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:15 +0000
Subject: [PATCH 02/44] fix: give every track its own domain when no grid limit
 is set

The domain of the first track was kept for all later tracks handled by the
same process, so fields depended on track order and process count.
---
 wind/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wind/__init__.py b/wind/__init__.py
index 0a8dcff..1ef9551 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -528,7 +528,10 @@ class WindfieldGenerator(object):
                                  timestep to extract point values for
                                  specified locations.
         """
+        gridLimit = self.gridLimit
         for track in trackiter:
+            # Without a configured domain, every track has its own
+            self.gridLimit = gridLimit
             dumpfile = self.gustFilename(windfieldPath, track)
             if self.gustFileComplete(dumpfile):
                 log.info("Skipping existing wind field for track {0:03d}-{1:05d}"
-- 
2.43.0


From fadb0bc4b0cc14abb34a63a565bc4349463eac89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:33 +0000
Subject: [PATCH 03/44] fix: end the whole job with an error status when a
 process fails

A failing process logged its exception and then waited in MPI_Finalize for
processes that were themselves waiting for it, so the job never ended. A
single process exited with status 0 after a failure.
---
 tcevent.py |  3 +++
 tcrm.py    | 37 +++++++++++++++++++++++--------------
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/tcevent.py b/tcevent.py
index f48962d..71eb802 100755
--- a/tcevent.py
+++ b/tcevent.py
@@ -25,6 +25,7 @@ from functools import reduce
 import os
 import time
 import argparse
+import sys
 import traceback
 
 from functools import wraps
@@ -273,11 +274,13 @@ def startup():
             main(configFile)
         except ImportError as e:
             log.critical("Missing module: {0}".format(e))
+            sys.exit(1)
         except Exception:  # pylint: disable=W0703
             # Catch any exceptions that occur and log them (nicely):
             tblines = traceback.format_exc().splitlines()
             for line in tblines:
                 log.critical(line.lstrip())
+            sys.exit(1)
 
 
 if __name__ == "__main__":
diff --git a/tcrm.py b/tcrm.py
index 4c53c41..e374a11 100755
--- a/tcrm.py
+++ b/tcrm.py
@@ -641,21 +641,30 @@ def startup():
     warnings.filterwarnings("ignore", category=RuntimeWarning)
     checkModules()
 
-    if debug:
-        main(configFile)
-    else:
-        try:
+    try:
+        if debug:
             main(configFile)
-        except ImportError as e:
-            log.critical("Missing module: {0}".format(e))
-            tblines = traceback.format_exc().splitlines()
-            for line in tblines:
-                log.critical(line.lstrip())
-        except Exception:  # pylint: disable=W0703
-            # Catch any exceptions that occur and log them (nicely):
-            tblines = traceback.format_exc().splitlines()
-            for line in tblines:
-                log.critical(line.lstrip())
+        else:
+            try:
+                main(configFile)
+            except ImportError as e:
+                log.critical("Missing module: {0}".format(e))
+                tblines = traceback.format_exc().splitlines()
+                for line in tblines:
+                    log.critical(line.lstrip())
+                sys.exit(1)
+            except Exception:  # pylint: disable=W0703
+                # Catch any exceptions that occur and log them (nicely):
+                tblines = traceback.format_exc().splitlines()
+                for line in tblines:
+                    log.critical(line.lstrip())
+                sys.exit(1)
+    except BaseException:
+        # The other processes would wait for this one forever
+        if comm.size > 1:
+            traceback.print_exc()
+            comm.Abort(1)
+        raise
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 33032ecfaf85d8b24401cbfa90f79eac49f9ee20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:04 +0000
Subject: [PATCH 04/44] fix: use integer division for the number of confidence
 interval samples

The hazard stage failed with a TypeError whenever confidence intervals were
requested, which is the default.
---
 hazard/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index bb9670f..937f237 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -825,7 +825,7 @@ def calculateCI(Vr, years, nodata, minRecords, yrsPerSim=1,
     upper = 100. - lower # 95th percentile default
 
     nrecords = Vr.shape[0] # number of years (since we have aggregated into 1/yr)
-    nsamples = nrecords / sample_size # number of iterations to perform
+    nsamples = nrecords // sample_size # number of iterations to perform
     
     # RpUpper/RpLower = years x lat x lon
     RpUpper = nodata*np.ones((len(years), Vr.shape[1], Vr.shape[2]), dtype='f')
-- 
2.43.0


From 1e38972fcb1298f81a1bff6ef67bbe484a6e9894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:04 +0000
Subject: [PATCH 05/44] fix: make hazard confidence intervals reproducible

The records were shuffled with the unseeded global generator, so confidence
limits changed with every run and with the number of processes.
---
 hazard/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index 937f237..abc0646 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -836,10 +836,13 @@ def calculateCI(Vr, years, nodata, minRecords, yrsPerSim=1,
     wUpper = np.zeros((len(years)), dtype='f')
     wLower = np.zeros((len(years)), dtype='f')
 
+    # Own generator, so results do not depend on which process does the tile
+    rng = random.Random(nrecords)
+
     for i in range(Vr.shape[1]): # lat
         for j in range(Vr.shape[2]): # lon
             if Vr[:, i, j].max() > 0.0: # check for valid data
-                random.shuffle(Vr[:, i, j]) # shuffle the years
+                rng.shuffle(Vr[:, i, j]) # shuffle the years
                 for n in range(nsamples): # iterate through fitting of random samples
                     nstart = n*sample_size
                     nend  = (n + 1)*sample_size - 1
-- 
2.43.0


From a87e135e4c75a2348dccf38dd5d7ee20f9375caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:04 +0000
Subject: [PATCH 06/44] fix: replace the hazard file only when the new one is
 complete

An interrupted or failed write destroyed the existing hazard file and left a
readable file with only some of the variables.
---
 hazard/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index abc0646..1d68c72 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -568,12 +568,16 @@ class HazardCalculator(object):
 
         # Create output file for return-period gust wind speeds and
         # GEV parameters
-        nctools.ncSaveGrid(pjoin(self.outputPath, 'hazard.nc'),
+        hazardfile = pjoin(self.outputPath, 'hazard.nc')
+        tmpfile = hazardfile + '.tmp'
+        nctools.ncSaveGrid(tmpfile,
                            dimensions, variables,
                            nodata=self.nodata,
                            datatitle='TCRM hazard simulation',
                            gatts=self.global_atts, writedata=True,
                            keepfileopen=False)
+        # An interrupted write must not replace an existing hazard file
+        os.replace(tmpfile, hazardfile)
 
 
 def calculateGEV(Vr, years, nodata, minRecords, yrsPerSim):
-- 
2.43.0


From 59902b3a0507bc71f370558c242253505290f74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:31 +0000
Subject: [PATCH 07/44] fix: only read gust files from the wind field folder in
 the hazard stage

---
 hazard/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index 1d68c72..28a07f2 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -52,7 +52,8 @@ def setDomain(inputPath):
 
     """
 
-    fileList = os.listdir(inputPath)
+    fileList = [f for f in os.listdir(inputPath)
+                if f.startswith('gust') and f.endswith('.nc')]
     inputFile = pjoin(inputPath, fileList[0])
     ncobj = nctools.ncLoadFile(inputFile)
     wf_lon = nctools.ncGetDims(ncobj, 'lon')
@@ -912,7 +913,8 @@ def loadFilesFromPath(inputPath, tilelimits):
 
     """
 
-    fileList = os.listdir(inputPath)
+    fileList = [f for f in os.listdir(inputPath)
+                if f.startswith('gust') and f.endswith('.nc')]
     files = [pjoin(inputPath, f) for f in fileList]
     files = [f for f in files if os.path.isfile(f)]
     log.debug("Loading data from %d files" % (len(files)))
-- 
2.43.0


From 2c35c99782ff16dc70b759c801ef366179041886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:31 +0000
Subject: [PATCH 08/44] fix: number events in the database in a fixed order

---
 database/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/database/__init__.py b/database/__init__.py
index c4eb941..b7a4217 100644
--- a/database/__init__.py
+++ b/database/__init__.py
@@ -360,9 +360,8 @@ class _HazardDatabase(sqlite3.Connection):
 
         """
         status = MPI.Status()
-        fileList = os.listdir(self.windfieldPath)
-        fileList = [f for f in fileList if
-                    os.path.isfile(pjoin(self.windfieldPath, f))]
+        fileList = sorted(f for f in os.listdir(self.windfieldPath)
+                          if f.startswith('gust') and f.endswith('.nc'))
 
         work_tag = 0
         result_tag = 1
-- 
2.43.0


From b9af3b327b451317817927865c55894ccdd5d96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:19 +0000
Subject: [PATCH 09/44] fix: replace the results of an earlier run when the
 database is rebuilt

---
 database/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/database/__init__.py b/database/__init__.py
index b7a4217..aed2c3a 100644
--- a/database/__init__.py
+++ b/database/__init__.py
@@ -187,6 +187,10 @@ class _HazardDatabase(sqlite3.Connection):
         self.createTable('tblWindSpeed', TBLWINDSPEEDDEF)
         self.createTable('tblHazard', TBLHAZARDDEF)
         self.createTable('tblTracks', TBLTRACKSDEF)
+        # Discard the results of any earlier run, these are rebuilt from
+        # the current set of wind fields, hazard data and tracks:
+        for tblName in ('tblEvents', 'tblWindSpeed', 'tblHazard', 'tblTracks'):
+            self.execute("DELETE FROM {0}".format(tblName))
         self.exists = True
         self.commit()
 
-- 
2.43.0


From 930c70f00bebb5cf3c9881a495853e148136077a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:19 +0000
Subject: [PATCH 10/44] fix: stop when event or wind speed records cannot be
 stored

---
 database/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/database/__init__.py b/database/__init__.py
index aed2c3a..9270ba9 100644
--- a/database/__init__.py
+++ b/database/__init__.py
@@ -324,10 +324,12 @@ class _HazardDatabase(sqlite3.Connection):
             log.exception("Pre-existing event with the same eventNumber attribute")
             log.exception("Check that you are not overwriting an existing database.")
             log.exception("{0}".format(err.args[0]))
+            raise
 
         except sqlite3.Error as err:
             log.exception("Cannot insert records into tblEvents: {0}".\
                           format(err.args[0]))
+            raise
         else:
             self.commit()
 
@@ -346,8 +348,7 @@ class _HazardDatabase(sqlite3.Connection):
         except sqlite3.Error as err:
             log.exception("Cannot insert records into tblWindSpeed: {0}".\
                           format(err.args[0]))
-        except sqlite3.ProgrammingError as err:
-            log.exception("Programming error: {0}".format(err.args[0]))
+            raise
         else:
             self.commit()
 
-- 
2.43.0


From 3f7bb19a7bbe510b0a665a23abda2edea7bf6af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:19 +0000
Subject: [PATCH 11/44] fix: do not leave an incomplete location database
 behind

---
 database/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/database/__init__.py b/database/__init__.py
index 9270ba9..7e7851a 100644
--- a/database/__init__.py
+++ b/database/__init__.py
@@ -814,9 +814,17 @@ def buildLocationDatabase(location_db, location_file, location_type='AWS'):
                           os.path.basename(location_file),
                           locComment, datetime.now()))
 
-    locdb = sqlite3.connect(location_db,
+    # Build in a temporary file, so an interrupted run does not leave an
+    # incomplete location database behind:
+    tmp_db = location_db + '.tmp'
+    for fname in (tmp_db, tmp_db + '-journal'):
+        if os.path.exists(fname):
+            os.remove(fname)
+
+    locdb = sqlite3.connect(tmp_db,
                             detect_types=PARSE_DECLTYPES|PARSE_COLNAMES)
     locdb.execute(TBLLOCATIONDEF)
     locdb.executemany(INSLOCATIONS, locations)
     locdb.commit()
     locdb.close()
+    os.replace(tmp_db, location_db)
-- 
2.43.0


From 0336d98e0610d6a4067ccf4199cdc9cf50cd1334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:34 +0000
Subject: [PATCH 12/44] fix: keep the outermost row and column of the hazard
 region

---
 hazard/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index 28a07f2..f71d883 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -106,15 +106,15 @@ class TileGrid(object):
 
 
         ii, = ((np.round(wf_lon*1000).astype(int) >=
-                int(gridLimit['xMin']*1000)) &
+                int(round(gridLimit['xMin']*1000))) &
                (np.round(wf_lon*1000).astype(int) <=
-                int(gridLimit['xMax']*1000))).nonzero()
+                int(round(gridLimit['xMax']*1000)))).nonzero()
 
 
         jj, = ((np.round(wf_lat*1000).astype(int) >=
-                int(gridLimit['yMin']*1000)) &
+                int(round(gridLimit['yMin']*1000))) &
                (np.round(wf_lat*1000).astype(int) <=
-                int(gridLimit['yMax']*1000))).nonzero()
+                int(round(gridLimit['yMax']*1000)))).nonzero()
 
         self.imin = ii[0]
         self.imax = ii[-1]
-- 
2.43.0


From 1cd3b3f8c8c177bbc9f8c752a26634befcb5f49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:05 +0000
Subject: [PATCH 13/44] fix: draw the radius of maximum winds from the track
 random stream

The size of the eyewall came from the global numpy generator, whose state
depends on which simulations a process has already done, so the catalogue
changed with the number of processes.
---
 TrackGenerator/TrackGenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index 5819800..549127c 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -646,13 +646,13 @@ class TrackGenerator(object):
                     cdfSize = self.allCDFInitSize[ind, 1:3]
 
                 dp = initEnvPressure - genesisPressure
-                self.rmwEps = np.random.normal(0, scale=0.335)
+                self.rmwEps = normal(0, 0.335)
                 genesisRmax = trackSize.rmax(dp, genesisLat, self.rmwEps)
 
                 # Censor the initial Rmax to be < 100 km.
                 if genesisRmax > 100.:
                     while genesisRmax > 100.:
-                        self.rmwEps = np.random.normal(0, scale=0.335)
+                        self.rmwEps = normal(0, 0.335)
                         genesisRmax = trackSize.rmax(dp,
                                                      genesisLat,
                                                      self.rmwEps)
-- 
2.43.0


From fe37527b2741841dc512b3a393f62e8969b74a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:05 +0000
Subject: [PATCH 14/44] fix: allow a track generation run with one simulation

---
 TrackGenerator/TrackGenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index 549127c..16b716f 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -1869,7 +1869,7 @@ def run(configFile, callback=None):
 
     comm.barrier()
 
-    N = sims[-1].index
+    N = max(sims[-1].index, 1)
 
     # Balance the simulations over the number of processors and do it
 
-- 
2.43.0


From 017fbf1380ce602c3f072be33e6c04de53884136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:50 +0000
Subject: [PATCH 15/44] fix: remove the tracks of earlier runs before
 generating new ones

---
 TrackGenerator/TrackGenerator.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index 16b716f..97a21f6 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -132,6 +132,7 @@ A thorough explanation of the netcdf4-python API is given on the
 """
 
 import os
+import re
 import sys
 import logging as log
 import math
@@ -1865,6 +1866,15 @@ def run(configFile, callback=None):
     tg.loadInitialConditionDistributions()
     tg.loadCellStatistics()
 
+    # Remove the tracks of any earlier run: a simulation that generates
+    # no events does not write a file, and this run may hold fewer
+    # simulations.
+
+    if comm.rank == 0:
+        for f in os.listdir(trackPath):
+            if re.match(r'tracks\.\d+\.nc$', f):
+                os.unlink(pjoin(trackPath, f))
+
     # Hold until all processors are ready
 
     comm.barrier()
-- 
2.43.0


From c460a82ba05ca31cac433539f7abcfeabe501798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:55 +0000
Subject: [PATCH 16/44] fix: give track files their final name only once
 complete

---
 Utilities/track.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Utilities/track.py b/Utilities/track.py
index 84b6b98..7aa1e9a 100644
--- a/Utilities/track.py
+++ b/Utilities/track.py
@@ -297,8 +297,12 @@ def ncSaveTracks(trackfile, tracks,
         log.info("No tracks to be stored in track file: {0}".format(trackfile))
         return
 
+    # Write to a temporary file, so that a track file is always complete
+    tmpfile = pjoin(os.path.dirname(trackfile),
+                    '.' + os.path.basename(trackfile) + '.tmp')
+
     try:
-        ncobj = Dataset(trackfile, "w", format="NETCDF4", clobber=True)
+        ncobj = Dataset(tmpfile, "w", format="NETCDF4", clobber=True)
     except IOError:
         log.exception("Cannot open {0} for writing".format(trackfile))
         raise IOError("Cannot open {0} for writing".format(trackfile))
@@ -343,6 +347,7 @@ def ncSaveTracks(trackfile, tracks,
     attributes['created_by'] = getpass.getuser()
     ncobj.setncatts(attributes)
     ncobj.close()
+    os.replace(tmpfile, trackfile)
 
     return
 
-- 
2.43.0


From f05524562556092a51f67cc4319271ab78b2cd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:47 +0000
Subject: [PATCH 17/44] fix: write station time series of all processes and of
 repeated runs

---
 Utilities/timeseries.py | 22 ++++++++++++++++++++--
 wind/__init__.py        |  2 +-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/Utilities/timeseries.py b/Utilities/timeseries.py
index 087644d..62b5279 100644
--- a/Utilities/timeseries.py
+++ b/Utilities/timeseries.py
@@ -11,6 +11,7 @@ tsmultipliers.py to apply said multipliers to the output.
 """
 
 import logging
+import os
 from os.path import join as pjoin
 from configparser import NoOptionError
 
@@ -20,6 +21,7 @@ from Utilities.config import ConfigParser
 from Utilities.files import flLoadFile
 from Utilities.maputils import find_index
 from Utilities.dynarray import DynamicRecArray
+from Utilities.parallel import attemptParallel
 from .shptools import shpGetVertices
 
 #from config import NoOptionError
@@ -233,9 +235,21 @@ class Timeseries(object):
 
     def shutdown(self):
         """
-        Write the data to file, each station to a separate file.
+        Write the data to file, each station to a separate file. In a
+        parallel run, the data are collected from all processes and
+        written by the first.
         """
 
+        comm = attemptParallel().COMM_WORLD
+        if comm.size > 1:
+            parts = comm.gather([np.array(stn.data.data)
+                                 for stn in self.stations])
+            if comm.rank > 0:
+                return
+            for part in parts[1:]:
+                for stn, data in zip(self.stations, part):
+                    stn.data.extend([tuple(row) for row in data])
+
         header = 'Station,Time,Longitude,Latitude,Speed,UU,VV,Bearing,Pressure'
         maxheader = ('Station,Time,Longitude,Latitude,Speed,'
                      'UU,VV,Bearing,Pressure')
@@ -248,8 +262,12 @@ class Timeseries(object):
 
         for stn in self.stations:
 
+            fname = pjoin(self.outputPath, 'ts.%s.csv' % str(stn.id))
+            if os.path.exists(fname):
+                # Left by an earlier run
+                os.remove(fname)
+
             if np.any(stn.data.data['Speed'] > 0.0):
-                fname = pjoin(self.outputPath, 'ts.%s.csv' % str(stn.id))
                 log.debug("Saving time series data to {0}".format(fname))
                 with open(fname, 'wb') as fh:
                     np.savetxt(fh, np.array(stn.data.data), fmt=OUTPUT_FMT,
diff --git a/wind/__init__.py b/wind/__init__.py
index 1ef9551..a311d1c 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -533,7 +533,7 @@ class WindfieldGenerator(object):
             # Without a configured domain, every track has its own
             self.gridLimit = gridLimit
             dumpfile = self.gustFilename(windfieldPath, track)
-            if self.gustFileComplete(dumpfile):
+            if timeStepCallback is None and self.gustFileComplete(dumpfile):
                 log.info("Skipping existing wind field for track {0:03d}-{1:05d}"
                          .format(*track.trackId))
                 continue
-- 
2.43.0


From 61d03dcfe9f46c09f581b3f92c638882db175eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:47 +0000
Subject: [PATCH 18/44] fix: discard wind fields that belong to other tracks or
 settings

---
 wind/__init__.py | 60 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/wind/__init__.py b/wind/__init__.py
index a311d1c..bb10d6d 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -32,6 +32,7 @@ import logging as log
 import itertools
 import math
 import os
+import re
 import sys
 from os.path import join as pjoin
 from collections import defaultdict
@@ -413,6 +414,62 @@ class WindfieldGenerator(object):
                         filename)
             return False
 
+    def windfieldSettings(self):
+        """
+        Return the configuration settings that determine the wind fields,
+        named as in the global attributes of the gust files.
+        """
+        return {"{0}_{1}".format(section, option):
+                self.config.get(section, option)
+                for section in self.config.sections()
+                for option in self.config.options(section)
+                if self.determinesWindfield(section, option)}
+
+    @staticmethod
+    def determinesWindfield(section, option):
+        """
+        Check whether a configuration setting determines the wind fields.
+        """
+        return (section == 'WindfieldInterface' or
+                (section, option.lower()) == ('Region', 'gridlimit'))
+
+    def gustFileCurrent(self, filename, trackPath):
+        """
+        Check whether an existing gust file was calculated from the present
+        tracks with the present settings.
+        """
+        try:
+            with Dataset(filename, mode='r') as ncobj:
+                atts = {name: str(ncobj.getncattr(name))
+                        for name in ncobj.ncattrs()}
+        except Exception:
+            return False
+
+        if 'track_file' not in atts or 'track_file_date' not in atts:
+            # Not written by this program
+            return True
+
+        trackfile = pjoin(trackPath, os.path.basename(atts['track_file']))
+        if not os.path.isfile(trackfile) or \
+                flModDate(trackfile) != atts['track_file_date']:
+            return False
+
+        recorded = {name: value for name, value in atts.items()
+                    if self.determinesWindfield(*name.partition('_')[::2])}
+        return recorded == self.windfieldSettings()
+
+    def removeOutdatedGusts(self, trackPath, windfieldPath):
+        """
+        Remove gust files left by an earlier run with other tracks or other
+        settings.
+        """
+        for name in sorted(os.listdir(windfieldPath)):
+            filename = pjoin(windfieldPath, name)
+            if re.match(r'gust\.\d+-\d+\.nc$', name) and \
+                    not self.gustFileCurrent(filename, trackPath):
+                log.info("Removing outdated wind field %s", filename)
+                os.remove(filename)
+
     def setGridLimit(self, track):
         """
         Set the outer bounds of the grid to encapsulate
@@ -976,6 +1033,9 @@ def run(configFile, callback=None):
 
     # Do the work
 
+    if comm.rank == 0:
+        wfg.removeOutdatedGusts(trackPath, windfieldPath)
+
     comm.barrier()
 
     wfg.dumpGustsFromTrackfiles(trackfiles, windfieldPath, timestepCallback)
-- 
2.43.0


From 7c39115533a89bef45435fd3c24143fcd3343f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:47 +0000
Subject: [PATCH 19/44] fix: mark missing wind speeds instead of writing
 uninitialised memory

---
 DataProcess/DataProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataProcess/DataProcess.py b/DataProcess/DataProcess.py
index 9693a98..34cead6 100644
--- a/DataProcess/DataProcess.py
+++ b/DataProcess/DataProcess.py
@@ -287,7 +287,7 @@ class DataProcess(object):
             vmax = np.array(inputData['vmax'], 'float32')
         except (ValueError, KeyError):
             self.logger.warning("No max wind speed data")
-            vmax = np.empty(indicator.size, 'f')
+            vmax = np.full(indicator.size, sys.maxsize, 'f')
         else:
             novalue_index = np.where(vmax == sys.maxsize)
             vmax = metutils.convert(vmax, inputSpeedUnits, "mps")
-- 
2.43.0


From f6ac3d82e921f9f1395897195c70b872772ee2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:02 +0000
Subject: [PATCH 20/44] fix: local wind threads waiting forever for a segment
 another thread took

---
 ProcessMultipliers/processMultipliers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ProcessMultipliers/processMultipliers.py b/ProcessMultipliers/processMultipliers.py
index f45e1eb..14885aa 100755
--- a/ProcessMultipliers/processMultipliers.py
+++ b/ProcessMultipliers/processMultipliers.py
@@ -1059,8 +1059,13 @@ def processMultV2(wspd, uu, vv, lon, lat, working_dir, dirns,
 
 
 def call_process_multiplier_segment(segment_queue, source_dir_band, wind_prj, bear_prj, dst_band):
-    while not segment_queue.empty():
-        processMultiplierSegment(segment_queue.get(), source_dir_band, wind_prj, bear_prj, dst_band)
+    while True:
+        try:
+            # Another thread may have taken the last segment
+            segment = segment_queue.get_nowait()
+        except queue.Empty:
+            return
+        processMultiplierSegment(segment, source_dir_band, wind_prj, bear_prj, dst_band)
 
 
 def processMultiplierSegment(segment, source_dir_band, wind_prj, bear_prj, dst_band):
-- 
2.43.0


From 61fb97183f65cfc863572ffcb71db7e4aef9128e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:02 +0000
Subject: [PATCH 21/44] fix: report failure of local wind processing in the
 exit status

---
 ProcessMultipliers/processMultipliers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ProcessMultipliers/processMultipliers.py b/ProcessMultipliers/processMultipliers.py
index 14885aa..23ea2ea 100755
--- a/ProcessMultipliers/processMultipliers.py
+++ b/ProcessMultipliers/processMultipliers.py
@@ -58,6 +58,7 @@ import logging as log
 import math
 import os
 import queue
+import sys
 import tempfile
 import threading
 import time
@@ -1178,12 +1179,14 @@ class run():
         try:
             self.main()
         except ImportError as e:
-            log.critical("Missing module: {0}".format(e.strerror))
+            log.critical("Missing module: {0}".format(e))
+            sys.exit(1)
         except Exception:  # pylint: disable=W0703
             # Catch any exceptions that occur and log them (nicely):
             tblines = traceback.format_exc().splitlines()
             for line in tblines:
                 log.critical(line.lstrip())
+            sys.exit(1)
 
     @timer
     def main(self):
-- 
2.43.0


From 80581139fae2435c13ef597a6a3eff70b7d89ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:11 +0000
Subject: [PATCH 22/44] fix: multiplier folders missing after a run stopped
 while creating them

---
 ProcessMultipliers/processMultipliers.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/ProcessMultipliers/processMultipliers.py b/ProcessMultipliers/processMultipliers.py
index 23ea2ea..f927804 100755
--- a/ProcessMultipliers/processMultipliers.py
+++ b/ProcessMultipliers/processMultipliers.py
@@ -211,19 +211,14 @@ class getMultipliers():
         if self.computed_wm_path is not None:
             return
 
-        # Assume if one is missing, they are all missing
-        dir_check = os.path.isdir(working_dir + '/shielding')
-        if dir_check is False:
-            for wm in type_mapping:
+        # Clean up existing folders to make sure we don't mix up old and new
+        log.info('Deleting the contents of the shielding, terrain and topographic '
+                 'folders in {0} to avoid using old files'.format(working_dir))
+        for wm in type_mapping:
+            if not os.path.isdir('{0}/{1}'.format(working_dir, wm)):
                 os.makedirs('{0}/{1}'.format(working_dir, wm))
-        else:
-            #Else clean up the folders to make sure we don't mix up old and new
-            log.info('Deleting the contents of the shielding, terrain and topographic '
-                     'folders in {0} to avoid using old files'.format(working_dir))
-            for wm in type_mapping:
-                files = glob.glob('{0}/{1}/*'.format(working_dir, wm))
-                for f in files:
-                    os.remove(f)
+            for f in glob.glob('{0}/{1}/*'.format(working_dir, wm)):
+                os.remove(f)
 
     def copyTranslateMultipliers(self, tiles, configFile, type_mapping, working_dir):
         '''
-- 
2.43.0


From af2d3ff1324bb01e9595bf467ab7e7273ce7ed3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:11 +0000
Subject: [PATCH 23/44] fix: replace incomplete rasters and report failed
 raster writes and commands

---
 ProcessMultipliers/processMultipliers.py | 72 ++++++++++++++++++++----
 1 file changed, 60 insertions(+), 12 deletions(-)

diff --git a/ProcessMultipliers/processMultipliers.py b/ProcessMultipliers/processMultipliers.py
index f927804..ef500fa 100755
--- a/ProcessMultipliers/processMultipliers.py
+++ b/ProcessMultipliers/processMultipliers.py
@@ -243,10 +243,10 @@ class getMultipliers():
                     output = file_break[-1]
                     output_name = wm + '/' + output
                     copyfile(file, working_dir + output_name)
-                    os.system('gdal_translate -a_srs EPSG:4326 -of GTiff '
-                              'NETCDF:{0}{1}/{2}:{3} {4}{5}.tif'
-                              .format(working_dir, wm, output, var, working_dir,
-                                      output_name[:-3])) # -3 to drop '.nc'
+                    runCommand('gdal_translate -a_srs EPSG:4326 -of GTiff '
+                               'NETCDF:{0}{1}/{2}:{3} {4}{5}.tif'
+                               .format(working_dir, wm, output, var, working_dir,
+                                       output_name[:-3])) # -3 to drop '.nc'
 
                     log.info('%s translated to Geotif', output_name[:-3])
 
@@ -266,9 +266,9 @@ class getMultipliers():
                 common_dir = glob.glob(pathn + '*_' + dirn + '.tif')
                 filelist = " ".join(common_dir)
                 log.info('Merging {0} {1} files'.format(wm, dirn))
-                os.system('gdal_merge.py -of GTiff -ot float32 -n -9999 '
-                          '-a_nodata -9999 -o  {0}{1}_{2}.tif {3}'
-                          .format(pathn, dirn, wm, filelist))
+                runCommand('gdal_merge.py -of GTiff -ot float32 -n -9999 '
+                           '-a_nodata -9999 -o  {0}{1}_{2}.tif {3}'
+                           .format(pathn, dirn, wm, filelist))
         log.debug('Finished merging the wind multiplier tiles')
 
     def combineDirections(self, dirns, working_dir):
@@ -302,12 +302,15 @@ class getMultipliers():
 
             driver = gdal.GetDriverByName("GTiff")
             log.info('Writing m4_{0}.tiff'.format(dirn))
-            dsOut = driver.Create('{0}m4_{1}.tif'.format(working_dir, dirn), ds1.RasterXSize,
+            output_file = '{0}m4_{1}.tif'.format(working_dir, dirn)
+            removeExisting(output_file)
+            dsOut = driver.Create(output_file, ds1.RasterXSize,
                                   ds1.RasterYSize, 1, band1.DataType)
             CopyDatasetInfo(ds1, dsOut)
             bandOut = dsOut.GetRasterBand(1)
             bandOut.SetNoDataValue(-9999)
             BandWriteArray(bandOut, dataOut.data)
+            closeDataset(dsOut)
 
     @timer
     def build_combined_multipliers_for_all_directions(self, output_path):
@@ -337,7 +340,9 @@ class getMultipliers():
                                                   outputSRS='EPSG:4326',
                                                   bandList=[1, 2, 3, 4, 5, 6, 7, 8],
                                                   projWin=[self.extent['xMin'], self.extent['yMax'], self.extent['xMax'], self.extent['yMin']])
-        gdal.Translate(combined_direction_file, self.computed_wm_path, options=translate_options)
+        removeExisting(combined_direction_file)
+        closeDataset(gdal.Translate(combined_direction_file, self.computed_wm_path,
+                                    options=translate_options))
         return combined_direction_file
 
     def check_if_wm_source_from_s3(self, type_mapping, tiles, dirns):
@@ -574,6 +579,45 @@ def generate_syn_mult_img(tl_x, tl_y, delta, dir_path, shape,
                      delta, -delta,
                      filename=file_path)
 
+def runCommand(command):
+    """
+    Run a shell command, raising an exception if it fails.
+
+    :param str command: Command line to run.
+
+    """
+    if os.system(command) != 0:
+        raise IOError("Command failed: {0}".format(command))
+
+
+def removeExisting(filename):
+    """
+    Remove an existing file. An incomplete raster, left by an interrupted
+    run, cannot be replaced otherwise.
+
+    :param str filename: Path of the file to remove.
+
+    """
+    if os.path.exists(filename):
+        os.remove(filename)
+
+
+def closeDataset(dataset):
+    """
+    Write all pending data of a dataset to its file and close it, raising
+    an exception if any of it could not be written.
+
+    :param dataset: :class:`gdal.Dataset` to close.
+
+    """
+    gdal.ErrorReset()
+    dataset.FlushCache()
+    if hasattr(dataset, 'Close'):
+        dataset.Close()
+    if gdal.GetLastErrorType() >= gdal.CE_Failure:
+        raise IOError(gdal.GetLastErrorMsg())
+
+
 def createRaster(array, x, y, dx, dy, epsg = 4326, filename=None, nodata=-9999):
     """
     Create an in-memory raster for processing. By default, we assume
@@ -604,6 +648,7 @@ def createRaster(array, x, y, dx, dy, epsg = 4326, filename=None, nodata=-9999):
     originX, originY = x[0], y[-1]
     if filename:
         _, ext = splitext(filename)
+        removeExisting(filename)
     if filename and ext == '.tif':
         driver = gdal.GetDriverByName('GTiff')
         tempRaster = driver.Create(filename, cols, rows, 1, gdal.GDT_Float32)
@@ -625,7 +670,7 @@ def createRaster(array, x, y, dx, dy, epsg = 4326, filename=None, nodata=-9999):
 
     log.debug("Spatial reference system is:")
     log.debug(tempRasterSRS.ExportToWkt())
-    tempBand.FlushCache()
+    tempRaster.FlushCache()
     return tempRaster
 
 
@@ -785,6 +830,7 @@ def reprojectDataset(src_file, match_filename, dst_filename,
     high = match_ds.RasterYSize
 
     # Output / destination
+    removeExisting(dst_filename)
     drv = gdal.GetDriverByName('GTiff')
     dst = drv.Create(dst_filename, wide, high, 1, gdal.GDT_Float32)
     dst.SetGeoTransform(match_geotrans)
@@ -795,7 +841,7 @@ def reprojectDataset(src_file, match_filename, dst_filename,
     # Do the work
     gdal.ReprojectImage(src, dst, src_proj, match_proj, resampling_method, WarpMemoryLimit=warp_memory_limit)
 
-    del dst  # Flush
+    closeDataset(dst)
     if isinstance(match_filename, str):
         del match_ds
     if isinstance(src_file, str):
@@ -1004,6 +1050,7 @@ def processMultV2(wspd, uu, vv, lon, lat, working_dir, dirns,
         log.info("Creating output file: {0}".format(output_file))
         # Save the local wind field to a raster file with the SRS of the
         # multipliers
+        removeExisting(output_file)
         drv = gdal.GetDriverByName("GTiff")
         dst_ds = drv.Create(output_file, cols, rows, 1,
                             gdal.GDT_Float32, ['BIGTIFF=YES', 'SPARSE_OK=TRUE'])
@@ -1047,7 +1094,8 @@ def processMultV2(wspd, uu, vv, lon, lat, working_dir, dirns,
         futures.wait(future_requests, return_when='FIRST_EXCEPTION')
         for task in future_requests:
             task.result()  # Called to obtain exception information if any
-        dst_ds.FlushCache()
+        closeDataset(dst_ds)
+        closeDataset(wind_raster)
         del dst_ds
 
     log.info("Completed")
-- 
2.43.0


From 0fd416c8068ed2b379624ef865a20cbefd92f65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:11 +0000
Subject: [PATCH 24/44] fix: incomplete downloads kept as complete files

---
 Utilities/datasets.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/Utilities/datasets.py b/Utilities/datasets.py
index ccb9904..db0a6fd 100644
--- a/Utilities/datasets.py
+++ b/Utilities/datasets.py
@@ -3,6 +3,7 @@
 =============================================
 
 """
+import os
 from urllib.request import urlopen
 from urllib.error import URLError
 from io import BytesIO
@@ -59,7 +60,9 @@ class DataSet(object):
             meta = urlfile.info()
             data = BytesIO()
 
-            size = int(meta['Content-Length'])
+            size = meta['Content-Length']
+            if size is not None:
+                size = int(size)
             done = 0
             while True:
                 buf = urlfile.read(8192)
@@ -67,9 +70,13 @@ class DataSet(object):
                     break
                 data.write(buf)
                 done += len(buf)
-                if callback is not None:
+                if callback is not None and size:
                     callback(self.filename, done, size)
 
+            if size is not None and done != size:
+                raise IOError('Incomplete download: {0} of {1} bytes'
+                              .format(done, size))
+
             data.seek(0)
 
             if self.compression == 'gz':
@@ -78,10 +85,14 @@ class DataSet(object):
 
             if self.compression == 'zip':
                 from zipfile import ZipFile
-                data = ZipFile(data)
+                archive = ZipFile(data)
+                data = archive.open(archive.namelist()[0])
 
-            with open(pjoin(self.path, self.filename), 'wb') as outfile:
+            # The file gets its name only once it is complete
+            filename = pjoin(self.path, self.filename)
+            with open(filename + '.tmp', 'wb') as outfile:
                 outfile.write(data.read())
+            os.replace(filename + '.tmp', filename)
 
         except URLError:
             raise IOError('Cannot download file')
-- 
2.43.0


From 733889f0e4de5f1d9f00f7df61914606a51ed1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:11 +0000
Subject: [PATCH 25/44] fix: saved time steps missing or cut off after an
 interrupted run

---
 wind/__init__.py | 47 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index bb10d6d..49e9feb 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -397,6 +397,29 @@ class WindfieldGenerator(object):
         return pjoin(windfieldPath,
                      'gust.{0:03d}-{1:05d}.nc'.format(*track.trackId))
 
+    @staticmethod
+    def evolutionFilename(windfieldPath, track):
+        """
+        Return the filename for the wind fields at all time steps of a track.
+        """
+        return pjoin(windfieldPath,
+                     'evolution.{0:03d}-{1:05d}.nc'.format(*track.trackId))
+
+    def saveEvolution(self):
+        """
+        Check whether the wind fields at all time steps are to be saved.
+        """
+        return self.config.getboolean('Timeseries', 'Windfields',
+                                      fallback=False)
+
+    def evolutionSaved(self, windfieldPath, track):
+        """
+        Check whether the wind fields at all time steps, if they are to be
+        saved, are available already.
+        """
+        return not self.saveEvolution() or \
+            os.path.isfile(self.evolutionFilename(windfieldPath, track))
+
     @staticmethod
     def gustFileComplete(filename):
         """
@@ -470,6 +493,14 @@ class WindfieldGenerator(object):
                 log.info("Removing outdated wind field %s", filename)
                 os.remove(filename)
 
+        # The time steps are of no use without the wind field of the same run
+        for name in sorted(os.listdir(windfieldPath)):
+            if re.match(r'evolution\.\d+-\d+\.nc(\.tmp)?$', name):
+                gustname = name.replace('evolution', 'gust', 1)
+                if name.endswith('.tmp') or not \
+                        os.path.isfile(pjoin(windfieldPath, gustname)):
+                    os.remove(pjoin(windfieldPath, name))
+
     def setGridLimit(self, track):
         """
         Set the outer bounds of the grid to encapsulate
@@ -520,15 +551,17 @@ class WindfieldGenerator(object):
                                   gridLimit=self.gridLimit,
                                   domain=self.domain)
 
-        if self.config.getboolean('Timeseries', 'Windfields', fallback=False):
-            output = pjoin(self.windfieldPath,
-                           'evolution.{0:03d}-{1:05d}.nc'.format(
-                               *track.trackId))
-            callback = writer.WriteFoliationCallback(output,
+        if self.saveEvolution():
+            output = self.evolutionFilename(self.windfieldPath, track)
+            callback = writer.WriteFoliationCallback(output + '.tmp',
                                                      self.gridLimit,
                                                      self.resolution,
                                                      self.margin,
                                                      wraps=callback)
+            result = wt.regionalExtremes(self.gridLimit, callback)
+            # The file only gets its final name when it is complete
+            os.replace(output + '.tmp', output)
+            return track, result
 
         return track, wt.regionalExtremes(self.gridLimit, callback)
 
@@ -590,7 +623,9 @@ class WindfieldGenerator(object):
             # Without a configured domain, every track has its own
             self.gridLimit = gridLimit
             dumpfile = self.gustFilename(windfieldPath, track)
-            if timeStepCallback is None and self.gustFileComplete(dumpfile):
+            if timeStepCallback is None and \
+                    self.evolutionSaved(windfieldPath, track) and \
+                    self.gustFileComplete(dumpfile):
                 log.info("Skipping existing wind field for track {0:03d}-{1:05d}"
                          .format(*track.trackId))
                 continue
-- 
2.43.0


From ac99ffdb9f777832556072f85e5b68968ddd9236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:18:06 +0000
Subject: [PATCH 26/44] fix: evaluate the catalogue with several processes

The evaluation stage could not run with more than one process. The exchange
of track files and results used calls that do not exist for these objects,
and it failed when there were more processes than files. Results are now
kept at the position of their file, so the output does not depend on the
order in which processes finish. The longitude crossing of the historical
tracks is entered by all processes, because they meet in a barrier there.
---
 Evaluate/genesisDensity.py       | 37 +++++++++++++++++-------------
 Evaluate/landfallRates.py        | 33 +++++++++++++++------------
 Evaluate/longitudeCrossing.py    | 39 +++++++++++++++++++-------------
 Evaluate/pressureDistribution.py | 38 +++++++++++++++++++------------
 Evaluate/trackDensity.py         | 37 +++++++++++++++++-------------
 5 files changed, 107 insertions(+), 77 deletions(-)

diff --git a/Evaluate/genesisDensity.py b/Evaluate/genesisDensity.py
index 25ec56d..a7764ac 100755
--- a/Evaluate/genesisDensity.py
+++ b/Evaluate/genesisDensity.py
@@ -253,8 +253,8 @@ class GenesisDensity(object):
         """Load synthetic data and calculate histogram"""
 
         filelist = os.listdir(self.trackPath)
-        trackfiles = [pjoin(self.trackPath, f) for f in filelist
-                      if f.startswith('tracks')]
+        trackfiles = sorted([pjoin(self.trackPath, f) for f in filelist
+                             if f.startswith('tracks')])
         self.synHist = -9999. * np.ones((len(trackfiles),
                                          len(self.lon_range),
                                          len(self.lat_range)))
@@ -263,43 +263,48 @@ class GenesisDensity(object):
         result_tag = 1
 
         if (comm.rank == 0) and (comm.size > 1):
+            status = MPI.Status()
             w = 0
-            n = 0
+            p = comm.size - 1
             for d in range(1, comm.size):
-                comm.Send(trackfiles[w], dest=d, tag=work_tag)
-                log.debug("Processing track file {0:d} of {1:d}".\
-                          format(w, len(trackfiles)))
-                w += 1
+                if w < len(trackfiles):
+                    comm.send((w, trackfiles[w]), dest=d, tag=work_tag)
+                    log.debug("Processing track file {0:d} of {1:d}".\
+                              format(w, len(trackfiles)))
+                    w += 1
+                else:
+                    comm.send(None, dest=d, tag=work_tag)
+                    p = w
 
             terminated = 0
-            while terminated < comm.size - 1:
-                results, status = comm.Recv(MPI.ANY_SOURCE, tag=result_tag,
-                                             status=True)
+            while terminated < p:
+                n, results = comm.recv(source=MPI.ANY_SOURCE, tag=result_tag,
+                                       status=status)
                 self.synHist[n, :, :] = results
-                n += 1
 
                 d = status.source
                 if w < len(trackfiles):
-                    comm.Send(trackfiles[w], dest=d, tag=work_tag)
+                    comm.send((w, trackfiles[w]), dest=d, tag=work_tag)
                     log.debug("Processing track file {0:d} of {1:d}".\
                               format(w, len(trackfiles)))
                     w += 1
                 else:
-                    comm.Send(None, dest=d, tag=work_tag)
+                    comm.send(None, dest=d, tag=work_tag)
                     terminated += 1
 
             self.calculateMeans()
 
         elif (comm.size > 1) and (comm.rank != 0):
             while True:
-                trackfile = comm.Recv(source=0, tag=work_tag)
-                if trackfile is None:
+                work = comm.recv(source=0, tag=work_tag)
+                if work is None:
                     break
+                n, trackfile = work
 
                 log.debug("Processing {0}".format(trackfile))
                 tracks = loadTracks(trackfile)
                 results = self._calculate(tracks) #/ self.synNumYears
-                comm.Send(results, dest=0, tag=result_tag)
+                comm.send((n, results), dest=0, tag=result_tag)
 
         elif (comm.size == 1) and (comm.rank == 0):
             for n, trackfile in enumerate(trackfiles):
diff --git a/Evaluate/landfallRates.py b/Evaluate/landfallRates.py
index 2d41ef9..1470833 100644
--- a/Evaluate/landfallRates.py
+++ b/Evaluate/landfallRates.py
@@ -210,45 +210,50 @@ class LandfallRates(object):
 
         if (comm.rank == 0) and (comm.size > 1):
 
+            status = MPI.Status()
             w = 0
-            n = 0
+            p = comm.size - 1
             for d in range(1, comm.size):
-                comm.Send(trackfiles[w], dest=d, tag=work_tag)
-                LOG.debug("Processing track file {0:d} of {1:d}".\
-                          format(w + 1, len(trackfiles)))
-                w += 1
+                if w < len(trackfiles):
+                    comm.send((w, trackfiles[w]), dest=d, tag=work_tag)
+                    LOG.debug("Processing track file {0:d} of {1:d}".\
+                              format(w + 1, len(trackfiles)))
+                    w += 1
+                else:
+                    comm.send(None, dest=d, tag=work_tag)
+                    p = w
 
             terminated = 0
-            while terminated < comm.size() - 1:
-                results, status = comm.Recv(MPI.ANY_SOURCE, tag=result_tag,
-                                             status=True)
+            while terminated < p:
+                n, results = comm.recv(source=MPI.ANY_SOURCE, tag=result_tag,
+                                       status=status)
 
                 self.processResults(results, n)
-                n += 1
 
                 d = status.source
 
                 if w < len(trackfiles):
-                    comm.Send(trackfiles[w], dest=d, tag=work_tag)
+                    comm.send((w, trackfiles[w]), dest=d, tag=work_tag)
                     LOG.debug("Processing track file {0:d} of {1:d}".\
                               format(w + 1, len(trackfiles)))
                     w += 1
                 else:
-                    comm.Send(None, dest=d, tag=work_tag)
+                    comm.send(None, dest=d, tag=work_tag)
                     terminated += 1
 
             self.calculateStats()
 
         elif (comm.size > 1) and (comm.rank != 0):
             while True:
-                trackfile = comm.Recv(source=0, tag=work_tag)
-                if trackfile is None:
+                work = comm.recv(source=0, tag=work_tag)
+                if work is None:
                     break
+                n, trackfile = work
 
                 LOG.debug("Processing %s", trackfile)
                 tracks = loadTracks(trackfile)
                 results = self.processTracks(tracks)
-                comm.Send(results, dest=0, tag=result_tag)
+                comm.send((n, results), dest=0, tag=result_tag)
 
         elif comm.size == 1 and comm.rank == 0:
             # Assumed no Pypar - helps avoid the need to extend DummyPypar()
diff --git a/Evaluate/longitudeCrossing.py b/Evaluate/longitudeCrossing.py
index 6a60fde..157f916 100644
--- a/Evaluate/longitudeCrossing.py
+++ b/Evaluate/longitudeCrossing.py
@@ -173,9 +173,11 @@ class LongitudeCrossing(object):
 
 
 
-    @disableOnWorkers
     def historic(self):
-        """Calculate historical rates of longitude crossing"""
+        """
+        Calculate historical rates of longitude crossing. All processes
+        take part, as they meet in the interpolation of the tracks.
+        """
 
         LOG.info("Processing historical tracks for longitude crossings")
         config = ConfigParser()
@@ -227,47 +229,52 @@ class LongitudeCrossing(object):
 
         if (comm.rank == 0) and (comm.size > 1):
 
+            status = MPI.Status()
             w = 0
-            n = 0
+            p = comm.size - 1
             for d in range(1, comm.size):
-                comm.Send(trackfiles[w], dest=d, tag=work_tag)
-                LOG.debug("Processing track file {0:d} of {1:d}".\
-                          format(w + 1, len(trackfiles)))
-                w += 1
+                if w < len(trackfiles):
+                    comm.send((w, trackfiles[w]), dest=d, tag=work_tag)
+                    LOG.debug("Processing track file {0:d} of {1:d}".\
+                              format(w + 1, len(trackfiles)))
+                    w += 1
+                else:
+                    comm.send(None, dest=d, tag=work_tag)
+                    p = w
 
             terminated = 0
-            while terminated < comm.size - 1:
-                results, status = comm.Recv(MPI.ANY_SOURCE, tag=result_tag,
-                                               status=None)
+            while terminated < p:
+                n, results = comm.recv(source=MPI.ANY_SOURCE, tag=result_tag,
+                                       status=status)
 
                 lonCrossHist[n, :, :], lonCrossEW[n, :, :], \
                     lonCrossWE[n, :, :] = results
-                n += 1
 
                 d = status.source
 
                 if w < len(trackfiles):
-                    comm.Send(trackfiles[w], dest=d, tag=work_tag)
+                    comm.send((w, trackfiles[w]), dest=d, tag=work_tag)
                     LOG.debug("Processing track file {0:d} of {1:d}".\
                               format(w + 1, len(trackfiles)))
                     w += 1
                 else:
-                    comm.Send(None, dest=d, tag=work_tag)
+                    comm.send(None, dest=d, tag=work_tag)
                     terminated += 1
 
             self.calcStats(lonCrossHist, lonCrossEW, lonCrossWE)
 
         elif (comm.size > 1) and (comm.rank != 0):
             while True:
-                trackfile = comm.Recv(source=0, tag=work_tag)
-                if trackfile is None:
+                work = comm.recv(source=0, tag=work_tag)
+                if work is None:
                     break
+                n, trackfile = work
 
                 LOG.debug("Processing {0}".format(trackfile))
                 tracks = loadTracks(trackfile)
                 lonCross, lonCrossEW, lonCrossWE = self.findCrossings(tracks)
                 results = (lonCross, lonCrossEW, lonCrossWE)
-                comm.Send(results, dest=0, tag=result_tag)
+                comm.send((n, results), dest=0, tag=result_tag)
 
         elif (comm.size == 1) and (comm.rank == 0):
             # Assumed no Pypar - helps avoid the need to extend DummyPypar()
diff --git a/Evaluate/pressureDistribution.py b/Evaluate/pressureDistribution.py
index 2687230..e856b37 100644
--- a/Evaluate/pressureDistribution.py
+++ b/Evaluate/pressureDistribution.py
@@ -257,18 +257,24 @@ class PressureDistribution(object):
         self.synMinCP = np.array([])
         if (comm.rank == 0) and (comm.size > 1):
 
+            status = MPI.Status()
             w = 0
-            n = 0
+            p = comm.size - 1
             for d in range(1, comm.size):
-                comm.Send(trackfiles[w], dest=d, tag=work_tag)
-                log.debug("Processing track file {0:d} of {1:d}".
-                          format(w + 1, len(trackfiles)))
-                w += 1
+                if w < len(trackfiles):
+                    comm.send((w, trackfiles[w]), dest=d, tag=work_tag)
+                    log.debug("Processing track file {0:d} of {1:d}".
+                              format(w + 1, len(trackfiles)))
+                    w += 1
+                else:
+                    comm.send(None, dest=d, tag=work_tag)
+                    p = w
 
             terminated = 0
-            while terminated < comm.size - 1:
-                results, status = comm.Recv(MPI.ANY_SOURCE, tag=result_tag,
-                                            status=None)
+            minCP = [None] * len(trackfiles)
+            while terminated < p:
+                n, results = comm.recv(source=MPI.ANY_SOURCE, tag=result_tag,
+                                       status=status)
 
                 sMean, sMin, sMax, sMed, sMinCPDist, sMinCP = results
                 synMean[n, :, :] = sMean
@@ -276,34 +282,36 @@ class PressureDistribution(object):
                 synMax[n, :, :] = sMax
                 synMed[n, :, :] = sMed
                 synMinCPDist[n, :] = sMinCPDist
-                self.synMinCP = np.append(self.synMinCP, sMinCP)
-                n += 1
+                minCP[n] = sMinCP
 
                 d = status.source
 
                 if w < len(trackfiles):
-                    comn.Send(trackfiles[w], dest=d, tag=work_tag)
+                    comm.send((w, trackfiles[w]), dest=d, tag=work_tag)
                     log.debug("Processing track file {0:d} of {1:d}".
                               format(w + 1, len(trackfiles)))
                     w += 1
                 else:
-                    comm.Send(None, dest=d, tag=work_tag)
+                    comm.send(None, dest=d, tag=work_tag)
                     terminated += 1
 
+            for sMinCP in minCP:
+                self.synMinCP = np.append(self.synMinCP, sMinCP)
             self.calculateMeans(synMean, synMin, synMed, synMax, synMinCPDist)
 
         elif (comm.size > 1) and (comm.rank != 0):
             while True:
-                trackfile = comm.Recv(source=0, tag=work_tag)
-                if trackfile is None:
+                work = comm.recv(source=0, tag=work_tag)
+                if work is None:
                     break
+                n, trackfile = work
 
                 log.debug("Processing {0}".format(trackfile))
                 tracks = loadTracks(trackfile)
                 sMean, sMin, sMax, sMed = self.calculate(tracks)
                 sMinCPDist, sMinCP = self.calcMinPressure(tracks)
                 results = (sMean, sMin, sMax, sMed, sMinCPDist, sMinCP)
-                comm.Send(results, dest=0, tag=result_tag)
+                comm.send((n, results), dest=0, tag=result_tag)
 
         elif comm.size == 1 and comm.rank == 0:
             # Assumed no Pypar - helps avoid the need to extend DummyPypar()
diff --git a/Evaluate/trackDensity.py b/Evaluate/trackDensity.py
index e36163e..4069ad5 100644
--- a/Evaluate/trackDensity.py
+++ b/Evaluate/trackDensity.py
@@ -157,8 +157,8 @@ class TrackDensity(object):
         """Load synthetic data and calculate histogram"""
 
         filelist = os.listdir(self.trackPath)
-        trackfiles = [pjoin(self.trackPath, f) for f in filelist
-                      if f.startswith('tracks')]
+        trackfiles = sorted([pjoin(self.trackPath, f) for f in filelist
+                             if f.startswith('tracks')])
         self.synHist = -9999. * np.ones((len(trackfiles),
                                          len(self.lon_range)-1,
                                          len(self.lat_range)-1))
@@ -167,43 +167,48 @@ class TrackDensity(object):
         result_tag = 1
 
         if (comm.rank == 0) and (comm.size > 1):
+            status = MPI.Status()
             w = 0
-            n = 0
+            p = comm.size - 1
             for d in range(1, comm.size):
-                comm.Send(trackfiles[w], dest=d, tag=work_tag)
-                log.debug("Processing track file {0:d} of {1:d}".\
-                              format(w, len(trackfiles)))
-                w += 1
+                if w < len(trackfiles):
+                    comm.send((w, trackfiles[w]), dest=d, tag=work_tag)
+                    log.debug("Processing track file {0:d} of {1:d}".\
+                                  format(w, len(trackfiles)))
+                    w += 1
+                else:
+                    comm.send(None, dest=d, tag=work_tag)
+                    p = w
 
             terminated = 0
-            while (terminated < comm.size - 1):
-                results, status = comm.Recv(MPI.ANY_SOURCE, tag=result_tag,
-                                            status=True)
+            while terminated < p:
+                n, results = comm.recv(source=MPI.ANY_SOURCE, tag=result_tag,
+                                       status=status)
                 self.synHist[n, :, :] = results
-                n += 1
 
                 d = status.source
                 if w < len(trackfiles):
-                    comm.Send(trackfiles[w], dest=d, tag=work_tag)
+                    comm.send((w, trackfiles[w]), dest=d, tag=work_tag)
                     log.debug("Processing track file {0:d} of {1:d}".\
                               format(w, len(trackfiles)))
                     w += 1
                 else:
-                    comm.Send(None, dest=d, tag=work_tag)
+                    comm.send(None, dest=d, tag=work_tag)
                     terminated += 1
 
             self.calculateMeans()
 
         elif (comm.size > 1) and (comm.rank != 0):
             while(True):
-                trackfile = comm.Recv(source=0, tag=work_tag)
-                if trackfile is None:
+                work = comm.recv(source=0, tag=work_tag)
+                if work is None:
                     break
+                n, trackfile = work
 
                 log.debug("Processing %s" % (trackfile))
                 tracks = loadTracks(trackfile)
                 results = self.calculate(tracks) / self.synNumYears
-                comm.Send(results, dest=0, tag=result_tag)
+                comm.send((n, results), dest=0, tag=result_tag)
 
         elif (comm.size == 1) and (comm.rank == 0):
             for n, trackfile in enumerate(trackfiles):
-- 
2.43.0


From bf542d54584225a7d1a074d23b6855432b2ee108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:19:05 +0000
Subject: [PATCH 27/44] fix: plot density samples of catalogues with few
 simulations

The sample maps asked for fixed simulation numbers and the evaluation
failed when the catalogue had fewer simulations.
---
 Evaluate/genesisDensity.py |  9 +++------
 Evaluate/trackDensity.py   | 13 +++----------
 2 files changed, 6 insertions(+), 16 deletions(-)

diff --git a/Evaluate/genesisDensity.py b/Evaluate/genesisDensity.py
index a7764ac..fa89501 100755
--- a/Evaluate/genesisDensity.py
+++ b/Evaluate/genesisDensity.py
@@ -427,12 +427,9 @@ class GenesisDensity(object):
         figure2 = FilledContourMapFigure()
         figure2.add(self.hist.T*(10.**-exponent), xgrid, ygrid,
                     "Historic", lvls*(10.**-exponent), cbarlab, map_kwargs)
-        figure2.add(self.synHist[0, :, :].T*(10.**-exponent), xgrid, ygrid,
-                    "Synthetic", lvls*(10.**-exponent), cbarlab, map_kwargs)
-        figure2.add(self.synHist[1, :, :].T*(10.**-exponent), xgrid, ygrid,
-                    "Synthetic", lvls*(10.**-exponent), cbarlab, map_kwargs)
-        figure2.add(self.synHist[2, :, :].T*(10.**-exponent), xgrid, ygrid,
-                    "Synthetic", lvls*(10.**-exponent), cbarlab, map_kwargs)
+        for n in range(min(len(self.synHist), 3)):
+            figure2.add(self.synHist[n, :, :].T*(10.**-exponent), xgrid, ygrid,
+                        "Synthetic", lvls*(10.**-exponent), cbarlab, map_kwargs)
 
         figure2.plot()
         outputFile = pjoin(self.plotPath, 'genesis_density_samples.png')
diff --git a/Evaluate/trackDensity.py b/Evaluate/trackDensity.py
index 4069ad5..278a36f 100644
--- a/Evaluate/trackDensity.py
+++ b/Evaluate/trackDensity.py
@@ -324,16 +324,9 @@ class TrackDensity(object):
         figure2 = ArrayMapFigure()
         figure2.add(self.hist.T, self.X, self.Y, "Historic", datarange,
                     cbarlab, self.map_kwargs)
-        figure2.add(self.synHist[0, :, :].T, self.X, self.Y, "Synthetic",
-                    datarange, cbarlab, self.map_kwargs)
-        figure2.add(self.synHist[10, :, :].T, self.X, self.Y, "Synthetic",
-                    datarange, cbarlab, self.map_kwargs)
-        figure2.add(self.synHist[20, :, :].T, self.X, self.Y, "Synthetic",
-                    datarange, cbarlab, self.map_kwargs)
-        figure2.add(self.synHist[30, :, :].T, self.X, self.Y, "Synthetic",
-                    datarange, cbarlab, self.map_kwargs)
-        figure2.add(self.synHist[40, :, :].T, self.X, self.Y, "Synthetic",
-                    datarange, cbarlab, self.map_kwargs)
+        for n in range(0, min(len(self.synHist), 41), 10):
+            figure2.add(self.synHist[n, :, :].T, self.X, self.Y, "Synthetic",
+                        datarange, cbarlab, self.map_kwargs)
         figure2.plot()
         outputFile = pjoin(self.plotPath, 'track_density_samples.png')
         saveFigure(figure2, outputFile)
-- 
2.43.0


From b403f813e75b5efca180797d09440affc1255369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:22:44 +0000
Subject: [PATCH 28/44] fix: count downward edges in the winding number test

The branch for edges that go down was nested inside the one for edges that
start below the point. Points over land were taken to be at sea for some
outlines, so landfalls were missed.
---
 Utilities/Intersections.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Utilities/Intersections.py b/Utilities/Intersections.py
index 3b01b8c..399dd25 100644
--- a/Utilities/Intersections.py
+++ b/Utilities/Intersections.py
@@ -99,9 +99,9 @@ def _wnPnPoly(P, V):
             if V[i + 1].y > P.y:      # an upward crossing
                 if _isLeft(V[i], V[i + 1], P) > 0:  # P left of edge
                     wn += 1            # have a valid up intersect
-            elif V[i + 1].y <= P.y:     # a downward crossing
-                if _isLeft(V[i], V[i + 1], P) < 0:  # P right of edge
-                    wn -= 1            # have a valid down intersect
+        elif V[i + 1].y <= P.y:     # a downward crossing
+            if _isLeft(V[i], V[i + 1], P) < 0:  # P right of edge
+                wn -= 1            # have a valid down intersect
     return wn != 0
 
 
-- 
2.43.0


From 1319a58ed4c8e6e1a46ba7e57f6e38e4ade44f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:42:51 +0000
Subject: [PATCH 29/44] fix: convert wind speeds to km/h when the units are
 given as kmh

---
 Utilities/metutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Utilities/metutils.py b/Utilities/metutils.py
index 0226102..1b5e275 100644
--- a/Utilities/metutils.py
+++ b/Utilities/metutils.py
@@ -394,6 +394,8 @@ def convert(value, inunits, outunits):
         inunits = 'kph'
     if inunits == "m/s":
         inunits = "mps"
+    if outunits == 'kmh':
+        outunits = 'kph'
 
     # Speeds:
     mps = {"kph":3.6, "kts":1.944, "mph":2.2369}
-- 
2.43.0


From 58a8c20626e324ba5f5f4630b757806144e7b264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:43:01 +0000
Subject: [PATCH 30/44] fix: show recorded wind speeds on hazard curves in the
 plot units

---
 PlotInterface/AutoPlotHazard.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PlotInterface/AutoPlotHazard.py b/PlotInterface/AutoPlotHazard.py
index a4225f8..9dabb8e 100644
--- a/PlotInterface/AutoPlotHazard.py
+++ b/PlotInterface/AutoPlotHazard.py
@@ -229,7 +229,8 @@ class AutoPlotHazard(object):
             recs = database.queries.locationRecords(self.db, pID)
             data = np.zeros(int(self.numsimulations * 365.25))
             if len(recs) > 0:
-                data[-len(recs):] = recs['wspd']
+                data[-len(recs):] = metutils.convert(recs['wspd'], 'mps',
+                                                     self.plotUnits.units)
 
             allevents = np.sort(data)
             log.debug("allevents length = {0}".format(len(allevents)))
-- 
2.43.0


From 4d39726b443288df7bcb394bc5c3f8ffdb7beb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:46:55 +0000
Subject: [PATCH 31/44] fix: keep confidence limits of a cell free of samples
 of other cells

---
 hazard/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index f71d883..e21b4fb 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -848,6 +848,7 @@ def calculateCI(Vr, years, nodata, minRecords, yrsPerSim=1,
         for j in range(Vr.shape[2]): # lon
             if Vr[:, i, j].max() > 0.0: # check for valid data
                 rng.shuffle(Vr[:, i, j]) # shuffle the years
+                w[:] = 0. # forget the samples of the previous grid cell
                 for n in range(nsamples): # iterate through fitting of random samples
                     nstart = n*sample_size
                     nend  = (n + 1)*sample_size - 1
-- 
2.43.0


From 53807c843440289f15d8643bd4ea4bd5c89031af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:48 +0000
Subject: [PATCH 32/44] fix: leave samples that could not be fitted out of
 confidence limits

---
 hazard/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index e21b4fb..febcaad 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -861,9 +861,11 @@ def calculateCI(Vr, years, nodata, minRecords, yrsPerSim=1,
                                                               minRecords/10, yrsPerSim)
 
                 # Pull out the upper and lower percentiles from the random sample fits
+                # (samples that could not be fitted do not count)
                 for n in range(len(years)):
-                    wUpper[n] = percentile(w[n,:], upper)
-                    wLower[n] = percentile(w[n,:], lower)
+                    valid = w[n, w[n, :] != nodata]
+                    wUpper[n] = percentile(valid, upper) if valid.size else nodata
+                    wLower[n] = percentile(valid, lower) if valid.size else nodata
 
                 # Store upper and lower percentiles for each return period, for each grid cell
                 RpUpper[:, i, j] = wUpper
-- 
2.43.0


From 0931f550e2957c3fc2acdd31d34709358ae5e96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:58:16 +0000
Subject: [PATCH 33/44] fix: keep logs of all processes in the log folder when
 they start at once

---
 Utilities/files.py | 2 +-
 tcevent.py         | 2 +-
 tcrm.py            | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Utilities/files.py b/Utilities/files.py
index a58f7f8..81d30b8 100644
--- a/Utilities/files.py
+++ b/Utilities/files.py
@@ -227,7 +227,7 @@ def flStartLog(logFile, logLevel, verbose=False, datestamp=False, newlog=True):
     logDir = os.path.dirname(os.path.realpath(logFile))
     if not os.path.isdir(logDir):
         try:
-            os.makedirs(logDir)
+            os.makedirs(logDir, exist_ok=True)
         except OSError:
             # Unable to create the directory, so stick it in the
             # current working directory:
diff --git a/tcevent.py b/tcevent.py
index 71eb802..5733245 100755
--- a/tcevent.py
+++ b/tcevent.py
@@ -241,7 +241,7 @@ def startup():
     # If log file directory does not exist, create it
     if not isdir(logdir):
         try:
-            os.makedirs(logdir)
+            os.makedirs(logdir, exist_ok=True)
         except OSError:
             logfile = pjoin(os.getcwd(), 'tcrm.log')
 
diff --git a/tcrm.py b/tcrm.py
index e374a11..6fef763 100755
--- a/tcrm.py
+++ b/tcrm.py
@@ -600,7 +600,7 @@ def startup():
     # If log file directory does not exist, create it
     if not isdir(logdir):
         try:
-            os.makedirs(logdir)
+            os.makedirs(logdir, exist_ok=True)
         except OSError:
             logfile = pjoin(os.getcwd(), 'tcrm.log')
 
-- 
2.43.0


From 651296229920cb7338c89ef06fdd9a71131e43c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:58:16 +0000
Subject: [PATCH 34/44] fix: end the whole job when a process cannot start its
 log

---
 tcrm.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/tcrm.py b/tcrm.py
index 6fef763..45eeb4d 100755
--- a/tcrm.py
+++ b/tcrm.py
@@ -628,20 +628,20 @@ def startup():
         #codeStatus = status()
         #print __doc__ + codeStatus
 
-    flStartLog(logfile, logLevel, verbose, datestamp)
+    try:
+        flStartLog(logfile, logLevel, verbose, datestamp)
 
-    # Switch off minor warning messages
-    import warnings
-    warnings.filterwarnings("ignore", category=DeprecationWarning)
-    warnings.filterwarnings("ignore", category=UserWarning, module="pytz")
-    warnings.filterwarnings("ignore", category=UserWarning, module="numpy")
-    warnings.filterwarnings("ignore", category=UserWarning,
-                            module="matplotlib")
+        # Switch off minor warning messages
+        import warnings
+        warnings.filterwarnings("ignore", category=DeprecationWarning)
+        warnings.filterwarnings("ignore", category=UserWarning, module="pytz")
+        warnings.filterwarnings("ignore", category=UserWarning, module="numpy")
+        warnings.filterwarnings("ignore", category=UserWarning,
+                                module="matplotlib")
 
-    warnings.filterwarnings("ignore", category=RuntimeWarning)
-    checkModules()
+        warnings.filterwarnings("ignore", category=RuntimeWarning)
+        checkModules()
 
-    try:
         if debug:
             main(configFile)
         else:
-- 
2.43.0


From a567dda13d187704e05d9552986466e5263ff2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:07:16 +0000
Subject: [PATCH 35/44] fix: name station figures after the whole station
 identifier

---
 PlotInterface/plotTimeseries.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PlotInterface/plotTimeseries.py b/PlotInterface/plotTimeseries.py
index 49afc71..3052e20 100644
--- a/PlotInterface/plotTimeseries.py
+++ b/PlotInterface/plotTimeseries.py
@@ -96,8 +96,9 @@ def plotTimeseries(inputPath, outputPath, locID=None):
         inputFileList = [f for f in files if f.startswith('ts.')]
         for f in inputFileList:
             # Here we assume the timeseries files are named ts.<location ID>.dat
-            locID = f.rstrip('.csv').lstrip('ts.')
-            outputFile = pjoin(outputPath, '%s.png' % f.rstrip('.csv'))
+            baseName = os.path.splitext(f)[0]
+            locID = baseName[len('ts.'):]
+            outputFile = pjoin(outputPath, '%s.png' % baseName)
             inputData = loadTimeseriesData(pjoin(inputPath, f))
 
 
-- 
2.43.0


From 31b1e9f107b2328ee0691ebaaaefedb85f5bc69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:08:09 +0000
Subject: [PATCH 36/44] fix: remove station figures of an earlier event from
 the plot folder

---
 PlotInterface/plotTimeseries.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/PlotInterface/plotTimeseries.py b/PlotInterface/plotTimeseries.py
index 3052e20..561061f 100644
--- a/PlotInterface/plotTimeseries.py
+++ b/PlotInterface/plotTimeseries.py
@@ -94,6 +94,12 @@ def plotTimeseries(inputPath, outputPath, locID=None):
     else:
         files = os.listdir(inputPath)
         inputFileList = [f for f in files if f.startswith('ts.')]
+
+        # Figures of an earlier event are not left among those of this one
+        for f in os.listdir(outputPath):
+            if f.startswith('ts.') and f.endswith('.png'):
+                os.remove(pjoin(outputPath, f))
+
         for f in inputFileList:
             # Here we assume the timeseries files are named ts.<location ID>.dat
             baseName = os.path.splitext(f)[0]
-- 
2.43.0


From 8d0e1efedab5aade1ef879d4fe5d82bb2cba38e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:51:50 +0000
Subject: [PATCH 37/44] fix: discard locations outside the region when
 rebuilding the database

---
 database/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/database/__init__.py b/database/__init__.py
index 7e7851a..a3ebd25 100644
--- a/database/__init__.py
+++ b/database/__init__.py
@@ -189,7 +189,8 @@ class _HazardDatabase(sqlite3.Connection):
         self.createTable('tblTracks', TBLTRACKSDEF)
         # Discard the results of any earlier run, these are rebuilt from
         # the current set of wind fields, hazard data and tracks:
-        for tblName in ('tblEvents', 'tblWindSpeed', 'tblHazard', 'tblTracks'):
+        for tblName in ('tblLocations', 'tblEvents', 'tblWindSpeed',
+                        'tblHazard', 'tblTracks'):
             self.execute("DELETE FROM {0}".format(tblName))
         self.exists = True
         self.commit()
-- 
2.43.0


From 7ca6c187e9b9fc5b3215eb76d5f2c64f9bea5ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:39:20 +0000
Subject: [PATCH 38/44] fix: save time steps of the wind field on its own grid

---
 wind/writer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wind/writer.py b/wind/writer.py
index a2ea33c..056cf21 100644
--- a/wind/writer.py
+++ b/wind/writer.py
@@ -60,7 +60,10 @@ class WriteFoliationCallback(object):
         self.callback = wraps
 
         def series(start, stop, inc=resolution):
-            return np.linspace(start, stop, int(round((stop-start)/inc)) + 1)
+            # As the grid of the wind field, covers an extent that is not
+            # a multiple of the resolution
+            steps = np.ceil(round((stop - start) / inc, 6))
+            return start + inc * np.arange(steps + 1)
 
         lat = series(gridLimit['yMin'] - margin, gridLimit['yMax'] + margin)
         lon = series(gridLimit['xMin'] - margin, gridLimit['xMax'] + margin)
-- 
2.43.0


From 104c09b1472b43d6e99be3ae76151043b894d559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:21:57 +0000
Subject: [PATCH 39/44] fix: use a seed of zero like any other seed

---
 TrackGenerator/TrackGenerator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index 97a21f6..440b9dd 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -1807,7 +1807,7 @@ def run(configFile, callback=None):
     MPI = attemptParallel()
     comm = MPI.COMM_WORLD
 
-    if comm.size > 1 and (not seasonSeed or not trackSeed):
+    if comm.size > 1 and (seasonSeed is None or trackSeed is None):
         log.critical('TrackSeed and GenesisSeed are needed' +
                      ' for parallel runs!')
         sys.exit(1)
@@ -1827,7 +1827,7 @@ def run(configFile, callback=None):
     # Python `random` library does not provide a function to sample
     # from the Poisson distribution.
 
-    if seasonSeed:
+    if seasonSeed is not None:
         np.random.seed(seasonSeed)
 
     # Do the first stage of the simulation (i.e., sample the number of
@@ -1890,7 +1890,7 @@ def run(configFile, callback=None):
         if callback is not None:
             callback(sim.index, N)
 
-        if sim.seed:
+        if sim.seed is not None:
             global PRNG #TODO: explicitly-pass rather than mutate global state
             PRNG = random.Random(seed=sim.seed, stream=sim.index)
             log.debug('seed %i stream %i', sim.seed, sim.index)
-- 
2.43.0


From dbed87ee4aff8a24dd24993736abf699632831cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:03:10 +0000
Subject: [PATCH 40/44] fix: replace and check the local wind raster when
 processed in one piece

---
 ProcessMultipliers/processMultipliers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ProcessMultipliers/processMultipliers.py b/ProcessMultipliers/processMultipliers.py
index ef500fa..03e76ac 100755
--- a/ProcessMultipliers/processMultipliers.py
+++ b/ProcessMultipliers/processMultipliers.py
@@ -952,6 +952,7 @@ def processMult(wspd, uu, vv, lon, lat, working_dir, m4_max_file = 'm4_ne.tif',
     log.info("Creating output file: {0}".format(output_file))
     # Save the local wind field to a raster file with the SRS of the
     # multipliers
+    removeExisting(output_file)
     drv = gdal.GetDriverByName("GTiff")
     dst_ds = drv.Create(output_file, cols, rows, 1,
                         gdal.GDT_Float32, ['BIGTIFF=NO', 'SPARSE_OK=TRUE'])
@@ -961,8 +962,8 @@ def processMult(wspd, uu, vv, lon, lat, working_dir, m4_max_file = 'm4_ne.tif',
     dst_band.SetNoDataValue(-9999)
     dst_band.WriteArray(local)
 
-    # dst_band.FlushCache()
-
+    closeDataset(dst_ds)
+    closeDataset(wind_raster)
     del dst_ds
     log.info("Completed")
 
-- 
2.43.0


From dbc950e10d57fa8715f19a2021759f506f26147e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:09:19 +0000
Subject: [PATCH 41/44] fix: count the last observation in the lowest pressures

---
 PlotInterface/plotStats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PlotInterface/plotStats.py b/PlotInterface/plotStats.py
index 42027f2..f331a9d 100644
--- a/PlotInterface/plotStats.py
+++ b/PlotInterface/plotStats.py
@@ -173,7 +173,7 @@ class PlotData(object):
         plt.clf()
         pcarray = []
         index = index.astype(int)
-        for i in range(len(index) - 1):
+        for i in range(len(index)):
             if index[i] == 1:
                 pcarray.append(pAllData[i])
             else:
@@ -274,7 +274,7 @@ class PlotPressure(PlotData):
         """
         pcarray = []
         index = index.astype(int)
-        for i in range(len(index) - 1):
+        for i in range(len(index)):
             if index[i] == 1:
                 pcarray.append(pAllData[i])
             else:
-- 
2.43.0


From 12990b17ca861549dbc549f41b0f32977355899f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:43:43 +0000
Subject: [PATCH 42/44] fix: run scenarios from track files without wind speeds

---
 Evaluate/interpolateTracks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Evaluate/interpolateTracks.py b/Evaluate/interpolateTracks.py
index afbae57..fc38d6d 100644
--- a/Evaluate/interpolateTracks.py
+++ b/Evaluate/interpolateTracks.py
@@ -99,7 +99,7 @@ def interpolate(track, delta, interpolation_type=None):
     newdates = num2date(_newtime) 
     newdates = np.array([n.replace(tzinfo=None) for n in newdates])
 
-    if not hasattr(track, 'Speed'):
+    if not track.has_key('WindSpeed'):
         idx = np.zeros(len(track.data))
         idx[0] = 1
         # TODO: Possibly could change `np.mean(dt)` to `dt`?
-- 
2.43.0


From fff4d64204f7107089cf943141100f28d2880aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:50:08 +0000
Subject: [PATCH 43/44] fix: remove impact of earlier events from the impact
 folder

---
 impact/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/impact/__init__.py b/impact/__init__.py
index 1165083..f1e4cf9 100644
--- a/impact/__init__.py
+++ b/impact/__init__.py
@@ -58,6 +58,10 @@ def run(workDir, exposure):
         if e.errno != errno.EEXIST:
             raise
 
+    # Impact of other events would otherwise be taken for impact of these
+    for old in glob.glob(os.path.join(workDir, 'impact', 'gust.*.csv')):
+        os.remove(old)
+
     # Could balance the loop here over parallel resources,
     # or could leave hazimp to implement any parallelisation.
     for gust in glob.glob(inputpattern):
-- 
2.43.0


From 25a82dbe5366232f5de27bcc2d350bf319e022f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:12:01 +0000
Subject: [PATCH 44/44] fix: read observations with separate date columns

---
 Utilities/loadData.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index badf3a7..b0f9552 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -430,8 +430,13 @@ def parseDates(data, indicator, datefmt='%Y-%m-%d %H:%M:%S'):
 
     """
     try:
-        year, month, day, hour, minute, datetimes = date2ymdh(data['date'], datefmt)
-    except (KeyError):
+        dates = data['date']
+    except (ValueError, KeyError):
+        dates = None
+
+    if dates is not None:
+        year, month, day, hour, minute, datetimes = date2ymdh(dates, datefmt)
+    else:
         # Sort out date/time information:
         month = np.array(data['month'], 'i')
         day = np.array(data['day'], 'i')
-- 
2.43.0

