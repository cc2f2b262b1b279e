From 8f55439a816ad01c83fa72b4bf5e72643312f289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:03 +0000
Subject: [PATCH 001/138] fix: keep registered data paths that contain spaces
 when reloading the path lists

---
 simim/_paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/_paths.py b/simim/_paths.py
index 1761fe5..9ab055a 100644
--- a/simim/_paths.py
+++ b/simim/_paths.py
@@ -18,7 +18,7 @@ def _checkload_path_file(path):
     if os.path.exists(path):
         with open(path) as file:
             for line in file.readlines():
-                line_split = line.replace('\n','').split(' ')
+                line_split = line.replace('\n','').split(' ',1)
                 endpoint[line_split[0]] = line_split[1]
     return endpoint
 
-- 
2.43.0


From e91741ef5c6ce974537a2007401bfd93f72c311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 002/138] fix: remove raw data without passing unquoted paths
 to a shell

---
 simim/siminterface/_rawsiminterface.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index e7ca882..04da3c9 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -1,4 +1,5 @@
 import os
+import shutil
 import warnings
 
 from astropy.cosmology import FlatLambdaCDM
@@ -11,6 +12,14 @@ from simim._paths import _SimIMPaths
 from simim.siminterface._sims import _checksim
 
 
+def _remove_path(path):
+    """Remove a file or directory (if it exists)"""
+
+    if os.path.isdir(path) and not os.path.islink(path):
+        shutil.rmtree(path)
+    elif os.path.lexists(path):
+        os.remove(path)
+
 class Snapshot():
     """Class containing information for individual snapshots
     
@@ -337,7 +346,7 @@ class SimCatalogs():
 
         # Remove stuff
         file_path = os.path.join(self.path,'raw')
-        os.system("rm -r {}".format(file_path))
+        _remove_path(file_path)
 
     def format(self,remake=False,overwrite=False,basic=False,realtime_clean_raw=False,realtime_clean_raw_check=True):
         """Convert the unformatted simulation data into the uniform format used by 
@@ -577,6 +586,6 @@ class SimCatalogs():
                 rawsnapfiles = self._get_rawsnapfiles(snap)
                 for file in rawsnapfiles:
                     file_path = os.path.join(self.path,'raw',file)
-                    os.system("rm -r {}".format(file_path))
+                    _remove_path(file_path)
 
 
-- 
2.43.0


From 1dcd5b10e0264e53f9d9efd080c56e2fe521a8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 003/138] fix: keep fields whose first component is not saved
 when appending to a formatted catalog

---
 simim/siminterface/_rawsiminterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index 04da3c9..bb9a7e1 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -444,7 +444,7 @@ class SimCatalogs():
                 self.other_fields = {}
                 other_fields_start = {**self.matter_fields, **self.dm_fields}
                 for f in other_fields_start:
-                    if other_fields_start[f][0][0] in data_fields:
+                    if any(field[0] in data_fields for field in other_fields_start[f]):
                         self.other_fields[f] = other_fields_start[f]
                         self.all_fields[f] = other_fields_start[f]
                 
-- 
2.43.0


From 7c685cc573b70345c0e39a620f2a9a78a04952f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:22 +0000
Subject: [PATCH 004/138] fix: do not leave an incomplete snapshot in data.hdf5
 when writing it fails

---
 simim/siminterface/_rawsiminterface.py | 57 +++++++++++++++-----------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index bb9a7e1..0b5ed4b 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -556,31 +556,38 @@ class SimCatalogs():
                     del file["Snapshot {}".format(snap)]
                 snap_grp = file.create_group("Snapshot {}".format(snap))
 
-                snap_grp.create_dataset('mass_cuts',data=mass_cuts)
-
-                for key in basic_properties.dtype.names:
-                    snap_grp.create_dataset(key,data=basic_properties[key])
-                    snap_grp[key].attrs['units'] = basic_units[key]
-                    snap_grp[key].attrs['h dependence'] = basic_h[key]
-
-                for key in self.other_fields.keys():
-                    n_subkeys = len(self.other_fields[key])
-                    if n_subkeys > 1:
-                        for subkey in range(n_subkeys):
-                            new_key = self.other_fields[key][subkey][0]
-                            if new_key[:4] != 'none':
-                                snap_grp.create_dataset(new_key,data=subhalos[key][:,subkey])
-                                snap_grp[new_key].attrs['units'] = self.other_fields[key][subkey][2]
-                                snap_grp[new_key].attrs['h dependence'] = self.other_fields[key][subkey][3]
-                    else:
-                        new_key = self.other_fields[key][0][0]
-                        snap_grp.create_dataset(new_key,data=subhalos[key])
-                        snap_grp[new_key].attrs['units'] = self.other_fields[key][0][2]
-                        snap_grp[new_key].attrs['h dependence'] = self.other_fields[key][0][3]
-
-                snap_meta = self.snap_meta[self.snap_meta['index'] == snap]
-                snap_grp.attrs['metadata'] = snap_meta
-            
+                try:
+                    snap_grp.create_dataset('mass_cuts',data=mass_cuts)
+
+                    for key in basic_properties.dtype.names:
+                        snap_grp.create_dataset(key,data=basic_properties[key])
+                        snap_grp[key].attrs['units'] = basic_units[key]
+                        snap_grp[key].attrs['h dependence'] = basic_h[key]
+
+                    for key in self.other_fields.keys():
+                        n_subkeys = len(self.other_fields[key])
+                        if n_subkeys > 1:
+                            for subkey in range(n_subkeys):
+                                new_key = self.other_fields[key][subkey][0]
+                                if new_key[:4] != 'none':
+                                    snap_grp.create_dataset(new_key,data=subhalos[key][:,subkey])
+                                    snap_grp[new_key].attrs['units'] = self.other_fields[key][subkey][2]
+                                    snap_grp[new_key].attrs['h dependence'] = self.other_fields[key][subkey][3]
+                        else:
+                            new_key = self.other_fields[key][0][0]
+                            snap_grp.create_dataset(new_key,data=subhalos[key])
+                            snap_grp[new_key].attrs['units'] = self.other_fields[key][0][2]
+                            snap_grp[new_key].attrs['h dependence'] = self.other_fields[key][0][3]
+
+                    snap_meta = self.snap_meta[self.snap_meta['index'] == snap]
+                    snap_grp.attrs['metadata'] = snap_meta
+
+                # Don't leave an incomplete snapshot behind, it would be mistaken
+                # for a complete one the next time the file is formatted
+                except BaseException:
+                    del file["Snapshot {}".format(snap)]
+                    raise
+
             # Delete raw data if requested
             if realtime_clean_raw:
                 rawsnapfiles = self._get_rawsnapfiles(snap)
-- 
2.43.0


From 56f1712b17cdcb5a870aedb3f35ae9af9ef8b73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:22 +0000
Subject: [PATCH 005/138] fix: read the star formation rate in binary
 UniverseMachine catalogs as a float

---
 simim/siminterface/universemachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index b601357..a89428c 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -271,7 +271,7 @@ class UniversemachineCatalogs(SimCatalogs):
                                     ('mp', 'f4'), ('m', 'f4'), ('v', 'f4'), ('r', 'f4'),
                                     ('rank1', 'f4'), ('rank2', 'f4'), ('ra', 'f4'),
                                     ('rarank', 'f4'), ('a_uv', 'f4'), ('sm', 'f4'),
-                                    ('icl', 'f4'), ('sfr', 'i4'), ('obs_sm', 'f4'),
+                                    ('icl', 'f4'), ('sfr', 'f4'), ('obs_sm', 'f4'),
                                     ('obs_sfr', 'f4'), ('obs_uv', 'f4'), ('empty', 'f4')],
                              align=True)
 
-- 
2.43.0


From c136525d8ff53d48f01c6306377e73fc61944fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 006/138] fix: wrap positions from binary UniverseMachine
 catalogs into the box

---
 simim/siminterface/universemachine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index a89428c..70341ea 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -282,7 +282,8 @@ class UniversemachineCatalogs(SimCatalogs):
         subhalos = {}
         for key in fields:
             subhalos[key] = data_raw[key]
-        subhalos['pos'][:,0:3] % self.box_edge
+        if 'pos' in subhalos:
+            subhalos['pos'][:,0:3] %= self.box_edge
         n_halos = len(data_raw)
 
         return subhalos, n_halos
-- 
2.43.0


From b1212d6b096168d508a3821cb5662012d3d5af8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 007/138] fix: load ascii UniverseMachine snapshots containing
 a single halo

---
 simim/siminterface/universemachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index 70341ea..c3a5d48 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -232,7 +232,7 @@ class UniversemachineCatalogs(SimCatalogs):
                                     ('m','f'),('v','f'),('mp','f'),('vmp','f'),('r','f'),
                                     ('rank1','f'),('rank2','f'),('ra','f'),('rarank','f'),
                                     ('sm','f'),('icl','f'),('sfr','f'),('obs_sm','f'),('obs_sfr','f'),('obs_ssfr','f'),('smhm','f'),('obs_uv','f')])
-        data_raw = np.loadtxt(os.path.join(path,self.web_files[snapshot]), dtype=dtype_raw, comments='#')
+        data_raw = np.loadtxt(os.path.join(path,self.web_files[snapshot]), dtype=dtype_raw, comments='#', ndmin=1)
         subhalos = {}
         for key in fields:
             subhalos[key] = data_raw[key]
-- 
2.43.0


From 21fc924a2a60b26fb29169f99b7db1d46cd2cc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 008/138] fix: label UniverseMachine halo radii with the units
 they are stored in

---
 simim/siminterface/universemachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index c3a5d48..a69b15d 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -137,7 +137,7 @@ class UniversemachineCatalogs(SimCatalogs):
             'vmp':[('vmax_peak','f','km/s',0)],
 
             #R: Halo radius (BN98 vir, comoving kpc/h)
-            'r':[('r','f','kpc/h',-1)],
+            'r':[('r','f','Mpc/h',-1)],
 
             #Rank1: halo rank in Delta_vmax (see UniverseMachine paper)
             'rank1':[('Rank1','f','None',0)],
-- 
2.43.0


From 201e9aebe4349f7bcddad8762a1374c945c8d553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 009/138] fix: number UniverseMachine files in the same (scale
 factor) order as their metadata

---
 simim/siminterface/universemachine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index a69b15d..8810c44 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -85,6 +85,9 @@ class UniversemachineCatalogs(SimCatalogs):
                 raise ValueError("Unable to access file names on {}".format(self.webpage))
             np.save(self.web_path,self.web_files)
 
+        # Snapshots are numbered by increasing scale factor (read from file names)
+        self.web_files = self.web_files[np.argsort([float(t.split('_')[-1][:-4]) for t in self.web_files])]
+
         # Identify keys that will require unit conversions
         # For UM these are mostly empty because everythings in units
         # we like already.
-- 
2.43.0


From 0e6af8c2712d893fc714d6272fc43368ae23cc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 010/138] fix: do not mistake interrupted downloads for
 complete files

---
 simim/siminterface/uchuu.py           | 5 ++++-
 simim/siminterface/universemachine.py | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/simim/siminterface/uchuu.py b/simim/siminterface/uchuu.py
index da962a7..b74ecfc 100644
--- a/simim/siminterface/uchuu.py
+++ b/simim/siminterface/uchuu.py
@@ -374,5 +374,8 @@ class UchuuCatalogs(SimCatalogs):
                 if df > 3:
                     webpage = self.webpage + 'SFH/'
                 print("downloading snapshot {} of {} ({})".format(i+1,len(self.download_snaps),self.web_files[snap_id].replace('data1',f'data{df}')))
-                urlretrieve(webpage+self.web_files[snap_id].replace('data1',f'data{df}'),file_path.replace('data1',f'data{df}'))
+                # Only a completed download gets the final name
+                file_path_df = file_path.replace('data1',f'data{df}')
+                urlretrieve(webpage+self.web_files[snap_id].replace('data1',f'data{df}'),file_path_df+'.part')
+                os.replace(file_path_df+'.part',file_path_df)
 
diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index 8810c44..5ee46b0 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -415,7 +415,9 @@ class UniversemachineCatalogs(SimCatalogs):
             if self.sim == '_testbox':
                 shutil.copy(self.webpage.joinpath(self.web_files[snap]),file_path)
             else:
-                urlretrieve(self.webpage+self.web_files[snap],file_path)
+                # Only a completed download gets the final name
+                urlretrieve(self.webpage+self.web_files[snap],file_path+'.part')
+                os.replace(file_path+'.part',file_path)
 
 # Wrapper for back compatibility
 def universemachine_catalogs(*args, **kwargs):
-- 
2.43.0


From 2504408f4ac8bc9f7a44de305b59644a42d43a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 011/138] fix: include the last Uchuu data file among a
 snapshot's raw files

---
 simim/siminterface/uchuu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/uchuu.py b/simim/siminterface/uchuu.py
index b74ecfc..217a55a 100644
--- a/simim/siminterface/uchuu.py
+++ b/simim/siminterface/uchuu.py
@@ -242,7 +242,7 @@ class UchuuCatalogs(SimCatalogs):
 
     def _get_rawsnapfiles(self, snapshot):
         """Get path to a snapshot's raw file"""
-        rawsnapfiles = [self.web_files[snapshot].replace('data1',f'data{i}') for i in range(1,12)]
+        rawsnapfiles = [self.web_files[snapshot].replace('data1',f'data{i}') for i in range(1,13)]
         return rawsnapfiles
 
     def download_meta(self, redownload=False):
-- 
2.43.0


From 408b51de33f61d8430439a04ea271f07e2f5f29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 012/138] fix: read sfr_hr and sfr_2hr from their own Illustris
 fields

---
 simim/siminterface/illustris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index d37573a..564805e 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -191,7 +191,7 @@ class IllustrisCatalogs(SimCatalogs):
                             'SubhaloSFRinMaxRad':[('sfr_maxr','f','Msun/yr',0)],
                             # Same as SubhaloSFR, but restricted to cells within
                             # twice the stellar half mass radius.
-                            'SubhaloSFRinHalfRad':[('sfr_2hr','f','Msun/yr',0)],
+                            'SubhaloSFRinRad':[('sfr_2hr','f','Msun/yr',0)],
 
                             # Mass-weighted average metallicity (Mz/Mtot, where
                             # Z = any element above He) of the star particles bound
-- 
2.43.0


From fe8d1449d3435a92c3d452bddba2d0c3c4cefa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 013/138] fix: convert Illustris black hole accretion rates to
 the units they are labelled with

---
 simim/siminterface/illustris.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index 564805e..8a5283c 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -253,9 +253,9 @@ class IllustrisCatalogs(SimCatalogs):
         def kpc_to_mpc(x,h):
             return x / 1000
         def illustris_bhmassunit(x,h):
-            return x * 0.978
+            # raw units are (1e10 Msun/h) / (0.978 Gyr/h)
+            return x * 1e10 / 0.978
         self.transform_keys = {'SubhaloBHMass':power_10,
-                               'SubhaloBHMdot':power_10,
                                'SubhaloMass':power_10,
                                'SubhaloMassInHalfRad':power_10,
                                'SubhaloMassInHalfRadType':power_10,
-- 
2.43.0


From b4eecbe1bc60aa1cf88495b9a25b828b612ccdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 014/138] fix: order Illustris snapshot metadata by index
 whatever order the API lists it in

---
 simim/siminterface/illustris.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index 8a5283c..c4fa0dd 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -454,8 +454,7 @@ class IllustrisCatalogs(SimCatalogs):
         for i in snap_meta_raw:
             snap_meta_classes.append(Snapshot(i['number'],i['redshift'],self.metadata))
             numbers.append(i['number'])
-        snap_meta_classes = [snap_meta_classes[i] for i in np.argsort(numbers)]
-        
+
         order = np.argsort(numbers)
         snap_meta_classes = [snap_meta_classes[i] for i in order if numbers[i] in self.snaps]
 
-- 
2.43.0


From ecf9b75c8778dd2e3100569f6e46164a090c2e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 015/138] fix: complete partially downloaded Illustris
 snapshots instead of skipping them

---
 simim/siminterface/illustris.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index c4fa0dd..b9f2313 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -351,7 +351,9 @@ class IllustrisCatalogs(SimCatalogs):
             self.download_snaps = []
             for i in self.snaps:
                 file_path = os.path.join(self.path,'raw','groups_{:03d}'.format(i))
-                if os.path.exists(os.path.join(file_path,self.raw_fname+'{:03d}.0.hdf5'.format(i))):
+                n_files = self.metadata['groupcat_number_files'] if self.metadata else 1
+                if all(os.path.exists(os.path.join(file_path,self.raw_fname+'{:03d}.{}.hdf5'.format(i,j)))
+                       for j in range(n_files)):
                     warnings.warn("Skipping snapshot {} as it appears to exist already".format(i))
                 else:
                     self.download_snaps.append(i)
-- 
2.43.0


From 0cd97321a1df9b9be7ac088d205459b3831cb765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 016/138] fix: forget the in-memory copy of a property deleted
 from disk

---
 simim/_handlers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 2bd3339..f0b9c7c 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -408,7 +408,9 @@ class Handler():
                 else:
                     del file[self.groupname][property_name]
 
-                    self.properties_saved = [key for key in file[self.groupname].keys()]
+                    self.properties_saved = [key for key in file[self.groupname].keys() if key not in ['mass_cuts']]
+                    self.properties_loaded.pop(property_name,None)
+                    self.properties_generated = [i for i in self.properties_generated if i != property_name]
                     properties_all_new = []
                     for i in self.properties_all:
                         if i != property_name:
-- 
2.43.0


From 44efbd3ebbc07d47da3cbed2bcb4f94d4dd5d6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 017/138] fix: allow new properties with integer or boolean
 values

---
 simim/_handlers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index f0b9c7c..31780b3 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -323,8 +323,12 @@ class Handler():
             name = property.names[i]
             newname = names[i]
 
-            prop_values = np.empty(self.nhalos_all,dtype=all_values[i].dtype)
-            prop_values[:] = np.nan
+            dtype = all_values[i].dtype
+            if len(inds) < self.nhalos_all and not np.issubdtype(dtype,np.inexact):
+                dtype = float # other dtypes can't hold the nans marking inactive halos
+            prop_values = np.empty(self.nhalos_all,dtype=dtype)
+            if len(inds) < self.nhalos_all:
+                prop_values[:] = np.nan
             prop_values[inds] = all_values[i]
 
             self.properties_loaded[newname] = prop_values
-- 
2.43.0


From 5a9cbfe09f9bdc4cee23e8fdaa157fb8c9f002a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 018/138] fix: keep property lists and units right when
 unloading properties

---
 simim/_handlers.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 31780b3..cc2e6ac 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -163,6 +163,10 @@ class Handler():
                 if len(property_value) == 0:
                     property_value = property_value.flatten()
 
+                # Units may have changed if the property was overwritten in memory
+                self.properties_units[property_name] = file[self.groupname][property_name].attrs['units']
+                self.properties_h_dependence[property_name] = file[self.groupname][property_name].attrs['h dependence']
+
             self.properties_loaded[property_name] = property_value
 
     def unload_property(self, *property_names):
@@ -184,6 +188,17 @@ class Handler():
 
             self.properties_loaded.pop(property_name, None)
 
+            # Restore the units of the saved values - or, if there are none, forget the property
+            if property_name in self.properties_saved:
+                with h5py.File(self.path,'r') as file:
+                    self.properties_units[property_name] = file[self.groupname][property_name].attrs['units']
+                    self.properties_h_dependence[property_name] = file[self.groupname][property_name].attrs['h dependence']
+            elif property_name in self.properties_all:
+                self.properties_all = [i for i in self.properties_all if i != property_name]
+                self.properties_generated = [i for i in self.properties_generated if i != property_name]
+                self.properties_units.pop(property_name,None)
+                self.properties_h_dependence.pop(property_name,None)
+
     def return_property(self, property_name, use_all_inds=False, in_h_units=None):
         """Load a property from file and return
 
-- 
2.43.0


From df42595a0870064b6fa14c79431b49a81605041c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 019/138] fix: write overwritten properties with their own data
 type

---
 simim/_handlers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index cc2e6ac..5d878d6 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -392,10 +392,9 @@ class Handler():
                     raise ValueError("Property {} already exists".format(property_name))
 
             with h5py.File(self.path,'a') as file:
-                if not property_name in file[self.groupname].keys():
-                    file[self.groupname].create_dataset(property_name,data=property_value,dtype=dtype)
-                else:
-                    file[self.groupname][property_name][:] = property_value
+                if property_name in file[self.groupname].keys():
+                    del file[self.groupname][property_name]
+                file[self.groupname].create_dataset(property_name,data=property_value,dtype=dtype)
 
                 file[self.groupname][property_name].attrs['units'] = self.properties_units[property_name]
                 file[self.groupname][property_name].attrs['h dependence'] = self.properties_h_dependence[property_name]
-- 
2.43.0


From 28858f09929801de52eb13996df47407d7616aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 020/138] fix: make SimHandler(init_snaps=True) work

---
 simim/siminterface/simhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 8702687..7fe9fd7 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -256,7 +256,7 @@ class SimHandler():
 
         self.init_snaps = init_snaps
         if self.init_snaps:
-            self.initialize_all_snaps(redo=True)
+            self.initialize_all_snaps(remake=True)
 
     def initialize_all_snaps(self,remake=False):
         """Initialize SnapHandlers for each snapshot
-- 
2.43.0


From 7f002ac878146320d721e85907346d1d19b456ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 021/138] fix: number_volumes returned the inverse of the
 number of volumes

---
 simim/siminterface/simhandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 7fe9fd7..0c0d650 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -322,9 +322,9 @@ class SimHandler():
             in_h_units = self.default_in_h_units
 
         if in_h_units:
-            return volume / self.box_edge_h**3
+            return self.box_edge_h**3 / volume
         else:
-            return volume / self.box_edge_no_h**3
+            return self.box_edge_no_h**3 / volume
 
     def extract_snap_meta(self,snap):
         """Get the meta-data for a snapshot
-- 
2.43.0


From 088a1c9e5fbe611e160f9060d0b3485506ed43d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 022/138] fix: z_to_snap at and beyond the ends of the redshift
 range

---
 simim/siminterface/simhandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 0c0d650..2acebcb 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -360,9 +360,9 @@ class SimHandler():
             The index number of the snapshot matching the requested redshift
         """
 
-        if z > np.amax(self.z_bins) or z < 0:
+        if z > np.amax(self.z_bins) or z < np.amin(self.z_bins):
             raise ValueError("z out of range")
-        bin = np.digitize(z,self.z_bins)-1
+        bin = min(np.digitize(z,self.z_bins)-1, len(self.z_bin_snaps)-1)
         bin_id = self.z_bin_snaps[bin]
 
         return bin_id
-- 
2.43.0


From caef8ec3e1f71538e9b7cda59122e2ddeeba571b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 023/138] fix: convert the mass passed to get_mass_index into h
 units

---
 simim/siminterface/simhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 2acebcb..46c1b64 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -413,7 +413,7 @@ class SimHandler():
             if in_h_units:
                 mass_check = mass
             else:
-                mass_check = mass / self.h
+                mass_check = mass * self.h
             vals = mass_cuts['min_mass'] - mass_check
             vals = vals[vals>0]
             if len(vals) < 1:
-- 
2.43.0


From 11638c97a809075ce057ad40eb8d06720360d3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 024/138] fix: get_mass_index below the lowest tabulated mass
 returns every halo

---
 simim/siminterface/simhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 46c1b64..5587dda 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -419,7 +419,7 @@ class SimHandler():
             if len(vals) < 1:
                 index = 0
             elif len(vals) == len(mass_cuts):
-                index = mass_cuts['index'][-1]
+                index = file["Snapshot {}".format(snap)]['mass'].shape[0]
             else:
                 index = mass_cuts['index'][len(vals)]
 
-- 
2.43.0


From 922bf047cbeed38ae74c485ae7ac91a51615b894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 025/138] fix: get_snap passes on the h unit setting of the
 simulation

---
 simim/siminterface/simhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 5587dda..c272312 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -446,7 +446,7 @@ class SimHandler():
         else:
             snap = snap_meta['index']
             redshift = snap_meta['redshift']
-            return SnapHandler(self.path+'/data.hdf5',snap,redshift,self.cosmo,self.box_edge_h)
+            return SnapHandler(self.path+'/data.hdf5',snap,redshift,self.cosmo,self.box_edge_h,in_h_units=self.default_in_h_units)
 
     def get_snap_from_z(self,z):
         """Return a SnapHandler instance for the snapshot closest to a requested redshift
-- 
2.43.0


From 34f36b2c78cb0bd9ddbebe2a42a5ad2542c6f86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 026/138] fix: snap_stat uses snapshot numbers to identify
 snapshots

---
 simim/siminterface/simhandler.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index c272312..820ab7a 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -659,11 +659,10 @@ class SimHandler():
         redshifts = []
 
         if snaps is None:
-            snaps = np.arange(len(self.snap_meta))
-        for i in snaps:
-            snap = self.snap_meta['index'][i]
+            snaps = self.snap_meta['index']
+        for snap in snaps:
             print("\033[1m"+"Collecting sources from Snapshot {}.  ".format(snap)+"\033[0m",end='\r')
-            redshifts.append(self.snap_meta['redshift'][i])
+            redshifts.append(self.extract_snap_meta(snap)['redshift'])
 
             handler = self.get_snap(snap)
             vals.append(handler.eval_stat(stat_function,kwargs,kw_remap,other_kws=other_kws,use_all_inds=use_all_inds,give_args_in_h_units=give_args_in_h_units))
-- 
2.43.0


From 4236cd6dbfa05e198d77a64aff9c371f2d867d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 027/138] fix: MultiProp with a list of h dependences

---
 simim/galprops/galprops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/galprops.py b/simim/galprops/galprops.py
index f4c950d..043ba55 100644
--- a/simim/galprops/galprops.py
+++ b/simim/galprops/galprops.py
@@ -65,7 +65,7 @@ class MultiProp():
         if len(h_dependence)==1:
             self.h_dependence = {key:h_dependence[0] for key in self.names}
         elif len(h_dependence)==len(self.names):
-            self.units = {self.names[i]:h_dependence[i] for i in range(len(self.names))}
+            self.h_dependence = {self.names[i]:h_dependence[i] for i in range(len(self.names))}
         else:
             raise ValueError("h_dependence shape not compatible with prop_names shape")
 
-- 
2.43.0


From 19cae9b752783ccd9d4c13e87a8c908499732c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 028/138] fix: MultiProp.evaluate passes on kw_arguments

---
 simim/galprops/galprops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/galprops.py b/simim/galprops/galprops.py
index 043ba55..601d97d 100644
--- a/simim/galprops/galprops.py
+++ b/simim/galprops/galprops.py
@@ -136,7 +136,7 @@ class MultiProp():
     def evaluate(self,target,use_all_inds=False,kw_remap={},kw_arguments={}):
         """See evaluate_all - identical functionality. This
         is just a wrapper to match the prop subclass"""
-        return self.evaluate_all(target,use_all_inds,kw_remap)
+        return self.evaluate_all(target,use_all_inds,kw_remap,kw_arguments)
 
 # Function should return an array of length n, where n is the number
 # of objects it is evaluated over, or should be of shape n x m
-- 
2.43.0


From 67a2e506ec283853380afb9f0316eefba8379412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 029/138] fix: do not modify a property function's return value
 in place

---
 simim/galprops/galprops.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/galprops/galprops.py b/simim/galprops/galprops.py
index 601d97d..36a6d10 100644
--- a/simim/galprops/galprops.py
+++ b/simim/galprops/galprops.py
@@ -121,6 +121,8 @@ class MultiProp():
 
         if self.wrap:
             vals = [vals]
+        else:
+            vals = list(vals) # don't modify the object returned by the function
         if len(vals) != len(self.names):
             raise ValueError("prop_function does not return a number of properties matching prop_names")
 
-- 
2.43.0


From debd6ff164b0f1eda43f13c883bee3dc9009721c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 030/138] fix: check that a simulation property may be
 overwritten before replacing it in memory

---
 simim/siminterface/simhandler.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 820ab7a..e128b97 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -553,13 +553,6 @@ class SimHandler():
             print("\033[1m"+"Assigning props for Snapshot {}.  ".format(snap)+"\033[0m",end='\r')
             handler = self.get_snap(snap)
 
-            handler.make_property(property=property,
-                                  rename=rename,
-                                  kw_remap=kw_remap,
-                                  other_kws=other_kws,
-                                  overwrite=overwrite,
-                                  use_all_inds=use_all_inds)
-
             if write:
                 if isinstance(rename,str):
                     rename = [rename]
@@ -581,6 +574,14 @@ class SimHandler():
                                 else:
                                     warnings.warn("Property {} already exists, overwriting".format(name))
 
+            handler.make_property(property=property,
+                                  rename=rename,
+                                  kw_remap=kw_remap,
+                                  other_kws=other_kws,
+                                  overwrite=overwrite,
+                                  use_all_inds=use_all_inds)
+
+            if write:
                 handler.write_property(*names,overwrite=overwrite,dtype=writedtype)
                 handler.unload_property(*names)
         print("")
-- 
2.43.0


From af4295ee20a34c52b55037189e623369d30e4788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 031/138] fix: check every name before deleting properties from
 a simulation

---
 simim/siminterface/simhandler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index e128b97..91feb17 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -611,6 +611,8 @@ class SimHandler():
                                 raise ValueError("Property {} is not userd-defined and cannot be deleted".format(name))
                             elif not file[handler.groupname][name].attrs['userdefined']:
                                 raise ValueError("Property {} is not userd-defined and cannot be deleted".format(name))
+                        else:
+                            raise ValueError("Property {} is not in the saved file".format(name))
 
             handler.delete_property(*property_names)
 
-- 
2.43.0


From c1d31c721795a0b8aec74e2d57e352b45ddb70f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 032/138] fix: Fourier axis edges lie midway between the
 centers, also for axes with a single cell

---
 simim/map/gridder.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 84e099e..8cde2ac 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -16,10 +16,15 @@ from matplotlib import animation
 ###############################################################################
 ##### SECTION 0: Helper Functions #############################################
 ###############################################################################
-def _axis_edges(ax):
-    """Given bin centers (ax) along an axis return the bin edges"""
+def _axis_edges(ax,width=1):
+    """Given bin centers (ax) along an axis return the bin edges
+    
+    width is the bin width to assume if there is only one bin"""
+    if len(ax) == 1: # No spacing to infer a cell width from
+        return np.array([ax[0]-width/2, ax[0]+width/2])
+
     diff = np.diff(ax)
-    newax = ax[:-1] + diff
+    newax = ax[:-1] + diff/2
     newax = np.concatenate(([ax[0]-diff[0]/2], newax, [ax[-1]+diff[-1]/2]))
     return newax
     
@@ -190,7 +195,7 @@ class Grid():
             self.axes.append(axis)
 
             self.fourier_axes_centers.append(np.fft.fftshift(np.fft.fftfreq(self.n_pixels[i],self.pixel_size[i])))
-            self.fourier_axes.append(_axis_edges(self.fourier_axes_centers[i]))
+            self.fourier_axes.append(_axis_edges(self.fourier_axes_centers[i],1/self.side_length[i]))
 
         self.fourier_space = np.zeros(self.n_dimensions,dtype=bool)
 
@@ -318,7 +323,7 @@ class Grid():
                     new_axes_centers[i] = new_axes[i][:-1] + new_pixel_size[i]/2
 
                     new_fourier_axes_centers[i] = np.fft.fftshift(np.fft.fftfreq(new_n_pixels[i],new_pixel_size[i]))
-                    new_fourier_axes[i] = _axis_edges(new_fourier_axes_centers[i])
+                    new_fourier_axes[i] = _axis_edges(new_fourier_axes_centers[i],1/new_side_length[i])
 
         # Won't pad properties array:
         pad_full.append((0,0))
@@ -394,7 +399,7 @@ class Grid():
         self.side_length[ax] = np.ptp(self.axes[ax])
         self.center_point[ax] = np.min(self.axes[ax]) + self.side_length[ax]/2
         self.fourier_axes_centers[ax] = np.fft.fftshift(np.fft.fftfreq(self.n_pixels[ax],self.pixel_size[ax]))
-        self.fourier_axes[ax] = _axis_edges(self.fourier_axes_centers[ax])
+        self.fourier_axes[ax] = _axis_edges(self.fourier_axes_centers[ax],1/self.side_length[ax])
 
 
     # Should expand this method to support linear transformations
@@ -1216,7 +1221,7 @@ class Grid():
             self.side_length[axi] = np.ptp(self.axes[axi])
             self.center_point[axi] = np.min(self.axes[axi]) + self.side_length[axi]/2
             self.fourier_axes_centers[axi] = np.fft.fftshift(np.fft.fftfreq(self.n_pixels[axi],self.pixel_size[axi]))
-            self.fourier_axes[axi] = _axis_edges(self.fourier_axes_centers[axi])
+            self.fourier_axes[axi] = _axis_edges(self.fourier_axes_centers[axi],1/self.side_length[axi])
 
 
     def collapse_dimension(self,ax,in_place=True,weights=None,mode='average'):
-- 
2.43.0


From 636a217656cdfb269a73242a31f10263f96ffbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 033/138] fix: store integer grid geometry as floats so that
 crop, pad and scale_axis do not truncate it

---
 simim/map/gridder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 8cde2ac..fdbcb26 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -133,18 +133,18 @@ class Grid():
         self.n_objects = 0
 
         # Handle center_point inputs:
-        self.center_point = np.array(center_point,ndmin=1,copy=True)
+        self.center_point = np.array(center_point,dtype=float,ndmin=1,copy=True)
         self.n_dimensions = len(self.center_point)
 
         # Handle side_length inputs:
-        self.side_length = np.array(side_length,ndmin=1,copy=True)
+        self.side_length = np.array(side_length,dtype=float,ndmin=1,copy=True)
         if len(self.side_length) == 1:
             self.side_length = np.ones(self.n_dimensions)*self.side_length[0]
         if len(self.side_length) != self.n_dimensions:
             raise ValueError("side_length don't match data dimensionality")
 
         # Handle pixel_size inputs
-        self.pixel_size = np.array(pixel_size,ndmin=1,copy=True)
+        self.pixel_size = np.array(pixel_size,dtype=float,ndmin=1,copy=True)
         if len(self.pixel_size) != self.n_dimensions:
             if len(self.pixel_size) == 1:
                 self.pixel_size = np.ones(self.n_dimensions)*self.pixel_size[0]
-- 
2.43.0


From 5ba3290a0f846e2912c26feaa1e604fc0b87ba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 034/138] fix: do not truncate unit names assigned to a grid

---
 simim/map/gridder.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index fdbcb26..71059a7 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -156,19 +156,19 @@ class Grid():
             self.axunits = np.array([None for i in range(self.n_dimensions)])
             self.fourier_axunits = np.array([None for i in range(self.n_dimensions)])
         else:
-            self.axunits = np.array(axunits,ndmin=1,copy=True)
+            self.axunits = np.array(axunits,dtype=object,ndmin=1,copy=True)
             if len(self.axunits) == 1:
-                self.axunits = np.array([self.axunits[0] for i in range(self.n_dimensions)])
+                self.axunits = np.array([self.axunits[0] for i in range(self.n_dimensions)],dtype=object)
             if len(self.axunits) != self.n_dimensions:
                 raise ValueError("axunits don't match data dimensionality")
-            self.fourier_axunits = np.array([i+'^-1' if i is not None else None for i in self.axunits],ndmin=1)
+            self.fourier_axunits = np.array([i+'^-1' if i is not None else None for i in self.axunits],dtype=object,ndmin=1)
 
         if gridunits is None:
             self.gridunits = np.array([None for i in range(self.n_properties)])
         else:
-            self.gridunits = np.array(gridunits,ndmin=1,copy=True)
+            self.gridunits = np.array(gridunits,dtype=object,ndmin=1,copy=True)
             if len(self.gridunits) == 1:
-                self.gridunits = np.array([self.gridunits[0] for i in range(self.n_properties)])
+                self.gridunits = np.array([self.gridunits[0] for i in range(self.n_properties)],dtype=object)
             if len(self.gridunits) != self.n_properties:
                 raise ValueError("gridunits don't match number of properties")
 
-- 
2.43.0


From cf40db60b2707cab100ee52c9080af3a232a92fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 035/138] fix: pad each axis by the amount given for it

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 71059a7..1e8f1e8 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -311,7 +311,7 @@ class Grid():
                         pad_full.append((0,0))
                         unpad_full.append((-pad[i_pad],-pad[i_pad]))
 
-                    new_n_pixels[i] = self.n_pixels[i] + 2*pad[ax[i]]
+                    new_n_pixels[i] = self.n_pixels[i] + 2*pad[i_pad]
                     if self.fourier_space[i]:
                         new_side_length[i] = self.side_length[i]
                         new_pixel_size[i] = self.side_length[i] / new_n_pixels[i]
-- 
2.43.0


From de0e6eb4fed176d0030faa91ae47a8604eaf0b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 036/138] fix: refuse to crop a grid to a range containing no
 cell before changing it

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 1e8f1e8..3da0ebe 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -386,7 +386,7 @@ class Grid():
         if max <= min:
             raise ValueError("max must be greater than min")
         
-        if np.all(self.axes_centers[ax]>max) or np.all(self.axes_centers[ax]<min):
+        if not np.any((self.axes_centers[ax]>=min) & (self.axes_centers[ax]<=max)):
             raise ValueError("No cells within specified limits")
 
         # Crop the grid
-- 
2.43.0


From 3acf33a8ef5bdefdb1fc70e32162dfdec7b5e9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 037/138] fix: scale_axis applies factors and units to the axes
 they are given for

---
 simim/map/gridder.py | 48 ++++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 3da0ebe..34f9857 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -437,39 +437,35 @@ class Grid():
         elif len(factor) != len(ax):
             raise ValueError('length of factor must be 1 or match the length of ax')
             
-        for i in ax:
+        # Handle units inputs:
+        same_units = isinstance(axunits,str) and axunits == 'same'
+        axunits = np.array(axunits,dtype=object,ndmin=1)
+        if len(axunits) == 1:
+            axunits = np.array([axunits[0] for i in ax],dtype=object)
+        elif len(axunits) != len(ax):
+            raise ValueError('length of axunits must be 1 or match the length of ax')
+
+        for i,factor_i,axunits_i in zip(ax,factor,axunits):
             if scalecenter:
-                self.center_point[i] *= factor[i]
-            self.side_length[i] *= factor[i]
-            self.pixel_size[i] *= factor[i]
-
-            # Handle units inputs:
-            if axunits is None:
-                self.axunits[i] = None
-                self.fourier_axunits[i] = None
-            elif axunits == 'same':
-                self.axunits[i] = self.axunits[i]
-                self.fourier_axunits[i] = self.fourier_axunits[i]
-            elif len(np.array(axunits,ndmin=1,copy=True))==1:
-                self.axunits[i] = axunits
-                self.fourier_axunits[i] = axunits+'^-1'
-            elif len(np.array(axunits,ndmin=1,copy=True))==len(ax):
-                self.axunits[i] = axunits[i]
-                self.fourier_axunits[i] = axunits[i]+'^-1'
-            else:
-                raise ValueError('length of axunits must be 1 or match the length of ax')
+                self.center_point[i] *= factor_i
+            self.side_length[i] *= factor_i
+            self.pixel_size[i] *= factor_i
+
+            if not same_units:
+                self.axunits[i] = axunits_i
+                self.fourier_axunits[i] = axunits_i+'^-1' if axunits_i is not None else None
 
             # Set up the grid - make sure the side length is compatible with
             # number of pixels
             if scalecenter:
-                self.axes[i] = self.axes[i]*factor[i]
-                self.axes_centers[i] = self.axes_centers[i]*factor[i]
+                self.axes[i] = self.axes[i]*factor_i
+                self.axes_centers[i] = self.axes_centers[i]*factor_i
             else:
-                self.axes[i] = (self.axes[i]-self.center[i])*factor[i] + self.center[i]
-                self.axes_centers[i] = (self.axes_centers[i]-self.center[i])*factor[i] + self.center[i]
+                self.axes[i] = (self.axes[i]-self.center_point[i])*factor_i + self.center_point[i]
+                self.axes_centers[i] = (self.axes_centers[i]-self.center_point[i])*factor_i + self.center_point[i]
 
-            self.fourier_axes[i] = self.fourier_axes[i]/factor[i]
-            self.fourier_axes_centers[i] = self.fourier_axes_centers[i]/factor[i]
+            self.fourier_axes[i] = self.fourier_axes[i]/factor_i
+            self.fourier_axes_centers[i] = self.fourier_axes_centers[i]/factor_i
 
 
     def copy_axes(self,n_properties=1):
-- 
2.43.0


From 86ce425ec48e47df7d153cd9eb969015fae0da85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 038/138] fix: keep grid units in step with the properties when
 adding, copying or summing properties

---
 simim/map/gridder.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 34f9857..f817cdb 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -218,6 +218,15 @@ class Grid():
         return properties
 
 
+    def _common_unit(self,properties):
+        """Return the unit of properties if all have the same unit, otherwise None"""
+
+        units = [self.gridunits[i] for i in properties]
+        if len(units) > 0 and all(u == units[0] for u in units):
+            return units[0]
+        return None
+
+
     def init_grid(self):
         """Create the data grid
         
@@ -477,12 +486,17 @@ class Grid():
             The number of properties to include in the new grid
 
         """
+        # Units carry over if it's clear which unit each property has
+        gridunits = self.gridunits
+        if n_properties != self.n_properties:
+            gridunits = self._common_unit(np.arange(self.n_properties))
+
         grid_copy = Grid(n_properties=n_properties,
                           center_point=np.copy(self.center_point),
                           side_length=np.copy(self.side_length),
                           pixel_size=np.copy(self.pixel_size),
                           axunits=np.copy(self.axunits),
-                          gridunits=np.copy(self.gridunits))
+                          gridunits=gridunits)
         
         return grid_copy
 
@@ -501,6 +515,7 @@ class Grid():
         n_properties = len(properties)
 
         grid_copy = self.copy_axes(n_properties)
+        grid_copy.gridunits = np.array([self.gridunits[i] for i in properties],dtype=object)
         
         if self.grid_active:
             grid_copy.grid = np.copy(self.grid[...,tuple(properties)])
@@ -571,6 +586,7 @@ class Grid():
 
             self.grid = np.concatenate((self.grid,value),axis=-1)
             self.n_properties += value.shape[-1]
+            self.gridunits = np.concatenate((self.gridunits,np.array([None]*value.shape[-1],dtype=object)))
 
         # Different behavior if grid isn't activated yet
         if not self.grid_active:
@@ -578,6 +594,7 @@ class Grid():
                 raise ValueError("data array for this Grid has not been initialized, cannot add new values in property array -- use add_new_prop(value=None) to add an empty new property without initializing grid")
             else:
                 self.n_properties += 1
+                self.gridunits = np.concatenate((self.gridunits,np.array([None],dtype=object)))
 
 
 
@@ -975,11 +992,13 @@ class Grid():
         sum_grid = np.expand_dims(np.sum(self.grid[...,tuple(properties)],axis=-1),-1)
         if in_place:
             self.add_new_prop(sum_grid)
+            self.gridunits[-1] = self._common_unit(properties)
 
             return self
             
         else:
             new_grid = self.copy_axes(n_properties=1)
+            new_grid.gridunits[0] = self._common_unit(properties)
             new_grid.init_grid()
             new_grid.grid = sum_grid
 
-- 
2.43.0


From 1c00d8803d47e1de1ca6fd40767ff9320a4b5045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 039/138] fix: check whether the file a grid is saved to exists
 when the .npz extension is left out

---
 simim/map/gridder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index f817cdb..5614ad1 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -548,7 +548,11 @@ class Grid():
         else:
             savefunc = np.savez
 
-        if os.path.exists(path) and not overwrite:
+        # numpy adds the extension if it's missing
+        file_path = os.fspath(path)
+        if not file_path.endswith('.npz'):
+            file_path = file_path + '.npz'
+        if os.path.exists(file_path) and not overwrite:
             raise ValueError("The file you are trying to create already exists")
 
         save_data = {'n_properties':self.n_properties,
-- 
2.43.0


From ccfe4404c95ca76b377c11e7c08c50e6fe2645d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 040/138] fix: restore scalar attributes of saved grids as
 scalars

---
 simim/map/gridder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 5614ad1..5534c9a 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -2134,7 +2134,7 @@ class LoadGrid(Grid):
 
         input = np.load(path,allow_pickle=True)
 
-        super().__init__(n_properties=input['n_properties'],
+        super().__init__(n_properties=int(input['n_properties']),
                          center_point=input['center_point'],
                          side_length=input['side_length'],
                          pixel_size=input['pixel_size'],
@@ -2144,9 +2144,9 @@ class LoadGrid(Grid):
         if input['grid_active']:
             self.grid_active = True
             self.grid = input['grid']
-            self.n_objects = input['n_objects']
+            self.n_objects = int(input['n_objects'])
         self.fourier_space = input['fourier_space']
-        self.is_power_spectrum = input['is_power_spectrum']
+        self.is_power_spectrum = bool(input['is_power_spectrum'])
 
 
 def gridder_function(positions, values = None, center_point = None, side_length = None, pixel_size = 1, setndims = None):
-- 
2.43.0


From 96497014fb61149c69902145de91bfe5c1a8ccdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 041/138] fix: GridFromAxes does not add a cell because of
 rounding errors

---
 simim/map/gridder.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 5534c9a..716972e 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -2388,14 +2388,6 @@ class GridFromAxes(Grid):
 
         super().__init__(n_properties,center_point,side_length,pixel_size,axunits,gridunits)
 
-        n_pixels_decimal = self.side_length/self.pixel_size
-        n_pixels_ceil = np.ceil(n_pixels_decimal)
-        if np.any(n_pixels_decimal != n_pixels_ceil):
-            self.side_length = self.pixel_size * n_pixels_ceil
-            if (not side_length is None) and (not center_point is None):
-                warnings.warn("Side lengths increased to accomodate integer number of pixels")
-        self.n_pixels = n_pixels_ceil.astype('int')
-
 class GridFromAxesAndFunction(GridFromAxes):
     def __init__(self,function,*axes,function_kwargs={},n_properties=1,axunits=None,gridunits=None):
         """Initialize a Grid from a set of axes and populate it using a function
-- 
2.43.0


From bbb43ad6b32296ee82d5f34343229cd8a066840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 042/138] fix: make down_sample work

---
 simim/map/gridder.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 716972e..9d97e0b 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1198,13 +1198,16 @@ class Grid():
         
         factor = np.array(factor,ndmin=1).astype(int)
         if len(factor) == 1:
-            factor = np.ones(len(ax))*factor[0]
+            factor = np.ones(len(ax),dtype=int)*factor[0]
         elif len(factor) != len(ax):
             raise ValueError('length of factor must be 1 or match the length of ax')
             
         for i in ax:
             if self.fourier_space[i]:
                 raise ValueError("Downsampling not supported for Fourier space (see the pad method)")
+        for i,f in zip(ax,factor):
+            if f < 1 or f > self.n_pixels[i]:
+                raise ValueError("factor must be between 1 and the number of pixels along the axis")
 
         # Set the function to do the collapsing of cells
         if mode == 'average':
@@ -1214,29 +1217,29 @@ class Grid():
         else:
             raise ValueError("mode not recognized - must be 'average' or 'sum'.")
 
-        for axi in ax:
+        for axi,f in zip(ax,factor):
             shape = np.concatenate((self.n_pixels,[self.n_properties]))
-            shape[axi] = shape[axi]//factor[axi]
+            shape[axi] = shape[axi]//f
 
             # Downsample
-            new_ax_centers = np.zeros(self.axes_centers[axi].shape)
-            new_grid = np.zeros(shape)
+            new_ax_centers = np.zeros(shape[axi])
+            new_grid = np.zeros(shape,dtype=np.result_type(self.grid.dtype,float)) if self.grid_active else None
             for i in range(shape[axi]):
-                slice_ax = slice(i*factor[axi],(i+1)*factor[axi])
+                slice_ax = slice(i*f,(i+1)*f)
                 slices = [slice(0,None) if j!=axi else slice_ax for j in range(self.n_dimensions+1)]
                 slices_new = [slice(0,None) if j!=axi else i for j in range(self.n_dimensions+1)]
 
                 if self.grid_active:
-                    new_grid[slices_new] = use_function(self.grid[slices],axis=axi)
+                    new_grid[tuple(slices_new)] = use_function(self.grid[tuple(slices)],axis=axi)
                 new_ax_centers[i] = np.mean(self.axes_centers[axi][slice_ax])
 
             # Set up new grid
             if self.grid_active:
                 self.grid = new_grid
             self.axes_centers[axi] = new_ax_centers
-            self.axes[axi] = np.concatenate((new_ax_centers-(factor[axi]*self.pixel_size[axi])/2, [new_ax_centers[-1]+(factor[axi]*self.pixel_size[axi])/2]))
-            self.pixel_size[axi] = self.pixel_size[axi]*factor[axi]
-            self.n_pixels[axi] = self.n_pixels[axi]//factor[axi]
+            self.axes[axi] = np.concatenate((new_ax_centers-(f*self.pixel_size[axi])/2, [new_ax_centers[-1]+(f*self.pixel_size[axi])/2]))
+            self.pixel_size[axi] = self.pixel_size[axi]*f
+            self.n_pixels[axi] = self.n_pixels[axi]//f
             self.side_length[axi] = np.ptp(self.axes[axi])
             self.center_point[axi] = np.min(self.axes[axi]) + self.side_length[axi]/2
             self.fourier_axes_centers[axi] = np.fft.fftshift(np.fft.fftfreq(self.n_pixels[axi],self.pixel_size[axi]))
-- 
2.43.0


From 843ec3c1203d017637ee2f0b8da3bdb3632fb328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 043/138] fix: collapse_dimension with several axes or with
 weights for every property

---
 simim/map/gridder.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 9d97e0b..2eb5cbd 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1293,6 +1293,8 @@ class Grid():
             weights = [np.ones(len(self.axes_centers[i])) for i in ax]
         elif len(ax) == 1:
             weights = [weights]
+        else:
+            weights = list(weights)
 
         if len(weights) != len(ax):
             raise ValueError("Must provide a weights array for each axis to collapse")
@@ -1313,26 +1315,24 @@ class Grid():
                 elif weights[i].ndim == self.n_dimensions+1:
                     if weights[i].shape != self.grid.shape:
                         raise ValueError("Weights must match shape of grid")
-                    weights[i] = np.expand_dims(weights[i],-1)
                 else:
                     raise ValueError("Weights for axis {} must match size of grid. {} // {}".format(ax[i],len(weights[i]),len(self.axes_centers[ax[i]])))
         
+        # Combine the weights of all axes
+        weights_all = np.ones(self.grid.shape)
+        for w in weights:
+            weights_all = weights_all * w
+
         if mode=='sum':
-            norm = [1 for i in ax]
+            norm = 1
         elif mode=='average':
-            norm = []
-            for i in range(len(ax)):
-                if weights[i].ndim == 1:
-                    norm.append(np.sum(weights[i]))
-                else:
-                    norm.append(np.sum(weights[i],axis=ax[i]))
+            norm = np.sum(weights_all,axis=tuple(ax))
         else:
             raise ValueError("mode not recognized - options are 'sum','average'")
 
         # Do the dang thing
         if in_place:
-            for i in range(len(ax)):
-                self.grid = np.sum(self.grid*weights[i],axis=ax[i]) / norm[i]
+            self.grid = np.sum(self.grid*weights_all,axis=tuple(ax)) / norm
 
             # Update grid
             self.n_pixels = self.n_pixels[ax_keep]
@@ -1355,8 +1355,7 @@ class Grid():
         else:
             newgrid = self.copy()
 
-            for i in range(len(ax)):
-                newgrid.grid = np.sum(newgrid.grid*weights[i],axis=ax[i]) / norm[i]
+            newgrid.grid = np.sum(newgrid.grid*weights_all,axis=tuple(ax)) / norm
 
             # Update grid
             newgrid.n_pixels = self.n_pixels[ax_keep]
-- 
2.43.0


From 7cc4616496105aa878fd24a8175a3346a393865d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:15 +0000
Subject: [PATCH 044/138] fix: adding an empty catalog with new_prop set adds
 the new property

---
 simim/map/gridder.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 2eb5cbd..a1ca7fb 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -633,13 +633,11 @@ class Grid():
         
         # If the positions array is empty don't need to do much
         if len(positions) == 0:
-            if positions.ndim == 1:
-                positions = positions.reshape((positions.shape[0],1))
-
-                if new_props:
-                    new_n_properties = values.shape[1]
-                    new_grid = np.zeros(np.concatenate((self.n_pixels,[new_n_properties])))
-                    self.add_new_prop(new_grid)
+            if new_props:
+                values = np.zeros((0,1)) if values is None else np.array(values)
+                new_n_properties = values.shape[1] if values.ndim > 1 else 1
+                new_grid = np.zeros(np.concatenate((self.n_pixels,[new_n_properties])))
+                self.add_new_prop(new_grid)
 
         # Otherwise make sure the positions array is in the right shape and matches the shape of the grid
         else:
@@ -732,10 +730,9 @@ class Grid():
 
         # If the positions array is empty don't need to do much
         if len(positions) == 0:
-            if positions.ndim == 1:
-                if new_prop:
-                    new_grid = np.zeros(np.concatenate((self.n_pixels,[1])))
-                    self.add_new_prop(new_grid)
+            if new_prop:
+                new_grid = np.zeros(np.concatenate((self.n_pixels,[1])))
+                self.add_new_prop(new_grid)
             
             return
 
@@ -895,10 +892,9 @@ class Grid():
 
         # If the positions array is empty don't need to do much
         if len(positions) == 0:
-            if positions.ndim == 1:
-                if new_prop:
-                    new_grid = np.zeros(np.concatenate((self.n_pixels,[1])))
-                    self.new_prop(new_grid)
+            if new_prop:
+                new_grid = np.zeros(np.concatenate((self.n_pixels,[1])))
+                self.add_new_prop(new_grid)
             
             return
 
-- 
2.43.0


From 0c8c2a0dade39ffe9073d346f34b1c389f327b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 045/138] fix: accept integer positions in add_from_cat and
 sample

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index a1ca7fb..d0c8f3d 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -641,7 +641,7 @@ class Grid():
 
         # Otherwise make sure the positions array is in the right shape and matches the shape of the grid
         else:
-            positions = np.array(positions,ndmin=1,copy=True)
+            positions = np.array(positions,dtype=float,ndmin=1,copy=True)
             if positions.shape[0] > 0:
                 if positions.shape[1] !=self.n_dimensions:
                     raise ValueError('positions (dim={}) does not have the right number of dimensions for the grid (dim={})'.format(positions.shape[1],self.n_dimensions))
@@ -1044,7 +1044,7 @@ class Grid():
         properties = tuple(properties)
 
         # Make sure the positions array is in the right shape and matches the dimensions of the grid
-        positions = np.array(positions,ndmin=1,copy=True)
+        positions = np.array(positions,dtype=float,ndmin=1,copy=True)
         if positions.shape[0] > 0:
             if positions.shape[1] != self.n_dimensions:
                 raise ValueError('positions (dim={}) does not have the right number of dimensions for the grid (dim={})'.format(positions.shape[1],self.n_dimensions))
-- 
2.43.0


From 0d05d8b0f74f8b4ac7838cf85fcbc95a00291d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 046/138] fix: add_from_cat adds each column of values to the
 property it is given for

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index d0c8f3d..f16196f 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -677,11 +677,11 @@ class Grid():
                 if values.shape[1] != len(properties) and values.shape[1] != 1:
                     raise ValueError("Values array does not contain the correct number of properties.")
 
-                for ip in properties:
+                for iv,ip in enumerate(properties):
                     if values.shape[1] == 1:
                         v = values.flatten()
                     else:
-                        v = values[:,ip]
+                        v = values[:,iv]
                     np.add.at(self.grid,positions+(ip,),v)
 
             # Count the number of objects
-- 
2.43.0


From 58e004df4510a0ec86117399610dad2b90bff650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 047/138] fix: grids are never smaller than the side length or
 the positions they have to cover

---
 simim/map/gridder.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index f16196f..2702a54 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -175,7 +175,7 @@ class Grid():
         # Set up the grid - make sure the side length is compatible with
         # number of pixels
         n_pixels_decimal = self.side_length/self.pixel_size
-        n_pixels_ceil = np.ceil(np.round(n_pixels_decimal,1))
+        n_pixels_ceil = np.ceil(np.round(n_pixels_decimal,5))
         if np.any(n_pixels_decimal != n_pixels_ceil):
             self.side_length = self.pixel_size * n_pixels_ceil
             if (not side_length is None) and (not center_point is None):
@@ -2104,9 +2104,13 @@ class Gridder(Grid):
             if len(center_point) != n_dimensions:
                 raise ValueError("center_point don't match data dimensionality")
 
+        # Handle pixel_size inputs:
+        pixel_size = np.array(pixel_size,dtype=float,ndmin=1,copy=True)
+
         # Handle side_length inputs:
         if side_length is None:
-            side_length = ptps * 1.0000001 # Expand slightly so both extrema get gridded
+            # Expand to the next multiple of the pixel size so both extrema get gridded
+            side_length = pixel_size * (np.floor(ptps * 1.0000001 / pixel_size) + 1)
             side_length[ptps==0] = 1 # In case dimension is flat
         else:
             side_length = np.array(side_length,ndmin=1,copy=True)
-- 
2.43.0


From 5b758c5720f14bb29ad1c0c501abeaa5475109a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 048/138] fix: hold integer valued functions as floats in
 GridFromAxesAndFunction

---
 simim/map/gridder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 2702a54..0c7e01d 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -2430,6 +2430,7 @@ class GridFromAxesAndFunction(GridFromAxes):
         self.init_grid()
         shape = self.grid.shape
         self.grid = np.expand_dims(function(*self.axes_centers,**function_kwargs),axis=-1)
+        self.grid = self.grid.astype(np.result_type(self.grid.dtype,float),copy=False)
         if self.grid.shape != shape:
             raise ValueError("function does not produce a grid of the correct shape")
 
-- 
2.43.0


From 4f89e74c45996a6fcd630e252a25b7d26ea10abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 049/138] fix: power_spectrum only marks the axes it
 transformed as being in Fourier space

---
 simim/map/gridder.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 0c7e01d..68efa5e 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1584,7 +1584,6 @@ class Grid():
             powspec.is_power_spectrum = True
             powspec.n_objects = self.n_objects
             powspec.fourier_space = np.copy(self.fourier_space)
-            powspec.fourier_space[:] = True
 
             # Invert fourier transforms
             if not cross_grid is None:
-- 
2.43.0


From 1cce722b313c3adc05541d07858b64764ad9bb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 050/138] fix: check that grids have the same shape before
 transforming them for a cross power spectrum

---
 simim/map/gridder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 68efa5e..0ede2d7 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1490,6 +1490,8 @@ class Grid():
             if cross_grid.n_properties != 1 and self.n_properties != 1:
                 if cross_grid.n_properties != self.n_properties:
                     raise ValueError("grid n_properties ({}) is not compatible cross_grid ({})".format(self.n_properties,cross_grid.n_properties))
+            if not np.array_equal(cross_grid.n_pixels,self.n_pixels):
+                raise ValueError("grid n_pixels ({}) does not match cross_grid ({})".format(self.n_pixels,cross_grid.n_pixels))
 
         # Determine which axes are in Fourier space already and which
         # need to be transformed
-- 
2.43.0


From 4ff489cfb513698f695b69804d65c56ed91d84b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 051/138] fix: cross power spectra of one property with several
 have several properties

---
 simim/map/gridder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 0ede2d7..0c7d6ce 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1550,6 +1550,9 @@ class Grid():
                 #         self.gridunits[i] += '^2' + unit_end
 
             self.is_power_spectrum = True
+            if self.n_properties != self.grid.shape[-1]:
+                self.n_properties = self.grid.shape[-1]
+                self.gridunits = np.array([self.gridunits[0]]*self.n_properties,dtype=object)
             # for i in range(len(self.gridunits)):
             #     if not self.gridunits[i] is None:
             #         self.gridunits += unit_end
@@ -1564,7 +1567,8 @@ class Grid():
         # spectrum and return it, plus invert the fourier transforms
         # to the original grid
         else:
-            powspec = Grid(self.n_properties,self.center_point,self.side_length,self.pixel_size,self.axunits,self.gridunits)
+            n_properties = self.n_properties if cross_grid is None else max(self.n_properties,cross_grid.n_properties)
+            powspec = Grid(n_properties,self.center_point,self.side_length,self.pixel_size,self.axunits,self.gridunits)
 
             # TO DO!! Tidy up the units
             # for i in range(len(powspec.gridunits)):
-- 
2.43.0


From c763345268298b91de15a29a2e4c5b034ff7b79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 052/138] fix: spherical_average includes the outermost shell

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 0c7d6ce..987acde 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1753,7 +1753,7 @@ class Grid():
         # Determine the correct bin for each cell - digitize data into shells
         # and then get indices of dimensions that aren't being flattened
         bins_for_cells = np.digitize(rad,shells) - 1
-        good_inds = np.nonzero((bins_for_cells>-1) & (bins_for_cells<len(shells)-2))
+        good_inds = np.nonzero((bins_for_cells>-1) & (bins_for_cells<len(shells)-1))
         coords_for_cells = np.indices(self.grid.shape)
         coords_for_cells = [bins_for_cells] + \
                            [coords_for_cells[i_ax].flatten() for i_ax in range(self.n_dimensions) if keep_axes[i_ax]] + \
@@ -1787,7 +1787,7 @@ class Grid():
         # Compute standard deviation if requested
         if return_std:
 
-            good_inds_grid = np.nonzero((bins_for_cells.reshape(self.grid.shape)>-1) & (bins_for_cells.reshape(self.grid.shape)<len(shells)-2))
+            good_inds_grid = np.nonzero((bins_for_cells.reshape(self.grid.shape)>-1) & (bins_for_cells.reshape(self.grid.shape)<len(shells)-1))
             means = binned_averages[tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1))].flatten()
             std_vals = np.copy(self.grid)
             std_vals[good_inds_grid] = std_vals[good_inds_grid] - means
-- 
2.43.0


From 2562fe47f4bc64469964c9d0106e5739e398b774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 053/138] fix: do not truncate weights in spherical_average to
 integers

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 987acde..36c0a77 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1774,7 +1774,7 @@ class Grid():
         binned_averages = np.zeros(binned_shape,dtype=dtype_data)
         np.add.at(binned_averages,tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1)),(self.grid*weights).flatten()[good_inds].reshape(-1,1))
 
-        binned_weights = np.zeros(binned_shape,dtype=int)
+        binned_weights = np.zeros(binned_shape,dtype=float)
         np.add.at(binned_weights,tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1)),(np.ones(self.grid.shape)*weights).flatten()[good_inds].reshape(-1,1))
 
         binned_averages /= binned_weights
@@ -1799,7 +1799,7 @@ class Grid():
             if biased_std:
                 binned_std = np.sqrt(binned_std/binned_weights)
             else:
-                binned_weights2 = np.zeros(binned_shape,dtype=int)
+                binned_weights2 = np.zeros(binned_shape,dtype=float)
                 np.add.at(binned_weights2,tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1)),(np.ones(self.grid.shape)*weights**2).flatten()[good_inds].reshape(-1,1))
 
                 binned_std = np.sqrt(binned_std/(binned_weights-binned_weights2/binned_weights))
-- 
2.43.0


From 2713611286ed90d4b0ac83b52c77085616f5f6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 054/138] fix: keep the innermost cells in logarithmic
 spherical shells

---
 simim/map/gridder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 36c0a77..03c76c0 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1734,6 +1734,7 @@ class Grid():
                 if bin_min <=0:
                     bin_min = np.min(rad[rad>0])
                 shells = np.logspace(np.log10(bin_min),np.log10(bin_max),bin_n+1)
+                shells[0] = bin_min # Avoid losing the innermost cells to rounding
             else:
                 raise ValueError("bin mode must be in ['log','linear'].")
         
-- 
2.43.0


From fda13d75efab0e51e04e758cc18707c30ab901fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 055/138] fix: convolve accepts a different padding for each
 axis

---
 simim/map/gridder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 03c76c0..33d1888 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1147,6 +1147,8 @@ class Grid():
             pad = np.array([pad for i in range(len(ax))]).astype(int)
         elif pad is None:
             pad = np.array([0 for i in range(len(ax))]).astype(int)
+        else:
+            pad = np.array(pad).astype(int)
 
         # Do the dang thing
         if in_place:
-- 
2.43.0


From c2714d8ca97891a3fc38d0fc546adbdaaf3a332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 056/138] fix: SpectralPSF planes and axes follow the cells of
 the grid

---
 simim/map/gridder.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 33d1888..eacf04c 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -2323,13 +2323,11 @@ class SpectralPSF(Grid):
         pixel_size = np.concatenate((pixel_size,[np.abs(spec_axis[1]-spec_axis[0])]))
 
         super().__init__(n_properties,center_point,side_length,pixel_size,axunits,gridunits=None)
-        self.axes[-1] = spec_axis
-
         # Make the grid
         sig = self.fwhm0 / (2*np.sqrt(2*np.log(2)))
         psfnd = np.ones(self.n_pixels)
         for i in range(len(self.axes)-1):
-            xx,ss = np.meshgrid(self.axes_centers[i],spec_axis,indexing='ij')
+            xx,ss = np.meshgrid(self.axes_centers[i],self.axes_centers[-1],indexing='ij')
             psf2d = np.exp(-xx**2 / (2*(sig[i]*(spec0/ss)**exp)**2))
             shape = np.ones(self.n_dimensions,dtype='int')
             shape[i] = len(self.axes_centers[i])
-- 
2.43.0


From e0f6d18dbbe23e94a5f84e3e0c3e0baecbeb63ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 057/138] fix: sum_properties keeps track of Fourier space axes
 in the new grid

---
 simim/map/gridder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index eacf04c..3eb917d 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1001,6 +1001,8 @@ class Grid():
             new_grid.gridunits[0] = self._common_unit(properties)
             new_grid.init_grid()
             new_grid.grid = sum_grid
+            new_grid.fourier_space = np.copy(self.fourier_space)
+            new_grid.is_power_spectrum = self.is_power_spectrum
 
             return new_grid
 
-- 
2.43.0


From 363b0fdf83e142e68c85736921e5660d38f07394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:29 +0000
Subject: [PATCH 058/138] fix: refuse to convolve with a source with a
 different number of properties

---
 simim/map/gridder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 3eb917d..e6b1d7c 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1116,6 +1116,8 @@ class Grid():
             raise ValueError("No source grid is initialized.")
         if self.is_power_spectrum:
             raise ValueError("This grid is a power spectrum, not a map")
+        if source.n_properties != 1 and source.n_properties != self.n_properties:
+            raise ValueError("source grid has the wrong number of properties")
 
         # If the grid we convolve with has higher dimension than self, raise an error
         if source.grid.ndim > self.grid.ndim:
-- 
2.43.0


From 49dc96dedaaaf04ef82c74117066b7b83fcf75d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:39 +0000
Subject: [PATCH 059/138] fix: build light cones whose redshift range ends
 where a snapshot begins

---
 simim/lightcone/lcmaker.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 257055c..66cc0e2 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -691,7 +691,9 @@ class LCMaker(GenericLCMaker):
                     buffer_distance = snap_meta['transverse_distance_max'] * pointing_buffer_coef[lc_ind]
                     in_box_distance = self.box_edge / np.amax(pointing_los[lc_ind])
 
-                    iters = int(np.ceil(use_distance / (in_box_distance-2*buffer_distance)))
+                    # Snapshots that only touch the redshift range still take
+                    # one (empty) iteration
+                    usable_distance = in_box_distance - 2*buffer_distance
 
                     # Expand the box by making copies if necessary
                     positions = np.copy(positions0)
@@ -700,7 +702,7 @@ class LCMaker(GenericLCMaker):
                     copies_n3d = int(1)
                     box_size = self.box_edge
 
-                    while iters > 25 or iters <= 0:
+                    while usable_distance <= 0 or use_distance / usable_distance > 25:
                         if copies_n < self.copies_max:
                             for dimension_ind in range(3):
                                 positions_copy = np.copy(positions)
@@ -710,14 +712,16 @@ class LCMaker(GenericLCMaker):
                             in_box_distance *= 2
                             box_size *= 2
 
-                            iters = int(np.ceil(use_distance / (in_box_distance-2*buffer_distance)))
+                            usable_distance = in_box_distance - 2*buffer_distance
                             copies_n *= int(2)
                             copies_n3d *= int(8)
-                        elif iters <= 0:
+                        elif usable_distance <= 0:
                             raise ValueError("Something went wrong calculating iterations")
                         else:
                             break
 
+                    iters = max(int(np.ceil(use_distance / usable_distance)), 1)
+
                     # Now shift the box to start where we want to start
                     positions = (positions * pointing_flips[lc_ind]) % box_size
 
-- 
2.43.0


From feef8f4f3fdbb44c5651516eef70c672217a18ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:01 +0000
Subject: [PATCH 060/138] fix: keep the whole light cone inside the simulation
 box for lines of sight close to one of its sides

---
 simim/lightcone/lcmaker.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 66cc0e2..a634643 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -492,10 +492,11 @@ class LCMaker(GenericLCMaker):
             LOS_unit = LOS_vec/np.linalg.norm(LOS_vec)
 
             # Now test that there's enough room in the box for this thing...
-            angles = np.arctan([LOS_unit[1]/LOS_unit[0], LOS_unit[2]/LOS_unit[0], LOS_unit[2]/LOS_unit[1],
-                                LOS_unit[0]/LOS_unit[1], LOS_unit[0]/LOS_unit[2], LOS_unit[1]/LOS_unit[2]])
+            # The edge of the light cone has to clear the side of the box that the LOS is closest to; the
+            # second term is because surfaces of constant distance curve back towards the observer
+            angle = np.arcsin(np.amin(LOS_unit))
 
-            buffer_coef = 1.01 * np.tan(openradius) / np.sin(np.amin(angles)) # 1.01 is just to provide some padding
+            buffer_coef = 1.01 * (np.tan(openradius) / np.tan(angle) + 1 - np.cos(openradius)) # 1.01 is just to provide some padding
 
             max_distance = np.amax(self.snapshots_use['transverse_distance_max'])
             buffer_distance_max = buffer_coef * max_distance
-- 
2.43.0


From 93a5fbe88a5b49356debfe46543441307509461d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:23 +0000
Subject: [PATCH 061/138] fix: store properties added to light cones with the
 type they have in the simulation

---
 simim/lightcone/lcmaker.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index a634643..5c635e3 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -153,6 +153,13 @@ class GenericLCMaker():
 
         keys = np.sort(new_lc_keys)
 
+        # Store values with the same type as in the simulation
+        dtypes = {}
+        with h5py.File(os.path.join(self.sim_path,'data.hdf5'),"r") as sim_file:
+            snap_grp = sim_file['Snapshot {}'.format(self.snapshots_use[0]['index'])]
+            for key in keys:
+                dtypes[key] = snap_grp['mass' if key == 'masscheck' else key].dtype
+
         # Note in LC files that we're adding properties
         for i in range(self.n):
             with h5py.File(os.path.join(self.lc_path,'lc_{:04d}.hdf5'.format(i)),'a') as file:
@@ -164,7 +171,7 @@ class GenericLCMaker():
                 if shape[0] < chunks[0]:
                     chunks = shape
                 for key in keys:
-                    file['Lightcone Full'].create_dataset(key,shape=shape,chunks=chunks)
+                    file['Lightcone Full'].create_dataset(key,shape=shape,chunks=chunks,dtype=dtypes[key])
                     if key == 'masscheck':
                         file['Lightcone Full'][key].attrs['units'] = self.sim_handler.key_units['mass']
                         file['Lightcone Full'][key].attrs['h dependence'] = self.sim_handler.key_h_dependence['mass']
-- 
2.43.0


From 35fca5b82a3c17c39c5a9fb6482b6f91ee9d5b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:52 +0000
Subject: [PATCH 062/138] fix: apply the box flips of a light cone to vector
 properties

---
 simim/lightcone/lcmaker.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 5c635e3..7fc8215 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -329,6 +329,13 @@ class GenericLCMaker():
                             # Trim values to the indices
                             lc_values = values[:,indexing['index']]
 
+                            # Apply the same flips as to the positions, axial vectors
+                            # change sign with every reflection
+                            flips = lc_file.attrs['box flips']
+                            lc_values = lc_values * flips[:,np.newaxis]
+                            if key == 'spin':
+                                lc_values = lc_values * np.prod(flips)
+
                             # Get the matrices and do transformation
                             los_matrix = lc_file.attrs['line of sight transformation matrix']
                             pa_matrix = lc_file.attrs['position angle transformation matrix']
-- 
2.43.0


From 748a35e75f2ac6566988d248c77627e361090b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:06 +0000
Subject: [PATCH 063/138] fix: add_pos_properties works for light spheres

---
 simim/lightcone/lcmaker.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 7fc8215..39a4481 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -336,17 +336,19 @@ class GenericLCMaker():
                             if key == 'spin':
                                 lc_values = lc_values * np.prod(flips)
 
-                            # Get the matrices and do transformation
-                            los_matrix = lc_file.attrs['line of sight transformation matrix']
-                            pa_matrix = lc_file.attrs['position angle transformation matrix']
-                            lc_values = np.matmul(los_matrix,lc_values)
-                            lc_values = np.matmul(pa_matrix,lc_values)
-
+                            # Get the matrices and do transformation (light spheres keep
+                            # the axes of the simulation)
+                            if 'line of sight transformation matrix' in lc_file.attrs:
+                                los_matrix = lc_file.attrs['line of sight transformation matrix']
+                                pa_matrix = lc_file.attrs['position angle transformation matrix']
+                                lc_values = np.matmul(los_matrix,lc_values)
+                                lc_values = np.matmul(pa_matrix,lc_values)
+                                lc_values = lc_values[[1,2,0]]
 
                             # Append the data
-                            lc_file['Lightcone Full'][key+'_x'][start:start+len(indexing)] = lc_values[1]
-                            lc_file['Lightcone Full'][key+'_y'][start:start+len(indexing)] = lc_values[2]
-                            lc_file['Lightcone Full'][key+'_z'][start:start+len(indexing)] = lc_values[0]
+                            lc_file['Lightcone Full'][key+'_x'][start:start+len(indexing)] = lc_values[0]
+                            lc_file['Lightcone Full'][key+'_y'][start:start+len(indexing)] = lc_values[1]
+                            lc_file['Lightcone Full'][key+'_z'][start:start+len(indexing)] = lc_values[2]
 
         # Note in LC files that we're done
         for i in range(self.n):
-- 
2.43.0


From 6746fadba80ab731dcb683622859f5dd5e7b8db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:22 +0000
Subject: [PATCH 064/138] fix: allow adding properties to light cones without
 halos

---
 simim/lightcone/lcmaker.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 39a4481..102db87 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -168,7 +168,9 @@ class GenericLCMaker():
 
                 shape = file['Indexing']['sim_indices'].shape
                 chunks = file['Indexing']['sim_indices'].chunks
-                if shape[0] < chunks[0]:
+                if shape[0] == 0:
+                    chunks = None
+                elif shape[0] < chunks[0]:
                     chunks = shape
                 for key in keys:
                     file['Lightcone Full'].create_dataset(key,shape=shape,chunks=chunks,dtype=dtypes[key])
@@ -275,7 +277,9 @@ class GenericLCMaker():
 
                 shape = file['Indexing']['sim_indices'].shape
                 chunks = file['Indexing']['sim_indices'].chunks
-                if shape[0] < chunks[0]:
+                if shape[0] == 0:
+                    chunks = None
+                elif shape[0] < chunks[0]:
                     chunks = shape
                 for key in keys:
                     for subkey in ['_x','_y','_z']:
-- 
2.43.0


From 90057adbf4bc6659eb3aff1ea589c82ca1301392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:48 +0000
Subject: [PATCH 065/138] fix: place centers of mass in light cones relative to
 their halos

---
 simim/lightcone/lcmaker.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 102db87..19c970e 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -317,6 +317,15 @@ class GenericLCMaker():
                         snap_grp[key+'_y'][:mass_index_final],
                         snap_grp[key+'_z'][:mass_index_final]])
 
+                    # Centers of mass are positions - transform the (small) offset
+                    # from the position of the halo
+                    if key == 'cm':
+                        values = values - np.array([
+                            snap_grp['pos_x'][:mass_index_final],
+                            snap_grp['pos_y'][:mass_index_final],
+                            snap_grp['pos_z'][:mass_index_final]])
+                        values = (values + self.box_edge/2) % self.box_edge - self.box_edge/2
+
                     for lc_ind in range(self.n):
                         # print(" "*40+"Working on light cone {}/{}          ".format(lc_ind+1,self.n), end='\r')
 
@@ -349,6 +358,10 @@ class GenericLCMaker():
                                 lc_values = np.matmul(pa_matrix,lc_values)
                                 lc_values = lc_values[[1,2,0]]
 
+                            if key == 'cm':
+                                lc_values = lc_values + np.array([
+                                    lc_file['Lightcone Full'][i][start:start+len(indexing)] for i in ['pos_x','pos_y','pos_z']])
+
                             # Append the data
                             lc_file['Lightcone Full'][key+'_x'][start:start+len(indexing)] = lc_values[0]
                             lc_file['Lightcone Full'][key+'_y'][start:start+len(indexing)] = lc_values[1]
-- 
2.43.0


From 0b65fbf981e4917fb0cf53812ca0a65efff13bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:18 +0000
Subject: [PATCH 066/138] fix: check that the requested volume fits inside the
 light cone

---
 simim/lightcone/lchandler.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index ddc9032..90893c9 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -151,12 +151,14 @@ class LCHandler(Handler):
         if shape == self.metadata['shape'] or self.metadata['shape'] == 'box':
             if open_angle > self.metadata['open angle']:
                 raise ValueError("openangle larger than lightcone")
-            if open_angle*aspect_ratio > self.metadata['open angle']*self.metadata['aspect ratio']:
+        if self.metadata['shape'] == 'box':
+            secondary_angle = open_angle*aspect_ratio if shape == 'box' else open_angle
+            if secondary_angle > self.metadata['open angle']*self.metadata['aspect ratio']:
                 raise ValueError("secondary angle (openangle * aspect) larger than lightcone")
 
         if shape == 'box' and self.metadata['shape'] == 'circle':
-            radius2 = open_angle**2 + (open_angle*aspect_ratio)**2
-            if radius2 > self.metadata['open angle']:
+            diagonal = np.sqrt(open_angle**2 + (open_angle*aspect_ratio)**2)
+            if diagonal > self.metadata['open angle']:
                 raise ValueError("specified box does not fit in circular lightcone")
 
         # Figure out the volume
-- 
2.43.0


From 6d2aa10fb92bcce64ba67e81a118c42835f49911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 067/138] fix: compute the volume of light spheres

---
 simim/lightcone/lchandler.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 90893c9..745503e 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -134,9 +134,16 @@ class LCHandler(Handler):
         if shape == None:
             shape=self.metadata['shape']
         
-        if open_angle == None:
+        # Light spheres are not described by an opening angle
+        sphere_areas = {'sphere':4*np.pi,'hemisphere':2*np.pi,'quarter':np.pi,'eighth':np.pi/2}
+        is_sphere = self.metadata['shape'] in sphere_areas
+        if is_sphere:
+            if shape != self.metadata['shape'] or open_angle is not None or aspect_ratio is not None:
+                raise ValueError("shape, open_angle, and aspect_ratio cannot be specified for light spheres")
+
+        if open_angle == None and not is_sphere:
             open_angle=self.metadata['open angle']
-        if aspect_ratio == None:
+        if aspect_ratio == None and not is_sphere:
             aspect_ratio=self.metadata['aspect ratio']
 
         # Check everything
@@ -145,10 +152,10 @@ class LCHandler(Handler):
         if redshift_max > self.metadata['maximum redshift']:
             raise ValueError("redshift_max higher than maximum of lightcone")
 
-        if shape not in ['box','circle']:
+        if shape not in ['box','circle'] and not is_sphere:
             raise ValueError("Shape not recognized")
 
-        if shape == self.metadata['shape'] or self.metadata['shape'] == 'box':
+        if (shape == self.metadata['shape'] and not is_sphere) or self.metadata['shape'] == 'box':
             if open_angle > self.metadata['open angle']:
                 raise ValueError("openangle larger than lightcone")
         if self.metadata['shape'] == 'box':
@@ -166,6 +173,8 @@ class LCHandler(Handler):
             area = open_angle * open_angle * aspect_ratio
         elif shape == 'circle':
             area = np.pi * (open_angle/2)**2
+        else:
+            area = sphere_areas[shape]
 
         v2 = self.cosmo.comoving_volume(redshift_max).value
         v1 = self.cosmo.comoving_volume(redshift_min).value
-- 
2.43.0


From 1128cdf2e658de23c8d3acdae4753ab66a52b84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:31 +0000
Subject: [PATCH 068/138] fix: eval_stat_evo does not add bin properties to the
 dictionary it is given

---
 simim/lightcone/lchandler.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 745503e..0e64f3d 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -194,6 +194,7 @@ class LCHandler(Handler):
             give_args_in_h_units = self.default_in_h_units
 
         redshift_bins = np.sort(redshift_bins)
+        other_kws = dict(other_kws)
         
         inds_active_save = np.copy(self.inds_active)
 
@@ -220,9 +221,6 @@ class LCHandler(Handler):
                                        use_all_inds=False,
                                        give_args_in_h_units=give_args_in_h_units))
 
-            other_kws.pop('zmin',None)
-            other_kws.pop('zmax',None)
-
         # Reset active inds
         self.inds_active = np.copy(inds_active_save)
 
-- 
2.43.0


From 2bc0eda857fe08f2ae9a84281c5dc8d298549f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:58 +0000
Subject: [PATCH 069/138] fix: eval_stat_evo restores the number of active
 halos

---
 simim/lightcone/lchandler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 0e64f3d..a3c7fb6 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -223,6 +223,7 @@ class LCHandler(Handler):
 
         # Reset active inds
         self.inds_active = np.copy(inds_active_save)
+        self.nhalos_active = len(self.inds_active)
 
         return redshift_bins, vals
 
-- 
2.43.0


From 73700e28a408b961cf86c45ec33e4df0c9869ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:31 +0000
Subject: [PATCH 070/138] fix: eval_stat_evo does not count halos on the edge
 between two bins twice

---
 simim/lightcone/lchandler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index a3c7fb6..cd9329c 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -200,9 +200,14 @@ class LCHandler(Handler):
 
         vals = []
         for bin in range(len(redshift_bins)-1):
+            # Halos on the edge between two bins belong to the upper one
+            pmax = redshift_bins[bin+1]
+            if bin < len(redshift_bins)-2:
+                pmax = np.nextafter(pmax,-np.inf)
+
             self.set_property_range('redshift',
                                     pmin=redshift_bins[bin],
-                                    pmax=redshift_bins[bin+1],
+                                    pmax=pmax,
                                     reset=True)
 
             if zmin_kw:
-- 
2.43.0


From 4af79edc790db857e4a494494e7fcd457e52bb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:15 +0000
Subject: [PATCH 071/138] fix: eval_stat_evo restores the active halos when
 evaluating the statistic fails

---
 simim/lightcone/lchandler.py | 62 +++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index cd9329c..5a4f738 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -199,36 +199,38 @@ class LCHandler(Handler):
         inds_active_save = np.copy(self.inds_active)
 
         vals = []
-        for bin in range(len(redshift_bins)-1):
-            # Halos on the edge between two bins belong to the upper one
-            pmax = redshift_bins[bin+1]
-            if bin < len(redshift_bins)-2:
-                pmax = np.nextafter(pmax,-np.inf)
-
-            self.set_property_range('redshift',
-                                    pmin=redshift_bins[bin],
-                                    pmax=pmax,
-                                    reset=True)
-
-            if zmin_kw:
-                other_kws['zmin'] = redshift_bins[bin]
-            if zmax_kw:
-                other_kws['zmax'] = redshift_bins[bin+1]
-            if volume_kw:
-                other_kws['volume'] = self.volume(redshift_min = redshift_bins[bin],
-                                                    redshift_max = redshift_bins[bin+1],
-                                                    in_h_units=give_args_in_h_units)
-
-            vals.append(self.eval_stat(stat_function,
-                                       kwargs=kwargs,
-                                       kw_remap=kw_remap,
-                                       other_kws=other_kws,
-                                       use_all_inds=False,
-                                       give_args_in_h_units=give_args_in_h_units))
-
-        # Reset active inds
-        self.inds_active = np.copy(inds_active_save)
-        self.nhalos_active = len(self.inds_active)
+        try:
+            for bin in range(len(redshift_bins)-1):
+                # Halos on the edge between two bins belong to the upper one
+                pmax = redshift_bins[bin+1]
+                if bin < len(redshift_bins)-2:
+                    pmax = np.nextafter(pmax,-np.inf)
+
+                self.set_property_range('redshift',
+                                        pmin=redshift_bins[bin],
+                                        pmax=pmax,
+                                        reset=True)
+
+                if zmin_kw:
+                    other_kws['zmin'] = redshift_bins[bin]
+                if zmax_kw:
+                    other_kws['zmax'] = redshift_bins[bin+1]
+                if volume_kw:
+                    other_kws['volume'] = self.volume(redshift_min = redshift_bins[bin],
+                                                        redshift_max = redshift_bins[bin+1],
+                                                        in_h_units=give_args_in_h_units)
+
+                vals.append(self.eval_stat(stat_function,
+                                           kwargs=kwargs,
+                                           kw_remap=kw_remap,
+                                           other_kws=other_kws,
+                                           use_all_inds=False,
+                                           give_args_in_h_units=give_args_in_h_units))
+
+        finally:
+            # Reset active inds
+            self.inds_active = np.copy(inds_active_save)
+            self.nhalos_active = len(self.inds_active)
 
         return redshift_bins, vals
 
-- 
2.43.0


From d482f07e27cb48cae865a8acb5b812ea50fc00d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:05 +0000
Subject: [PATCH 072/138] fix: make LCIterator work for light spheres

---
 simim/lightcone/lchandler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 5a4f738..04c0d8b 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -567,9 +567,10 @@ class LCIterator():
         # Check for consistency of metadata
         ref_lc = self.lc_handlers[str(self.lc_numbers[0])]
         for attr in ['cosmo','open_angle','aspect_ratio','minimum_redshift','maximum_redshift']:
-            setattr(self,attr,getattr(ref_lc,attr))
+            # Light spheres have no open_angle or aspect_ratio
+            setattr(self,attr,getattr(ref_lc,attr,None))
             for i_lc in self.lc_numbers[1:]:
-                if getattr(self.lc_handlers[str(i_lc)],attr) != getattr(self,attr):
+                if getattr(self.lc_handlers[str(i_lc)],attr,None) != getattr(self,attr):
                     if self.require_consistent:
                         raise ValueError("Attribute {} does not match for light cones {} and {}".format(attr, self.lc_numbers[0],i_lc))
                     else:
-- 
2.43.0


From 3ddeca49e7a3131cf07f175d3b3b209d442a5dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 073/138] fix: LCIterator checks that all light cones have the
 same shape

---
 simim/lightcone/lchandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 04c0d8b..629214a 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -566,7 +566,7 @@ class LCIterator():
 
         # Check for consistency of metadata
         ref_lc = self.lc_handlers[str(self.lc_numbers[0])]
-        for attr in ['cosmo','open_angle','aspect_ratio','minimum_redshift','maximum_redshift']:
+        for attr in ['cosmo','shape','open_angle','aspect_ratio','minimum_redshift','maximum_redshift']:
             # Light spheres have no open_angle or aspect_ratio
             setattr(self,attr,getattr(ref_lc,attr,None))
             for i_lc in self.lc_numbers[1:]:
-- 
2.43.0


From d206b6b6807a8aaa34c916e4d67d1719d0462331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:25 +0000
Subject: [PATCH 074/138] fix: check the flux unit of the observed property of
 a field only

---
 simim/instrument/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/instrument/_helpers.py b/simim/instrument/_helpers.py
index a35f977..3cca116 100644
--- a/simim/instrument/_helpers.py
+++ b/simim/instrument/_helpers.py
@@ -89,7 +89,7 @@ def _check_grid_detector_compatibility(detector,grid,field_property_idx):
         warnings.warn("Detector unit for flux not specified. Assuming it matches grid unit")
     else:
         try: 
-            _check_unit(grid.gridunits,'flux')
+            _check_unit(grid.gridunits[field_property_idx],'flux')
         except:
             raise ValueError("grid flux unit not recognized")
         if grid.gridunits[field_property_idx] != detector.flux_unit:
-- 
2.43.0


From 6ff1506b14865fcbe328f3833121870ee6e8fb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:25 +0000
Subject: [PATCH 075/138] fix: refuse fields without the requested property

---
 simim/instrument/instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 29b5777..9d275f5 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -672,7 +672,7 @@ class Instrument:
 
         if field_property_idx is None:
             field_property_idx = 0
-        if field_property_idx > grid.n_dimensions-1 or field_property_idx < 0:
+        if field_property_idx > grid.n_properties-1 or field_property_idx < 0:
             raise ValueError(f"grid does not have property {field_property_idx}")
         if _check:
             _check_grid_detector_compatibility(self,grid,field_property_idx)
-- 
2.43.0


From dd77bde30047c95f84858fb11ef0ede5972eff1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:25 +0000
Subject: [PATCH 076/138] fix: map the requested property of a field

---
 simim/instrument/instrument.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 9d275f5..0f632c6 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -867,7 +867,8 @@ class Instrument:
 
         # Iterate through fields
         for f in field_names:
-            field = self.fields[f]
+            # Only the property being observed is mapped
+            field = self.fields[f].copy(properties=self.field_props[f])
 
             all_detector_maps = [None for i in range(len(self.detector_names))]
             
-- 
2.43.0


From 619b1b6e01b6b80914c261e5d1bff7101b75e0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:25 +0000
Subject: [PATCH 077/138] fix: make maps with a kernel size given in pixels

---
 simim/instrument/instrument.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 0f632c6..201a0e5 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -789,6 +789,9 @@ class Instrument:
         if spatial_response_norm not in ['peak','area','none']:
             raise ValueError("spatial_response_norm must be one of 'peak', 'area', 'none'")
         
+        # Use the same number of pixels along each side
+        kernel_size = np.broadcast_to(kernel_size,2)
+
         # Set up axes of beam convolution kernel
         center = [0,0,field.center_point[2]]
         side_length = [kernel_size[0]*field.pixel_size[0],kernel_size[1]*field.pixel_size[1],field.side_length[2]]
-- 
2.43.0


From 47ca4d95ab4dc7739e813d420cdee93f137adc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:25 +0000
Subject: [PATCH 078/138] fix: refuse detectors named 'instrument'

---
 simim/instrument/instrument.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 201a0e5..a46c121 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -495,6 +495,8 @@ class Instrument:
         # Set name
         if name is None:
             name = str(self.detector_counter)
+        if name == 'instrument':
+            raise ValueError("'instrument' refers to the defaults of the Instrument and cannot be used as a detector name")
         if name in self.detector_names:
             raise ValueError("Name already in use - this may be because you specified a pre-existing name or because another detector has been given a numerical name that would have been used as a default")
         
-- 
2.43.0


From d597aa7677895ea3a23a8b2491e2416ac3c4ccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:25 +0000
Subject: [PATCH 079/138] fix: compare pointing offsets of detectors given as
 lists or arrays

---
 simim/instrument/instrument.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index a46c121..bd3810f 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -505,6 +505,8 @@ class Instrument:
             pointing_offsets = (0,0)
         elif len(pointing_offsets) != 2:
             raise ValueError("pointing_offsets should be a tuple of length 2")
+        else:
+            pointing_offsets = tuple(pointing_offsets)
 
         # Invalid case - no function and no default
         if spatial_response is None and self.default_spatial_response is None:
-- 
2.43.0


From bb98ae8c7886756a29e117acae5fbb25e8b7dc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:19 +0000
Subject: [PATCH 080/138] fix: leave halos behind the observer out of light
 cones

---
 simim/lightcone/lcmaker.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 19c970e..7ff0213 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -796,6 +796,10 @@ class LCMaker(GenericLCMaker):
                                             & (candidate_distances >= iter_min_distance))
 
                         selected_indices = np.intersect1d(indices1,indices2)
+
+                        # The box can extend to behind the observer
+                        los_offset = start_distance + iter_ind*use_distance/iters - buffer_distance
+                        selected_indices = selected_indices[iter_position[selected_indices,0] + los_offset >= 0]
                         selected_distances = candidate_distances[selected_indices]
 
                         n_selected = len(selected_indices)
-- 
2.43.0


From f5b340a74a8e7ad880754a447d325f50197e3c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 081/138] fix: fix: kamenetzky16 uses the IR and FIR
 luminosities consistently

---
 simim/galprops/line_co.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simim/galprops/line_co.py b/simim/galprops/line_co.py
index 435d8cb..00b801d 100644
--- a/simim/galprops/line_co.py
+++ b/simim/galprops/line_co.py
@@ -257,7 +257,9 @@ def kamenetzky16(sfr,
     b_not         = np.array([ 0.8,  0.4,  0.9,  1.2,  2.1,  2.3,  2.8,  2.5,  2.7,  2.5,  2.7,  3.4,  2.2])
     b_sig_not     = np.array([ 0.8,  0.9,  0.4,  0.5,  0.5,  0.4,  0.4,  0.5,  0.5,  0.5,  0.6,  0.4,  0.5])
 
-    L_fir = sfr/d_mf*1e10*fircor
+    sfr = np.array(sfr, ndmin=1)
+    L_ir = sfr/d_mf*1e10
+    L_fir = L_ir*fircor
 
     a_gal = np.zeros((len(sfr), len(lines)))
     b_gal = np.zeros((len(sfr), len(lines)))
@@ -276,8 +278,8 @@ def kamenetzky16(sfr,
         a_gal[:,:] = a[lines]
         b_gal[:,:] = b[lines]
 
-    L_ir = L_ir.reshape(len(sfr),1) * np.ones((1,len(lines)))
-    log_L_co_p = (np.log10(L_ir) - b_gal) / a_gal
+    L_fir = L_fir.reshape(len(sfr),1) * np.ones((1,len(lines)))
+    log_L_co_p = (np.log10(L_fir) - b_gal) / a_gal
     L_co_p = np.power(10,log_L_co_p)
     L_co = L_co_p * 4.9e-5 * (f[lines]/constants.nu_co10)**3
 
-- 
2.43.0


From e57a08dcc9d4897de82e424942ab8f2f9c343a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 082/138] fix: look up the CI parameters of yang22 by the names
 of the CI lines

---
 simim/galprops/line_fir_yang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index 55eb1be..4a6f475 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -232,7 +232,7 @@ def _yang22_ci_fit(redshift,line):
 
     if line not in ['CI1-0','CI2-1']:
         raise ValueError('CI line not recognized')
-    pars = _yang22_ci_params[_yang22_co_params['name']==line][0]
+    pars = _yang22_ci_params[_yang22_ci_params['name']==line][0]
 
     return_scalar = np.isscalar(redshift)
     redshift = np.array(redshift)
-- 
2.43.0


From 09dad4c2cfd289995d109a6f40b12bd964aadc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 083/138] fix: sign of a CI(2-1) parameter of yang22

---
 simim/galprops/line_fir_yang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index 4a6f475..5c91f81 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -204,7 +204,7 @@ _yang22_ci_params['n4b'] = np.array([0.750,0.05632])
 _yang22_ci_params['n4c'] = np.array([-0.0807,0])
 _yang22_ci_params['n5a'] = np.array([1.89,1.48])
 _yang22_ci_params['n5b'] = np.array([5.73,6.14])
-_yang22_ci_params['n5c'] = np.array([-6.03,5.31])
+_yang22_ci_params['n5c'] = np.array([-6.03,-5.31])
 
 _yang22_ci_params['a1a'] = np.array([-0.741,-1.16])
 _yang22_ci_params['a1b'] = np.array([0.739,0.706])
-- 
2.43.0


From 9c3bf3551e6cb1a0b1d5ba1a73e293960f735dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 084/138] fix: draw the duty cycle of yang22 from the given
 generator

---
 simim/galprops/line_fir_yang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index 5c91f81..8377a84 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -57,7 +57,7 @@ def yang22(mass,redshift,line='CII',
 
     if fduty:
         f = _yang22_fduty(mass, redshift)
-        L[np.random.rand(len(L))>f] = 0
+        L[rng.random(L.shape)>f] = 0
 
     return L
 
-- 
2.43.0


From 431bef66d3e0f66d896471af44c3df0850fe2c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 085/138] fix: yang22 CO and CI lines of halos at a single
 redshift

---
 simim/galprops/line_fir_yang.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index 8377a84..b7a92e2 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -148,7 +148,7 @@ def _yang22_co_fit(redshift,line):
     pars = _yang22_co_params[_yang22_co_params['name']==line][0]
 
     return_scalar = np.isscalar(redshift)
-    redshift = np.array(redshift)
+    redshift = np.array(redshift,ndmin=1)
 
     m1 = np.zeros(len(redshift))
     m1[redshift<4.0] = (pars['m1a'] + pars['m1b']*redshift)[redshift<4.0]
@@ -235,7 +235,7 @@ def _yang22_ci_fit(redshift,line):
     pars = _yang22_ci_params[_yang22_ci_params['name']==line][0]
 
     return_scalar = np.isscalar(redshift)
-    redshift = np.array(redshift)
+    redshift = np.array(redshift,ndmin=1)
 
     m1 = np.zeros(len(redshift))
     m1[redshift<4.0] = (pars['m1a']*np.exp(-redshift/pars['m1b']) + pars['m1c'])[redshift<4.0]
-- 
2.43.0


From 836b26d805f2d949d2216bb19c646eafcb738e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 086/138] fix: duty cycle of yang22 for a single halo

---
 simim/galprops/line_fir_yang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index b7a92e2..28cc453 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -57,7 +57,7 @@ def yang22(mass,redshift,line='CII',
 
     if fduty:
         f = _yang22_fduty(mass, redshift)
-        L[rng.random(L.shape)>f] = 0
+        L = np.where(rng.random(np.shape(L))>f, 0, L)
 
     return L
 
-- 
2.43.0


From a46d0ce78d27ab920487c66be92b07d6686030ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 087/138] fix: behroozi13 draws its scatter from the given
 generator

---
 simim/galprops/sfr_behroozi13.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/sfr_behroozi13.py b/simim/galprops/sfr_behroozi13.py
index 9a291c0..0957d79 100644
--- a/simim/galprops/sfr_behroozi13.py
+++ b/simim/galprops/sfr_behroozi13.py
@@ -170,7 +170,7 @@ class behroozi13_base():
         sfrval = self.sfr_function.ev(redshift,mass)
 
         if scatter:
-            sfrval = log10normal(sfrval, sigma_scatter, preserve_linear_mean=True)
+            sfrval = log10normal(sfrval, sigma_scatter, preserve_linear_mean=True, rng=rng)
 
         return sfrval
 
@@ -210,7 +210,7 @@ class behroozi13_base():
         stellarmassval = self.stellarmass_function.ev(redshift,mass)
 
         if scatter:
-            stellarmassval = log10normal(stellarmassval, sigma_scatter, preserve_linear_mean=True)
+            stellarmassval = log10normal(stellarmassval, sigma_scatter, preserve_linear_mean=True, rng=rng)
 
         return stellarmassval
 
-- 
2.43.0


From 40b3bc2e5353c4caa4645987c21bbe4631acf4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 088/138] fix: raise the error when the behroozi13 tables are
 not set up

---
 simim/galprops/sfr_behroozi13.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/sfr_behroozi13.py b/simim/galprops/sfr_behroozi13.py
index 0957d79..4e7455c 100644
--- a/simim/galprops/sfr_behroozi13.py
+++ b/simim/galprops/sfr_behroozi13.py
@@ -159,7 +159,7 @@ class behroozi13_base():
         """
 
         if self.path is None:
-            return ValueError("model setup not complete - make sure setupsimim has been run")
+            raise ValueError("model setup not complete - make sure setupsimim has been run")
 
         if np.any(redshift > np.amax(self.grid_redshift)) and self.warn:
             warnings.warn('redshift exceeds maximum in Behroozi model range')
@@ -199,7 +199,7 @@ class behroozi13_base():
         """
 
         if self.path is None:
-            return ValueError("model setup not complete - make sure setupsimim has been run")
+            raise ValueError("model setup not complete - make sure setupsimim has been run")
 
         if np.any(redshift > np.amax(self.grid_redshift)) and self.warn:
             warnings.warn('redshift exceeds maximum in Behroozi model range')
-- 
2.43.0


From a868fd9f605f240984b619b44115ccde208253ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 089/138] fix: uzgil14 and spinoglio12 refuse unknown lines,
 document the names of the known ones

---
 simim/galprops/line_fir.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/simim/galprops/line_fir.py b/simim/galprops/line_fir.py
index 8aecd04..e365793 100644
--- a/simim/galprops/line_fir.py
+++ b/simim/galprops/line_fir.py
@@ -13,7 +13,7 @@ def delooze14(sfr,
     Most lines and galaxy subsets are included. Options for line are:
         '[CII]', '[OI]', and '[OIII]'
     Options for galaxy sets are
-        None, 'DGS', 'dwarfs', 'starbursts', 'comp/agn'
+        None, 'DGS', 'dwarfs', 'starbursts', 'comp/AGN'
     For line='[CII]' you can also select the galaxy set 'high z'.
 
     Parameters
@@ -153,7 +153,7 @@ def uzgil14(sfr,
 
     The lines available are:
         '[CII]', '[NII]', '[OI]', '[OIII]88um', '[OIII]52um',
-        '[SiII]', '[SiIII]33um', '[SiIII]19um', '[NeII]',
+        '[SiII]', '[SIII]33um', '[SIII]19um', '[NeII]',
         and '[NeIII]'
 
     Parameters
@@ -231,6 +231,8 @@ def uzgil14(sfr,
         sigma_A = 0.07
         B = 3.72
         sigma_B = 0.23
+    else:
+        raise ValueError("line not recognized")
 
     sfr = np.array(sfr, ndmin=1)
     L_ir = sfr/d_mf*1e10
@@ -258,7 +260,7 @@ def spinoglio12(sfr,
 
     The lines available are:
         '[CII]', '[NII]', '[OI]', '[OIII]88um', '[OIII]52um',
-        '[SiII]', '[SiIII]33um', '[SiIII]19um', '[NeII]',
+        '[SiII]', '[SIII]33um', '[SIII]19um', '[NeII]',
         and '[NeIII]'
 
     Parameters
@@ -335,6 +337,8 @@ def spinoglio12(sfr,
         sigma_A = 0.07
         B = 4.00
         sigma_B = 0.25
+    else:
+        raise ValueError("line not recognized")
 
     sfr = np.array(sfr, ndmin=1)
     L_ir = sfr/d_mf*1e10
-- 
2.43.0


From 4ebe4251fc50a4867863c768c1791ff5c4a73155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 090/138] fix: duty cycle of many halos at the same redshift

---
 simim/galprops/line_co_dutycycle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/line_co_dutycycle.py b/simim/galprops/line_co_dutycycle.py
index fd401cb..4c11340 100644
--- a/simim/galprops/line_co_dutycycle.py
+++ b/simim/galprops/line_co_dutycycle.py
@@ -23,7 +23,7 @@ def f_duty(sf_length,redshift,cosmo):
     """
 
     redshift = np.array(redshift, ndmin=1)
-    if redshift.size>100:
+    if redshift.size>100 and np.amin(redshift)<np.amax(redshift):
         redshift_nodes = np.linspace(np.amin(redshift),np.amax(redshift))
         age_nodes = cosmo.age(redshift_nodes).value
         age_spline = interp1d(redshift_nodes,age_nodes)
-- 
2.43.0


From e8cdf30653209e6943ebf5b1e60d0b54e5ec7422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 091/138] fix: Schechter function integrals for arrays of
 parameters

---
 simim/galprops/galprops_am.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index 534f644..a1b16af 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -389,6 +389,7 @@ class schechter_gen(rv_continuous):
             gp[c3] = gamma(amod[c3]) * gammaincc(amod[c3], x[c3])
 
         elif np.asarray(x).size == 1:
+            x = np.full(a.shape, x)
             gp = np.zeros(a.shape)
             c1 = np.asarray(a) > 0
             c2 = (np.asarray(a) <= 0) & (np.asarray(amod)==0)
@@ -408,7 +409,8 @@ class schechter_gen(rv_continuous):
                 gp = (gp - x**(amod-(i+1))*np.exp(-x)) / (amod - (i+1))
 
             else:
-                gp[n>1] = (gp[n>1] - x**(amod[n>1]-(i+1))*np.exp(-x[n>1])) / (amod[n>1] - (i+1))
+                c = n > i
+                gp[c] = (gp[c] - x[c]**(amod[c]-(i+1))*np.exp(-x[c])) / (amod[c] - (i+1))
 
         return gp
     
@@ -531,6 +533,7 @@ class double_schechter_gen(rv_continuous):
             gp[c3] = gamma(amod[c3]) * gammaincc(amod[c3], x[c3])
 
         elif np.asarray(x).size == 1:
+            x = np.full(a.shape, x)
             gp = np.zeros(a.shape)
             c1 = np.asarray(a) > 0
             c2 = (np.asarray(a) <= 0) & (np.asarray(amod)==0)
@@ -550,7 +553,8 @@ class double_schechter_gen(rv_continuous):
                 gp = (gp - x**(amod-(i+1))*np.exp(-x)) / (amod - (i+1))
 
             else:
-                gp[n>1] = (gp[n>1] - x**(amod[n>1]-(i+1))*np.exp(-x[n>1])) / (amod[n>1] - (i+1))
+                c = n > i
+                gp[c] = (gp[c] - x[c]**(amod[c]-(i+1))*np.exp(-x[c])) / (amod[c] - (i+1))
 
         return gp
     
-- 
2.43.0


From 07b97d6e7b035f19409251e8b337b1946c5e80c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 092/138] fix: Schechter function integrals from below the
 minimum

---
 simim/galprops/galprops_am.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index a1b16af..7f5cb23 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -327,12 +327,8 @@ class schechter_gen(rv_continuous):
         return phi
 
     def lum_function_int(self, x, x0, alpha, phi0, xmin):
+        x = np.maximum(x, xmin)
         int = phi0 * self._uppergammamod(alpha+1, x/x0)
-        if np.asarray(x).ndim > 0:
-            int[x<xmin] = phi0 * self._uppergammamod(alpha+1, xmin/x0)
-        else:
-            if x<xmin:
-                int = 1
 
         return int
 
@@ -471,12 +467,8 @@ class double_schechter_gen(rv_continuous):
         return phi
 
     def lum_function_int(self, x, x0, alpha1, phi1, alpha2, phi2, xmin):
+        x = np.maximum(x, xmin)
         int = phi1 * self._uppergammamod(alpha1+1, x/x0) + phi2 * self._uppergammamod(alpha2+1,x/x0)
-        if np.asarray(x).ndim > 0:
-            int[x<xmin] = phi1 * self._uppergammamod(alpha1+1, xmin/x0) + phi2 * self._uppergammamod(alpha2+1,xmin/x0)
-        else:
-            if x<xmin:
-                int = 1
 
         return int
 
-- 
2.43.0


From 1cc54590586ea24b82b24570c63c06ec088b4fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 093/138] fix: normalize the pdf of Schechter functions

---
 simim/galprops/galprops_am.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index 7f5cb23..888965a 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -412,7 +412,7 @@ class schechter_gen(rv_continuous):
     
     def _pdf(self, x, x0, alpha, phi0, xmin):
         norm = self.lum_function_int(xmin, x0, alpha, phi0, xmin)
-        p = self.lum_function(x, x0, alpha, phi0, xmin)
+        p = self.lum_function(x, x0, alpha, phi0, xmin) / norm
         p[x<xmin] = 0
 
         return p
@@ -552,7 +552,7 @@ class double_schechter_gen(rv_continuous):
     
     def _pdf(self, x, x0, alpha1, phi1, alpha2, phi2, xmin):
         norm = self.lum_function_int(xmin, x0, alpha1, phi1, alpha2, phi2, xmin)
-        p = self.lum_function(x, x0, alpha1, phi1, alpha2, phi2, xmin)
+        p = self.lum_function(x, x0, alpha1, phi1, alpha2, phi2, xmin) / norm
         p[x<xmin] = 0
 
         return p
-- 
2.43.0


From bda6df5990b572707fa920eaf00668774b62e318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 094/138] fix: luminosity functions of a single luminosity

---
 simim/galprops/galprops_am.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index 888965a..cba2d0a 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -605,7 +605,7 @@ class modified_schechter_gen(rv_continuous):
         '''Returns modified schechter function.
         suitable for integration in d log L space'''
         phi = phi0 * (x/x0)**(1-alpha) * np.exp(-1/(2*sigma**2) * np.log10(1+x/x0)**2)
-        phi[x < xmin] = 0
+        phi = np.where(x < xmin, 0, phi)[()]
         return phi
 
     def lum_function_int(self, x, phi0, x0, alpha, sigma, xmin):
@@ -683,7 +683,7 @@ class double_power_law_gen(rv_continuous):
     def lum_function(self, x, phi0, x0, alpha, beta, xmin):
         '''Returns double power law function.'''
         phi = phi0 * ((x/x0)**(alpha) + (x/x0)**beta)**-1
-        phi[x < xmin] = 0
+        phi = np.where(x < xmin, 0, phi)[()]
         return phi
 
     def lum_function_int(self, x, phi0, x0, alpha, beta, xmin):
-- 
2.43.0


From 49b406020dcc162e61b9abed8e747f2276d1b19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 095/138] fix: pdf of functions defined per logarithmic
 interval

---
 simim/galprops/galprops_am.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index cba2d0a..07c7193 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -628,7 +628,8 @@ class modified_schechter_gen(rv_continuous):
         norm = self.lum_function_int(xmin, phi0, x0, alpha, sigma, xmin)
 
         p = self.lum_function(np.asarray(x), phi0, x0, alpha, sigma, xmin) / norm
-        return p
+        # The luminosity function is per d log10(x), the pdf is per dx
+        return p / (x * np.log(10))
     
     def _cdf(self, x, phi0, x0, alpha, sigma, xmin):
         if np.asarray(phi0).ndim > 0:
@@ -706,7 +707,8 @@ class double_power_law_gen(rv_continuous):
         norm = self.lum_function_int(xmin, phi0, x0, alpha, beta, xmin)
 
         p = self.lum_function(np.asarray(x), phi0, x0, alpha, beta, xmin) / norm
-        return p
+        # The luminosity function is per d log10(x), the pdf is per dx
+        return p / (x * np.log(10))
     
     def _cdf(self, x, phi0, x0, alpha, beta, xmin):
         if np.asarray(phi0).ndim > 0:
-- 
2.43.0


From 822a84c59b443d168b398e38d2287b793a7f1791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 096/138] fix: cdf and ppf of luminosity functions invert each
 other

---
 simim/galprops/galprops_am.py | 38 ++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index 07c7193..b5780a8 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -608,10 +608,19 @@ class modified_schechter_gen(rv_continuous):
         phi = np.where(x < xmin, 0, phi)[()]
         return phi
 
-    def lum_function_int(self, x, phi0, x0, alpha, sigma, xmin):
+    def _integrate(self, phi0, x0, alpha, sigma, xmin):
+        '''Integral of the luminosity function above each of a set of points'''
         xint = np.logspace(np.log10(xmin),np.log10(xmin)+20,10001)
         xdif = np.log10(xint[1]) - np.log10(xint[0])
-        yint = np.cumsum(self.lum_function(xint[::-1], phi0, x0, alpha, sigma, xmin))[::-1] * xdif
+        xint[0] = xmin # Not affected by rounding
+        phi = self.lum_function(xint, phi0, x0, alpha, sigma, xmin)
+        steps = (phi[1:] + phi[:-1]) / 2 * xdif
+        yint = np.append(np.cumsum(steps[::-1])[::-1], 0)
+
+        return xint, yint
+
+    def lum_function_int(self, x, phi0, x0, alpha, sigma, xmin):
+        xint, yint = self._integrate(phi0, x0, alpha, sigma, xmin)
         
         int = np.interp(x, xint, yint)
 
@@ -654,10 +663,8 @@ class modified_schechter_gen(rv_continuous):
             sigma = np.asarray(sigma)[0]
             xmin = np.asarray(xmin)[0]
         
-        xint = np.logspace(np.log10(xmin),np.log10(xmin)+20,10001)
-        xdif = np.log10(xint[1]) - np.log10(xint[0])
-        yint = np.cumsum(self.lum_function(xint, phi0, x0, alpha, sigma, xmin)) * xdif
-        yint /= yint[-1]
+        xint, yint = self._integrate(phi0, x0, alpha, sigma, xmin)
+        yint = 1 - yint / yint[0]
         
         return np.interp(cdf, yint, xint)
 
@@ -687,10 +694,19 @@ class double_power_law_gen(rv_continuous):
         phi = np.where(x < xmin, 0, phi)[()]
         return phi
 
-    def lum_function_int(self, x, phi0, x0, alpha, beta, xmin):
+    def _integrate(self, phi0, x0, alpha, beta, xmin):
+        '''Integral of the luminosity function above each of a set of points'''
         xint = np.logspace(np.log10(xmin),np.log10(xmin)+20,10001)
         xdif = np.log10(xint[1]) - np.log10(xint[0])
-        yint = np.cumsum(self.lum_function(xint[::-1], phi0, x0, alpha, beta, xmin))[::-1] * xdif
+        xint[0] = xmin # Not affected by rounding
+        phi = self.lum_function(xint, phi0, x0, alpha, beta, xmin)
+        steps = (phi[1:] + phi[:-1]) / 2 * xdif
+        yint = np.append(np.cumsum(steps[::-1])[::-1], 0)
+
+        return xint, yint
+
+    def lum_function_int(self, x, phi0, x0, alpha, beta, xmin):
+        xint, yint = self._integrate(phi0, x0, alpha, beta, xmin)
         
         int = np.interp(x, xint, yint)
 
@@ -733,10 +749,8 @@ class double_power_law_gen(rv_continuous):
             beta = np.asarray(beta)[0]
             xmin = np.asarray(xmin)[0]
         
-        xint = np.logspace(np.log10(xmin),np.log10(xmin)+20,10001)
-        xdif = np.log10(xint[1]) - np.log10(xint[0])
-        yint = np.cumsum(self.lum_function(xint, phi0, x0, alpha, beta, xmin)) * xdif
-        yint /= yint[-1]
+        xint, yint = self._integrate(phi0, x0, alpha, beta, xmin)
+        yint = 1 - yint / yint[0]
         
         return np.interp(cdf, yint, xint)
 
-- 
2.43.0


From cbd12c7e6b50f301a27b03ab592a3cfab7b3ab60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 097/138] fix: fill values of the first property in am_dfdf

---
 simim/galprops/galprops_am.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index b5780a8..beb20ce 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -246,13 +246,13 @@ def am_dfdf(prop1_rv:rv_continuous, prop2_rv:rv_continuous,
         if np.asarray(cum1).ndim > 0:
             ppf = np.zeros(len(cum1))
             ppf[(cum1>missing_pmass_low_p1) & (cum1<(1-missing_pmass_high_p1))] = prop1_rv.ppf(cstar[(cum1>missing_pmass_low_p1) & (cum1<(1-missing_pmass_high_p1))])
-            ppf[cum1<missing_pmass_low_p1] = fillers[2]
-            ppf[cum1>(1-missing_pmass_high_p1)] = fillers[3]
+            ppf[cum1<missing_pmass_low_p1] = fillers[0]
+            ppf[cum1>(1-missing_pmass_high_p1)] = fillers[1]
         else:
             if cum1<missing_pmass_low_p1:
-                ppf = fillers[2]
+                ppf = fillers[0]
             elif cum1>1-missing_pmass_high_p1:
-                ppf = fillers[3]
+                ppf = fillers[1]
             else:
                 ppf = prop1_rv.ppf(cstar)
     
-- 
2.43.0


From a6e4d653f16dc4eb72fcf74dc67312703baa23a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 098/138] fix: use the luminosity function parameters given to
 g13irlf_base

---
 simim/galprops/sfr_ir.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/simim/galprops/sfr_ir.py b/simim/galprops/sfr_ir.py
index 7c9e6e5..7f0b7a5 100644
--- a/simim/galprops/sfr_ir.py
+++ b/simim/galprops/sfr_ir.py
@@ -58,9 +58,6 @@ class g13irlf_base():
         
         self.path = paths.props[self.name]
 
-        self.init_lir_function = False
-        self._load_lir_function(comp=comp, remake=remake, haloprop=haloprop, halomassmin=halomassmin, lirmin=lirmin)
-
         # Save pars
         self.lf_alpha0 = lf_alpha0
         self.lf_sigma0 = lf_sigma0
@@ -69,6 +66,9 @@ class g13irlf_base():
 
         self.lir_to_sfr = lir_to_sfr
 
+        self.init_lir_function = False
+        self._load_lir_function(comp=comp, remake=remake, haloprop=haloprop, halomassmin=halomassmin, lirmin=lirmin)
+
     def _load_lir_function(self, comp, remake, haloprop, halomassmin, lirmin):
         """Load or compute halo mass-ir luminosity relation"""
 
@@ -140,15 +140,17 @@ class g13irlf_base():
         np.save(os.path.join(self.path,'redshift_axis.npy'), zgrid)
         np.save(os.path.join(self.path,'lir.npy'), irgrid.T)
 
-    def get_irlf_pars(self, z, alpha0=1.2, sigma0=0.5, lstar0=10**9.95, phistar0=10**-2.25):
+    def get_irlf_pars(self, z, alpha0=None, sigma0=None, lstar0=None, phistar0=None):
         """Use the redshift scaling from Gruppioni et al. 2013 to get IRLF parameters"""
         if alpha0 is None:
             alpha0 = self.lf_alpha0
+        if sigma0 is None:
             sigma0 = self.lf_sigma0
+        if lstar0 is None:
             lstar0 = self.lf_lstar0
+        if phistar0 is None:
             phistar0 = self.lf_phistar0
 
-
         if np.asarray(z).ndim > 0:
             alpha = alpha0 * np.ones(len(z))
             sigma = sigma0 * np.ones(len(z))
-- 
2.43.0


From d1f39c83ebac8baee37f08a863d1ef6ef4a53aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 099/138] fix: abundance matching for simulations without a
 snapshot 0

---
 simim/galprops/sfr_bethermin17.py | 2 +-
 simim/galprops/sfr_ir.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/sfr_bethermin17.py b/simim/galprops/sfr_bethermin17.py
index eba84a3..b80fdf4 100644
--- a/simim/galprops/sfr_bethermin17.py
+++ b/simim/galprops/sfr_bethermin17.py
@@ -175,7 +175,7 @@ class bethermin17_base():
         if haloprop not in ['vmax','mass','auto']:
             raise ValueError("haloprop used for abundance matching must be one of 'vmax', 'mass', 'auto'")
         if haloprop == 'auto':
-            snap0 = handler.get_snap(0)
+            snap0 = handler.get_snap(handler.snap_meta['index'][0])
             if snap0.has_property('vmax'):
                 haloprop = 'vmax'
             elif snap0.has_property('mass'):
diff --git a/simim/galprops/sfr_ir.py b/simim/galprops/sfr_ir.py
index 7f0b7a5..760cfcd 100644
--- a/simim/galprops/sfr_ir.py
+++ b/simim/galprops/sfr_ir.py
@@ -93,7 +93,7 @@ class g13irlf_base():
         if haloprop not in ['vmax','mass','auto']:
             raise ValueError("haloprop used for abundance matching must be one of 'vmax', 'mass', 'auto'")
         if haloprop == 'auto':
-            snap0 = handler.get_snap(0)
+            snap0 = handler.get_snap(handler.snap_meta['index'][0])
             if snap0.has_property('vmax'):
                 haloprop = 'vmax'
             elif snap0.has_property('mass'):
-- 
2.43.0


From 52e5a12baacf5fc92db46de36d70e9f3295ffa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 100/138] fix: interrupted abundance matching leaves no
 incomplete or mixed files

---
 simim/galprops/sfr_bethermin17.py | 7 ++++++-
 simim/galprops/sfr_ir.py          | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/sfr_bethermin17.py b/simim/galprops/sfr_bethermin17.py
index b80fdf4..b8f8ecf 100644
--- a/simim/galprops/sfr_bethermin17.py
+++ b/simim/galprops/sfr_bethermin17.py
@@ -220,9 +220,14 @@ class bethermin17_base():
                 smgrid[i] = mstarofhalo(halopropgrid)
         print()
 
+        # stellarmass.npy marks the files as complete - remove it first, write it last
+        smfile = os.path.join(self.path,'stellarmass.npy')
+        if os.path.exists(smfile):
+            os.remove(smfile)
         np.save(os.path.join(self.path,'mass_axis.npy'), halopropgrid)
         np.save(os.path.join(self.path,'redshift_axis.npy'), zgrid)
-        np.save(os.path.join(self.path,'stellarmass.npy'), smgrid.T)
+        np.save(os.path.join(self.path,'stellarmass_tmp.npy'), smgrid.T)
+        os.replace(os.path.join(self.path,'stellarmass_tmp.npy'), smfile)
 
     def b17_smfpars(self, z, cosmo):
         """Update parameters to a chosen cosmology"""
diff --git a/simim/galprops/sfr_ir.py b/simim/galprops/sfr_ir.py
index 760cfcd..58bdac6 100644
--- a/simim/galprops/sfr_ir.py
+++ b/simim/galprops/sfr_ir.py
@@ -136,9 +136,14 @@ class g13irlf_base():
                 lirofhalo, _ = am_dfcat(snap_haloprop,df_freeze,missing_pmass_low_p1=missing_pmass_low_p1,missing_pmass_low_p2=missing_pmass_low_p2)
                 irgrid[i] = lirofhalo(halopropgrid)
 
+        # lir.npy marks the files as complete - remove it first, write it last
+        lirfile = os.path.join(self.path,'lir.npy')
+        if os.path.exists(lirfile):
+            os.remove(lirfile)
         np.save(os.path.join(self.path,'mass_axis.npy'), halopropgrid)
         np.save(os.path.join(self.path,'redshift_axis.npy'), zgrid)
-        np.save(os.path.join(self.path,'lir.npy'), irgrid.T)
+        np.save(os.path.join(self.path,'lir_tmp.npy'), irgrid.T)
+        os.replace(os.path.join(self.path,'lir_tmp.npy'), lirfile)
 
     def get_irlf_pars(self, z, alpha0=None, sigma0=None, lstar0=None, phistar0=None):
         """Use the redshift scaling from Gruppioni et al. 2013 to get IRLF parameters"""
-- 
2.43.0


From 08f4f5faed86a1cb7515d6faa333239bede7d88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 101/138] fix: interrupted setup of the behroozi13 tables is
 repeated

---
 simim/galprops/sfr_behroozi13.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simim/galprops/sfr_behroozi13.py b/simim/galprops/sfr_behroozi13.py
index 4e7455c..4714fba 100644
--- a/simim/galprops/sfr_behroozi13.py
+++ b/simim/galprops/sfr_behroozi13.py
@@ -95,10 +95,12 @@ class behroozi13_base():
 
         sfr = np.power(10,sfr)
 
-        np.save(os.path.join(self.path,'sfr.npy'),sfr)
+        # sfr.npy marks the files as complete - write it last
         np.save(os.path.join(self.path,'stellarmass.npy'),stellarmass)
         np.save(os.path.join(self.path,'mass_axis.npy'),mass)
         np.save(os.path.join(self.path,'redshift_axis.npy'),redshift)
+        np.save(os.path.join(self.path,'sfr_tmp.npy'),sfr)
+        os.replace(os.path.join(self.path,'sfr_tmp.npy'),os.path.join(self.path,'sfr.npy'))
 
     @pltdeco
     def plot_grid(self,prop='sfr'):
-- 
2.43.0


From 0903b40fa5d7c7c21297d26fbd5afb2d2c82f1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 102/138] fix: leave the plot keywords of the caller unchanged

---
 simim/_handlers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 5d878d6..4de6e4c 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -604,6 +604,7 @@ class Handler():
         fig.subplots_adjust(left=.15,right=.95,bottom=.15,top=.95)
         ax.set(**axkws)
         
+        plotkws = dict(plotkws)
         if 'ls' not in plotkws and 'linestyle' not in plotkws:
             plotkws['ls'] = ''
         if 'marker' not in plotkws:
-- 
2.43.0


From 8fe598c0cd098973b97e22cb2020022b089f4a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 103/138] fix: visualize grids with the axes in any order

---
 simim/map/gridder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index e6b1d7c..cc3e96e 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1878,6 +1878,10 @@ class Grid():
                     slice_idx += 1
             image = self.grid[tuple(slices)][:,:,property]
 
+        # The remaining axes are in the order of the grid
+        if ax[0] > ax[1]:
+            image = image.T
+
         cb=plot.pcolor(self.axes[ax[0]],self.axes[ax[1]],image.real.T,**plotkws)
         fig.colorbar(cb)
         plt.show()
-- 
2.43.0


From fd1faf5b09ba8553fe434dddc25c488bb03e8c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 104/138] fix: still pictures of grids

---
 simim/map/gridder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index cc3e96e..03198d1 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -2002,7 +2002,8 @@ class Grid():
                 plt.savefig(save)
 
         plt.show()
-        return anim
+        if not still:
+            return anim
 
 
 
-- 
2.43.0


From ceb213a3345cf6b0e791189fad7d9ede1835e388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 105/138] fix: animate complex grids

---
 simim/map/gridder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 03198d1..6251096 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1937,11 +1937,11 @@ class Grid():
 
         # Determine property range allowed
         if logscale:
-            vmax = np.log10(np.amax(self.grid[...,prop_ind]))
+            vmax = np.log10(np.amax(self.grid[...,prop_ind].real))
             vmin = vmax-10
         else:
-            vmin = minrescale*np.amin(self.grid[...,prop_ind])
-            vmax = maxrescale*np.amax(self.grid[...,prop_ind])
+            vmin = minrescale*np.amin(self.grid[...,prop_ind].real)
+            vmax = maxrescale*np.amax(self.grid[...,prop_ind].real)
 
         # Set up plots
         figure = plt.figure(figsize=(10,5))
-- 
2.43.0


From 2ff0cc13b4b7544a65592ed33a447e2cabd6c07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 106/138] fix: animate grids with more than three dimensions
 along any of them

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 6251096..36a9f30 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1969,7 +1969,7 @@ class Grid():
         plot_face.set_title('Axis {} = {:.2f}'.format(slide_dim,slide_ax[0]))
         # plot_face.set(xlabel='Axis {}'.format(face_dims[0]),ylabel='Axis {}'.format(face_dims[1]))
 
-        map_face = np.take(np.sum(self.grid[...,prop_ind].real,axis=tuple(flatten_dims)),indices=i0,axis=slide_dim)
+        map_face = np.sum(np.take(self.grid[...,[prop_ind]].real,indices=[i0],axis=slide_dim),axis=(slide_dim,*flatten_dims))[...,0]
         if face_dims[0] < face_dims[1]:
             map_face = map_face.T
         if logscale:
@@ -1985,7 +1985,7 @@ class Grid():
             plot_face.set_title('Axis {} = {:.2f}'.format(slide_dim,slide_ax[i]))
             box.set_data([ax0[i],ax0[i],ax0[i+1],ax0[i+1],ax0[i]],
                          [ax2[0],ax2[-1],ax2[-1],ax2[0],ax2[0]])
-            map_face = np.take(np.sum(self.grid[...,prop_ind].real,axis=tuple(flatten_dims)),indices=i,axis=slide_dim)
+            map_face = np.sum(np.take(self.grid[...,[prop_ind]].real,indices=[i],axis=slide_dim),axis=(slide_dim,*flatten_dims))[...,0]
             if face_dims[0] < face_dims[1]:
                 map_face = map_face.T
             if logscale:
-- 
2.43.0


From 0a9fa8109eb221d7af167fcc7d4ba6379d1e19df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 107/138] fix: title of the first picture of a grid

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 36a9f30..31db6be 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1966,7 +1966,7 @@ class Grid():
                      [ax2[0],ax2[-1],ax2[-1],ax2[0],ax2[0]])
 
         plot_face = plt.subplot(122)
-        plot_face.set_title('Axis {} = {:.2f}'.format(slide_dim,slide_ax[0]))
+        plot_face.set_title('Axis {} = {:.2f}'.format(slide_dim,slide_ax[i0]))
         # plot_face.set(xlabel='Axis {}'.format(face_dims[0]),ylabel='Axis {}'.format(face_dims[1]))
 
         map_face = np.sum(np.take(self.grid[...,[prop_ind]].real,indices=[i0],axis=slide_dim),axis=(slide_dim,*flatten_dims))[...,0]
-- 
2.43.0


From 24836cdd2bf3d18f79fe1ba87eb65748c080dd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 108/138] fix: default frequency range of
 plot_spectral_response

---
 simim/instrument/instrument.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index bd3810f..e0a7d0e 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -1090,9 +1090,9 @@ class Instrument:
         """
     
         if fmin is None:
-            fmin = 0.9 * np.min([d.reffreq for d in self.detectors.values])
+            fmin = 0.9 * np.min([d.reffreq for d in self.detectors.values()])
         if fmax is None:
-            fmax = 1.1 * np.max([d.reffreq for d in self.detectors.values])
+            fmax = 1.1 * np.max([d.reffreq for d in self.detectors.values()])
 
         fig,axes = plt.subplots(1,1,figsize=figsize)
         fig.subplots_adjust(left=.1,right=.95,top=.95,bottom=.15,wspace=.35)
-- 
2.43.0


From 27ded86d9824f146f642a0548fbcd35b66f6b821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 109/138] fix: orientation of spatial responses in
 plot_detector_response

---
 simim/instrument/instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index e0a7d0e..a17a27d 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -1071,7 +1071,7 @@ class Instrument:
 
             x = np.linspace(xmin,xmax,100)
             y = np.linspace(ymin,ymax,100)
-            axes[1].pcolor(x,y,d.spatial_response(x,y,fs_d,**d.spatial_kwargs)[:,:,0],vmin=0)
+            axes[1].pcolor(x,y,d.spatial_response(x,y,fs_d,**d.spatial_kwargs)[:,:,0].T,vmin=0)
 
         plt.show()
 
-- 
2.43.0


From 48b38cec1656ef54c35add34b49805a4b7e18160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 110/138] fix: animate light cones in consistent units

---
 simim/lightcone/lchandler.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 629214a..56d6331 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -366,9 +366,10 @@ class LCHandler(Handler):
         redshift = self.return_property('redshift',use_all_inds=use_all_inds,in_h_units=in_h_units)
 
         # Get limits
-        phys_lim_xy = self.cosmo.comoving_transverse_distance(self.metadata['maximum redshift']).value * self.h * self.metadata['open angle']
-        phys_lim_zmax = self.cosmo.comoving_distance(self.metadata['maximum redshift']).value * self.h
-        phys_lim_zmin = self.cosmo.comoving_distance(self.metadata['minimum redshift']).value * self.h
+        h = self.h if in_h_units else 1 # The limits have to be in the units of the positions
+        phys_lim_xy = self.cosmo.comoving_transverse_distance(self.metadata['maximum redshift']).value * h * self.metadata['open angle']
+        phys_lim_zmax = self.cosmo.comoving_distance(self.metadata['maximum redshift']).value * h
+        phys_lim_zmin = self.cosmo.comoving_distance(self.metadata['minimum redshift']).value * h
         obs_lim_xy = self.metadata['open angle'] * 180/np.pi*60
         obs_lim_zmax = self.metadata['maximum redshift']
         obs_lim_zmin = self.metadata['minimum redshift']
@@ -463,7 +464,7 @@ class LCHandler(Handler):
 
         def animate(i):
             #title
-            redshift = z_at_value(self.cosmo.comoving_distance, (phys_lim_zmin+step*(i+.5))*u.Mpc)
+            redshift = z_at_value(self.cosmo.comoving_distance, (phys_lim_zmin+step*(i+.5))/h*u.Mpc)
             title.set_text('redshift = {:.2f}'.format(redshift))
 
             #animate p1
@@ -481,7 +482,7 @@ class LCHandler(Handler):
             #animate p3
             radec_scatter.set_sizes(new_sizes)
 
-            r = self.cosmo.comoving_transverse_distance(redshift) * self.metadata['open angle']/2
+            r = self.cosmo.comoving_transverse_distance(redshift).value * h * self.metadata['open angle']/2
             if outline == 'circle':
                 xy_outline.set_data(r*np.cos(theta),r*np.sin(theta))
             else:
-- 
2.43.0


From 54fd368bccf239c0dc0eceee5f949dc986c2c163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 111/138] fix: visualize grids in Fourier space at their
 frequencies

---
 simim/map/gridder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 31db6be..539df39 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1882,7 +1882,8 @@ class Grid():
         if ax[0] > ax[1]:
             image = image.T
 
-        cb=plot.pcolor(self.axes[ax[0]],self.axes[ax[1]],image.real.T,**plotkws)
+        edges = [self.fourier_axes[i] if self.fourier_space[i] else self.axes[i] for i in ax]
+        cb=plot.pcolor(edges[0],edges[1],image.real.T,**plotkws)
         fig.colorbar(cb)
         plt.show()
 
-- 
2.43.0


From e02f668a31c203dd0c943054d8a3b7f1fa32f38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 112/138] fix: plot spatial responses written for arrays of
 frequencies

---
 simim/instrument/instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index a17a27d..67340de 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -1071,7 +1071,7 @@ class Instrument:
 
             x = np.linspace(xmin,xmax,100)
             y = np.linspace(ymin,ymax,100)
-            axes[1].pcolor(x,y,d.spatial_response(x,y,fs_d,**d.spatial_kwargs)[:,:,0].T,vmin=0)
+            axes[1].pcolor(x,y,d.spatial_response(x,y,np.array([fs_d]),**d.spatial_kwargs)[:,:,0].T,vmin=0)
 
         plt.show()
 
-- 
2.43.0


From 900b8d877d3e5b6e64b52e3756d7191babb3d6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 113/138] fix: order of the detectors in plot_spectral_response

---
 simim/instrument/instrument.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 67340de..080f491 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -1108,8 +1108,8 @@ class Instrument:
         else: 
             cmap = colormaps['Spectral']
 
-        order = np.argsort(self.detector_freqs)
-        for i in np.argsort(self.detector_freqs):
+        detector_freqs = [self.detectors[dn].reffreq for dn in self.detector_names]
+        for i in np.argsort(detector_freqs):
             d = self.detectors[self.detector_names[i]]
             axes.plot(f, d.spectral_response(f, **d.spectral_kwargs), color=cmap(i/(len(self.detectors)-.99)))
 
-- 
2.43.0


From 02f6308580c41781d4020cb264c3f2bbcbc97477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 114/138] fix: animate light cones with current versions of
 matplotlib

---
 simim/lightcone/lchandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 56d6331..db37314 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -459,7 +459,7 @@ class LCHandler(Handler):
             radec_scatter.set_sizes(np.zeros(len(x)))
 
         step = 50
-        nsteps = np.ceil((phys_lim_zmax-phys_lim_zmin)/step).astype('int')
+        nsteps = int(np.ceil((phys_lim_zmax-phys_lim_zmin)/step)) # matplotlib wants an int
         step = np.ceil((phys_lim_zmax-phys_lim_zmin)/nsteps).astype('int')
 
         def animate(i):
-- 
2.43.0


From 84a3b6d613aa5305afaab0285e0b14d349576da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 115/138] fix: draw the edge-on picture of grid animations at
 the place of the pixels

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 539df39..8310b98 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1920,7 +1920,7 @@ class Grid():
         if self.fourier_space[slide_dim]:
             ax0 = self.fourier_axes_centers[slide_dim]
         else:
-            ax0 = self.axes_centers[slide_dim] - self.pixel_size[slide_dim]/2
+            ax0 = self.axes_centers[slide_dim]
         slide_ax = np.copy(ax0)
         ax0 = _axis_edges(np.copy(ax0))
 
-- 
2.43.0


From 367e87e57fd13bb1644d5748295f63745e40a363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:17 +0000
Subject: [PATCH 116/138] fix: collapsed grids have their own axes

---
 simim/map/gridder.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 8310b98..40212b8 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1361,10 +1361,10 @@ class Grid():
 
             # Update grid
             newgrid.n_pixels = self.n_pixels[ax_keep]
-            newgrid.axes = [self.axes[i] for i in range(self.n_dimensions) if i not in ax]
-            newgrid.axes_centers = [self.axes_centers[i] for i in range(self.n_dimensions) if i not in ax]
-            newgrid.fourier_axes = [self.fourier_axes[i] for i in range(self.n_dimensions) if i not in ax]
-            newgrid.fourier_axes_centers = [self.fourier_axes_centers[i] for i in range(self.n_dimensions) if i not in ax]
+            newgrid.axes = [np.copy(self.axes[i]) for i in range(self.n_dimensions) if i not in ax]
+            newgrid.axes_centers = [np.copy(self.axes_centers[i]) for i in range(self.n_dimensions) if i not in ax]
+            newgrid.fourier_axes = [np.copy(self.fourier_axes[i]) for i in range(self.n_dimensions) if i not in ax]
+            newgrid.fourier_axes_centers = [np.copy(self.fourier_axes_centers[i]) for i in range(self.n_dimensions) if i not in ax]
 
             newgrid.axunits = self.axunits[ax_keep]
             newgrid.fourier_axunits = self.fourier_axunits[ax_keep]
-- 
2.43.0


From 13cf7551651579fad4fee17eb84eb8d525ac222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:17 +0000
Subject: [PATCH 117/138] fix: axes returned by spherical_average are not those
 of the grid

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 40212b8..ed8b2e3 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1755,7 +1755,7 @@ class Grid():
         keep_axes[ax] = False
         shape = [len(shells)-1] + [self.n_pixels[i_ax] for i_ax in range(self.n_dimensions) if keep_axes[i_ax]] + [self.n_properties]
         binned_shape = tuple(shape)
-        binned_axes = [shells] + [axvals[i_ax] for i_ax in range(self.n_dimensions) if keep_axes[i_ax]] + [np.arange(self.n_properties)]
+        binned_axes = [shells] + [np.copy(axvals[i_ax]) for i_ax in range(self.n_dimensions) if keep_axes[i_ax]] + [np.arange(self.n_properties)]
 
         # Determine the correct bin for each cell - digitize data into shells
         # and then get indices of dimensions that aren't being flattened
-- 
2.43.0


From 1307160682835904a9084cc5a378f5cb521d5e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:17 +0000
Subject: [PATCH 118/138] fix: changing a list of keys does not change the
 handler

---
 simim/_handlers.py               | 6 +++---
 simim/siminterface/simhandler.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 4de6e4c..1afcd37 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -91,13 +91,13 @@ class Handler():
         """
 
         if set == 'any':
-            return self.properties_all
+            return list(self.properties_all)
         elif set == 'loaded':
             return [k for k in self.properties_loaded.keys()]
         elif set == 'saved':
-            return self.properties_saved
+            return list(self.properties_saved)
         elif set == 'generated':
-            return self.properties_generated
+            return list(self.properties_generated)
         else:
             raise ValueError("set not recognized")
 
diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 91feb17..71135d5 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -380,7 +380,7 @@ class SimHandler():
             The fields of each snapshot
         """
 
-        return self.keys
+        return list(self.keys)
 
     def get_mass_index(self,mass,snap,in_h_units=None):
         """Find the indices above a specified mass
-- 
2.43.0


From 46168fefbf2cb7ae59f1c4331f3024e8f943d81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:02 +0000
Subject: [PATCH 119/138] fix: changing the lists given to a property does not
 change the property

---
 simim/galprops/galprops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/galprops.py b/simim/galprops/galprops.py
index 36a6d10..69c7168 100644
--- a/simim/galprops/galprops.py
+++ b/simim/galprops/galprops.py
@@ -46,7 +46,7 @@ class MultiProp():
             returned), this should be set to True - or just use the prop class
         """
 
-        self.names = prop_names
+        self.names = list(prop_names)
         self.n_props = len(prop_names)
         if self.n_props == 1 and wrap:
             self.wrap = True
@@ -54,7 +54,7 @@ class MultiProp():
             self.wrap = False
 
         self.prop_function = prop_function
-        self.kwargs = kwargs
+        self.kwargs = list(kwargs)
         if len(units)==1:
             self.units = {key:units[0] for key in self.names}
         elif len(units)==len(self.names):
-- 
2.43.0


From 808919d1de46c88417b2aee68a8c283159502e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:49 +0000
Subject: [PATCH 120/138] fix: a failure while writing a property does not lose
 or damage the saved one

---
 simim/_handlers.py | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 1afcd37..a9ac263 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -391,17 +391,32 @@ class Handler():
                 else:
                     raise ValueError("Property {} already exists".format(property_name))
 
+            # Write everything before touching values saved earlier, so that
+            # they are still there if this fails
+            temp_name = 'Writing property'
             with h5py.File(self.path,'a') as file:
-                if property_name in file[self.groupname].keys():
-                    del file[self.groupname][property_name]
-                file[self.groupname].create_dataset(property_name,data=property_value,dtype=dtype)
-
-                file[self.groupname][property_name].attrs['units'] = self.properties_units[property_name]
-                file[self.groupname][property_name].attrs['h dependence'] = self.properties_h_dependence[property_name]
-                file[self.groupname][property_name].attrs['userdefined'] = True
-
-                if not property_name in self.properties_saved:
-                    self.properties_saved.append(property_name)
+                group = file[self.groupname]
+                try:
+                    if temp_name in file.keys():
+                        del file[temp_name]
+                    file.create_dataset(temp_name,data=property_value,dtype=dtype)
+                    file[temp_name].attrs['units'] = self.properties_units[property_name]
+                    file[temp_name].attrs['h dependence'] = self.properties_h_dependence[property_name]
+                    file[temp_name].attrs['userdefined'] = True
+
+                    if property_name in group.keys():
+                        del group[property_name]
+                    file.move(temp_name,group.name+'/'+property_name)
+                except BaseException:
+                    if temp_name in file.keys():
+                        if property_name in group.keys():
+                            del file[temp_name]
+                        else:
+                            file.move(temp_name,group.name+'/'+property_name)
+                    raise
+                finally:
+                    if property_name in group.keys() and not property_name in self.properties_saved:
+                        self.properties_saved.append(property_name)
 
     def delete_property(self,*property_names):
         """Remove a property from the saved file on the disk
-- 
2.43.0


From bcf542feb6bbf088ce5d18919d5a6486246b3615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:49 +0000
Subject: [PATCH 121/138] fix: refused requests to write several properties do
 not write some of them

---
 simim/_handlers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index a9ac263..b76178c 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -379,11 +379,10 @@ class Handler():
         None
         """
 
+        # Check everything before writing anything
         for property_name in property_names:
             if not property_name in self.properties_loaded.keys():
-                raise ValueError("Property {} not loaded, cannot write to disk")
-            else:
-                property_value = self.properties_loaded[property_name]
+                raise ValueError("Property {} not loaded, cannot write to disk".format(property_name))
 
             if property_name in self.properties_saved:
                 if overwrite:
@@ -391,6 +390,9 @@ class Handler():
                 else:
                     raise ValueError("Property {} already exists".format(property_name))
 
+        for property_name in property_names:
+            property_value = self.properties_loaded[property_name]
+
             # Write everything before touching values saved earlier, so that
             # they are still there if this fails
             temp_name = 'Writing property'
-- 
2.43.0


From 75ae057047c29e5757dfd20adfadbd6cbd44471f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:49 +0000
Subject: [PATCH 122/138] fix: refused or failed requests to delete properties
 leave the handler as the file

---
 simim/_handlers.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index b76178c..fb8cd08 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -433,27 +433,27 @@ class Handler():
         None
         """
 
-        for property_name in property_names:
-            if property_name not in self.properties_saved:
-                raise ValueError("Property {} is not in the saved file".format(property_name))
-
-            with h5py.File(self.path,'a') as file:
+        # Check everything before deleting anything
+        with h5py.File(self.path,'r') as file:
+            for property_name in property_names:
+                if property_name not in self.properties_saved:
+                    raise ValueError("Property {} is not in the saved file".format(property_name))
                 if property_name not in file[self.groupname].keys():
                     raise ValueError("This property cannot be deleted")
-                else:
-                    del file[self.groupname][property_name]
 
-                    self.properties_saved = [key for key in file[self.groupname].keys() if key not in ['mass_cuts']]
-                    self.properties_loaded.pop(property_name,None)
-                    self.properties_generated = [i for i in self.properties_generated if i != property_name]
-                    properties_all_new = []
-                    for i in self.properties_all:
-                        if i != property_name:
-                            properties_all_new.append(i)
-                    self.properties_all = properties_all_new
-
-                    self.properties_units.pop(property_name,None)
-                    self.properties_h_dependence.pop(property_name,None)
+        for property_name in dict.fromkeys(property_names):
+            with h5py.File(self.path,'a') as file:
+                try:
+                    del file[self.groupname][property_name]
+                finally:
+                    if property_name not in file[self.groupname].keys():
+                        self.properties_saved = [key for key in file[self.groupname].keys() if key not in ['mass_cuts']]
+                        self.properties_loaded.pop(property_name,None)
+                        self.properties_generated = [i for i in self.properties_generated if i != property_name]
+                        self.properties_all = [i for i in self.properties_all if i != property_name]
+
+                        self.properties_units.pop(property_name,None)
+                        self.properties_h_dependence.pop(property_name,None)
 
     def set_property_range(self,property_name=None,pmin=-np.inf,pmax=np.inf,reset=True, in_h_units=None):
         """Set a range in a given property to be the active indices. If no
-- 
2.43.0


From 31d08eee0f1de36dd861321a4116ab9b7da44c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:49 +0000
Subject: [PATCH 123/138] fix: a property that cannot be made does not replace
 some of the existing ones

---
 simim/_handlers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index fb8cd08..7d4d8f8 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -334,10 +334,8 @@ class Handler():
         # Evaluate property and put into memory
         all_values = property.evaluate_all(self, kw_remap=kw_remap, use_all_inds=use_all_inds, kw_arguments=other_kws)
 
+        all_prop_values = []
         for i in range(property.n_props):
-            name = property.names[i]
-            newname = names[i]
-
             dtype = all_values[i].dtype
             if len(inds) < self.nhalos_all and not np.issubdtype(dtype,np.inexact):
                 dtype = float # other dtypes can't hold the nans marking inactive halos
@@ -345,8 +343,13 @@ class Handler():
             if len(inds) < self.nhalos_all:
                 prop_values[:] = np.nan
             prop_values[inds] = all_values[i]
+            all_prop_values.append(prop_values)
+
+        for i in range(property.n_props):
+            name = property.names[i]
+            newname = names[i]
 
-            self.properties_loaded[newname] = prop_values
+            self.properties_loaded[newname] = all_prop_values[i]
             self.properties_units[newname] = property.units[name]
             self.properties_h_dependence[newname] = property.h_dependence[name]
             if not overwrite_names[i]:
-- 
2.43.0


From 17b1dac6a5a0a60bfb78d122a4e4e8a199086ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:25 +0000
Subject: [PATCH 124/138] fix: a property of which writing failed is not left
 on disk half written

---
 simim/_handlers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 7d4d8f8..405fe25 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -401,6 +401,7 @@ class Handler():
             temp_name = 'Writing property'
             with h5py.File(self.path,'a') as file:
                 group = file[self.groupname]
+                complete = False
                 try:
                     if temp_name in file.keys():
                         del file[temp_name]
@@ -408,16 +409,17 @@ class Handler():
                     file[temp_name].attrs['units'] = self.properties_units[property_name]
                     file[temp_name].attrs['h dependence'] = self.properties_h_dependence[property_name]
                     file[temp_name].attrs['userdefined'] = True
+                    complete = True
 
                     if property_name in group.keys():
                         del group[property_name]
                     file.move(temp_name,group.name+'/'+property_name)
                 except BaseException:
                     if temp_name in file.keys():
-                        if property_name in group.keys():
-                            del file[temp_name]
-                        else:
+                        if complete and property_name not in group.keys():
                             file.move(temp_name,group.name+'/'+property_name)
+                        else:
+                            del file[temp_name]
                     raise
                 finally:
                     if property_name in group.keys() and not property_name in self.properties_saved:
-- 
2.43.0


From 3c4ed5f80d30b86f833b8f684ab088b1b32ca60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:25 +0000
Subject: [PATCH 125/138] fix: check all snapshots for existing properties
 before changing any of them

---
 simim/siminterface/simhandler.py | 49 ++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 71135d5..4ebb6b2 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -548,32 +548,39 @@ class SimHandler():
 
         if not self.init_snaps and not write:
             raise ValueError("This handler instance was not initialized with snapshots available")
+
+        if isinstance(rename,str):
+            rename = [rename]
+        if rename is None:
+            names = property.names
+        elif len(rename) != property.n_props:
+            raise ValueError("Length of rename list doesn't match number of properties")
+        else:
+            names = rename
+
+        # Check every snapshot before changing any of them
+        for snap in self.snap_meta['index']:
+            handler = self.get_snap(snap)
+            if not overwrite:
+                for name in names:
+                    if handler.has_property(name):
+                        raise ValueError("Property {} already exists".format(name))
+            if write:
+                with h5py.File(handler.path,'r') as file:
+                    for name in names:
+                        if name in file[handler.groupname].keys():
+                            if not overwrite:
+                                raise ValueError("Property {} already exists".format(name))
+                            elif 'userdefined' not in file[handler.groupname][name].attrs.keys():
+                                raise ValueError("Property {} is not userd-defined and cannot be overwritten".format(name))
+                            else:
+                                warnings.warn("Property {} already exists, overwriting".format(name))
+
         for i in range(len(self.snap_meta)):
             snap = self.snap_meta['index'][i]
             print("\033[1m"+"Assigning props for Snapshot {}.  ".format(snap)+"\033[0m",end='\r')
             handler = self.get_snap(snap)
 
-            if write:
-                if isinstance(rename,str):
-                    rename = [rename]
-                if rename is None:
-                    names = property.names
-                elif len(rename) != property.n_props:
-                    raise ValueError("Length of rename list doesn't match number of properties")
-                else:
-                    names = rename
-
-                if i==0:
-                    with h5py.File(handler.path,'a') as file:
-                        for name in names:
-                            if name in file[handler.groupname].keys():
-                                if not overwrite:
-                                    raise ValueError("Property {} already exists".format(name))
-                                elif 'userdefined' not in file[handler.groupname][name].attrs.keys():
-                                    raise ValueError("Property {} is not userd-defined and cannot be overwritten".format(name))
-                                else:
-                                    warnings.warn("Property {} already exists, overwriting".format(name))
-
             handler.make_property(property=property,
                                   rename=rename,
                                   kw_remap=kw_remap,
-- 
2.43.0


From 8585e6aff95e3d5bdfc43cdbf10de9b5d0576b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:25 +0000
Subject: [PATCH 126/138] fix: delete properties that are only in some of the
 snapshots

---
 simim/siminterface/simhandler.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 4ebb6b2..018e79e 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -606,22 +606,23 @@ class SimHandler():
         None
         """
 
-        for i in range(len(self.snap_meta)):
-            snap = self.snap_meta['index'][i]
+        # Check every snapshot before changing any of them. The properties may
+        # be missing in some (if they were only made or deleted in others)
+        snap_names = []
+        for snap in self.snap_meta['index']:
             handler = self.get_snap(snap)
-
-            if i==0:
-                with h5py.File(handler.path,'a') as file:
-                    for name in property_names:
-                        if name in file[handler.groupname].keys():
-                            if 'userdefined' not in file[handler.groupname][name].attrs.keys():
-                                raise ValueError("Property {} is not userd-defined and cannot be deleted".format(name))
-                            elif not file[handler.groupname][name].attrs['userdefined']:
-                                raise ValueError("Property {} is not userd-defined and cannot be deleted".format(name))
-                        else:
-                            raise ValueError("Property {} is not in the saved file".format(name))
-
-            handler.delete_property(*property_names)
+            with h5py.File(handler.path,'r') as file:
+                snap_names.append([name for name in property_names if name in file[handler.groupname].keys()])
+                for name in snap_names[-1]:
+                    if not file[handler.groupname][name].attrs.get('userdefined',False):
+                        raise ValueError("Property {} is not userd-defined and cannot be deleted".format(name))
+
+        for name in property_names:
+            if not any(name in names for names in snap_names):
+                raise ValueError("Property {} is not in the saved file".format(name))
+
+        for snap, names in zip(self.snap_meta['index'],snap_names):
+            self.get_snap(snap).delete_property(*names)
 
     def snap_stat(self, stat_function, kwargs, kw_remap={}, other_kws={},
                   give_args_in_h_units=None, use_all_inds=False, snaps=None):
-- 
2.43.0


From 72297a7c3fd9a36ffc5762aaad8fb9e271fb1374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:25 +0000
Subject: [PATCH 127/138] fix: a failure while registering a path does not
 leave a part of a line in the list

---
 simim/_paths.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/simim/_paths.py b/simim/_paths.py
index 9ab055a..8e6e74e 100644
--- a/simim/_paths.py
+++ b/simim/_paths.py
@@ -22,6 +22,18 @@ def _checkload_path_file(path):
                 endpoint[line_split[0]] = line_split[1]
     return endpoint
 
+def _add_to_path_file(path,name,location):
+    """Add a line to a path listing file"""
+    size = os.path.getsize(path) if os.path.exists(path) else 0
+    try:
+        with open(path,'a') as file:
+            file.write('{} {}\n'.format(name,location))
+    except BaseException:
+        # Don't leave a part of a line behind
+        if os.path.exists(path):
+            os.truncate(path,size)
+        raise
+
 class _SimIMPaths():
     """Class to handle the paths to simulations"""
 
@@ -146,8 +158,7 @@ class _SimIMPaths():
         new_path = os.path.abspath(new_path)
 
         # Write the new path name
-        with open(os.path.join(self.root,self.simpath_ext),'a') as file:
-            file.write('{} {}\n'.format(sim,new_path))
+        _add_to_path_file(os.path.join(self.root,self.simpath_ext),sim,new_path)
 
         self.sims[sim] = new_path
 
@@ -185,8 +196,7 @@ class _SimIMPaths():
         new_path = os.path.abspath(new_path)
 
         # Write the new path name
-        with open(os.path.join(self.root,self.lcpath_ext),'a') as file:
-            file.write('{} {}\n'.format(sim,new_path))
+        _add_to_path_file(os.path.join(self.root,self.lcpath_ext),sim,new_path)
 
         self.lcs[sim] = new_path
 
@@ -224,8 +234,7 @@ class _SimIMPaths():
         new_path = os.path.abspath(new_path)
 
         # Write the new path name
-        with open(os.path.join(self.root,self.proppath_ext),'a') as file:
-            file.write('{} {}\n'.format(item,new_path))
+        _add_to_path_file(os.path.join(self.root,self.proppath_ext),item,new_path)
 
         self.props[item] = new_path
 
-- 
2.43.0


From 7bc0456a2b6d9179e27abd00aaaa352d42e1f0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:25 +0000
Subject: [PATCH 128/138] fix: a failure while setting up the data directory
 keeps the previous one

---
 simim/_paths.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/simim/_paths.py b/simim/_paths.py
index 8e6e74e..dfbad5c 100644
--- a/simim/_paths.py
+++ b/simim/_paths.py
@@ -109,11 +109,6 @@ class _SimIMPaths():
                 print("Files will be saved in {}".format(os.path.join(root,'simim_resources')))
                 answer = input("Is this okay? y/n: ")
 
-        # Save the root location
-        with open(self.root_file,'w') as file:
-            file.write(root)
-        self.root = root
-
         for path in [os.path.join(root,'simim_resources'),
                       os.path.join(root,'simim_resources','.paths'),
                       os.path.join(root,self.sim_ext),
@@ -122,6 +117,13 @@ class _SimIMPaths():
             if not os.path.exists(path):
                 os.mkdir(path)
 
+        # Save the root location once the directories are there, replacing the
+        # old file as a whole
+        with open(str(self.root_file)+'.tmp','w') as file:
+            file.write(root)
+        os.replace(str(self.root_file)+'.tmp',self.root_file)
+        self.root = root
+
         self._load_paths()
 
     def _newsimpath(self,sim,new_path='auto',checkoverwrite=True):
-- 
2.43.0


From bef04a64fee894d11e154fdaf210c20109dbfc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:05 +0000
Subject: [PATCH 129/138] fix: a failure while saving a grid does not destroy
 the file being replaced

---
 simim/map/gridder.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index ed8b2e3..856a742 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -569,7 +569,16 @@ class Grid():
         if self.grid_active:
             save_data['grid'] = self.grid
 
-        savefunc(path,**save_data)
+        # Replace an existing file as a whole once the new one is complete
+        file_path = os.path.realpath(file_path)
+        try:
+            with open(file_path+'.tmp','wb') as file:
+                savefunc(file,**save_data)
+            os.replace(file_path+'.tmp',file_path)
+        except BaseException:
+            if os.path.exists(file_path+'.tmp'):
+                os.remove(file_path+'.tmp')
+            raise
 
 
     def add_new_prop(self,value=None):
-- 
2.43.0


From c98a6bbe974c200c47ba66874ffc74f478c5450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:05 +0000
Subject: [PATCH 130/138] fix: light cones can only be opened once they are
 complete

---
 simim/lightcone/lcmaker.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 7ff0213..003ae51 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -881,11 +881,13 @@ class LCMaker(GenericLCMaker):
         for i in range(n):
             with h5py.File(os.path.join(self.lc_path,'lc_{:04d}.hdf5'.format(i)),'a') as file:
 
-                lc = file.create_group('Lightcone Full')
+                # The group gets its name once it is complete
+                lc = file.create_group('Lightcone Unfinished')
                 for key in file['Lightcone Basic'].keys():
                     lc[key] = file['Lightcone Basic'][key]
                 file.attrs['status_basic'] = True
                 file.attrs['finished'] = dtime.isoformat(' ')
+                file.move('Lightcone Unfinished','Lightcone Full')
 
 
 class SphereMaker(GenericLCMaker):
@@ -1181,9 +1183,11 @@ class SphereMaker(GenericLCMaker):
         for i in range(n):
             with h5py.File(os.path.join(self.lc_path,'lc_{:04d}.hdf5'.format(i)),'a') as file:
 
-                lc = file.create_group('Lightcone Full')
+                # The group gets its name once it is complete
+                lc = file.create_group('Lightcone Unfinished')
                 for key in file['Lightcone Basic'].keys():
                     lc[key] = file['Lightcone Basic'][key]
                 file.attrs['status_basic'] = True
                 file.attrs['finished'] = dtime.isoformat(' ')
+                file.move('Lightcone Unfinished','Lightcone Full')
 
-- 
2.43.0


From b721d4ff7f66c11a5c7726c3d2db8a68891afcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:05 +0000
Subject: [PATCH 131/138] fix: an interrupted addition of properties to light
 cones can be repeated

---
 simim/lightcone/lcmaker.py | 76 ++++++++++++++++++++++++--------------
 1 file changed, 49 insertions(+), 27 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 003ae51..c3bca82 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -114,6 +114,28 @@ class GenericLCMaker():
         else:
             self.copies_max = 1
 
+    def _common_keys(self):
+        """The properties which all light cones in the set have"""
+        common_keys = None
+        for i in range(self.n):
+            with h5py.File(os.path.join(self.lc_path,'lc_{:04d}.hdf5'.format(i)),'r') as file:
+                keys = [key for key in file['Lightcone Full'].keys()]
+            common_keys = keys if common_keys is None else [key for key in common_keys if key in keys]
+        return common_keys
+
+    def _finish_extra(self):
+        """Make the properties collected in 'Lightcone Extra' part of the
+        light cones, and note in LC files that we're done"""
+        for i in range(self.n):
+            with h5py.File(os.path.join(self.lc_path,'lc_{:04d}.hdf5'.format(i)),'a') as file:
+                for key in list(file['Lightcone Extra'].keys()):
+                    # Present already if this was interrupted earlier
+                    if key not in file['Lightcone Full'].keys():
+                        file.move('Lightcone Extra/'+key,'Lightcone Full/'+key)
+                del file['Lightcone Extra']
+                file.attrs['status_extra_initialized'] = True
+                file.attrs['status_extra_completed'] = True
+
     def add_properties(self,*keys):
         """Select additional properties to include in the light cone.
         Should not be used for properties with position information (ie
@@ -137,8 +159,7 @@ class GenericLCMaker():
                     'spin_x','spin_y','spin_z',
                     'cm_x','cm_y','cm_z']
 
-        with h5py.File(os.path.join(self.lc_path,'lc_0000.hdf5'),'r') as file:
-            old_lc_keys = [i for i in file['Lightcone Full'].keys()]
+        old_lc_keys = self._common_keys()
 
         new_lc_keys = []
         for key in keys:
@@ -166,6 +187,11 @@ class GenericLCMaker():
                 file.attrs['status_extra_initialized'] = True
                 file.attrs['status_extra_completed'] = False
 
+                # Collect the values separately until they are complete
+                if 'Lightcone Extra' in file.keys():
+                    del file['Lightcone Extra']
+                extra = file.create_group('Lightcone Extra')
+
                 shape = file['Indexing']['sim_indices'].shape
                 chunks = file['Indexing']['sim_indices'].chunks
                 if shape[0] == 0:
@@ -173,13 +199,13 @@ class GenericLCMaker():
                 elif shape[0] < chunks[0]:
                     chunks = shape
                 for key in keys:
-                    file['Lightcone Full'].create_dataset(key,shape=shape,chunks=chunks,dtype=dtypes[key])
+                    extra.create_dataset(key,shape=shape,chunks=chunks,dtype=dtypes[key])
                     if key == 'masscheck':
-                        file['Lightcone Full'][key].attrs['units'] = self.sim_handler.key_units['mass']
-                        file['Lightcone Full'][key].attrs['h dependence'] = self.sim_handler.key_h_dependence['mass']
+                        extra[key].attrs['units'] = self.sim_handler.key_units['mass']
+                        extra[key].attrs['h dependence'] = self.sim_handler.key_h_dependence['mass']
                     else:
-                        file['Lightcone Full'][key].attrs['units'] = self.sim_handler.key_units[key]
-                        file['Lightcone Full'][key].attrs['h dependence'] = self.sim_handler.key_h_dependence[key]
+                        extra[key].attrs['units'] = self.sim_handler.key_units[key]
+                        extra[key].attrs['h dependence'] = self.sim_handler.key_h_dependence[key]
 
         # Open simulation file
         with h5py.File(os.path.join(self.sim_path,'data.hdf5'),"r") as sim_file:
@@ -225,13 +251,9 @@ class GenericLCMaker():
                             indexing = indexing[indexing['snap']==snap_meta['index']]
 
                             # Append the data
-                            lc_file['Lightcone Full'][key][start:start+len(indexing)] = values[indexing['index']]
+                            lc_file['Lightcone Extra'][key][start:start+len(indexing)] = values[indexing['index']]
 
-        # Note in LC files that we're done
-        for i in range(self.n):
-            with h5py.File(os.path.join(self.lc_path,'lc_{:04d}.hdf5'.format(i)),'a') as file:
-                file.attrs['status_extra_initialized'] = True
-                file.attrs['status_extra_completed'] = True
+        self._finish_extra()
 
     def add_pos_properties(self,*keys):
         """Select additional properties to include in the light cone for
@@ -254,9 +276,8 @@ class GenericLCMaker():
         # Make sure the keys exist, but aren't already included
         pos_keys = ['pos','v','spin','cm']
 
-        with h5py.File(os.path.join(self.lc_path,'lc_0000.hdf5'),'r') as file:
-            old_lc_keys = [i[:-2] for i in file['Lightcone Full'].keys() if i[:-2] in pos_keys]
-        old_lc_keys = np.unique(old_lc_keys)
+        old_lc_keys = self._common_keys()
+        old_lc_keys = [key for key in pos_keys if all(key+subkey in old_lc_keys for subkey in ['_x','_y','_z'])]
 
         new_lc_keys = []
         for key in keys:
@@ -275,6 +296,11 @@ class GenericLCMaker():
                 file.attrs['status_extra_initialized'] = True
                 file.attrs['status_extra_completed'] = False
 
+                # Collect the values separately until they are complete
+                if 'Lightcone Extra' in file.keys():
+                    del file['Lightcone Extra']
+                extra = file.create_group('Lightcone Extra')
+
                 shape = file['Indexing']['sim_indices'].shape
                 chunks = file['Indexing']['sim_indices'].chunks
                 if shape[0] == 0:
@@ -283,9 +309,9 @@ class GenericLCMaker():
                     chunks = shape
                 for key in keys:
                     for subkey in ['_x','_y','_z']:
-                        file['Lightcone Full'].create_dataset(key+subkey,shape=shape,chunks=chunks)
-                        file['Lightcone Full'][key+subkey].attrs['units'] = self.sim_handler.key_units[key+subkey]
-                        file['Lightcone Full'][key+subkey].attrs['h dependence'] = self.sim_handler.key_h_dependence[key+subkey]
+                        extra.create_dataset(key+subkey,shape=shape,chunks=chunks)
+                        extra[key+subkey].attrs['units'] = self.sim_handler.key_units[key+subkey]
+                        extra[key+subkey].attrs['h dependence'] = self.sim_handler.key_h_dependence[key+subkey]
 
         # Open simulation file
         with h5py.File(os.path.join(self.sim_path,'data.hdf5'),"r") as sim_file:
@@ -363,15 +389,11 @@ class GenericLCMaker():
                                     lc_file['Lightcone Full'][i][start:start+len(indexing)] for i in ['pos_x','pos_y','pos_z']])
 
                             # Append the data
-                            lc_file['Lightcone Full'][key+'_x'][start:start+len(indexing)] = lc_values[0]
-                            lc_file['Lightcone Full'][key+'_y'][start:start+len(indexing)] = lc_values[1]
-                            lc_file['Lightcone Full'][key+'_z'][start:start+len(indexing)] = lc_values[2]
+                            lc_file['Lightcone Extra'][key+'_x'][start:start+len(indexing)] = lc_values[0]
+                            lc_file['Lightcone Extra'][key+'_y'][start:start+len(indexing)] = lc_values[1]
+                            lc_file['Lightcone Extra'][key+'_z'][start:start+len(indexing)] = lc_values[2]
 
-        # Note in LC files that we're done
-        for i in range(self.n):
-            with h5py.File(os.path.join(self.lc_path,'lc_{:04d}.hdf5'.format(i)),'a') as file:
-                file.attrs['status_extra_initialized'] = True
-                file.attrs['status_extra_completed'] = True
+        self._finish_extra()
 
     def get_LCIterator(self,in_h_units=False):
         """Return a LCIterator object that can be used to iteratively analyse
-- 
2.43.0


From 2ed6c165aaf5a773513f95af08d062b3b8bdb7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:31 +0000
Subject: [PATCH 132/138] fix: download Illustris data to directories with
 spaces in their names

---
 simim/siminterface/illustris.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index b9f2313..2fe5fea 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -1,4 +1,5 @@
 import os
+import shlex
 import requests
 import warnings
 
@@ -372,7 +373,7 @@ class IllustrisCatalogs(SimCatalogs):
             wget_cmd += '--header="API-Key: {}" '.format(self.api_key)
             wget_cmd += '"http://www.tng-project.org/api/{}'.format(self.sim)
             wget_cmd += '/files/groupcat-{}/?format=api" '.format(i)
-            wget_cmd += '-P {}'.format(file_path)
+            wget_cmd += '-P {}'.format(shlex.quote(file_path))
 
             # Download the data and check that it all arrives, retry if it doesn't
             print("\nDownloading Snapshot {}".format(i))
-- 
2.43.0


From 67688ec5c949e7a592dcae5ab34457742e9ef713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:50 +0000
Subject: [PATCH 133/138] fix: a failure while saving metadata does not make a
 simulation unusable

---
 simim/siminterface/_rawsiminterface.py | 9 +++++++++
 simim/siminterface/illustris.py        | 3 +--
 simim/siminterface/uchuu.py            | 3 +--
 simim/siminterface/universemachine.py  | 3 +--
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index 0b5ed4b..f45326f 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -325,6 +325,15 @@ class SimCatalogs():
         #     return subhalos, n_halos
         # self._loader = _loader
 
+    def _save_meta(self):
+        """Write the metadata, replacing older files only by complete new ones"""
+
+        # The presence of the metadata says that both are there, so it goes last
+        for path, data in [(self.snap_meta_path,self.snap_meta),(self.meta_path,self.metadata)]:
+            with open(path+'.tmp','wb') as file:
+                np.save(file,data)
+            os.replace(path+'.tmp',path)
+
     def clean_raw(self):
         """Remove unformatted data for a simulation
         
diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index 2fe5fea..b593700 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -489,8 +489,7 @@ class IllustrisCatalogs(SimCatalogs):
             snap_meta[i]['transverse_distance_max'] = snap_meta_classes[i].transverse_distance_max * self.h
         self.snap_meta = snap_meta
 
-        np.save(self.meta_path,self.metadata)
-        np.save(self.snap_meta_path,self.snap_meta)
+        self._save_meta()
 
 def illustris_catalogs(*args, **kwargs):
     warnings.warn("illustris_catalogs is depricated, use IllustrisCatalogs instead")
diff --git a/simim/siminterface/uchuu.py b/simim/siminterface/uchuu.py
index 217a55a..f913aed 100644
--- a/simim/siminterface/uchuu.py
+++ b/simim/siminterface/uchuu.py
@@ -326,8 +326,7 @@ class UchuuCatalogs(SimCatalogs):
             snap_meta[i]['transverse_distance_max'] = snap_meta_classes[i].transverse_distance_max * self.h
         self.snap_meta = snap_meta
 
-        np.save(self.meta_path,self.metadata)
-        np.save(self.snap_meta_path,self.snap_meta)
+        self._save_meta()
 
     def download(self, redownload=False, datafiles=[1,2,3]):
         """Download UniverseMachine-uchuu catalogs
diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index 5ee46b0..d910e35 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -382,8 +382,7 @@ class UniversemachineCatalogs(SimCatalogs):
             snap_meta[i]['transverse_distance_max'] = snap_meta_classes[i].transverse_distance_max * self.h
         self.snap_meta = snap_meta
 
-        np.save(self.meta_path,self.metadata)
-        np.save(self.snap_meta_path,self.snap_meta)
+        self._save_meta()
 
     def download(self, redownload=False):
         """Download UniverseMachine catalogs"""
-- 
2.43.0


From 4958a4d4216d54fd316750a75ec4863d3cf525bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:43 +0000
Subject: [PATCH 134/138] fix: documentation of the defaults of log10normal and
 Instrument

---
 simim/galprops/log10normal.py  | 6 +++---
 simim/instrument/instrument.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/simim/galprops/log10normal.py b/simim/galprops/log10normal.py
index ed9f2a7..653dddb 100644
--- a/simim/galprops/log10normal.py
+++ b/simim/galprops/log10normal.py
@@ -7,11 +7,11 @@ def log10normal(x, dex, preserve_linear_mean=False, rng=np.random.default_rng())
     Parameters
     ----------
     x : float or array
-        The linear mean of the distribution (the scatter will be added
-        around log10(x)).
+        The values to add scatter to (the scatter will be added around
+        log10(x), or such that x is the linear mean if preserve_linear_mean).
     dex : float
         The scale parameter for the distribution, in log10 units
-    preserve_linear_mean : bool, default=True
+    preserve_linear_mean : bool, default=False
         Determines whether the scatter should preserve the (linear) mean
         value or not.
     rng : optional, numpy.random.Generator object
diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 080f491..f972960 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -68,11 +68,11 @@ class Instrument:
         """
         Parameters
         ----------
-        spatial_unit : {'rad','deg','arcmin','arcsec'}, default='rad'
+        spatial_unit : {'rad','deg','arcmin','arcsec',None}, default=None
             The units in which the spatial response function is defined
-        spectral_unit : {'Hz','GHz','m','mm','um'}, default='Hz'
+        spectral_unit : {'Hz','GHz','m','mm','um',None}, default=None
             The units in which the spectral response function is defined
-        flux_unit : {'Jy','mJy'}, default='Jy'
+        flux_unit : {'Jy','mJy',None}, default=None
             The units in which the the noise_function provides noise for the
             detector and in which the signal in any attached fields is defined
         best_spatial_res : float (optional)
-- 
2.43.0


From 83587889041b059805aff7688e1c64bb5b1a472d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:19 +0000
Subject: [PATCH 135/138] fix: processes making the same directory at the same
 time

---
 simim/_paths.py                       | 23 ++++++++++++++---------
 simim/lightcone/lcmaker.py            | 11 +++++++----
 simim/siminterface/illustris.py       |  7 +++----
 simim/siminterface/uchuu.py           |  4 ++--
 simim/siminterface/universemachine.py |  4 ++--
 5 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/simim/_paths.py b/simim/_paths.py
index dfbad5c..d5c5c92 100644
--- a/simim/_paths.py
+++ b/simim/_paths.py
@@ -34,6 +34,15 @@ def _add_to_path_file(path,name,location):
             os.truncate(path,size)
         raise
 
+def _make_directory(path):
+    """Make a directory if it doesn't exist (another process may be making it
+    at the same time)"""
+    try:
+        os.mkdir(path)
+    except FileExistsError:
+        if not os.path.isdir(path):
+            raise
+
 class _SimIMPaths():
     """Class to handle the paths to simulations"""
 
@@ -43,7 +52,7 @@ class _SimIMPaths():
         # Absolute path to simim package
         simim_path = files('simim')
         if not os.path.exists(simim_path.joinpath('resources')):
-            os.mkdir(simim_path.joinpath('resources'))
+            _make_directory(simim_path.joinpath('resources'))
         
         # Path to the file where the data directory is listed
         self.root_file = simim_path.joinpath('resources','rootpath.txt')
@@ -114,8 +123,7 @@ class _SimIMPaths():
                       os.path.join(root,self.sim_ext),
                       os.path.join(root,self.lc_ext),
                       os.path.join(root,self.prop_ext)]:
-            if not os.path.exists(path):
-                os.mkdir(path)
+            _make_directory(path)
 
         # Save the root location once the directories are there, replacing the
         # old file as a whole
@@ -154,8 +162,7 @@ class _SimIMPaths():
                 raise NameError("Specified path does not exist. Please create path and try again.")
         elif new_path == 'auto':
             new_path = os.path.join(self.root,self.sim_ext,sim)
-            if not os.path.exists(new_path):
-                os.mkdir(new_path)
+            _make_directory(new_path)
 
         new_path = os.path.abspath(new_path)
 
@@ -192,8 +199,7 @@ class _SimIMPaths():
                 raise NameError("Specified path does not exist. Please create path and try again.")
         elif new_path == 'auto':
             new_path = os.path.join(self.root,self.lc_ext,sim)
-            if not os.path.exists(new_path):
-                os.mkdir(new_path)
+            _make_directory(new_path)
 
         new_path = os.path.abspath(new_path)
 
@@ -230,8 +236,7 @@ class _SimIMPaths():
                 raise NameError("Specified path does not exist. Please create path and try again.")
         elif new_path == 'auto':
             new_path = os.path.join(self.root,self.prop_ext,item)
-            if not os.path.exists(new_path):
-                os.mkdir(new_path)
+            _make_directory(new_path)
 
         new_path = os.path.abspath(new_path)
 
diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index c3bca82..c302b83 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -68,7 +68,12 @@ class GenericLCMaker():
         if sim not in paths.lcs.keys():
             paths._newlcpath(self.sim)
         self.lc_path = os.path.join(paths.lcs[sim], name)
-        if os.path.exists(self.lc_path) and overwrite=='check':
+        try:
+            os.mkdir(self.lc_path)
+            exists = False
+        except FileExistsError:
+            exists = True
+        if exists and overwrite=='check':
             print("A file for light cones of this name already exists.")
             print("Light cones already saved may be overwritten.")
             answer = input("Do you wish to proceed? y/n: ")
@@ -79,10 +84,8 @@ class GenericLCMaker():
                     raise ValueError("name already in use")
                 print("Response not recognized.")
                 answer = input("Do you wish to proceed? y/n: ")
-        elif os.path.exists(self.lc_path) and overwrite==False:
+        elif exists and overwrite==False:
             raise ValueError("name already in use")
-        elif not os.path.exists(self.lc_path):
-            os.mkdir(self.lc_path)
         self.name = name
 
         # Save parameters
diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index b593700..1f82499 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -5,6 +5,7 @@ import warnings
 
 import numpy as np
 
+from simim._paths import _make_directory
 from simim.siminterface import _illustris_datahandling as idh
 from simim.siminterface._rawsiminterface import SimCatalogs, Snapshot
 from simim.siminterface._sims import _checksim, _illsims, _tngsims
@@ -342,8 +343,7 @@ class IllustrisCatalogs(SimCatalogs):
     def download(self, redownload=False):
         """Download Illustris/TNG subhalo (group) catalogs"""
 
-        if not os.path.exists(os.path.join(self.path,'raw')):
-            os.mkdir(os.path.join(self.path,'raw'))
+        _make_directory(os.path.join(self.path,'raw'))
 
         # Add a check for already downloaded files
         if redownload:
@@ -364,8 +364,7 @@ class IllustrisCatalogs(SimCatalogs):
 
             # Create destination for the files:
             file_path = os.path.join(self.path,'raw','groups_{:03d}'.format(i))
-            if not os.path.exists(file_path):
-                os.mkdir(file_path)
+            _make_directory(file_path)
 
             # Construcg wget command
             wget_cmd  = 'wget -nd -nc -nv -e robots=off '
diff --git a/simim/siminterface/uchuu.py b/simim/siminterface/uchuu.py
index f913aed..aefffb1 100644
--- a/simim/siminterface/uchuu.py
+++ b/simim/siminterface/uchuu.py
@@ -8,6 +8,7 @@ import requests
 import h5py
 import numpy as np
 
+from simim._paths import _make_directory
 from simim.siminterface._rawsiminterface import SimCatalogs, Snapshot
 
 class UchuuCatalogs(SimCatalogs):
@@ -341,8 +342,7 @@ class UchuuCatalogs(SimCatalogs):
             files 1, 2, 3 is currently used/supported
         """
 
-        if not os.path.exists(os.path.join(self.path,'raw')):
-            os.mkdir(os.path.join(self.path,'raw'))
+        _make_directory(os.path.join(self.path,'raw'))
 
         # Download metadata if not present
         if not os.path.exists(self.meta_path):
diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index d910e35..551d021 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -12,6 +12,7 @@ except:
 
 import numpy as np
 
+from simim._paths import _make_directory
 from simim.siminterface._rawsiminterface import SimCatalogs, Snapshot
 from simim.siminterface._sims import _checksim
 
@@ -387,8 +388,7 @@ class UniversemachineCatalogs(SimCatalogs):
     def download(self, redownload=False):
         """Download UniverseMachine catalogs"""
 
-        if not os.path.exists(os.path.join(self.path,'raw')):
-            os.mkdir(os.path.join(self.path,'raw'))
+        _make_directory(os.path.join(self.path,'raw'))
 
         # Download metadata if not present
         if not os.path.exists(self.meta_path):
-- 
2.43.0


From 982a44242ad2e1776dbbac2ec5879d2fc0ffccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:19 +0000
Subject: [PATCH 136/138] fix: processes replacing the same file at the same
 time

---
 simim/_paths.py                        | 21 ++++++++++++++++++---
 simim/map/gridder.py                   | 10 +++-------
 simim/siminterface/_rawsiminterface.py |  8 ++++----
 simim/siminterface/uchuu.py            |  6 +++---
 simim/siminterface/universemachine.py  |  6 +++---
 5 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/simim/_paths.py b/simim/_paths.py
index d5c5c92..910268e 100644
--- a/simim/_paths.py
+++ b/simim/_paths.py
@@ -1,4 +1,6 @@
+import contextlib
 import os
+import uuid
 try:
     from importlib.resources import files
 except:
@@ -34,6 +36,19 @@ def _add_to_path_file(path,name,location):
             os.truncate(path,size)
         raise
 
+@contextlib.contextmanager
+def _replacement(path):
+    """Gives the path for writing a new version of a file, which takes the place
+    of the old one when it is complete. No other process uses the same path."""
+    temp_path = '{}.{}.tmp'.format(path,uuid.uuid4().hex)
+    try:
+        yield temp_path
+        os.replace(temp_path,path)
+    except BaseException:
+        if os.path.exists(temp_path):
+            os.remove(temp_path)
+        raise
+
 def _make_directory(path):
     """Make a directory if it doesn't exist (another process may be making it
     at the same time)"""
@@ -127,9 +142,9 @@ class _SimIMPaths():
 
         # Save the root location once the directories are there, replacing the
         # old file as a whole
-        with open(str(self.root_file)+'.tmp','w') as file:
-            file.write(root)
-        os.replace(str(self.root_file)+'.tmp',self.root_file)
+        with _replacement(self.root_file) as temp_path:
+            with open(temp_path,'w') as file:
+                file.write(root)
         self.root = root
 
         self._load_paths()
diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 856a742..962aaff 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -6,6 +6,7 @@ import os
 import numpy as np
 from scipy.signal import fftconvolve
 
+from simim._paths import _replacement
 from simim._pltsetup import *
 from matplotlib import animation
 
@@ -571,14 +572,9 @@ class Grid():
 
         # Replace an existing file as a whole once the new one is complete
         file_path = os.path.realpath(file_path)
-        try:
-            with open(file_path+'.tmp','wb') as file:
+        with _replacement(file_path) as temp_path:
+            with open(temp_path,'wb') as file:
                 savefunc(file,**save_data)
-            os.replace(file_path+'.tmp',file_path)
-        except BaseException:
-            if os.path.exists(file_path+'.tmp'):
-                os.remove(file_path+'.tmp')
-            raise
 
 
     def add_new_prop(self,value=None):
diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index f45326f..53046aa 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -8,7 +8,7 @@ import astropy.units as u
 import h5py
 import numpy as np
 
-from simim._paths import _SimIMPaths
+from simim._paths import _SimIMPaths, _replacement
 from simim.siminterface._sims import _checksim
 
 
@@ -330,9 +330,9 @@ class SimCatalogs():
 
         # The presence of the metadata says that both are there, so it goes last
         for path, data in [(self.snap_meta_path,self.snap_meta),(self.meta_path,self.metadata)]:
-            with open(path+'.tmp','wb') as file:
-                np.save(file,data)
-            os.replace(path+'.tmp',path)
+            with _replacement(path) as temp_path:
+                with open(temp_path,'wb') as file:
+                    np.save(file,data)
 
     def clean_raw(self):
         """Remove unformatted data for a simulation
diff --git a/simim/siminterface/uchuu.py b/simim/siminterface/uchuu.py
index aefffb1..991c444 100644
--- a/simim/siminterface/uchuu.py
+++ b/simim/siminterface/uchuu.py
@@ -8,7 +8,7 @@ import requests
 import h5py
 import numpy as np
 
-from simim._paths import _make_directory
+from simim._paths import _make_directory, _replacement
 from simim.siminterface._rawsiminterface import SimCatalogs, Snapshot
 
 class UchuuCatalogs(SimCatalogs):
@@ -375,6 +375,6 @@ class UchuuCatalogs(SimCatalogs):
                 print("downloading snapshot {} of {} ({})".format(i+1,len(self.download_snaps),self.web_files[snap_id].replace('data1',f'data{df}')))
                 # Only a completed download gets the final name
                 file_path_df = file_path.replace('data1',f'data{df}')
-                urlretrieve(webpage+self.web_files[snap_id].replace('data1',f'data{df}'),file_path_df+'.part')
-                os.replace(file_path_df+'.part',file_path_df)
+                with _replacement(file_path_df) as temp_path:
+                    urlretrieve(webpage+self.web_files[snap_id].replace('data1',f'data{df}'),temp_path)
 
diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index 551d021..dcd7876 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -12,7 +12,7 @@ except:
 
 import numpy as np
 
-from simim._paths import _make_directory
+from simim._paths import _make_directory, _replacement
 from simim.siminterface._rawsiminterface import SimCatalogs, Snapshot
 from simim.siminterface._sims import _checksim
 
@@ -415,8 +415,8 @@ class UniversemachineCatalogs(SimCatalogs):
                 shutil.copy(self.webpage.joinpath(self.web_files[snap]),file_path)
             else:
                 # Only a completed download gets the final name
-                urlretrieve(self.webpage+self.web_files[snap],file_path+'.part')
-                os.replace(file_path+'.part',file_path)
+                with _replacement(file_path) as temp_path:
+                    urlretrieve(self.webpage+self.web_files[snap],temp_path)
 
 # Wrapper for back compatibility
 def universemachine_catalogs(*args, **kwargs):
-- 
2.43.0


From e5b9da0a1f1694fbda97980203ce89ef70f287d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:19 +0000
Subject: [PATCH 137/138] fix: processes computing the same table at the same
 time

---
 simim/_paths.py                        |  8 ++++++++
 simim/galprops/sfr_behroozi13.py       | 11 +++++------
 simim/galprops/sfr_bethermin17.py      | 21 ++++++++++++---------
 simim/galprops/sfr_ir.py               | 21 ++++++++++++---------
 simim/siminterface/_rawsiminterface.py |  6 ++----
 5 files changed, 39 insertions(+), 28 deletions(-)

diff --git a/simim/_paths.py b/simim/_paths.py
index 910268e..263c037 100644
--- a/simim/_paths.py
+++ b/simim/_paths.py
@@ -1,6 +1,8 @@
 import contextlib
 import os
 import uuid
+
+import numpy as np
 try:
     from importlib.resources import files
 except:
@@ -49,6 +51,12 @@ def _replacement(path):
             os.remove(temp_path)
         raise
 
+def _save_array(path,data):
+    """Save an array such that others see the old or the complete new file"""
+    with _replacement(path) as temp_path:
+        with open(temp_path,'wb') as file:
+            np.save(file,data)
+
 def _make_directory(path):
     """Make a directory if it doesn't exist (another process may be making it
     at the same time)"""
diff --git a/simim/galprops/sfr_behroozi13.py b/simim/galprops/sfr_behroozi13.py
index 4714fba..cbaaa86 100644
--- a/simim/galprops/sfr_behroozi13.py
+++ b/simim/galprops/sfr_behroozi13.py
@@ -8,7 +8,7 @@ except:
 import numpy as np
 from scipy.interpolate import RectBivariateSpline
 
-from simim._paths import _SimIMPaths
+from simim._paths import _SimIMPaths, _save_array
 from simim.galprops.log10normal import log10normal
 from simim._pltsetup import *
 
@@ -96,11 +96,10 @@ class behroozi13_base():
         sfr = np.power(10,sfr)
 
         # sfr.npy marks the files as complete - write it last
-        np.save(os.path.join(self.path,'stellarmass.npy'),stellarmass)
-        np.save(os.path.join(self.path,'mass_axis.npy'),mass)
-        np.save(os.path.join(self.path,'redshift_axis.npy'),redshift)
-        np.save(os.path.join(self.path,'sfr_tmp.npy'),sfr)
-        os.replace(os.path.join(self.path,'sfr_tmp.npy'),os.path.join(self.path,'sfr.npy'))
+        _save_array(os.path.join(self.path,'stellarmass.npy'),stellarmass)
+        _save_array(os.path.join(self.path,'mass_axis.npy'),mass)
+        _save_array(os.path.join(self.path,'redshift_axis.npy'),redshift)
+        _save_array(os.path.join(self.path,'sfr.npy'),sfr)
 
     @pltdeco
     def plot_grid(self,prop='sfr'):
diff --git a/simim/galprops/sfr_bethermin17.py b/simim/galprops/sfr_bethermin17.py
index b8f8ecf..4c0bce3 100644
--- a/simim/galprops/sfr_bethermin17.py
+++ b/simim/galprops/sfr_bethermin17.py
@@ -1,10 +1,11 @@
+import contextlib
 import os
 
 import numpy as np
 from scipy.interpolate import RegularGridInterpolator
 from scipy.special import erf
 
-from simim._paths import _SimIMPaths
+from simim._paths import _SimIMPaths, _save_array
 from simim.siminterface._sims import _checksim
 from simim.galprops.log10normal import log10normal
 from simim.galprops.galprops_am import am_dfcat, double_schechter_gen
@@ -156,15 +157,16 @@ class bethermin17_base():
     
         pathexists = os.path.exists(os.path.join(self.path,'stellarmass.npy'))
         if remake or (comp and not pathexists):
-            self._make_stellarmass_function(haloprop=haloprop,halomassmin=halomassmin)
+            halopropgrid, zgrid, mstarsgrid = self._make_stellarmass_function(haloprop=haloprop,halomassmin=halomassmin)
             pathexists = True
-        
-        if pathexists:
+
+        elif pathexists:
             # Load spline stuff
             halopropgrid = np.load(os.path.join(self.path,'mass_axis.npy'))
             zgrid = np.load(os.path.join(self.path,'redshift_axis.npy'))
             mstarsgrid = np.load(os.path.join(self.path,'stellarmass.npy'))
 
+        if pathexists:
             self.interpolator = RegularGridInterpolator((halopropgrid,zgrid), mstarsgrid, method='linear', bounds_error=False)
             self.init_stellarmass_function = True
     
@@ -222,12 +224,13 @@ class bethermin17_base():
 
         # stellarmass.npy marks the files as complete - remove it first, write it last
         smfile = os.path.join(self.path,'stellarmass.npy')
-        if os.path.exists(smfile):
+        with contextlib.suppress(FileNotFoundError):
             os.remove(smfile)
-        np.save(os.path.join(self.path,'mass_axis.npy'), halopropgrid)
-        np.save(os.path.join(self.path,'redshift_axis.npy'), zgrid)
-        np.save(os.path.join(self.path,'stellarmass_tmp.npy'), smgrid.T)
-        os.replace(os.path.join(self.path,'stellarmass_tmp.npy'), smfile)
+        _save_array(os.path.join(self.path,'mass_axis.npy'), halopropgrid)
+        _save_array(os.path.join(self.path,'redshift_axis.npy'), zgrid)
+        _save_array(smfile, smgrid.T)
+
+        return halopropgrid, zgrid, smgrid.T
 
     def b17_smfpars(self, z, cosmo):
         """Update parameters to a chosen cosmology"""
diff --git a/simim/galprops/sfr_ir.py b/simim/galprops/sfr_ir.py
index 58bdac6..9bdd2d3 100644
--- a/simim/galprops/sfr_ir.py
+++ b/simim/galprops/sfr_ir.py
@@ -1,9 +1,10 @@
+import contextlib
 import os
 import numpy as np
 
 from scipy.interpolate import RegularGridInterpolator
 
-from simim._paths import _SimIMPaths
+from simim._paths import _SimIMPaths, _save_array
 from simim.siminterface._sims import _checksim
 from simim.siminterface import SimHandler
 from simim.galprops.galprops_am import am_dfcat, modified_schechter_gen
@@ -74,15 +75,16 @@ class g13irlf_base():
 
         pathexists = os.path.exists(os.path.join(self.path,'lir.npy'))
         if remake or (comp and not pathexists):
-            self._make_lir_function(haloprop=haloprop,halomassmin=halomassmin,lirmin=lirmin)
+            halopropgrid, zgrid, lirgrid = self._make_lir_function(haloprop=haloprop,halomassmin=halomassmin,lirmin=lirmin)
             pathexists = True
-        
-        if pathexists:
+
+        elif pathexists:
             # Load spline stuff
             halopropgrid = np.load(os.path.join(self.path,'mass_axis.npy'))
             zgrid = np.load(os.path.join(self.path,'redshift_axis.npy'))
             lirgrid = np.load(os.path.join(self.path,'lir.npy'))
 
+        if pathexists:
             self.interpolator = RegularGridInterpolator((halopropgrid,zgrid), lirgrid, method='linear', bounds_error=False)
             self.init_lir_function = True
     
@@ -138,12 +140,13 @@ class g13irlf_base():
 
         # lir.npy marks the files as complete - remove it first, write it last
         lirfile = os.path.join(self.path,'lir.npy')
-        if os.path.exists(lirfile):
+        with contextlib.suppress(FileNotFoundError):
             os.remove(lirfile)
-        np.save(os.path.join(self.path,'mass_axis.npy'), halopropgrid)
-        np.save(os.path.join(self.path,'redshift_axis.npy'), zgrid)
-        np.save(os.path.join(self.path,'lir_tmp.npy'), irgrid.T)
-        os.replace(os.path.join(self.path,'lir_tmp.npy'), lirfile)
+        _save_array(os.path.join(self.path,'mass_axis.npy'), halopropgrid)
+        _save_array(os.path.join(self.path,'redshift_axis.npy'), zgrid)
+        _save_array(lirfile, irgrid.T)
+
+        return halopropgrid, zgrid, irgrid.T
 
     def get_irlf_pars(self, z, alpha0=None, sigma0=None, lstar0=None, phistar0=None):
         """Use the redshift scaling from Gruppioni et al. 2013 to get IRLF parameters"""
diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index 53046aa..717d128 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -8,7 +8,7 @@ import astropy.units as u
 import h5py
 import numpy as np
 
-from simim._paths import _SimIMPaths, _replacement
+from simim._paths import _SimIMPaths, _save_array
 from simim.siminterface._sims import _checksim
 
 
@@ -330,9 +330,7 @@ class SimCatalogs():
 
         # The presence of the metadata says that both are there, so it goes last
         for path, data in [(self.snap_meta_path,self.snap_meta),(self.meta_path,self.metadata)]:
-            with _replacement(path) as temp_path:
-                with open(temp_path,'wb') as file:
-                    np.save(file,data)
+            _save_array(path,data)
 
     def clean_raw(self):
         """Remove unformatted data for a simulation
-- 
2.43.0


From b2917ef0094a759581313d2c8c12417d6d3f3759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:20 +0000
Subject: [PATCH 138/138] fix: an interrupted listing of the files of a
 simulation does not make it unusable

---
 simim/siminterface/uchuu.py           | 4 ++--
 simim/siminterface/universemachine.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/simim/siminterface/uchuu.py b/simim/siminterface/uchuu.py
index 991c444..03b9529 100644
--- a/simim/siminterface/uchuu.py
+++ b/simim/siminterface/uchuu.py
@@ -8,7 +8,7 @@ import requests
 import h5py
 import numpy as np
 
-from simim._paths import _make_directory, _replacement
+from simim._paths import _make_directory, _replacement, _save_array
 from simim.siminterface._rawsiminterface import SimCatalogs, Snapshot
 
 class UchuuCatalogs(SimCatalogs):
@@ -63,7 +63,7 @@ class UchuuCatalogs(SimCatalogs):
             order = np.argsort(-redshifts)
             self.web_files = self.web_files[order]
 
-            np.save(self.web_path,self.web_files)
+            _save_array(self.web_path,self.web_files)
 
         # Identify keys that will require unit conversions
         # For UM these are mostly empty because everything's in units
diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index dcd7876..d219e72 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -12,7 +12,7 @@ except:
 
 import numpy as np
 
-from simim._paths import _make_directory, _replacement
+from simim._paths import _make_directory, _replacement, _save_array
 from simim.siminterface._rawsiminterface import SimCatalogs, Snapshot
 from simim.siminterface._sims import _checksim
 
@@ -84,7 +84,7 @@ class UniversemachineCatalogs(SimCatalogs):
                 self.web_files = np.array(web_files)
             except:
                 raise ValueError("Unable to access file names on {}".format(self.webpage))
-            np.save(self.web_path,self.web_files)
+            _save_array(self.web_path,self.web_files)
 
         # Snapshots are numbered by increasing scale factor (read from file names)
         self.web_files = self.web_files[np.argsort([float(t.split('_')[-1][:-4]) for t in self.web_files])]
-- 
2.43.0

