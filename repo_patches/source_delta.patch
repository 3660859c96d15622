From 3e3c413d3a1c0bb3ef9e5495d553f0c0bf247df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:43 +0000
Subject: [PATCH 01/26] fix: lonlat2cart ignored its rad argument

The documented sphere radius was never applied; rad=1. (the only value used
internally) is unaffected.
---
 simplegrid/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simplegrid/util.py b/simplegrid/util.py
index 9ee6c7e..3045e76 100644
--- a/simplegrid/util.py
+++ b/simplegrid/util.py
@@ -31,9 +31,9 @@ def lonlat2cart( lons, lats, rad=1.):
     dims = list(lons.shape)
     dims.append(3)
     cart = np.zeros(dims)
-    cart[:,:,0] = np.cos(np.radians(lons))*np.cos(np.radians(lats)) # x
-    cart[:,:,1] = np.sin(np.radians(lons))*np.cos(np.radians(lats)) # y
-    cart[:,:,2] = np.sin(np.radians(lats))                          # z
+    cart[:,:,0] = rad*np.cos(np.radians(lons))*np.cos(np.radians(lats)) # x
+    cart[:,:,1] = rad*np.sin(np.radians(lons))*np.cos(np.radians(lats)) # y
+    cart[:,:,2] = rad*np.sin(np.radians(lats))                          # z
 
     return cart
 
-- 
2.43.0


From 7642e3e10b4e3aba5ddf632fa6d5433b8b7837f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:43 +0000
Subject: [PATCH 02/26] fix: regrid replaced XG, YG in the caller's
 mitgrid_matrices

Rotating the source into NW/SE alignment stored the rotated matrices in the
dictionary passed by the caller.
---
 simplegrid/regrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simplegrid/regrid.py b/simplegrid/regrid.py
index 3cffefc..3f65762 100644
--- a/simplegrid/regrid.py
+++ b/simplegrid/regrid.py
@@ -160,7 +160,8 @@ def regrid( strict=False, verbose=False, **kwargs):
         else:
             raise ValueError("ni, nj required if xg/yg_file specified")
     elif mitgrid_matrices:
-        mitgrid = mitgrid_matrices
+        # (shallow copy; XG, YG may be replaced by their rotated counterparts)
+        mitgrid = dict(mitgrid_matrices)
         # ni, nj from tracer cell counts:
         (ni,nj) = mitgrid['XC'].shape
     else:
-- 
2.43.0


From 2074084e621e6836e1fc9194c5cf0324a014a84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 03/26] fix: write_mitgridfile could return success over a
 short file

The file was never closed (fd.close without a call) and numpy's tofile does
not report errors on its final flush, so that a full disk was not noticed.
---
 simplegrid/gridio.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simplegrid/gridio.py b/simplegrid/gridio.py
index f53ab79..966aa1a 100644
--- a/simplegrid/gridio.py
+++ b/simplegrid/gridio.py
@@ -158,8 +158,9 @@ def write_mitgridfile(filename,griddata,ni,nj,verbose=False):
         # finally, ensure double-precision, big-endian representation:
         outarray = tmparray.astype('>f8')
         # append to output file:
-        outarray.tofile(fd)
+        # (tofile doesn't report all write errors)
+        fd.write(outarray.tobytes())
 
-    fd.close
+    fd.close()
     return True
 
-- 
2.43.0


From 725bf17f6692e8d08e895f91cc8f779363e53fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 04/26] fix: wrmds did not report failed writes of the data
 file

---
 simplegrid/mds.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 4b2da70..0396bbc 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -601,5 +601,7 @@ def wrmds(fbase, arr, itr=None, dataprec='float32', ndims=None, nrecords=None,
                 f.write("\n")
             f.write(" };\n")
 
-    arr.astype(tp).tofile(fbase + '.data')
+    # (tofile doesn't report all write errors)
+    with open(fbase + '.data', 'wb') as f:
+        f.write(arr.astype(tp).tobytes())
 
-- 
2.43.0


From 6a1d72c5e8669e620a0894a4e30c95771b83fdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 05/26] fix: getobcs wrote boundary files in C instead of
 Fortran order

asfortranarray only changes the memory layout, tofile always writes in C order:
MITgcm expects the boundary index to vary fastest.  Also close the files, so
that write errors are reported.
---
 simplegrid/getobcs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index d9d0b3b..9b8c7cb 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -476,11 +476,12 @@ def getobcs( strict=False, verbose=False, **kwargs):
             # write accumulated time, depth results:
             for ob in obs:
                 if obs[ob]['do']:
-                    outarray = np.asfortranarray(obs[ob]['ob_array'],dtype='>f8')
+                    outarray = obs[ob]['ob_array'].astype('>f8')
                     filename = 'OB'+ob+response.lower() # plus an optional name?
                     fd = open(os.path.join(resultsdir,filename),'wb')
-                    outarray.tofile(fd)
-                    fd.close
+                    # column-major order (tofile and default tobytes are C order):
+                    fd.write(outarray.tobytes(order='F'))
+                    fd.close()
 
 
 def main():
-- 
2.43.0


From 592c92a0d19f446b007633c3f3c5c2ee6de8ed71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 06/26] fix: getobcs repeated every time step once per tile of
 tiled results

---
 simplegrid/getobcs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index 9b8c7cb..ae0cbe0 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -337,8 +337,9 @@ def getobcs( strict=False, verbose=False, **kwargs):
 
     # get integer time steps from filenames:
     re_time = re.compile('\d+')
-    times = sorted( [int(re_time.findall(os.path.basename(f))[0])
-        for f in glob.glob(os.path.join(parent_resultsdir,'T.*.data'))])
+    # (each only once, since tiled results have several files per time step)
+    times = sorted( set(int(re_time.findall(os.path.basename(f))[0])
+        for f in glob.glob(os.path.join(parent_resultsdir,'T.*.data'))))
     ntimes = len(times)
     # open up a temperature file, get depths from matrix size:
     T1 = mds.rdmds(os.path.join(parent_resultsdir,'T'),times[0])
-- 
2.43.0


From 7b7b60cf1921b6de00b6a6909a409d085694d0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 07/26] fix: squad_uarea disabled all warnings of the calling
 process

warnings.filterwarnings('ignore') was never undone; restrict it to numpy's
floating-point warnings inside the function.
---
 simplegrid/util.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/simplegrid/util.py b/simplegrid/util.py
index 3045e76..82ea6ab 100644
--- a/simplegrid/util.py
+++ b/simplegrid/util.py
@@ -80,6 +80,8 @@ def nearest(lon,lat,lons,lats,geod):
     return i,j,dist
 
 
+# (only because some geometries are poorly conditioned)
+@np.errstate(divide='ignore',invalid='ignore')
 def squad_uarea( cart):
     """Compute quadrilateral surface areas for cartesian array of corner points
     on the unit sphere.
@@ -102,10 +104,6 @@ def squad_uarea( cart):
 
     """
 
-    # only because some geometries are poorly conditioned:
-    import warnings
-    warnings.filterwarnings("ignore")
-
     area = np.zeros((np.size(cart,0)-1,np.size(cart,1)-1))
 
     for x_idx in np.arange(np.size(cart,0)-1):
-- 
2.43.0


From a6e5ff1d3e12f15c162efd80a433724c1cad0ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 08/26] fix: cell areas were NaN where corners of a cell
 coincide

Cells touching a pole have two coincident corners, for which the angles of one
subtriangle (and so its spherical excess) are undefined. Use the excess computed
from the corner vectors there.
---
 simplegrid/util.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/simplegrid/util.py b/simplegrid/util.py
index 82ea6ab..f90aa0c 100644
--- a/simplegrid/util.py
+++ b/simplegrid/util.py
@@ -134,6 +134,14 @@ def squad_uarea( cart):
             # area:
             area[x_idx,y_idx] = A1+B1+C1 + A2+B2+C2 - 2*np.pi
 
+            # angles are undefined if corners coincide (e.g., at a pole); use
+            # spherical excess from corner vectors instead:
+            if not np.isfinite(area[x_idx,y_idx]):
+                area[x_idx,y_idx] = sum( 2.*np.arctan2(
+                    abs(np.dot(u,np.cross(v,w))),
+                    1.+np.dot(u,v)+np.dot(v,w)+np.dot(w,u))
+                    for (u,v,w) in ((ptA,ptB,ptC),(ptA,ptC,ptD)))
+
     return area
 
 
-- 
2.43.0


From 3247893f43293bec0afb010a9f527a8b3fa3b6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:19 +0000
Subject: [PATCH 09/26] fix: rdmds with a memory map extended short data files

The default r+ mode of numpy.memmap grows a truncated file in place and returns
zeros for the missing data; map it read-only, so that it is refused instead.
---
 simplegrid/mds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 0396bbc..a88f1a6 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -306,7 +306,8 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
 
     if usememmap:
         recsatonce = True
-        readdata = np.memmap
+        # (read-only: the default mode would extend files that are too short)
+        readdata = functools.partial(np.memmap, mode='r')
     else:
         recsatonce = allrec
         readdata = fromfileshape
-- 
2.43.0


From 8c6ac6d34788753a18770c867b28d959b07f72c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:19 +0000
Subject: [PATCH 10/26] fix: wrmds derived the wrong iteration number for
 fractional time steps

Floor division of a time that is a multiple of deltat up to roundoff (0.3//0.1)
gave the preceding iteration.
---
 simplegrid/mds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index a88f1a6..07c343a 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -552,7 +552,8 @@ def wrmds(fbase, arr, itr=None, dataprec='float32', ndims=None, nrecords=None,
 
     if deltat is not None:
         if itr is None:
-            itr = int(times[-1]//deltat)
+            # (tolerate roundoff, e.g., 0.3//0.1 is 2)
+            itr = int(times[-1]/deltat + 1e-6)
         elif times is None:
             times = [ deltat*itr ]
         else:
-- 
2.43.0


From 09990b45bd4caae6def9e572ef2a531b17ebea35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:19 +0000
Subject: [PATCH 11/26] fix: regrid misread a pair of one csv and one binary
 xg/yg file

Both files were taken as binary unless both had the .csv extension, although
the format is documented per file.
---
 simplegrid/regrid.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/simplegrid/regrid.py b/simplegrid/regrid.py
index 3f65762..9405aaa 100644
--- a/simplegrid/regrid.py
+++ b/simplegrid/regrid.py
@@ -144,19 +144,16 @@ def regrid( strict=False, verbose=False, **kwargs):
     elif xg_file and yg_file:
         mitgrid = {key:None for key in mitgridfilefields.names}
         if ni and nj:
-            if os.path.splitext(xg_file)[1] == '.csv' and \
-               os.path.splitext(yg_file)[1] == '.csv':
-                # read .csv data, store in dictionary fields that read_mitgridfile
-                # would have produced:
-                mitgrid['XG'] = np.loadtxt(xg_file,delimiter=',')
-                mitgrid['YG'] = np.loadtxt(yg_file,delimiter=',')
-            else:
-                # read binary column-ordered data, store in dictionary fields that
-                # read_mitgridfile would have produced:
-                XG_raw = np.fromfile(xg_file,mitgridfilefields.datatype)
-                mitgrid['XG'] = np.reshape(XG_raw,(ni+1,nj+1),order='F')
-                YG_raw = np.fromfile(yg_file,mitgridfilefields.datatype)
-                mitgrid['YG'] = np.reshape(YG_raw,(ni+1,nj+1),order='F')
+            for name,filename in (('XG',xg_file),('YG',yg_file)):
+                if os.path.splitext(filename)[1] == '.csv':
+                    # read .csv data, store in dictionary fields that
+                    # read_mitgridfile would have produced:
+                    mitgrid[name] = np.loadtxt(filename,delimiter=',')
+                else:
+                    # read binary column-ordered data, store in dictionary
+                    # fields that read_mitgridfile would have produced:
+                    raw = np.fromfile(filename,mitgridfilefields.datatype)
+                    mitgrid[name] = np.reshape(raw,(ni+1,nj+1),order='F')
         else:
             raise ValueError("ni, nj required if xg/yg_file specified")
     elif mitgrid_matrices:
-- 
2.43.0


From 13999f4cf7751d3725dfa78e500ff9a5358632d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:27 +0000
Subject: [PATCH 12/26] fix: matchedges accepted tiles that divide the common
 edge differently

Depending on which tile had more points this led to an IndexError or to silently
wrong results.
---
 simplegrid/matchedges.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simplegrid/matchedges.py b/simplegrid/matchedges.py
index 9ca0346..9a89029 100644
--- a/simplegrid/matchedges.py
+++ b/simplegrid/matchedges.py
@@ -153,6 +153,9 @@ def matchedges( aXG, aYG, bXG, bYG, geod, verbose=False):
     if (a_edge+b_edge!=N+S) and (a_edge+b_edge!=E+W):
         raise ValueError('Inconsistent edge match for input grids')
 
+    if aXG[a_edge_slice].shape != bXG[b_edge_slice].shape:
+        raise ValueError('Different numbers of points on common edge of input grids')
+
     if verbose:
         print(msg)
 
-- 
2.43.0


From f1f33e3789542288c3a6768438705a06aa4c6237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:27 +0000
Subject: [PATCH 13/26] fix: getobcs could not be given boundary index vectors

'if not vector' raises an error for vectors, and took the documented zero vector
as a missing one if of length one; negative indices were only applied to the
north and east boundaries.
---
 simplegrid/getobcs.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index ae0cbe0..1dff9d9 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -156,10 +156,11 @@ def getobcs( strict=False, verbose=False, **kwargs):
     ni_regional             = kwargs.get('ni_regional')
     nj_regional             = kwargs.get('nj_regional')
     parent_resultsdir       = kwargs.get('parent_resultsdir')
-    ob_jnorth               = np.array(kwargs.get('OB_Jnorth'))
-    ob_jsouth               = np.array(kwargs.get('OB_Jsouth'))
-    ob_ieast                = np.array(kwargs.get('OB_Ieast'))
-    ob_iwest                = np.array(kwargs.get('OB_Iwest'))
+    obvec = lambda name : None if kwargs.get(name) is None else np.atleast_1d(kwargs.get(name))
+    ob_jnorth               = obvec('OB_Jnorth')
+    ob_jsouth               = obvec('OB_Jsouth')
+    ob_ieast                = obvec('OB_Ieast')
+    ob_iwest                = obvec('OB_Iwest')
     resultsdir              = kwargs.get('resultsdir')
 
     #
@@ -236,21 +237,21 @@ def getobcs( strict=False, verbose=False, **kwargs):
     # defaults:
 
     do_ob_jnorth, do_ob_jsouth, do_ob_ieast, do_ob_iwest = [True]*4
-    if not ob_jnorth:
+    if ob_jnorth is None:
         ob_jnorth = np.ones(ni_regional,dtype=int)*nj_regional
-    elif not any(ob_jnorth!=0):
+    elif not np.any(ob_jnorth):
         do_ob_jnorth = False
-    if not ob_jsouth:
+    if ob_jsouth is None:
         ob_jsouth = np.ones(ni_regional,dtype=int)
-    elif not any(ob_jsouth!=0):
+    elif not np.any(ob_jsouth):
         do_ob_jsouth = False
-    if not ob_ieast:
+    if ob_ieast is None:
         ob_ieast = np.ones(nj_regional,dtype=int)*ni_regional
-    elif not any(ob_ieast!=0):
+    elif not np.any(ob_ieast):
         do_ob_ieast = False
-    if not ob_iwest:
+    if ob_iwest is None:
         ob_iwest = np.ones(nj_regional,dtype=int)
-    elif not any(ob_iwest!=0):
+    elif not np.any(ob_iwest):
         do_ob_iwest = False
 
     # apply logic to negative indices and convert vectors to zeros-based:
@@ -258,11 +259,11 @@ def getobcs( strict=False, verbose=False, **kwargs):
     if do_ob_jnorth:
         ob_jnorth = np.array([nj_regional+1+j if j<0 else j for j in ob_jnorth]) - 1
     if do_ob_jsouth:
-        ob_jsouth = ob_jsouth - 1
+        ob_jsouth = np.array([nj_regional+1+j if j<0 else j for j in ob_jsouth]) - 1
     if do_ob_ieast:
         ob_ieast = np.array([ni_regional+1+i if i<0 else i for i in ob_ieast]) - 1
     if do_ob_iwest:
-        ob_iwest = ob_iwest - 1
+        ob_iwest = np.array([ni_regional+1+i if i<0 else i for i in ob_iwest]) - 1
 
     #
     # output directory:
-- 
2.43.0


From cbfba868afb011022fa762def46f57bfad370b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:27 +0000
Subject: [PATCH 14/26] fix: sggetobcs accepted no boundary index vectors and
 no default resultsdir

The OB_* options are documented as vectors but took a single integer, and
resultsdir was required in spite of its documented default.
---
 simplegrid/getobcs.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index 1dff9d9..13e6bef 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -37,21 +37,21 @@ def create_parser():
         number of tracer points in the regional model grid 'y' direction""")
     parser.add_argument('--parent_resultsdir', required=True, help="""
         MITgcm parent grid results directory""")
-    parser.add_argument('--OB_Jnorth', type=int, help="""
+    parser.add_argument('--OB_Jnorth', type=int, nargs='+', help="""
         North boundary vector of length ni_regional containing boundary tracer
         cell j indices per MITgcm OBCS package conventions.  Boundaries are
         ignored for any index vector that is identically zero, and defaults to
         edge tracer cell indices if not provided. Negative indices supported.""")
-    parser.add_argument('--OB_Jsouth', type=int, help="""
+    parser.add_argument('--OB_Jsouth', type=int, nargs='+', help="""
         South boundary vector of length ni_regional containing boundary tracer
         cell j indices (See --OB_JNorth comments)""")
-    parser.add_argument('--OB_Ieast', type=int, help="""
+    parser.add_argument('--OB_Ieast', type=int, nargs='+', help="""
         East boundary vector of length nj_regional containing boundary tracer
         cell i indices (See --OB_JNorth comments)""")
-    parser.add_argument('--OB_Iwest', type=int, help="""
+    parser.add_argument('--OB_Iwest', type=int, nargs='+', help="""
         West boundary vector of length nj_regional containing boundary tracer
         cell i indices (See --OB_JNorth comments)""")
-    parser.add_argument('--resultsdir', required=True, help="""
+    parser.add_argument('--resultsdir', help="""
         directory in which to store resulting open boundary condition matrices.
         Defaults to parent_resultsdir+'_obcs' if not provided.""")
     parser.add_argument('-s','--strict',action='store_true', help="""
-- 
2.43.0


From 09b4c24d1eb46d8bf9e3fe56ef5186e12cc4d95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 15/26] fix: rdmds read tiles of different shapes with the
 first tile's shape

---
 simplegrid/mds.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 07c343a..fb44146 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -337,6 +337,9 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
 
         for metafile in metafiles:
             gdims,i0s,ies,timestep,timeinterval,map2gl,meta = readmeta(metafile)
+            # (tiles need not all have the same shape)
+            recshape = tuple( ie-i0 for i0,ie in zip(i0s,ies) )
+            count = functools.reduce(mul, recshape)
             if arr is None:
                 # initialize, allocate
                 try:
@@ -346,10 +349,7 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
                 tp = typepre + _typesuffixes[dataprec]
                 size = np.dtype(tp).itemsize
                 if astype is None: astype = tp
-                recshape = tuple( ie-i0 for i0,ie in zip(i0s,ies) )
-                count = functools.reduce(mul, recshape)
                 nrecords, = meta['nrecords']
-                tileshape = (nrecords,) + recshape
                 if allrec:
                     reclist = range(nrecords)
                     recinds = np.s_[:,] + levinds
@@ -375,6 +375,7 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
                 if meta != metaref:
                     raise ValueError('Meta files not compatible')
 
+            tileshape = (nrecords,) + recshape
             datafile = metafile[:-4] + 'data'
 
             if region is not None:
-- 
2.43.0


From b4b59b02ae9dc140e3b1ba401d9517d2ed9b441a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 16/26] fix: rdmds with squeeze=False failed for files with
 several records

---
 simplegrid/mds.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index fb44146..fbcb9d5 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -467,7 +467,9 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
             squeezed = tuple( d for d in dims if d > 1 )
         else:
             # squeeze all that came from scalar arguments
-            keepers = [itrsislist, np.iterable(rec)] + [np.iterable(l) for l in lev]
+            # (all of several records, if none were selected)
+            keeprec = np.iterable(rec) or (allrec and len(reclist) > 1)
+            keepers = [itrsislist, keeprec] + [np.iterable(l) for l in lev]
             squeezed = tuple( d for d,keep in zip(dims, keepers) if keep )
 
         arr = arr.reshape(squeezed+arr.shape[2+nlev:])
-- 
2.43.0


From d225956a1bcb53c413aaf8e5d8513ab87dca2a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 17/26] fix: parsemeta swallowed the entries after a missing or
 wrong closing delimiter

---
 simplegrid/mds.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index fbcb9d5..6a2b00e 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -111,7 +111,13 @@ def parsemeta(metafile):
             except StopIteration:
                 raise ParseError(metafile,line,'No closing ' + closing + ' found.')
 
-            line += ' ' + strip_comments(nextline).rstrip()
+            nextline = strip_comments(nextline).rstrip()
+
+            # (the next entry has begun)
+            if re.match(r' *\w+ *= *[\[{]', nextline):
+                raise ParseError(metafile,line,'No closing ' + closing + ' found.')
+
+            line += ' ' + nextline
 
         if line[-2:] != closing + ';':
             raise ParseError(metafile,line,
-- 
2.43.0


From 681b14065a6d1031cefd0d9a35bcb4a550c7df4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 18/26] fix: rdmds failed for lists with more entries than
 there are levels

---
 simplegrid/mds.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 6a2b00e..d556e36 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -405,6 +405,8 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
                     raise NotImplementedError('Region selection is not implemented for map2glob != [0,1]')
 
             sl = tuple( slice(i0,ie) for i0,ie in zip(i0s,ies) )
+            # (selected levels: all that were read, possibly repeated)
+            sl = nlev*(slice(None),) + sl[nlev:]
             if map2gl is None:
                 # part of arr that will receive tile (all records)
                 arrtile = arr[(iit,slice(None))+sl]
-- 
2.43.0


From 38a24d3eef4b81646d14bd0d602f949807be188e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:45 +0000
Subject: [PATCH 19/26] fix: regrid did not return if one of the corners was
 not a number

---
 simplegrid/regrid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simplegrid/regrid.py b/simplegrid/regrid.py
index 9405aaa..a2e3915 100644
--- a/simplegrid/regrid.py
+++ b/simplegrid/regrid.py
@@ -174,6 +174,10 @@ def regrid( strict=False, verbose=False, **kwargs):
     i_nw,j_nw,_ = util.nearest(lon1,lat1,mitgrid['XG'],mitgrid['YG'],geod)
     i_se,j_se,_ = util.nearest(lon2,lat2,mitgrid['XG'],mitgrid['YG'],geod)
 
+    # (no nearest point if a coordinate isn't a number)
+    if min(i_nw,i_se)<0:
+        raise ValueError("lon/lat input pairs must be finite.")
+
     # make sure diagonal corners and not degenerate sides have been input:
     if i_nw==i_se or j_nw==j_se:
         raise ValueError("lon/lat input pairs must be diagonally-opposed.")
-- 
2.43.0


From 2c90e300ae14e2864599eb3b15e51bcf8eecee00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:45 +0000
Subject: [PATCH 20/26] fix: mds2mitgrid reported fields that could not be read
 as absent

---
 simplegrid/mds2mitgrid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simplegrid/mds2mitgrid.py b/simplegrid/mds2mitgrid.py
index 3696226..0019a38 100644
--- a/simplegrid/mds2mitgrid.py
+++ b/simplegrid/mds2mitgrid.py
@@ -34,7 +34,10 @@ def mds2mitgrid(rundir='./',verbose=False):
             if verbose:
                 print('reading {0:>3s}...'.format(name),end='')
             tmp = mds.rdmds(rundir+os.sep+name).T
-        except:
+        except IOError as e:
+            # (system errors: present, but can't be read)
+            if e.errno is not None:
+                raise
             if verbose:
                 print('............no data')
             continue
-- 
2.43.0


From 687172c88dc2eafc8e7055507e51f747682d0002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 21/26] fix: getobcs reused interpolation weights of other
 grids of the same size

---
 simplegrid/getobcs.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index 13e6bef..458e6b8 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -6,6 +6,7 @@ import numpy as np
 import os.path
 import re
 import xesmf as xe
+import zlib
 
 from . import gridio
 from . import mds
@@ -81,15 +82,22 @@ def weightfilename( interp_meth, grid_in, grid_out, response_type, netcdf_ext):
         netcdf_ext (str): NetCDF file extension (typically '.nc')
 
     Returns:
-        Regridder filename string, e.g., 'bilinear_20x16_40x32_tracer.nc'
+        Regridder filename string, e.g.,
+        'bilinear_20x16_40x32_tracer_1a2b3c4d.nc', where the last part depends
+        on the grid points, so that weights are only reused for the same grids.
 
     """
 
-    return '{0}_{1}x{2}_{3}x{4}_{5}.nc'.format(
+    crc = 0
+    for grid in (grid_in,grid_out):
+        for coord in ('lon','lat'):
+            crc = zlib.crc32(np.array(grid[coord],dtype='f8').tobytes(),crc)
+
+    return '{0}_{1}x{2}_{3}x{4}_{5}_{7:08x}.nc'.format(
         interp_meth,
         str(grid_in['lon'].shape[0]), str(grid_in['lon'].shape[1]),   # either
         str(grid_out['lon'].shape[0]), str(grid_out['lon'].shape[1]), # lon or lat
-        response_type, netcdf_ext)
+        response_type, netcdf_ext, crc)
 
 
 def getobcs( strict=False, verbose=False, **kwargs):
-- 
2.43.0


From cce6a4dbd1c8e5c5f486362e6f6ba097552b3878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:25 +0000
Subject: [PATCH 22/26] fix: squad_uarea could change the numpy error handling
 of other threads

---
 simplegrid/util.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/simplegrid/util.py b/simplegrid/util.py
index f90aa0c..31924f0 100644
--- a/simplegrid/util.py
+++ b/simplegrid/util.py
@@ -80,8 +80,6 @@ def nearest(lon,lat,lons,lats,geod):
     return i,j,dist
 
 
-# (only because some geometries are poorly conditioned)
-@np.errstate(divide='ignore',invalid='ignore')
 def squad_uarea( cart):
     """Compute quadrilateral surface areas for cartesian array of corner points
     on the unit sphere.
@@ -104,6 +102,15 @@ def squad_uarea( cart):
 
     """
 
+    # (only because some geometries are poorly conditioned; not as a decorator,
+    # which would share the saved error state between threads)
+    with np.errstate(divide='ignore',invalid='ignore'):
+        return _squad_uarea(cart)
+
+
+def _squad_uarea( cart):
+    """squad_uarea without floating point error handling."""
+
     area = np.zeros((np.size(cart,0)-1,np.size(cart,1)-1))
 
     for x_idx in np.arange(np.size(cart,0)-1):
-- 
2.43.0


From 66835412f54399a17f6b8a969602ad937f191de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:20 +0000
Subject: [PATCH 23/26] fix: rdmds did not recognise nan and inf other than
 numpy's own objects

---
 simplegrid/mds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index d556e36..0c50be2 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -278,13 +278,13 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
 
     # add iteration number to file name unless itrs is -1
     additrs = itrs != -1
-    if itrs is np.nan:
+    if not np.iterable(itrs) and np.isnan(itrs):
         # all iterations
         itrs = scanforfiles(fnamearg)
         if verbose: warning('Reading {0} time levels: '.format(len(itrs)), *itrs)
         returnits = True
         itrsislist = True
-    elif itrs is np.inf:
+    elif not np.iterable(itrs) and itrs == np.inf:
         # last iteration
         itrs = scanforfiles(fnamearg)
         if len(itrs):
-- 
2.43.0


From 7f3b3aaa3f4cf4515e0b806834ae973ba61a5536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:41 +0000
Subject: [PATCH 24/26] fix: rdmds failed for iterations given as an array

---
 simplegrid/mds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 0c50be2..bcfec6f 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -277,7 +277,7 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
         readdata = fromfileshape
 
     # add iteration number to file name unless itrs is -1
-    additrs = itrs != -1
+    additrs = np.iterable(itrs) or itrs != -1
     if not np.iterable(itrs) and np.isnan(itrs):
         # all iterations
         itrs = scanforfiles(fnamearg)
-- 
2.43.0


From c888dc773837a340cf2089dd53680dd8eacda395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:54 +0000
Subject: [PATCH 25/26] fix: addfringe filled cell centres in the longitude
 convention of the other tile

---
 simplegrid/addfringe.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/simplegrid/addfringe.py b/simplegrid/addfringe.py
index b46322b..4762217 100644
--- a/simplegrid/addfringe.py
+++ b/simplegrid/addfringe.py
@@ -131,18 +131,19 @@ def addfringe( strict=False, verbose=False, **kwargs):
         compute_grid_yg[i_cg(it.multi_index[0]),j_cg(it.multi_index[1])] = it[1]
         it.iternext()
 
-    # augment tile 'a' compute grid with interpolated tile 'b' edge cell
-    # data...:
-    compute_grid_xg[compute_grid_edge_join_slice] = compute_grid_edge_xg
-    compute_grid_yg[compute_grid_edge_join_slice] = compute_grid_edge_yg
-
-    # ...and recompute:
+    # subdivide tile 'a' (before adding edge data, since tile 'b' may be using
+    # another longitude convention)...:
     lon_subscale = 1
     lat_subscale = 1
     (compute_grid_xg,compute_grid_yg) = computegrid.fill(
         compute_grid_xg, compute_grid_yg, ilb, iub, jlb, jub,
         lon_subscale, lat_subscale, geod, verbose)
 
+    # ...augment tile 'a' compute grid with interpolated tile 'b' edge cell
+    # data, and recompute:
+    compute_grid_xg[compute_grid_edge_join_slice] = compute_grid_edge_xg
+    compute_grid_yg[compute_grid_edge_join_slice] = compute_grid_edge_yg
+
     new_tilea_mitgrid = computegrid.tomitgrid(
         compute_grid_xg, compute_grid_yg,
         iLB, ilb, iub, iUB, jLB, jlb, jub, jUB,
-- 
2.43.0


From dd2e08d1b1bdf0ebe48bfb7be2b51f95e6b53f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:34 +0000
Subject: [PATCH 26/26] fix: keep empty strings and apostrophes at either end
 when parsing {} values

parsemeta stripped all quotes at both ends of the list, so that the first
or last of several strings was misread when empty ('' 'S' became " 'S"),
and leading or trailing apostrophes of the simulation name were lost.
---
 simplegrid/mds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index bcfec6f..7022340 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -132,7 +132,8 @@ def parsemeta(metafile):
             val = [ parse1(s) for s in re.split(r'[, ] *',line) ]
         else:
             # {} can only contain single quote-delimited strings separated by space
-            val = [ s.rstrip() for s in re.split(r"'  *'", line.strip("'")) ]
+            # (just the outer quotes: strings may be empty)
+            val = [ s.rstrip() for s in re.split(r"'  *'", re.sub(r"^'|'$", '', line)) ]
 
         d[key] = val
 
-- 
2.43.0

