From dffc935a4c35d09f26a543d0d569a85e26e59ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:56 +0000
Subject: [PATCH 01/43] fix: randoms_1d returned an undefined name

---
 magpie/randoms/cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/randoms/cart.py b/magpie/randoms/cart.py
index 93ccb5c..58a025a 100644
--- a/magpie/randoms/cart.py
+++ b/magpie/randoms/cart.py
@@ -19,7 +19,7 @@ def randoms_1d(size, xmin=0., xmax=1.):
         Uniform randoms in 1D.
     """
     xrands = (xmax - xmin)*np.random.random_sample(size) + xmin
-    return xrand
+    return xrands
 
 
 def randoms_2d(size, mins=[0., 0.], maxs=[1., 1.]):
-- 
2.43.0


From 24dbf6fd5d4716480d140cc0035d414dbf634067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:56 +0000
Subject: [PATCH 02/43] fix: randoms_2d/3d ignored the upper bound of the x
 axis

---
 magpie/randoms/cart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/randoms/cart.py b/magpie/randoms/cart.py
index 58a025a..386b28c 100644
--- a/magpie/randoms/cart.py
+++ b/magpie/randoms/cart.py
@@ -39,7 +39,7 @@ def randoms_2d(size, mins=[0., 0.], maxs=[1., 1.]):
     xrands, yrands : array
         Uniform randoms in 2D.
     """
-    xrands = randoms_1d(size, xmin=mins[0], xmax=mins[0])
+    xrands = randoms_1d(size, xmin=mins[0], xmax=maxs[0])
     yrands = randoms_1d(size, xmin=mins[1], xmax=maxs[1])
     return xrands, yrands
 
@@ -61,7 +61,7 @@ def randoms_3d(size, mins=[0., 0., 0], maxs=[1., 1., 1.]):
     xrands, yrands, zrands : array
         Uniform randoms in 3D.
     """
-    xrands = randoms_1d(size, xmin=mins[0], xmax=mins[0])
+    xrands = randoms_1d(size, xmin=mins[0], xmax=maxs[0])
     yrands = randoms_1d(size, xmin=mins[1], xmax=maxs[1])
     zrands = randoms_1d(size, xmin=mins[2], xmax=maxs[2])
     return xrands, yrands, zrands
-- 
2.43.0


From 61dad3d3a3246bf96aceee717633ab6f9a3e6c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:56 +0000
Subject: [PATCH 03/43] fix: grid2grid1D failed when boxsizeout was left at its
 default

---
 magpie/remap/grid2grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/magpie/remap/grid2grid.py b/magpie/remap/grid2grid.py
index 4a92cb9..6b4186a 100644
--- a/magpie/remap/grid2grid.py
+++ b/magpie/remap/grid2grid.py
@@ -27,6 +27,8 @@ def grid2grid1D(f1, boxsize, ngridout, origin=0., originout=0., boxsizeout=None)
         The remapped pixel values for the output 1D grid."""
     x1min = origin
     x1max = origin + boxsize
+    if boxsizeout is None:
+        boxsizeout = boxsize
     x2min = originout
     x2max = originout + boxsizeout
     f1shape = np.shape(f1)
-- 
2.43.0


From 1863b6019213519712170be25c3cd49d94985878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:56 +0000
Subject: [PATCH 04/43] fix: grid2grid3D could not take a list of output grid
 divisions

---
 magpie/remap/grid2grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/remap/grid2grid.py b/magpie/remap/grid2grid.py
index 6b4186a..531f6bb 100644
--- a/magpie/remap/grid2grid.py
+++ b/magpie/remap/grid2grid.py
@@ -173,7 +173,7 @@ def grid2grid3D(f1, boxsize, ngridout, origin=0., originout=0., boxsizeout=None)
     if np.isscalar(ngridout) is True:
         x2grid, y2grid, z2grid = ngridout, ngridout, ngridout
     else:
-        x2grid, y2grid = ngridout[0], ngridout[1], ngridout[2]
+        x2grid, y2grid, z2grid = ngridout[0], ngridout[1], ngridout[2]
     xpixlen = src.get_remap_pix_len(x1min=x1min, x1max=x1max, grid1=x1grid, x2min=x2min, x2max=x2max, grid2=x2grid)
     ypixlen = src.get_remap_pix_len(x1min=y1min, x1max=y1max, grid1=y1grid, x2min=y2min, x2max=y2max, grid2=y2grid)
     zpixlen = src.get_remap_pix_len(x1min=z1min, x1max=z1max, grid1=z1grid, x2min=z2min, x2max=z2max, grid2=z2grid)
-- 
2.43.0


From 7316f33e98491246cb08823f7a5a942fefa604a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:56 +0000
Subject: [PATCH 05/43] fix: output pixels just below the input grid used
 uninitialised weights

---
 magpie/src/remap_utils.f90 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/magpie/src/remap_utils.f90 b/magpie/src/remap_utils.f90
index 69e6be8..ac4a8b7 100644
--- a/magpie/src/remap_utils.f90
+++ b/magpie/src/remap_utils.f90
@@ -277,6 +277,9 @@ subroutine remap_1d_grid2grid_pixel(x1min, x1max, grid1, x2min, x2max, grid2, wh
         pix(i) = -1
       end if
     end do
+  else
+    pix = -1
+    weights = 0.
   end if
 
 end subroutine remap_1d_grid2grid_pixel
-- 
2.43.0


From fce6c737dc9376c4b2961c20085ac0d3a962a926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:56 +0000
Subject: [PATCH 06/43] fix: rotate_polar ignored phi and indexed a float

---
 magpie/coords/polar.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/magpie/coords/polar.py b/magpie/coords/polar.py
index 49a0222..d659ceb 100644
--- a/magpie/coords/polar.py
+++ b/magpie/coords/polar.py
@@ -18,11 +18,7 @@ def rotate_polar(phi, rotate):
     """
     assert rotate > 0. and rotate < 2.*np.pi, \
         "Rotation angles must have lie between [0, 2pi]."
-    rot_phi = rotate
-    cond = np.where(rot_phi >= 2.*np.pi)[0]
-    rot_phi[cond] -= 2.*np.pi
-    cond = np.where(rot_phi < 0.)[0]
-    rot_phi[cond] += 2.*np.pi
+    rot_phi = (phi + rotate) % (2.*np.pi)
     return rot_phi
 
 
-- 
2.43.0


From a1f3f056607923865ed20cba64286756ffc64600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:56 +0000
Subject: [PATCH 07/43] fix: rotate_polar_grid swapped its interpolation
 weights, wrapped onto an already rotated row and overwrote its input

---
 magpie/coords/polar.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/magpie/coords/polar.py b/magpie/coords/polar.py
index d659ceb..69f30ef 100644
--- a/magpie/coords/polar.py
+++ b/magpie/coords/polar.py
@@ -50,11 +50,12 @@ def rotate_polar_grid(pedges, f_polar, phi_shift):
         f_polar_rot[-ind_shift:] = f_polar[:ind_shift]
         f_polar_rot[:-ind_shift] = f_polar[ind_shift:]
     else:
-        f_polar_rot = f_polar
-    f_polar_rot[:-1] = w_shift*f_polar_rot[:-1] + (1.-w_shift)*f_polar_rot[1:]
+        f_polar_rot[:] = f_polar
+    first = np.copy(f_polar_rot[0])
+    f_polar_rot[:-1] = (1.-w_shift)*f_polar_rot[:-1] + w_shift*f_polar_rot[1:]
     # check if polar grid has the range 0 to 2pi, if it does wrap the rotation
     if pedges[-1] - pedges[0] == 2.*np.pi:
-        f_polar_rot[-1] = w_shift*f_polar_rot[-1] + (1.-w_shift)*f_polar_rot[0]
+        f_polar_rot[-1] = (1.-w_shift)*f_polar_rot[-1] + w_shift*first
     else:
-        f_polar_rot[-1] *= w_shift
+        f_polar_rot[-1] *= 1.-w_shift
     return f_polar_rot
-- 
2.43.0


From 2410fd0e0467c6ab7fba75eebc3f182a5d6bc8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:56 +0000
Subject: [PATCH 08/43] fix: rotate_polar methods called the coordinate
 rotation instead of the grid rotation

---
 magpie/coords/__init__.py      | 1 +
 magpie/densegrid/box2ring.py   | 2 +-
 magpie/densegrid/heal2ring.py  | 2 +-
 magpie/montecarlo/box2ring.py  | 2 +-
 magpie/montecarlo/heal2ring.py | 2 +-
 5 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/magpie/coords/__init__.py b/magpie/coords/__init__.py
index f2365eb..93fc355 100644
--- a/magpie/coords/__init__.py
+++ b/magpie/coords/__init__.py
@@ -13,6 +13,7 @@ from .usphere_util import sphere2lonlat
 from .usphere_util import lonlat2sphere
 
 from .polar import rotate_polar
+from .polar import rotate_polar_grid
 
 from .usphere import usphere_rotate
 from .usphere import usphere_phi_shift
diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 2c7c427..2b94cf7 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -229,7 +229,7 @@ class Box2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.pedges, f_polar, phi_shift)
+        return coords.rotate_polar_grid(self.pedges, f_polar, phi_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 93b94aa..7f023a0 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -188,7 +188,7 @@ class Heal2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.beta2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.beta_edges, f_polar, beta_shift)
+        return coords.rotate_polar_grid(self.beta_edges, f_polar, beta_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index aceb8ab..6461550 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -321,7 +321,7 @@ class Box2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.pedges, f_polar, phi_shift)
+        return coords.rotate_polar_grid(self.pedges, f_polar, phi_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 3d9414f..3c45f8c 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -182,7 +182,7 @@ class Heal2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.beta2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.beta_edges, f_polar, beta_shift)
+        return coords.rotate_polar_grid(self.beta_edges, f_polar, beta_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
-- 
2.43.0


From ae28a8beba410025d945d4bccb773dae612e514b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:56 +0000
Subject: [PATCH 09/43] fix: HEALPix remappers called usphere_area by its
 former name sky_area

---
 magpie/densegrid/heal2polar.py | 2 +-
 magpie/densegrid/heal2ring.py  | 4 ++--
 magpie/montecarlo/heal2ring.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index d0ba898..524e313 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -136,7 +136,7 @@ class Heal2Polar:
         f_box_highres = np.zeros(np.shape(self.rebin_x2d))
         f_box_highres[self.rebin_xind, self.rebin_yind] = f[self.rebin_pix]
         dx = self.rebin_xedges[1] - self.rebin_xedges[0]
-        area = np.array([coords.sky_area(0., dx, self.rebin_yedges[i]+np.pi/2., self.rebin_yedges[i+1]+np.pi/2.) for i in range(0, len(self.rebin_yedges)-1)])
+        area = np.array([coords.usphere_area(0., dx, self.rebin_yedges[i]+np.pi/2., self.rebin_yedges[i+1]+np.pi/2.) for i in range(0, len(self.rebin_yedges)-1)])
         y_bin_weights = area
         _, y_bin_weights_2d = np.meshgrid(self.rebin_xmid, y_bin_weights)
         f_box_highres *= y_bin_weights_2d
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 7f023a0..37ed844 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -135,7 +135,7 @@ class Heal2Ring:
         f_polar_highres = np.zeros(np.shape(self.rebin_alpha2d))
         f_polar_highres[self.rebin_alpha_ind, self.rebin_beta_ind] = f[self.rebin_pix]
         dbeta = self.rebin_beta_edges[1] - self.rebin_beta_edges[0]
-        area = np.array([coords.sky_area(0., dbeta, self.rebin_alpha_edges[i], self.rebin_alpha_edges[i+1]) for i in range(0, len(self.rebin_alpha_edges)-1)])
+        area = np.array([coords.usphere_area(0., dbeta, self.rebin_alpha_edges[i], self.rebin_alpha_edges[i+1]) for i in range(0, len(self.rebin_alpha_edges)-1)])
         alpha_bin_weights = area
         alpha_bin_weights_2d, _ = np.meshgrid(alpha_bin_weights, self.rebin_beta_mid)
         f_polar_highres *= alpha_bin_weights_2d
@@ -216,7 +216,7 @@ class Heal2Ring:
         """
         if self.area2d is None:
             dbeta = self.beta_edges[1] - self.beta_edges[0]
-            area = np.array([coords.sky_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
+            area = np.array([coords.usphere_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
             self.area2d = np.array([area for i in range(0, len(self.beta_edges)-1)])
         if self.pixarea is None:
             self.pixarea = hp.nside2pixarea(self.nside)
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 3c45f8c..89065a6 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -210,7 +210,7 @@ class Heal2Ring:
         """
         if self.area2d is None:
             dbeta = self.beta_edges[1] - self.beta_edges[0]
-            area = np.array([coords.sky_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
+            area = np.array([coords.usphere_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
             self.area2d = np.array([area for i in range(0, len(self.beta_edges)-1)])
         if self.pixarea is None:
             self.pixarea = hp.nside2pixarea(self.nside)
-- 
2.43.0


From 6ab840ff994de99c9f3f5436b5d51f281b34bf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:56 +0000
Subject: [PATCH 10/43] fix: Monte Carlo HEALPix remappers called
 randoms_usphere by its former name randoms_sky

---
 magpie/montecarlo/heal2polar.py | 2 +-
 magpie/montecarlo/heal2ring.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index 65d118d..8759a75 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -111,7 +111,7 @@ class Heal2Polar:
                 y_max, y_min = self.yedges[i], self.yedges[i+1]
                 y_min = np.pi/2. - y_min
                 y_max = np.pi/2. - y_max
-                x_rand, y_rand = randoms.randoms_sky(mc_size, phi_min=x_min, phi_max=x_max, theta_min=y_min, theta_max=y_max)
+                x_rand, y_rand = randoms.randoms_usphere(mc_size, phi_min=x_min, phi_max=x_max, theta_min=y_min, theta_max=y_max)
                 if self.alpha != 0.:
                     x_rand, y_rand = coords.usphere_spin(x_rand, y_rand, 0., np.pi/2., self.alpha)
                 x_rand, y_rand = coords.usphere_shift(x_rand, y_rand, 0., np.pi/2., self.center[0], self.center[1])
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 89065a6..5edc1da 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -107,7 +107,7 @@ class Heal2Ring:
             for j in range(0, len(self.alpha2d[0])):
                 alpha_min, alpha_max = self.alpha_edges[j], self.alpha_edges[j+1]
                 beta_min, beta_max = self.beta_edges[i], self.beta_edges[i+1]
-                beta_rand, alpha_rand = randoms.randoms_sky(mc_size, phi_min=beta_min, phi_max=beta_max,
+                beta_rand, alpha_rand = randoms.randoms_usphere(mc_size, phi_min=beta_min, phi_max=beta_max,
                                                             theta_min=alpha_min, theta_max=alpha_max)
                 if self.beta_shift != 0.:
                     beta_rand, alpha_rand = coords.usphere_spin(beta_rand, alpha_rand, 0., 0., self.beta_shift)
-- 
2.43.0


From 8394e75ad388cebb0838c7fc6cb679982713d4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:56 +0000
Subject: [PATCH 11/43] fix: PlotOrtho called sphere2lonlat by its former name
 polar2lonlat

---
 magpie/plots/ortho.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/magpie/plots/ortho.py b/magpie/plots/ortho.py
index 7c9352e..f8afb7b 100644
--- a/magpie/plots/ortho.py
+++ b/magpie/plots/ortho.py
@@ -206,7 +206,7 @@ class PlotOrtho:
                 condition = np.where((theta_grid >= theta.min()) & (theta_grid <= theta.max()))[0]
                 f = interpolate.interp1d(theta, y)
                 y_ticks = f(theta_grid[condition])
-                y_labels = coords.polar2lonlat(theta_grid[condition])
+                y_labels = coords.sphere2lonlat(theta_grid[condition])
             else:
                 if inbetween == 'min':
 
@@ -215,14 +215,14 @@ class PlotOrtho:
                     condition = np.where((theta_grid >= theta1.min()) & (theta_grid <= theta1.max()))[0]
                     f = interpolate.interp1d(theta1, y1)
                     y_ticks1 = f(theta_grid[condition])
-                    y_labels1 = coords.polar2lonlat(theta_grid[condition])
+                    y_labels1 = coords.sphere2lonlat(theta_grid[condition])
 
                     y2, theta2 = y[np.argmin(theta):-1], theta[np.argmin(theta):-1]
 
                     condition = np.where((theta_grid >= theta2.min()) & (theta_grid <= theta2.max()))[0]
                     f = interpolate.interp1d(theta2, y2)
                     y_ticks2 = f(theta_grid[condition])
-                    y_labels2 = coords.polar2lonlat(theta_grid[condition])
+                    y_labels2 = coords.sphere2lonlat(theta_grid[condition])
 
                 elif inbetween == 'max':
 
@@ -231,14 +231,14 @@ class PlotOrtho:
                     condition = np.where((theta_grid >= theta1.min()) & (theta_grid <= theta1.max()))[0]
                     f = interpolate.interp1d(theta1, y1)
                     y_ticks1 = f(theta_grid[condition])
-                    y_labels1 = coords.polar2lonlat(theta_grid[condition])
+                    y_labels1 = coords.sphere2lonlat(theta_grid[condition])
 
                     y2, theta2 = y[np.argmax(theta):-1], theta[np.argmax(theta):-1]
 
                     condition = np.where((theta_grid >= theta2.min()) & (theta_grid <= theta2.max()))[0]
                     f = interpolate.interp1d(theta2, y2)
                     y_ticks2 = f(theta_grid[condition])
-                    y_labels2 = coords.polar2lonlat(theta_grid[condition])
+                    y_labels2 = coords.sphere2lonlat(theta_grid[condition])
                 y_ticks = np.concatenate([y_ticks1, y_ticks2])
                 y_labels = np.rad2deg(np.concatenate([y_labels1, y_labels2]))
             y_labels = np.round(y_labels, decimals=0).astype('int')
-- 
2.43.0


From 6a2dadb8362692c96bb083e3a62416667311a4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:56 +0000
Subject: [PATCH 12/43] fix: dense grid remappers failed when the rebin factors
 of the two axes differed

---
 magpie/densegrid/box2ring.py   | 8 ++++----
 magpie/densegrid/heal2ortho.py | 8 ++++----
 magpie/densegrid/heal2polar.py | 8 ++++----
 magpie/densegrid/heal2ring.py  | 8 ++++----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 2b94cf7..64ab32b 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -160,10 +160,10 @@ class Box2Ring:
         rbin_weights = self.rebin_redges[1:]**2 - self.rebin_redges[:-1]**2
         rbin_weights_2d, _ = np.meshgrid(rbin_weights, self.rebin_pmid)
         f_polar_highres *= rbin_weights_2d
-        f_polar = np.sum(f_polar_highres.reshape(len(self.r2d), self.rebin_r, len(self.rebin_p2d[0])), axis=1)
-        f_polar = np.mean(f_polar.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_p), axis=2)
-        rbin_weights_2d = np.sum(rbin_weights_2d.reshape(len(self.r2d), self.rebin_r, len(self.rebin_p2d[0])), axis=1)
-        rbin_weights_2d = np.mean(rbin_weights_2d.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_p), axis=2)
+        f_polar = np.sum(f_polar_highres.reshape(len(self.r2d), self.rebin_p, len(self.rebin_p2d[0])), axis=1)
+        f_polar = np.mean(f_polar.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_r), axis=2)
+        rbin_weights_2d = np.sum(rbin_weights_2d.reshape(len(self.r2d), self.rebin_p, len(self.rebin_p2d[0])), axis=1)
+        rbin_weights_2d = np.mean(rbin_weights_2d.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_r), axis=2)
         f_polar /= rbin_weights_2d
         return f_polar
 
diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index f8b2785..711d7f8 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -144,10 +144,10 @@ class Heal2Ortho:
         dx = self.rebin_xedges[1] - self.rebin_xedges[0]
         weights = self.rebin_onsphere
         f_box_highres *= weights
-        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_x, len(self.rebin_x2d[0])), axis=1)
-        f_box = np.sum(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
-        weights_2d = np.sum(weights.reshape(len(self.x2d), self.rebin_x, len(self.rebin_y2d[0])), axis=1)
-        weights_2d = np.mean(weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
+        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_y, len(self.rebin_x2d[0])), axis=1)
+        f_box = np.sum(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
+        weights_2d = np.sum(weights.reshape(len(self.x2d), self.rebin_y, len(self.rebin_y2d[0])), axis=1)
+        weights_2d = np.mean(weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         condition = np.where(weights_2d != 0.)
         f_box[condition] /= weights_2d[condition]
         f_box *= self.onsphere
diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index 524e313..b8c4bd6 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -140,10 +140,10 @@ class Heal2Polar:
         y_bin_weights = area
         _, y_bin_weights_2d = np.meshgrid(self.rebin_xmid, y_bin_weights)
         f_box_highres *= y_bin_weights_2d
-        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_x, len(self.rebin_x2d[0])), axis=1)
-        f_box = np.mean(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
-        y_bin_weights_2d = np.sum(y_bin_weights_2d.reshape(len(self.x2d), self.rebin_x, len(self.rebin_y2d[0])), axis=1)
-        y_bin_weights_2d = np.mean(y_bin_weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
+        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_y, len(self.rebin_x2d[0])), axis=1)
+        f_box = np.mean(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
+        y_bin_weights_2d = np.sum(y_bin_weights_2d.reshape(len(self.x2d), self.rebin_y, len(self.rebin_y2d[0])), axis=1)
+        y_bin_weights_2d = np.mean(y_bin_weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         f_box /= y_bin_weights_2d
         return f_box
 
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 37ed844..ab415f7 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -139,10 +139,10 @@ class Heal2Ring:
         alpha_bin_weights = area
         alpha_bin_weights_2d, _ = np.meshgrid(alpha_bin_weights, self.rebin_beta_mid)
         f_polar_highres *= alpha_bin_weights_2d
-        f_polar = np.sum(f_polar_highres.reshape(len(self.alpha2d), self.rebin_alpha, len(self.rebin_beta2d[0])), axis=1)
-        f_polar = np.mean(f_polar.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_beta), axis=2)
-        alpha_bin_weights_2d = np.sum(alpha_bin_weights_2d.reshape(len(self.alpha2d), self.rebin_alpha, len(self.rebin_beta2d[0])), axis=1)
-        alpha_bin_weights_2d = np.mean(alpha_bin_weights_2d.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_beta), axis=2)
+        f_polar = np.sum(f_polar_highres.reshape(len(self.alpha2d), self.rebin_beta, len(self.rebin_beta2d[0])), axis=1)
+        f_polar = np.mean(f_polar.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_alpha), axis=2)
+        alpha_bin_weights_2d = np.sum(alpha_bin_weights_2d.reshape(len(self.alpha2d), self.rebin_beta, len(self.rebin_beta2d[0])), axis=1)
+        alpha_bin_weights_2d = np.mean(alpha_bin_weights_2d.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_alpha), axis=2)
         f_polar /= alpha_bin_weights_2d
         return f_polar
 
-- 
2.43.0


From b1229882c6aed3727978f00f48293523e157ff36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 13/43] fix: Heal2Ortho multiplied every value by the rebin
 factor

---
 magpie/densegrid/heal2ortho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index 711d7f8..22d9212 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -147,7 +147,7 @@ class Heal2Ortho:
         f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_y, len(self.rebin_x2d[0])), axis=1)
         f_box = np.sum(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         weights_2d = np.sum(weights.reshape(len(self.x2d), self.rebin_y, len(self.rebin_y2d[0])), axis=1)
-        weights_2d = np.mean(weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
+        weights_2d = np.sum(weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         condition = np.where(weights_2d != 0.)
         f_box[condition] /= weights_2d[condition]
         f_box *= self.onsphere
-- 
2.43.0


From 330b3bc581a479d5bbbdb914ca58d73cbbae4209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 14/43] fix: Heal2Ortho.transform ignored the radius of the
 sphere

---
 magpie/densegrid/heal2ortho.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index 22d9212..3bbacb0 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -182,9 +182,9 @@ class Heal2Ortho:
     def transform(self, phi, theta):
         """Transforms coordinates from the original Healpix coordinate system to the orthographic projection"""
         if np.isscalar(phi) == True:
-            r = 1.
+            r = self.radius
         else:
-            r = np.ones(len(phi))
+            r = self.radius*np.ones(np.shape(phi))
         phi, theta = coords.usphere_shift(phi, theta, self.center[0], self.center[1], self.end_center[0], self.end_center[1])
         x, y, z = coords.sphere2cart(r, phi, theta)
         if np.isscalar(phi) == True:
-- 
2.43.0


From 69e06ef6f604d82b370aca1e9dd2ba449b2a0356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 15/43] fix: usphere_phi_shift overwrote the array it was given

---
 magpie/coords/usphere.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/magpie/coords/usphere.py b/magpie/coords/usphere.py
index 290f7d9..31c9b02 100644
--- a/magpie/coords/usphere.py
+++ b/magpie/coords/usphere.py
@@ -100,13 +100,11 @@ def usphere_phi_shift(phi, dphi):
     assert dphi > -2.*np.pi and dphi < 2.*np.pi, \
         "dphi must be within the range [-2pi, 2pi]."
     # shift phi
-    # phi_new = np.copy(phi)
-    phi_new = phi
-    phi_new += dphi
+    phi_new = phi + dphi
     if np.isscalar(phi_new) is False:
-        condition = np.where(phi_new > 2.*np.pi)[0]
+        condition = np.where(phi_new > 2.*np.pi)
         phi_new[condition] -= 2.*np.pi
-        condition = np.where(phi_new < 0.)[0]
+        condition = np.where(phi_new < 0.)
         phi_new[condition] += 2.*np.pi
     # scalar case
     else:
-- 
2.43.0


From 3e0452d8000460deed06a4368934ae5b44a8d164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 16/43] fix: usphere_phi_shift rejected full turns its range
 includes, so usphere_spin rejected alpha=2pi

---
 magpie/coords/usphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/coords/usphere.py b/magpie/coords/usphere.py
index 31c9b02..8ba505e 100644
--- a/magpie/coords/usphere.py
+++ b/magpie/coords/usphere.py
@@ -97,7 +97,7 @@ def usphere_phi_shift(phi, dphi):
         Shifted phi coordinates.
     """
     # sanity checks
-    assert dphi > -2.*np.pi and dphi < 2.*np.pi, \
+    assert dphi >= -2.*np.pi and dphi <= 2.*np.pi, \
         "dphi must be within the range [-2pi, 2pi]."
     # shift phi
     phi_new = phi + dphi
-- 
2.43.0


From 8259d8a784f6ef481125dda6f53a1f3138614e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 17/43] fix: usphere_rotate returned NaNs between antipodal
 points and between poles

---
 magpie/coords/usphere.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/magpie/coords/usphere.py b/magpie/coords/usphere.py
index 8ba505e..cde4876 100644
--- a/magpie/coords/usphere.py
+++ b/magpie/coords/usphere.py
@@ -51,7 +51,13 @@ def usphere_rotate(phi, theta, phi_end, theta_end, phi_start=0.,
     # calculate other dummy variables (n, t, alpha, Rn, T, invT) to do the
     # rotation, see notes to see how these are determined.
     n = np.cross(u, v)
-    n /= np.sqrt(np.sum(n**2.))
+    norm = np.sqrt(np.sum(n**2.))
+    if norm > 1e-12:
+        n /= norm
+    else:
+        # the points coincide or are antipodal, so they do not define an axis:
+        # rotate along the meridian of the starting point.
+        n = np.array([-np.sin(phi_start), np.cos(phi_start), 0.])
     t = np.cross(n, u)
     alpha = np.arctan2(v.dot(t), v.dot(u))
     Rn = np.array([[np.cos(alpha), -np.sin(alpha), 0.],
-- 
2.43.0


From 92ed09f49a69ea9558641dcdf8a014a984eaa463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 18/43] fix: PointOfView.reverse failed for any spin

---
 magpie/densegrid/pointofview.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/densegrid/pointofview.py b/magpie/densegrid/pointofview.py
index e43db72..e2ebb78 100644
--- a/magpie/densegrid/pointofview.py
+++ b/magpie/densegrid/pointofview.py
@@ -103,7 +103,7 @@ class PointOfView:
         dz = by / f
         r, phi, theta = coords.cart2sphere(dx, dy, dz)
         if self.spin != 0.:
-            phi, theta = coords.usphere_spin(phi, theta, 0., np.pi/2., -self.spin)
+            phi, theta = coords.usphere_spin(phi, theta, 0., np.pi/2., 2.*np.pi - self.spin)
         phi = coords.usphere_phi_shift(phi, self.phi_point_towards)
         if self.theta_point_towards != np.pi/2.:
             phi, theta = coords.usphere_rotate(phi, theta, self.phi_point_towards, self.theta_point_towards, phi_start=self.phi_point_towards, theta_start=np.pi/2.)
-- 
2.43.0


From 24afd0593faf2b6518ae5164a1f43c8ece5aa208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 19/43] fix: PointOfView.transform failed for scalar
 coordinates

---
 magpie/densegrid/pointofview.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/magpie/densegrid/pointofview.py b/magpie/densegrid/pointofview.py
index e2ebb78..7426f5b 100644
--- a/magpie/densegrid/pointofview.py
+++ b/magpie/densegrid/pointofview.py
@@ -69,7 +69,6 @@ class PointOfView:
             phi, theta = coords.usphere_spin(phi, theta, 0., np.pi/2., self.spin)
         dx, dy, dz = coords.sphere2cart(r, phi, theta)
         f = self.display/dx
-        condition = np.where(f >= 1.)[0]
         bx = dy*f
         by = dz*f
         dist = np.sqrt(dx**2. + dy**2. + dz**2.)
-- 
2.43.0


From ccf83d24a4a88d6892ae9ef3cc93668283391336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 20/43] fix: cart2sphere failed for arrays with more than one
 dimension

---
 magpie/coords/conversions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/coords/conversions.py b/magpie/coords/conversions.py
index 3401676..15ad38d 100644
--- a/magpie/coords/conversions.py
+++ b/magpie/coords/conversions.py
@@ -88,8 +88,8 @@ def cart2sphere(x, y, z, center=[0., 0., 0.]):
     else:
         condition = np.where(phi < 0.)
         phi[condition] += 2.*np.pi
-        theta = np.zeros(len(phi))
-        condition = np.where(r != 0.)[0]
+        theta = np.zeros(np.shape(phi))
+        condition = np.where(r != 0.)
         theta[condition] = np.arccos((z[condition]-center[2])/r[condition])
     return r, phi, theta
 
-- 
2.43.0


From efbd83e0d1782a25b0a4b95144f7d7cdfa5850c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 21/43] fix: remappers could not set up a target grid with a
 single bin along an axis

---
 magpie/densegrid/box2ring.py    | 4 ++--
 magpie/densegrid/cube2shell.py  | 2 +-
 magpie/densegrid/heal2ortho.py  | 4 ++--
 magpie/densegrid/heal2polar.py  | 4 ++--
 magpie/densegrid/heal2ring.py   | 4 ++--
 magpie/montecarlo/box2ring.py   | 6 +++---
 magpie/montecarlo/cube2shell.py | 2 +-
 magpie/montecarlo/heal2polar.py | 4 ++--
 magpie/montecarlo/heal2ring.py  | 4 ++--
 9 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 64ab32b..6a4133c 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -113,8 +113,8 @@ class Box2Ring:
         self.pedges = np.linspace(pmin, pmax, nump+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.pmid = 0.5*(self.pedges[1:] + self.pedges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
-        self.dp = self.pmid[1] - self.pmid[0]
+        self.dr = self.redges[1] - self.redges[0]
+        self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.center = center
         self.phi_shift = phi_shift
diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index 3401320..e84640d 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -101,7 +101,7 @@ class Cube2Shell:
         assert rebin_r >= 1, "rebin_r must be greater or equal to 1."
         self.redges = np.linspace(rmin, rmax, numr+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
+        self.dr = self.redges[1] - self.redges[0]
         self.nside = nside
         self.center = center
         self.rebin_shell = rebin_shell
diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index 3bbacb0..256bc9f 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -89,8 +89,8 @@ class Heal2Ortho:
         self.yedges = np.linspace(-y_length/2., y_length/2., y_grid+1)
         self.xmid = 0.5*(self.xedges[1:] + self.xedges[:-1])
         self.ymid = 0.5*(self.yedges[1:] + self.yedges[:-1])
-        self.dx = self.xmid[1] - self.xmid[0]
-        self.dy = self.ymid[1] - self.ymid[0]
+        self.dx = self.xedges[1] - self.xedges[0]
+        self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
         self.radius = radius
         self.z2d = coords.ortho2cart(self.x2d, self.y2d, r=self.radius, fill_value=np.nan)
diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index b8c4bd6..2a5ff2b 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -94,8 +94,8 @@ class Heal2Polar:
         self.yedges = np.linspace(-y_length/2., y_length/2., y_grid+1)
         self.xmid = 0.5*(self.xedges[1:] + self.xedges[:-1])
         self.ymid = 0.5*(self.yedges[1:] + self.yedges[:-1])
-        self.dx = self.xmid[1] - self.xmid[0]
-        self.dy = self.ymid[1] - self.ymid[0]
+        self.dx = self.xedges[1] - self.xedges[0]
+        self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
         self.center = center
         self.alpha = alpha
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index ab415f7..d2c8161 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -94,8 +94,8 @@ class Heal2Ring:
         self.beta_edges = np.linspace(beta_min, beta_max, num_beta+1)
         self.alpha_mid = 0.5*(self.alpha_edges[1:] + self.alpha_edges[:-1])
         self.beta_mid = 0.5*(self.beta_edges[1:] + self.beta_edges[:-1])
-        self.dalpha = self.alpha_mid[1] - self.alpha_mid[0]
-        self.dbeta = self.beta_mid[1] - self.beta_mid[0]
+        self.dalpha = self.alpha_edges[1] - self.alpha_edges[0]
+        self.dbeta = self.beta_edges[1] - self.beta_edges[0]
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
         self.center = center
         self.beta_shift = beta_shift
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index 6461550..ce84e03 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -137,8 +137,8 @@ class Box2Ring:
         self.pedges = np.linspace(pmin, pmax, nump+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.pmid = 0.5*(self.pedges[1:] + self.pedges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
-        self.dp = self.pmid[1] - self.pmid[0]
+        self.dr = self.redges[1] - self.redges[0]
+        self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.center = center
         self.phi_shift = phi_shift
@@ -189,7 +189,7 @@ class Box2Ring:
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.pmid = 0.5*(self.pedges[1:] + self.pedges[:-1])
         self.dr = self.redges[1:] - self.redges[:-1]
-        self.dp = self.pmid[1] - self.pmid[0]
+        self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.center = center
         self.phi_shift = phi_shift
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index 8ce32f4..2e523b0 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -90,7 +90,7 @@ class Cube2Shell:
         assert len(center) == 3, "center list must have length 3."
         self.redges = np.linspace(rmin, rmax, numr+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
+        self.dr = self.redges[1] - self.redges[0]
         self.nside = nside
         self.center = center
 
diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index 8759a75..7071e14 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -81,8 +81,8 @@ class Heal2Polar:
         self.yedges = np.linspace(-y_length/2., y_length/2., y_grid+1)
         self.xmid = 0.5*(self.xedges[1:] + self.xedges[:-1])
         self.ymid = 0.5*(self.yedges[1:] + self.yedges[:-1])
-        self.dx = self.xmid[1] - self.xmid[0]
-        self.dy = self.ymid[1] - self.ymid[0]
+        self.dx = self.xedges[1] - self.xedges[0]
+        self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
         self.center = center
         self.alpha = alpha
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 5edc1da..65e90fa 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -79,8 +79,8 @@ class Heal2Ring:
         self.beta_edges = np.linspace(beta_min, beta_max, num_beta+1)
         self.alpha_mid = 0.5*(self.alpha_edges[1:] + self.alpha_edges[:-1])
         self.beta_mid = 0.5*(self.beta_edges[1:] + self.beta_edges[:-1])
-        self.dalpha = self.alpha_mid[1] - self.alpha_mid[0]
-        self.dbeta = self.beta_mid[1] - self.beta_mid[0]
+        self.dalpha = self.alpha_edges[1] - self.alpha_edges[0]
+        self.dbeta = self.beta_edges[1] - self.beta_edges[0]
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
         self.center = center
         self.beta_shift = beta_shift
-- 
2.43.0


From fe4aa9f37306d77a4bb5afce30f8fdc19710ae08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 22/43] fix: Monte Carlo HEALPix remappers rejected every
 weight map

---
 magpie/montecarlo/heal2polar.py | 2 +-
 magpie/montecarlo/heal2ring.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index 7071e14..afe1cf5 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -148,7 +148,7 @@ class Heal2Polar:
         """
         assert len(f) == hp.nside2npix(self.nside), "HEALPix map f is not the correct nside."
         if w is not None:
-            assert np.shape(w) ==hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
+            assert len(w) == hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
         f_box = np.zeros(np.shape(self.x2d))
         for i in range(0, len(self.x2d)):
             for j in range(0, len(self.x2d[0])):
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 65e90fa..d2aa7b3 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -145,7 +145,7 @@ class Heal2Ring:
         """
         assert len(f) == hp.nside2npix(self.nside), "HEALPix map f is not the correct nside."
         if w is not None:
-            assert np.shape(w) ==hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
+            assert len(w) == hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
         f_polar = np.zeros(np.shape(self.beta2d))
         for i in range(0, len(self.alpha2d)):
             for j in range(0, len(self.alpha2d[0])):
-- 
2.43.0


From 0fd58e9da42bb8dbb9a5abe389c136891e80545c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 23/43] fix: dense grid Cube2Shell read fields transposed
 relative to its x3d, y3d and z3d grids

---
 magpie/densegrid/cube2shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index e84640d..9a003b9 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -151,7 +151,7 @@ class Cube2Shell:
                 yind = np.floor(yind).astype(int)
                 zind = np.floor(zind).astype(int)
                 condition = np.where((xind >= 0) & (xind < len(self.xmid)) & (yind >= 0) & (yind < len(self.ymid)) & (zind >= 0) & (zind < len(self.zmid)))[0]
-                f_shell_highres[pix[condition]] = f[xind[condition], yind[condition], zind[condition]]
+                f_shell_highres[pix[condition]] = f[yind[condition], xind[condition], zind[condition]]
             f_sphere[i] = hp.ud_grade(f_shell_highres, self.nside)
             if verbose == True:
                 utils.progress_bar(i, len(self.rebin_rmid), explanation='Remapping')
-- 
2.43.0


From 6e173a9af944c0d793cc35dc08519c357d545295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 24/43] fix: random_prob_draw could draw an element of zero
 probability

---
 magpie/randoms/subsample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/randoms/subsample.py b/magpie/randoms/subsample.py
index 9f970cc..1a8b32d 100644
--- a/magpie/randoms/subsample.py
+++ b/magpie/randoms/subsample.py
@@ -56,7 +56,7 @@ def random_prob_draw(sample, prob, size=None):
     """
     u_r = np.random.random_sample(len(sample))
     if size is None:
-        cond = np.where(u_r <= prob)[0]
+        cond = np.where(u_r < prob)[0]
         randsamp = sample[cond]
         randsamp = shuffle(randsamp)
     else:
-- 
2.43.0


From 355da0f389960755f9dce0513cf1ba25e5ed6a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:01 +0000
Subject: [PATCH 25/43] fix: Monte Carlo weights were unusable when target
 pixels overlapped equal numbers of source pixels

---
 magpie/montecarlo/box2ring.py   | 24 +++++++++---------------
 magpie/montecarlo/cube2shell.py | 32 ++++++++++++--------------------
 magpie/montecarlo/heal2polar.py | 16 ++++++----------
 magpie/montecarlo/heal2ring.py  | 16 ++++++----------
 4 files changed, 33 insertions(+), 55 deletions(-)

diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index ce84e03..2491a02 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -208,13 +208,10 @@ class Box2Ring:
             If true will output a progress bar.
         """
         assert mc_size > 1, "mc_size must be greater than 1, ideally greater than 100."
-        ind_xs = []
-        ind_ys = []
-        ind_ws = []
+        ind_xs = np.empty((len(self.r2d), len(self.r2d[0])), dtype=object)
+        ind_ys = np.empty((len(self.r2d), len(self.r2d[0])), dtype=object)
+        ind_ws = np.empty((len(self.r2d), len(self.r2d[0])), dtype=object)
         for i in range(0, len(self.r2d)):
-            _ind_xs = []
-            _ind_ys = []
-            _ind_ws = []
             for j in range(0, len(self.r2d[0])):
                 rmin, rmax = self.redges[j], self.redges[j+1]
                 pmin, pmax = self.pedges[i], self.pedges[i+1]
@@ -232,17 +229,14 @@ class Box2Ring:
                 ind_x = condition[1]
                 ind_y = condition[0]
                 ind_w = H[condition]/float(mc_size)
-                _ind_xs.append(ind_x)
-                _ind_ys.append(ind_y)
-                _ind_ws.append(ind_w)
-            ind_xs.append(np.array(_ind_xs, dtype=object))
-            ind_ys.append(np.array(_ind_ys, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+                ind_xs[i, j] = ind_x
+                ind_ys[i, j] = ind_y
+                ind_ws[i, j] = ind_w
             if verbose == True:
                 utils.progress_bar(i, len(self.r2d), explanation='Calculating weights')
-        self.ind_xs = np.array(ind_xs, dtype=object)
-        self.ind_ys = np.array(ind_ys, dtype=object)
-        self.ind_ws = np.array(ind_ws, dtype=object)
+        self.ind_xs = ind_xs
+        self.ind_ys = ind_ys
+        self.ind_ws = ind_ws
 
 
     def remap(self, f, w=None, verbose=True):
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index 2e523b0..cf7d6c5 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -140,15 +140,11 @@ class Cube2Shell:
         verbose : bool
             If true will output a progress bar.
         """
-        ind_xs = []
-        ind_ys = []
-        ind_zs = []
-        ind_ws = []
+        ind_xs = np.empty((len(self.rmid), hp.nside2npix(self.nside)), dtype=object)
+        ind_ys = np.empty((len(self.rmid), hp.nside2npix(self.nside)), dtype=object)
+        ind_zs = np.empty((len(self.rmid), hp.nside2npix(self.nside)), dtype=object)
+        ind_ws = np.empty((len(self.rmid), hp.nside2npix(self.nside)), dtype=object)
         for i in range(0, len(self.rmid)):
-            _ind_xs = []
-            _ind_ys = []
-            _ind_zs = []
-            _ind_ws = []
             for j in range(0, hp.nside2npix(self.nside)):
                 pix = j
                 rmin, rmax = self.redges[i], self.redges[i+1]
@@ -162,20 +158,16 @@ class Cube2Shell:
                 ind_y = condition[0]
                 ind_z = condition[2]
                 ind_w = H[condition]/float(mc_size)
-                _ind_xs.append(ind_x)
-                _ind_ys.append(ind_y)
-                _ind_zs.append(ind_z)
-                _ind_ws.append(ind_w)
-            ind_xs.append(np.array(_ind_xs, dtype=object))
-            ind_ys.append(np.array(_ind_ys, dtype=object))
-            ind_zs.append(np.array(_ind_zs, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+                ind_xs[i, j] = ind_x
+                ind_ys[i, j] = ind_y
+                ind_zs[i, j] = ind_z
+                ind_ws[i, j] = ind_w
             if verbose == True:
                 utils.progress_bar(i, len(self.rmid), explanation='Calculating weights')
-        self.ind_xs = np.array(ind_xs, dtype=object)
-        self.ind_ys = np.array(ind_ys, dtype=object)
-        self.ind_zs = np.array(ind_zs, dtype=object)
-        self.ind_ws = np.array(ind_ws, dtype=object)
+        self.ind_xs = ind_xs
+        self.ind_ys = ind_ys
+        self.ind_zs = ind_zs
+        self.ind_ws = ind_ws
 
 
     def remap(self, f, w=None, verbose=True):
diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index afe1cf5..d224865 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -101,11 +101,9 @@ class Heal2Polar:
             If true will output a progress bar.
         """
         assert mc_size > 1, "mc_size must be greater than 1, ideally greater than 100."
-        ind_pixs = []
-        ind_ws = []
+        ind_pixs = np.empty((len(self.x2d), len(self.x2d[0])), dtype=object)
+        ind_ws = np.empty((len(self.x2d), len(self.x2d[0])), dtype=object)
         for i in range(0, len(self.x2d)):
-            _ind_pixs = []
-            _ind_ws = []
             for j in range(0, len(self.x2d[0])):
                 x_min, x_max = self.xedges[j], self.xedges[j+1]
                 y_max, y_min = self.yedges[i], self.yedges[i+1]
@@ -119,14 +117,12 @@ class Heal2Polar:
                 pix_uniq, pix_counts = np.unique(pix_rand, return_counts=True)
                 ind_pix = pix_uniq
                 ind_w = (pix_counts.astype('float'))/float(mc_size)
-                _ind_pixs.append(ind_pix)
-                _ind_ws.append(ind_w)
-            ind_pixs.append(np.array(_ind_pixs, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+                ind_pixs[i, j] = ind_pix
+                ind_ws[i, j] = ind_w
             if verbose == True:
                 utils.progress_bar(i, len(self.x2d), explanation='Calculating weights')
-        self.ind_pixs = np.array(ind_pixs, dtype=object)
-        self.ind_ws = np.array(ind_ws, dtype=object)
+        self.ind_pixs = ind_pixs
+        self.ind_ws = ind_ws
 
 
     def remap(self, f, w=None, verbose=True):
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index d2aa7b3..24b87ea 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -99,11 +99,9 @@ class Heal2Ring:
             If true will output a progress bar.
         """
         assert mc_size > 1, "mc_size must be greater than 1, ideally greater than 100."
-        ind_pixs = []
-        ind_ws = []
+        ind_pixs = np.empty((len(self.alpha2d), len(self.alpha2d[0])), dtype=object)
+        ind_ws = np.empty((len(self.alpha2d), len(self.alpha2d[0])), dtype=object)
         for i in range(0, len(self.alpha2d)):
-            _ind_pixs = []
-            _ind_ws = []
             for j in range(0, len(self.alpha2d[0])):
                 alpha_min, alpha_max = self.alpha_edges[j], self.alpha_edges[j+1]
                 beta_min, beta_max = self.beta_edges[i], self.beta_edges[i+1]
@@ -116,14 +114,12 @@ class Heal2Ring:
                 pix_uniq, pix_counts = np.unique(pix_rand, return_counts=True)
                 ind_pix = pix_uniq
                 ind_w = (pix_counts.astype('float'))/float(mc_size)
-                _ind_pixs.append(ind_pix)
-                _ind_ws.append(ind_w)
-            ind_pixs.append(np.array(_ind_pixs, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+                ind_pixs[i, j] = ind_pix
+                ind_ws[i, j] = ind_w
             if verbose == True:
                 utils.progress_bar(i, len(self.alpha2d), explanation='Calculating weights')
-        self.ind_pixs = np.array(ind_pixs, dtype=object)
-        self.ind_ws = np.array(ind_ws, dtype=object)
+        self.ind_pixs = ind_pixs
+        self.ind_ws = ind_ws
 
 
     def remap(self, f, w=None, verbose=True):
-- 
2.43.0


From 09315c7bddf916897209a938eb8f9031e2736a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:01 +0000
Subject: [PATCH 26/43] fix: Box2Ring.polar2radial counted zeroed pixels
 outside the box and overwrote the weights it was given

---
 magpie/densegrid/box2ring.py  | 7 ++++---
 magpie/montecarlo/box2ring.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 6a4133c..efe9d7e 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -262,17 +262,18 @@ class Box2Ring:
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
         if self.mask_in_bound is None:
             self.get_mask_in_bound(verbose=verbose)
-        if self.mask_in_bound.all() != 1.:
+        if np.any(self.mask_in_bound != 1.):
             condition = np.where(self.mask_in_bound != 1.)
             f_polar = np.copy(f_polar)
             f_polar[condition] = 0.
             if sigma is not None:
                 sigma = np.copy(sigma)
                 sigma[condition] = 0.
+            mask = (self.mask_in_bound == 1.).astype(float)
             if w is not None:
-                w *= self.mask_in_bound
+                w = w*mask
             else:
-                w = self.mask_in_bound
+                w = mask
         if sigma is None:
             f_radial = polar.polar2radial(f_polar, self.area2d, self.pixarea, sigma=sigma, w=w)
             return f_radial
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index 2491a02..cdf2488 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -348,17 +348,18 @@ class Box2Ring:
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
         if self.mask_in_bound is None:
             self.get_mask_in_bound(verbose=verbose)
-        if self.mask_in_bound.all() != 1.:
+        if np.any(self.mask_in_bound != 1.):
             condition = np.where(self.mask_in_bound != 1.)
             f_polar = np.copy(f_polar)
             f_polar[condition] = 0.
             if sigma is not None:
                 sigma = np.copy(sigma)
                 sigma[condition] = 0.
+            mask = (self.mask_in_bound == 1.).astype(float)
             if w is not None:
-                w *= self.mask_in_bound
+                w = w*mask
             else:
-                w = self.mask_in_bound
+                w = mask
         if sigma is None:
             f_radial = polar.polar2radial(f_polar, self.area2d, self.pixarea, sigma=sigma, w=w)
             return f_radial
-- 
2.43.0


From c0bef082f9d72b49efddc18d9bcff6874e069e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:01 +0000
Subject: [PATCH 27/43] fix: remappers kept values derived from an earlier
 setup after being set up again

---
 magpie/densegrid/box2ring.py    |  6 ++++++
 magpie/densegrid/cube2shell.py  | 20 +++++++++++++++-----
 magpie/densegrid/heal2ortho.py  |  8 +++++++-
 magpie/densegrid/heal2polar.py  |  8 +++++++-
 magpie/densegrid/heal2ring.py   | 10 +++++++++-
 magpie/montecarlo/box2ring.py   | 19 +++++++++++++++++++
 magpie/montecarlo/cube2shell.py | 12 ++++++++++++
 magpie/montecarlo/heal2polar.py |  4 ++++
 magpie/montecarlo/heal2ring.py  |  8 ++++++++
 9 files changed, 87 insertions(+), 8 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index efe9d7e..6259534 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -70,6 +70,9 @@ class Box2Ring:
         self.dx = self.xedges[1] - self.xedges[0]
         self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
+        self.area2d = None
+        self.pixarea = None
+        self.mask_in_bound = None
 
 
     def setup_polar(self, rmin, rmax, numr, nump, pmin=0., pmax=2.*np.pi, center=[0., 0.], rebin_r=2, rebin_p=2, phi_shift=0.):
@@ -116,6 +119,9 @@ class Box2Ring:
         self.dr = self.redges[1] - self.redges[0]
         self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
+        self.area2d = None
+        self.pixarea = None
+        self.mask_in_bound = None
         self.center = center
         self.phi_shift = phi_shift
         self.rebin_r = rebin_r
diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index 9a003b9..1fe0d84 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -32,6 +32,7 @@ class Cube2Shell:
         self.center = None
         self.rebin_shell = None
         self.rebin_r = None
+        self.periodic = None
         self.centers = None
         self.rebin_redges = None
         self.rebin_rmid = None
@@ -66,6 +67,8 @@ class Cube2Shell:
         self.dy = self.yedges[1] - self.yedges[0]
         self.dz = self.zedges[1] - self.zedges[0]
         self.x3d, self.y3d, self.z3d = np.meshgrid(self.xmid, self.ymid, self.zmid)
+        if self.periodic is not None:
+            self._set_centers()
 
 
     def setup_polar(self, rmin, rmax, numr, nside, center=[0., 0., 0.], rebin_shell=2,
@@ -106,16 +109,23 @@ class Cube2Shell:
         self.center = center
         self.rebin_shell = rebin_shell
         self.rebin_r = rebin_r
+        self.periodic = [periodicx, periodicy, periodicz]
+        self._set_centers()
+        self.rebin_redges = np.linspace(self.redges[0], self.redges[-1], self.rebin_r*len(self.rmid) + 1)
+        self.rebin_rmid = 0.5*(self.rebin_redges[1:] + self.rebin_redges[:-1])
+
+
+    def _set_centers(self):
+        """Sets the centers of the polar grid in all the periodic images of the box."""
+        periodicx, periodicy, periodicz = self.periodic
         centers = []
         for i in range(periodicx[0], periodicx[1]+1):
             for j in range(periodicy[0], periodicy[1]+1):
                 for k in range(periodicz[0], periodicz[1]+1):
-                    centers.append([center[0] + i*(self.xedges[-1]-self.xedges[0]),
-                                    center[1] + j*(self.yedges[-1]-self.yedges[0]),
-                                    center[2] + k*(self.zedges[-1]-self.zedges[0])])
+                    centers.append([self.center[0] + i*(self.xedges[-1]-self.xedges[0]),
+                                    self.center[1] + j*(self.yedges[-1]-self.yedges[0]),
+                                    self.center[2] + k*(self.zedges[-1]-self.zedges[0])])
         self.centers = centers
-        self.rebin_redges = np.linspace(self.redges[0], self.redges[-1], self.rebin_r*len(self.rmid) + 1)
-        self.rebin_rmid = 0.5*(self.rebin_redges[1:] + self.rebin_redges[:-1])
 
 
     def remap(self, f, verbose=True):
diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index 256bc9f..9354318 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -39,6 +39,8 @@ class Heal2Ortho:
         self.rebin_onsphere = None
         self.rebin_xind = None
         self.rebin_yind = None
+        self.rebin_phi = None
+        self.rebin_theta = None
         self.rebin_pix = None
 
 
@@ -52,6 +54,8 @@ class Heal2Ortho:
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
+        if self.rebin_phi is not None:
+            self.rebin_pix = hp.ang2pix(self.nside, self.rebin_theta, self.rebin_phi)
 
 
     def setup_box(self, x_length, x_grid, center=[0., 0.], y_length=None, y_grid=None,
@@ -123,7 +127,9 @@ class Heal2Ortho:
         zz = self.rebin_z2d.flatten()
         rr, phi, theta = coords.cart2sphere(xx, yy, zz)
         phi, theta = coords.usphere_shift(phi, theta, self.end_center[0], self.end_center[1], self.center[0], self.center[1])
-        self.rebin_pix = hp.ang2pix(self.nside, theta, phi)
+        self.rebin_phi = phi
+        self.rebin_theta = theta
+        self.rebin_pix = hp.ang2pix(self.nside, self.rebin_theta, self.rebin_phi)
 
 
     def _remap(self, f):
diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index 2a5ff2b..2cac52d 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -33,6 +33,8 @@ class Heal2Polar:
         self.rebin_y2d = None
         self.rebin_xind = None
         self.rebin_yind = None
+        self.rebin_phi = None
+        self.rebin_theta = None
         self.rebin_pix = None
 
 
@@ -46,6 +48,8 @@ class Heal2Polar:
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
+        if self.rebin_phi is not None:
+            self.rebin_pix = hp.ang2pix(self.nside, self.rebin_theta, self.rebin_phi)
 
 
     def setup_box(self, x_length, x_grid, center=[0., 0.], alpha=0., y_length=None, y_grid=None,
@@ -117,7 +121,9 @@ class Heal2Polar:
         if self.alpha != 0.:
             xx, yy = coords.usphere_spin(xx, yy, 0., np.pi/2., self.alpha)
         xx, yy = coords.usphere_shift(xx, yy, 0., np.pi/2., self.center[0], self.center[1])
-        self.rebin_pix = hp.ang2pix(self.nside, yy, xx)
+        self.rebin_phi = xx
+        self.rebin_theta = yy
+        self.rebin_pix = hp.ang2pix(self.nside, self.rebin_theta, self.rebin_phi)
 
 
     def _remap(self, f):
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index d2c8161..cf49d7c 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -34,6 +34,8 @@ class Heal2Ring:
         self.rebin_beta2d = None
         self.rebin_alpha_ind = None
         self.rebin_beta_ind = None
+        self.rebin_phi = None
+        self.rebin_theta = None
         self.rebin_pix = None
         self.area2d = None
         self.pixarea = None
@@ -49,6 +51,9 @@ class Heal2Ring:
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
+        self.pixarea = None
+        if self.rebin_phi is not None:
+            self.rebin_pix = hp.ang2pix(self.nside, self.rebin_theta, self.rebin_phi)
 
 
     def setup_polar_cap(self, alpha_min, alpha_max, num_alpha,
@@ -116,7 +121,10 @@ class Heal2Ring:
         else:
             phi, theta = self.rebin_beta2d.flatten(), self.rebin_alpha2d.flatten()
         phi, theta = coords.usphere_shift(phi, theta, 0., 0., self.center[0], self.center[1])
-        self.rebin_pix = hp.ang2pix(self.nside, theta, phi)
+        self.rebin_phi = phi
+        self.rebin_theta = theta
+        self.rebin_pix = hp.ang2pix(self.nside, self.rebin_theta, self.rebin_phi)
+        self.area2d = None
 
 
     def _remap(self, f):
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index cdf2488..1b9d85f 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -97,6 +97,12 @@ class Box2Ring:
         self.dx = self.xedges[1] - self.xedges[0]
         self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
+        self.area2d = None
+        self.pixarea = None
+        self.mask_in_bound = None
+        self.ind_xs = None
+        self.ind_ys = None
+        self.ind_ws = None
 
 
     def setup_polar_lin(self, rmin, rmax, numr, nump, pmin=0., pmax=2.*np.pi,
@@ -140,6 +146,12 @@ class Box2Ring:
         self.dr = self.redges[1] - self.redges[0]
         self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
+        self.area2d = None
+        self.pixarea = None
+        self.mask_in_bound = None
+        self.ind_xs = None
+        self.ind_ys = None
+        self.ind_ws = None
         self.center = center
         self.phi_shift = phi_shift
 
@@ -191,6 +203,12 @@ class Box2Ring:
         self.dr = self.redges[1:] - self.redges[:-1]
         self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
+        self.area2d = None
+        self.pixarea = None
+        self.mask_in_bound = None
+        self.ind_xs = None
+        self.ind_ys = None
+        self.ind_ws = None
         self.center = center
         self.phi_shift = phi_shift
 
@@ -237,6 +255,7 @@ class Box2Ring:
         self.ind_xs = ind_xs
         self.ind_ys = ind_ys
         self.ind_ws = ind_ws
+        self.mask_in_bound = None
 
 
     def remap(self, f, w=None, verbose=True):
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index cf7d6c5..ecaccfd 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -66,6 +66,10 @@ class Cube2Shell:
         self.dy = self.yedges[1] - self.yedges[0]
         self.dz = self.zedges[1] - self.zedges[0]
         self.x3d, self.y3d, self.z3d = np.meshgrid(self.xmid, self.ymid, self.zmid)
+        self.ind_xs = None
+        self.ind_ys = None
+        self.ind_zs = None
+        self.ind_ws = None
 
 
     def setup_polar_lin(self, rmin, rmax, numr, nside, center=[0., 0., 0.]):
@@ -93,6 +97,10 @@ class Cube2Shell:
         self.dr = self.redges[1] - self.redges[0]
         self.nside = nside
         self.center = center
+        self.ind_xs = None
+        self.ind_ys = None
+        self.ind_zs = None
+        self.ind_ws = None
 
 
     def setup_polar_log(self, rmin, rmax, numr, nside, center=[0., 0., 0.], addzero=True):
@@ -126,6 +134,10 @@ class Cube2Shell:
         self.dr = self.redges[1:] - self.redges[:-1]
         self.nside = nside
         self.center = center
+        self.ind_xs = None
+        self.ind_ys = None
+        self.ind_zs = None
+        self.ind_ws = None
 
 
     def get_weights(self, mc_size=100, verbose=True):
diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index d224865..4cfa6ff 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -38,6 +38,8 @@ class Heal2Polar:
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
+        self.ind_pixs = None
+        self.ind_ws = None
 
 
     def setup_box(self, x_length, x_grid, center=[0., 0.], alpha=0., y_length=None, y_grid=None):
@@ -86,6 +88,8 @@ class Heal2Polar:
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
         self.center = center
         self.alpha = alpha
+        self.ind_pixs = None
+        self.ind_ws = None
 
 
     def get_weights(self, mc_size=10000, verbose=True):
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 24b87ea..61ff6e2 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -39,6 +39,10 @@ class Heal2Ring:
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
+        self.area2d = None
+        self.pixarea = None
+        self.ind_pixs = None
+        self.ind_ws = None
 
 
     def setup_polar_cap(self, alpha_min, alpha_max, num_alpha, num_beta, beta_min=0., beta_max=2.*np.pi,
@@ -84,6 +88,10 @@ class Heal2Ring:
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
         self.center = center
         self.beta_shift = beta_shift
+        self.area2d = None
+        self.pixarea = None
+        self.ind_pixs = None
+        self.ind_ws = None
 
 
     def get_weights(self, mc_size=10000, verbose=True):
-- 
2.43.0


From 48db3147f4aa08e8727361c2e7261831c20b7f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:32 +0000
Subject: [PATCH 28/43] fix: plot_box, plot_circle and plot_polar_box called
 shape functions that no longer exist

---
 magpie/plots/ortho.py  | 2 +-
 magpie/plots/shapes.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/magpie/plots/ortho.py b/magpie/plots/ortho.py
index f8afb7b..72b6b2e 100644
--- a/magpie/plots/ortho.py
+++ b/magpie/plots/ortho.py
@@ -341,7 +341,7 @@ class PlotOrtho:
             _t1, _t2 = theta_min, theta_max
             theta_min = np.pi/2. - _t2
             theta_max = np.pi/2. - _t1
-        phi_box, theta_box = shapes.get_box(phi_min, phi_max, theta_min, theta_max, divisions=divisions)
+        phi_box, theta_box = pixel.get_square(phi_min, phi_max, theta_min, theta_max, steps=4*divisions)
         x, y = self.heal2ortho.transform(phi_box, theta_box)
         if ax is None:
             plt.plot(x, y, **kwargs)
diff --git a/magpie/plots/shapes.py b/magpie/plots/shapes.py
index b7509f8..9c7a054 100644
--- a/magpie/plots/shapes.py
+++ b/magpie/plots/shapes.py
@@ -22,7 +22,7 @@ def plot_box(x_min, x_max, y_min, y_max, ax=None, divisions=100, **kwargs):
     divisions : int, optional
         Divisions in each line segment.
     """
-    x, y = shapes.get_box(x_min, x_max, y_min, y_max, divisions=divisions)
+    x, y = pixel.get_square(x_min, x_max, y_min, y_max, steps=4*divisions)
     if ax is None:
         plt.plot(x, y, **kwargs)
     else:
@@ -43,7 +43,7 @@ def plot_circle(radius=1., center=[0., 0.], length=1000, ax=None, **kwargs):
     ax : class, optional
         Axis to plot on.
     """
-    x, y = shapes.get_circle(radius, center=center, length=length)
+    x, y = pixel.get_arc(radius, center=center, steps=length)
     if ax is None:
         plt.plot(x, y, **kwargs)
     else:
-- 
2.43.0


From dbb0512bad03ea8657e64be4b9354c1b3bdfee4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:32 +0000
Subject: [PATCH 29/43] fix: rebin_1d counted, indexed or scaled bins wrongly
 at the edges of the data and on uneven bins

---
 magpie/one_d/one_d.py | 166 ++++++------------------------------------
 1 file changed, 21 insertions(+), 145 deletions(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index 414f87d..88f06f7 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -4,7 +4,7 @@ from .. import utils
 
 
 def rebin_1d_single_bin_weights(bin_edges, bin_min, bin_max):
-    """Gets weights.
+    """Gets the fraction of each bin which is covered by a new bin.
 
     Parameters
     ----------
@@ -15,43 +15,15 @@ def rebin_1d_single_bin_weights(bin_edges, bin_min, bin_max):
     bin_max : float
         Maximum edge for the new bin.
     """
+    lower = np.maximum(bin_edges[:-1], bin_min)
+    upper = np.minimum(bin_edges[1:], bin_max)
+    overlap = upper > lower
+    if not np.any(overlap):
+        # If we can't find any bins then we return a NaN
+        return np.nan
     weights = np.zeros(len(bin_edges)-1)
-    condition = np.where((bin_edges >= bin_min) & (bin_edges <= bin_max))[0]
-    if len(condition) == 0:
-        condition1 = np.where((bin_edges >= bin_min))[0]
-        if len(condition1) != 0 and len(condition1) != len(bin_edges):
-            weights[condition1[0]-1] = 1.
-        else:
-            # If we can't find any bins then we return a NaN
-            return np.nan
-    elif len(condition) == 1:
-        # To ensure we are not looking at the edges
-        if condition[0] > 0 and condition[0] < len(bin_edges)-1:
-            weights[condition[0]] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
-            weights[condition[0]+1] = (bin_max - bin_edges[condition[0]])/(bin_edges[condition[0]+1] - bin_edges[condition[0]])
-        # To deal with edges
-        elif condition[0] == 0:
-            weights[condition[0]] = 1.
-        elif condition[0] == len(bin_edges)-1:
-            weights[condition[0]] = 1.
-    else:
-        # General case
-        # Create weights equal to one
-        w = np.ones(len(condition) + 1)
-        index = np.array(np.ndarray.tolist(condition-1) + [condition[-1]])
-        if condition[-1] == len(bin_edges)-1:
-            w = w[:-1]
-            index = index[:-1]
-        elif condition[0] == 0:
-            w = w[1:]
-            index = index[1:]
-        if condition[0] != 0:
-            # Alter first weight to account for the fact that the new bin intersects the first bin.
-            w[0] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
-        if condition[-1] != len(bin_edges)-1:
-            # Alter last weight to account for the fact that the new bin intesrsects the last bin.
-            w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]] - bin_edges[condition[-1]-1])
-        weights[index] = w
+    lengths = bin_edges[1:] - bin_edges[:-1]
+    weights[overlap] = (upper[overlap] - lower[overlap])/lengths[overlap]
     return weights
 
 
@@ -69,43 +41,11 @@ def _rebin_1d_single_bin(bin_edges, data, bin_min, bin_max):
     bin_max : float
         Maximum edge for the new bin.
     """
-    condition = np.where((bin_edges >= bin_min) & (bin_edges <= bin_max))[0]
-    if len(condition) == 0:
-        condition1 = np.where((bin_edges >= bin_min))[0]
-        if len(condition1) != 0 and len(condition1) != len(bin_edges):
-            return data[condition1[0]-1]
-        else:
-            # If we can't find any bins then we return a NaN
-            return np.nan
-    elif len(condition) == 1:
-        # To ensure we are not looking at the edges
-        if condition[0] > 0 and condition[0] < len(bin_edges)-1:
-            w1 = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
-            w2 = (bin_max - bin_edges[condition[0]])/(bin_edges[condition[0]+1] - bin_edges[condition[0]])
-            return (w1*data[condition[0]-1] + w2*data[condition[0]])/(w1+w2)
-        # To deal with edges
-        elif condition[0] == 0:
-            return data[0]
-        elif condition[0] == len(bin_edges)-1:
-            return data[-1]
-    else:
-        # General case
-        # Create weights equal to one
-        w = np.ones(len(condition) + 1)
-        index = np.array(np.ndarray.tolist(condition-1) + [condition[-1]])
-        if condition[-1] == len(bin_edges)-1:
-            w = w[:-1]
-            index = index[:-1]
-        elif condition[0] == 0:
-            w = w[1:]
-            index = index[1:]
-        if condition[0] != 0:
-            # Alter first weight to account for the fact that the new bin intersects the first bin.
-            w[0] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
-        if condition[-1] != len(bin_edges)-1:
-            # Alter last weight to account for the fact that the new bin intesrsects the last bin.
-            w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]] - bin_edges[condition[-1]-1])
-        return np.sum(w*data[index])/np.sum(w)
+    weights = rebin_1d_single_bin_weights(bin_edges, bin_min, bin_max)
+    if np.isscalar(weights):
+        return np.nan
+    condition = np.where(weights > 0.)[0]
+    return np.sum(weights[condition]*data[condition])/np.sum(weights[condition])
 
 
 def _rebin_1d_single_bin_sigma(bin_edges, sigma, bin_min, bin_max):
@@ -122,77 +62,13 @@ def _rebin_1d_single_bin_sigma(bin_edges, sigma, bin_min, bin_max):
     bin_max : float
         Maximum edge for the new bin.
     """
-    condition = np.where((bin_edges >= bin_min) & (bin_edges <= bin_max))[0]
-    lengths = bin_edges[1:] - bin_edges[:-1]
-    if len(condition) == 0:
-        condition1 = np.where((bin_edges >= bin_min))[0]
-        if len(condition1) != 0 and len(condition1) != len(bin_edges):
-            length = bin_max - bin_min
-            new_sigma = sigma[condition1[0]-1]**2.
-            new_sigma *= lengths[condition1[0]-1]/length
-            new_sigma = np.sqrt(new_sigma)
-            return new_sigma
-        else:
-            # If we can't find any bins then we return a NaN
-            return np.nan
-    elif len(condition) == 1:
-        # To ensure we are not looking at the edges
-        if condition[0] > 0 and condition[0] < len(bin_edges)-1:
-            w1 = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
-            w2 = (bin_max - bin_edges[condition[0]])/(bin_edges[condition[0]+1] - bin_edges[condition[0]])
-            l1 = bin_edges[condition[0]] - bin_min
-            l2 = bin_max - bin_edges[condition[0]]
-            if l1 != 0:
-                new_sigma = (lengths[condition[0]-1]/l1)*(w1*sigma[condition[0]-1])**2.
-            else:
-                new_sigma = 0.
-            if l2 != 0:
-                new_sigma += (lengths[condition[0]]/l2)*(w2*sigma[condition[0]])**2.
-            new_sigma /= (w1+w2)**2.
-            new_sigma = np.sqrt(new_sigma)
-            return new_sigma
-        # To deal with edges
-        elif condition[0] == 0:
-            length = bin_max - bin_edges[0]
-            new_sigma = sigma[0]**2.
-            new_sigma *= lengths[0]/length
-            new_sigma = np.sqrt(new_sigma)
-            return new_sigma
-        elif condition[0] == len(bin_edges)-1:
-            length = bin_edges[-1] - bin_min
-            new_sigma = sigma[-1]**2.
-            new_sigma *= lengths[-1]/length
-            new_sigma = np.sqrt(new_sigma)
-            return new_sigma
-    else:
-        # General case
-        # Create weights equal to one
-        w = np.ones(len(condition) + 1)
-        index = np.array(np.ndarray.tolist(condition-1) + [condition[-1]])
-        if condition[-1] == len(bin_edges)-1:
-            w = w[:-1]
-            index = index[:-1]
-        elif condition[0] == 0:
-            w = w[1:]
-            index = index[1:]
-        length = lengths[index]
-        if index[0] != 0:
-            # Alter first weight to account for the fact that the new bin intersects the first bin.
-            w[0] = (bin_edges[index[0]] - bin_min)/(bin_edges[index[0]] - bin_edges[index[0]-1])
-            length[0] = bin_edges[index[0]] - bin_min
-        if index[-1] != len(bin_edges)-1:
-            # Alter last weight to account for the fact that the new bin intesrsects the last bin.
-            w[-1] = (bin_max - bin_edges[index[-1]])/(bin_edges[index[-1]] - bin_edges[index[-1]-1])
-            length[-1] = bin_max - bin_edges[index[-1]]
-        condition2 = np.where(length > 0.)[0]
-        index = index[condition2]
-        w = w[condition2]
-        length = length[condition2]
-        new_sigma = (w*sigma[index])**2.
-        new_sigma *= (lengths[index]/length)
-        new_sigma = np.sum(new_sigma)/(np.sum(w)**2.)
-        new_sigma = np.sqrt(new_sigma)
-        return new_sigma
+    weights = rebin_1d_single_bin_weights(bin_edges, bin_min, bin_max)
+    if np.isscalar(weights):
+        return np.nan
+    # The variance of a partially covered bin scales inversely with the fraction covered.
+    condition = np.where(weights > 0.)[0]
+    variance = np.sum(weights[condition]*sigma[condition]**2.)
+    return np.sqrt(variance)/np.sum(weights[condition])
 
 
 def rebin_1d(bin_edges, data, new_bin_edges, w=None, sigma=None):
-- 
2.43.0


From 17584e09eb62335487ee4bd14c211b27163c0d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:32 +0000
Subject: [PATCH 30/43] fix: rebin_1d normalised weighted errors by the error
 of the weights

---
 magpie/one_d/one_d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index 88f06f7..ae4f5fa 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -106,7 +106,7 @@ def rebin_1d(bin_edges, data, new_bin_edges, w=None, sigma=None):
             sigma_new = np.array([_rebin_1d_single_bin_sigma(bin_edges, sigma, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
         else:
             sigma_new = np.array([_rebin_1d_single_bin_sigma(bin_edges, sigma*w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
-            sigma_new /= np.array([_rebin_1d_single_bin_sigma(bin_edges, w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
+            sigma_new /= np.array([_rebin_1d_single_bin(bin_edges, w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
     # Return rebinned data
     if sigma is None:
         return data_new
-- 
2.43.0


From e092a1866418c25b2955cc3b03e45c630fd2c882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:44 +0000
Subject: [PATCH 31/43] fix: healpix_ijs_neighbours returned wrong neighbours
 on the polar faces and at the phi=0 seam

---
 magpie/pixel/healpix_index.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/magpie/pixel/healpix_index.py b/magpie/pixel/healpix_index.py
index 3f64c60..02517d4 100644
--- a/magpie/pixel/healpix_index.py
+++ b/magpie/pixel/healpix_index.py
@@ -303,9 +303,9 @@ def healpix_ijs_neighbours(istar, jstar, nside):
         jstar_neigh = [jstar - 1, jstar - 1, jstar, jstar, jstar + 1, jstar + 1, jstar + 1]
     elif istar % nside == 0 and jstar + 1 - nside*(np.floor(istar/nside) + 1) > 0:
         istar_neigh = [istar, istar + 1, istar + 1, istar, istar + 1,
+                       istar - ((jstar+2)-nside*np.floor(jstar/nside)),
                        istar - ((jstar+1)-nside*np.floor(jstar/nside)),
-                       istar - ((jstar)-nside*np.floor(jstar/nside)),
-                       istar - ((jstar-1)-nside*np.floor(jstar/nside))]
+                       istar - ((jstar)-nside*np.floor(jstar/nside))]
         jstar_neigh = [jstar - 1, jstar - 1, jstar, jstar + 1, jstar + 1,
                        nside*np.floor(jstar/nside)-1,
                        nside*np.floor(jstar/nside)-1,
@@ -344,7 +344,7 @@ def healpix_ijs_neighbours(istar, jstar, nside):
     istar_neigh = np.array(istar_neigh)
     jstar_neigh = np.array(jstar_neigh)
 
-    cond = np.where(istar_neigh + jstar_neigh > 9*nside-1)[0]
+    cond = np.where(istar_neigh + jstar_neigh >= 9*nside-1)[0]
     istar_neigh[cond] = istar_neigh[cond] - 4*nside
     jstar_neigh[cond] = jstar_neigh[cond] - 4*nside
 
-- 
2.43.0


From eb19fbd81981edb66f66ef76444075c5cf03a8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:44 +0000
Subject: [PATCH 32/43] fix: healpix_ijs_neighbours returned non-existent
 pixels for nside=1

---
 magpie/pixel/healpix_index.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/magpie/pixel/healpix_index.py b/magpie/pixel/healpix_index.py
index 02517d4..04910fa 100644
--- a/magpie/pixel/healpix_index.py
+++ b/magpie/pixel/healpix_index.py
@@ -295,6 +295,9 @@ def healpix_ijs_neighbours(istar, jstar, nside):
     elif istar - jstar + 1 == 2*nside:
         istar_neigh = [istar, istar - 1, istar - 1, istar - nside, istar - nside, istar + nside, istar - 1 + nside, istar-2*nside]
         jstar_neigh = [jstar + 1,  jstar + 1, jstar, jstar + 1 - nside, jstar - nside, jstar + nside, jstar + nside, jstar-2*nside]
+    elif nside == 1 and istar == jstar:
+        istar_neigh = [istar - 1, istar, istar - 1, istar + 1, istar, istar + 1]
+        jstar_neigh = [jstar - 1, jstar - 1, jstar, jstar, jstar + 1, jstar + 1]
     elif jstar - istar + 1 == nside and istar % nside == 0:
         istar_neigh = [istar - 1, istar, istar + 1,  istar - 1, istar + 1, istar, istar + 1]
         jstar_neigh = [jstar - 1, jstar - 1, jstar - 1, jstar, jstar, jstar + 1, jstar + 1]
-- 
2.43.0


From 5507ef9d0b5920061db37b3edadac8a31da2944c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:44 +0000
Subject: [PATCH 33/43] fix: healpix_ijs_neighbours sorted and deduplicated the
 two indices independently

---
 magpie/pixel/healpix_index.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/magpie/pixel/healpix_index.py b/magpie/pixel/healpix_index.py
index 04910fa..d8f9fbe 100644
--- a/magpie/pixel/healpix_index.py
+++ b/magpie/pixel/healpix_index.py
@@ -355,8 +355,7 @@ def healpix_ijs_neighbours(istar, jstar, nside):
     istar_neigh[cond] = istar_neigh[cond] + 4*nside
     jstar_neigh[cond] = jstar_neigh[cond] + 4*nside
 
-    istar_neigh = np.unique(istar_neigh)
-    jstar_neigh = np.unique(jstar_neigh)
+    istar_neigh, jstar_neigh = np.unique([istar_neigh, jstar_neigh], axis=1).astype('int')
     return istar_neigh, jstar_neigh
 
 
-- 
2.43.0


From af10fbfbe2776fcd6dc4a21d4bdc2aeb653391ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:33 +0000
Subject: [PATCH 34/43] fix: progress_bar lost a percent or marker to rounding
 (29 of 50 showed 57%)

---
 magpie/utils/progress.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/magpie/utils/progress.py b/magpie/utils/progress.py
index 499f886..dd8f5ec 100644
--- a/magpie/utils/progress.py
+++ b/magpie/utils/progress.py
@@ -28,8 +28,9 @@ def progress_bar(index, length, explanation=None, indexing=False, num_refresh=50
     bar_edge_right : str
         The right bar edge
     """
-    _percentage = (float(index + 1) / float(length)) * 100.
-    _bar_counts = int((_percentage / 100.) * float(bar_length) )
+    # a single division, so that whole percentages and markers are not rounded away
+    _percentage = (100. * float(index + 1)) / float(length)
+    _bar_counts = int((float(bar_length) * float(index + 1)) / float(length))
     if bar_edge_left is None:
         bar_edge_left = bar_edges
     if bar_edge_right is None:
-- 
2.43.0


From 9903d81447de9a43ce0a1f19a147806eed8b1f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:31 +0000
Subject: [PATCH 35/43] fix: PlotOrtho.plot_labels wrote latitude ticks in
 radians when the axis is not split

---
 magpie/plots/ortho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/plots/ortho.py b/magpie/plots/ortho.py
index 72b6b2e..07bb369 100644
--- a/magpie/plots/ortho.py
+++ b/magpie/plots/ortho.py
@@ -206,7 +206,7 @@ class PlotOrtho:
                 condition = np.where((theta_grid >= theta.min()) & (theta_grid <= theta.max()))[0]
                 f = interpolate.interp1d(theta, y)
                 y_ticks = f(theta_grid[condition])
-                y_labels = coords.sphere2lonlat(theta_grid[condition])
+                y_labels = np.rad2deg(coords.sphere2lonlat(theta_grid[condition]))
             else:
                 if inbetween == 'min':
 
-- 
2.43.0


From 1e1e2d349433fa87564cfec90a0022f21e54862c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:31 +0000
Subject: [PATCH 36/43] fix: PlotOrtho.plot_labels dropped the requested
 decimals of its labels

---
 magpie/plots/ortho.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/plots/ortho.py b/magpie/plots/ortho.py
index 07bb369..6a5b071 100644
--- a/magpie/plots/ortho.py
+++ b/magpie/plots/ortho.py
@@ -138,7 +138,7 @@ class PlotOrtho:
         if onsphere == True:
             for ii in range(0, len(phi_grid)):
                 phi_val = phi_grid[ii]
-                phi_str = r'$ %s ^{\circ}$' % str(np.round(np.rad2deg(phi_val), decimals=decimals))[:-2]
+                phi_str = r'$ %s ^{\circ}$' % '%.*f' % (decimals, np.rad2deg(phi_val))
                 theta_val = zeropoint[1]
                 phi_val -= np.deg2rad(shift[0])
                 x, y = self.heal2ortho.transform(phi_val, theta_val)
@@ -161,7 +161,7 @@ class PlotOrtho:
                 theta_val = theta_grid[ii]
                 if lonlat == True:
                     theta_val = np.pi/2. - theta_val
-                theta_str = r'$ %s ^{\circ}$' % str(np.round(np.rad2deg(theta_val), decimals=decimals))[:-2]
+                theta_str = r'$ %s ^{\circ}$' % '%.*f' % (decimals, np.rad2deg(theta_val))
                 theta_val = theta_grid[ii]
                 phi_val = zeropoint[0]
                 theta_val -= np.deg2rad(shift[1])
-- 
2.43.0


From 343812a6963788bcb70bdf258ea0971a058dfed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:55 +0000
Subject: [PATCH 37/43] fix: PlotOrtho.plot_labels ignored dphi and misplaced
 longitude ticks where phi passes 2pi

---
 magpie/plots/ortho.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/magpie/plots/ortho.py b/magpie/plots/ortho.py
index 6a5b071..2d8f58c 100644
--- a/magpie/plots/ortho.py
+++ b/magpie/plots/ortho.py
@@ -250,6 +250,10 @@ class PlotOrtho:
             rr, phi, theta = coords.cart2sphere(x, y, z)
             phi, theta = coords.usphere_shift(phi, theta, self.heal2ortho.end_center[0], self.heal2ortho.end_center[1], self.heal2ortho.center[0], self.heal2ortho.center[1])
 
+            # phi may pass through 2pi along the axis
+            phi = np.unwrap(phi)
+            phi_grid = np.concatenate([phi_grid - 2.*np.pi, phi_grid, phi_grid + 2.*np.pi])
+
             if np.argmax(phi) != 0 and np.argmax(phi) != len(phi)-1:
                 split = True
                 inbetween = 'max'
@@ -260,8 +264,6 @@ class PlotOrtho:
                 split = False
                 inbetween = None
 
-            phi_grid = np.linspace(0., 2.*np.pi, int(360./20.)+1)[:-1]
-
             if split == False:
                 condition = np.where((phi_grid >= phi.min()) & (phi_grid <= phi.max()))[0]
 
@@ -304,7 +306,7 @@ class PlotOrtho:
 
                 x_ticks = np.concatenate([x_ticks1, x_ticks2])
                 x_labels = np.rad2deg(np.concatenate([x_labels1, x_labels2]))
-            x_labels = np.round(x_labels, decimals=0).astype('int')
+            x_labels = np.round(x_labels, decimals=0).astype('int') % 360
 
             if ax is None:
                 plt.xticks(ticks=x_ticks, labels=x_labels, **kwargs)
-- 
2.43.0


From d9ae857f75b6e01a8620ecebe55efec2ade50974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:38 +0000
Subject: [PATCH 38/43] fix: get_box finds every edge hidden from a distant
 center

---
 magpie/pixel/basic_shapes.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/magpie/pixel/basic_shapes.py b/magpie/pixel/basic_shapes.py
index f8a175f..6b78db0 100644
--- a/magpie/pixel/basic_shapes.py
+++ b/magpie/pixel/basic_shapes.py
@@ -160,17 +160,14 @@ def get_box(xmin, xmax, ymin, ymax, zmin, zmax, steps=120,
                             [xmax, ymin, zmin], [xmax, ymin, zmax],
                             [xmax, ymax, zmin], [xmax, ymax, zmax]])
         xc, yc, zc = corners[:, 0], corners[:, 1], corners[:, 2]
+        # The line of sight to a corner passes through the box only if the center
+        # is on the inner side of all three faces which meet at the corner.
         remove_corner = []
         for i in range(0, len(corners)):
-            xx = np.linspace(0., 1., 100)*(xc[i] - center[0]) + center[0]
-            yy = np.linspace(0., 1., 100)*(yc[i] - center[1]) + center[1]
-            zz = np.linspace(0., 1., 100)*(zc[i] - center[2]) + center[2]
-            condition = np.where((xx > xmin) & (xx < xmax) & (yy > ymin) &
-                                 (yy < ymax) & (zz > zmin) & (zz < zmax))[0]
-            if len(condition) == 0:
-                remove_corner.append(False)
-            else:
-                remove_corner.append(True)
+            inner_x = center[0] > xmin if xc[i] == xmin else center[0] < xmax
+            inner_y = center[1] > ymin if yc[i] == ymin else center[1] < ymax
+            inner_z = center[2] > zmin if zc[i] == zmin else center[2] < zmax
+            remove_corner.append(bool(inner_x and inner_y and inner_z))
         xnew = []
         ynew = []
         znew = []
-- 
2.43.0


From c67dd425dd62be89f16d3519febd4dd8670dbf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:54 +0000
Subject: [PATCH 39/43] fix: PlotOrtho.plot_labels finds every crossing of the
 edges

---
 magpie/plots/ortho.py | 147 ++++++++++++------------------------------
 1 file changed, 41 insertions(+), 106 deletions(-)

diff --git a/magpie/plots/ortho.py b/magpie/plots/ortho.py
index 2d8f58c..ff1dfc0 100644
--- a/magpie/plots/ortho.py
+++ b/magpie/plots/ortho.py
@@ -1,6 +1,5 @@
 import numpy as np
 import matplotlib.pylab as plt
-import scipy.interpolate as interpolate
 
 from . import shapes as plot_shapes
 from .. import coords
@@ -94,6 +93,43 @@ class PlotOrtho:
                 ax.plot(x, y, color=color, linestyle=linestyle, **kwargs)
 
 
+    def _get_crossings(self, axis, values, grid, period=np.inf):
+        """Finds every place along an axis where values takes one of the grid values.
+
+        Parameters
+        ----------
+        axis : array
+            Points along the axis.
+        values : array
+            Values at these points.
+        grid : array
+            Grid values.
+        period : float, optional
+            Period of the values, if they are periodic.
+
+        Returns
+        -------
+        ticks : array
+            Where the grid values are crossed.
+        labels : array
+            The grid value of each crossing.
+        """
+        ticks = []
+        labels = []
+        for val in grid:
+            diff = values - val
+            if np.isfinite(period):
+                diff = (diff + period/2.) % period - period/2.
+            change = np.abs(diff[1:] - diff[:-1]) < period/2.
+            for ii in np.where((diff[1:]*diff[:-1] < 0.) & change)[0]:
+                ticks.append(axis[ii] + (axis[ii+1] - axis[ii])*diff[ii]/(diff[ii] - diff[ii+1]))
+                labels.append(val)
+            for ii in np.where(diff == 0.)[0]:
+                ticks.append(axis[ii])
+                labels.append(val)
+        return np.array(ticks), np.array(labels)
+
+
     def plot_labels(self, dtheta=15., dphi=None, decimals=0, lonlat=False, zeropoint=[0., np.pi/2.],
                     shift=[0., 0.], ax=None, onsphere=False, userotation=False, ha='left', va='top',
                     interpaxis=100, **kwargs):
@@ -192,55 +228,8 @@ class PlotOrtho:
             rr, phi, theta = coords.cart2sphere(x, y, z)
             phi, theta = coords.usphere_shift(phi, theta, self.heal2ortho.end_center[0], self.heal2ortho.end_center[1], self.heal2ortho.center[0], self.heal2ortho.center[1])
 
-            if np.argmax(theta) != 0 and np.argmax(theta) != len(theta)-1:
-                split = True
-                inbetween = 'max'
-            elif np.argmin(theta) != 0 and np.argmin(theta) != len(theta)-1:
-                split = True
-                inbetween = 'min'
-            else:
-                split = False
-                inbetween = None
-
-            if split == False:
-                condition = np.where((theta_grid >= theta.min()) & (theta_grid <= theta.max()))[0]
-                f = interpolate.interp1d(theta, y)
-                y_ticks = f(theta_grid[condition])
-                y_labels = np.rad2deg(coords.sphere2lonlat(theta_grid[condition]))
-            else:
-                if inbetween == 'min':
-
-                    y1, theta1 = y[0:np.argmin(theta)], theta[0:np.argmin(theta)]
-
-                    condition = np.where((theta_grid >= theta1.min()) & (theta_grid <= theta1.max()))[0]
-                    f = interpolate.interp1d(theta1, y1)
-                    y_ticks1 = f(theta_grid[condition])
-                    y_labels1 = coords.sphere2lonlat(theta_grid[condition])
-
-                    y2, theta2 = y[np.argmin(theta):-1], theta[np.argmin(theta):-1]
-
-                    condition = np.where((theta_grid >= theta2.min()) & (theta_grid <= theta2.max()))[0]
-                    f = interpolate.interp1d(theta2, y2)
-                    y_ticks2 = f(theta_grid[condition])
-                    y_labels2 = coords.sphere2lonlat(theta_grid[condition])
-
-                elif inbetween == 'max':
-
-                    y1, theta1 = y[0:np.argmax(theta)], theta[0:np.argmax(theta)]
-
-                    condition = np.where((theta_grid >= theta1.min()) & (theta_grid <= theta1.max()))[0]
-                    f = interpolate.interp1d(theta1, y1)
-                    y_ticks1 = f(theta_grid[condition])
-                    y_labels1 = coords.sphere2lonlat(theta_grid[condition])
-
-                    y2, theta2 = y[np.argmax(theta):-1], theta[np.argmax(theta):-1]
-
-                    condition = np.where((theta_grid >= theta2.min()) & (theta_grid <= theta2.max()))[0]
-                    f = interpolate.interp1d(theta2, y2)
-                    y_ticks2 = f(theta_grid[condition])
-                    y_labels2 = coords.sphere2lonlat(theta_grid[condition])
-                y_ticks = np.concatenate([y_ticks1, y_ticks2])
-                y_labels = np.rad2deg(np.concatenate([y_labels1, y_labels2]))
+            y_ticks, y_labels = self._get_crossings(y, theta, theta_grid)
+            y_labels = np.rad2deg(coords.sphere2lonlat(y_labels))
             y_labels = np.round(y_labels, decimals=0).astype('int')
 
             # Get X-axis
@@ -250,62 +239,8 @@ class PlotOrtho:
             rr, phi, theta = coords.cart2sphere(x, y, z)
             phi, theta = coords.usphere_shift(phi, theta, self.heal2ortho.end_center[0], self.heal2ortho.end_center[1], self.heal2ortho.center[0], self.heal2ortho.center[1])
 
-            # phi may pass through 2pi along the axis
-            phi = np.unwrap(phi)
-            phi_grid = np.concatenate([phi_grid - 2.*np.pi, phi_grid, phi_grid + 2.*np.pi])
-
-            if np.argmax(phi) != 0 and np.argmax(phi) != len(phi)-1:
-                split = True
-                inbetween = 'max'
-            elif np.argmin(phi) != 0 and np.argmin(phi) != len(phi)-1:
-                split = True
-                inbetween = 'min'
-            else:
-                split = False
-                inbetween = None
-
-            if split == False:
-                condition = np.where((phi_grid >= phi.min()) & (phi_grid <= phi.max()))[0]
-
-                f = interpolate.interp1d(phi, x)
-                x_ticks = f(phi_grid[condition])
-                x_labels = np.rad2deg(phi_grid[condition])
-
-            else:
-                if inbetween == 'min':
-
-                    x1, phi1 = x[0:np.argmin(phi)], phi[0:np.argmin(phi)]
-
-                    condition = np.where((phi_grid >= phi1.min()) & (phi_grid <= phi1.max()))[0]
-                    f = interpolate.interp1d(phi1, x1)
-                    x_ticks1 = f(phi_grid[condition])
-                    x_labels1 = phi_grid[condition]
-
-                    x2, phi2 = x[np.argmin(phi):-1], phi[np.argmin(phi):-1]
-
-                    condition = np.where((phi_grid >= phi2.min()) & (phi_grid <= phi2.max()))[0]
-                    f = interpolate.interp1d(phi2, x2)
-                    x_ticks2 = f(phi_grid[condition])
-                    x_labels2 = phi_grid[condition]
-
-                elif inbetween == 'max':
-
-                    x1, phi1 = x[0:np.argmax(phi)], phi[0:np.argmax(phi)]
-
-                    condition = np.where((phi_grid >= phi1.min()) & (phi_grid <= phi1.max()))[0]
-                    f = interpolate.interp1d(phi1, x1)
-                    x_ticks1 = f(phi_grid[condition])
-                    x_labels1 = phi_grid[condition]
-
-                    x2, phi2 = x[np.argmax(phi):-1], phi[np.argmax(phi):-1]
-
-                    condition = np.where((phi_grid >= phi2.min()) & (phi_grid <= phi2.max()))[0]
-                    f = interpolate.interp1d(phi2, x2)
-                    x_ticks2 = f(phi_grid[condition])
-                    x_labels2 = phi_grid[condition]
-
-                x_ticks = np.concatenate([x_ticks1, x_ticks2])
-                x_labels = np.rad2deg(np.concatenate([x_labels1, x_labels2]))
+            x_ticks, x_labels = self._get_crossings(x, phi, phi_grid, period=2.*np.pi)
+            x_labels = np.rad2deg(x_labels)
             x_labels = np.round(x_labels, decimals=0).astype('int') % 360
 
             if ax is None:
-- 
2.43.0


From 7f961b371c5d07751f12bc722598b6d15c20391e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:23 +0000
Subject: [PATCH 40/43] fix: usphere_phi_shift failed for whole-number
 longitudes

---
 magpie/coords/usphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/coords/usphere.py b/magpie/coords/usphere.py
index cde4876..a51747d 100644
--- a/magpie/coords/usphere.py
+++ b/magpie/coords/usphere.py
@@ -106,7 +106,7 @@ def usphere_phi_shift(phi, dphi):
     assert dphi >= -2.*np.pi and dphi <= 2.*np.pi, \
         "dphi must be within the range [-2pi, 2pi]."
     # shift phi
-    phi_new = phi + dphi
+    phi_new = phi + float(dphi)
     if np.isscalar(phi_new) is False:
         condition = np.where(phi_new > 2.*np.pi)
         phi_new[condition] -= 2.*np.pi
-- 
2.43.0


From 9ccaa348ec9302511ec9cfdb4ad9557850a00a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:23 +0000
Subject: [PATCH 41/43] fix: Heal2Ortho.setup_box accepted a view without rows

---
 magpie/densegrid/heal2ortho.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index 9354318..7ab892c 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -87,6 +87,8 @@ class Heal2Ortho:
             y_length = x_length
         if y_grid is None:
             y_grid = x_grid
+        else:
+            assert y_grid > 0, "y_grid must be greater than zero."
         assert len(center) == 2, "center list must have length 2."
         # compute grid info
         self.xedges = np.linspace(-x_length/2., x_length/2., x_grid+1)
-- 
2.43.0


From d7608f32cd7d9e1b6a720dde7e9d3256f7aa4318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:23 +0000
Subject: [PATCH 42/43] fix: Cube2Shell.setup_cube accepted a cube without
 cells along z

---
 magpie/densegrid/cube2shell.py  | 1 +
 magpie/montecarlo/cube2shell.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index 1fe0d84..2da833a 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -57,6 +57,7 @@ class Cube2Shell:
         """
         assert numx > 0, "numx must be greater than zero."
         assert numy > 0, "numy must be greater than zero."
+        assert numz > 0, "numz must be greater than zero."
         self.xedges = np.linspace(xmin, xmax, numx+1)
         self.yedges = np.linspace(ymin, ymax, numy+1)
         self.zedges = np.linspace(zmin, zmax, numz+1)
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index ecaccfd..0fde97d 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -56,6 +56,7 @@ class Cube2Shell:
         """
         assert numx > 0, "numx must be greater than zero."
         assert numy > 0, "numy must be greater than zero."
+        assert numz > 0, "numz must be greater than zero."
         self.xedges = np.linspace(xmin, xmax, numx+1)
         self.yedges = np.linspace(ymin, ymax, numy+1)
         self.zedges = np.linspace(zmin, zmax, numz+1)
-- 
2.43.0


From 04238b53dd360b3521b64383e037cb4b8119d5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:41 +0000
Subject: [PATCH 43/43] fix: HEALPix ring and position of pixels in maps of
 Nside 2^25 and more

The ring was computed in double precision, which cannot tell the pixels of
the largest maps HEALPix supports (Nside up to 2^29) apart.
---
 magpie/pixel/healpix_index.py | 44 +++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/magpie/pixel/healpix_index.py b/magpie/pixel/healpix_index.py
index d8f9fbe..5384413 100644
--- a/magpie/pixel/healpix_index.py
+++ b/magpie/pixel/healpix_index.py
@@ -1,6 +1,26 @@
 import numpy as np
 
 
+def _cap_ring(p):
+    """Returns the ring, counted from the pole, of pixels of a polar cap.
+
+    Parameters
+    ----------
+    p : int or array
+        Pixel index counted from the pole.
+
+    Returns
+    -------
+    i : int or array
+        Ring index.
+    """
+    i = np.floor(0.5 + np.sqrt(0.25 + p/2)).astype('int')
+    # rounding can put the pixels at the ends of a ring one ring off
+    i = i - (2*i*(i-1) > p)
+    i = i + (2*i*(i+1) <= p)
+    return i
+
+
 def healpix_pix2ij(p, nside):
     """Returns the healpix ring i and pixel along the ring j.
 
@@ -21,42 +41,37 @@ def healpix_pix2ij(p, nside):
     if np.isscalar(p) == True:
         if p <= 2*nside*(nside+1):
             # top polar cap
-            ph = (p+1)/2
-            i = np.floor(np.sqrt(ph - np.sqrt(np.floor(ph))))+1
+            i = _cap_ring(p)
             j = p + 1 - 2*i*(i-1)
             ringi, ringj = int(i), int(j)
         elif p > 2*nside*(nside+1) and p < 2*nside*(5*nside-1):
             # equatorial sector
             pd = p - 2*nside*(nside-1)
-            i = np.floor(pd/(4*nside)) + nside
+            i = pd//(4*nside) + nside
             j = (pd % (4*nside)) + 1
             ringi, ringj = int(i), int(j)
         elif p >= 2*nside*(5*nside-1) and p <= 12*nside**2:
             # bottom polar cap
-            ph = (12*nside**2 - p)/2
-            i = np.floor(np.sqrt(ph-np.sqrt(np.floor(ph))))+1
+            i = _cap_ring(12*nside**2 - 1 - p)
             j = p + 2*i*(i + 1) + 1 - 12*nside**2
             ringi, ringj = int(4*nside-i), int(j)
     else:
-        i, j = np.zeros(len(p)), np.zeros(len(p))
+        i, j = np.zeros(len(p), dtype='int'), np.zeros(len(p), dtype='int')
         # top polar cap
         cond = np.where(p <= 2*nside*(nside+1))[0]
-        ph = (p[cond]+1)/2
-        i[cond] = np.floor(np.sqrt(ph - np.sqrt(np.floor(ph)))) + 1
+        i[cond] = _cap_ring(p[cond])
         j[cond] = p[cond] + 1 - 2*i[cond]*(i[cond]-1)
         # equatorial sector
         cond = np.where((p > 2*nside*(nside+1)) & (p < 2*nside*(5*nside-1)))[0]
         pd = p[cond] - 2*nside*(nside-1)
-        i[cond] = np.floor(pd/(4*nside)) + nside
+        i[cond] = pd//(4*nside) + nside
         j[cond] = (pd % (4*nside)) + 1
         # bottom polar cap
         cond = np.where((p >= 2*nside*(5*nside-1)) & (p <= 12*nside**2))[0]
-        ph = (12*nside**2 - p[cond])/2
-        i[cond] = np.floor(np.sqrt(ph-np.sqrt(np.floor(ph)))) + 1
+        i[cond] = _cap_ring(12*nside**2 - 1 - p[cond])
         j[cond] = p[cond] + 2*i[cond]*(i[cond] + 1) + 1 - 12*nside**2
         i[cond] = 4*nside - i[cond]
-        ringi = i.astype('int')
-        ringj = j.astype('int')
+        ringi, ringj = i, j
     return ringi, ringj
 
 
@@ -90,7 +105,7 @@ def healpix_ij2pix(ringi, ringj, nside):
             p = 12*nside**2 + ringj - 2*i*(i + 1) - 1
         p = int(p)
     else:
-        p = np.zeros(len(ringi))
+        p = np.zeros(len(ringi), dtype='int')
         # top polar cap
         cond = np.where(ringi <= nside)[0]
         p[cond] = 2*ringi[cond]*(ringi[cond] - 1) + ringj[cond] - 1
@@ -101,7 +116,6 @@ def healpix_ij2pix(ringi, ringj, nside):
         cond = np.where(ringi >= 3*nside)[0]
         i = 4*nside - ringi[cond]
         p[cond] = 12*nside**2 + ringj[cond] - 2*i*(i + 1) - 1
-        p = p.astype('int')
     return p
 
 
-- 
2.43.0

