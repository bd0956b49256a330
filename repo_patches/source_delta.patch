From 133d965ae911ad2942f6f2fe28abdcbedf81c992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 1/5] fix: concurrent first use of a degree could lose entries
 of the multiprecision caches

---
 src/jaxoplanet/starry/multiprecision/basis.py |  7 +++---
 .../starry/multiprecision/rotation.py         | 24 +++++++++++--------
 .../starry/multiprecision/solution.py         |  7 +++---
 3 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/jaxoplanet/starry/multiprecision/basis.py b/src/jaxoplanet/starry/multiprecision/basis.py
index 19f0461..9aa5d0b 100644
--- a/src/jaxoplanet/starry/multiprecision/basis.py
+++ b/src/jaxoplanet/starry/multiprecision/basis.py
@@ -21,10 +21,11 @@ def get_A(A, l_max, cache=None):
         cache = CACHED_MATRICES
 
     name = A.__name__.replace("_", "")
-    if name not in cache[l_max]:
+    matrices = cache.setdefault(l_max, {})
+    if name not in matrices:
         print(f"pre-computing {name}...")
-        cache[l_max][name] = A(l_max)
-    return cache[l_max][name]
+        matrices[name] = A(l_max)
+    return matrices[name]
 
 
 def fac(n):
diff --git a/src/jaxoplanet/starry/multiprecision/rotation.py b/src/jaxoplanet/starry/multiprecision/rotation.py
index 54637a0..0801d28 100644
--- a/src/jaxoplanet/starry/multiprecision/rotation.py
+++ b/src/jaxoplanet/starry/multiprecision/rotation.py
@@ -15,29 +15,33 @@ def get_R(name, l_max, obl=None, inc=None, cache=None):
     if cache is None:
         cache = CACHED_MATRICES
 
+    matrices = cache.setdefault(l_max, {})
+
     if obl is not None and inc is not None:
         if name == "R_obl":
-            if obl not in cache[l_max][name]:
+            matrices = matrices.setdefault(name, {})
+            if obl not in matrices:
                 print(f"pre-computing {name}...")
-                cache[l_max][name][obl] = R(l_max, (0.0, 0.0, 1.0), -obl)
-            return cache[l_max][name][obl]
+                matrices[obl] = R(l_max, (0.0, 0.0, 1.0), -obl)
+            return matrices[obl]
         elif name == "R_inc":
-            if (inc, obl) not in cache[l_max][name]:
+            matrices = matrices.setdefault(name, {})
+            if (inc, obl) not in matrices:
                 print(f"pre-computing {name}...")
-                cache[l_max][name][(inc, obl)] = R(
+                matrices[(inc, obl)] = R(
                     l_max, (-mp.cos(obl), -mp.sin(obl), 0.0), (0.5 * mp.pi - inc)
                 )
-            return cache[l_max][name][(inc, obl)]
+            return matrices[(inc, obl)]
     else:
-        if name not in cache[l_max]:
+        if name not in matrices:
             if name == "R_px":
                 print(f"pre-computing {name}...")
-                cache[l_max][name] = R(l_max, (1.0, 0.0, 0.0), -0.5 * mp.pi)
+                matrices[name] = R(l_max, (1.0, 0.0, 0.0), -0.5 * mp.pi)
             elif name == "R_mx":
                 print(f"pre-computing {name}...")
-                cache[l_max][name] = R(l_max, (1.0, 0.0, 0.0), 0.5 * mp.pi)
+                matrices[name] = R(l_max, (1.0, 0.0, 0.0), 0.5 * mp.pi)
 
-        return cache[l_max][name]
+        return matrices[name]
 
 
 def R(lmax, u, theta):
diff --git a/src/jaxoplanet/starry/multiprecision/solution.py b/src/jaxoplanet/starry/multiprecision/solution.py
index a8a97fe..f6a0678 100644
--- a/src/jaxoplanet/starry/multiprecision/solution.py
+++ b/src/jaxoplanet/starry/multiprecision/solution.py
@@ -15,9 +15,10 @@ def get_sT(l_max, b, r, cache=None):
 
     name = "sT"
     br = (b, r)
-    if br not in cache[l_max][name]:
-        cache[l_max][name][br] = sT(l_max, b, r)
-    return cache[l_max][name][br]
+    solutions = cache.setdefault(l_max, {}).setdefault(name, {})
+    if br not in solutions:
+        solutions[br] = sT(l_max, b, r)
+    return solutions[br]
 
 
 def check_occultation(b, r):
-- 
2.43.0


From 487342b395c4a12bbe78a3f73d02ea6be03b9885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 2/5] fix: multiprecision caches returned values of another
 working precision

---
 src/jaxoplanet/starry/multiprecision/basis.py    | 9 +++++----
 src/jaxoplanet/starry/multiprecision/flux.py     | 4 +++-
 src/jaxoplanet/starry/multiprecision/rotation.py | 2 +-
 src/jaxoplanet/starry/multiprecision/solution.py | 2 +-
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/jaxoplanet/starry/multiprecision/basis.py b/src/jaxoplanet/starry/multiprecision/basis.py
index 9aa5d0b..cdf1167 100644
--- a/src/jaxoplanet/starry/multiprecision/basis.py
+++ b/src/jaxoplanet/starry/multiprecision/basis.py
@@ -21,7 +21,7 @@ def get_A(A, l_max, cache=None):
         cache = CACHED_MATRICES
 
     name = A.__name__.replace("_", "")
-    matrices = cache.setdefault(l_max, {})
+    matrices = cache.setdefault((l_max, mp.prec), {})
     if name not in matrices:
         print(f"pre-computing {name}...")
         matrices[name] = A(l_max)
@@ -29,10 +29,11 @@ def get_A(A, l_max, cache=None):
 
 
 def fac(n):
-    if n not in FAC_CACHE:
-        FAC_CACHE[n] = fac_function(n)
+    key = (n, mp.prec)
+    if key not in FAC_CACHE:
+        FAC_CACHE[key] = fac_function(n)
 
-    return FAC_CACHE[n]
+    return FAC_CACHE[key]
 
 
 def A(l, m):
diff --git a/src/jaxoplanet/starry/multiprecision/flux.py b/src/jaxoplanet/starry/multiprecision/flux.py
index d03c3e4..d3ba667 100644
--- a/src/jaxoplanet/starry/multiprecision/flux.py
+++ b/src/jaxoplanet/starry/multiprecision/flux.py
@@ -20,7 +20,9 @@ CACHED_MATRICES = defaultdict(
 )
 
 
-def flux(ydeg=0, udeg=0, inc=mp.pi / 2, obl=0.0, cache=None):
+def flux(ydeg=0, udeg=0, inc=None, obl=0.0, cache=None):
+    if inc is None:
+        inc = mp.pi / 2
     if cache is None:
         cache = CACHED_MATRICES
 
diff --git a/src/jaxoplanet/starry/multiprecision/rotation.py b/src/jaxoplanet/starry/multiprecision/rotation.py
index 0801d28..9dd52f0 100644
--- a/src/jaxoplanet/starry/multiprecision/rotation.py
+++ b/src/jaxoplanet/starry/multiprecision/rotation.py
@@ -15,7 +15,7 @@ def get_R(name, l_max, obl=None, inc=None, cache=None):
     if cache is None:
         cache = CACHED_MATRICES
 
-    matrices = cache.setdefault(l_max, {})
+    matrices = cache.setdefault((l_max, mp.prec), {})
 
     if obl is not None and inc is not None:
         if name == "R_obl":
diff --git a/src/jaxoplanet/starry/multiprecision/solution.py b/src/jaxoplanet/starry/multiprecision/solution.py
index f6a0678..8f31461 100644
--- a/src/jaxoplanet/starry/multiprecision/solution.py
+++ b/src/jaxoplanet/starry/multiprecision/solution.py
@@ -15,7 +15,7 @@ def get_sT(l_max, b, r, cache=None):
 
     name = "sT"
     br = (b, r)
-    solutions = cache.setdefault(l_max, {}).setdefault(name, {})
+    solutions = cache.setdefault((l_max, mp.prec), {}).setdefault(name, {})
     if br not in solutions:
         solutions[br] = sT(l_max, b, r)
     return solutions[br]
-- 
2.43.0


From 88e21670528a017c0f3d7b010f5fc99738480661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 3/5] fix: editing a returned multiprecision matrix corrupted
 the cached one

---
 src/jaxoplanet/starry/multiprecision/basis.py    | 2 +-
 src/jaxoplanet/starry/multiprecision/rotation.py | 6 +++---
 src/jaxoplanet/starry/multiprecision/solution.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/jaxoplanet/starry/multiprecision/basis.py b/src/jaxoplanet/starry/multiprecision/basis.py
index cdf1167..9400a11 100644
--- a/src/jaxoplanet/starry/multiprecision/basis.py
+++ b/src/jaxoplanet/starry/multiprecision/basis.py
@@ -25,7 +25,7 @@ def get_A(A, l_max, cache=None):
     if name not in matrices:
         print(f"pre-computing {name}...")
         matrices[name] = A(l_max)
-    return matrices[name]
+    return matrices[name].copy()
 
 
 def fac(n):
diff --git a/src/jaxoplanet/starry/multiprecision/rotation.py b/src/jaxoplanet/starry/multiprecision/rotation.py
index 9dd52f0..ed0a7d6 100644
--- a/src/jaxoplanet/starry/multiprecision/rotation.py
+++ b/src/jaxoplanet/starry/multiprecision/rotation.py
@@ -23,7 +23,7 @@ def get_R(name, l_max, obl=None, inc=None, cache=None):
             if obl not in matrices:
                 print(f"pre-computing {name}...")
                 matrices[obl] = R(l_max, (0.0, 0.0, 1.0), -obl)
-            return matrices[obl]
+            return [block.copy() for block in matrices[obl]]
         elif name == "R_inc":
             matrices = matrices.setdefault(name, {})
             if (inc, obl) not in matrices:
@@ -31,7 +31,7 @@ def get_R(name, l_max, obl=None, inc=None, cache=None):
                 matrices[(inc, obl)] = R(
                     l_max, (-mp.cos(obl), -mp.sin(obl), 0.0), (0.5 * mp.pi - inc)
                 )
-            return matrices[(inc, obl)]
+            return [block.copy() for block in matrices[(inc, obl)]]
     else:
         if name not in matrices:
             if name == "R_px":
@@ -41,7 +41,7 @@ def get_R(name, l_max, obl=None, inc=None, cache=None):
                 print(f"pre-computing {name}...")
                 matrices[name] = R(l_max, (1.0, 0.0, 0.0), 0.5 * mp.pi)
 
-        return matrices[name]
+        return [block.copy() for block in matrices[name]]
 
 
 def R(lmax, u, theta):
diff --git a/src/jaxoplanet/starry/multiprecision/solution.py b/src/jaxoplanet/starry/multiprecision/solution.py
index 8f31461..3f7080e 100644
--- a/src/jaxoplanet/starry/multiprecision/solution.py
+++ b/src/jaxoplanet/starry/multiprecision/solution.py
@@ -18,7 +18,7 @@ def get_sT(l_max, b, r, cache=None):
     solutions = cache.setdefault((l_max, mp.prec), {}).setdefault(name, {})
     if br not in solutions:
         solutions[br] = sT(l_max, b, r)
-    return solutions[br]
+    return solutions[br].copy()
 
 
 def check_occultation(b, r):
-- 
2.43.0


From e3192ad7442c6bc42c6332efa3f7049296445bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 4/5] fix: show_surface drew the graticule on pyplot's current
 axes instead of the given ones

---
 src/jaxoplanet/starry/utils.py         | 12 ++++++++----
 src/jaxoplanet/starry/visualization.py |  1 +
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/jaxoplanet/starry/utils.py b/src/jaxoplanet/starry/utils.py
index 4c636d4..8415ab0 100644
--- a/src/jaxoplanet/starry/utils.py
+++ b/src/jaxoplanet/starry/utils.py
@@ -113,10 +113,14 @@ def graticule(
     white_contour=True,
     radius: float = 1.0,
     n=6,
+    ax=None,
     **kwargs,
 ):
     import matplotlib.pyplot as plt
 
+    if ax is None:
+        ax = plt.gca()
+
     kwargs.setdefault("c", kwargs.pop("color", "k"))
     kwargs.setdefault("lw", kwargs.pop("linewidth", 1))
     kwargs.setdefault("alpha", 0.3)
@@ -124,16 +128,16 @@ def graticule(
     # plot lines
     lat, lon = lon_lat_lines(pts=pts, radius=radius, n=n)
     lat = rotate_lines(lat, inc, obl, theta)
-    plot_lines(lat, **kwargs)
+    plot_lines(lat, ax=ax, **kwargs)
     lon = rotate_lines(lon, inc, obl, theta)
-    plot_lines(lon, **kwargs)
+    plot_lines(lon, ax=ax, **kwargs)
     theta = np.linspace(0, 2 * np.pi, 2 * pts)
 
     # contour
     sqrt_radius = radius
-    plt.plot(sqrt_radius * np.cos(theta), sqrt_radius * np.sin(theta), **kwargs)
+    ax.plot(sqrt_radius * np.cos(theta), sqrt_radius * np.sin(theta), **kwargs)
     if white_contour:
-        plt.plot(sqrt_radius * np.cos(theta), sqrt_radius * np.sin(theta), c="w", lw=3)
+        ax.plot(sqrt_radius * np.cos(theta), sqrt_radius * np.sin(theta), c="w", lw=3)
 
 
 # s2fft have the same but this one is jitabel
diff --git a/src/jaxoplanet/starry/visualization.py b/src/jaxoplanet/starry/visualization.py
index 9b2832d..0c079a9 100644
--- a/src/jaxoplanet/starry/visualization.py
+++ b/src/jaxoplanet/starry/visualization.py
@@ -93,6 +93,7 @@ def show_surface(
             radius=radius,
             n=n,
             white_contour=white_contour,
+            ax=ax,
         )
     ax.set_xlim(-1.02, 1.02)
     ax.set_ylim(-1.02, 1.02)
-- 
2.43.0


From 8a964e9dd18fd20e92a6a0cae65fff239dd0c5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:56 +0000
Subject: [PATCH 5/5] fix: the multiprecision solution vector of a float was
 returned for an equal mpf

---
 src/jaxoplanet/starry/multiprecision/solution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/multiprecision/solution.py b/src/jaxoplanet/starry/multiprecision/solution.py
index 3f7080e..bdb67de 100644
--- a/src/jaxoplanet/starry/multiprecision/solution.py
+++ b/src/jaxoplanet/starry/multiprecision/solution.py
@@ -187,8 +187,8 @@ def q_numerical(l_max, b, r):
 
 
 def sT(l_max, b, r):
-    r = abs(r)
-    b = abs(b)
+    r = abs(mp.mpf(r))
+    b = abs(mp.mpf(b))
     return q_numerical(l_max, b, r) - p_numerical(l_max, b, r)
 
 
-- 
2.43.0

