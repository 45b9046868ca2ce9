From 7ca84c7c2da98da9650c4108c6f428c328be2569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 01/32] fix: Grid.vorticity_divergence calls its spectral
 counterpart as a method

---
 src/barotropic/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 315f60f..229d739 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -268,7 +268,7 @@ class Grid:
         Returns:
             Tuple of gridded (vorticity, divergence) fields.
         """
-        vort, div = vorticity_divergence_spectral(u, v)
+        vort, div = self.vorticity_divergence_spectral(u, v)
         return self.to_grid(vort), self.to_grid(div)
 
     def vorticity_divergence_spectral(self, u, v):
-- 
2.43.0


From 5867321a8fa8a26ae1ba1e5778e93353a27233c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 02/32] fix: filter_by_wavenumber uses
 scipy.signal.windows.hann (scipy.signal.hann was removed)

---
 src/barotropic/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index 0e3e01c..f88d828 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -216,7 +216,7 @@ def filter_by_wavenumber(field, wavenumber):
             convs.append(np.zeros_like(field))
             continue
         # Obtain the normalized Hann window for the current width
-        hann = scipy.signal.hann(width)
+        hann = scipy.signal.windows.hann(width)
         hann = hann / np.sum(hann)
         # Apply window along the zonal axis
         convs.append(scipy.signal.convolve2d(field, hann[None,:], mode="same", boundary="wrap"))
-- 
2.43.0


From 585537198155d747e9c38009979006d0a249e6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 03/32] fix: dominant_wavenumber_fourier accounts for the lower
 wavenumber limit

---
 src/barotropic/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index f88d828..f40f0da 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -116,7 +116,7 @@ def dominant_wavenumber_fourier(field, grid, smooth=("boxcar", 10), wavenumber_r
     # Compute Fourier power spectrum and determine wavenumber with maximum
     # power in the specified wavenumber range
     power = np.abs(np.fft.rfft(field, axis=_ZONAL)) ** 2
-    k_dom = np.argmax(power[:,k_min:k_max+1], axis=_ZONAL).astype(float)
+    k_dom = k_min + np.argmax(power[:,k_min:k_max+1], axis=_ZONAL).astype(float)
     # Apply smoothing if desired
     return k_dom if smooth is None else grid.filter_meridional(k_dom, *smooth)
 
-- 
2.43.0


From 36cdaee60418021ec35801ff52bfc6aba3e0d700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 04/32] fix: Grid.equivalent_latitude accepts scalar areas

---
 src/barotropic/grid.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 229d739..1552b20 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -591,8 +591,7 @@ class Grid:
         # Calculate argument of arcsin
         sine = 1. - 0.5 * area / np.pi / self.rsphere**2
         # Make sure argument of arcsin is in [-1, 1]
-        sine[sine >=  1] =  1
-        sine[sine <= -1] = -1
+        sine = np.clip(sine, -1., 1.)
         # Equivalent latitude in degrees
         return np.rad2deg(np.arcsin(sine))
 
-- 
2.43.0


From 77beba83fb546bf5436857987a0632e7d8caa4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 05/32] fix: Grid.solve_poisson_spectral solves for the global
 mean if op_add is given

---
 src/barotropic/grid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 1552b20..c354582 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -379,7 +379,10 @@ class Grid:
     def solve_poisson_spectral(self, rhs_spec, op_add=0.):
         """:py:meth:`solve_poisson` with spectral in- and output fields."""
         solution = np.zeros_like(rhs_spec)
-        solution[1:] = -rhs_spec[1:] / (self._laplacian_eigenvalues[1:] + op_add)
+        # The operator is singular for the global mean (first coefficient) if
+        # there is no constant term
+        start = 1 if op_add == 0. else 0
+        solution[start:] = -rhs_spec[start:] / (self._laplacian_eigenvalues[start:] + op_add)
         return solution
 
     def solve_diffusion(self, field_grid, coeff, dt, order=1):
-- 
2.43.0


From 7f82b71af49df5e0749d3ba71dc5a35a6eec6d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 06/32] fix: Grid comparison is relative and consistent with
 the hash

---
 src/barotropic/grid.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index c354582..32b43e5 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -86,13 +86,15 @@ class Grid:
     def __eq__(self, other):
         return (
             self.shape == other.shape
-            and np.isclose(self.rsphere, other.rsphere)
-            and np.isclose(self.omega, other.omega)
+            and np.isclose(self.rsphere, other.rsphere, atol=0.)
+            and np.isclose(self.omega, other.omega, atol=0.)
             and self._ntrunc == other._ntrunc
         )
 
     def __hash__(self):
-        return hash((self.shape, self.rsphere, self.omega, self._ntrunc))
+        # Equal grids must have equal hashes: exclude rsphere and omega since
+        # these are only compared approximately
+        return hash((self.shape, self._ntrunc))
 
     @property
     def shape(self):
-- 
2.43.0


From e80703ebc72159796f80cea3b44d43c325043c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 07/32] fix: Grid size is not affected by floating point
 truncation of 360/resolution

---
 src/barotropic/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 32b43e5..390d2fb 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -49,8 +49,8 @@ class Grid:
         # Setup longitude and latitude grid. Make sure longitude 0° is not
         # repeated and that both latitudes 90° and -90° exist. Latitudes start
         # at the North pole, which is the convention used by pyspharm.
-        self.nlon = int(360. / resolution)
-        self.nlat = int(180. / resolution) + 1
+        self.nlon = int(round(360. / resolution))
+        self.nlat = int(round(180. / resolution)) + 1
         self.lon = np.linspace( 0., 360., self.nlon, endpoint=False)
         self.lat = np.linspace(90., -90., self.nlat, endpoint=True)
         self.lon2, self.lat2 = np.meshgrid(self.lon, self.lat)
-- 
2.43.0


From 69513e9a1effde40c9788b6b367e979c9edf6e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 08/32] fix: BarotropicModel.run always returns saved states as
 StateList

---
 src/barotropic/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/model.py b/src/barotropic/model.py
index e480e8e..e2d0a96 100644
--- a/src/barotropic/model.py
+++ b/src/barotropic/model.py
@@ -71,7 +71,7 @@ class BarotropicModel:
 
         """
         if tend < state_init.time:
-            return state_init, [state_init]
+            return state_init, StateList([state_init])
         # First integration with Euler forward step (multistep leapfrog scheme
         # requires initialization)
         state = self.euler(state_init, dt)
-- 
2.43.0


From d01ec1334b88748a590445c8efac97e32b869c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 09/32] fix: BarotropicModel.run saves relative to the time of
 the initial state

---
 src/barotropic/model.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/barotropic/model.py b/src/barotropic/model.py
index e2d0a96..ea0dcec 100644
--- a/src/barotropic/model.py
+++ b/src/barotropic/model.py
@@ -59,8 +59,7 @@ class BarotropicModel:
                 soon as it is exeeded.
             save_every (number): If larger than zero, an intermediate state is
                 saved and returned in the list of states every time this time
-                interval is exceeded. Does not work for datetime/timedelta
-                **dt** currently.
+                interval (in seconds, since the initial time) is exceeded.
 
         Returns:
             Tuple containing the final state (:py:class:`State`) and a list of
@@ -83,7 +82,7 @@ class BarotropicModel:
         # applied to model state at the end
         while state.time < tend:
             state, state_new = self.leapfrog(state, state_new)
-            if save_every > 0 and state.time >= t_save:
+            if save_every > 0 and _to_seconds(state.time - state_init.time) >= t_save:
                 states.append(state)
                 t_save += save_every
         return state, StateList(states)
-- 
2.43.0


From fdf400e1a9438dd32e799432577dd79bb7cacfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 10/32] fix: extract_ks_waveguides does not return NaN next to
 -inf

---
 src/barotropic/diagnostics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index f40f0da..0a7b2be 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -352,7 +352,12 @@ def extract_ks_waveguides(ks_or_state, k, grid=None):
             active = False
         # Waveguide starts if ks exceeds k
         elif not active and ks_s > k:
-            start = lat_n if np.isinf(ks_s) else lat_n - grid.dlat * (ks_n - k) / (ks_s - ks_n)
+            if np.isinf(ks_s):
+                start = lat_n
+            elif np.isinf(ks_n):
+                start = lat_n + grid.dlat
+            else:
+                start = lat_n - grid.dlat * (ks_n - k) / (ks_s - ks_n)
             active = True
     # Last waveguide must end at south pole
     if active:
-- 
2.43.0


From c8fd350ffb0b35ac127155ff5161fa79d912b68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 11/32] fix: StateList can be copied and pickled

---
 src/barotropic/state.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/barotropic/state.py b/src/barotropic/state.py
index 628d87c..ae50641 100644
--- a/src/barotropic/state.py
+++ b/src/barotropic/state.py
@@ -456,6 +456,10 @@ class StateList(collections.abc.Sequence):
     # Broadcasting
 
     def __getattr__(self, name):
+        # Only State attributes are broadcast: special methods and the (while
+        # copying or unpickling not yet existing) internal container are not
+        if name == "_states" or name.startswith("__"):
+            raise AttributeError(f"'StateList' object has no attribute '{name}'")
         # Need to separate simple attributes/properties and State methods:
         # Attribute access can be evaluated immediately. Method access is
         # converted to a partially evaluated function that collects the result
-- 
2.43.0


From d8f552ff3a495fe0df2b4fe962840dca32c09f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 12/32] fix: zonal Fourier filtering preserves odd numbers of
 longitudes

---
 src/barotropic/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index 0a7b2be..22c45fe 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -26,7 +26,7 @@ def _restrict_fourier_zonal(field, kmin, kmax):
     xfft = np.fft.rfft(field, axis=_ZONAL)
     xfft[:,      :kmin] = 0.
     xfft[:,kmax+1:    ] = 0.
-    return np.fft.irfft(xfft, axis=_ZONAL)
+    return np.fft.irfft(xfft, n=field.shape[_ZONAL], axis=_ZONAL)
 
 
 def fawa(pv_or_state, grid=None, levels=None, interpolate=True, quad="sptrapz"):
-- 
2.43.0


From 186b0803b92560c3872c0c22408306d1bf38b3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 13/32] fix: summary plot rolls wind vectors together with the
 other fields

---
 src/barotropic/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/plot.py b/src/barotropic/plot.py
index 2957e88..0d4b076 100644
--- a/src/barotropic/plot.py
+++ b/src/barotropic/plot.py
@@ -177,7 +177,7 @@ def summary(state, figsize=(11, 7), hemisphere="both", center_lon=180, pv_cmap="
     fig.colorbar(pvc, ax=ax12)
     n_vectors = 13 if hemisphere == "both" else 21
     if not (np.linalg.norm(state.u) == 0. and np.linalg.norm(state.v) == 0.):
-        ax12.quiver(*reduce_vectors(grid.lon2, grid.lat2, state.u, state.v, n_vectors))
+        ax12.quiver(*reduce_vectors(grid.lon2, grid.lat2, roll(state.u), roll(state.v), n_vectors))
     configure_lon_x(ax12)
     configure_lat_y(ax12, hemisphere)
     ax12.set_title("PV [$10^{-4} \\mathrm{s}^{-1}$] and wind vectors", loc="left")
-- 
2.43.0


From 4e757ce3184c6bf1a038111ce5330e5cce886686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 14/32] fix: roll_lon takes periodicity into account when
 finding the center

---
 src/barotropic/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/plot.py b/src/barotropic/plot.py
index 0d4b076..357df22 100644
--- a/src/barotropic/plot.py
+++ b/src/barotropic/plot.py
@@ -75,7 +75,8 @@ def roll_lon(lon, center=180):
     """
     center = center % 360
     cur_mid = lon.size // 2
-    new_mid = np.argmin(np.abs(lon - center))
+    # Distance to the center with periodic boundary at 0°/360°
+    new_mid = np.argmin(np.abs((lon - center + 180) % 360 - 180))
     shift = cur_mid - new_mid
     return partial(np.roll, shift=shift, axis=_ZONAL), partial(configure_lon_x, offset=lon[shift])
 
-- 
2.43.0


From 5aa15ceb729ae59481003a5104a928df62c61108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 15/32] fix: window filters do not truncate results for integer
 input

---
 src/barotropic/grid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 390d2fb..453a02a 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -739,6 +739,8 @@ class Grid:
         """
         if width is not None:
             window = self.get_filter_window(window, width)
+        # Convolution output has the data type of the input
+        field = np.asarray(field, dtype=float)
         # Use symmetrical boundary condition
         if field.ndim == 1:
             assert field.size == self.nlat
@@ -767,6 +769,8 @@ class Grid:
         """
         if width is not None:
             window = self.get_filter_window(window, width)
+        # Convolution output has the data type of the input
+        field = np.asarray(field, dtype=float)
         # Use periodic boundary condition (only makes sense if 
         if field.ndim == 1:
             assert field.size == self.nlon
-- 
2.43.0


From 7911b22974ff4a790f5f5071cfc0b0b701cd4212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:02 +0000
Subject: [PATCH 16/32] fix: from_dataset assigns numeric times to states as
 scalars

---
 src/barotropic/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index 9188ad8..9e66e63 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -341,6 +341,9 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
                 # timezone info for now
                 timestamp = (time - np.datetime64(0, "s")) / np.timedelta64(1, "s")
                 time = dt.datetime.fromtimestamp(timestamp, dt.timezone.utc).replace(tzinfo=None)
+            # Unpack other (e.g. numeric) values from zero-dimensional arrays
+            elif isinstance(time, np.ndarray):
+                time = time.item()
         # Create State and add to collection
         states.append(as_state(time, field))
 
-- 
2.43.0


From a34d9b9d585f2c9f1cddb154bedd673f308eb200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:02 +0000
Subject: [PATCH 17/32] fix: from_dataset accepts dimensions with repeated or
 without coordinate values

---
 src/barotropic/io.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index 9e66e63..b26acf2 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -297,8 +297,8 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
         # data, and select matching v field during construction of the State
         def as_state(t, da):
             u = da.values
-            # Select matching meridional wind field (dims_flatten assigned below)
-            v = ds[var_map["v"]].sel({ dim: da.coords[dim] for dim in dims_flatten }).values
+            # Select matching meridional wind field (selection assigned below)
+            v = ds[var_map["v"]].isel(selection).values
             return State.from_wind(grid, t, u, v)
     # States from relative vorticity
     elif var_map["vo"] is not None:
@@ -320,15 +320,17 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
     # Only 1-dimensional StateList output supported, so all dimensions other
     # than lon and lat are flattened
     dims_flatten = data.dims[:-2]
-    dims_values = [data.coords[dim].values for dim in dims_flatten]
+    dims_ranges = [range(data.sizes[dim]) for dim in dims_flatten]
 
     states = []
     # Because itertools.product returns an empty tuple when called without any
-    # arguments (here: when dims_values is empty), this also covers the case of
+    # arguments (here: when dims_ranges is empty), this also covers the case of
     # single field input with no flattened dimensions
-    for selection in itertools.product(*dims_values):
-        # Extract the current lon-lat field
-        field = data.sel(dict(zip(dims_flatten, selection)))
+    for indices in itertools.product(*dims_ranges):
+        # Extract the current lon-lat field by position, since dimensions may
+        # have repeated coordinate values or no coordinate at all
+        selection = dict(zip(dims_flatten, indices))
+        field = data.isel(selection)
         # Try to use time value from coordinates if possible, otherwise fall
         # back to fill value
         time = time_fill
-- 
2.43.0


From 1e5a9eb23a103bc4eafc109b3650feaf0e674d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:02 +0000
Subject: [PATCH 18/32] fix: from_dataset rejects coordinates that differ from
 those of the created grid

---
 src/barotropic/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index b26acf2..370e5d4 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -269,6 +269,7 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
     assert np.isclose(dlon, dlons).all(), "lon spacing is not regular"
     assert dlon > 0, "lon coordinate must be increasing (W to E)"
     assert np.isclose(lon[-1] - lon[0], 360. - dlon), "lon coordinate irregular at periodic boundary"
+    assert np.isclose(lon[0], 0., atol=1e-3 * dlon), "lon coordinate must start at 0, please roll"
 
     # Verify latitude coordinate
     if var_map["lat"] is None:
@@ -282,6 +283,7 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
     assert np.isclose(dlat, dlats).all(), "lat spacing is not regular"
     assert dlat < 0, "lat coordinate must be decreasing (N to S)"
     assert np.isclose(dlat, -dlon), "grid is not regular: lat spacing {dlat}, lon spacing {dlon}"
+    assert np.isclose(lat[0], 90.), "lat coordinate must start at 90 (North Pole)"
 
     # Instanciate Grid that matches dataset coordinates
     grid_kwargs = {} if grid_kwargs is None else grid_kwargs
-- 
2.43.0


From 144252a558bb059cad1e0d5a008398d92e70a410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:02 +0000
Subject: [PATCH 19/32] fix: as_dataset accepts empty iterators

---
 src/barotropic/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index 370e5d4..64d0d7a 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -65,14 +65,14 @@ def as_dataset(states, fields=("u", "v"), concat_dim="time"):
     """
     import xarray as xr
     from . import __version__
-    # Empty input
-    if not states:
-        return xr.Dataset()
     # Compatibility for single-state input
     if isinstance(states, State):
         states = [states]
     # Convert into state collection for accessors and basic integrity checks
     states = StateList(states)
+    # Empty input
+    if not states:
+        return xr.Dataset()
     # Extract basic coordinates
     coords = dict()
     coords["latitude"] = xr.DataArray(states.grid.lat, dims=["latitude"], attrs={
-- 
2.43.0


From 426635c8fca8690bbd8f09e32a0c2df58bae953c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:53 +0000
Subject: [PATCH 20/32] fix: State.add_wind adds wind given as a (u,v)-tuple
 instead of replacing the wind

---
 src/barotropic/state.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/barotropic/state.py b/src/barotropic/state.py
index ae50641..e6f757b 100644
--- a/src/barotropic/state.py
+++ b/src/barotropic/state.py
@@ -113,6 +113,8 @@ class State:
             u, v = other
             assert self.grid.shape == u.shape
             assert self.grid.shape == v.shape
+            u = self.u + u
+            v = self.v + v
         return State.from_wind(self.grid, self.time, u, v)
 
     def add_vorticity(self, other):
-- 
2.43.0


From 91a29e00d638d06359386b88ae1b3d5270ee5183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:04 +0000
Subject: [PATCH 21/32] fix: interp1d_meridional does not truncate the pole
 values when interpolating integer fields

---
 src/barotropic/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 453a02a..5220471 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -686,6 +686,8 @@ class Grid:
         """
         assert 1 <= field.ndim <= 2
         assert len(pole_values) == 2
+        # Pole values must not be truncated when padding an integer field
+        field = field.astype(np.result_type(field, float))
         pad = (1, 1) if field.ndim == 1 else ((1, 1), (0, 0))
         axis = -1    if field.ndim == 1 else MERIDIONAL
         x = np.pad(lat, pad_width=(1, 1), mode="constant", constant_values=(90., -90.))
-- 
2.43.0


From 0da1c5ad8384299e539c901e58dc98c4c32c90bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:04 +0000
Subject: [PATCH 22/32] fix: interp1d_meridional uses the given pole values if
 input is located at the poles

---
 src/barotropic/grid.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 5220471..b3094c8 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -690,6 +690,11 @@ class Grid:
         field = field.astype(np.result_type(field, float))
         pad = (1, 1) if field.ndim == 1 else ((1, 1), (0, 0))
         axis = -1    if field.ndim == 1 else MERIDIONAL
+        # The values at the poles are given by pole_values: drop input that is
+        # already located there (interp1d does not support duplicate latitudes)
+        lat = np.asarray(lat)
+        inner = np.abs(lat) < 90.
+        lat, field = lat[inner], field[inner]
         x = np.pad(lat, pad_width=(1, 1), mode="constant", constant_values=(90., -90.))
         y = np.pad(field, pad_width=pad, mode="constant", constant_values=pole_values)
         return scipy.interpolate.interp1d(x, y, axis=axis, kind=kind, copy=False)
-- 
2.43.0


From e766a76a3fe5d818368eb45f572d2545c49393cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:37 +0000
Subject: [PATCH 23/32] fix: from_dataset: exact conversion of datetime64 times
 to datetime

---
 src/barotropic/io.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index 64d0d7a..46e9a26 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -340,11 +340,10 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
             time = field.coords[var_map["time"]].values
             # Convert numpy datetime type into a regular datetime instance
             if isinstance(time, np.datetime64):
-                # https://stackoverflow.com/questions/13703720/, but
-                # utcfromtimestamp is deprecated, start with UTC and drop the
-                # timezone info for now
-                timestamp = (time - np.datetime64(0, "s")) / np.timedelta64(1, "s")
-                time = dt.datetime.fromtimestamp(timestamp, dt.timezone.utc).replace(tzinfo=None)
+                # Integer arithmetic in microseconds (the resolution of datetime)
+                # is exact for all dates, unlike floating point timestamps
+                elapsed = (time - np.datetime64(0, "s")).astype("timedelta64[us]")
+                time = dt.datetime(1970, 1, 1) + elapsed.item()
             # Unpack other (e.g. numeric) values from zero-dimensional arrays
             elif isinstance(time, np.ndarray):
                 time = time.item()
-- 
2.43.0


From b925e87295c874617a718735d48e2d293bb8dad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 24/32] fix: text representation of empty regions

---
 src/barotropic/formatting.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/barotropic/formatting.py b/src/barotropic/formatting.py
index 98ed87c..525f314 100644
--- a/src/barotropic/formatting.py
+++ b/src/barotropic/formatting.py
@@ -40,6 +40,12 @@ def grid_repr(grid):
         "    legfunc      = {}".format(grid._spharm.legfunc)
     ])
 
+def _limits(coords, first, last):
+    # Empty selections have no limits
+    if coords.size == 0:
+        return "  none          "
+    return "{:6.2f} to {:6.2f}".format(coords[first], coords[last])
+
 def grid_region_repr(region):
     # Draw a crude "map" with a box for the selection
     mask_lat = np.histogram(region.lat, np.linspace(-90, 90, 10))[0] > 0
@@ -51,8 +57,8 @@ def grid_region_repr(region):
     out[8] += " 90°S"
     out.append("    0°E              180°E")
     return "\n".join([
-        "Region {:6.2f} to {:6.2f} °N (nlat = {})".format(*region.lat[[-1,0]], region.shape[0]),
-        "       {:6.2f} to {:6.2f} °E (nlon = {})".format(*region.lon[[0,-1]], region.shape[1]),
+        "Region {} °N (nlat = {})".format(_limits(region.lat, -1, 0), region.shape[0]),
+        "       {} °E (nlon = {})".format(_limits(region.lon, 0, -1), region.shape[1]),
         "", *out, "",
         "of {}".format(repr(region._grid))
     ])
-- 
2.43.0


From 372da686a095d446c48656f2e37c8bc67016b72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:17 +0000
Subject: [PATCH 25/32] fix: derivative_meridional does not overflow for small
 and unsigned integer fields

---
 src/barotropic/grid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index b3094c8..4d8e3f0 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -317,6 +317,9 @@ class Grid:
         """
         f = np.asarray(f)
         assert f.ndim <= 2
+        # Avoid overflow and truncation in the stencils for integer input
+        if f.dtype.kind in "biu":
+            f = f.astype(float)
         # Output has same shape as input
         out = np.zeros_like(f)
         if order == 2:
-- 
2.43.0


From 8a46b24c714838b1090447417d6d70c93106f02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:38 +0000
Subject: [PATCH 26/32] fix: vorticity and divergence of wind given as unsigned
 integers

---
 src/barotropic/grid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 4d8e3f0..24befee 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -275,6 +275,10 @@ class Grid:
 
     def vorticity_divergence_spectral(self, u, v):
         """:py:meth:`vorticity_divergence` with spectral output fields."""
+        # The transform negates v, which does not work for unsigned integers
+        v = np.asarray(v)
+        if v.dtype.kind in "biu":
+            v = v.astype(float)
         return self._spharm.getvrtdivspec(u, v, self._ntrunc)
 
     # Derivatives and PDE solvers
-- 
2.43.0


From 2fa2570849e749eed7d473e2addbadba59fe7460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:38 +0000
Subject: [PATCH 27/32] fix: quad_meridional does not overflow for small and
 unsigned integer fields

---
 src/barotropic/grid.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 24befee..be61d79 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -540,6 +540,11 @@ class Grid:
             # If no z-values are given, integrate everywhere
             if z is None:
                 z = np.ones_like(y)
+            # Avoid overflow in the differences for integer input
+            if y.dtype.kind in "biu":
+                y = y.astype(float)
+            if z.dtype.kind in "biu":
+                z = z.astype(float)
             # Construct slicing tuple based on latitude axis (-2)
             js = slice(None,   -1), slice(None, None)
             je = slice(   1, None), slice(None, None)
-- 
2.43.0


From a3ec4d9e4465afedcd93e16b0b7c3089e74e23a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:38 +0000
Subject: [PATCH 28/32] fix: symmetric_levels does not overflow for small and
 unsigned integer fields

---
 src/barotropic/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/plot.py b/src/barotropic/plot.py
index 357df22..b9c34b6 100644
--- a/src/barotropic/plot.py
+++ b/src/barotropic/plot.py
@@ -95,7 +95,7 @@ def symmetric_levels(x, n=10, ext=None):
         Array of linearly spaced contour values.
     """
     if ext is None:
-        ext = max(abs(np.min(x)), abs(np.max(x)))
+        ext = max(abs(float(np.min(x))), abs(float(np.max(x))))
     if ext == 0.:
         return np.array([-1., 1.])
     return np.linspace(-ext, ext, n)
-- 
2.43.0


From 08282c4564fbeb0edfd73b3b08f68b72d69c72d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:34 +0000
Subject: [PATCH 29/32] fix: zonalize does not overflow for small and unsigned
 integer fields

---
 src/barotropic/grid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index be61d79..e03d603 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -639,6 +639,9 @@ class Grid:
 
         Implements the zonalization procedure of Nakamura and Zhu (2010).
         """
+        # Avoid overflow in differences of integer fields and contour values
+        if field.dtype.kind in "biu":
+            field = field.astype(float)
         # Select contours for area computations
         q_min = np.min(field)
         q_max = np.max(field)
-- 
2.43.0


From bf095288e976b60a7430c79e78bfcd8664f86b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:34 +0000
Subject: [PATCH 30/32] fix: falwa does not overflow for small and unsigned
 integer fields

---
 src/barotropic/diagnostics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index 22c45fe..0e1a8a4 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -72,6 +72,9 @@ def falwa(pv_or_state, grid=None, levels=None, interpolate=True, quad="sptrapz")
     **interpolate** is set to `False`.
     """
     grid, pv = _get_grid_vars(["pv"], grid, pv_or_state)
+    # Avoid overflow in differences of integer fields and contour values
+    if pv.dtype.kind in "biu":
+        pv = pv.astype(float)
     # Compute zonalized background state of PV
     qq, yy = grid.zonalize(pv, levels=levels, interpolate=False, quad=quad)
     # Interpolate between gridpoints in case of the the boxcounting quadrature
-- 
2.43.0


From 410ff7d03ebbdeb79eafd71b2a52bf553a5c36e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:34 +0000
Subject: [PATCH 31/32] fix: extract_ks_waveguides does not overflow for small
 and unsigned integer profiles

---
 src/barotropic/diagnostics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index 0e1a8a4..5616ff8 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -336,6 +336,9 @@ def extract_ks_waveguides(ks_or_state, k, grid=None):
     (2020).
     """
     grid, ks = _get_grid_vars(["stationary_wavenumber"], grid, ks_or_state)
+    # Avoid overflow in differences of integer values
+    if ks.dtype.kind in "biu":
+        ks = ks.astype(float)
     # Convert stationary wavenumbers to "real" variant, so there is a proper
     # ordering (one could also square them, but then the linear interpolation
     # for the start/end latitudes is not as nice for the non-squared variants)
-- 
2.43.0


From 3c4733e9d9c4a89d9875cb9445e5f0af5e47ca3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:35 +0000
Subject: [PATCH 32/32] fix: Orography interpolates correctly for latitudes of
 unsigned integer type

---
 src/barotropic/rhs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/rhs.py b/src/barotropic/rhs.py
index 1611490..7fdce0c 100644
--- a/src/barotropic/rhs.py
+++ b/src/barotropic/rhs.py
@@ -159,7 +159,8 @@ class Orography(RHS):
         """
         # Interpolate given orography to grid. Because np.interp requires
         # increasing x-values, flip sign of lat which range from +90° to -90°.
-        lat_interp = lambda x: np.interp(-grid.lat, -self._lat, x)
+        # (as floating point numbers, since unsigned integers have no sign).
+        lat_interp = lambda x: np.interp(-grid.lat, -np.asarray(self._lat, dtype=float), x)
         lon_interp = lambda x: np.interp( grid.lon,  self._lon, x)
         # 2D linear interpolation
         orog = np.apply_along_axis(lat_interp, 0, self._orography)
-- 
2.43.0

