From 9ebe7ea55303e6075c4051402edc25a1d77f080f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:35 +0000
Subject: [PATCH 01/52] fix: fourier_filter takes the frequency resolution from
 the time axis

The resolution was always computed from the length of axis 0, so any other
time_axis filtered at the wrong frequencies, and a non-square DataArray with
time_axis != 0 raised because the swapped copy replaced the input.
---
 geocat/comp/fourier_filters.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geocat/comp/fourier_filters.py b/geocat/comp/fourier_filters.py
index 9a663bf..4b0a17d 100644
--- a/geocat/comp/fourier_filters.py
+++ b/geocat/comp/fourier_filters.py
@@ -126,9 +126,8 @@ def fourier_filter(
     >>> axs[1].plot(np.imag(no_tide)[start:end])
     >>> fig.show()
     """
-    resolution = frequency / len(signal)
-    signal = np.swapaxes(signal, time_axis, 0)
-    res_fft = np.fft.fft(signal, axis=0)
+    resolution = frequency / np.shape(signal)[time_axis]
+    res_fft = np.fft.fft(np.swapaxes(np.asarray(signal), time_axis, 0), axis=0)
     cfl_index = m.floor(cutoff_frequency_low / resolution)
     cfln_index = 1 - cfl_index
     cfh_index = m.ceil(cutoff_frequency_high / resolution)
-- 
2.43.0


From 831e2617483c7785734c7f004663aeb0558457b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:35 +0000
Subject: [PATCH 02/52] fix: fourier_filter cutoffs above the Nyquist frequency
 no longer wrap around

A band_block whose high cutoff lies above Nyquist removed bins below the low
cutoff (including the mean), because the slice ran into the negative
frequencies.
---
 geocat/comp/fourier_filters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geocat/comp/fourier_filters.py b/geocat/comp/fourier_filters.py
index 4b0a17d..4a814bf 100644
--- a/geocat/comp/fourier_filters.py
+++ b/geocat/comp/fourier_filters.py
@@ -131,6 +131,8 @@ def fourier_filter(
     cfl_index = m.floor(cutoff_frequency_low / resolution)
     cfln_index = 1 - cfl_index
     cfh_index = m.ceil(cutoff_frequency_high / resolution)
+    # nothing lies above the Nyquist frequency; a larger index would wrap around
+    cfh_index = min(cfh_index, len(res_fft) // 2 + 1)
     cfhn_index = 1 - cfh_index
     if low_pass:
         if cfl_index > 1:
-- 
2.43.0


From da279e83d253567568309a6671be2a35483b3252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 03/52] fix: gradient differentiates along the latitude and
 longitude axes

For input with leading dimensions (the docs allow n-dimensional data) the
derivatives were taken along the first two axes, whatever they were.
---
 geocat/comp/gradient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geocat/comp/gradient.py b/geocat/comp/gradient.py
index 9bf8f1d..cd88a5b 100644
--- a/geocat/comp/gradient.py
+++ b/geocat/comp/gradient.py
@@ -245,7 +245,7 @@ def gradient(
     axis0dist = np.gradient(axis0loc, axis=0)
     axis1dist = np.gradient(axis1loc, axis=1)
 
-    grad = np.gradient(data)
+    grad = np.gradient(data, axis=(-2, -1))
 
     axis0grad = grad[0] / axis0dist
     axis1grad = grad[1] / axis1dist
-- 
2.43.0


From 25b2568c57954f90284b47f5f7d5a205412dad38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:42 +0000
Subject: [PATCH 04/52] fix: delta_pressure of a column whose surface lies in
 the top layer

With surface_pressure above the first layer midpoint the single layer was
computed from pressure_lev[-1] and came out negative; it spans pressure_top
to the surface.
---
 geocat/comp/meteorology.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index eea45c9..77a49ee 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -1251,6 +1251,9 @@ def _delta_pressure1D(pressure_lev, surface_pressure, pressure_top):
         surface_pressure - (pressure_lev[end_level] + pressure_lev[end_level - 1]) / 2
     )  # bottom level
 
+    if end_level == start_level:  # the surface lies within the top layer
+        delta_pressure[start_level] = surface_pressure - pressure_top
+
     # Return delta_pressure to original order
     if is_pressuredecreasing:
         delta_pressure = np.flip(delta_pressure)
-- 
2.43.0


From af39426319e70cf30bce84a60a045d91cc7277b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 05/52] fix: climate_anomaly by year distinguishes centuries

Groups were keyed on the two-digit year, so a series longer than a century
mixed the means of e.g. 1950 and 2050.
---
 geocat/comp/climatologies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index 1bc805a..c7f16d9 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -192,7 +192,7 @@ def climate_anomaly(
         'day': ('%m-%d', 'D'),
         'month': ('%m', 'MS'),
         'season': (None, 'QS-DEC'),
-        'year': ('%y', 'Y'),
+        'year': ('%Y', 'Y'),
     }
 
     if freq not in freq_dict:
-- 
2.43.0


From 6aaab67fab9ab0c8947f97a9c34cd6c3cc4aa990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:30 +0000
Subject: [PATCH 06/52] fix: month_to_season drops edge seasons by their date,
 not by assuming a January start

DJF and NDJ always removed the last/first selected month, which for data that
does not start in January removed a month from a complete season, and other
seasons kept a mean stamped outside the data.
---
 geocat/comp/climatologies.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index c7f16d9..920b2bc 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -311,15 +311,6 @@ def month_to_season(
         {time_coord_name: dset[time_coord_name].dt.month.isin(months)}
     )
 
-    if (
-        season == 'DJF'
-    ):  # For this season, the last "mean" will be the value for Dec so we drop the last month
-        data_filter = data_filter.isel({time_coord_name: slice(None, -1)})
-    elif (
-        season == 'NDJ'
-    ):  # For this season, the first "mean" will be the value for Jan so we drop the first month
-        data_filter = data_filter.isel({time_coord_name: slice(1, None)})
-
     # Group the months into three and take the mean
     means = data_filter.resample({time_coord_name: quarter}).mean(keep_attrs=keep_attrs)
     # Set offset for supported array formats
@@ -338,7 +329,15 @@ def month_to_season(
 
     # The line above tries to take the mean for all quarters even if there is not data for some of them
     # Therefore, we must filter out the NaNs
-    return means.sel({time_coord_name: means[time_coord_name].dt.month == months[1]})
+    means = means.sel({time_coord_name: means[time_coord_name].dt.month == months[1]})
+
+    # Drop the means whose central month falls outside the original data
+    in_range = (
+        means[time_coord_name]
+        .dt.strftime('%Y-%m')
+        .isin(dset[time_coord_name].dt.strftime('%Y-%m'))
+    )
+    return means.sel({time_coord_name: in_range})
 
 
 def calendar_average(
-- 
2.43.0


From 9f97877143353d4599cc1505a9001d1ca741e233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:51 +0000
Subject: [PATCH 07/52] fix: missing values in calendar_average and seasonal
 climatology_average

A single missing cell (e.g. a land mask) removed the whole period for every
cell - up to an IndexError when a cell is always missing - and a season whose
months are all missing came out as 0. Missing months now carry no weight, cell
by cell, and a period without valid data is missing.
---
 geocat/comp/climatologies.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index 920b2bc..d1753ff 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -429,11 +429,7 @@ def calendar_average(
     calendar = _infer_calendar_name(dset[time_dim])
 
     # Group data
-    dset = (
-        dset.resample({time_dim: frequency})
-        .mean(keep_attrs=keep_attrs)
-        .dropna(time_dim)
-    )
+    dset = dset.resample({time_dim: frequency}).mean(keep_attrs=keep_attrs)
 
     # Weight the data by the number of days in each month
     if freq in ['season', 'year']:
@@ -449,7 +445,9 @@ def calendar_average(
         weights = month_length.map(lambda group: group / group.sum())
 
         dset_weighted = dset * weights
-        dset = (dset_weighted).resample({time_dim: frequency}).sum()
+        # missing months carry no weight
+        weights = (dset.notnull() * weights).resample({time_dim: frequency}).sum()
+        dset = (dset_weighted).resample({time_dim: frequency}).sum() / weights
 
     # Center the time coordinate by inferring and then averaging the time bounds
     dset = _calculate_center_of_time_bounds(
@@ -630,14 +628,17 @@ def climatology_average(
             dset_filter = (
                 dset_filter.resample({time_dim: frequency})
                 .mean(keep_attrs=keep_attrs)
-                .dropna(time_dim)
+                .dropna(time_dim, how='all')
             )
 
             # Compute the weights for the months in each season so that the
             # seasonal averages account for months being of different lengths
             month_length = dset_filter[time_dim].dt.days_in_month
             weights = month_length / month_length.sum()
-            climatology = (dset_filter * weights).sum(dim=time_dim)
+            # missing months carry no weight
+            climatology = (dset_filter * weights).sum(dim=time_dim) / (
+                dset_filter.notnull() * weights
+            ).sum(dim=time_dim)
 
             seasonal_climates.append(climatology)
         dset = xr.concat(seasonal_climates, dim='season')
-- 
2.43.0


From 9b72642c536dc605a2e3664cceaa23e11262e7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:33 +0000
Subject: [PATCH 08/52] fix: climatology_average of daily data with a leap
 year, and of years before 1000

The labels were built in the median year; when that is not a leap year the
February 29 group had no label and a ValueError was raised. A year below 1000
was not zero-padded and could not be parsed.
---
 geocat/comp/climatologies.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index d1753ff..ab9b812 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -648,6 +648,12 @@ def climatology_average(
     else:
         # Retrieve floor of median year
         median_yr = np.median(dset[time_dim].dt.year.values)
+        # February 29 can only be labelled in a leap year
+        leap_years = dset[time_dim].dt.year.values[
+            (dset[time_dim].dt.month == 2) & (dset[time_dim].dt.day == 29)
+        ]
+        if format != '%m' and leap_years.size:
+            median_yr = leap_years[np.abs(leap_years - median_yr).argmin()]
 
         # Group data by format then calculate average of groups
         dset = (
@@ -664,8 +670,8 @@ def climatology_average(
             time_dim,
             frequency,
             calendar,
-            start=f'{median_yr:.0f}-{start_time}',
-            end=f'{median_yr:.0f}-{end_time}',
+            start=f'{median_yr:04.0f}-{start_time}',
+            end=f'{median_yr:04.0f}-{end_time}',
             keep_attrs=keep_attrs,
         )
 
-- 
2.43.0


From e99294ac88c5e20f350114a5b85807218e528df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:53 +0000
Subject: [PATCH 09/52] fix: climatology_average of data that does not cover
 every month of the year

The labels ran over every period between the first and the last group, so any
record with a gap in the annual cycle (e.g. October to March, or 6-hourly data
averaged by hour) raised a ValueError.
---
 geocat/comp/climatologies.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index ab9b812..a6c6636 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -47,6 +47,7 @@ def _calculate_center_of_time_bounds(
     start: typing.Union[str, cftime.datetime],
     end: typing.Union[str, cftime.datetime],
     keep_attrs: bool = None,
+    groups: tuple = None,
 ) -> typing.Union[xr.Dataset, xr.DataArray]:
     """Helper function to determine the time bounds based on the given dataset
     and frequency and then calculate the averages of them.
@@ -80,6 +81,10 @@ def _calculate_center_of_time_bounds(
         If False, the new object will be returned without attributes.
         Defaults to None which means the attrs will only be kept in unambiguous circumstances.
 
+    groups : tuple, optional
+        The labels of the periods that occur in the data and their `strftime` format.
+        Defaults to None, for every period between `start` and `end`.
+
     Returns
     -------
     computed_dset: :class:`xarray.Dataset`, :class:`xarray.DataArray`
@@ -100,9 +105,13 @@ def _calculate_center_of_time_bounds(
         )
     else:
         time_bounds = xr.date_range(start=start, end=end, freq=freq, calendar=calendar)
-    time_bounds = time_bounds.append(time_bounds[-1:].shift(1, freq=freq))
+    if groups is not None:
+        # the data need not cover every period between start and end
+        labels, group_format = groups
+        time_bounds = time_bounds[np.isin(time_bounds.strftime(group_format), labels)]
     time = xr.DataArray(
-        np.vstack((time_bounds[:-1], time_bounds[1:])).T, dims=[time_dim, 'nbd']
+        np.vstack((time_bounds, time_bounds.shift(1, freq=freq))).T,
+        dims=[time_dim, 'nbd'],
     ).mean(dim='nbd', keep_attrs=keep_attrs)
     return dset.assign_coords({time_dim: time})
 
@@ -673,6 +682,7 @@ def climatology_average(
             start=f'{median_yr:04.0f}-{start_time}',
             end=f'{median_yr:04.0f}-{end_time}',
             keep_attrs=keep_attrs,
+            groups=(dset[time_dim].values.astype(str), format),
         )
 
         return dset
-- 
2.43.0


From 5d56816b75248477e161d09ec425b8e540237954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:57 +0000
Subject: [PATCH 10/52] fix: seasonal climatology of a season without valid
 data is missing

It raised an AttributeError (or IndexError) because every month was dropped.
---
 geocat/comp/climatologies.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index a6c6636..010b663 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -634,10 +634,8 @@ def climatology_average(
             dset_filter = dset.sel({time_dim: dset[time_dim].dt.month.isin(months)})
 
             # Calculate monthly average before calculating seasonal climatologies
-            dset_filter = (
-                dset_filter.resample({time_dim: frequency})
-                .mean(keep_attrs=keep_attrs)
-                .dropna(time_dim, how='all')
+            dset_filter = dset_filter.resample({time_dim: frequency}).mean(
+                keep_attrs=keep_attrs
             )
 
             # Compute the weights for the months in each season so that the
-- 
2.43.0


From ee7bdb31c57d7c6c3b3cdb522bb3e0503cfedfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:55 +0000
Subject: [PATCH 11/52] fix: attributes of the time coordinate no longer leak
 into season and year averages

---
 geocat/comp/climatologies.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index 010b663..b891fb0 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -450,7 +450,8 @@ def calendar_average(
         format, frequency = freq_dict[key]
         # Compute the weights for the months in each season so that the
         # seasonal/yearly averages account for months being of different lengths
-        month_length = dset[time_dim].dt.days_in_month.resample({time_dim: frequency})
+        month_length = dset[time_dim].dt.days_in_month.drop_attrs(deep=False)
+        month_length = month_length.resample({time_dim: frequency})
         weights = month_length.map(lambda group: group / group.sum())
 
         dset_weighted = dset * weights
@@ -640,7 +641,7 @@ def climatology_average(
 
             # Compute the weights for the months in each season so that the
             # seasonal averages account for months being of different lengths
-            month_length = dset_filter[time_dim].dt.days_in_month
+            month_length = dset_filter[time_dim].dt.days_in_month.drop_attrs(deep=False)
             weights = month_length / month_length.sum()
             # missing months carry no weight
             climatology = (dset_filter * weights).sum(dim=time_dim) / (
-- 
2.43.0


From 77d6f979cb689b8861ebc8c851124de37ec7a95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:53 +0000
Subject: [PATCH 12/52] fix: hybrid level pressures of numpy surface pressure
 of any rank

---
 geocat/comp/interpolation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index a840b63..47a2928 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -413,8 +413,8 @@ def pressure_at_hybrid_levels(psfc, hya, hyb, p0=100000.0):
 
     # broadcast if np inputs
     if isinstance(hya, np.ndarray):  # will be same type by here
-        hya = np.expand_dims(hya, axis=(1, 2))
-        hyb = np.expand_dims(hyb, axis=(1, 2))
+        hya = hya.reshape((-1,) + (1,) * psfc.ndim)
+        hyb = hyb.reshape((-1,) + (1,) * psfc.ndim)
 
     # Results in Pa
     # p(k) = hya(k) * p0 + hyb(k) * psfc
@@ -487,8 +487,8 @@ def delta_pressure_hybrid(
 
     # broadcast any np inputs or drop xarray lev dims
     if isinstance(hya, np.ndarray):  # hya and hyb already validated to be same type
-        hya = np.expand_dims(hya, axis=(1, 2))
-        hyb = np.expand_dims(hyb, axis=(1, 2))
+        hya = hya.reshape((-1,) + (1,) * ps.ndim)
+        hyb = hyb.reshape((-1,) + (1,) * ps.ndim)
     elif isinstance(hya, xr.DataArray):
         # drop lev coords for delta calculation, or xr will try to align
         if len(hya.coords) > 0:
-- 
2.43.0


From 0cbae6538a5d2969fc26b50d1087af540a11428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:18 +0000
Subject: [PATCH 13/52] fix: delta_pressure_hybrid with coefficients that carry
 other coordinates than the level

---
 geocat/comp/interpolation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 47a2928..1b4f670 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -491,10 +491,8 @@ def delta_pressure_hybrid(
         hyb = hyb.reshape((-1,) + (1,) * ps.ndim)
     elif isinstance(hya, xr.DataArray):
         # drop lev coords for delta calculation, or xr will try to align
-        if len(hya.coords) > 0:
-            hya = hya.drop(list(hya.coords)[0])
-        if len(hyb.coords) > 0:
-            hyb = hyb.drop(list(hyb.coords)[0])
+        hya = hya.drop_vars(list(hya.coords))
+        hyb = hyb.drop_vars(list(hyb.coords))
         # make sure hya and hyb dims align, favor hya dim name
         if set(hya.dims) != set(hyb.dims):
             hyb = hyb.rename({hyb.dims[0]: hya.dims[0]})
-- 
2.43.0


From a49641653edc57efee92c64605c2a50be2429ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:51 +0000
Subject: [PATCH 14/52] fix: interp_hybrid_to_pressure output has its pressure
 levels whatever the coordinates of the data

---
 geocat/comp/interpolation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 1b4f670..81ec287 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -741,10 +741,9 @@ def interp_hybrid_to_pressure(
 
     coords = {}
     for k, v in data.coords.items():
-        if k != lev_dim:
+        if lev_dim not in v.dims:
             coords.update({k: v})
-        else:
-            coords.update({"plev": new_levels})
+    coords.update({"plev": new_levels})
 
     output = output.transpose(*dims).assign_coords(coords)
 
-- 
2.43.0


From 3efd92c663e57d8054423ca96c753c6b48f04088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:02 +0000
Subject: [PATCH 15/52] fix: interp_hybrid_to_pressure of eager data with a
 chunked surface pressure

---
 geocat/comp/interpolation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 81ec287..891ac47 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -670,6 +670,10 @@ def interp_hybrid_to_pressure(
     # Make pressure shape same as data shape
     pressure = pressure.transpose(*data.dims)
 
+    # Chunk data too if only the pressure is chunked
+    if in_dask and data.chunks is None:
+        data = data.chunk()
+
     # choose how to call function based on input types
     output = None
     # try xr.map_blocks first if chunked input
-- 
2.43.0


From ed4f34a615c6b95e93054b16e699eebc32c19eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:55 +0000
Subject: [PATCH 16/52] fix: interp_sigma_to_hybrid to more hybrid than sigma
 levels, and of integer data

---
 geocat/comp/interpolation.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 891ac47..2e89c2f 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -829,6 +829,10 @@ def interp_sigma_to_hybrid(
     # Calculate sigma levels at the hybrid levels
     sigma = _sigma_from_hybrid(ps, hyam, hybm, p0)  # Pa
 
+    # The output has as many levels as there are hybrid levels, and real values
+    levels = [0] * len(hyam)
+    dtype = np.result_type(data.dtype, np.float32)
+
     non_lev_dims = list(data.dims)
     if data.ndim > 1:
         non_lev_dims.remove(lev_dim)
@@ -837,7 +841,7 @@ def interp_sigma_to_hybrid(
 
         h_coords = sigma_stacked[0, :].copy()
 
-        output = data_stacked[:, : len(hyam)].copy()
+        output = data_stacked[:, levels].astype(dtype)
 
         for idx, (d, s) in enumerate(zip(data_stacked, sigma_stacked)):
             output[idx, :] = xr.DataArray(
@@ -850,8 +854,8 @@ def interp_sigma_to_hybrid(
     else:
         h_coords = sigma
 
-        output = data[: len(hyam)].copy()
-        output[: len(hyam)] = xr.DataArray(
+        output = data[levels].astype(dtype)
+        output[:] = xr.DataArray(
             _vertical_remap(func_interpolate, sigma.data, sig_coords.data, data.data),
             dims=[lev_dim],
         )
-- 
2.43.0


From 471a69cd32480686937516221649b356cc58d85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:27 +0000
Subject: [PATCH 17/52] fix: vertical interpolation to levels in any order

---
 geocat/comp/interpolation.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 2e89c2f..59959be 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -50,7 +50,16 @@ def _func_interpolate(method='linear'):
             f'Supported methods are: "log" and "linear".'
         )
 
-    return func_interpolate
+    def interpolate_in_order(new_levels, xcoords, data, axis=0):
+        # metpy only keeps the order of levels that increase or decrease
+        steps = np.diff(new_levels)
+        if not ((steps > 0).any() and (steps < 0).any()):
+            return func_interpolate(new_levels, xcoords, data, axis=axis)
+        order = np.argsort(new_levels)
+        output = func_interpolate(np.take(new_levels, order), xcoords, data, axis=axis)
+        return np.take(output, np.argsort(order), axis=axis)
+
+    return interpolate_in_order
 
 
 def _interpolate_mb(data, curr_levels, new_levels, axis, method='linear'):
-- 
2.43.0


From e2b8fff7c390b47ce7e91346368a77f85b3ab001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 18/52] fix: interp_multidim of data with more than two
 dimensions, and cyclic data with decreasing longitudes

---
 geocat/comp/interpolation.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 59959be..e1ff67d 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -115,21 +115,17 @@ def _pre_interp_multidim(
 
     # add cyclic points and create new data array
     if cyclic:
-        padded_data = np.pad(data_in.values, ((0, 0), (1, 1)), mode='wrap')
-        padded_longitudes = np.pad(
-            data_in.coords[data_in.dims[-1]], (1, 1), mode='wrap'
-        )
-        padded_longitudes[0] -= 360
-        padded_longitudes[-1] += 360
-
-        data_in = xr.DataArray(
-            padded_data,
-            coords={
-                data_in.dims[-2]: data_in.coords[data_in.dims[-2]].values,
-                data_in.dims[-1]: padded_longitudes,
-            },
-            dims=data_in.dims,
-        )
+        lon_dim = data_in.dims[-1]
+        pad_width = [(0, 0)] * (data_in.ndim - 1) + [(1, 1)]
+        padded_data = np.pad(data_in.values, pad_width, mode='wrap')
+        padded_longitudes = np.pad(data_in.coords[lon_dim].values, (1, 1), mode='wrap')
+        turn = 360 if padded_longitudes[1] < padded_longitudes[-2] else -360
+        padded_longitudes[0] -= turn
+        padded_longitudes[-1] += turn
+
+        coords = {k: v for k, v in data_in.coords.items() if lon_dim not in v.dims}
+        coords[lon_dim] = padded_longitudes
+        data_in = xr.DataArray(padded_data, coords=coords, dims=data_in.dims)
 
     return data_in
 
@@ -983,8 +979,11 @@ def interp_multidim(
             raise ValueError(
                 "Argument lat_in and lon_in must be provided if data_in is not an xarray"
             )
+        other_dims = [f'dim_{i}' for i in range(np.ndim(data_in) - 2)]
         data_in = xr.DataArray(
-            data_in, dims=['lat', 'lon'], coords={'lat': lat_in, 'lon': lon_in}
+            data_in,
+            dims=other_dims + ['lat', 'lon'],
+            coords={'lat': lat_in, 'lon': lon_in},
         )
 
     output_coords = {
-- 
2.43.0


From 0d32da0cf49ccaabc6c959abc4bde84815f0b787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 19/52] fix: variables are found by possible names in the order
 of the list

---
 geocat/comp/gc_util.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/geocat/comp/gc_util.py b/geocat/comp/gc_util.py
index 2b9c55f..dbbfab3 100644
--- a/geocat/comp/gc_util.py
+++ b/geocat/comp/gc_util.py
@@ -117,17 +117,16 @@ def _find_var(
 
     # Then try direct name match
     if possible_names:
-        possible_names_expanded = set()
+        # in the order given
+        possible_names_expanded = []
         for name in possible_names:
-            possible_names_expanded.update(
-                {
-                    name,
-                    name.lower(),
-                    name.upper(),
-                    name.capitalize(),
-                    '_'.join(word.capitalize() for word in name.split('_')),
-                }
-            )
+            possible_names_expanded += [
+                name,
+                name.lower(),
+                name.upper(),
+                name.capitalize(),
+                '_'.join(word.capitalize() for word in name.split('_')),
+            ]
 
         for name in possible_names_expanded:
             if name in ds:
-- 
2.43.0


From 5babba3be79527c9de4119d6fb9f522bdcda9fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 20/52] fix: pressure levels found by standard name

---
 geocat/comp/gc_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/gc_util.py b/geocat/comp/gc_util.py
index dbbfab3..dd55ad6 100644
--- a/geocat/comp/gc_util.py
+++ b/geocat/comp/gc_util.py
@@ -80,7 +80,7 @@ def _find_var(
             '_'.join(word.capitalize() for word in standard_name.split('_')),
         }
 
-        for var_name in ds.data_vars:
+        for var_name in [*ds.data_vars, *ds.coords]:
             var_attrs = ds[var_name].attrs
             attr_standard_name = var_attrs.get('standard_name', '')
             if (
@@ -104,7 +104,7 @@ def _find_var(
             long_name.replace('_', ' '),
         }
 
-        for var_name in ds.data_vars:
+        for var_name in [*ds.data_vars, *ds.coords]:
             var_attrs = ds[var_name].attrs
             attr_long_name = var_attrs.get('long_name', '')
             if (
-- 
2.43.0


From a3647acd545a43c186ea0e94d5a87277e8f277fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 21/52] fix: zonal_meridional_psi with pressure levels not
 named plev

---
 geocat/comp/meteorology.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index 77a49ee..2660e42 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -1499,6 +1499,9 @@ def zonal_meridional_psi(
     # Check if interpolation needs to be done
     if plev_coordname and plev_coordname in uxds[meridional_wind_varname].dims:
         ux_ipress = uxds[meridional_wind_varname]
+        if plev_coordname != 'plev':
+            ux_ipress = ux_ipress.rename({plev_coordname: 'plev'})
+            plev_coordname = 'plev'
     elif hyam_coordname and hybm_coordname:
         da_ipress = interp_hybrid_to_pressure(
             uxds[meridional_wind_varname],
-- 
2.43.0


From c4328968c5a3c41a55f0eca3c5f440441eecabf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:11 +0000
Subject: [PATCH 22/52] fix: relhum of data with missing temperatures

---
 geocat/comp/meteorology.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index 2660e42..bb284ee 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -574,7 +574,9 @@ def relhum(
     # replace values of t above and below max and min values for temperature
     temperature = temperature.clip(mintemp, maxtemp)
 
-    it = (temperature - mintemp).astype(int)
+    # a missing temperature uses any table entry, the result is missing anyway
+    with np.errstate(invalid='ignore'):
+        it = (temperature - mintemp).astype(int).clip(0, len(table) - 2)
     t2 = mintemp + it
 
     es = (t2 + 1 - temperature) * table[it] + (temperature - t2) * table[it + 1]
-- 
2.43.0


From 7969961a0dbe3c21ebacc147d7f7cc4bf467a74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:11 +0000
Subject: [PATCH 23/52] fix: heat_index rejects invalid humidity next to
 missing values

---
 geocat/comp/meteorology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index bb284ee..5b944eb 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -398,7 +398,7 @@ def heat_index(
         )
 
     # check relative humidity within valid range 0 to 100
-    if relative_humidity.min() < 0 or relative_humidity.max() > 100:
+    if (relative_humidity < 0).any() or (relative_humidity > 100).any():
         raise ValueError(
             'heat_index: invalid values for relative humidity, expected all between 0 and 100'
         )
-- 
2.43.0


From 926380e66bae137ff2fa7ec73559ae40b28beb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:39 +0000
Subject: [PATCH 24/52] fix: pearson_r of Datasets

---
 geocat/comp/stats.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 3b9f484..d3edf60 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -182,8 +182,10 @@ def pearson_r(a, b, dim=None, weights=None, skipna=False, keep_attrs=False, axis
     r : :class:`xarray.DataArray`, ndarray
         Pearson's correlation coefficient
     """
-    # if a and v are not xr.DataArrays
-    if not isinstance(a, xr.DataArray) and not isinstance(b, xr.DataArray):
+    # if neither a nor b is an xarray object
+    if not isinstance(a, (xr.DataArray, xr.Dataset)) and not isinstance(
+        b, (xr.DataArray, xr.Dataset)
+    ):
         if (dim is not None) and (axis is not None):
             warnings.warn(
                 "The `dim` keyword is unused with non xarray.DataArray inputs"
-- 
2.43.0


From fb1c5440b9a6952339da939cb40341fa8b7d958b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:39 +0000
Subject: [PATCH 25/52] fix: pearson_r of array-like inputs along an axis

---
 geocat/comp/stats.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index d3edf60..834bc10 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -190,6 +190,10 @@ def pearson_r(a, b, dim=None, weights=None, skipna=False, keep_attrs=False, axis
             warnings.warn(
                 "The `dim` keyword is unused with non xarray.DataArray inputs"
             )
+        a = np.asarray(a)
+        b = np.asarray(b)
+        if weights is not None:
+            weights = np.asarray(weights)
         if axis is None:  # squash array to 1D for element wise computation
             axis = 0
             a = np.ravel(a)
-- 
2.43.0


From 2e5a5cb4ab2f4f6a785eb3adc3a97dc8a8210b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:54 +0000
Subject: [PATCH 26/52] fix: pearson_r of arrays with weights given along the
 axis

---
 geocat/comp/stats.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 834bc10..7ee67e4 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -201,6 +201,11 @@ def pearson_r(a, b, dim=None, weights=None, skipna=False, keep_attrs=False, axis
             if weights is not None:
                 weights = np.ravel(weights)
         try:
+            if weights is not None and weights.ndim == 1 and a.ndim > 1:
+                # weights along `axis`, the same for every point
+                shape = [1] * a.ndim
+                shape[axis] = -1
+                weights = np.broadcast_to(weights.reshape(shape), a.shape)
             return xs_internal._pearson_r(a, b, weights, axis, skipna)
         except ValueError:
             print('Data along `axis` must have the same dimension as `weights`')
-- 
2.43.0


From 321ec6c717819d9016636b24112038aa010d21ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:34 +0000
Subject: [PATCH 27/52] fix: eofunc_eofs leaves the attributes of its input
 alone

---
 geocat/comp/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 7ee67e4..86fbdb3 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -396,7 +396,7 @@ def eofunc_eofs(
     attrs = {}
 
     if meta:
-        attrs = data.attrs
+        attrs = dict(data.attrs)
 
     attrs['eigenvalues'] = solver.eigenvalues(neigs=neofs)
     attrs['northTest'] = solver.northTest(neigs=neofs, vfscaled=vfscaled)
@@ -523,7 +523,7 @@ def eofunc_pcs(
     attrs = {}
 
     if meta:
-        attrs = data.attrs
+        attrs = dict(data.attrs)
 
     dims = ["pc", "time"]
     if meta:
-- 
2.43.0


From 00878c1af596796e81e9b739138c86952750ec5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:34 +0000
Subject: [PATCH 28/52] fix: metadata of EOFs and PCs when time is not the
 leftmost dimension

---
 geocat/comp/stats.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 86fbdb3..2939bc5 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -404,8 +404,9 @@ def eofunc_eofs(
     attrs['varianceFraction'] = solver.varianceFraction(neigs=neofs)
 
     if meta:
-        dims = ["eof"] + [data.dims[i] for i in range(data.ndim) if i != time_dim]
-        coords = {k: v for (k, v) in data.coords.items() if k != data.dims[time_dim]}
+        # time is the leftmost dimension here
+        dims = ["eof"] + list(data.dims[1:])
+        coords = {k: v for (k, v) in data.coords.items() if data.dims[0] not in v.dims}
     else:
         dims = ["eof"] + [f"dim_{i}" for i in range(data.ndim) if i != time_dim]
         coords = {}
@@ -527,7 +528,7 @@ def eofunc_pcs(
 
     dims = ["pc", "time"]
     if meta:
-        coords = {"time": data.coords[data.dims[time_dim]]}
+        coords = {"time": data.coords[data.dims[0]]}
     else:
         coords = {}
 
-- 
2.43.0


From f08985875c46a1783943f42cd2aae0b3a91c04cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:34 +0000
Subject: [PATCH 29/52] fix: EOF analysis with a negative time_dim

---
 geocat/comp/stats.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 2939bc5..02a1378 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -229,6 +229,8 @@ def _generate_eofs_solver(data, time_dim=0, weights=None, center=True, ddof=1):
         if (time_dim >= data.ndim) or (time_dim < -data.ndim):
             raise ValueError("ERROR eofunc_efs: `time_dim` out of bound.")
 
+        time_dim = time_dim % data.ndim
+
         # Transpose data if time_dim is not 0 (i.e. the first/left-most dimension)
         dims_to_transpose = np.arange(data.ndim).tolist()
         dims_to_transpose.insert(
@@ -408,6 +410,7 @@ def eofunc_eofs(
         dims = ["eof"] + list(data.dims[1:])
         coords = {k: v for (k, v) in data.coords.items() if data.dims[0] not in v.dims}
     else:
+        time_dim = time_dim % data.ndim
         dims = ["eof"] + [f"dim_{i}" for i in range(data.ndim) if i != time_dim]
         coords = {}
 
-- 
2.43.0


From 55b82bdb9c75fc33ab82329dd5a61dc51eeb52ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:40 +0000
Subject: [PATCH 30/52] fix: climate_anomaly keeps scalar coordinates scalar

---
 geocat/comp/climatologies.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index b891fb0..b93b03a 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -216,15 +216,18 @@ def climate_anomaly(
         clim = climatology_average(
             dset, freq=freq, time_dim=time_dim, keep_attrs=keep_attrs
         )
+    # Combining the groups repeats scalar coordinates along time
+    scalars = {name: c.variable for name, c in dset.coords.items() if c.ndim == 0}
     if freq == 'season':
         anom = dset.groupby(f"{time_dim}.season") - clim
-        return anom.drop_attrs().assign_attrs(attrs)
+        return anom.assign_coords(scalars).drop_attrs().assign_attrs(attrs)
     else:
         anom = (
             dset.groupby(dset[time_dim].dt.strftime(format))
             - clim.groupby(clim[time_dim].dt.strftime(format)).sum()
         )
-        return anom.drop_vars('strftime').drop_attrs().assign_attrs(attrs)
+        anom = anom.drop_vars('strftime').assign_coords(scalars)
+        return anom.drop_attrs().assign_attrs(attrs)
 
 
 def month_to_season(
-- 
2.43.0


From eb79343917fe53591f7db321eac8397ccc3de67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:10 +0000
Subject: [PATCH 31/52] fix: gradient with single precision or integer
 coordinates

---
 geocat/comp/gradient.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/gradient.py b/geocat/comp/gradient.py
index cd88a5b..49077b8 100644
--- a/geocat/comp/gradient.py
+++ b/geocat/comp/gradient.py
@@ -239,8 +239,10 @@ def gradient(
     else:
         raise ValueError("lat or lon must be either both 1d or 2d.")
 
-    axis0loc = _arc_lat_wgs84(lat2d)
-    axis1loc = _arc_lon_wgs84(lon2d, lat2d)
+    # the high powers of the series overflow in less than double precision
+    lon64, lat64 = lon2d.astype('float64'), lat2d.astype('float64')
+    axis0loc = _arc_lat_wgs84(lat64)
+    axis1loc = _arc_lon_wgs84(lon64, lat64)
 
     axis0dist = np.gradient(axis0loc, axis=0)
     axis1dist = np.gradient(axis1loc, axis=1)
-- 
2.43.0


From c7006c269e45e740f93d4292346a6b8ea428d702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:16 +0000
Subject: [PATCH 32/52] fix: EOFs of integer data with weights or without
 centring

eofs converts the weights and the EOFs to the type of the data, so for integers
both were truncated to whole numbers.
---
 geocat/comp/stats.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 02a1378..624d00f 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -246,6 +246,10 @@ def _generate_eofs_solver(data, time_dim=0, weights=None, center=True, ddof=1):
             dims=dims,
         )
 
+    # `eofs` converts weights and EOFs to the type of the data
+    if data.dtype.kind in 'iub':
+        data = data.astype(float)
+
     solver = Eof(data, weights=weights, center=center, ddof=ddof)
 
     return data, solver
-- 
2.43.0


From 143c5d3e69ac04776c3b06941c8b6557e6f4af93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:17 +0000
Subject: [PATCH 33/52] fix: saturation vapor pressure of unsigned or small
 integers

temperature - 32 wrapped around below 32F for unsigned integers, and its product
with 5 overflowed 8-bit ones.
---
 geocat/comp/meteorology.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index 5b944eb..1a4ed59 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -1006,7 +1006,7 @@ def saturation_vapor_pressure(
 
     if in_type is xr.DataArray:
         # convert temperature to Celsius
-        temp_c = (temperature - 32) * 5 / 9
+        temp_c = (temperature - 32.0) * 5 / 9
 
         # calculate svp
         svp = xr.where(
@@ -1022,7 +1022,7 @@ def saturation_vapor_pressure(
     else:
         temperature = np.asarray(temperature)
 
-        temp_c = (temperature - 32) * 5 / 9
+        temp_c = (temperature - 32.0) * 5 / 9
         svp = np.where(
             temp_c > 0, 0.6108 * np.exp((17.27 * temp_c) / (temp_c + 237.3)), tfill
         )
@@ -1140,7 +1140,7 @@ def saturation_vapor_pressure_slope(
 
     if in_type is xr.DataArray:
         # convert to Celsius
-        temp_c = (temperature - 32) * 5 / 9
+        temp_c = (temperature - 32.0) * 5 / 9
 
         # calculate svp_slope
         svp_slope = xr.where(
@@ -1164,7 +1164,7 @@ def saturation_vapor_pressure_slope(
         temperature = np.asarray(temperature)
 
         # convert to Celsius
-        temp_c = (temperature - 32) * 5 / 9
+        temp_c = (temperature - 32.0) * 5 / 9
 
         # calculate svp_slope
         svp_slope = np.where(
-- 
2.43.0


From 51c744d1e9434865f348ed2c9691f0c063fd33c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:17 +0000
Subject: [PATCH 34/52] fix: dewtemp of unsigned integer temperatures

tk - 273 wrapped around below 273 K.
---
 geocat/comp/meteorology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index 1a4ed59..8573c99 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -41,7 +41,7 @@ def _dewtemp(
     gc = 461.5  # gas constant for water vapor [j/{kg-k}]
     gcx = gc / (1000 * 4.186)  # [cal/{g-k}]
 
-    lhv = (597.3 - 0.57 * (tk - 273)) / gcx
+    lhv = (597.3 - 0.57 * (tk - 273.0)) / gcx
     tdk = tk * lhv / (lhv - tk * np.log(rh * 0.01))
 
     return tdk
-- 
2.43.0


From 643b3eee843e2e19d8c785935e541e68c171d753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:17 +0000
Subject: [PATCH 35/52] fix: nmse with latitudes in small integers

np.deg2rad of 8-bit and 16-bit integers returns half and single precision.
---
 geocat/comp/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 624d00f..f2e1a66 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -116,7 +116,7 @@ def nmse(
     )
 
     # calculate weights
-    weights = np.cos(np.deg2rad(observed.cf["latitude"]))
+    weights = np.cos(np.deg2rad(observed.cf["latitude"].astype(float)))
 
     # weight by zero if modeled or observed is nan
     weights = weights.where(np.logical_not(np.isnan(observed) | np.isnan(modeled)), 0)
-- 
2.43.0


From 9d3aec291a1853f05229951fc8ab4842e91b160d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:17 +0000
Subject: [PATCH 36/52] fix: cyclic interp_multidim with unsigned or small
 integer longitudes

The longitude of a padded column is a full turn away from that of the column it
repeats and was computed in the type of the longitudes.
---
 geocat/comp/interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index e1ff67d..09bd621 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -118,7 +118,9 @@ def _pre_interp_multidim(
         lon_dim = data_in.dims[-1]
         pad_width = [(0, 0)] * (data_in.ndim - 1) + [(1, 1)]
         padded_data = np.pad(data_in.values, pad_width, mode='wrap')
-        padded_longitudes = np.pad(data_in.coords[lon_dim].values, (1, 1), mode='wrap')
+        padded_longitudes = np.pad(
+            data_in.coords[lon_dim].values.astype(float), (1, 1), mode='wrap'
+        )
         turn = 360 if padded_longitudes[1] < padded_longitudes[-2] else -360
         padded_longitudes[0] -= turn
         padded_longitudes[-1] += turn
-- 
2.43.0


From 0dc20b606fac135d4c4c53e982cefae7edcd6cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:17 +0000
Subject: [PATCH 37/52] fix: vertical interpolation of unsigned or small
 integer data

The differences between levels were computed in the type of the data.
---
 geocat/comp/interpolation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 09bd621..353d67b 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -669,6 +669,10 @@ def interp_hybrid_to_pressure(
     except ValueError as vexc:
         raise ValueError(vexc.args[0])
 
+    # Differences of unsigned and small integers wrap around
+    if data.dtype.kind in 'iu':
+        data = data.astype(float)
+
     interp_axis = data.dims.index(lev_dim)
 
     # Calculate pressure levels at the hybrid levels
@@ -833,6 +837,10 @@ def interp_sigma_to_hybrid(
     except ValueError as vexc:
         raise ValueError(vexc.args[0])
 
+    # Differences of unsigned and small integers wrap around
+    if data.dtype.kind in 'iu':
+        data = data.astype(float)
+
     # Calculate sigma levels at the hybrid levels
     sigma = _sigma_from_hybrid(ps, hyam, hybm, p0)  # Pa
 
-- 
2.43.0


From 0ffea874c131add2695cddd60360561e3779679b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:49 +0000
Subject: [PATCH 38/52] fix: delta_pressure of unsigned or small integer levels

Sums and differences of neighbouring levels were computed in the type of the levels.
---
 geocat/comp/meteorology.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index 8573c99..15470b9 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -1221,6 +1221,9 @@ def _delta_pressure1D(pressure_lev, surface_pressure, pressure_top):
             "`surface_pressure` must be greater than minimum `pressure_lev` value."
         )
 
+    # Sums and differences of unsigned and small integers wrap around
+    pressure_lev = pressure_lev.astype(float)
+
     # Sort so pressure increases (array goes from top of atmosphere to bottom)
     is_pressuredecreasing = pressure_lev[1] < pressure_lev[0]
     if is_pressuredecreasing:
-- 
2.43.0


From 6474d7a10cbc7ed7be065dc0d70a6d8729548c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:49 +0000
Subject: [PATCH 39/52] fix: heat_index of unsigned or small integers

Powers and products of temperature and humidity overflowed.
---
 geocat/comp/meteorology.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index 15470b9..8d798ec 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -397,6 +397,12 @@ def heat_index(
             f"heat_index: dimensions of inputs are not the same, received {temperature.shape}, {relative_humidity.shape}"
         )
 
+    # powers and products of small integers overflow
+    if temperature.dtype.kind in 'iu':
+        temperature = temperature.astype(float)
+    if relative_humidity.dtype.kind in 'iu':
+        relative_humidity = relative_humidity.astype(float)
+
     # check relative humidity within valid range 0 to 100
     if (relative_humidity < 0).any() or (relative_humidity > 100).any():
         raise ValueError(
-- 
2.43.0


From 46aadb0db9a6ee6afd6c659c6f5ac34ae120bdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:49 +0000
Subject: [PATCH 40/52] fix: pearson_r with small integer weights and data

Their product overflowed.
---
 geocat/comp/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index f2e1a66..d72b34c 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -193,7 +193,7 @@ def pearson_r(a, b, dim=None, weights=None, skipna=False, keep_attrs=False, axis
         a = np.asarray(a)
         b = np.asarray(b)
         if weights is not None:
-            weights = np.asarray(weights)
+            weights = np.asarray(weights, dtype=float)
         if axis is None:  # squash array to 1D for element wise computation
             axis = 0
             a = np.ravel(a)
-- 
2.43.0


From 6386106c368d5212d9fea1a966bb22894ad45c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:35 +0000
Subject: [PATCH 41/52] fix: interpolation to unordered levels given as
 unsigned integers

Differences between unsigned levels are never negative, so levels in no order were
taken for increasing ones.
---
 geocat/comp/interpolation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 353d67b..6698eb2 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -51,6 +51,10 @@ def _func_interpolate(method='linear'):
         )
 
     def interpolate_in_order(new_levels, xcoords, data, axis=0):
+        # differences of unsigned and logarithms of small integers are inexact
+        if getattr(new_levels, 'dtype', np.dtype(float)).kind in 'iu':
+            new_levels = new_levels.astype(float)
+
         # metpy only keeps the order of levels that increase or decrease
         steps = np.diff(new_levels)
         if not ((steps > 0).any() and (steps < 0).any()):
-- 
2.43.0


From 99f88b3c91b1179d325b5bc24783e4f04b61f8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:35 +0000
Subject: [PATCH 42/52] fix: decomposition of small integer data with small
 integer scales

Their product overflowed.
---
 geocat/comp/spherical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geocat/comp/spherical.py b/geocat/comp/spherical.py
index 35450f6..636c966 100644
--- a/geocat/comp/spherical.py
+++ b/geocat/comp/spherical.py
@@ -87,7 +87,7 @@ def decomposition(
     n = np.expand_dims(nlist, axis=(1, 2))
     scale_mul = np.array(scale_mul)
     scale_res = scale_mul * scale_val
-    scale_dat = np.multiply(data, scale)
+    scale_dat = np.multiply(data, np.multiply(scale, 1.0))
 
     # set dims for broadcasting
     if in_type is xr.DataArray:
-- 
2.43.0


From 6b8119d0305b7146c5561a91b053e1c3bf494bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:35 +0000
Subject: [PATCH 43/52] fix: nmse of unsigned or small integer data

The difference between modeled and observed and its square overflowed.
---
 geocat/comp/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index d72b34c..90147aa 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -133,7 +133,7 @@ def nmse(
     observed_w = observed.weighted(weights).mean(dim=spatial_dims)
 
     # calculate numerator, overbar((X_m - X_o)^2)
-    num = (modeled - observed) ** 2
+    num = (modeled.astype(float) - observed) ** 2
     num = num.weighted(weights).mean(dim=spatial_dims)
 
     # calculate denominator, overbar((X_o')^2)
-- 
2.43.0


From 793bcca1b233c7fb8b7eee77a8b782a4bb2555e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:07 +0000
Subject: [PATCH 44/52] fix: relhum_ice and relhum_water label the humidity
 with the units of the temperature

---
 geocat/comp/meteorology.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index 8d798ec..2de6d1c 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -689,6 +689,8 @@ def relhum_ice(
         relative_humidity = xr.DataArray(
             data=relative_humidity, coords=save_coords, dims=save_dims, attrs=save_attrs
         )
+        relative_humidity.attrs['long_name'] = "relative humidity"
+        relative_humidity.attrs['units'] = 'percentage'
 
     # if elevated to np array, return to original type
     if in_types[0] in {list, float, int} and isinstance(relative_humidity, np.ndarray):
@@ -787,6 +789,8 @@ def relhum_water(
         relative_humidity = xr.DataArray(
             data=relative_humidity, coords=save_coords, dims=save_dims, attrs=save_attrs
         )
+        relative_humidity.attrs['long_name'] = "relative humidity"
+        relative_humidity.attrs['units'] = 'percentage'
 
     return relative_humidity
 
-- 
2.43.0


From 2b23252c1910d01c910e2a4c37d45f279603833e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:50 +0000
Subject: [PATCH 45/52] fix: interp_multidim drops name and attributes when
 cyclic or missing_val is given

---
 geocat/comp/interpolation.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 6698eb2..a6b01a8 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -111,10 +111,8 @@ def _pre_interp_multidim(
     """
     # replace missing_val with np.nan
     if missing_val is not None:
-        data_in = xr.DataArray(
-            np.where(data_in.values == missing_val, np.nan, data_in.values),
-            dims=data_in.dims,
-            coords=data_in.coords,
+        data_in = data_in.copy(
+            data=np.where(data_in.values == missing_val, np.nan, data_in.values)
         )
 
     # add cyclic points and create new data array
@@ -130,8 +128,14 @@ def _pre_interp_multidim(
         padded_longitudes[-1] += turn
 
         coords = {k: v for k, v in data_in.coords.items() if lon_dim not in v.dims}
-        coords[lon_dim] = padded_longitudes
-        data_in = xr.DataArray(padded_data, coords=coords, dims=data_in.dims)
+        coords[lon_dim] = (lon_dim, padded_longitudes, data_in[lon_dim].attrs)
+        data_in = xr.DataArray(
+            padded_data,
+            coords=coords,
+            dims=data_in.dims,
+            name=data_in.name,
+            attrs=data_in.attrs,
+        )
 
     return data_in
 
@@ -153,10 +157,8 @@ def _post_interp_multidim(data_in, missing_val):
        The data input with np.nan values replaced with missing_val
     """
     if missing_val is not None:
-        data_in = xr.DataArray(
-            np.where(np.isnan(data_in.values), missing_val, data_in.values),
-            dims=data_in.dims,
-            coords=data_in.coords,
+        data_in = data_in.copy(
+            data=np.where(np.isnan(data_in.values), missing_val, data_in.values)
         )
 
     return data_in
-- 
2.43.0


From c44530aed1b7a03b2f94a13084ec7e94a97efb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:02 +0000
Subject: [PATCH 46/52] fix: gradient of a DataArray with leading dimensions

---
 geocat/comp/gradient.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/gradient.py b/geocat/comp/gradient.py
index 49077b8..82b041b 100644
--- a/geocat/comp/gradient.py
+++ b/geocat/comp/gradient.py
@@ -253,18 +253,22 @@ def gradient(
     axis1grad = grad[1] / axis1dist
 
     if type(data) in [xr.core.dataarray.DataArray, xr.core.dataset.Dataset]:
+        leading = data.dims[:-2]
+        leading_coords = {d: data.coords[d] for d in leading if d in data.coords}
         axis0grad = xr.DataArray(
             axis0grad,
-            dims=['x', 'y'],
+            dims=[*leading, 'x', 'y'],
             coords=dict(
+                leading_coords,
                 lon=(['x', 'y'], lon2d.data),
                 lat=(['x', 'y'], lat2d.data),
             ),
         )
         axis1grad = xr.DataArray(
             axis1grad,
-            dims=['x', 'y'],
+            dims=[*leading, 'x', 'y'],
             coords=dict(
+                leading_coords,
                 lon=(['x', 'y'], lon2d.data),
                 lat=(['x', 'y'], lat2d.data),
             ),
-- 
2.43.0


From 3ffbcebf2fb8383bec2c2053868b750cf4e3b924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:14 +0000
Subject: [PATCH 47/52] fix: interp_sigma_to_hybrid of data with missing or
 repeated coordinate labels

---
 geocat/comp/interpolation.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index a6b01a8..43ee2be 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -857,8 +857,14 @@ def interp_sigma_to_hybrid(
     non_lev_dims = list(data.dims)
     if data.ndim > 1:
         non_lev_dims.remove(lev_dim)
-        data_stacked = data.stack(combined=non_lev_dims).transpose()
-        sigma_stacked = sigma.stack(combined=non_lev_dims).transpose()
+        # Stack by position: labels may be missing or repeated
+        labels = {d: data[d].variable for d in non_lev_dims if d in data.coords}
+        data_stacked = data.drop_vars(labels).stack(combined=non_lev_dims).transpose()
+        sigma_stacked = (
+            sigma.drop_vars(non_lev_dims, errors='ignore')
+            .stack(combined=non_lev_dims)
+            .transpose()
+        )
 
         h_coords = sigma_stacked[0, :].copy()
 
@@ -871,7 +877,7 @@ def interp_sigma_to_hybrid(
             )
 
         # Make output shape same as data shape
-        output = output.unstack().transpose(*data.dims)
+        output = output.unstack().transpose(*data.dims).assign_coords(labels)
     else:
         h_coords = sigma
 
-- 
2.43.0


From 135e502069000daf336b480bfd115cba3d66a067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:09 +0000
Subject: [PATCH 48/52] fix: delta_pressure with missing surface pressures

---
 geocat/comp/meteorology.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index 2de6d1c..a1a3da6 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -1234,6 +1234,10 @@ def _delta_pressure1D(pressure_lev, surface_pressure, pressure_top):
     # Sums and differences of unsigned and small integers wrap around
     pressure_lev = pressure_lev.astype(float)
 
+    # No layer has a thickness where the surface pressure is missing
+    if np.isnan(surface_pressure):
+        return np.full_like(pressure_lev, np.nan)
+
     # Sort so pressure increases (array goes from top of atmosphere to bottom)
     is_pressuredecreasing = pressure_lev[1] < pressure_lev[0]
     if is_pressuredecreasing:
-- 
2.43.0


From 78d694f21ac62adc23549ff39cb46fffb9932ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:02 +0000
Subject: [PATCH 49/52] fix: extrapolation of other variables where the surface
 pressure is missing

---
 geocat/comp/interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 43ee2be..8bf939a 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -356,8 +356,10 @@ def _vertical_remap_extrap(
             _geo_height_extrapolate(t_bot, output.plev, p_sfc, ps, phi_sfc),
         )
     else:
+        # nothing is known to lie below an unknown surface
         output = output.where(
-            output.plev <= p_sfc, data.isel({lev_dim: sfc_index}, drop=True)
+            (output.plev <= p_sfc) | p_sfc.isnull(),
+            data.isel({lev_dim: sfc_index}, drop=True),
         )
 
     return output
-- 
2.43.0


From 2128047f55d06eff4f44a4351136598c2c143778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:51 +0000
Subject: [PATCH 50/52] fix: interpolation of data with units to unordered
 levels

---
 geocat/comp/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 8bf939a..9e24f1e 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -61,7 +61,7 @@ def _func_interpolate(method='linear'):
             return func_interpolate(new_levels, xcoords, data, axis=axis)
         order = np.argsort(new_levels)
         output = func_interpolate(np.take(new_levels, order), xcoords, data, axis=axis)
-        return np.take(output, np.argsort(order), axis=axis)
+        return output[(slice(None),) * axis + (np.argsort(order),)]
 
     return interpolate_in_order
 
-- 
2.43.0


From 7beebee4840c66d2fb92b90d0c13ee67f7e353fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:50 +0000
Subject: [PATCH 51/52] fix: nmse rejects uneven spacing of two-dimensional
 coordinates along their second axis

---
 geocat/comp/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 90147aa..bdfe207 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -84,13 +84,13 @@ def nmse(
     lat_diff = (
         lat_diff
         if not all(lat_diff.ravel() == 0)
-        else np.diff(observed.cf["latitude"], axis=1)
+        else np.diff(observed.cf["latitude"], axis=1).T
     )
     lon_diff = np.diff(observed.cf["longitude"], axis=0)
     lon_diff = (
         lon_diff
         if not all(lon_diff.ravel() == 0)
-        else np.diff(observed.cf["longitude"], axis=1)
+        else np.diff(observed.cf["longitude"], axis=1).T
     )
     if not np.allclose(lat_diff, lat_diff[0]) or not np.allclose(lon_diff, lon_diff[0]):
         raise ValueError(
-- 
2.43.0


From 45ccdc93229740bbc9d00548b9bf050b91354302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:50 +0000
Subject: [PATCH 52/52] fix: nmse of fields along a single parallel or meridian

---
 geocat/comp/stats.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index bdfe207..fb614b4 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -83,16 +83,18 @@ def nmse(
     lat_diff = np.diff(observed.cf["latitude"], axis=0)
     lat_diff = (
         lat_diff
-        if not all(lat_diff.ravel() == 0)
+        if lat_diff.ndim == 1 or not all(lat_diff.ravel() == 0)
         else np.diff(observed.cf["latitude"], axis=1).T
     )
     lon_diff = np.diff(observed.cf["longitude"], axis=0)
     lon_diff = (
         lon_diff
-        if not all(lon_diff.ravel() == 0)
+        if lon_diff.ndim == 1 or not all(lon_diff.ravel() == 0)
         else np.diff(observed.cf["longitude"], axis=1).T
     )
-    if not np.allclose(lat_diff, lat_diff[0]) or not np.allclose(lon_diff, lon_diff[0]):
+    if not np.allclose(lat_diff, lat_diff[:1]) or not np.allclose(
+        lon_diff, lon_diff[:1]
+    ):
         raise ValueError(
             "Uneven latitude or longitude spacing, weighting calculation will not work"
         )
-- 
2.43.0

