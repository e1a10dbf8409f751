From 78f9bce936237088618e439aeb98d92ebda61d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:10 +0000
Subject: [PATCH 01/48] fix: assign beamforming power as a scalar so FDBF and
 FK run with current numpy

---
 swprocess/wavefieldtransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 6bda2cd..23e94df 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -651,7 +651,7 @@ class FDBF(AbstractWavefieldTransform):
                 steer[:, 0] = create_steering(kx)[:]
                 _power = np.dot(np.dot(np.transpose(np.conjugate(steer)),
                                        weighted_sscm), steer)
-                power[j, i] = _power
+                power[j, i] = _power[0, 0]
 
         return (frequencies, power)
 
-- 
2.43.0


From 06f3955ee3bdaea438af4a444edcc24ef813fc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:19 +0000
Subject: [PATCH 02/48] fix: scale receiver y from the y header field when the
 coordinate scalar is positive

---
 swprocess/sensor1c.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swprocess/sensor1c.py b/swprocess/sensor1c.py
index 7b61624..386c871 100644
--- a/swprocess/sensor1c.py
+++ b/swprocess/sensor1c.py
@@ -210,7 +210,7 @@ class Sensor1C(ActiveTimeSeries):
         x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         int_y = cls._safely_get_header(header, "group_coordinate_y", 0, int)
-        y = int_y / abs(scaleco) if scaleco < 0 else int_x * scaleco
+        y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
         y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         return cls.from_trace(trace,
@@ -260,7 +260,7 @@ class Sensor1C(ActiveTimeSeries):
         x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         int_y = cls._safely_get_header(header, "group_coordinate_y", 0, int)
-        y = int_y / abs(scaleco) if scaleco < 0 else int_x * scaleco
+        y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
         y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         return cls.from_trace(trace,
-- 
2.43.0


From 2b7bb477d64e7eef2b5c0a8390e953b72deb6d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:29 +0000
Subject: [PATCH 03/48] fix: treat an unset coordinate scalar as one for the
 source of a SEGY file

---
 swprocess/array1d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 7491c1f..a159c82 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -705,6 +705,10 @@ class Array1D():
 
                 scaleco = int(
                     stats.segy.trace_header["scalar_to_be_applied_to_all_coordinates"])
+                if scaleco == 0:
+                    msg = "Resetting scale to be applied to all coordinates from zero to one."
+                    warnings.warn(msg)
+                    scaleco = 1
 
                 int_x = int(stats.segy.trace_header["source_coordinate_x"])
                 x = int_x / abs(scaleco) if scaleco < 0 else int_x * scaleco
-- 
2.43.0


From 675f9b1ab402479fc002f32a01ddc4bf6890c8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:38 +0000
Subject: [PATCH 04/48] fix: write the number of stacks to SU as it is read
 back

---
 swprocess/array1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index a159c82..f979b58 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -779,7 +779,7 @@ class Array1D():
             trace.stats.su.trace_header.source_coordinate_y = rint(
                 self.source._y*1000)
             trace.stats.su.trace_header.number_of_horizontally_stacked_traces_yielding_this_trace = rint(
-                sensor.nstacks-1)
+                sensor.nstacks)
             trace.stats.su.trace_header.delay_recording_time = rint(
                 sensor.delay*1000)
             trace.stats.su.trace_header.group_coordinate_x = rint(
-- 
2.43.0


From 8231ec34102564065642190e53fc50f40c776826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:43 +0000
Subject: [PATCH 05/48] fix: stack files receiver by receiver with the same
 mapping, order, and read options

---
 swprocess/array1d.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index f979b58..b92933c 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -728,13 +728,18 @@ class Array1D():
             for fname in fnames[1:]:
                 with warnings.catch_warnings():
                     warnings.simplefilter("ignore")
-                    stream = obspy.read(str(fname))
+                    stream = obspy.read(str(fname), **obspy_read_kwargs)
                 nsource = parse_source(stream[0].stats)
                 if nsource != source:
                     msg = f"fname = {fname} has an incompatible source."
                     raise ValueError(msg)
-                for sensor, trace in zip(obj.sensors, stream.traces):
-                    new_sensor = Sensor1C.from_trace(trace)
+                # Map and sort like the first file, so receivers correspond.
+                nobj = cls([Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y)
+                            for trace in stream.traces], nsource)
+                if nobj.nchannels != obj.nchannels:
+                    msg = f"fname = {fname} has an incompatible number of receivers."
+                    raise ValueError(msg)
+                for sensor, new_sensor in zip(obj.sensors, nobj.sensors):
                     sensor.stack_append(new_sensor)
 
         return obj
-- 
2.43.0


From a6d9d5bdfdc4758a5e41a310f0dbcaa17dddb83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:50 +0000
Subject: [PATCH 06/48] fix: keep every receiver inside the offset limits
 whatever side the source is on

---
 swprocess/array1d.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index b92933c..d00817c 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -208,9 +208,6 @@ class Array1D():
             if (offset > min_offset) and (offset < max_offset):
                 sensors.append(sensor)
 
-            if (offset > max_offset):
-                break
-
         if len(sensors) == 0:
             msg = "Removing all sensors at offsets between "
             msg += f"{min_offset} and {max_offset}, results in no sensors."
-- 
2.43.0


From 125d20befbd967d9d0c1a9dd5df9d83ecebd8d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:04 +0000
Subject: [PATCH 07/48] fix: label signal-to-noise ratio with the frequencies
 it is computed at

---
 swprocess/snr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/snr.py b/swprocess/snr.py
index e0033ee..6cc4af9 100644
--- a/swprocess/snr.py
+++ b/swprocess/snr.py
@@ -42,7 +42,7 @@ class SignaltoNoiseRatio():
 
         # Frequency vector
         sensor = noise[0]
-        frqs = np.arange(sensor.nsamples) * sensor.df
+        frqs = np.arange(sensor.nsamples) * sensor._df
         Empty = WavefieldTransformRegistry.create_class("empty")
         keep_ids = Empty._frequency_keep_ids(frqs, fmin, fmax, sensor.multiple)
         frequencies = frqs[keep_ids]
-- 
2.43.0


From 54c3f6376bd1dd585f7c60dee9489bea22b64128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:12 +0000
Subject: [PATCH 08/48] fix: find peak power by magnitude when power is complex

---
 swprocess/wavefieldtransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 23e94df..1665415 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -132,7 +132,7 @@ class AbstractWavefieldTransform(ABC):
 
         """
         if by == "frequency-maximum":
-            return self.velocities[np.argmax(self.power, axis=0)]
+            return self.velocities[np.argmax(np.abs(self.power), axis=0)]
         else:
             msg = f"find_peak_power by {by} not recognized, see docs for options."
             raise NotImplementedError(msg)
-- 
2.43.0


From 99262746f334499eb194718d4d35a2a09081c2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 09/48] fix: leave the settings of the caller unchanged in the
 FK transform

---
 swprocess/wavefieldtransforms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 1665415..16e7a66 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -717,7 +717,8 @@ class FK(FDBF):
 
     @classmethod
     def from_array(cls, array, settings):
-        settings["fdbf-specific"]["weighting"] = "none"
-        settings["fdbf-specific"]["steering"] = "plane"
+        fdbf_specific = {**settings.get("fdbf-specific", {}),
+                         "weighting": "none", "steering": "plane"}
 
-        return super().from_array(array, settings)
+        return super().from_array(array, {**settings,
+                                          "fdbf-specific": fdbf_specific})
-- 
2.43.0


From 24a5c1b87205cb3f27413da538d34162a79d10f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 10/48] fix: rasterize the dispersion image with current
 matplotlib

---
 swprocess/wavefieldtransforms.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 16e7a66..88886d9 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -224,8 +224,7 @@ class AbstractWavefieldTransform(ABC):
                           np.linspace(0, np.max(self.power), 21),
                           cmap=mpl.colormaps[cmap])
         if rasterize:
-            for pathcoll in img.collections:
-                pathcoll.set_rasterized(True)
+            img.set_rasterized(True)
 
         # Plot colorbar for image.
         if cax is None:
-- 
2.43.0


From e4748449172734abcaeca07ac808dfc191c8018e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:06 +0000
Subject: [PATCH 11/48] fix: copy records that were trimmed after the trigger
 or zero padded faithfully

---
 swprocess/activetimeseries.py | 14 ++++++++++----
 swprocess/sensor1c.py         | 13 ++++++++-----
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/swprocess/activetimeseries.py b/swprocess/activetimeseries.py
index 0502f72..fec3c99 100644
--- a/swprocess/activetimeseries.py
+++ b/swprocess/activetimeseries.py
@@ -148,12 +148,18 @@ class ActiveTimeSeries(TimeSeries):
         self._amp /= (self.nstacks + timeseries.nstacks)
         self._nstacks += timeseries.nstacks
 
+    def _copy_state(self, other):
+        """Copy state which processing may have changed since creation."""
+        self._delay = other.delay
+        self._multiple = other.multiple
+
     @classmethod
     def from_activetimeseries(cls, activetimeseries):
-        return cls(activetimeseries.amplitude,
-                   activetimeseries.dt,
-                   nstacks=activetimeseries.nstacks,
-                   delay=activetimeseries.delay)
+        obj = cls(activetimeseries.amplitude,
+                  activetimeseries.dt,
+                  nstacks=activetimeseries.nstacks)
+        obj._copy_state(activetimeseries)
+        return obj
 
     @classmethod
     def from_trace_seg2(cls, trace):
diff --git a/swprocess/sensor1c.py b/swprocess/sensor1c.py
index 386c871..7250b73 100644
--- a/swprocess/sensor1c.py
+++ b/swprocess/sensor1c.py
@@ -58,16 +58,19 @@ class Sensor1C(ActiveTimeSeries):
                    "x": float, "y": float, "z": float}
         args = [opr(getattr(sensor1c, arg)) for arg, opr in arg_map.items()]
 
-        kwarg_map = {"nstacks": int, "delay": float}
+        kwarg_map = {"nstacks": int}
         kwargs = {key: opr(getattr(sensor1c, key))
                   for key, opr in kwarg_map.items()}
-        return cls(*args, **kwargs)
+        obj = cls(*args, **kwargs)
+        obj._copy_state(sensor1c)
+        return obj
 
     @classmethod
     def from_activetimeseries(cls, activetimeseries, x, y, z):
-        return cls(activetimeseries.amplitude, activetimeseries.dt, x, y, z,
-                   nstacks=activetimeseries.nstacks,
-                   delay=activetimeseries.delay)
+        obj = cls(activetimeseries.amplitude, activetimeseries.dt, x, y, z,
+                  nstacks=activetimeseries.nstacks)
+        obj._copy_state(activetimeseries)
+        return obj
 
     @classmethod
     def from_trace(cls, trace,
-- 
2.43.0


From 6098f9aed284b30d481b4e32b313f426dbb8eaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:30 +0000
Subject: [PATCH 12/48] fix: mute at the picked time when the record starts
 after the trigger

---
 swprocess/array1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index d00817c..f88c30d 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -560,7 +560,7 @@ class Array1D():
         position = np.array(self.position())
         dt = self[0].dt
         delay = self[0].delay
-        ndelay = abs(delay/dt)
+        ndelay = -delay/dt
         nsamples = self[0].nsamples
 
         # Define starting index for each trace.
-- 
2.43.0


From c94da76c6a8b9e5f66d009354038f3054ca44022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:38 +0000
Subject: [PATCH 13/48] fix: mute with a signal window that extends beyond the
 record

---
 swprocess/array1d.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index f88c30d..a537b12 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -589,8 +589,11 @@ class Array1D():
         # Perform windowing.
         window = np.zeros(nsamples)
         for i, (start, stop) in enumerate(zip(start_indices, stop_indices)):
-            window[start:stop] = signal.windows.tukey(stop-start,
-                                                      **window_kwargs)
+            taper = signal.windows.tukey(stop-start, **window_kwargs)
+            # Crop the part of the signal window outside of the record.
+            first, last = max(start, 0), min(stop, nsamples)
+            if last > first:
+                window[first:last] = taper[first-start:last-start]
             self.sensors[i]._amp *= window
             window *= 0
 
-- 
2.43.0


From 089f1a29345cfa9919a68b25d7424641e288fa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:44 +0000
Subject: [PATCH 14/48] fix: mute with the taper given in the settings

---
 swprocess/maswworkflows.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/swprocess/maswworkflows.py b/swprocess/maswworkflows.py
index 8b4adc3..76509ff 100644
--- a/swprocess/maswworkflows.py
+++ b/swprocess/maswworkflows.py
@@ -86,7 +86,9 @@ class AbstractMaswWorkflow(ABC):
         if mute["apply"]:
             if self.signal_start is None and self.signal_end is None:
                 if mute["method"] == "interactive":
-                    self.signal_start, self.signal_end = self.array.interactive_mute()
+                    window_kwargs = mute.get("window_kwargs")
+                    kwargs = dict(window_kwargs=window_kwargs) if window_kwargs else {}
+                    self.signal_start, self.signal_end = self.array.interactive_mute(**kwargs)
                 # TODO (jpv): Implement predefined times for muting.
                 else:
                     msg = f"mute type {mute['method']} is unknown, use 'interactive'."
@@ -94,7 +96,7 @@ class AbstractMaswWorkflow(ABC):
             else:
                 self.array.mute(signal_start=self.signal_start,
                                 signal_end=self.signal_end,
-                                window_kwargs=mute.get("window kwargs"),
+                                window_kwargs=mute.get("window_kwargs") or None,
                                 )
 
     def select_signal(self):
-- 
2.43.0


From 4a0a69601f9b7b0881ddbffef991163eb1928080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:10 +0000
Subject: [PATCH 15/48] fix: accept a single file name in the frequency-domain
 workflow

---
 swprocess/maswworkflows.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/swprocess/maswworkflows.py b/swprocess/maswworkflows.py
index 76509ff..1bc1a48 100644
--- a/swprocess/maswworkflows.py
+++ b/swprocess/maswworkflows.py
@@ -261,6 +261,9 @@ class FrequencyDomainMaswWorkflow(AbstractMaswWorkflow):
     """Stack in the frequency-domain."""
 
     def run(self):
+        if isinstance(self.fnames, str):
+            self.fnames = [self.fnames]
+
         example_array = Array1D.from_files(self.fnames[0],
                                            map_x=self.map_x,
                                            map_y=self.map_y)
-- 
2.43.0


From 05469d06ca698174e7e242df6a5f672b0c18a86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 16/48] fix: leave the dictionary of the caller unchanged when
 creating Peaks from it

---
 swprocess/peaks.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index 6a8f845..87be3fc 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -599,11 +599,8 @@ class Peaks():
             Initialized `Peaks` instance.
 
         """
-        valid = data_dict.get("valid")
-        try:
-            del data_dict["valid"]
-        except KeyError:
-            pass
+        data_dict = dict(data_dict)
+        valid = data_dict.pop("valid", None)
 
         obj = cls(identifier=identifier, **data_dict)
 
-- 
2.43.0


From f13cfe3c749ca0b9046cc4d301c3d410ca45c16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:26 +0000
Subject: [PATCH 17/48] fix: Peaks of different sizes are not equal

---
 swprocess/peaks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index 87be3fc..69131de 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -667,6 +667,8 @@ class Peaks():
             except AttributeError:
                 return False
             else:
+                if np.shape(myattr) != np.shape(urattr):
+                    return False
                 try:
                     if not np.allclose(myattr, urattr, equal_nan=True):
                         return False
-- 
2.43.0


From 505d0e0fa46423eeb6217abdc0f7c9c9e4276421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:21 +0000
Subject: [PATCH 18/48] fix: select the wave type of each .max file on its own

---
 swprocess/peakssuite.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/swprocess/peakssuite.py b/swprocess/peakssuite.py
index 3967d70..764ca1b 100644
--- a/swprocess/peakssuite.py
+++ b/swprocess/peakssuite.py
@@ -843,14 +843,16 @@ class PeaksSuite():
             regex = get_wavetype()
             wavetype_from_file = regex.search(peak_data).groups()[0]
             if wavetype == "rayleigh" and wavetype_from_file == "Vertical":
-                wavetype = "vertical"
+                file_wavetype = "vertical"
+            else:
+                file_wavetype = wavetype
 
             regex = get_nmaxima()
             nmaxima = int(regex.search(peak_data).groups()[0])
             nmaxima = max(1, nmaxima)
             nmaxima = min(100, nmaxima)
 
-            regex = get_peak_from_max(wavetype=wavetype)
+            regex = get_peak_from_max(wavetype=file_wavetype)
             frequencies = []
             for match in regex.finditer(peak_data):
                 _, f, *_ = match.groups()
@@ -859,7 +861,7 @@ class PeaksSuite():
                 else:
                     frequencies.append(f)
 
-            regex = get_peak_from_max(wavetype=wavetype)
+            regex = get_peak_from_max(wavetype=file_wavetype)
             found_times = []
             for found in regex.finditer(peak_data):
                 start_time = found.groups()[0]
@@ -867,7 +869,7 @@ class PeaksSuite():
                     continue
                 found_times.append(start_time)
                 peak = Peaks._parse_peaks(peak_data,
-                                          wavetype=wavetype,
+                                          wavetype=file_wavetype,
                                           start_time=start_time,
                                           frequencies=frequencies,
                                           nmaxima=nmaxima)
-- 
2.43.0


From 118d032f2dbf8d0c0bf6f3c9ec47aba3b8b69c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:30 +0000
Subject: [PATCH 19/48] fix: detect the wave type from a peak and not from inf
 or nan in the header

---
 swprocess/regex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/regex.py b/swprocess/regex.py
index a76b9cb..5c5aee9 100644
--- a/swprocess/regex.py
+++ b/swprocess/regex.py
@@ -52,7 +52,7 @@ def get_geopsy_version():
 
 def get_wavetype():
     space = r"(\S+)"
-    pattern = f"{DEFAULT_TIME} {DEFAULT_FREQUENCY} {space} {NUMBER} {NUMBER} {NUMBER} {NUMBER}|-?inf|nan {NUMBER} 1"
+    pattern = f"{DEFAULT_TIME} {DEFAULT_FREQUENCY} {space} {NUMBER} {NUMBER} {NUMBER} (?:{NUMBER}|-?inf|nan) {NUMBER} 1"
     return re.compile(pattern)
 
 def get_process_type():
-- 
2.43.0


From 18db181121047082783430602c7035bf762e4b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:38 +0000
Subject: [PATCH 20/48] fix: match times, frequencies, and valid flags of .max
 peaks exactly

---
 swprocess/peaks.py |  8 +++++---
 swprocess/regex.py | 10 +++++-----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index 69131de..c18a354 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -17,6 +17,7 @@
 """Peaks class definition."""
 
 import json
+import re
 import warnings
 import logging
 
@@ -164,7 +165,7 @@ class Peaks():
             start_time, *_ = regex.search(peak_data).groups()
 
         if frequencies is None:
-            regex = get_peak_from_max(time=start_time, wavetype=wavetype)
+            regex = get_peak_from_max(time=re.escape(start_time), wavetype=wavetype)
             frequencies = []
             for match in regex.finditer(peak_data):
                 _, f, *_ = match.groups()
@@ -188,7 +189,8 @@ class Peaks():
         pwrs = np.full_like(frqs, fill_value=np.nan, dtype=float)
 
         for col, frequency in enumerate(frequencies):
-            getpeak = get_peak_from_max(time=start_time, frequency=frequency,
+            getpeak = get_peak_from_max(time=re.escape(start_time),
+                                        frequency=re.escape(frequency),
                                         wavetype=wavetype)
 
             for row, match in enumerate(getpeak.finditer(peak_data)):
@@ -202,7 +204,7 @@ class Peaks():
                 pwrs[row, col] = float(_pwr)
 
         # Include for "belt and suspenders".
-        getall = get_all(time=start_time, wavetype=wavetype)
+        getall = get_all(time=re.escape(start_time), wavetype=wavetype)
         count = len(getall.findall(peak_data))
         if np.sum(~np.isnan(frqs)) != count:  # pragma: no cover
             msg = f"Missing {count - len(frqs)} dispersion peaks."
diff --git a/swprocess/regex.py b/swprocess/regex.py
index 5c5aee9..429f83a 100644
--- a/swprocess/regex.py
+++ b/swprocess/regex.py
@@ -44,8 +44,8 @@ def get_peak_from_max(time=DEFAULT_TIME, frequency=DEFAULT_FREQUENCY, wavetype="
     """
     # abs_time frequency polarization slowness azimuth ellipticity noise power valid
     wavetype = validate_wavetypes(wavetype)
-    pattern = f"({time}) ({frequency}) {wavetype} ({NUMBER}) ({NUMBER}) ({NUMBER}) ({NUMBER}|-?inf|nan) ({NUMBER}) 1"
-    return re.compile(pattern)
+    pattern = f"^({time}) ({frequency}) {wavetype} ({NUMBER}) ({NUMBER}) ({NUMBER}) ({NUMBER}|-?inf|nan) ({NUMBER}) 1"
+    return re.compile(pattern, flags=re.MULTILINE)
 
 def get_geopsy_version():
     return re.compile(r"geopsypack-(\d+).(\d+).(\d+)")
@@ -79,11 +79,11 @@ def get_all(wavetype=r"rayleigh", time=r"(\d+\.?\d*)"):
 
     """
     if wavetype is None:
-        pattern = f"{time} .* 1"
+        pattern = rf"^{time} .* 1\s*$"
     else:
         wavetype = validate_wavetypes(wavetype)
-        pattern = f"{time} .* {wavetype} .* 1"
-    return re.compile(pattern)
+        pattern = rf"^{time} .* {wavetype} .* 1\s*$"
+    return re.compile(pattern, flags=re.MULTILINE)
 
 def validate_wavetypes(wavetype):
     if wavetype in ("rayleigh", "love", "vertical", "radial", "transverse"):
-- 
2.43.0


From adc0729ecbc611547ce12909b33bacc2866df98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 21/48] fix: Statistics can be initialized

---
 swprocess/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/stats.py b/swprocess/stats.py
index 7c6e935..90b847d 100644
--- a/swprocess/stats.py
+++ b/swprocess/stats.py
@@ -30,7 +30,7 @@ class Statistics():
         self.xx = np.array(xx, dtype=float)
         self.mean = np.array(mean, dtype=float)
         self.stddev = np.array(stddev, dtype=float)
-        self.corr = np.array(corr, dytpe=float)
+        self.corr = np.array(corr, dtype=float)
 
     @classmethod
     def from_peakssuite(cls, peakssuite, xx, xtype="wavelength",
-- 
2.43.0


From 8d3338520b879e57a4da6702fe330106ff81b5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:19 +0000
Subject: [PATCH 22/48] fix: leave the image unchanged when an unknown
 normalization is requested

---
 swprocess/wavefieldtransforms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 88886d9..7b0e28b 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -96,9 +96,6 @@ class AbstractWavefieldTransform(ABC):
             Update the internal state of power.
 
         """
-        # Return power to unnormalized state.
-        self.power *= self._to_abs
-
         # Normalize power
         register = {"none": (np.abs,
                              lambda x: 1.),
@@ -108,6 +105,9 @@ class AbstractWavefieldTransform(ABC):
                                           lambda x: np.max(np.abs(x), axis=0))
                     }
         to_norm, to_abs = register[by]
+
+        # Return power to unnormalized state.
+        self.power *= self._to_abs
         self.power, self._to_abs = (to_norm(self.power), to_abs(self.power))
 
     def find_peak_power(self, by="frequency-maximum", **kwargs):
-- 
2.43.0


From 9ac9171fe799b2a17db21e70ade6c3d94a830652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 23/48] fix: keep the times of samples when trimming between
 samples

---
 swprocess/activetimeseries.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/swprocess/activetimeseries.py b/swprocess/activetimeseries.py
index fec3c99..0014f7d 100644
--- a/swprocess/activetimeseries.py
+++ b/swprocess/activetimeseries.py
@@ -234,8 +234,12 @@ class ActiveTimeSeries(TimeSeries):
             Updates the attributes `nsamples` and `delay`.
 
         """
+        time = self.time
         super().trim(start_time, end_time)
-        self._delay = start_time
+        # Samples keep their times, also if `start_time` is between two.
+        first = float(time[np.argmin(np.absolute(time - start_time))])
+        on_sample = abs(first - start_time) < 1E-6*self.dt
+        self._delay = start_time if on_sample else first
 
     def zero_pad(self, df):
         """Append zeros to `amp` to achieve a desired frequency step.
-- 
2.43.0


From 0d6a0b3a2a79aa0c46b73bcc246128cdce5290ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:05 +0000
Subject: [PATCH 24/48] fix: map the y coordinate of the source of a SEG2 file
 like that of its receivers

---
 swprocess/array1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index a537b12..2a0af99 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -667,7 +667,7 @@ class Array1D():
         if _format == "SEG2":
             def parse_source(stats):
                 x = float(stats.seg2.SOURCE_LOCATION)
-                return Source(x=map_x(x), y=0, z=0)
+                return Source(x=map_x(x), y=map_y(0), z=0)
 
         elif _format == "SU":
             def parse_source(stats):
-- 
2.43.0


From 60d2e4a90928444e011157f28dee622f1da6f3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:42 +0000
Subject: [PATCH 25/48] fix: mute at the picked distance when the waterfall
 shows relative positions

---
 swprocess/array1d.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 2a0af99..a965321 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -501,12 +501,16 @@ class Array1D():
         waterfall_kwargs = {**default_waterfall_kwargs, **waterfall_kwargs}
         _, ax = self.waterfall(**waterfall_kwargs)
 
+        # Distances on the waterfall may be relative to the first sensor.
+        relative = waterfall_kwargs.get("position_normalization", False)
+        origin = self.position()[0] if relative else 0
+
         # Parse x, y to distance, time
         def parse(xs, ys, time_ax=waterfall_kwargs["time_ax"]):
             if time_ax == "y":
-                return ((xs[0], ys[0]), (xs[1], ys[1]))
+                return ((xs[0]+origin, ys[0]), (xs[1]+origin, ys[1]))
             else:
-                return ((ys[0], xs[0]), (ys[1], xs[1]))
+                return ((ys[0]+origin, xs[0]), (ys[1]+origin, xs[1]))
 
         # Define the start of the signal.
         if (mute_location == "before") or (mute_location == "both"):
-- 
2.43.0


From d65ea8358a75e3e2db0ad45905b6c0033d9b2140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:08 +0000
Subject: [PATCH 26/48] fix: order traces from near to far if the source is at
 the last receiver

---
 swprocess/array1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index a965321..f38c394 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -234,7 +234,7 @@ class Array1D():
 
     @property
     def _flip_required(self):
-        return True if self.source.x > self.position(normalize=False)[-1] else False
+        return True if self.source.x >= self.position(normalize=False)[-1] else False
 
     def waterfall(self, ax=None, time_ax="y", amplitude_detrend=True,
                   amplitude_normalization="each", amplitude_scale=None,
-- 
2.43.0


From 381b2e9e7611d87e35842acdf1d1ac31c928c13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:03 +0000
Subject: [PATCH 27/48] fix: keep lags of the cross-correlation if the source
 signal is shorter than half a second

---
 swprocess/array1d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index f38c394..2d59f53 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -879,6 +879,8 @@ class Array1DwSource(Array1D):
         src_amp = self.source.amplitude
         idx_zero = self.source.nsamples
         idx_min, idx_max = idx_zero+idx_dx_tmin, idx_zero+idx_dx_tmax
+        # correlation starts at the most negative lag of the source signal.
+        idx_min = max(idx_min, 0)
 
         sensors = []
         for sensor in self.sensors:
-- 
2.43.0


From a84f23d62194bea5283101cf99db8cded5c71d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:10 +0000
Subject: [PATCH 28/48] fix: average source signals stored as integers

---
 swprocess/array1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 2d59f53..7ec88bf 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -841,7 +841,7 @@ class Array1DwSource(Array1D):
         # TODO (jpv): Badly assume fnames_src is a properly formatted list.
         trace = obspy.read(str(fnames_src[0]))[src_channel]
         dt = trace.meta.delta
-        amp = trace.data
+        amp = np.array(trace.data, dtype=float)
         for fname in fnames_src[1:]:
             trace = obspy.read(str(fname))[src_channel]
             amp += trace.data
-- 
2.43.0


From 337d7004be7d20daa0d2e6fbecba0ae1fb6749d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:55 +0000
Subject: [PATCH 29/48] fix: tell apart peaks with small values and compare
 them symmetrically

---
 swprocess/peaks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index c18a354..de2ba3d 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -672,7 +672,10 @@ class Peaks():
                 if np.shape(myattr) != np.shape(urattr):
                     return False
                 try:
-                    if not np.allclose(myattr, urattr, equal_nan=True):
+                    # Relative to either, so small values are told apart.
+                    kwargs = dict(atol=0, equal_nan=True)
+                    if not (np.allclose(myattr, urattr, **kwargs) and
+                            np.allclose(urattr, myattr, **kwargs)):
                         return False
                 except ValueError:
                     return False
-- 
2.43.0


From 8547f89a1fcc9a0f42d6d51a876235bf17c4a295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:06 +0000
Subject: [PATCH 30/48] fix: read .max files with lines marked invalid in
 finite time

---
 swprocess/regex.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/swprocess/regex.py b/swprocess/regex.py
index 429f83a..836eb38 100644
--- a/swprocess/regex.py
+++ b/swprocess/regex.py
@@ -21,8 +21,9 @@ import re
 __all__ = ["get_peak_from_max", "get_nmaxima",  "get_all", "get_spac_ratio", "get_spac_ring"]
 
 DEFAULT_TIME = r"\d+\.?\d*"
-DEFAULT_FREQUENCY = r"-?\d+.?\d*[eE]?[+-]?\d*"
-NUMBER = r"-?\d+.?\d*[eE]?[+-]?\d*"
+# One way only to match a number, or lines that do not match take forever.
+NUMBER = r"-?\d+(?:\.\d*)?(?:[eE][+-]?\d+)?"
+DEFAULT_FREQUENCY = NUMBER
 
 
 def get_peak_from_max(time=DEFAULT_TIME, frequency=DEFAULT_FREQUENCY, wavetype="rayleigh"):
-- 
2.43.0


From 1384b30e030c69442e1bbf4b919d1145f66e8f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:55 +0000
Subject: [PATCH 31/48] fix: drop locations without data from statistics if no
 member has any

---
 swprocess/peakssuite.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/swprocess/peakssuite.py b/swprocess/peakssuite.py
index 764ca1b..3e2b648 100644
--- a/swprocess/peakssuite.py
+++ b/swprocess/peakssuite.py
@@ -715,15 +715,12 @@ class PeaksSuite():
     @staticmethod
     def _drop_indices(data_matrix, drop_if_fewer_percent, drop_if_fewer_count):
         """Iterate by row, return rejection indices."""
-        if data_matrix.size == 0:
-            return np.array([], dtype=int)
-
         drop_indices = []
         for index, row in enumerate(data_matrix):
             n_nan = np.sum(np.isnan(row))
             n_tot = len(row)
             n_num = n_tot - n_nan
-            p_num = n_num/n_tot
+            p_num = n_num/n_tot if n_tot > 0 else 0
             if n_num < drop_if_fewer_count or p_num < drop_if_fewer_percent:
                 drop_indices.append(index)
         return np.array(drop_indices, dtype=int)
-- 
2.43.0


From 741770c2b792a0ebbad7f5219a5967273f83e914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:05 +0000
Subject: [PATCH 32/48] fix: plot peaks on logarithmic axes if none is valid

---
 swprocess/peaks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index de2ba3d..4e50a4e 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -250,12 +250,12 @@ class Peaks():
 
         # Loop across Axes(s).
         for _ax, _xtype, _ytype in zip(ax, xtype, ytype):
+            # Configure Axes, before there is data so there need not be any.
+            self._configure_axes(ax=_ax, xtype=_xtype, ytype=_ytype,
+                                 defaults=self.axes_defaults)
             # Plot Peaks.
             self._plot(ax=_ax, xtype=_xtype, ytype=_ytype,
                        plot_kwargs=plot_kwargs, mask=mask)
-            # Configure Axes
-            self._configure_axes(ax=_ax, xtype=_xtype, ytype=_ytype,
-                                 defaults=self.axes_defaults)
 
         # Return fig, ax.
         fig.tight_layout()
-- 
2.43.0


From 467a4a04619bf9e72fd5a5dd45ccd6f7afb25161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:41 +0000
Subject: [PATCH 33/48] fix: stop search for dense regions of statistics after
 the last column

---
 swprocess/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/stats.py b/swprocess/stats.py
index 90b847d..a6b3770 100644
--- a/swprocess/stats.py
+++ b/swprocess/stats.py
@@ -290,7 +290,7 @@ class Statistics():
             else:  # pragma: no cover
                 raise ValueError("Iteration stopped without breaking.")
 
-            if c_row+1 == nrows and c_col+1 == ncols:
+            if c_col+1 == ncols:
                 break
             else:
                 s_col = int(c_col)+1
-- 
2.43.0


From ea0213ccbc9ff5959dee05d8cabd5305e67f8f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:26 +0000
Subject: [PATCH 34/48] fix: slant stack if the longest delay is a whole number
 of samples

---
 swprocess/wavefieldtransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 7b0e28b..c321040 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -465,7 +465,7 @@ class SlantStack(AbstractWavefieldTransform):
         diff = diff.reshape((len(diff), 1))
         dt = array.sensors[0].dt
         npts = tmatrix.shape[1]
-        ntaus = npts - int(np.max(position)*np.max(1/velocities)/dt) - 1
+        ntaus = npts - int(np.max(position)/dt/np.min(velocities)) - 1
         slant_stack = np.empty((len(velocities), ntaus))
         rows = np.tile(np.arange(nchannels).reshape(nchannels, 1), (1, ntaus))
         cols = np.tile(np.arange(ntaus).reshape(1, ntaus), (nchannels, 1))
-- 
2.43.0


From 6cf389f7759c62b29cd79ee1d6edad46cb5c25d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:04 +0000
Subject: [PATCH 35/48] fix: compare small amplitudes of time series relative
 to their size

---
 swprocess/activetimeseries.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/swprocess/activetimeseries.py b/swprocess/activetimeseries.py
index 0014f7d..4005303 100644
--- a/swprocess/activetimeseries.py
+++ b/swprocess/activetimeseries.py
@@ -413,7 +413,10 @@ class ActiveTimeSeries(TimeSeries):
         if not self._is_similar(other):
             return False
 
-        if not np.allclose(self.amplitude, other.amplitude):
+        # Tolerance follows the larger record, records may be in any unit.
+        scale = max(np.max(np.abs(self.amplitude)),
+                    np.max(np.abs(other.amplitude)))
+        if not np.allclose(self.amplitude, other.amplitude, atol=1E-8*scale):
             return False
 
         return True
-- 
2.43.0


From 012bc0d76839dfe1ecb3d6260b124419367c5d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:10 +0000
Subject: [PATCH 36/48] fix: log through the package's loggers, not the
 application's root logger

---
 swprocess/peakssuite.py | 2 +-
 swprocess/utils.py      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/swprocess/peakssuite.py b/swprocess/peakssuite.py
index 3e2b648..b24d21b 100644
--- a/swprocess/peakssuite.py
+++ b/swprocess/peakssuite.py
@@ -422,7 +422,7 @@ class PeaksSuite():
                 rejection_mask = peak._reject_box_inside_bool_array(xtype[axclicked], xlims, ytype[axclicked], ylims)
                 rejection_count += np.sum(rejection_mask)
                 rejection_bool_arrays[index][rejection_mask] = True
-            logging.debug(f"\trejection_count = {rejection_count}")
+            logger.debug(f"\trejection_count = {rejection_count}")
 
             # If latest rejection box has points, store and continue.
             if rejection_count > 0:
diff --git a/swprocess/utils.py b/swprocess/utils.py
index 28510c5..8e4eb9a 100644
--- a/swprocess/utils.py
+++ b/swprocess/utils.py
@@ -91,7 +91,7 @@ def extract_mseed(startend_fname, network, data_dir="./", output_dir="./", exten
                                       day=series["start date"],
                                       hour=series["start hour"],
                                       tzinfo=datetime.timezone.utc)
-        logging.debug(f"\t\tstarttime={starttime}")
+        logger.debug(f"\t\tstarttime={starttime}")
         currenttime = starttime
 
         endtime = datetime.datetime(year=series["end year"],
@@ -99,7 +99,7 @@ def extract_mseed(startend_fname, network, data_dir="./", output_dir="./", exten
                                     day=series["end date"],
                                     hour=series["end hour"],
                                     tzinfo=datetime.timezone.utc)
-        logging.debug(f"\t\tendtime={endtime}")
+        logger.debug(f"\t\tendtime={endtime}")
 
         # Avoid nonsensical time blocks.
         if endtime < starttime:
-- 
2.43.0


From 5de2d1a965fc769f42fe4e1a519774f1d0354357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:50 +0000
Subject: [PATCH 37/48] fix: refuse source signals sampled unlike the records

---
 swprocess/array1d.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 7ec88bf..b38e561 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -844,6 +844,9 @@ class Array1DwSource(Array1D):
         amp = np.array(trace.data, dtype=float)
         for fname in fnames_src[1:]:
             trace = obspy.read(str(fname))[src_channel]
+            if abs(trace.meta.delta - dt) > 1E-6*dt:
+                msg = f"Time step of source signal in {fname} differs from that of the first file."
+                raise ValueError(msg)
             amp += trace.data
         amp /= len(fnames_src)
 
@@ -857,7 +860,10 @@ class Array1DwSource(Array1D):
 
     def xcorrelate(self, vmin=None, vmax=None):
 
-        # TODO (jpv): Check dt for source and signal
+        for sensor in self.sensors:
+            if abs(sensor.dt - self.source.dt) > 1E-6*sensor.dt:
+                msg = f"Time step of source signal {self.source.dt} differs from that of the sensors {sensor.dt}."
+                raise ValueError(msg)
         # TODO (jpv): Size of source and receiver signal
 
         if vmax is None:
-- 
2.43.0


From 6d96d45f07c4a8979073c167a02396c3027acc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:32 +0000
Subject: [PATCH 38/48] fix: keep power of zero when normalizing so
 normalization can be undone

---
 swprocess/wavefieldtransforms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index c321040..e428f08 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -96,12 +96,16 @@ class AbstractWavefieldTransform(ABC):
             Update the internal state of power.
 
         """
+        # No power remains no power, whatever it is normalized by.
+        def divide(x, by):
+            return np.divide(x, by, out=np.zeros_like(x, dtype=float), where=(by != 0))
+
         # Normalize power
         register = {"none": (np.abs,
                              lambda x: 1.),
-                    "absolute-maximum": (lambda x: np.abs(x)/np.max(np.abs(x)),
+                    "absolute-maximum": (lambda x: divide(np.abs(x), np.max(np.abs(x))),
                                          lambda x: np.max(np.abs(x))),
-                    "frequency-maximum": (lambda x: np.abs(x)/np.max(np.abs(x), axis=0),
+                    "frequency-maximum": (lambda x: divide(np.abs(x), np.max(np.abs(x), axis=0)),
                                           lambda x: np.max(np.abs(x), axis=0))
                     }
         to_norm, to_abs = register[by]
-- 
2.43.0


From 081f4374dcf289966fd47d17a0b02dd334613453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:41 +0000
Subject: [PATCH 39/48] fix: stack onto the power of an image and not onto its
 latest normalization

---
 swprocess/wavefieldtransforms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index e428f08..70137a4 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -360,6 +360,11 @@ class EmptyWavefieldTransform(AbstractWavefieldTransform):
         return cls(frequencies, velocities, power)
 
     def stack(self, other):
+        # Stack onto the power itself, not onto its latest normalization.
+        if isinstance(other, AbstractWavefieldTransform):
+            self.power = self.power*self._to_abs
+            self._to_abs = 1.
+
         try:
             self.power = (self.power*self.n + other.power*other.n)
             self.power /= (self.n+other.n)
-- 
2.43.0


From a504d426771487285bd454186b8b0f9cccbdc7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:14 +0000
Subject: [PATCH 40/48] fix: keep records without amplitude when normalizing
 the time-series matrix

---
 swprocess/array1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index b38e561..896005b 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -108,10 +108,10 @@ class Array1D():
         for i, sensor in enumerate(self.sensors):
             _amp = sensor.amplitude
             amp = signal.detrend(_amp) if detrend else _amp
-            amp = amp/np.max(np.abs(amp)) if normalize == "each" else amp
+            amp = amp/np.max(np.abs(amp)) if normalize == "each" and np.any(amp) else amp
             matrix[i, :] = amp
 
-        if normalize == "all":
+        if normalize == "all" and np.any(matrix):
             matrix /= np.max(np.abs(matrix))
 
         return matrix
-- 
2.43.0


From a4b2657107a3cf386f671fc91aa76d1168ecced4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:21 +0000
Subject: [PATCH 41/48] fix: let traces without amplitude not contribute to the
 phase shift transform

---
 swprocess/wavefieldtransforms.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 70137a4..9fda47a 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -563,6 +563,10 @@ class PhaseShift(AbstractWavefieldTransform):
         # u(x,t) -> FFT -> U(x,f).
         fft = np.fft.fft(tmatrix)
 
+        # Traces without amplitude have no phase and do not contribute.
+        amplitude = np.abs(fft)
+        amplitude[amplitude == 0] = 1
+
         # Frequency vector.
         sensor = array.sensors[0]
         frqs = np.arange(sensor.nsamples)*sensor._df
@@ -581,7 +585,7 @@ class PhaseShift(AbstractWavefieldTransform):
             exponent = 1j * 2*np.pi/vel * offsets
             for col, (f_index, frq) in enumerate(zip(keep_ids, frequencies)):
                 shift = np.exp(exponent*frq)
-                inner = shift*fft[:, f_index]/np.abs(fft[:, f_index])
+                inner = shift*fft[:, f_index]/amplitude[:, f_index]
                 integral = np.abs(np.sum(0.5*dx*(inner[:-1] + inner[1:])))
                 power[row, col] = integral
 
-- 
2.43.0


From 13158a015cf2bc2d65fd5991f8fdf9ad6ce96c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:28 +0000
Subject: [PATCH 42/48] fix: give traces without amplitude no weight in
 inverse-amplitude beamforming

---
 swprocess/wavefieldtransforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 9fda47a..83b7970 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -699,7 +699,9 @@ class FDBF(AbstractWavefieldTransform):
         # Define weighting matrix
         if weighting == "invamp":
             _, nfrqs, _ = transform.shape
-            weighting = 1/np.abs(np.mean(transform, axis=-1))
+            # Traces without amplitude have no weight.
+            amplitude = np.abs(np.mean(transform, axis=-1))
+            weighting = np.divide(1, amplitude, out=np.zeros_like(amplitude), where=amplitude > 0)
 
             for i in range(nfrqs):
                 w = weighting[:, i]
-- 
2.43.0


From f95ae5ef2516a90a0fd81f8d0795f79b08a75d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:54 +0000
Subject: [PATCH 43/48] fix: leave the record as it is when zero_pad refuses
 the frequency step

---
 swprocess/activetimeseries.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/swprocess/activetimeseries.py b/swprocess/activetimeseries.py
index 4005303..b2ca123 100644
--- a/swprocess/activetimeseries.py
+++ b/swprocess/activetimeseries.py
@@ -265,12 +265,15 @@ class ActiveTimeSeries(TimeSeries):
         """
         df = float(df)
         logger.info(f"zero_pad(df={df})")
-        self._multiple = 1
         if df <= 0:
             raise ValueError(f"df must be positive, currently {df}.")
 
         new_nsamples_float = 1/(df*self.dt)
         new_nsamples = int(round(new_nsamples_float))
+        if new_nsamples < 1:
+            raise ValueError(f"df must not exceed 1/dt={1/self.dt}, currently {df}.")
+
+        self._multiple = 1
         if new_nsamples_float != new_nsamples:
             msg = "  `1/(df*dt)` is not an integer results will be approximate."
             logger.warning(msg)
-- 
2.43.0


From 777abbf152e77e36a38d0d29e0e2af970da3c554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:27 +0000
Subject: [PATCH 44/48] fix: mute traces whose signal window is empty instead
 of stopping half-way through the array

---
 swprocess/array1d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 896005b..0698723 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -593,7 +593,8 @@ class Array1D():
         # Perform windowing.
         window = np.zeros(nsamples)
         for i, (start, stop) in enumerate(zip(start_indices, stop_indices)):
-            taper = signal.windows.tukey(stop-start, **window_kwargs)
+            # Window is empty where the signal would start after its stop.
+            taper = signal.windows.tukey(max(stop-start, 0), **window_kwargs)
             # Crop the part of the signal window outside of the record.
             first, last = max(start, 0), min(stop, nsamples)
             if last > first:
-- 
2.43.0


From a242a7a345c1cdaee258844949d22c0d1bed6311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:22 +0000
Subject: [PATCH 45/48] fix: keep the length of a record aligned by cross
 correlation when the shift exceeds it

---
 swprocess/activetimeseries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/activetimeseries.py b/swprocess/activetimeseries.py
index b2ca123..b40c15c 100644
--- a/swprocess/activetimeseries.py
+++ b/swprocess/activetimeseries.py
@@ -358,7 +358,7 @@ class ActiveTimeSeries(TimeSeries):
         maxcorr_location = np.argmax(corr)
         shifts = (maxcorr_location+1)-b.nsamples
         if shifts > 0:
-            return (shifts, np.concatenate((np.zeros(shifts), b.amplitude[:-shifts])))
+            return (shifts, np.concatenate((np.zeros(shifts), b.amplitude))[:b.nsamples])
         elif shifts < 0:
             return (shifts, np.concatenate((b.amplitude[abs(shifts):], np.zeros(abs(shifts)))))
         else:
-- 
2.43.0


From 6e9ad3fa39fab13c994d9364fa47df454930bd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:30 +0000
Subject: [PATCH 46/48] fix: refuse to stack dispersion images of other
 frequencies or velocities

---
 swprocess/wavefieldtransforms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 83b7970..197138b 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -362,6 +362,11 @@ class EmptyWavefieldTransform(AbstractWavefieldTransform):
     def stack(self, other):
         # Stack onto the power itself, not onto its latest normalization.
         if isinstance(other, AbstractWavefieldTransform):
+            # Each column (row) is stacked under the label it already has.
+            for attr in ["frequencies", "velocities"]:
+                mine, yours = getattr(self, attr), getattr(other, attr)
+                if np.shape(mine) != np.shape(yours) or not np.allclose(mine, yours):
+                    raise ValueError(f"Can only stack objects with the same {attr}.")
             self.power = self.power*self._to_abs
             self._to_abs = 1.
 
-- 
2.43.0


From fedf4762154a38ed1adedc86de0ec58a774f0140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:05 +0000
Subject: [PATCH 47/48] fix: keep an empty dispersion image empty when another
 empty one is stacked onto it

---
 swprocess/wavefieldtransforms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 197138b..e32aa1d 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -369,6 +369,9 @@ class EmptyWavefieldTransform(AbstractWavefieldTransform):
                     raise ValueError(f"Can only stack objects with the same {attr}.")
             self.power = self.power*self._to_abs
             self._to_abs = 1.
+            # Two empty objects remain empty.
+            if self.n == 0 and other.n == 0:
+                return
 
         try:
             self.power = (self.power*self.n + other.power*other.n)
-- 
2.43.0


From 3dac1bb640ea926ab80ad4155af18588ac9e1f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:54:11 +0000
Subject: [PATCH 48/48] fix: statistics of a data matrix have a correlation
 matrix of its locations

---
 swprocess/stats.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/swprocess/stats.py b/swprocess/stats.py
index a6b3770..a5af9fd 100644
--- a/swprocess/stats.py
+++ b/swprocess/stats.py
@@ -36,7 +36,7 @@ class Statistics():
     def from_peakssuite(cls, peakssuite, xx, xtype="wavelength",
                         ytype="velocity"):
         xx, array = peakssuite.to_array(xtype, ytype, xx)
-        cls.from_array(xx, array)
+        return cls.from_data_matrix(xx, array)
 
     @classmethod
     def from_data_matrix(cls, xx, data_matrix, drop_kwargs=None,
@@ -107,11 +107,11 @@ class Statistics():
             raise ValueError(msg)
 
         # Calculate correlation coefficients.
-        corr = np.empty_like(data_matrix)
+        corr = np.full((len(xx), len(xx)), np.nan)
         # nan_mask = np.isnan(data_matrix)
         for region in regions:
             ((s_row, s_col), (e_row, e_col)) = region
-            corr[s_row:e_row, s_col:e_col] = np.corrcoef(data_matrix[s_row:e_row, s_col:e_col],
+            corr[s_col:e_col, s_col:e_col] = np.corrcoef(data_matrix[s_row:e_row, s_col:e_col],
                                                          rowvar=False)
 
         # Fill remaining correlation coefficients.
@@ -368,8 +368,12 @@ class Statistics():
             return y0*np.power(decay_factor, x)
 
         def filler(xs, ys, function):
-            invalid_ids = np.flatnonzero(np.isnan(xs))
-            valid_ids = np.flatnonzero(~np.isnan(xs))
+            invalid_ids = np.flatnonzero(np.isnan(ys))
+            valid_ids = np.flatnonzero(~np.isnan(ys))
+
+            # Too few entries to fit, so entries remain undefined.
+            if len(valid_ids) < 2:
+                return ys
 
             # Fit functional form to valid entries.
             popt, _ = curve_fit(f=function,
-- 
2.43.0

