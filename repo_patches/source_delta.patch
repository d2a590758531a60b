From 2df854804080ce4883fb47a818ab2f9eae189503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:43 +0000
Subject: [PATCH 01/40] fix: interpolate antenna weights from the angle of the
 left table entry, not its weight

---
 dedop/proc/sar/algorithms/multilooking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/proc/sar/algorithms/multilooking.py b/dedop/proc/sar/algorithms/multilooking.py
index 33aa647..ac1d249 100644
--- a/dedop/proc/sar/algorithms/multilooking.py
+++ b/dedop/proc/sar/algorithms/multilooking.py
@@ -212,7 +212,7 @@ class MultilookingAlgorithm(BaseAlgorithm):
             weight_right = self.chd.antenna_weights[index_right]
 
             # get proportion between the left & right weights
-            alpha = (angle - weight_left) / self.chd.antenna_angles_spacing
+            alpha = (angle - self.chd.antenna_angles[index_left]) / self.chd.antenna_angles_spacing
             # interpolate value
             selected_weight = weight_left + alpha * (weight_right - weight_left)
 
-- 
2.43.0


From 2d8f5643dea6fa0e8e2b7284927cf9f47ecdfaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:07 +0000
Subject: [PATCH 02/40] fix: use the Hamming and Hann coefficients for the
 azimuth window of that name

---
 .../proc/sar/algorithms/azimuth_processing.py | 460 +++++++++---------
 1 file changed, 230 insertions(+), 230 deletions(-)

diff --git a/dedop/proc/sar/algorithms/azimuth_processing.py b/dedop/proc/sar/algorithms/azimuth_processing.py
index 7e4e869..ba2adc0 100644
--- a/dedop/proc/sar/algorithms/azimuth_processing.py
+++ b/dedop/proc/sar/algorithms/azimuth_processing.py
@@ -1,230 +1,230 @@
-from math import cos
-import numpy as np
-from dedop.conf import CharacterisationFile, ConstantsFile, ConfigurationFile
-from dedop.conf.enums import AzimuthWindowingMethod, AzimuthProcessingMethod
-from dedop.model import L1AProcessingData
-from dedop.util.parameter import Parameter
-from numpy.linalg import norm
-
-from ..base_algorithm import BaseAlgorithm
-
-
-@Parameter('flag_azimuth_processing_method', data_type=AzimuthProcessingMethod)
-class AzimuthProcessingAlgorithm(BaseAlgorithm):
-    """
-    class for performing the Azimuth Processing Algorithm
-    """
-    def __init__(self, chd: CharacterisationFile, cst: ConstantsFile, cnf: ConfigurationFile):
-        super().__init__(chd, cst, cnf)
-
-        self.beams_focused = None
-
-    def __call__(self, packet: L1AProcessingData, wavelength_ku: float) -> None:
-        """
-        Executes the azimuth processing algorithm
-
-        :param packet: The L1AProcessingData instance
-        :param wavelength_ku: The signal wavelength
-        """
-        self.beams_focused = np.empty(
-            packet.waveform_cor_sar.shape,
-            dtype=np.complex128
-        )
-
-        window = self.construct_azimuth_window(
-            self.cnf.flag_azimuth_windowing_method,
-            width=self.cnf.azimuth_window_width
-        )
-        windowed_wfm = packet.waveform_cor_sar * window[:, np.newaxis]
-
-        # azimuth processing with approx. method
-        if self.cnf.flag_azimuth_processing_method == AzimuthProcessingMethod.approximate:
-            self.compute_approximate_method(packet, windowed_wfm, wavelength_ku)
-        # azimuth processing with exact method
-        elif self.cnf.flag_azimuth_processing_method == AzimuthProcessingMethod.exact:
-            self.compute_exact_method(packet, windowed_wfm, wavelength_ku)
-        else:
-            raise ValueError("unknown azimuth processing method: {}".format(self.cnf.flag_azimuth_processing_method))
-
-    def construct_azimuth_window(self, window_shape: AzimuthWindowingMethod, width: int=64):
-        window = np.zeros((self.chd.n_ku_pulses_burst,), dtype=np.float64)
-
-        centre = self.chd.n_ku_pulses_burst // 2
-
-        start = centre - (width // 2)
-        end = start + width
-
-        if window_shape == AzimuthWindowingMethod.disabled:
-            window[:] = 1.
-        elif window_shape == AzimuthWindowingMethod.boxcar:
-            window[start:end] = 1.
-        elif window_shape == AzimuthWindowingMethod.hamming:
-            n = np.arange(width)
-            window[start:end] = .5 - .5 * np.cos((2. * self.cst.pi * n) / (width - 1))
-        elif window_shape == AzimuthWindowingMethod.hanning:
-            n = np.arange(width)
-            window[start:end] = .54 - .46 * np.cos((2. * self.cst.pi * n) / (width - 1))
-        else:
-            raise NotImplementedError(
-                "Unsupported Azimuth Windowing Method: {}".format(window_shape)
-            )
-
-        return window
-
-    def compute_approximate_method(self, packet: L1AProcessingData, windowed_wfm: np.ndarray,
-                                   wavelength_ku: float) -> None:
-        """
-        Azimuth processing approximate method
-
-        the azimuth processing is done only once, using the beam
-        angle phase of the beam pointing to the nadir (considered
-        the central beam)
-
-        :param packet: L1AProcessingData instance
-        :param windowed_wfm: the input waveform with windowing applied
-        :param wavelength_ku: signal wavelength
-        """
-        # find the nadir beam angle
-        nadir_beam_angle = self.get_nadir_beam_angle(packet)
-
-        # use the nadir beam angle to compute the phase shift
-        wfm_phase_shift = self.compute_phase_shift(
-            packet, windowed_wfm, nadir_beam_angle, wavelength_ku
-        )
-        # compute the azimuth FFTs
-        wfm_fft_azimuth = self.compute_fft_azimuth_dimension(
-            wfm_phase_shift
-        )
-
-        # the result is the focused beams. If the list of beam angles
-        # is increasing in size, then the useful first beams are in the
-        # output of the waveform_fft_azimuth (because the first part of the
-        # waveform_fft_azimuth beams point to surfaces that are before the
-        # first surface). This way we will always have the beams in the same
-        # position as the corresponding beam angle in the beam angle/surfaces
-        # seen lists.
-        if packet.beam_angles_trend == 1:
-            beams_offset = self.chd.n_ku_pulses_burst -\
-                           len(packet.beam_angles_list)
-        else:
-            beams_offset = 0
-        copy_end = self.chd.n_ku_pulses_burst - beams_offset
-        self.beams_focused[:copy_end, :] = wfm_fft_azimuth[beams_offset:, :]
-
-    def compute_exact_method(self, packet: L1AProcessingData, windowed_wfm: np.ndarray, wavelength_ku: float) -> None:
-        """
-        Azimuth processing exact method
-
-        The azimuth processing is performed for each surface seen,
-        and the beam angle at each surface is used to compute the phase
-        shift. The central beam of the result of the FFT is used, and
-        placed in the array position corresponding to the beam angle
-        from which it was computed.
-
-        :param packet: L1AProcessingData
-        :param windowed_wfm: the input waveform with windowing applied
-        :param wavelength_ku: signal wavelength
-        """
-        for beam_index, beam_angle_value in enumerate(packet.beam_angles_list):
-            # calculate the shape shift based upon the current
-            # beam angle
-            wfm_phase_shift = self.compute_phase_shift(
-                packet, windowed_wfm, beam_angle_value, wavelength_ku
-            )
-            # calculate the FFT of the current beam
-            wfm_fft_azimuth = self.compute_fft_azimuth_dimension(
-                wfm_phase_shift
-            )
-            # insert the central beam of the result into the same
-            # position as the beam angle in the beam angle/surface seen
-            # lists (this way the beams can be easily matched to surfaces)
-            self.beams_focused[beam_index, :] =\
-                wfm_fft_azimuth[self.chd.n_ku_pulses_burst // 2, :]
-
-    def compute_phase_shift(self, packet: L1AProcessingData, windowed_wfm: np.ndarray, beam_angle: float,
-                            wavelength_ku: float) -> np.ndarray:
-        """
-        For each pulse of the burst, a phase (based on the given beam
-        angle value) is applied to the waveform
-
-        :param packet: the current L1AProcessingData
-        :param windowed_wfm: the input waveform with windowing applied
-        :param beam_angle: the input beam angle
-        :param wavelength_ku: the signal wavelength
-
-        :return waveform_phase_shift: the phase shifted waveform
-        """
-        # create empty output array
-        waveform_phase_shift = np.empty(
-            windowed_wfm.shape,
-            dtype=np.complex128
-        )
-
-        for pulse_index in range(self.chd.n_ku_pulses_burst):
-            beam_angle_phase = np.exp(-2j * 2. * self.cst.pi / wavelength_ku *
-                                      norm(packet.vel_sat_sar) * cos(beam_angle) *
-                                      packet.pri_sar_pre_dat * pulse_index)
-            waveform_phase_shift[pulse_index, :] = \
-                beam_angle_phase * windowed_wfm[pulse_index, :]
-
-        return waveform_phase_shift
-
-    def compute_fft_azimuth_dimension(self, waveform_phase_shift: np.ndarray) -> np.ndarray:
-        """
-        :param waveform_phase_shift: the phase shifted waveform to transform
-
-        :return waveform_fft_azimuth: The shifted FFT along the azimuth direction
-        """
-        # compute the FFT along the azimuth dimension,
-        # and apply orthogonal normalization to the result
-        out_fft = np.fft.fft(
-            waveform_phase_shift,
-            axis=0, norm='ortho'
-        )
-        # return the shifted FFT values
-        return np.fft.fftshift(
-            out_fft, axes=0
-        )
-
-    def get_nadir_beam_angle(self, packet: L1AProcessingData) -> float:
-        """
-        :param packet: The L1AProcessingData to be processed
-
-        :return: nadir_beam_angle
-        """
-        beam_angles_list_size = len(packet.beam_angles_list)
-        half_pulses = self.chd.n_ku_pulses_burst // 2
-
-        # if the beam angles list is not full (64), and the trend indicates
-        # that the size is increasing, the nadir beam is first of the last 'half_pulses'
-        # (or the first if are less than 'half_pulses' elements
-        if packet.beam_angles_trend == 1:
-            # if there aren't enough elements, pick the first one
-            if beam_angles_list_size < half_pulses:
-                nadir_beam_index = 0
-            # otherwise, get first of the last 'half_pulses'
-            else:
-                nadir_beam_index = -half_pulses
-
-        # if the mbeam angles list is not full (64), and the trend indicates
-        # that the size is decreasing, the nadir beam is the 33rd (or the last
-        # if there are less than 33 elements)
-        elif packet.beam_angles_trend == -1:
-            # if there aren't enough elements, pick the last one
-            if beam_angles_list_size <= half_pulses:
-                nadir_beam_index = -1
-            # otherwise, get the last of the first 'half_pulses'
-            else:
-                nadir_beam_index = half_pulses
-        # if the beam angles list is full, the nadir beam is the 33rd one
-        elif packet.beam_angles_trend == 0:
-            nadir_beam_index = half_pulses
-        # check for invalid trend directions
-        else:
-            raise Exception(
-                "Beam Angle Trend must be in {-1, 0, 1}"
-            )
-
-        # after the index has been selected, get the corresponding beam angle
-        nadir_beam_angle = packet.beam_angles_list[nadir_beam_index]
-        return nadir_beam_angle
+from math import cos
+import numpy as np
+from dedop.conf import CharacterisationFile, ConstantsFile, ConfigurationFile
+from dedop.conf.enums import AzimuthWindowingMethod, AzimuthProcessingMethod
+from dedop.model import L1AProcessingData
+from dedop.util.parameter import Parameter
+from numpy.linalg import norm
+
+from ..base_algorithm import BaseAlgorithm
+
+
+@Parameter('flag_azimuth_processing_method', data_type=AzimuthProcessingMethod)
+class AzimuthProcessingAlgorithm(BaseAlgorithm):
+    """
+    class for performing the Azimuth Processing Algorithm
+    """
+    def __init__(self, chd: CharacterisationFile, cst: ConstantsFile, cnf: ConfigurationFile):
+        super().__init__(chd, cst, cnf)
+
+        self.beams_focused = None
+
+    def __call__(self, packet: L1AProcessingData, wavelength_ku: float) -> None:
+        """
+        Executes the azimuth processing algorithm
+
+        :param packet: The L1AProcessingData instance
+        :param wavelength_ku: The signal wavelength
+        """
+        self.beams_focused = np.empty(
+            packet.waveform_cor_sar.shape,
+            dtype=np.complex128
+        )
+
+        window = self.construct_azimuth_window(
+            self.cnf.flag_azimuth_windowing_method,
+            width=self.cnf.azimuth_window_width
+        )
+        windowed_wfm = packet.waveform_cor_sar * window[:, np.newaxis]
+
+        # azimuth processing with approx. method
+        if self.cnf.flag_azimuth_processing_method == AzimuthProcessingMethod.approximate:
+            self.compute_approximate_method(packet, windowed_wfm, wavelength_ku)
+        # azimuth processing with exact method
+        elif self.cnf.flag_azimuth_processing_method == AzimuthProcessingMethod.exact:
+            self.compute_exact_method(packet, windowed_wfm, wavelength_ku)
+        else:
+            raise ValueError("unknown azimuth processing method: {}".format(self.cnf.flag_azimuth_processing_method))
+
+    def construct_azimuth_window(self, window_shape: AzimuthWindowingMethod, width: int=64):
+        window = np.zeros((self.chd.n_ku_pulses_burst,), dtype=np.float64)
+
+        centre = self.chd.n_ku_pulses_burst // 2
+
+        start = centre - (width // 2)
+        end = start + width
+
+        if window_shape == AzimuthWindowingMethod.disabled:
+            window[:] = 1.
+        elif window_shape == AzimuthWindowingMethod.boxcar:
+            window[start:end] = 1.
+        elif window_shape == AzimuthWindowingMethod.hamming:
+            n = np.arange(width)
+            window[start:end] = .54 - .46 * np.cos((2. * self.cst.pi * n) / (width - 1))
+        elif window_shape == AzimuthWindowingMethod.hanning:
+            n = np.arange(width)
+            window[start:end] = .5 - .5 * np.cos((2. * self.cst.pi * n) / (width - 1))
+        else:
+            raise NotImplementedError(
+                "Unsupported Azimuth Windowing Method: {}".format(window_shape)
+            )
+
+        return window
+
+    def compute_approximate_method(self, packet: L1AProcessingData, windowed_wfm: np.ndarray,
+                                   wavelength_ku: float) -> None:
+        """
+        Azimuth processing approximate method
+
+        the azimuth processing is done only once, using the beam
+        angle phase of the beam pointing to the nadir (considered
+        the central beam)
+
+        :param packet: L1AProcessingData instance
+        :param windowed_wfm: the input waveform with windowing applied
+        :param wavelength_ku: signal wavelength
+        """
+        # find the nadir beam angle
+        nadir_beam_angle = self.get_nadir_beam_angle(packet)
+
+        # use the nadir beam angle to compute the phase shift
+        wfm_phase_shift = self.compute_phase_shift(
+            packet, windowed_wfm, nadir_beam_angle, wavelength_ku
+        )
+        # compute the azimuth FFTs
+        wfm_fft_azimuth = self.compute_fft_azimuth_dimension(
+            wfm_phase_shift
+        )
+
+        # the result is the focused beams. If the list of beam angles
+        # is increasing in size, then the useful first beams are in the
+        # output of the waveform_fft_azimuth (because the first part of the
+        # waveform_fft_azimuth beams point to surfaces that are before the
+        # first surface). This way we will always have the beams in the same
+        # position as the corresponding beam angle in the beam angle/surfaces
+        # seen lists.
+        if packet.beam_angles_trend == 1:
+            beams_offset = self.chd.n_ku_pulses_burst -\
+                           len(packet.beam_angles_list)
+        else:
+            beams_offset = 0
+        copy_end = self.chd.n_ku_pulses_burst - beams_offset
+        self.beams_focused[:copy_end, :] = wfm_fft_azimuth[beams_offset:, :]
+
+    def compute_exact_method(self, packet: L1AProcessingData, windowed_wfm: np.ndarray, wavelength_ku: float) -> None:
+        """
+        Azimuth processing exact method
+
+        The azimuth processing is performed for each surface seen,
+        and the beam angle at each surface is used to compute the phase
+        shift. The central beam of the result of the FFT is used, and
+        placed in the array position corresponding to the beam angle
+        from which it was computed.
+
+        :param packet: L1AProcessingData
+        :param windowed_wfm: the input waveform with windowing applied
+        :param wavelength_ku: signal wavelength
+        """
+        for beam_index, beam_angle_value in enumerate(packet.beam_angles_list):
+            # calculate the shape shift based upon the current
+            # beam angle
+            wfm_phase_shift = self.compute_phase_shift(
+                packet, windowed_wfm, beam_angle_value, wavelength_ku
+            )
+            # calculate the FFT of the current beam
+            wfm_fft_azimuth = self.compute_fft_azimuth_dimension(
+                wfm_phase_shift
+            )
+            # insert the central beam of the result into the same
+            # position as the beam angle in the beam angle/surface seen
+            # lists (this way the beams can be easily matched to surfaces)
+            self.beams_focused[beam_index, :] =\
+                wfm_fft_azimuth[self.chd.n_ku_pulses_burst // 2, :]
+
+    def compute_phase_shift(self, packet: L1AProcessingData, windowed_wfm: np.ndarray, beam_angle: float,
+                            wavelength_ku: float) -> np.ndarray:
+        """
+        For each pulse of the burst, a phase (based on the given beam
+        angle value) is applied to the waveform
+
+        :param packet: the current L1AProcessingData
+        :param windowed_wfm: the input waveform with windowing applied
+        :param beam_angle: the input beam angle
+        :param wavelength_ku: the signal wavelength
+
+        :return waveform_phase_shift: the phase shifted waveform
+        """
+        # create empty output array
+        waveform_phase_shift = np.empty(
+            windowed_wfm.shape,
+            dtype=np.complex128
+        )
+
+        for pulse_index in range(self.chd.n_ku_pulses_burst):
+            beam_angle_phase = np.exp(-2j * 2. * self.cst.pi / wavelength_ku *
+                                      norm(packet.vel_sat_sar) * cos(beam_angle) *
+                                      packet.pri_sar_pre_dat * pulse_index)
+            waveform_phase_shift[pulse_index, :] = \
+                beam_angle_phase * windowed_wfm[pulse_index, :]
+
+        return waveform_phase_shift
+
+    def compute_fft_azimuth_dimension(self, waveform_phase_shift: np.ndarray) -> np.ndarray:
+        """
+        :param waveform_phase_shift: the phase shifted waveform to transform
+
+        :return waveform_fft_azimuth: The shifted FFT along the azimuth direction
+        """
+        # compute the FFT along the azimuth dimension,
+        # and apply orthogonal normalization to the result
+        out_fft = np.fft.fft(
+            waveform_phase_shift,
+            axis=0, norm='ortho'
+        )
+        # return the shifted FFT values
+        return np.fft.fftshift(
+            out_fft, axes=0
+        )
+
+    def get_nadir_beam_angle(self, packet: L1AProcessingData) -> float:
+        """
+        :param packet: The L1AProcessingData to be processed
+
+        :return: nadir_beam_angle
+        """
+        beam_angles_list_size = len(packet.beam_angles_list)
+        half_pulses = self.chd.n_ku_pulses_burst // 2
+
+        # if the beam angles list is not full (64), and the trend indicates
+        # that the size is increasing, the nadir beam is first of the last 'half_pulses'
+        # (or the first if are less than 'half_pulses' elements
+        if packet.beam_angles_trend == 1:
+            # if there aren't enough elements, pick the first one
+            if beam_angles_list_size < half_pulses:
+                nadir_beam_index = 0
+            # otherwise, get first of the last 'half_pulses'
+            else:
+                nadir_beam_index = -half_pulses
+
+        # if the mbeam angles list is not full (64), and the trend indicates
+        # that the size is decreasing, the nadir beam is the 33rd (or the last
+        # if there are less than 33 elements)
+        elif packet.beam_angles_trend == -1:
+            # if there aren't enough elements, pick the last one
+            if beam_angles_list_size <= half_pulses:
+                nadir_beam_index = -1
+            # otherwise, get the last of the first 'half_pulses'
+            else:
+                nadir_beam_index = half_pulses
+        # if the beam angles list is full, the nadir beam is the 33rd one
+        elif packet.beam_angles_trend == 0:
+            nadir_beam_index = half_pulses
+        # check for invalid trend directions
+        else:
+            raise Exception(
+                "Beam Angle Trend must be in {-1, 0, 1}"
+            )
+
+        # after the index has been selected, get the corresponding beam angle
+        nadir_beam_angle = packet.beam_angles_list[nadir_beam_index]
+        return nadir_beam_angle
-- 
2.43.0


From f6a039095ba9cd1b75d66a6f7a154348a2189eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:07 +0000
Subject: [PATCH 03/40] fix: do not hand on the closest burst of the previous
 surface for an empty stack

---
 dedop/proc/sar/algorithms/stack_gathering.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dedop/proc/sar/algorithms/stack_gathering.py b/dedop/proc/sar/algorithms/stack_gathering.py
index a2ce978..8b058dd 100644
--- a/dedop/proc/sar/algorithms/stack_gathering.py
+++ b/dedop/proc/sar/algorithms/stack_gathering.py
@@ -102,6 +102,7 @@ class StackGatheringAlgorithm(BaseAlgorithm):
 
         rmc_burst_in_stack = False
         closest_burst_beam_angle = None
+        self.closest_burst_index = 0
 
         for stack_index in range(stack_all_size - stack_elements_to_remove):
             stack_beam_index =\
-- 
2.43.0


From 4724232333ac8d99d1fa5802156fab096b2ebcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:59 +0000
Subject: [PATCH 04/40] fix: do not calibrate the first burst after a gap a
 second time

---
 dedop/proc/sar/processor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index ab39662..bdf8f68 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -199,12 +199,12 @@ class L1BProcessor(BaseProcessor):
                             raise Exception("insufficient input records")
                     else:
                         monitor.progress(1)
+                        if input_packet is not None:
+                            # apply calibrations
+                            self.cal1_algorithm(input_packet)
+                            self.cal2_algorithm(input_packet)
 
                 if input_packet is not None:
-                    # apply calibrations
-                    self.cal1_algorithm(input_packet)
-                    self.cal2_algorithm(input_packet)
-
                     # check if there is a gap (or if this is the first packet & prev_time has not been set)
                     if prev_time is None or input_packet.time_sar_ku - prev_time < self.gap_threshold:
 
-- 
2.43.0


From eb8ff8ecfb538efda9799b5827802b119257a05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:59 +0000
Subject: [PATCH 05/40] fix: do not treat a skipped input record as the end of
 the input

---
 dedop/proc/sar/processor.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index bdf8f68..d0cce8b 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -199,10 +199,12 @@ class L1BProcessor(BaseProcessor):
                             raise Exception("insufficient input records")
                     else:
                         monitor.progress(1)
-                        if input_packet is not None:
-                            # apply calibrations
-                            self.cal1_algorithm(input_packet)
-                            self.cal2_algorithm(input_packet)
+                        if input_packet is None:
+                            # the record has been skipped, this is not the end of the input
+                            continue
+                        # apply calibrations
+                        self.cal1_algorithm(input_packet)
+                        self.cal2_algorithm(input_packet)
 
                 if input_packet is not None:
                     # check if there is a gap (or if this is the first packet & prev_time has not been set)
-- 
2.43.0


From d8853f8a1d364c5c37a39ab85df1f8695a790671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:59 +0000
Subject: [PATCH 06/40] fix: start every run with empty queues and without a
 focused surface

---
 dedop/proc/sar/processor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index d0cce8b..f3d695d 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -134,6 +134,11 @@ class L1BProcessor(BaseProcessor):
         self.beam_angles_trend_prev = -1
         self.surfaces_count = 0
 
+        # forget what an earlier run may have left behind
+        self._surfaces = []
+        self._packets = []
+        self.surface_locations_algorithm.focus_found = False
+
         # find base name of input file
         l1a_base, _ = os.path.splitext(os.path.basename(l1a_file))
         if l1a_base.startswith('L1A'):
-- 
2.43.0


From d0df46ac23e3059f67525abd4bb2df73629bf580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:59 +0000
Subject: [PATCH 07/40] fix: close the input and output files on every exit of
 a processing run

---
 dedop/proc/sar/processor.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index f3d695d..d5907ad 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -107,14 +107,19 @@ class L1BProcessor(BaseProcessor):
         """
         runs the L1B Processing Chain
         """
+        self.l1b_file = None
+        self.l1bs_file = None
         self.l1a_file = L1ADataset(l1a_file, chd=self.chd, cst=self.cst, cnf=self.cnf)
 
-        print('processing %s using "%s"' % (self.l1a_file.file_path, self.name))
+        try:
+            print('processing %s using "%s"' % (self.l1a_file.file_path, self.name))
 
-        t0 = time.time()
+            t0 = time.time()
 
-        with monitor.starting('processing', total_work=len(self.l1a_file)):
-            status = self._process(l1a_file, monitor)
+            with monitor.starting('processing', total_work=len(self.l1a_file)):
+                status = self._process(l1a_file, monitor)
+        finally:
+            self._close_files()
 
         dt = time.time() - t0
 
@@ -126,6 +131,20 @@ class L1BProcessor(BaseProcessor):
 
         return status
 
+    def _close_files(self) -> None:
+        """
+        close the input file and the output files that have been created
+        """
+        try:
+            if self.l1b_file is not None:
+                self.l1b_file.close()
+        finally:
+            try:
+                if self.l1bs_file is not None:
+                    self.l1bs_file.close()
+            finally:
+                self.l1a_file.close()
+
     def _process(self, l1a_file, monitor):
         running = True
         surface_processing = False
@@ -287,7 +306,7 @@ class L1BProcessor(BaseProcessor):
         ctime = iso_format()
         ftime = iso_format(self.l1a_file.first_time())
         ltime = iso_format(self.l1a_file.last_time())
-        # close output files
+        # finalise output files
         self.l1b_file.write_globals(
             title='DeDop SRAL Level 1 Measurement',
             mission_name=l1a_globals.mission_name,
@@ -318,7 +337,6 @@ class L1BProcessor(BaseProcessor):
             first_meas_time=ftime,
             last_meas_time=ltime
         )
-        self.l1b_file.close()
         if self.l1bs_file is not None:
             self.l1bs_file.write_globals(
                 title='DeDop SRAL Level 1BS Measurement',
@@ -351,7 +369,6 @@ class L1BProcessor(BaseProcessor):
                 first_meas_time=ftime,
                 last_meas_time=ltime
             )
-            self.l1bs_file.close()
 
         return status
 
-- 
2.43.0


From b13a476a362289098df981a399921bb5f7feb480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:59 +0000
Subject: [PATCH 08/40] fix: report insufficient input as ProcessorException,
 as documented

---
 dedop/model/processor.py    | 1 +
 dedop/proc/sar/processor.py | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/dedop/model/processor.py b/dedop/model/processor.py
index 7da95b5..d690d01 100644
--- a/dedop/model/processor.py
+++ b/dedop/model/processor.py
@@ -2,6 +2,7 @@ import os.path
 import time
 from abc import ABCMeta, abstractmethod
 
+from dedop.model.exception import ProcessorException
 from dedop.util.monitor import Monitor
 
 
diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index d5907ad..8ae1fe5 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -9,6 +9,7 @@ from dedop.conf.enums import OutputFormat
 from dedop.data.input.l1a import L1ADataset
 from dedop.data.output import L1BSWriter, L1BWriter, L1BWriterExtended
 from dedop.model import SurfaceData, L1AProcessingData
+from dedop.model.exception import ProcessorException
 from dedop.model.processor import BaseProcessor
 from dedop.util.monitor import Monitor
 from dedop.util.time import iso_format
@@ -220,7 +221,7 @@ class L1BProcessor(BaseProcessor):
                     except StopIteration:
                         input_packet = None
                         if not surface_processing:
-                            raise Exception("insufficient input records")
+                            raise ProcessorException("insufficient input records")
                     else:
                         monitor.progress(1)
                         if input_packet is None:
-- 
2.43.0


From 8ad089cef91f19c953cd75933cd81b6f6f051e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:59 +0000
Subject: [PATCH 09/40] fix: finish the gap processing task when the run is
 cancelled or fails

---
 dedop/proc/sar/processor.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index 8ae1fe5..8e65cd9 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -64,6 +64,7 @@ class L1BProcessor(BaseProcessor):
         self.out_path = out_path
         self.name = name
         self.l1a_file = None
+        self._gap_monitor = None
 
         # init. surface & packets arrays
         self._surfaces = []
@@ -118,7 +119,10 @@ class L1BProcessor(BaseProcessor):
             t0 = time.time()
 
             with monitor.starting('processing', total_work=len(self.l1a_file)):
-                status = self._process(l1a_file, monitor)
+                try:
+                    status = self._process(l1a_file, monitor)
+                finally:
+                    self._end_gap()
         finally:
             self._close_files()
 
@@ -132,6 +136,14 @@ class L1BProcessor(BaseProcessor):
 
         return status
 
+    def _end_gap(self) -> None:
+        """
+        finish the task of processing a gap, if there is one
+        """
+        gap_monitor, self._gap_monitor = self._gap_monitor, None
+        if gap_monitor is not None:
+            gap_monitor.done()
+
     def _close_files(self) -> None:
         """
         close the input file and the output files that have been created
@@ -196,7 +208,6 @@ class L1BProcessor(BaseProcessor):
         prev_time = None
         gap_processing = False
         gap_resume = False
-        sub_monitor = None
 
         index = -1
 
@@ -246,11 +257,11 @@ class L1BProcessor(BaseProcessor):
                     else:
                         gap_processing = True
                         prev_time = None
-                        sub_monitor = monitor.child(1)
-                        sub_monitor.start("processing gap", len(self.surf_locs))
+                        self._gap_monitor = monitor.child(1)
+                        self._gap_monitor.start("processing gap", len(self.surf_locs))
 
-            elif sub_monitor is not None:
-                sub_monitor.progress(1, len(self.surf_locs))
+            elif self._gap_monitor is not None:
+                self._gap_monitor.progress(1, len(self.surf_locs))
 
             if surface_processing or len(self.surf_locs) >= self.min_surfs or gap_processing:
                 surface_processing = True
@@ -296,7 +307,7 @@ class L1BProcessor(BaseProcessor):
                     gap_processing = False  # end gap mode
                     gap_resume = True  # next iteration will be the first after the gap
                     surface_processing = False  # require min. number of surfaces again
-                    sub_monitor.done()
+                    self._end_gap()
                 else:
                     # the end of the input has been reached
                     running = False
-- 
2.43.0


From 06a965428a61eed1068e344a5063b66f3939f81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:59 +0000
Subject: [PATCH 10/40] fix: progress of a child monitor without total work

---
 dedop/util/monitor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedop/util/monitor.py b/dedop/util/monitor.py
index ab8317b..15faecf 100644
--- a/dedop/util/monitor.py
+++ b/dedop/util/monitor.py
@@ -195,7 +195,8 @@ class ChildMonitor(Monitor):
         self._parent_monitor.progress(work=parent_work, msg=self._label)
 
     def progress(self, work: float = None, msg: str = None):
-        parent_work = self._partial_work * (work / self._total_work) if work is not None else None
+        parent_work = self._partial_work * (work / self._total_work) \
+            if work is not None and self._total_work else None
         parent_msg = '%s: %s' % (self._label, msg) if msg is not None else None
         self._parent_monitor.progress(work=parent_work, msg=parent_msg)
 
-- 
2.43.0


From c2dafd34ae73e4cab7cbe469e4e27d0832d4fc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:08 +0000
Subject: [PATCH 11/40] fix: set the UTC reference of a surface located
 directly beneath a burst

---
 dedop/proc/sar/algorithms/surface_locations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dedop/proc/sar/algorithms/surface_locations.py b/dedop/proc/sar/algorithms/surface_locations.py
index f71bb4c..01f0411 100644
--- a/dedop/proc/sar/algorithms/surface_locations.py
+++ b/dedop/proc/sar/algorithms/surface_locations.py
@@ -123,6 +123,11 @@ class SurfaceLocationAlgorithm(BaseAlgorithm):
 
         self.win_delay_surf = isp_record.win_delay_sar_ku
 
+        self.prev_tai = isp_record.time_sar_ku
+        self.prev_utc_days = isp_record.days
+        self.prev_utc_secs = isp_record.seconds
+        self.curr_day_length = self.cst.sec_in_day
+
     def focus_surface(self, surface_to_move: SurfaceData, previous_surface: SurfaceData) -> None:
         """
         move the location of a surface to the closest approach to the target position
-- 
2.43.0


From 4bfcb4c4aa07afb8314872de2d5fc70845c19e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:13 +0000
Subject: [PATCH 12/40] fix: ecef2lla altitude near the south pole for single
 positions

---
 dedop/proc/geo/ecef2lla.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/proc/geo/ecef2lla.py b/dedop/proc/geo/ecef2lla.py
index cbe6279..1953751 100644
--- a/dedop/proc/geo/ecef2lla.py
+++ b/dedop/proc/geo/ecef2lla.py
@@ -88,7 +88,7 @@ def ecef2lla(ecef: Sequence[float], cst: ConstantsFile) -> Tuple[float, float, f
 
     if isinstance(alt, numbers.Number):
         if abs(x)<1 and abs(y)<1:
-            alt = z - b
+            alt = abs(z) - b
     else:
         k = logical_and(abs(x)<1, abs(y)<1)
         alt[k] = abs(z[k]) - b
-- 
2.43.0


From a99af4ef994e38853489fd98d4508cf7b8e352ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:13 +0000
Subject: [PATCH 13/40] fix: angle_between of opposite vectors no longer fails
 on rounding

---
 dedop/proc/functions/vectors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedop/proc/functions/vectors.py b/dedop/proc/functions/vectors.py
index 0f8f7b8..9e3263a 100644
--- a/dedop/proc/functions/vectors.py
+++ b/dedop/proc/functions/vectors.py
@@ -10,5 +10,7 @@ def angle_between(vec1: np.ndarray, vec2: np.ndarray) -> float:
           (norm(vec1) * norm(vec2))
     if arg > 1:
         arg = 1
+    elif arg < -1:
+        arg = -1
 
     return np.arccos(arg)
-- 
2.43.0


From c8ca950db3a84026a7dbdecd12e369f9528d4673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:08 +0000
Subject: [PATCH 14/40] fix: a step no longer replaces an invalid parameter
 value by its default

---
 dedop/proc/sar/base_algorithm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedop/proc/sar/base_algorithm.py b/dedop/proc/sar/base_algorithm.py
index d2f8574..a37966e 100644
--- a/dedop/proc/sar/base_algorithm.py
+++ b/dedop/proc/sar/base_algorithm.py
@@ -1,5 +1,6 @@
 from ...util.parameter import Parameter
 from ...conf import ConstantsFile, CharacterisationFile, ConfigurationFile
+from ...conf.auxiliary_errors import MissingParameterError
 
 
 @Parameter('n_looks_stack', data_type=int)
@@ -36,5 +37,5 @@ class BaseAlgorithm:
                 setattr(self, param.name, param.value_set)
             try:
                 setattr(self, param.name, getattr(self.cnf, param.name))
-            except:
+            except MissingParameterError:
                 setattr(self, param.name, param.default_value)
\ No newline at end of file
-- 
2.43.0


From 1b4e0aac323967e123f87725e45572ac3e84b27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:30 +0000
Subject: [PATCH 15/40] fix: deleting a workspace or configuration with an
 empty name no longer deletes all of them

---
 dedop/ui/workspace_manager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 9fdb6ec..705e4dc 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -126,6 +126,8 @@ class WorkspaceManager:
         :param workspace_name: workspace name to be deleted
         :raise: WorkspaceError: thrown when workspace not found or cannot delete the workspace
         """
+        if not workspace_name:
+            raise WorkspaceError('no workspace name is specified')
         self._assert_workspace_exists(workspace_name)
         dir_path = self.get_workspace_path(workspace_name)
         if os.path.exists(dir_path):
@@ -212,6 +214,8 @@ class WorkspaceManager:
         :param config_name: the name of the configuration to be removed
         :return:
         """
+        if not config_name:
+            raise WorkspaceError('no DDP configuration name is specified')
         self._assert_workspace_exists(workspace_name)
         self._assert_config_exists(workspace_name, config_name)
         dir_path = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, config_name)
-- 
2.43.0


From a8a0f334efc7fc1ef14f56188200b41fb231b341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:30 +0000
Subject: [PATCH 16/40] fix: renaming onto an existing workspace or
 configuration is refused

---
 dedop/ui/workspace_manager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 705e4dc..82f7c69 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -162,6 +162,8 @@ class WorkspaceManager:
         self._assert_workspace_exists(workspace_name)
         if not new_workspace_name:
             raise WorkspaceError("missing the new workspace name")
+        if self.workspace_exists(new_workspace_name):
+            raise WorkspaceError('workspace "%s" already exists' % new_workspace_name)
         dir_path = self.get_workspace_path('')
         if os.path.exists(dir_path):
             try:
@@ -253,6 +255,9 @@ class WorkspaceManager:
         self._assert_config_exists(workspace_name, config_name)
         dir_path = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, config_name)
         dir_path_new = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, new_config_name)
+        if os.path.exists(dir_path_new):
+            raise WorkspaceError('workspace "%s" already contains a configuration "%s"' %
+                                 (workspace_name, new_config_name))
         if os.path.exists(dir_path):
             try:
                 os.rename(dir_path, dir_path_new)
-- 
2.43.0


From d817e1ea798f127060ee6bba14a42c8c8a087875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:30 +0000
Subject: [PATCH 17/40] fix: failure to write a configuration or notebook file
 is reported as WorkspaceError

---
 dedop/ui/workspace_manager.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 82f7c69..0044020 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -275,10 +275,13 @@ class WorkspaceManager:
 
     def write_config_file(self, workspace_name: str, config_name: str, config_file_key: str, configuration: str):
         file_path = self.get_config_file(workspace_name, config_name, config_file_key)
-        with open(file_path, 'r+') as f:
-            f.seek(0)
-            f.write(configuration)
-            f.truncate()
+        try:
+            with open(file_path, 'r+') as f:
+                f.seek(0)
+                f.write(configuration)
+                f.truncate()
+        except (IOError, OSError) as e:
+            raise WorkspaceError(str(e))
 
     def get_config_names(self, workspace_name: str) -> List[str]:
         self._assert_workspace_exists(workspace_name)
@@ -507,7 +510,7 @@ class WorkspaceManager:
             try:
                 os.mkdir(notebook_dir)
             except (IOError, OSError) as e:
-                return 60, str(e)
+                raise WorkspaceError(str(e))
 
         index = 0
         while True:
@@ -518,9 +521,12 @@ class WorkspaceManager:
                 break
 
         # noinspection PyUnboundLocalVariable
-        with open(notebook_path, 'w') as fp:
-            fp.write(notebook_json)
-            print('wrote notebook file "%s"' % notebook_path)
+        try:
+            with open(notebook_path, 'w') as fp:
+                fp.write(notebook_json)
+                print('wrote notebook file "%s"' % notebook_path)
+        except (IOError, OSError) as e:
+            raise WorkspaceError(str(e))
 
         self.launch_notebook(title, notebook_dir, notebook_path=notebook_path)
 
-- 
2.43.0


From 388452ffc70d676a7009150534ae5640fe998a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:30 +0000
Subject: [PATCH 18/40] fix: the shipped CryoSat characterisation file carries
 the supported format version

---
 dedop/ui/data/cryosat_config/CHD.json | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dedop/ui/data/cryosat_config/CHD.json b/dedop/ui/data/cryosat_config/CHD.json
index b19c160..41ee40e 100644
--- a/dedop/ui/data/cryosat_config/CHD.json
+++ b/dedop/ui/data/cryosat_config/CHD.json
@@ -15,10 +15,19 @@
                 "comment": "initial version",
                 "parameters": [],
                 "version": 0
+            },
+            {
+                "comment": "added new parameters for update to sigma-0 algorithm",
+                "parameters": [
+                    ["ratio_trc_ku_chd", "+", "required for sigma-0 scaling factor"],
+                    ["fft_step_freq_ku_chd", "+", "required for sigma-0 scaling factor"],
+                    ["ptr_width_chd", "+", "required for sigma-0 scaling factor"]
+                ],
+                "version": 1
             }
         ],
         "description": "DeDop Characterisation File",
-        "version": 0
+        "version": 1
     },
     "alt_freq_multiplier_chd": {
         "description": "Factor to convert from USO frequency to altimeter frequency",
-- 
2.43.0


From 3fe4323ef3576dae0e09fdff03ad70b4407db7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:53 +0000
Subject: [PATCH 19/40] fix: a mandatory parameter missing from the
 configuration is no longer replaced by None

---
 dedop/proc/sar/base_algorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dedop/proc/sar/base_algorithm.py b/dedop/proc/sar/base_algorithm.py
index a37966e..e27eccd 100644
--- a/dedop/proc/sar/base_algorithm.py
+++ b/dedop/proc/sar/base_algorithm.py
@@ -38,4 +38,6 @@ class BaseAlgorithm:
             try:
                 setattr(self, param.name, getattr(self.cnf, param.name))
             except MissingParameterError:
-                setattr(self, param.name, param.default_value)
\ No newline at end of file
+                # a mandatory parameter stays unset, so that using it is an error
+                if param.default_value is not None:
+                    setattr(self, param.name, param.default_value)
\ No newline at end of file
-- 
2.43.0


From bb89a7c6778391f7f314d43c992b2762e9b123ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:15 +0000
Subject: [PATCH 20/40] fix: the last record inside the region of interest is
 read

---
 dedop/data/input/l1a/l1a_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/data/input/l1a/l1a_dataset.py b/dedop/data/input/l1a/l1a_dataset.py
index de315a4..db8f7e2 100644
--- a/dedop/data/input/l1a/l1a_dataset.py
+++ b/dedop/data/input/l1a/l1a_dataset.py
@@ -116,7 +116,7 @@ class L1ADataset(InputDataset):
             self._roi_filter = roi_filter
             indexes = np.argwhere(roi_filter)
             self._start_index = indexes.min()
-            self._final_index = indexes.max()
+            self._final_index = indexes.max() + 1
         else:
             self._roi_filter = None
             self._start_index = 0
-- 
2.43.0


From 4f83deaa33eef5ff86e91d63cc126dd88fd613ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:15 +0000
Subject: [PATCH 21/40] fix: a region of interest without any record is no
 input instead of an internal error

---
 dedop/data/input/l1a/l1a_dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedop/data/input/l1a/l1a_dataset.py b/dedop/data/input/l1a/l1a_dataset.py
index db8f7e2..8af6cdd 100644
--- a/dedop/data/input/l1a/l1a_dataset.py
+++ b/dedop/data/input/l1a/l1a_dataset.py
@@ -115,8 +115,8 @@ class L1ADataset(InputDataset):
                 )
             self._roi_filter = roi_filter
             indexes = np.argwhere(roi_filter)
-            self._start_index = indexes.min()
-            self._final_index = indexes.max() + 1
+            self._start_index = indexes.min() if indexes.size else 0
+            self._final_index = indexes.max() + 1 if indexes.size else 0
         else:
             self._roi_filter = None
             self._start_index = 0
-- 
2.43.0


From dd80a681832fa2e1e5152ea38cd775fcabf1c576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:15 +0000
Subject: [PATCH 22/40] fix: the pitch angle in the centre of gravity
 correction is converted from degrees

---
 dedop/data/input/l1a/l1a_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/data/input/l1a/l1a_dataset.py b/dedop/data/input/l1a/l1a_dataset.py
index 8af6cdd..f3ed8ec 100644
--- a/dedop/data/input/l1a/l1a_dataset.py
+++ b/dedop/data/input/l1a/l1a_dataset.py
@@ -166,7 +166,7 @@ class L1ADataset(InputDataset):
         # construct waveform
         waveform = (self.get_value(L1AVariables.i_meas_ku_l1a_echo_sar_ku, index) +
                     1j * self.get_value(L1AVariables.q_meas_ku_l1a_echo_sar_ku, index)) / scale_factor
-        zcog = np.cos(self.get_value(L1AVariables.pitch_sat_pointing_l1a_echo_sar_ku, index)) *\
+        zcog = np.cos(radians(self.get_value(L1AVariables.pitch_sat_pointing_l1a_echo_sar_ku, index))) *\
                self.get_value(L1AVariables.cog_cor_l1a_echo_sar_ku, index)
         range = self.get_value(L1AVariables.range_ku_l1a_echo_sar_ku, index) + zcog
 
-- 
2.43.0


From c3a9640415243b5429ed7a19659692832ffadef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:23 +0000
Subject: [PATCH 23/40] fix: the satellite pointing angles of the L1B-S product
 are written in the declared degrees

---
 dedop/data/output/l1bs_writer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dedop/data/output/l1bs_writer.py b/dedop/data/output/l1bs_writer.py
index 5699eb3..8c02486 100644
--- a/dedop/data/output/l1bs_writer.py
+++ b/dedop/data/output/l1bs_writer.py
@@ -667,9 +667,9 @@ class L1BSWriter(NetCDFWriter):
             meas_x_pos_l1bs_echo_sar_ku=surface_location_data.x_surf,
             meas_y_pos_l1bs_echo_sar_ku=surface_location_data.y_surf,
             meas_z_pos_l1bs_echo_sar_ku=surface_location_data.z_surf,
-            roll_sat_pointing_l1bs_echo_sar_ku=surface_location_data.roll_sat,
-            pitch_sat_pointing_l1bs_echo_sar_ku=surface_location_data.pitch_sat,
-            yaw_sat_pointing_l1bs_echo_sar_ku=surface_location_data.yaw_sat,
+            roll_sat_pointing_l1bs_echo_sar_ku=degrees(surface_location_data.roll_sat),
+            pitch_sat_pointing_l1bs_echo_sar_ku=degrees(surface_location_data.pitch_sat),
+            yaw_sat_pointing_l1bs_echo_sar_ku=degrees(surface_location_data.yaw_sat),
             roll_sral_mispointing_l1bs_echo_sar_ku=closest_burst.roll_sral_mispointing,
             pitch_sral_mispointing_l1bs_echo_sar_ku=closest_burst.pitch_sral_mispointing,
             yaw_sral_mispointing_l1bs_echo_sar_ku=closest_burst.yaw_sral_mispointing,
-- 
2.43.0


From 84296e67aa4a875ee3c815d41762fbe151bf6322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:23 +0000
Subject: [PATCH 24/40] fix: the surface type of the L1B-S product is that of
 the closest burst, as in the L1B product

---
 dedop/data/output/l1bs_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/data/output/l1bs_writer.py b/dedop/data/output/l1bs_writer.py
index 8c02486..20f1209 100644
--- a/dedop/data/output/l1bs_writer.py
+++ b/dedop/data/output/l1bs_writer.py
@@ -654,7 +654,7 @@ class L1BSWriter(NetCDFWriter):
             UTC_sec_l1bs_echo_sar_ku=utc_secs,
             lat_l1bs_echo_sar_ku=degrees(surface_location_data.lat_surf),
             lon_l1bs_echo_sar_ku=degrees(surface_location_data.lon_surf),
-            surf_type_l1bs_echo_sar_ku=surface_location_data.surface_type.value,
+            surf_type_l1bs_echo_sar_ku=closest_burst.surf_type,
             records_count_l1bs_echo_sar_ku=surface_location_data.surface_counter,
             alt_l1bs_echo_sar_ku=surface_location_data.alt_sat,
             orb_alt_rate_l1bs_echo_sar_ku=surface_location_data.alt_rate_sat,
-- 
2.43.0


From 62840cb9342c986a5d36040084c0b1718d992e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:23 +0000
Subject: [PATCH 25/40] fix: the type of beam_form_l1bs_echo_sar_ku can hold
 its fill value

---
 dedop/data/output/l1bs_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/data/output/l1bs_writer.py b/dedop/data/output/l1bs_writer.py
index 20f1209..28d5b21 100644
--- a/dedop/data/output/l1bs_writer.py
+++ b/dedop/data/output/l1bs_writer.py
@@ -510,7 +510,7 @@ class L1BSWriter(NetCDFWriter):
         )
         self.define_variable(
             L1BSVariables.beam_form_l1bs_echo_sar_ku,
-            np.uint8,
+            np.uint16,
             (L1BSDimensions.time_l1bs_echo_sar_ku,),
             long_name="flag on beam formation quality in stack: l1bs_echo_sar_ku mode",
             scale_factor=1e-2,
-- 
2.43.0


From e6a0a68b2d21c9265b6d87b15e8198e1d451a6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:15 +0000
Subject: [PATCH 26/40] fix: restore the standard streams even if flushing the
 fetched ones fails

---
 dedop/util/fetchstd.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dedop/util/fetchstd.py b/dedop/util/fetchstd.py
index d61e939..b1437ce 100644
--- a/dedop/util/fetchstd.py
+++ b/dedop/util/fetchstd.py
@@ -32,8 +32,9 @@ def fetch_std_streams():
     try:
         yield sys.stdout, sys.stderr
     finally:
-        sys.stdout.flush()
-        sys.stderr.flush()
-
-        sys.stdout = old_stdout
-        sys.stderr = old_stderr
+        try:
+            sys.stdout.flush()
+            sys.stderr.flush()
+        finally:
+            sys.stdout = old_stdout
+            sys.stderr = old_stderr
-- 
2.43.0


From b5b2502f328241d1dc1ad9cceb5b10a490ef74f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:15 +0000
Subject: [PATCH 27/40] fix: console monitor divides by zero for tasks without
 work

---
 dedop/util/monitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/util/monitor.py b/dedop/util/monitor.py
index 15faecf..ef8057b 100644
--- a/dedop/util/monitor.py
+++ b/dedop/util/monitor.py
@@ -300,7 +300,7 @@ class ConsoleMonitor(Monitor):
 
     def _calc_percentage(self):
         return round(100. * self._worked / self._total_work) \
-            if self._worked is not None and self._total_work is not None else None
+            if self._worked is not None and self._total_work else None
 
     def cancel(self):
         self._cancelled = True
-- 
2.43.0


From 2167ef96503c274203e5a5a59858f33966eb6812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:15 +0000
Subject: [PATCH 28/40] fix: console monitor keeps the interrupt handler if
 reporting the start fails

---
 dedop/util/monitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/util/monitor.py b/dedop/util/monitor.py
index ef8057b..119ef0f 100644
--- a/dedop/util/monitor.py
+++ b/dedop/util/monitor.py
@@ -239,10 +239,10 @@ class ConsoleMonitor(Monitor):
         self._worked = 0.
         self._percentage = None
         self._total_work = total_work
-        self._old_ctrl_c_handler = signal.signal(signal.SIGINT, self._on_ctrl_c)
         # if self._stay_in_line:
         #    sys.stdout.write('\n')
         self._report_progress(msg='started')
+        self._old_ctrl_c_handler = signal.signal(signal.SIGINT, self._on_ctrl_c)
 
     def progress(self, work: float = None, msg: str = None):
         percentage = None
-- 
2.43.0


From fb85f42f1a1f05df0e1f3f518283e0ca3aec7927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:06 +0000
Subject: [PATCH 29/40] fix: output compare locates the second product by its
 own name, which defaults to the first

---
 dedop/cli/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedop/cli/main.py b/dedop/cli/main.py
index 93fb027..813608c 100644
--- a/dedop/cli/main.py
+++ b/dedop/cli/main.py
@@ -959,7 +959,8 @@ class ManageOutputsCommand(SubCommandCommand):
                 raise CommandError('First L1B product not found: %s' % l1b_path_1)
 
             l1b_filename_2 = command_args.l1b_filename_2
-            if os.path.dirname(l1b_filename_1):
+            l1b_filename_2 = l1b_filename_2 if l1b_filename_2 else l1b_filename_1
+            if os.path.dirname(l1b_filename_2):
                 l1b_path_2 = os.path.abspath(l1b_filename_2)
             else:
                 if not workspace_name_2:
-- 
2.43.0


From 57c51e2b609bdd98eee79c3069afac1d894f5076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:06 +0000
Subject: [PATCH 30/40] fix: create_workspace looks for the workspace it is
 asked to create

---
 dedop/cli/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/cli/main.py b/dedop/cli/main.py
index 813608c..c2b5600 100644
--- a/dedop/cli/main.py
+++ b/dedop/cli/main.py
@@ -349,7 +349,7 @@ class ManageWorkspacesCommand(SubCommandCommand):
 
     @classmethod
     def create_workspace(cls, workspace_name, exists_ok=False) -> str:
-        if exists_ok and _WORKSPACE_MANAGER.workspace_exists(_DEFAULT_WORKSPACE_NAME):
+        if exists_ok and _WORKSPACE_MANAGER.workspace_exists(workspace_name):
             return workspace_name
         _WORKSPACE_MANAGER.create_workspace(workspace_name)
         print('created workspace "%s"' % workspace_name)
-- 
2.43.0


From 43c54ba4401bc5f10b64b81ae17ea7680316d0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:06 +0000
Subject: [PATCH 31/40] fix: config upgrade reports a failure as command error

---
 dedop/cli/main.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/dedop/cli/main.py b/dedop/cli/main.py
index c2b5600..f4535be 100644
--- a/dedop/cli/main.py
+++ b/dedop/cli/main.py
@@ -604,13 +604,20 @@ class ManageConfigsCommand(SubCommandCommand):
         workspace_name, config_name = _get_workspace_and_config_name(command_args)
         if not workspace_name:
             raise CommandError('no current workspace, use option -w to name a WORKSPACE')
-        if _require_upgrade(workspace_name, config_name):
-            chd_version, cnf_version, cst_version = _WORKSPACE_MANAGER.upgrade_all_config(workspace_name, config_name)
-            print("Upgrade successful!")
-            print()
-            _print_config_versions(chd_version, cnf_version, cst_version)
-        else:
-            print("Current configurations are already up to date. No upgrade has been performed.")
+        if not config_name:
+            raise CommandError(
+                'no current configuration, use "dedop config add CONFIG" or "dedop config cur CONFIG"')
+        try:
+            if _require_upgrade(workspace_name, config_name):
+                chd_version, cnf_version, cst_version = _WORKSPACE_MANAGER.upgrade_all_config(workspace_name,
+                                                                                              config_name)
+                print("Upgrade successful!")
+                print()
+                _print_config_versions(chd_version, cnf_version, cst_version)
+            else:
+                print("Current configurations are already up to date. No upgrade has been performed.")
+        except WorkspaceError as error:
+            raise CommandError(error)
 
     @classmethod
     def execute_version(cls, command_args):
-- 
2.43.0


From a910f74b5fb9850a305c201c9bb75feeed24fb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:01 +0000
Subject: [PATCH 32/40] fix: web service keeps the current selection when
 another workspace or configuration is deleted

---
 dedop/webapi/websocket.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedop/webapi/websocket.py b/dedop/webapi/websocket.py
index e3596c9..b1f97c0 100644
--- a/dedop/webapi/websocket.py
+++ b/dedop/webapi/websocket.py
@@ -28,6 +28,8 @@ class WebSocketService:
 
     def delete_workspace(self, workspace_name) -> None:
         self.workspace_manager.delete_workspace(workspace_name)
+        if workspace_name != self.workspace_manager.get_current_workspace().name:
+            return
         all_workspaces = self.workspace_manager.get_workspace_names()
         if 'default' in all_workspaces:
             self.set_current_workspace('default')
@@ -72,6 +74,8 @@ class WebSocketService:
 
     def delete_config(self, workspace_name: str, config_name: str):
         self.workspace_manager.delete_config(workspace_name, config_name)
+        if config_name != self.workspace_manager.get_current_config_name(workspace_name):
+            return
         all_configs = self.workspace_manager.get_config_names(workspace_name)
         if 'default' in all_configs:
             self.set_current_config(workspace_name, 'default')
-- 
2.43.0


From 36315621cfb6f8d3e5678c028f193fb34bdd3a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:01 +0000
Subject: [PATCH 33/40] fix: a workspace renamed through the web service stays
 the current one

---
 dedop/webapi/websocket.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedop/webapi/websocket.py b/dedop/webapi/websocket.py
index b1f97c0..f6a64f7 100644
--- a/dedop/webapi/websocket.py
+++ b/dedop/webapi/websocket.py
@@ -44,6 +44,8 @@ class WebSocketService:
 
     def rename_workspace(self, workspace_name, new_workspace_name) -> dict:
         workspace = self.workspace_manager.rename_workspace(workspace_name, new_workspace_name)
+        if workspace_name == self.workspace_manager.get_current_workspace().name:
+            workspace = self.workspace_manager.set_current_workspace_name(new_workspace_name)
         return workspace.to_json_dict()
 
     def get_current_workspace(self) -> dict:
-- 
2.43.0


From 2484ceac0cd182ec7ff51eac29011d886363c77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:01 +0000
Subject: [PATCH 34/40] fix: web service closes the data file when reading it
 fails

---
 dedop/webapi/websocket.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/dedop/webapi/websocket.py b/dedop/webapi/websocket.py
index f6a64f7..0de5933 100644
--- a/dedop/webapi/websocket.py
+++ b/dedop/webapi/websocket.py
@@ -165,9 +165,11 @@ class WebSocketService:
     @staticmethod
     def get_lat_lon(input_file_path) -> dict:
         ds = Dataset(input_file_path)
-        latitude = ds['lat_l1a_echo_sar_ku'][:].tolist() if 'lat_l1a_echo_sar_ku' in ds.variables.keys() else []
-        longitude = ds['lon_l1a_echo_sar_ku'][:].tolist() if 'lon_l1a_echo_sar_ku' in ds.variables.keys() else []
-        ds.close()
+        try:
+            latitude = ds['lat_l1a_echo_sar_ku'][:].tolist() if 'lat_l1a_echo_sar_ku' in ds.variables.keys() else []
+            longitude = ds['lon_l1a_echo_sar_ku'][:].tolist() if 'lon_l1a_echo_sar_ku' in ds.variables.keys() else []
+        finally:
+            ds.close()
         return {
             "lat": latitude,
             "lon": longitude
@@ -176,9 +178,11 @@ class WebSocketService:
     @staticmethod
     def get_max_min_coordinates(input_file_path) -> dict:
         ds = Dataset(input_file_path)
-        latitude = ds['lat_l1a_echo_sar_ku'][:].tolist() if 'lat_l1a_echo_sar_ku' in ds.variables.keys() else []
-        longitude = ds['lon_l1a_echo_sar_ku'][:].tolist() if 'lon_l1a_echo_sar_ku' in ds.variables.keys() else []
-        ds.close()
+        try:
+            latitude = ds['lat_l1a_echo_sar_ku'][:].tolist() if 'lat_l1a_echo_sar_ku' in ds.variables.keys() else []
+            longitude = ds['lon_l1a_echo_sar_ku'][:].tolist() if 'lon_l1a_echo_sar_ku' in ds.variables.keys() else []
+        finally:
+            ds.close()
         return {
             "lat": [latitude[0], latitude[-1]],
             "lon": [longitude[0], longitude[-1]]
@@ -187,6 +191,8 @@ class WebSocketService:
     @staticmethod
     def get_global_attributes(input_file_path) -> dict:
         ds = Dataset(input_file_path)
-        global_attributes = ds.__dict__
-        ds.close()
+        try:
+            global_attributes = ds.__dict__
+        finally:
+            ds.close()
         return global_attributes
-- 
2.43.0


From 175c4b28c23d966f52e503397f5705b9d1643062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:16 +0000
Subject: [PATCH 35/40] fix: image plots show the requested variable instead of
 the waveform

---
 dedop/ui/inspect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index 97a6f6a..7c288ae 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -374,7 +374,7 @@ class L1bProductInspectorPlots:
         zmin = zmin if zmin else var_data.min()
         zmax = zmax if zmax else var_data.max()
         plt.figure(figsize=(10, 10))
-        plt.imshow(self._inspector.waveform, interpolation='nearest', aspect='auto', vmin=zmin, vmax=zmax, cmap=cmap)
+        plt.imshow(var_data, interpolation='nearest', aspect='auto', vmin=zmin, vmax=zmax, cmap=cmap)
         # TODO (forman, 20160709): show labels in units of dimension variables
         plt.xlabel('%s (index)' % var.dimensions[1])
         plt.ylabel('%s (index)' % var.dimensions[0])
@@ -587,7 +587,7 @@ class L1bProductInspectorPlots:
             # fig.axes.remove(ax2)
             ax2.remove()
 
-        im = ax3.imshow(self._inspector.waveform, interpolation='nearest', aspect='auto',
+        im = ax3.imshow(var_data, interpolation='nearest', aspect='auto',
                         vmin=zmin, vmax=zmax, cmap=cmap)
         if has_xind:
             ax3.axvline(x=xind)
-- 
2.43.0


From 226a09e3256f3c11dcd47373f7c5b0e3e2d4a251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:16 +0000
Subject: [PATCH 36/40] fix: image plots use the requested lower and upper
 limits

---
 dedop/ui/inspect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index 7c288ae..8d34a11 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -355,7 +355,7 @@ class L1bProductInspectorPlots:
                         name_options.extend(var_names)
                 name_options = sorted(name_options)
                 # TODO (forman, 20160709): add sliders for zmin, zmax
-                interact(self._plot_im, z_name=name_options, zmin=fixed(zmax), zmax=fixed(zmax), cmap=fixed(cmap))
+                interact(self._plot_im, z_name=name_options, zmin=fixed(zmin), zmax=fixed(zmax), cmap=fixed(cmap))
             else:
                 raise ValueError('name must be given')
         else:
@@ -532,11 +532,11 @@ class L1bProductInspectorPlots:
                 # TODO (forman, 20160709): add sliders for zmin, zmax
                 interact(self._plot_im_line, z_name=widget_var,
                          xind=widget_xind, yind=widget_yind,
-                         zmin=fixed(zmax), zmax=fixed(zmax), cmap=fixed(cmap))
+                         zmin=fixed(zmin), zmax=fixed(zmax), cmap=fixed(cmap))
         else:
             if not z:
                 raise ValueError('z_name must be given')
-            self._plot_im_line(z, zmin=zmin, zmax=zmin, xind=xind, yind=yind, cmap=cmap)
+            self._plot_im_line(z, zmin=zmin, zmax=zmax, xind=xind, yind=yind, cmap=cmap)
 
     def _plot_im_line(self, z_name, zmin=None, zmax=None, xind=None, yind=None, cmap='jet'):
         assert z_name
-- 
2.43.0


From 90e7534cdd162a38cf8d28b88b68fce165eb6d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:16 +0000
Subject: [PATCH 37/40] fix: a plot limit of zero is a limit, not a missing one

---
 dedop/ui/compare.py | 20 ++++++++++----------
 dedop/ui/inspect.py | 16 ++++++++--------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/dedop/ui/compare.py b/dedop/ui/compare.py
index 4e92a34..30fb38d 100644
--- a/dedop/ui/compare.py
+++ b/dedop/ui/compare.py
@@ -201,8 +201,8 @@ class L1bProductComparatorPlots:
             print('warning: cannot save locations figure with output format "%s"' % self._figure_writer.output_format)
 
     def waveforms_delta_im(self, vmin=None, vmax=None, cmap='RdBu_r'):
-        vmin = vmin if vmin else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
         plt.figure(figsize=(10, 10))
         plt.imshow(self._comparator.waveforms_delta, interpolation='nearest', aspect='auto', vmin=vmin, vmax=vmax,
                    cmap=cmap)
@@ -227,8 +227,8 @@ class L1bProductComparatorPlots:
         :param color2: Color of the second histogram
         :param alpha: Alpha value for histograms
         """
-        vmin = vmin if vmin else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         plt.figure(figsize=(12, 6))
@@ -267,8 +267,8 @@ class L1bProductComparatorPlots:
         :param bins: Number of bins
         :param log: Show logarithms of bin counts
         """
-        vmin = vmin if vmin else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         plt.figure(figsize=(12, 6))
@@ -290,8 +290,8 @@ class L1bProductComparatorPlots:
             self.savefig("fig-waveforms_delta-hist.png")
 
     def waveforms_scatter(self, vmin=None, vmax=None):
-        vmin = vmin if vmin else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         x = self._comparator.p1.waveform
@@ -310,8 +310,8 @@ class L1bProductComparatorPlots:
             self.savefig("fig-waveforms-scatter.png")
 
     def waveforms_hexbin(self, vmin=None, vmax=None, cmap='Blues', log=True):
-        vmin = vmin if vmin else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         x = self._comparator.p1.waveform.flatten()
diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index 8d34a11..cf5d4bb 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -210,8 +210,8 @@ class L1bProductInspectorPlots:
             print('warning: cannot save locations figure with output format "%s"' % self._figure_writer.output_format)
 
     def waveform_im(self, vmin=None, vmax=None, cmap='jet'):
-        vmin = vmin if vmin else self._inspector.waveform_range[0]
-        vmax = vmax if vmax else self._inspector.waveform_range[1]
+        vmin = vmin if vmin is not None else self._inspector.waveform_range[0]
+        vmax = vmax if vmax is not None else self._inspector.waveform_range[1]
         plt.figure(figsize=(10, 10))
         plt.imshow(self._inspector.waveform, interpolation='nearest', aspect='auto', vmin=vmin, vmax=vmax, cmap=cmap)
         plt.xlabel('Echo Sample Index')
@@ -294,8 +294,8 @@ class L1bProductInspectorPlots:
         :param log: Show logarithms of bin counts
         :param color: Color of the histogram bars, e.g. 'green'
         """
-        vmin = vmin if vmin else self._inspector.waveform_range[0]
-        vmax = vmax if vmax else self._inspector.waveform_range[1]
+        vmin = vmin if vmin is not None else self._inspector.waveform_range[0]
+        vmax = vmax if vmax is not None else self._inspector.waveform_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         plt.figure(figsize=(12, 6))
@@ -371,8 +371,8 @@ class L1bProductInspectorPlots:
             return
         var_data = var[:]
 
-        zmin = zmin if zmin else var_data.min()
-        zmax = zmax if zmax else var_data.max()
+        zmin = zmin if zmin is not None else var_data.min()
+        zmax = zmax if zmax is not None else var_data.max()
         plt.figure(figsize=(10, 10))
         plt.imshow(var_data, interpolation='nearest', aspect='auto', vmin=zmin, vmax=zmax, cmap=cmap)
         # TODO (forman, 20160709): show labels in units of dimension variables
@@ -550,8 +550,8 @@ class L1bProductInspectorPlots:
 
         var_data = z_var[:]
 
-        zmin = zmin if zmin else var_data.min()
-        zmax = zmax if zmax else var_data.max()
+        zmin = zmin if zmin is not None else var_data.min()
+        zmax = zmax if zmax is not None else var_data.max()
 
         x_title = '%s (index)' % z_var.dimensions[1]
         y_title = '%s (index)' % z_var.dimensions[0]
-- 
2.43.0


From ff984a3930f633d0bc92d31f7e45ceee0910f179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:12 +0000
Subject: [PATCH 38/40] fix: a failed block read left the reader with a mixture
 of two blocks under the number of the old one

---
 dedop/data/input/netcdf_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedop/data/input/netcdf_reader.py b/dedop/data/input/netcdf_reader.py
index c566725..c44eada 100644
--- a/dedop/data/input/netcdf_reader.py
+++ b/dedop/data/input/netcdf_reader.py
@@ -58,6 +58,8 @@ class NetCDFReader:
         """
         read a new chunk & replace the existing one
         """
+        # neither the old nor the new chunk is usable while (or after) reading fails
+        self.chunk_index = None
         chunk_end = chunk_start + self.chunk_size
 
         for varname in self.variables:
-- 
2.43.0


From da5392bf04f06750fc4d4cdb42ec48af2d2d8282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:30 +0000
Subject: [PATCH 39/40] fix: line endings of azimuth_processing.py as they were

---
 .../proc/sar/algorithms/azimuth_processing.py | 460 +++++++++---------
 1 file changed, 230 insertions(+), 230 deletions(-)

diff --git a/dedop/proc/sar/algorithms/azimuth_processing.py b/dedop/proc/sar/algorithms/azimuth_processing.py
index ba2adc0..c2bfd0e 100644
--- a/dedop/proc/sar/algorithms/azimuth_processing.py
+++ b/dedop/proc/sar/algorithms/azimuth_processing.py
@@ -1,230 +1,230 @@
-from math import cos
-import numpy as np
-from dedop.conf import CharacterisationFile, ConstantsFile, ConfigurationFile
-from dedop.conf.enums import AzimuthWindowingMethod, AzimuthProcessingMethod
-from dedop.model import L1AProcessingData
-from dedop.util.parameter import Parameter
-from numpy.linalg import norm
-
-from ..base_algorithm import BaseAlgorithm
-
-
-@Parameter('flag_azimuth_processing_method', data_type=AzimuthProcessingMethod)
-class AzimuthProcessingAlgorithm(BaseAlgorithm):
-    """
-    class for performing the Azimuth Processing Algorithm
-    """
-    def __init__(self, chd: CharacterisationFile, cst: ConstantsFile, cnf: ConfigurationFile):
-        super().__init__(chd, cst, cnf)
-
-        self.beams_focused = None
-
-    def __call__(self, packet: L1AProcessingData, wavelength_ku: float) -> None:
-        """
-        Executes the azimuth processing algorithm
-
-        :param packet: The L1AProcessingData instance
-        :param wavelength_ku: The signal wavelength
-        """
-        self.beams_focused = np.empty(
-            packet.waveform_cor_sar.shape,
-            dtype=np.complex128
-        )
-
-        window = self.construct_azimuth_window(
-            self.cnf.flag_azimuth_windowing_method,
-            width=self.cnf.azimuth_window_width
-        )
-        windowed_wfm = packet.waveform_cor_sar * window[:, np.newaxis]
-
-        # azimuth processing with approx. method
-        if self.cnf.flag_azimuth_processing_method == AzimuthProcessingMethod.approximate:
-            self.compute_approximate_method(packet, windowed_wfm, wavelength_ku)
-        # azimuth processing with exact method
-        elif self.cnf.flag_azimuth_processing_method == AzimuthProcessingMethod.exact:
-            self.compute_exact_method(packet, windowed_wfm, wavelength_ku)
-        else:
-            raise ValueError("unknown azimuth processing method: {}".format(self.cnf.flag_azimuth_processing_method))
-
-    def construct_azimuth_window(self, window_shape: AzimuthWindowingMethod, width: int=64):
-        window = np.zeros((self.chd.n_ku_pulses_burst,), dtype=np.float64)
-
-        centre = self.chd.n_ku_pulses_burst // 2
-
-        start = centre - (width // 2)
-        end = start + width
-
-        if window_shape == AzimuthWindowingMethod.disabled:
-            window[:] = 1.
-        elif window_shape == AzimuthWindowingMethod.boxcar:
-            window[start:end] = 1.
-        elif window_shape == AzimuthWindowingMethod.hamming:
-            n = np.arange(width)
-            window[start:end] = .54 - .46 * np.cos((2. * self.cst.pi * n) / (width - 1))
-        elif window_shape == AzimuthWindowingMethod.hanning:
-            n = np.arange(width)
-            window[start:end] = .5 - .5 * np.cos((2. * self.cst.pi * n) / (width - 1))
-        else:
-            raise NotImplementedError(
-                "Unsupported Azimuth Windowing Method: {}".format(window_shape)
-            )
-
-        return window
-
-    def compute_approximate_method(self, packet: L1AProcessingData, windowed_wfm: np.ndarray,
-                                   wavelength_ku: float) -> None:
-        """
-        Azimuth processing approximate method
-
-        the azimuth processing is done only once, using the beam
-        angle phase of the beam pointing to the nadir (considered
-        the central beam)
-
-        :param packet: L1AProcessingData instance
-        :param windowed_wfm: the input waveform with windowing applied
-        :param wavelength_ku: signal wavelength
-        """
-        # find the nadir beam angle
-        nadir_beam_angle = self.get_nadir_beam_angle(packet)
-
-        # use the nadir beam angle to compute the phase shift
-        wfm_phase_shift = self.compute_phase_shift(
-            packet, windowed_wfm, nadir_beam_angle, wavelength_ku
-        )
-        # compute the azimuth FFTs
-        wfm_fft_azimuth = self.compute_fft_azimuth_dimension(
-            wfm_phase_shift
-        )
-
-        # the result is the focused beams. If the list of beam angles
-        # is increasing in size, then the useful first beams are in the
-        # output of the waveform_fft_azimuth (because the first part of the
-        # waveform_fft_azimuth beams point to surfaces that are before the
-        # first surface). This way we will always have the beams in the same
-        # position as the corresponding beam angle in the beam angle/surfaces
-        # seen lists.
-        if packet.beam_angles_trend == 1:
-            beams_offset = self.chd.n_ku_pulses_burst -\
-                           len(packet.beam_angles_list)
-        else:
-            beams_offset = 0
-        copy_end = self.chd.n_ku_pulses_burst - beams_offset
-        self.beams_focused[:copy_end, :] = wfm_fft_azimuth[beams_offset:, :]
-
-    def compute_exact_method(self, packet: L1AProcessingData, windowed_wfm: np.ndarray, wavelength_ku: float) -> None:
-        """
-        Azimuth processing exact method
-
-        The azimuth processing is performed for each surface seen,
-        and the beam angle at each surface is used to compute the phase
-        shift. The central beam of the result of the FFT is used, and
-        placed in the array position corresponding to the beam angle
-        from which it was computed.
-
-        :param packet: L1AProcessingData
-        :param windowed_wfm: the input waveform with windowing applied
-        :param wavelength_ku: signal wavelength
-        """
-        for beam_index, beam_angle_value in enumerate(packet.beam_angles_list):
-            # calculate the shape shift based upon the current
-            # beam angle
-            wfm_phase_shift = self.compute_phase_shift(
-                packet, windowed_wfm, beam_angle_value, wavelength_ku
-            )
-            # calculate the FFT of the current beam
-            wfm_fft_azimuth = self.compute_fft_azimuth_dimension(
-                wfm_phase_shift
-            )
-            # insert the central beam of the result into the same
-            # position as the beam angle in the beam angle/surface seen
-            # lists (this way the beams can be easily matched to surfaces)
-            self.beams_focused[beam_index, :] =\
-                wfm_fft_azimuth[self.chd.n_ku_pulses_burst // 2, :]
-
-    def compute_phase_shift(self, packet: L1AProcessingData, windowed_wfm: np.ndarray, beam_angle: float,
-                            wavelength_ku: float) -> np.ndarray:
-        """
-        For each pulse of the burst, a phase (based on the given beam
-        angle value) is applied to the waveform
-
-        :param packet: the current L1AProcessingData
-        :param windowed_wfm: the input waveform with windowing applied
-        :param beam_angle: the input beam angle
-        :param wavelength_ku: the signal wavelength
-
-        :return waveform_phase_shift: the phase shifted waveform
-        """
-        # create empty output array
-        waveform_phase_shift = np.empty(
-            windowed_wfm.shape,
-            dtype=np.complex128
-        )
-
-        for pulse_index in range(self.chd.n_ku_pulses_burst):
-            beam_angle_phase = np.exp(-2j * 2. * self.cst.pi / wavelength_ku *
-                                      norm(packet.vel_sat_sar) * cos(beam_angle) *
-                                      packet.pri_sar_pre_dat * pulse_index)
-            waveform_phase_shift[pulse_index, :] = \
-                beam_angle_phase * windowed_wfm[pulse_index, :]
-
-        return waveform_phase_shift
-
-    def compute_fft_azimuth_dimension(self, waveform_phase_shift: np.ndarray) -> np.ndarray:
-        """
-        :param waveform_phase_shift: the phase shifted waveform to transform
-
-        :return waveform_fft_azimuth: The shifted FFT along the azimuth direction
-        """
-        # compute the FFT along the azimuth dimension,
-        # and apply orthogonal normalization to the result
-        out_fft = np.fft.fft(
-            waveform_phase_shift,
-            axis=0, norm='ortho'
-        )
-        # return the shifted FFT values
-        return np.fft.fftshift(
-            out_fft, axes=0
-        )
-
-    def get_nadir_beam_angle(self, packet: L1AProcessingData) -> float:
-        """
-        :param packet: The L1AProcessingData to be processed
-
-        :return: nadir_beam_angle
-        """
-        beam_angles_list_size = len(packet.beam_angles_list)
-        half_pulses = self.chd.n_ku_pulses_burst // 2
-
-        # if the beam angles list is not full (64), and the trend indicates
-        # that the size is increasing, the nadir beam is first of the last 'half_pulses'
-        # (or the first if are less than 'half_pulses' elements
-        if packet.beam_angles_trend == 1:
-            # if there aren't enough elements, pick the first one
-            if beam_angles_list_size < half_pulses:
-                nadir_beam_index = 0
-            # otherwise, get first of the last 'half_pulses'
-            else:
-                nadir_beam_index = -half_pulses
-
-        # if the mbeam angles list is not full (64), and the trend indicates
-        # that the size is decreasing, the nadir beam is the 33rd (or the last
-        # if there are less than 33 elements)
-        elif packet.beam_angles_trend == -1:
-            # if there aren't enough elements, pick the last one
-            if beam_angles_list_size <= half_pulses:
-                nadir_beam_index = -1
-            # otherwise, get the last of the first 'half_pulses'
-            else:
-                nadir_beam_index = half_pulses
-        # if the beam angles list is full, the nadir beam is the 33rd one
-        elif packet.beam_angles_trend == 0:
-            nadir_beam_index = half_pulses
-        # check for invalid trend directions
-        else:
-            raise Exception(
-                "Beam Angle Trend must be in {-1, 0, 1}"
-            )
-
-        # after the index has been selected, get the corresponding beam angle
-        nadir_beam_angle = packet.beam_angles_list[nadir_beam_index]
-        return nadir_beam_angle
+from math import cos
+import numpy as np
+from dedop.conf import CharacterisationFile, ConstantsFile, ConfigurationFile
+from dedop.conf.enums import AzimuthWindowingMethod, AzimuthProcessingMethod
+from dedop.model import L1AProcessingData
+from dedop.util.parameter import Parameter
+from numpy.linalg import norm
+
+from ..base_algorithm import BaseAlgorithm
+
+
+@Parameter('flag_azimuth_processing_method', data_type=AzimuthProcessingMethod)
+class AzimuthProcessingAlgorithm(BaseAlgorithm):
+    """
+    class for performing the Azimuth Processing Algorithm
+    """
+    def __init__(self, chd: CharacterisationFile, cst: ConstantsFile, cnf: ConfigurationFile):
+        super().__init__(chd, cst, cnf)
+
+        self.beams_focused = None
+
+    def __call__(self, packet: L1AProcessingData, wavelength_ku: float) -> None:
+        """
+        Executes the azimuth processing algorithm
+
+        :param packet: The L1AProcessingData instance
+        :param wavelength_ku: The signal wavelength
+        """
+        self.beams_focused = np.empty(
+            packet.waveform_cor_sar.shape,
+            dtype=np.complex128
+        )
+
+        window = self.construct_azimuth_window(
+            self.cnf.flag_azimuth_windowing_method,
+            width=self.cnf.azimuth_window_width
+        )
+        windowed_wfm = packet.waveform_cor_sar * window[:, np.newaxis]
+
+        # azimuth processing with approx. method
+        if self.cnf.flag_azimuth_processing_method == AzimuthProcessingMethod.approximate:
+            self.compute_approximate_method(packet, windowed_wfm, wavelength_ku)
+        # azimuth processing with exact method
+        elif self.cnf.flag_azimuth_processing_method == AzimuthProcessingMethod.exact:
+            self.compute_exact_method(packet, windowed_wfm, wavelength_ku)
+        else:
+            raise ValueError("unknown azimuth processing method: {}".format(self.cnf.flag_azimuth_processing_method))
+
+    def construct_azimuth_window(self, window_shape: AzimuthWindowingMethod, width: int=64):
+        window = np.zeros((self.chd.n_ku_pulses_burst,), dtype=np.float64)
+
+        centre = self.chd.n_ku_pulses_burst // 2
+
+        start = centre - (width // 2)
+        end = start + width
+
+        if window_shape == AzimuthWindowingMethod.disabled:
+            window[:] = 1.
+        elif window_shape == AzimuthWindowingMethod.boxcar:
+            window[start:end] = 1.
+        elif window_shape == AzimuthWindowingMethod.hamming:
+            n = np.arange(width)
+            window[start:end] = .54 - .46 * np.cos((2. * self.cst.pi * n) / (width - 1))
+        elif window_shape == AzimuthWindowingMethod.hanning:
+            n = np.arange(width)
+            window[start:end] = .5 - .5 * np.cos((2. * self.cst.pi * n) / (width - 1))
+        else:
+            raise NotImplementedError(
+                "Unsupported Azimuth Windowing Method: {}".format(window_shape)
+            )
+
+        return window
+
+    def compute_approximate_method(self, packet: L1AProcessingData, windowed_wfm: np.ndarray,
+                                   wavelength_ku: float) -> None:
+        """
+        Azimuth processing approximate method
+
+        the azimuth processing is done only once, using the beam
+        angle phase of the beam pointing to the nadir (considered
+        the central beam)
+
+        :param packet: L1AProcessingData instance
+        :param windowed_wfm: the input waveform with windowing applied
+        :param wavelength_ku: signal wavelength
+        """
+        # find the nadir beam angle
+        nadir_beam_angle = self.get_nadir_beam_angle(packet)
+
+        # use the nadir beam angle to compute the phase shift
+        wfm_phase_shift = self.compute_phase_shift(
+            packet, windowed_wfm, nadir_beam_angle, wavelength_ku
+        )
+        # compute the azimuth FFTs
+        wfm_fft_azimuth = self.compute_fft_azimuth_dimension(
+            wfm_phase_shift
+        )
+
+        # the result is the focused beams. If the list of beam angles
+        # is increasing in size, then the useful first beams are in the
+        # output of the waveform_fft_azimuth (because the first part of the
+        # waveform_fft_azimuth beams point to surfaces that are before the
+        # first surface). This way we will always have the beams in the same
+        # position as the corresponding beam angle in the beam angle/surfaces
+        # seen lists.
+        if packet.beam_angles_trend == 1:
+            beams_offset = self.chd.n_ku_pulses_burst -\
+                           len(packet.beam_angles_list)
+        else:
+            beams_offset = 0
+        copy_end = self.chd.n_ku_pulses_burst - beams_offset
+        self.beams_focused[:copy_end, :] = wfm_fft_azimuth[beams_offset:, :]
+
+    def compute_exact_method(self, packet: L1AProcessingData, windowed_wfm: np.ndarray, wavelength_ku: float) -> None:
+        """
+        Azimuth processing exact method
+
+        The azimuth processing is performed for each surface seen,
+        and the beam angle at each surface is used to compute the phase
+        shift. The central beam of the result of the FFT is used, and
+        placed in the array position corresponding to the beam angle
+        from which it was computed.
+
+        :param packet: L1AProcessingData
+        :param windowed_wfm: the input waveform with windowing applied
+        :param wavelength_ku: signal wavelength
+        """
+        for beam_index, beam_angle_value in enumerate(packet.beam_angles_list):
+            # calculate the shape shift based upon the current
+            # beam angle
+            wfm_phase_shift = self.compute_phase_shift(
+                packet, windowed_wfm, beam_angle_value, wavelength_ku
+            )
+            # calculate the FFT of the current beam
+            wfm_fft_azimuth = self.compute_fft_azimuth_dimension(
+                wfm_phase_shift
+            )
+            # insert the central beam of the result into the same
+            # position as the beam angle in the beam angle/surface seen
+            # lists (this way the beams can be easily matched to surfaces)
+            self.beams_focused[beam_index, :] =\
+                wfm_fft_azimuth[self.chd.n_ku_pulses_burst // 2, :]
+
+    def compute_phase_shift(self, packet: L1AProcessingData, windowed_wfm: np.ndarray, beam_angle: float,
+                            wavelength_ku: float) -> np.ndarray:
+        """
+        For each pulse of the burst, a phase (based on the given beam
+        angle value) is applied to the waveform
+
+        :param packet: the current L1AProcessingData
+        :param windowed_wfm: the input waveform with windowing applied
+        :param beam_angle: the input beam angle
+        :param wavelength_ku: the signal wavelength
+
+        :return waveform_phase_shift: the phase shifted waveform
+        """
+        # create empty output array
+        waveform_phase_shift = np.empty(
+            windowed_wfm.shape,
+            dtype=np.complex128
+        )
+
+        for pulse_index in range(self.chd.n_ku_pulses_burst):
+            beam_angle_phase = np.exp(-2j * 2. * self.cst.pi / wavelength_ku *
+                                      norm(packet.vel_sat_sar) * cos(beam_angle) *
+                                      packet.pri_sar_pre_dat * pulse_index)
+            waveform_phase_shift[pulse_index, :] = \
+                beam_angle_phase * windowed_wfm[pulse_index, :]
+
+        return waveform_phase_shift
+
+    def compute_fft_azimuth_dimension(self, waveform_phase_shift: np.ndarray) -> np.ndarray:
+        """
+        :param waveform_phase_shift: the phase shifted waveform to transform
+
+        :return waveform_fft_azimuth: The shifted FFT along the azimuth direction
+        """
+        # compute the FFT along the azimuth dimension,
+        # and apply orthogonal normalization to the result
+        out_fft = np.fft.fft(
+            waveform_phase_shift,
+            axis=0, norm='ortho'
+        )
+        # return the shifted FFT values
+        return np.fft.fftshift(
+            out_fft, axes=0
+        )
+
+    def get_nadir_beam_angle(self, packet: L1AProcessingData) -> float:
+        """
+        :param packet: The L1AProcessingData to be processed
+
+        :return: nadir_beam_angle
+        """
+        beam_angles_list_size = len(packet.beam_angles_list)
+        half_pulses = self.chd.n_ku_pulses_burst // 2
+
+        # if the beam angles list is not full (64), and the trend indicates
+        # that the size is increasing, the nadir beam is first of the last 'half_pulses'
+        # (or the first if are less than 'half_pulses' elements
+        if packet.beam_angles_trend == 1:
+            # if there aren't enough elements, pick the first one
+            if beam_angles_list_size < half_pulses:
+                nadir_beam_index = 0
+            # otherwise, get first of the last 'half_pulses'
+            else:
+                nadir_beam_index = -half_pulses
+
+        # if the mbeam angles list is not full (64), and the trend indicates
+        # that the size is decreasing, the nadir beam is the 33rd (or the last
+        # if there are less than 33 elements)
+        elif packet.beam_angles_trend == -1:
+            # if there aren't enough elements, pick the last one
+            if beam_angles_list_size <= half_pulses:
+                nadir_beam_index = -1
+            # otherwise, get the last of the first 'half_pulses'
+            else:
+                nadir_beam_index = half_pulses
+        # if the beam angles list is full, the nadir beam is the 33rd one
+        elif packet.beam_angles_trend == 0:
+            nadir_beam_index = half_pulses
+        # check for invalid trend directions
+        else:
+            raise Exception(
+                "Beam Angle Trend must be in {-1, 0, 1}"
+            )
+
+        # after the index has been selected, get the corresponding beam angle
+        nadir_beam_angle = packet.beam_angles_list[nadir_beam_index]
+        return nadir_beam_angle
-- 
2.43.0


From 35f44825953b2ec3e1d467f03b639b2ddbca689a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:51 +0000
Subject: [PATCH 40/40] fix: an image with fixed row and column was not shown
 in a notebook

---
 dedop/ui/inspect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index cf5d4bb..e830ccf 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -533,6 +533,8 @@ class L1bProductInspectorPlots:
                 interact(self._plot_im_line, z_name=widget_var,
                          xind=widget_xind, yind=widget_yind,
                          zmin=fixed(zmin), zmax=fixed(zmax), cmap=fixed(cmap))
+            else:
+                self._plot_im_line(z, zmin=zmin, zmax=zmax, xind=xind, yind=yind, cmap=cmap)
         else:
             if not z:
                 raise ValueError('z_name must be given')
-- 
2.43.0

