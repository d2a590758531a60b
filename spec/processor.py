"""Reference: the processing run (C01, C02, C04, C05, C09, C13, C18)."""
import datetime
import os
import time
from netCDF4 import getlibversion
from dedop.conf.enums import OutputFormat
from dedop.data.input.l1a import L1ADataset
from dedop.data.output import L1BSWriter, L1BWriter, L1BWriterExtended
from dedop.model.exception import ProcessorException
from dedop.util.monitor import Monitor
from dedop.util.time import iso_format
from dedop.version import __version__


@spec('dedop/proc/sar/processor.py:L1BProcessor.process', props='C04 C18 C02', opaque='_process', onraise=True)
def process(self, l1a_file, monitor=Monitor.NULL):
    self.l1b_file = None
    self.l1bs_file = None
    self.l1a_file = L1ADataset(l1a_file, chd=self.chd, cst=self.cst, cnf=self.cnf)
    try:
        with monitor.starting('processing', total_work=len(self.l1a_file)):
            try:
                status = self._process(l1a_file, monitor)
            finally:
                gap = self._gap_monitor
                self._gap_monitor = None
                if gap is not None:
                    gap.done()
    finally:
        try:
            if self.l1b_file is not None:
                self.l1b_file.close()
        finally:
            try:
                if self.l1bs_file is not None:
                    self.l1bs_file.close()
            finally:
                self.l1a_file.close()
    return status


@spec('dedop/proc/sar/processor.py:L1BProcessor._process', props='C01 C02 C04 C05 C09 C18',
      opaque='surface_locations beam_angles azimuth_processing stack_gathering geometry_corrections range_compression '
             'stack_masking multilooking sigma_zero_scaling clear_old_records cal1_algorithm cal2_algorithm',
      focus={'C01': 'cal1_algorithm cal2_algorithm surface_locations next',
             'C02': 'beam_angles_list_size_prev beam_angles_trend_prev surfaces_count _surfaces _packets focus_found '
                    'surface_locations_algorithm',
             'C04': 'open close write_globals write_record l1b_file l1bs_file skip_l1bs L1BWriter L1BSWriter '
                    'L1BWriterExtended out_path name output_format read_globals cst first_time last_time',
             'C05': 'surface_locations beam_angles azimuth_processing stack_gathering geometry_corrections '
                    'range_compression stack_masking multilooking sigma_zero_scaling clear_old_records write_record '
                    'burst_processed work_location_seen n_looks_stack data_stack_size min_surfs _surfaces _packets',
             'C09': 'next surface_locations time_sar_ku gap_threshold _surfaces',
             'C18': 'is_cancelled progress child start done _gap_monitor'})
def run(self, l1a_file, monitor):
    status = -1
    self.beam_angles_list_size_prev = -1
    self.beam_angles_trend_prev = -1
    self.surfaces_count = 0
    self._surfaces = []
    self._packets = []
    self.surface_locations_algorithm.focus_found = False

    base = os.path.splitext(os.path.basename(l1a_file))[0]
    if base.startswith('L1A'):
        base = base[3:]
    tail = ('_%s' % base if base else '') + ('_%s' % self.name if self.name else '') + '.nc'
    writer = L1BWriter if self.cnf.output_format == OutputFormat.s3 else L1BWriterExtended
    self.l1b_file = writer(filename=os.path.join(self.out_path, 'L1B' + tail), chd=self.chd, cnf=self.cnf, cst=self.cst)
    if self.skip_l1bs:
        self.l1bs_file = None
    else:
        self.l1bs_file = L1BSWriter(filename=os.path.join(self.out_path, 'L1BS' + tail), chd=self.chd, cnf=self.cnf,
                                    cst=self.cst)
    self.l1b_file.open()
    if self.l1bs_file is not None:
        self.l1bs_file.open()

    previous = None       # time of the previous burst of this segment
    started = False       # surfaces are being processed
    draining = False      # in a gap: process what is there before reading on
    resume = False        # the burst after the gap has been read already
    running = True
    while running:
        if monitor.is_cancelled():
            running = False
        if not draining:
            if not resume:
                try:
                    burst = next(self.l1a_file)
                except StopIteration:
                    burst = None
                    if not started:
                        raise ProcessorException("insufficient input records")
                else:
                    monitor.progress(1)
                    if burst is None:
                        continue
                    self.cal1_algorithm(burst)
                    self.cal2_algorithm(burst)
            if burst is not None:
                if previous is not None and burst.time_sar_ku - previous >= self.gap_threshold:
                    draining = True
                    previous = None
                    self._gap_monitor = monitor.child(1)
                    self._gap_monitor.start("processing gap", len(self._surfaces))
                else:
                    previous = burst.time_sar_ku
                    new = self.surface_locations(burst, force_new=resume)
                    resume = False
                    if new is None:
                        continue
        elif self._gap_monitor is not None:
            self._gap_monitor.progress(1, len(self._surfaces))

        if started or len(self._surfaces) >= self.min_surfs or draining:
            started = True
            work = self._surfaces[0]
            for b in self._packets:
                if not b.burst_processed:
                    self.beam_angles(self._surfaces, b, work)
                    self.azimuth_processing(b)
                    b.burst_processed = True
                    if not self.beam_angles_algorithm.work_location_seen:
                        break
            self.stack_gathering(work)
            if work.data_stack_size < self.cnf.n_looks_stack // 2:
                del self._surfaces[0]
            else:
                self.geometry_corrections(work)
                self.range_compression(work)
                self.stack_masking(work)
                self.multilooking(work)
                self.sigma_zero_scaling(work)
                if self.l1b_file is not None:
                    self.l1b_file.write_record(work)
                if self.l1bs_file is not None:
                    self.l1bs_file.write_record(work)
                self.clear_old_records(work)

        if not self._surfaces:
            if draining:
                draining = False
                resume = True
                started = False
                gap = self._gap_monitor
                self._gap_monitor = None
                if gap is not None:
                    gap.done()
            else:
                running = False
                status = None

    g = self.l1a_file.read_globals()
    now = iso_format()
    first = iso_format(self.l1a_file.first_time())
    last = iso_format(self.l1a_file.last_time())
    self.l1b_file.write_globals(
        title='DeDop SRAL Level 1 Measurement', mission_name=g.mission_name,
        altimeter_sensor_name=g.altimeter_sensor_name, gnss_sensor_name=g.gnss_sensor_name,
        doris_sensor_name=g.doris_sensor_name, references=g.references, acq_station_name=g.acq_station_name,
        xref_altimeter_level0=g.xref_altimeter_level0, xref_navatt_level0=g.xref_navatt_level0,
        xref_altimeter_orbit=g.xref_altimeter_orbit, xref_doris_uso=g.xref_doris_uso,
        xref_altimeter_ltm_lrm_cal1=g.xref_altimeter_ltm_lrm_cal1,
        xref_altimeter_ltm_sar_cal1=g.xref_altimeter_ltm_sar_cal1,
        xref_altimeter_ltm_ku_cal2=g.xref_altimeter_ltm_ku_cal2,
        xref_altimeter_ltm_c_cal2=g.xref_altimeter_ltm_c_cal2,
        xref_altimeter_characterisation=g.xref_altimeter_characterisation,
        xref_time_correlation=g.xref_time_correlation,
        semi_major_ellipsoid_axis=self.cst.semi_major_axis, ellipsoid_flattening=self.cst.flat_coeff,
        netcdf_version=getlibversion(), product_name=g.get_l1b_product_name(), institution='isardSAT',
        source='DeDop {}'.format(__version__), history=g.history, contact='http://www.dedop.org/',
        creation_time=now, first_meas_time=first, last_meas_time=last)
    if self.l1bs_file is not None:
        self.l1bs_file.write_globals(
            title='DeDop SRAL Level 1BS Measurement', mission_name=g.mission_name,
            altimeter_sensor_name=g.altimeter_sensor_name, gnss_sensor_name=g.gnss_sensor_name,
            doris_sensor_name=g.doris_sensor_name, references=g.references, acq_station_name=g.acq_station_name,
            xref_altimeter_level0=g.xref_altimeter_level0, xref_navatt_level0=g.xref_navatt_level0,
            xref_altimeter_orbit=g.xref_altimeter_orbit, xref_doris_uso=g.xref_doris_uso,
            xref_altimeter_ltm_lrm_cal1=g.xref_altimeter_ltm_lrm_cal1,
            xref_altimeter_ltm_sar_cal1=g.xref_altimeter_ltm_sar_cal1,
            xref_altimeter_ltm_ku_cal2=g.xref_altimeter_ltm_ku_cal2,
            xref_altimeter_ltm_c_cal2=g.xref_altimeter_ltm_c_cal2,
            xref_altimeter_characterisation=g.xref_altimeter_characterisation,
            xref_platform=g.xref_platform, xref_time_correlation=g.xref_time_correlation,
            semi_major_ellipsoid_axis=self.cst.semi_major_axis, ellipsoid_flattening=self.cst.flat_coeff,
            netcdf_version=getlibversion(), product_name=g.get_l1bs_product_name(), institution='isardSAT',
            source='DeDop {}'.format(__version__), history=g.history, contact='http://www.dedop.org/',
            creation_time=now, first_meas_time=first, last_meas_time=last)
    return status
