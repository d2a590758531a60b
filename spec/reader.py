"""Reference: reading of L1A files (C08, C09)."""
from math import radians
import netCDF4 as nc
import numpy as np
from dedop.data.input.l1a.l1a_dataset import L1AGlobals
from dedop.data.input.l1a.enums import L1AVariables, L1ADimensions
from dedop.data.input.netcdf_reader import NetCDFReader
from dedop.model.l1a_processing_data import L1AProcessingData, PacketPid


@spec('dedop/data/input/l1a/l1a_dataset.py:L1ADataset.__getitem__', props='C08',
      opaque='compute_location_sar_surf compute_doppler_angle', pure='get_value')
def decode(self, index):
    def get(v):
        return self.get_value(v, index)

    agc = get(L1AVariables.agc_ku_l1a_echo_sar_ku)
    waveform = (get(L1AVariables.i_meas_ku_l1a_echo_sar_ku)
                + 1j * get(L1AVariables.q_meas_ku_l1a_echo_sar_ku)) / 10. ** (-agc / 20.)
    pitch = radians(get(L1AVariables.pitch_sat_pointing_l1a_echo_sar_ku))
    rng = get(L1AVariables.range_ku_l1a_echo_sar_ku) + np.cos(pitch) * get(L1AVariables.cog_cor_l1a_echo_sar_ku)
    packet = L1AProcessingData(
        self.cst, self.chd, index,
        isp_pid=PacketPid.echo_sar,
        time_sar_ku=get(L1AVariables.time_l1a_echo_sar_ku),
        isp_coarse_time=get(L1AVariables.isp_coarse_time_l1a_echo_sar_ku),
        isp_fine_time=get(L1AVariables.isp_fine_time_l1a_echo_sar_ku),
        sral_fine_time=get(L1AVariables.sral_fine_time_l1a_echo_sar_ku),
        days=get(L1AVariables.UTC_day_l1a_echo_sar_ku),
        seconds=get(L1AVariables.UTC_sec_l1a_echo_sar_ku),
        inst_id_sar_isp=0,
        pri_sar_pre_dat=self.chd.pri_sar,
        ambiguity_order_sar=0,
        burst_sar_ku=get(L1AVariables.burst_count_prod_l1a_echo_sar_ku),
        lat_sar_sat=radians(get(L1AVariables.lat_l1a_echo_sar_ku)),
        lon_sar_sat=radians(get(L1AVariables.lon_l1a_echo_sar_ku)),
        alt_sar_sat=get(L1AVariables.alt_l1a_echo_sar_ku),
        alt_rate_sat_sar=get(L1AVariables.orb_alt_rate_l1a_echo_sar_ku),
        x_vel_sat_sar=get(L1AVariables.x_vel_l1a_echo_sar_ku),
        y_vel_sat_sar=get(L1AVariables.y_vel_l1a_echo_sar_ku),
        z_vel_sat_sar=get(L1AVariables.z_vel_l1a_echo_sar_ku),
        roll_sar=radians(get(L1AVariables.roll_sral_mispointing_l1a_echo_sar_ku)),
        pitch_sar=radians(get(L1AVariables.pitch_sral_mispointing_l1a_echo_sar_ku)),
        yaw_sar=radians(get(L1AVariables.yaw_sral_mispointing_l1a_echo_sar_ku)),
        roll_sral_mispointing=get(L1AVariables.roll_sral_mispointing_l1a_echo_sar_ku),
        pitch_sral_mispointing=get(L1AVariables.pitch_sral_mispointing_l1a_echo_sar_ku),
        yaw_sral_mispointing=get(L1AVariables.yaw_sral_mispointing_l1a_echo_sar_ku),
        cog_cor=get(L1AVariables.cog_cor_l1a_echo_sar_ku),
        h0_sar=get(L1AVariables.h0_applied_l1a_echo_sar_ku),
        t0_sar=self.chd.t0_nom,
        uso_cor=get(L1AVariables.uso_cor_l1a_echo_sar_ku),
        cor2_sar=get(L1AVariables.cor2_applied_l1a_echo_sar_ku),
        win_delay_sar_ku=rng * 2 / self.cst.c,
        x_sar_sat=get(L1AVariables.x_pos_l1a_echo_sar_ku),
        y_sar_sat=get(L1AVariables.y_pos_l1a_echo_sar_ku),
        z_sar_sat=get(L1AVariables.z_pos_l1a_echo_sar_ku),
        waveform_cor_sar=waveform,
        beams_focused=None,
        flag_time_status=get(L1AVariables.flag_time_status_l1a_echo_sar_ku),
        nav_bul_status=get(L1AVariables.nav_bul_status_l1a_echo_sar_ku),
        nav_bul_source=get(L1AVariables.nav_bul_source_l1a_echo_sar_ku),
        source_seq_count=get(L1AVariables.seq_count_l1a_echo_sar_ku),
        oper_instr=get(L1AVariables.oper_instr_l1a_echo_sar_ku),
        SAR_mode=get(L1AVariables.SAR_mode_l1a_echo_sar_ku),
        cl_gain=get(L1AVariables.cl_gain_l1a_echo_sar_ku),
        acq_stat=get(L1AVariables.acq_stat_l1a_echo_sar_ku),
        dem_eeprom=get(L1AVariables.dem_eeprom_l1a_echo_sar_ku),
        loss_track=get(L1AVariables.loss_track_l1a_echo_sar_ku),
        h0_nav_dem=get(L1AVariables.h0_nav_dem_l1a_echo_sar_ku),
        h0_applied=get(L1AVariables.h0_applied_l1a_echo_sar_ku),
        cor2_nav_dem=get(L1AVariables.cor2_nav_dem_l1a_echo_sar_ku),
        cor2_applied=get(L1AVariables.cor2_applied_l1a_echo_sar_ku),
        dh0=get(L1AVariables.dh0_l1a_echo_sar_ku),
        agccode_ku=get(L1AVariables.agccode_ku_l1a_echo_sar_ku),
        range_ku=get(L1AVariables.range_ku_l1a_echo_sar_ku),
        int_path_cor_ku=get(L1AVariables.int_path_cor_ku_l1a_echo_sar_ku),
        agc_ku=agc,
        sig0_cal_ku=get(L1AVariables.sig0_cal_ku_l1a_echo_sar_ku),
        surf_type=get(L1AVariables.surf_type_l1a_echo_sar_ku),
        cal1_power=get(L1AVariables.burst_power_cor_ku_l1a_echo_sar_ku),
        cal1_phase=get(L1AVariables.burst_phase_cor_ku_l1a_echo_sar_ku),
        cal2_array=get(L1AVariables.gprw_meas_ku_l1a_echo_sar_ku)[self.cnf.flag_cal2_table_index, :])
    packet.compute_location_sar_surf()
    packet.compute_doppler_angle()
    return packet


@spec('dedop/data/input/l1a/l1a_dataset.py:L1ADataset.__init__', props='C09')
def dataset_init(self, filename, cst, chd, cnf):
    dset = NetCDFReader(filename)
    self._dset = dset
    self.cst = cst
    self.chd = chd
    self.cnf = cnf
    self._file_path = filename
    if cnf.min_lat is not None or cnf.min_lon is not None or cnf.max_lat is not None or cnf.max_lon is not None:
        lats = dset.get_variable(L1AVariables.lat_l1a_echo_sar_ku)[:]
        lons = dset.get_variable(L1AVariables.lon_l1a_echo_sar_ku)[:]
        inside = np.ones(lats.shape, dtype=bool)
        if cnf.min_lat is not None:
            inside = np.logical_and(inside, lats >= cnf.min_lat)
        if cnf.min_lon is not None:
            inside = np.logical_and(inside, lons >= cnf.min_lon)
        if cnf.max_lat is not None:
            inside = np.logical_and(inside, lats <= cnf.max_lat)
        if cnf.max_lon is not None:
            inside = np.logical_and(inside, lons <= cnf.max_lon)
        self._roi_filter = inside
        where = np.argwhere(inside)
        self._start_index = where.min() if where.size else 0
        self._final_index = where.max() + 1 if where.size else 0
    else:
        self._roi_filter = None
        self._start_index = 0
        self._final_index = self._dset.dimensions['time_l1a_echo_sar_ku'].size
    self._last_index = self._start_index


@spec('dedop/data/input/l1a/l1a_dataset.py:L1ADataset.__next__', props='C09', pure='__getitem__ is_valid')
def next_record(self):
    i = self._last_index
    if i >= self._final_index:
        raise StopIteration
    if self._roi_filter is not None and not self._roi_filter[i]:
        self._last_index = i + 1
        return None
    packet = self[i]
    self._last_index = i + 1
    return packet if self.is_valid(packet) else None


@spec('dedop/data/input/input_dataset.py:InputDataset.is_valid', props='C09')
def is_valid(self, packet):
    from math import isclose
    return not (isclose(packet.lat_sar_sat, 0.) and isclose(packet.lon_sar_sat, 0.))


@spec('dedop/data/input/input_dataset.py:InputDataset.in_range', props='C09', pure='is_valid')
def in_range(self, packet):
    lat = packet.lat_sar_sat
    lon = packet.lon_sar_sat
    if self.cnf.min_lat is not None and lat < radians(self.cnf.min_lat):
        return False
    if self.cnf.max_lat is not None and lat > radians(self.cnf.max_lat):
        return False
    if self.cnf.min_lon is not None and lon < radians(self.cnf.min_lon):
        return False
    if self.cnf.max_lon is not None and lon > radians(self.cnf.max_lon):
        return False
    return self.is_valid(packet)


@spec('dedop/data/input/input_dataset.py:InputDataset.close', props='C04')
def dataset_close(self):
    self._dset.close()


@spec('dedop/data/input/l1a/l1a_dataset.py:L1ADataset.max_index', props='C09 C18')
def max_index(self):
    return self._final_index - self._start_index


@spec('dedop/data/input/l1a/l1a_dataset.py:L1ADataset.__len__', props='C09')
def dataset_len(self):
    return self._final_index - self._start_index


@spec('dedop/data/input/l1a/l1a_dataset.py:L1ADataset.first_time', props='C09 C07', pure='get_value')
def first_time(self):
    return self.get_value(L1AVariables.time_l1a_echo_sar_ku, self._start_index)


@spec('dedop/data/input/l1a/l1a_dataset.py:L1ADataset.last_time', props='C09 C07', pure='get_value')
def last_time(self):
    return self.get_value(L1AVariables.time_l1a_echo_sar_ku, self._final_index - 1)


@spec('dedop/data/input/l1a/l1a_dataset.py:L1ADataset.get_value', props='C08 C09')
def dataset_value(self, varname, index):
    return self._dset.get_value(varname, index)


@spec('dedop/data/input/l1a/l1a_dataset.py:L1ADataset.file_path', props='C09')
def file_path(self):
    return self._file_path


@spec('dedop/data/input/l1a/l1a_dataset.py:L1ADataset.read_globals', props='C07')
def read_l1a_globals(self):
    return L1AGlobals(**self._dset.read_globals())


# ---------------------------------------------------------------- block-wise reader

@spec('dedop/data/input/netcdf_reader.py:NetCDFReader.__init__', props='C09 C04')
def nc_init(self, filename, chunk_size=40):
    self._doc = nc.Dataset(filename, 'r')
    self.cache = {}
    self.chunk_index = None
    self.chunk_size = chunk_size
    for v in L1AVariables:
        self._doc.variables[v.value].set_auto_mask(False)


@spec('dedop/data/input/netcdf_reader.py:NetCDFReader.get_variable', props='C09')
def nc_variable(self, varname):
    return self._doc.variables[varname.value]


@spec('dedop/data/input/netcdf_reader.py:NetCDFReader.get_value', props='C09 C08', opaque='_load_chunk')
def nc_value(self, varname, index):
    """block-wise: the block that holds the index is loaded, the value is taken at the offset inside it"""
    k = index % self.chunk_size
    start = index - k
    if start != self.chunk_index:
        self._load_chunk(start)
    return self.cache[varname][k]


@spec('dedop/data/input/netcdf_reader.py:NetCDFReader._load_chunk', props='C09')
def nc_load(self, start):
    for v in L1AVariables:
        var = self._doc.variables[v.value]
        n = var.shape[0]
        if start < n:
            self.cache[v] = var[start:min(n, start + self.chunk_size)].copy()
    self.chunk_index = start


@spec('dedop/data/input/netcdf_reader.py:NetCDFReader.close', props='C04')
def nc_close(self):
    self._doc.close()


@spec('dedop/data/input/netcdf_reader.py:NetCDFReader.read_globals', props='C07')
def nc_globals(self):
    attrs = {}
    for n in self._doc.ncattrs():
        attrs[n] = self._doc.getncattr(n)
    return attrs


@spec('dedop/data/input/l1a/l1a_dataset.py:L1ADataset.__iter__', props='C09', pure='__getitem__ is_valid')
def iterate(self):
    for i in range(self._start_index, self._final_index):
        if (self._roi_filter is None or self._roi_filter[i]) and self.is_valid(self[i]):
            yield self[i]
        else:
            yield None
