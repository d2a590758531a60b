"""Names of the L1A variables (C08)."""
from sa.run import ok, bad, und
from sa.tables import *

PATH = 'dedop/data/input/l1a/enums.py'
# variables the decoding relies on (suffix _l1a_echo_sar_ku)
NAMES = '''time UTC_day UTC_sec isp_coarse_time isp_fine_time flag_time_status sral_fine_time lat lon surf_type
burst_count_prod seq_count nav_bul_status nav_bul_source oper_instr SAR_mode cl_gain acq_stat dem_eeprom loss_track
h0_nav_dem h0_applied cor2_nav_dem cor2_applied dh0 agccode_ku alt orb_alt_rate x_pos y_pos z_pos x_vel y_vel z_vel
pitch_sat_pointing roll_sral_mispointing pitch_sral_mispointing yaw_sral_mispointing range_ku int_path_cor_ku uso_cor
cog_cor agc_ku sig0_cal_ku i_meas_ku q_meas_ku gprw_meas_ku burst_power_cor_ku burst_phase_cor_ku'''.split()


def variable_names(ctx):
    """declaration table of the L1A variables: each member names the like-named variable of the file"""
    c = ctx.repo.find_class(PATH, 'L1AVariables')
    if c is None:
        yield und('l1a-variables', PATH + ':L1AVariables', 'class not found')
        return
    got = enum_values(ctx.repo, c)
    for n in NAMES:
        k = n + '_l1a_echo_sar_ku'
        where = '%s:L1AVariables.%s' % (c.module.relpath, k)
        if k not in got or got[k] is UNKNOWN:
            yield und('l1a-variables', where, 'declaration not understood')
        elif got[k] == k:
            yield ok('l1a-variables', where)
        else:
            yield bad('l1a-variables', where, 'reads the file variable %r' % (got[k],))


RULES = {'C08': [variable_names]}
