"""Which driver decides which property."""
CHECKS = {
    'P01': ('h_records', 'check_load'),
    'P02': ('h_records', 'check_cycle'),
    'P03': ('h_match', 'check_match'),
    'P04': ('h_match', 'check_dual'),
}
CHECKS.update({
    'P05': ('h_geom', 'check_normal'),
    'P06': ('h_geom', 'check_convert'),
    'P07': ('h_geom', 'check_store'),
    'P08': ('h_geom', 'check_dual_normal'),
    'P09': ('h_geom', 'check_dual_revert'),
    'P10': ('h_geom', 'check_geo'),
})
CHECKS.update({
    'P11': ('h_vec', 'check_rotate'),
    'P12': ('h_vec', 'check_scale'),
    'P13': ('h_vec', 'check_history'),
})
CHECKS.update({
    'P15': ('h_time', 'check_times'),
    'P16': ('h_time', 'check_ranges'),
})
CHECKS['P17'] = ('h_files', 'check_default')
CHECKS['P18'] = ('h_inst', 'check_ascii')
CHECKS.update({
    'P19': ('h_data', 'check_vort'),
    'P20': ('h_data', 'check_smag'),
})
CHECKS['P21'] = ('h_pysat', 'check_pysat')
CHECKS.update({
    'P22': ('h_dmsp', 'check_format'),
    'P23': ('h_dmsp', 'check_fetch'),
})
CHECKS.update({
    'P24': ('h_track', 'check_track'),
    'P25': ('h_track', 'check_correction'),
})
CHECKS['P26'] = ('h_repr', 'check_describe')
CHECKS['P27'] = ('h_loc', 'check_loc')
CHECKS['P28'] = ('h_quad', 'check_quad')
CHECKS['P14'] = ('h_isol', 'check_isolation')
