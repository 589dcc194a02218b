"""What VITA 49.2 / the vrtgen documentation say about the fields the corpus uses.

This table is written from the standard and the library documentation, not derived from the generated code: it is
the oracle for the wire format.  A field is a list of sub-values, each with its word, most significant bit, width
and kind:  u unsigned, s signed, f<radix> fixed point (signed), F<radix> unsigned fixed point, o unsigned stored
minus one, e optional boolean with its own enable bit (12 bits above).
"""

def S(name, word, msb, bits, kind='u', arg=0):
    return dict(name=name, word=word, msb=msb, bits=bits, kind=kind, arg=arg)

# scalar: the getter/setter of the packet class takes the value itself
def scalar(words, *subs):
    return dict(shape='FIXED', words=words, subs=list(subs), struct=None)

def struct(cxx, words, *subs):
    return dict(shape='FIXED', words=words, subs=list(subs), struct='vrtgen::packing::' + cxx)

U32 = scalar(1, S('', 0, 31, 32))
U64 = scalar(2, S('', 0, 31, 64))
FREQ = scalar(2, S('', 0, 31, 64, 'f', 20))
HALF7 = scalar(1, S('', 0, 15, 16, 'f', 7))
U16LO = scalar(1, S('', 0, 15, 16))
UUID = dict(shape='FIXED', words=4, subs=[S('u0', 0, 31, 32), S('u1', 1, 31, 32), S('u2', 2, 31, 32), S('u3', 3, 31, 32)],
            struct='vrtgen::UUID')

def two(cxx, a, b, k, r):
    return struct(cxx, 1, S(a, 0, 31, 16, k, r), S(b, 0, 15, 16, k, r))

def geo_head():
    return [S('tsi', 0, 27, 2), S('tsf', 0, 25, 2), S('manufacturer_oui', 0, 23, 24),
            S('integer_timestamp', 1, 31, 32), S('fractional_timestamp', 2, 31, 64)]

GEOLOCATION = struct('Geolocation', 11, *geo_head(),
    S('latitude', 4, 31, 32, 'f', 22), S('longitude', 5, 31, 32, 'f', 22), S('altitude', 6, 31, 32, 'f', 5),
    S('speed_over_ground', 7, 31, 32, 'f', 16), S('heading_angle', 8, 31, 32, 'f', 22),
    S('track_angle', 9, 31, 32, 'f', 22), S('magnetic_variation', 10, 31, 32, 'f', 22))
EPHEMERIS = struct('Ephemeris', 13, *geo_head(),
    S('position_x', 4, 31, 32, 'f', 5), S('position_y', 5, 31, 32, 'f', 5), S('position_z', 6, 31, 32, 'f', 5),
    S('attitude_alpha', 7, 31, 32, 'f', 22), S('attitude_beta', 8, 31, 32, 'f', 22), S('attitude_phi', 9, 31, 32, 'f', 22),
    S('velocity_dx', 10, 31, 32, 'f', 16), S('velocity_dy', 11, 31, 32, 'f', 16), S('velocity_dz', 12, 31, 32, 'f', 16))
PAYLOAD = struct('PayloadFormat', 2,
    S('packing_method', 0, 31, 1), S('real_complex_type', 0, 30, 2), S('data_item_format', 0, 28, 5),
    S('repeat_indicator', 0, 23, 1), S('event_tag_size', 0, 22, 3), S('channel_tag_size', 0, 19, 4),
    S('data_item_fraction_size', 0, 15, 4), S('item_packing_field_size', 0, 11, 6, 'o'), S('data_item_size', 0, 5, 6, 'o'),
    S('repeat_count', 1, 31, 16, 'o'), S('vector_size', 1, 15, 16, 'o'))
SPECTRUM = struct('Spectrum', 13,
    S('window_time', 0, 19, 4, 'u', 3), S('averaging_type', 0, 15, 8, 'u', 32), S('spectrum_type', 0, 7, 8, 'u', 4),      # named values up to there
    S('window_type', 1, 7, 8, 'u', 43), S('num_transform_points', 2, 31, 32), S('num_window_points', 3, 31, 32),
    S('resolution', 4, 31, 64, 'F', 20), S('span', 6, 31, 64, 'F', 20), S('num_averages', 8, 31, 32),
    S('weighting_factor', 9, 31, 32), S('f1_index', 10, 31, 32, 's'), S('f2_index', 11, 31, 32, 's'),
    S('window_time_delta', 12, 31, 32))
SEI = struct('StateEventIndicators', 1, *[S(n, 0, b, 1, 'e') for n, b in (
    ('calibrated_time', 19), ('valid_data', 18), ('reference_lock', 17), ('agc_mgc', 16), ('detected_signal', 15),
    ('spectral_inversion', 14), ('over_range', 13), ('sample_loss', 12))])

FIELDS = []
def add(cif, bit, name, d, tag=None):
    d = dict(d); d.update(cif=cif, bit=bit, name=name, tag=tag)
    FIELDS.append(d)

add(0, 30, 'reference_point_id', U32)
add(0, 29, 'bandwidth', FREQ)
add(0, 28, 'if_ref_frequency', FREQ)
add(0, 27, 'rf_ref_frequency', FREQ)
add(0, 26, 'rf_ref_frequency_offset', FREQ)
add(0, 25, 'if_band_offset', FREQ)
add(0, 24, 'reference_level', HALF7)
add(0, 23, 'gain', two('Gain', 'stage_2', 'stage_1', 'f', 7))
add(0, 22, 'over_range_count', U32)
add(0, 21, 'sample_rate', FREQ)
add(0, 20, 'timestamp_adjustment', U64)
add(0, 19, 'timestamp_calibration_time', U32)
add(0, 18, 'temperature', scalar(1, S('', 0, 15, 16, 'f', 6)))
add(0, 17, 'device_id', struct('DeviceIdentifier', 2, S('manufacturer_oui', 0, 23, 24), S('device_code', 1, 15, 16)))
add(0, 16, 'state_event_indicators', SEI)
add(0, 15, 'signal_data_format', PAYLOAD)
add(0, 14, 'formatted_gps', GEOLOCATION)
add(0, 13, 'formatted_ins', GEOLOCATION)
add(0, 12, 'ecef_ephemeris', EPHEMERIS)
add(0, 11, 'relative_ephemeris', EPHEMERIS)
add(0, 10, 'ephemeris_ref_id', U32)
add(0, 9, 'gps_ascii', dict(shape='GPS', words=0, subs=[], struct='vrtgen::packing::GPS_ASCII'))
add(0, 8, 'context_association_lists', dict(shape='CAL', words=0, subs=[], struct='vrtgen::packing::ContextAssociationLists'))
add(1, 31, 'phase_offset', HALF7)
add(1, 30, 'polarization', two('Polarization', 'tilt_angle', 'ellipticity_angle', 'f', 13))
add(1, 29, 'pointing_vector', struct('PointingVector', 1, S('elevation_angle', 0, 31, 16, 'f', 7), S('azimuthal_angle', 0, 15, 16, 'F', 7)))
add(1, 27, 'spatial_scan_type', U16LO)
add(1, 25, 'beam_width', two('BeamWidth', 'horizontal', 'vertical', 'f', 7))
add(1, 24, 'range', scalar(1, S('', 0, 31, 32, 'f', 6)))
add(1, 20, 'ebno_ber', two('EbNoBER', 'ebno', 'ber', 'f', 7))
add(1, 19, 'threshold', two('Threshold', 'stage_2', 'stage_1', 'f', 7))
add(1, 18, 'compression_point', HALF7)
add(1, 17, 'intercept_points', two('InterceptPoints', 'second_order', 'third_order', 'f', 7))
add(1, 16, 'snr_noise_figure', two('SNRNoise', 'snr', 'noise', 'f', 7))
add(1, 15, 'aux_frequency', FREQ)
add(1, 14, 'aux_gain', two('Gain', 'stage_2', 'stage_1', 'f', 7))
add(1, 13, 'aux_bandwidth', FREQ)
add(1, 10, 'spectrum', SPECTRUM)
add(1, 7, 'index_list', dict(shape='INDEX', words=0, subs=[], struct='vrtgen::packing::IndexList'))
add(1, 6, 'discrete_io_32', dict(shape='FIXED', words=1, subs=[], struct='DIO32'))
add(1, 5, 'discrete_io_64', dict(shape='FIXED', words=2, subs=[], struct='DIO64'))
add(1, 4, 'health_status', U16LO)
add(1, 3, 'v49_spec_compliance', U32)
add(1, 2, 'version_information', struct('VersionInformation', 1, S('year', 0, 31, 7), S('day', 0, 24, 9),
                                        S('revision', 0, 15, 6), S('user_defined', 0, 9, 10)))
add(1, 1, 'buffer_size', FREQ)
for _i, _n in enumerate('bind cited_sid sibling_sid parent_sid child_sid cited_message_id controllee_id controllee_uuid '
                        'controller_id controller_uuid information_source track_id country_code operator_id '
                        'platform_class platform_instance platform_display ems_device_class ems_device_type ems_device_instance '
                        'modulation_class modulation_type function_id mode_id event_id function_priority_id '
                        'communication_priority_id rf_footprint rf_footprint_range'.split()):
    add(2, 31 - _i, _n, UUID if _n.endswith('_uuid') else U32)

FIELD = {(f['cif'], f['name']): f for f in FIELDS}

DIFI_REF = dict(FIELD[0, 'reference_level'], tag='!DIFI1p2ReferenceLevel',
                struct='vrtgen::packing::difi::ReferenceLevel',
                subs=[S('scaling_level', 0, 31, 16, 'f', 7), S('reference_level', 0, 15, 16, 'f', 7)])
DIFI_BUF = dict(FIELD[1, 'buffer_size'], tag='!DIFI1p2BufferSize', struct='vrtgen::packing::difi::BufferSize', words=3,
                subs=[S('buffer_size', 0, 31, 64), S('level', 2, 15, 12), S('overflow', 2, 3, 1), S('nearly_full', 2, 2, 1),
                      S('nearly_empty', 2, 1, 1), S('underflow', 2, 0, 1)])

WARN = ('field_not_executed device_failure erroneous_field parameter_out_of_range parameter_unsupported_precision '
        'field_value_invalid timestamp_problem hazardous_power_levels distortion in_band_power_compliance '
        'out_of_band_power_compliance cosite_interference regional_interference').split()
TRAILER = ('calibrated_time valid_data reference_lock agc_mgc detected_signal spectral_inversion over_range '
           'sample_loss').split()
