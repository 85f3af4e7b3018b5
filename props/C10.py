from props.pycommon import *
LEVEL = 'proof'
TRUSTED = TRUSTED_PY
ASSUMPTIONS = [SHIM, FP, 'the payload ID list is an arbitrary map from integers to non-empty ASCII callsigns', 'the CRC is an uninterpreted function of the bytes (only agreement of stored and computed value matters)',
               'packet sizes are the listed ones (packets: 16, 22, 32; refusal: 0..4, 15..17, 21..23, 31..33, 48, 64, 96, 128, 200)', 'the default payload custom field list (4FSKTEST-V2) for whole packets; custom field definitions are C11']
DEC = fns('decoder', 'decode_packet') + fns('delegates', 'decode_payload_id', 'decode_time_hms', 'decode_time_biseconds', 'decode_degree_float', 'decode_degree_fixed3', 'decode_battery_5v_byte', 'decode_field', 'decode_custom_fields') + fns('checksums', 'check_packet_crc', 'ukhas_crc')


def jobs(tier):
    js = [PyJob('decode_%d' % n, 'binary', 'decode%d' % n, DEC, must=['the result is a dictionary', '%d byte packet: field latitude has the transmitted value' % n]) for n in (22, 16, 32)]
    js += [PyJob('gate', 'binary', 'gate', fns('decoder', 'decode_packet') + fns('checksums', 'check_packet_crc'), must=['nothing is reported unless a checksum of the packet matches']),
           PyJob('gate_format', 'binary', 'gate_format', fns('decoder', 'decode_packet'), must=['with a given format, only packets of that size with a matching checksum are reported']),
           PyJob('helpers', 'binary', 'helpers', fns('checksums', 'check_packet_crc', 'add_packet_crc', 'ukhas_crc'), must=['check_packet_crc accepts exactly the matching head checksums'])]
    return js
