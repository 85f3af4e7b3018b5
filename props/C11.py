from props.pycommon import *
LEVEL = 'proof'
TRUSTED = TRUSTED_PY
ASSUMPTIONS = [SHIM, FP, 'layouts: 144 definitions of nine bytes in which every ordered pair of the 12 supported (struct code, field type) combinations occurs as first two fields']


def jobs(tier):
    F = fns('delegates', 'decode_custom_fields', 'decode_field', 'decode_battery_5v_byte', 'decode_divide_by_10', 'decode_divide_by_100')
    return [PyJob('custom', 'binary', 'custom', F, must=['the text lists the values in order', 'there are no other fields']),
            PyJob('custom_refuse', 'binary', 'custom_refuse', F, must=['custom data is refused with ValueError only'])]
