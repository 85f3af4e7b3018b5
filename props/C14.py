from props.pycommon import *
LEVEL = 'proof'
TRUSTED = TRUSTED_PY
ASSUMPTIONS = [SHIM, FP, 'the ASN.1 (UPER) decoder is its contract: it returns any record of the schema (each optional field present or not) or refuses', 'altitude -1000 m and time of day -1 (the lower ends, "unknown") are excluded: what the decoder reports for them is not specified',
               'fields are proved in groups: within a group every combination of present fields, the other optional fields absent (combinations across groups are covered by the native runs)', 'at most the sensors of the schema; sensor names as listed in the contract']


def jobs(tier):
    F = fns('decoder', 'decode_packet')
    M = ['the ASN.1 decoder is given exactly the bytes after the checksum']
    return [PyJob(g, 'v3', g, F, must=M, timeout=500) for g in ('sensors', 'top', 'sensor_names', 'misc', 'temp', 'mv')] + [PyJob('refused', 'v3', 'refused', F)]
