from props.pycommon import *
LEVEL = 'proof'
TRUSTED = TRUSTED_PY
ASSUMPTIONS = [SHIM, 'the C library is its contract: horus_rx reads nin samples and writes at most horus_get_max_ascii_out_len bytes; audioop.ratecv gives at most two samples fewer or more than the exact number']


def jobs(tier):
    N = {'init': ['__init__', 'close'], 'demodulate': ['demodulate'], 'add_samples': ['add_samples']}
    return [PyJob(c, 'demod', c, fns('demod', *['HorusLib.' + x for x in f]), lib=True) for c, f in N.items()]
