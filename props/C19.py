from props.pycommon import *
LEVEL = 'proof'
TRUSTED = TRUSTED_PY
ASSUMPTIONS = [SHIM, FP, 'sequences of at most three sets of statistics (four tones: one set)', 'a set of statistics whose age differs by less than a microsecond from the averaging time may count or not']


def jobs(tier):
    F = fns('demodstats', 'FSKDemodStats.update')
    return [PyJob('update', 'stats', 'update', F), PyJob('lines', 'stats', 'lines', F)]
