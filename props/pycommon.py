"""What the checks with the Python verifier (vc/pyvc.py) have in common."""
from vc.pyjob import PyJob
CHECKER = 'vc/pyvc.py: symbolic execution of the Python source of /repo against the contracts in py/, verification conditions discharged by z3'
TRUSTED_PY = ['vc/pyvc.py, vc/pyeng.py (mechanical instrumentation of the Python source on every run and its translation into verification conditions)', 'z3', 'CPython 3.12']
SHIM = 'vc/pyshim.py: contracts of the library functions the code calls (struct, codecs, crc, datetime, json, time, logging) are assumed; the native runs of the same contract use the real ones'
FP = 'float operations are real arithmetic with an error bound per operation (over-approximation of IEEE double rounding); comparisons in contracts allow 1e-9 or the stated tolerance'


def fns(file, *names):
    return ['horusdemodlib/%s.py:%s' % (file, n) for n in names]
