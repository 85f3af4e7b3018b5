from props.pycommon import *
LEVEL = 'proof'
TRUSTED = TRUSTED_PY
ASSUMPTIONS = [SHIM, FP, 'the clock may advance by at most two seconds during a call', 'fields are proved in groups']


def jobs(tier):
    F = fns('utils', 'telem_to_sondehub') + fns('delegates', 'fix_datetime')
    return [PyJob('fix_datetime', 'sondehub', 'fix_datetime', F[1:])] + [PyJob(g, 'sondehub', g, F) for g in ('gate', 'fields', 'fields2', 'custom')]
