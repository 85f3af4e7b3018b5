from props.l2jobs import *
from props.common import *
LEVEL = 'proof'
TRUSTED = CT + []
ASSUMPTIONS = ['horus_l2_init was called first', 'payload sizes: quick 16, 22, 32, 48, 64, 96 and 128 bytes (every size the system transmits); thorough adds 1..40, 80, 112', 'signed overflow is not checked: cbmc and gcc both wrap']

def jobs(tier):
    g = [j for j in golay_jobs(lemmas=False) if j.name.startswith('golay_decode')]
    es = [l2_job('enc', n) for n in (22, 32, 128)]
    for j in es: j.checks, j.name = True, j.name + '_bounds'
    return all_sizes('safe', tier, list(range(2, 41)) + [80, 112]) + es + g
