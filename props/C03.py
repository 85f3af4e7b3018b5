from props.l2jobs import *
from props.common import *
LEVEL = 'proof'
TRUSTED = CT + ['the decoder of one code word is a function of its 23 bits (its contract is proved in this check)']
ASSUMPTIONS = ['horus_l2_init was called first', 'payload sizes: quick 16, 22, 32, 48, 64, 96 and 128 bytes (every size the system transmits); thorough adds 1..40, 80, 112']

def jobs(tier):
    g = [j for j in golay_jobs() if not j.name.startswith(('golay_encode', 'golay_syndrome', 'golay_count'))]
    return all_sizes('dec', tier, list(range(2, 41)) + [80, 112]) + [size_job()] + g
