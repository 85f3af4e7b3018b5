from props.l2jobs import *
from props.common import *
LEVEL = 'proof'
TRUSTED = CT + []
ASSUMPTIONS = ['horus_l2_init was called first', 'payload sizes: quick 16, 22, 32, 48, 64, 96 and 128 bytes (every size the system transmits); thorough adds 1..40, 80, 112']

def jobs(tier):
    g = [j for j in golay_jobs(lemmas=False) if j.name.startswith(('golay_syndrome', 'golay_encode'))]
    return all_sizes('enc', tier, list(range(2, 41)) + [80, 112]) + [size_job()] + g
