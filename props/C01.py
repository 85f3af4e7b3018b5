from props.golayjobs import *
from props.common import *
LEVEL = 'proof'
TRUSTED = CT + ['__builtin_popcount as modelled by cbmc']
ASSUMPTIONS = ['golay23_init was called first (the tables are built at run time in the shipped configuration)']

def jobs(tier):
    return golay_jobs((('rt', ['-DRUN_TIME_TABLES']), ('tables', [])))
