from props.crcjobs import *
from props.common import *
LEVEL = 'proof'
TRUSTED = CT + []
ASSUMPTIONS = []

def jobs(tier):
    return crc_jobs()
