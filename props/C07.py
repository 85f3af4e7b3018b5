from props.rxjobs import *
from props.common import *
LEVEL = 'proof'
TRUSTED = CT + ['strlen as the C standard defines it (modelled in c/rxrtty.c)']
ASSUMPTIONS = ["the modem's contract: fsk_demod_core delivers Nbits bits that are 0 or 1 (assumed; floating point signal processing is outside this technique)", 'horus_l2_gen_crc16 by its contract (C05)', 'place of the sentence in the bit buffer: quick the first, the last and one past the last of the 51 places; thorough every place']

def jobs(tier):
    locs = (0, 50, 51) if tier == 'quick' else range(0, 53)
    return [rtty_job(m, l, mem=1.5) for m in (91, 90, 89) for l in locs]
