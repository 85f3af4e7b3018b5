from props.rxjobs import *
from props.common import *
LEVEL = 'proof'
TRUSTED = CT + []
ASSUMPTIONS = ["the modem's contract: fsk_demod_core delivers Nbits bits that are 0 or 1 (assumed; floating point signal processing is outside this technique)", 'extract_horus_* by contract (C06, C07): accept or not, never an incomplete packet']

def jobs(tier):
    js = [rx_job(m) for m in MODES] + [find_job(m) for m in MODES] + [open_job(m, 2) for m in MODES]
    if tier == 'thorough':
        js += [open_job(m, h) for m in MODES for h in (0, 1)]
        js += [rx_job(m, 8, 6, tier='thorough') for m in MODES]
        js += [find_win_job(m, w) for m in MODES for w in range(0, NB[m], 10)]
    return js
