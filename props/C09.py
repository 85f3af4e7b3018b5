from props.rxjobs import *
from props.common import *
LEVEL = 'proof'
TRUSTED = CT + []
ASSUMPTIONS = ["the modem's contract: fsk_demod_core delivers Nbits bits that are 0 or 1 (assumed; floating point signal processing is outside this technique)", 'horus_l2_* by their contracts (C02..C05)', 'output buffers have the size that horus_get_max_ascii_out_len reports', 'not verbose (what is printed to stderr in verbose mode is not analysed)']

def jobs(tier):
    js = [binsafe_job(n, mem=1.5) for n in SIZES[::-1]]
    js += [rttysafe_job(m, l) for m in (89, 90, 91) for l in ((0, 50, 51) if tier == 'quick' else range(0, 53))]
    js += [rx_job(m) for m in (0, 91)] + [find_job(m) for m in (0, 91)] + [open_job(m, h) for m in (0, 91) for h in (0, 1)]
    return js
