from props.rxjobs import *
from props.common import *
LEVEL = 'proof'
TRUSTED = CT + ['sprintf("%02X") and strcat as the C standard defines them (modelled in c/rxbin.c; the arguments passed are checked)', 'z3 5.3 for the jobs that leave the place of the packet open']
ASSUMPTIONS = ["the modem's contract: fsk_demod_core delivers Nbits bits that are 0 or 1 (assumed; floating point signal processing is outside this technique)", 'horus_l2_decode_rx_packet, horus_l2_gen_crc16 and horus_l2_get_num_tx_data_bytes by their contracts (C02, C03, C04, C05)', 'place of the packet in the bit buffer: quick the first, the last and one past the last place for every size and two inner ones for 22 and 32 bytes; thorough every place for 22 and 32 bytes, and five more for the other sizes']

def jobs(tier):
    js = [bin_job(n, l) for n in SIZES for l in bin_locs(n)]
    js += [bin_job(n, l) for n in (22, 32) for l in (101, 1573)]
    if tier == 'thorough':
        js += [binloc_job(22, timeout=4000, mem=4), binloc_job(32, timeout=8000, mem=6)] + [bin_job(n, l) for n in SIZES for l in (1, 7, 99, 1000, 1573)]
    return js
