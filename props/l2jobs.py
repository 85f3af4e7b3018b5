from vc.crun import Job
import math

def isprime(x): return all(x % i for i in range(2, x))
def next_prime(x):
    x += 1
    while not isprime(x): x += 1
    return x
def nbytes(n): return 2 + n + (((8 * n + 11) // 12) * 11 + 7) // 8
def bmul(n):
    b = nbytes(n) - 2
    return {43: 337, 63: 389}.get(b) or next_prime(math.floor(b * 8 / 1.62))
SIZES = (16, 22, 32, 48, 64, 96, 128)
REPL = ('golay23_decode', 'golay23_syndrome', 'golay23_encode')

def l2_job(kind, n, tier='quick', **kw):
    j = {'enc': 'J_ENCODE', 'dec': 'J_DECODE', 'safe': 'J_SAFE'}[kind]
    fn = {'enc': 'horus_l2_encode_tx_packet', 'dec': 'horus_l2_decode_rx_packet', 'safe': 'horus_l2_decode_rx_packet'}[kind]
    return Job('l2_%s_%d' % (kind, n), 'l2.c', ['golay23.c', 'horus_l2.c'], enforce=fn, replace=REPL,
               defs=['-D' + j, '-DN=%d' % n, '-DB=%d' % bmul(n)], checks=(kind == 'safe'), timeout=800, tier=tier, mem=0.6 + {'enc': 5.0, 'dec': 7.0, 'safe': 4.5}[kind] * n / 128,
               functions=[fn, 'horus_l2_get_num_tx_data_bytes', 'interleave', 'scramble'],
               must=['postcondition'] if kind != 'safe' else ['assigns'], **kw)

from props.golayjobs import golay_jobs
def size_job():
    return Job('l2_size', 'l2.c', ['golay23.c', 'horus_l2.c'], enforce='horus_l2_get_num_tx_data_bytes', defs=['-DJ_SIZE', '-DN=22', '-DB=337'], must=['postcondition'])
def all_sizes(kind, tier, extra=()):
    js = [l2_job(kind, n) for n in reversed(SIZES)]
    if tier == 'thorough':
        js += [l2_job(kind, n) for n in extra if n not in SIZES]
    return js
