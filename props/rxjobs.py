from vc.crun import Job, HDEFS
A = ['horus_api.c']
NAT = ['horus_api.c', 'horus_l2.c', 'golay23.c']
MODES = (0, 89, 90, 91)
NB = {0: 100, 89: 50, 90: 50, 91: 50}
PKT = {0: 3640, 89: 1080, 90: 1200, 91: 1320}
UWL = {0: 16, 89: 18, 90: 20, 91: 22}
STUBBED = ('extract_horus_rtty', 'extract_horus_binary_v1', 'extract_horus_binary_v2_256', 'horus_find_uw')
FS = ['--max-field-sensitivity-array-size', '260']
UND = ['-USMALL_PKT', '-USMALL_NBITS', '-UMAXTRACK', '-UMAXNEW', '-UWIN', '-UHOW', '-UFIXLOC', '-UCNT']

def coded(n):
    return 2 + n + (((8 * n + 11) // 12) * 11 + 7) // 8

def find_job(mode, nbits=10, **kw):
    return Job('uw_search_m%d' % mode, 'rxflow.c', A, dfcc=False, defs=['-DMODE=%d' % mode, '-DJ_FIND', '-DSMALL_NBITS=%d' % nbits, '-DSMALL_PKT=%d' % (UWL[mode] + 54)],
               unwind=34, flags=FS, native_sources=NAT, native_defs=UND, functions=['horus_find_uw'], checks=True,
               bounded='frames of %d new bits instead of %d (the number of bits per frame is a parameter of the search); everything else arbitrary: bits, up to 32 tracked places' % (nbits, NB[mode]), **kw)

def find_win_job(mode, win, n=10, **kw):
    return Job('uw_search_m%d_w%d' % (mode, win), 'rxflow.c', A, dfcc=False, defs=['-DMODE=%d' % mode, '-DJ_FIND', '-DWIN=%d' % win, '-DWINLEN=%d' % n, '-DSMALL_PKT=%d' % (UWL[mode] + 54)],
               unwind=34, flags=FS, native_sources=NAT, native_defs=UND, functions=['horus_find_uw'], timeout=3000, tier='thorough',
               bounded='real frame size; bits outside the %d places from place %d do not match' % (n, win), **kw)

def rx_job(mode, track=3, new=2, **kw):
    return Job('rx_step_m%d%s' % (mode, '' if track == 3 else '_%d' % track), 'rxflow.c', A, dfcc=False, defs=['-DMODE=%d' % mode, '-DJ_RX', '-DSMALL_NBITS=10', '-DSMALL_PKT=130', '-DMAXTRACK=%d' % track, '-DMAXNEW=%d' % new],
               unwind=track + new + 2, flags=FS, nobody=STUBBED, checks=True,
               native_sources=NAT, native_defs=UND, functions=['horus_rx'],
               bounded='bit buffer of 140 bits with frames of 10; up to %d tracked places, %d new ones; blocks of up to 3 samples' % (track, new), **kw)

def open_job(mode, how, **kw):
    return Job('open_m%d_%d' % (mode, how), 'rxflow.c', A, dfcc=False, defs=['-DMODE=%d' % mode, '-DJ_OPEN', '-DHOW=%d' % how], checks=True, flags=['--memory-leak-check'],
               native_sources=NAT, native_defs=UND, functions=['horus_open', 'horus_open_advanced', 'horus_open_advanced_sample_rate', 'horus_close', 'horus_get_max_ascii_out_len', 'horus_get_mode'], **kw)

def bin_job(size, loc, **kw):
    fn = 'extract_horus_binary_v1' if size == 22 else 'extract_horus_binary_v2_256'
    return Job('binary_%d_at_%d' % (size, loc), 'rxbin.c', A, dfcc=False, defs=['-DSIZE=%d' % size, '-DFIXLOC=%d' % loc, '-DJ_FUNC'] + (['-DJ_INCOMPLETE'] if loc + 8 * coded(size) > 3740 else []), functions=[fn], native_sources=NAT,
               must=['decode requires', 'extract: '], **kw)

def bin_locs(size, all=False):
    last = 3740 - 8 * coded(size)
    return (0, last, last + 1)

def binloc_job(size, **kw):
    fn = 'extract_horus_binary_v1' if size == 22 else 'extract_horus_binary_v2_256'
    return Job('binary_%d_any_place' % size, 'rxbin.c', A, dfcc=False, defs=['-DSIZE=%d' % size, '-DJ_LOC'], functions=[fn], native_sources=NAT,
               unwind=coded(size) + 2, solver='z3-new', must=['decode is given'], **kw)

def binsafe_job(size, **kw):
    fn = 'extract_horus_binary_v1' if size == 22 else 'extract_horus_binary_v2_256'
    return Job('binary_%d_bounds' % size, 'rxbin.c', A, dfcc=False, checks=True, repo_defs=HDEFS + ['-DNDEBUG'], defs=['-DSIZE=%d' % size, '-DJ_SAFE'], functions=[fn], native_sources=NAT,
               unwind=max(coded(size) + 2, 258), must=['array_bounds|pointer_dereference'], **kw)

def rtty_job(mode, loc, **kw):
    return Job('rtty_m%d_at_%d' % (mode, loc), 'rxrtty.c', A, dfcc=False, defs=['-DMODE=%d' % mode, '-DFIXLOC=%d' % loc, '-DJ_FUNC'] + (['-DJ_INCOMPLETE'] if loc > 50 else []), functions=['extract_horus_rtty', 'hex2int'], native_sources=NAT,
               native_defs=['-UFIXLOC'], unwind=123, must=['crc requires', 'rtty: '], **kw)

def rttysafe_job(mode, loc, **kw):
    return Job('rtty_m%d_bounds_at_%d' % (mode, loc), 'rxrtty.c', A, dfcc=False, checks=True, repo_defs=HDEFS + ['-DNDEBUG'], defs=['-DMODE=%d' % mode, '-DFIXLOC=%d' % loc, '-DJ_SAFE'], functions=['extract_horus_rtty', 'hex2int'], native_sources=NAT,
               native_defs=['-UFIXLOC'], unwind=123, must=['pointer_dereference'], **kw)
SIZES = (22, 32, 48, 64, 96, 128)
