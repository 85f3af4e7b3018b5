"""Contracts of the Python binding of the demodulator (demod.HorusLib)."""
from vc.pyvc import *
import z3, types, random
M = 'horusdemodlib.demod'
MODES = dict(HORUS_MODE_BINARY_V1=0, HORUS_MODE_BINARY_V2_256BIT=1, HORUS_MODE_BINARY_V2_128BIT=2, HORUS_MODE_RTTY_7N1=89, HORUS_MODE_RTTY_7N2=90, HORUS_MODE_RTTY_8N2=91)


class Lib:
    """contract of libhorus"""
    def __init__(self, vc):
        self.__dict__.update(MODES)
        self.vc, self.calls, self.cur, self.handle = vc, [], 100, 'handle'
        self.maxout = vc.pick('maxout', [129, 1025])

    def horus_open_advanced(self, mode, rate, spacing):
        self.calls.append(('open', mode, rate, spacing))
        return self.handle

    def horus_open_advanced_sample_rate(self, mode, rate, spacing, fs):
        self.calls.append(('open', mode, rate, spacing) if fs == 48000 else ('open at', fs))
        return self.handle

    def horus_set_verbose(self, h, v):
        self.calls.append(('verbose', h, v))

    def horus_get_max_demod_in(self, h):
        return 9600

    def horus_get_max_ascii_out_len(self, h):
        return self.maxout

    def horus_get_mFSK(self, h):
        return 4

    def horus_nin(self, h):
        self.vc.ensure(h == self.handle, 'the library is used with the modem that was opened')
        return self.cur

    def horus_close(self, h):
        self.calls.append(('close', h))

    def horus_set_freq_est_limits(self, h, a, b):
        self.calls.append(('limits', h, a, b))


class Stream:
    """samples `start`..`end` (in bytes) of the input, any number of them"""
    __pytype__ = bytearray

    def __init__(self, start, end):
        self.start, self.end = start, end

    def symlen(self):
        return self.end - self.start

    def __getitem__(self, i):
        if not isinstance(i, slice) or i.step is not None:
            raise Unsupported('item of the samples')
        n = self.end - self.start
        a, b = i.start if i.start is not None else 0, i.stop if i.stop is not None else n
        if not (bool(a >= 0) and bool(b >= 0)):
            raise Unsupported('slice of the samples')
        a, b = lesser(a, n), lesser(b, n)
        return Stream(self.start + a, self.start + greater(a, b))

    def __delitem__(self, i):
        if not isinstance(i, slice) or i.step is not None or i.start not in (None, 0) or i.stop is None:
            raise Unsupported('deletion from the samples')
        self.start = self.start + lesser(i.stop, self.end - self.start)

    def extend(self, x):
        if not isinstance(x, Stream):
            raise Unsupported('extend')
        if not bool(x.start == self.end):
            raise Failure2('samples are buffered out of order')
        self.end = x.end

    def __add__(self, x):
        r = Stream(self.start, self.end)
        r.extend(x)
        return r

    def __iadd__(self, x):
        self.extend(x)
        return self

    def __bool__(self):
        return bool(self.end - self.start > 0)

    def ljust(self, n, fill=b' '):
        p = Stream(self.start, self.end)
        return Padded(p, greater(n, p.symlen()))

    def __len__(self):
        raise Unsupported('len')


class Padded(Stream):
    """samples, extended to `n` bytes"""
    def __init__(self, s, n):
        self.start, self.end, self.n = s.start, s.end, n

    def symlen(self):
        return self.n


class Failure2(Exception):
    pass


def lesser(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b)
    x, y = iv(SymInt.of(a)), iv(SymInt.of(b))
    return mkint(z3.If(x <= y, x, y))


def greater(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return max(a, b)
    x, y = iv(SymInt.of(a)), iv(SymInt.of(b))
    return mkint(z3.If(x >= y, x, y))


def load(vc):
    lib, ffi = Lib(vc), types.SimpleNamespace()
    if vc.symbolic:
        vc.stub('_horus_api_cffi', lib=lib, ffi=ffi)
        vc.stub('audioop', ratecv=lambda d, w, ch, a, b, s: (d, s) if a == b else resampled(vc, d))
        vc.bytearray = lambda *a: Stream(0, 0) if not a or a[0] == b'' else bytearray(*a)
    m = vc.module(M)
    if not vc.symbolic:
        import _horus_api_cffi
        for o, n, v in ((m, 'horus_api', lib), (m, '_horus_api_cffi', types.SimpleNamespace(lib=lib, ffi=ffi))):
            vc.patches.append((o, n, getattr(o, n)))
            setattr(o, n, v)
    return m, lib, ffi


def resampled(vc, d):
    n = SymInt(vc.fresh_int('resampled'))
    vc.assume((n >= 0).e)
    return (Stream(0, n), 'state')


def init(vc):
    """a modem is opened as asked, and closed once"""
    m, lib, ffi = load(vc)
    mode = vc.pick('mode', ['BINARY', 'BINARY_V1', 'RTTY', 'RTTY_7N1', 'RTTY_7N2', 'RTTY_8N2'])
    rate, sp, verb = vc.int('rate', -1, 10000), vc.int('spacing', -1, 10000), vc.flag('verbose')
    ok = vc.flag('opens')
    lib.handle = 'handle' if ok else None
    r = vc.call(m.HorusLib, mode=m.Mode[mode], rate=rate, tone_spacing=sp, verbose=verb)
    if not ok:
        vc.ensure(not r.ok and isinstance(r.exc, EnvironmentError), 'a modem that cannot be opened is reported')
        return
    want = {'BINARY': 0, 'BINARY_V1': 0, 'RTTY': 90, 'RTTY_7N1': 89, 'RTTY_7N2': 90, 'RTTY_8N2': 91}[mode]
    opened = [c for c in lib.calls if c[0].startswith('open')]
    vc.ensure(r.ok and len(opened) == 1 and opened[0][0] == 'open', 'one modem is opened')
    vc.ensure(And(opened[0][1] == want, opened[0][2] == rate, opened[0][3] == sp), 'the modem is opened with the mode, rate and spacing asked for')
    lo, hi = vc.int('lo', -30000, 30000), vc.int('hi', -30000, 30000)
    q = vc.call(r.value.set_estimator_limits, lo, hi)
    lim = [c for c in lib.calls if c[0] == 'limits']
    vc.ensure(q.ok and len(lim) == 1 and lim[0][1] == 'handle' and vc.same(lim[0][2], lo) and vc.same(lim[0][3], hi), 'the limits of the estimator are passed on')
    bad = vc.call(m.HorusLib, mode=vc.pick('bad', [0, 'BINARY', None]))
    vc.ensure(not bad.ok and isinstance(bad.exc, ValueError), 'something that is not a mode is refused')
    if vc.flag('with'):
        with r.value as h:
            pass
    else:
        r.value.close()
    vc.ensure([c for c in lib.calls if c[0] == 'close'] == [('close', 'handle')], 'the modem is closed, once')


class OBuf:
    def __init__(self, n):
        self.n, self.content = n, bytes(n) if isinstance(n, int) else None

    def to_symbytes(self):
        return self.content

    def __bytes__(self):
        return self.content

    def __len__(self):
        return self.n


class CBuf:
    def __init__(self, d):
        self.d = d


class OutText(SymBytes):
    """the bytes of the output buffer: text, NUL, what was there before"""
    __slots__ = ('text', 'ascii')

    def __init__(self, text, ascii):
        self.text, self.ascii, self.v, self.prov = text, ascii, None, None

    def decode(self, enc='utf-8', errors='strict'):
        if not self.ascii:
            raise UnicodeDecodeError('ascii', b'\xff', 0, 1, 'ordinal not in range(128)')
        return self.text

    def __repr__(self):
        return 'output'

    def __getitem__(self, i):
        raise Unsupported('item of the output buffer')
    __len__ = __getitem__

    def __iter__(self):
        raise Unsupported('iteration of the output buffer')


def demodulate(vc):
    m, lib, ffi = load(vc)
    mode = vc.pick('mode', ['BINARY', 'RTTY_7N1', 'RTTY_7N2', 'RTTY_8N2'])
    rtty = mode != 'BINARY'
    iq = vc.flag('iq')
    ch = 2 if iq else 1
    rate = vc.pick('rate', [48000, 44100, 8000, 96000, 47999])
    h = m.HorusLib(mode=m.Mode[mode], stereo_iq=iq, sample_rate=rate)
    nin = lib.cur = vc.int('nin', 1, 20000 if vc.symbolic else 300)
    full = vc.flag('full')
    if vc.symbolic:
        n = SymInt(vc.fresh_int('nbytes'))
        vc.assume((n >= 0).e)
        if full:
            n = nin * (2 * ch)
        data = Stream(0, n)
    else:
        if full:
            n = 2 * ch * int(nin * (rate / 48000))
        else:
            n = 2 * ch * vc.int('len', 0, 400)
        data = vc.bytes('samples', n)
        if len(data) != n:
            raise Skip()
    empty = vc.flag('empty')
    junk = vc.pick('junk', ['\0\0\0', '\0AA\0', '\0'])
    ascii = True
    if not rtty:
        payload = vc.bytes('payload', vc.pick('size', [16, 22, 32, 48])) if not empty else b''
        text = vc.hexup(payload) if not empty else ''
        want = payload
    else:
        ascii = not vc.flag('nonascii')
        text = want = '' if empty else vc.str('text', gen=lambda r: ''.join(r.choice('ABC,.*019$ -\r\t') for _ in range(r.randrange(1, 60))))
        if not empty:
            if vc.symbolic:
                vc.assume(vc.ascii(text.z()))
                vc.without = {text.z().get_id(): '\0'}
            else:
                text = want = text.replace('\0', '').encode('ascii', 'ignore').decode()
        if not ascii:
            want = ''
    crc, sync, snr = vc.pick('crc', [0, 1]), vc.pick('sync', [0, 1]), vc.float('snr', -100, 100)
    seen = []

    def new(t, x=None):
        t = t.replace(' ', '')
        if t in ('char[]', 'unsignedchar[]', 'uint8_t[]', 'short[]', 'int16_t[]'):
            if isinstance(x, (int, SymInt)):
                return OBuf(x)
            if isinstance(x, bytearray):
                raise TypeError('initializer for ctype must be bytes')
            return CBuf(x)
        if 'MODEM_STATS' in t:
            return types.SimpleNamespace(snr_est=None, sync=None)
        raise Unsupported('ffi.new ' + t)
    ffi.new = new
    ffi.cast = lambda t, x: x
    ffi.from_buffer = lambda *a: CBuf(a[-1])
    ffi.buffer = lambda b, n=None: b
    ffi.string = None

    def rx(hs, out, inp, stereo):
        vc.ensure(hs == 'handle' and bool(stereo) == iq, 'the modem is told whether the samples are complex')
        d = inp.d
        size = d.symlen() if isinstance(d, Stream) else len(d)
        # (ffi.new('char[]', bytes) has one more byte)
        vc.ensure(size >= nin * (2 * ch), 'the modem never reads beyond the samples it is given')
        if rate == 48000 and full:
            if vc.symbolic:
                vc.ensure(And(d.start == data.start, d.end == data.end), 'the samples are passed on unaltered')
            else:
                vc.ensure(bytes(d[:n]) == data, 'the samples are passed on unaltered')
        vc.ensure(out.n >= lib.maxout, 'the output buffer has the size the modem asks for')
        seen.append(1)
        if vc.symbolic:
            out.content = OutText(SymStr([text, junk]), ascii)
        else:
            t = (text.encode() if ascii else (text.encode()[:3] + b'\xc1')) + junk.encode()
            out.content = t + bytes(max(0, lib.maxout - len(t)))
        return 1

    def stats(hs, st):
        vc.ensure(bool(seen), 'the statistics are those after the block')
        st.snr_est, st.sync = snr, sync
        st.token = 'stats'
    lib.horus_rx, lib.horus_get_modem_extended_stats = rx, stats

    def crcok(hs):
        vc.ensure(bool(seen), 'the checksum state is that of the block')
        return crc
    lib.horus_crc_ok = crcok
    r = vc.call(h.demodulate, data)
    vc.ensure(r.ok, 'any number of samples can be demodulated')
    vc.ensure(len(seen) == 1, 'the modem gets the block once')
    f = r.value
    vc.ensure(vc.same(f.data, want), 'the packet is exactly what the modem reported')
    vc.ensure(bool(f.crc_pass) == bool(crc), 'the checksum state is the one the modem reported')
    vc.ensure(And(vc.same(f.snr, snr), bool(f.sync) == bool(sync)), 'SNR and sync are the ones the modem reported')
    vc.ensure(f.extended_stats.token == 'stats', 'the statistics are those of the modem')


class Data:
    def __init__(self, n):
        self.n = n

    def symlen(self):
        return self.n

    def __bool__(self):
        return bool(self.n > 0)

    def __len__(self):
        return self.n if isinstance(self.n, int) else self.n.__index__()


class Blocks:
    """ghost state and invariant of add_samples"""
    def __init__(self, vc, lib, h, ch, rate):
        self.vc, self.lib, self.h, self.ch, self.rate = vc, lib, h, ch, rate
        self.consumed, self.pending, self.total = 0, None, 0
        self.k = 0

    def newnin(self):
        n = SymInt(self.vc.fresh_int('nin'))
        self.vc.assume(And(n >= 10, n <= 100000).e)
        self.lib.cur = n

    def isblock(self, size):
        """size is the number of bytes of one block"""
        if self.rate == 48000:
            return size == self.lib.cur * (2 * self.ch)
        # whole samples, less than one away from the length of a block
        q = size * 48000 - self.lib.cur * self.rate * 2 * self.ch
        return And(size % (2 * self.ch) == 0, q <= 48000 * 2 * self.ch, q >= -48000 * 2 * self.ch)

    def atmost(self, size):
        """size is not more than one block"""
        if self.rate == 48000:
            return size <= self.lib.cur * (2 * self.ch)
        return size * 48000 <= self.lib.cur * self.rate * 2 * self.ch + 48000 * 2 * self.ch

    def buf(self):
        return [v for v in vars(self.h).values() if isinstance(v, Stream)][0]

    def inv(self):
        b = self.buf()
        return [(b.start == self.consumed, 'the samples that wait follow the ones that were demodulated'),
                (And(b.end == self.total, b.start <= b.end), 'no sample is lost'),
                (self.done(), 'a packet that was found has been passed on')]

    def done(self):
        return self.pending is None or Not(self.pending.data.n > 0) if self.h.callback else True

    def check(self, label):
        for c, t in self.inv():
            self.vc.ensure(c, '%s: %s' % (label, t))

    def havoc(self):
        b = self.buf()
        for n in ('start', 'end'):
            setattr(b, n, SymInt(self.vc.fresh_int(n)))
        self.consumed = SymInt(self.vc.fresh_int('consumed'))
        self.pending = None
        self.newnin()

    def assume(self):
        for c, t in self.inv():
            if c is not True:
                self.vc.assume(c.e)
        self.vc.assume((self.consumed >= 0).e)

    def facts(self):
        return {'less than a block waits': self.atmost(self.buf().symlen())}

    # what the code calls
    def demodulate(self, d):
        vc = self.vc
        vc.ensure(self.done(), 'a packet that was found is passed on before the next block is demodulated')
        vc.ensure(d.start == self.consumed, 'blocks follow each other without gap or overlap')
        vc.ensure(self.isblock(d.end - d.start), 'each block has the number of samples the modem asks for')
        self.consumed = d.end
        self.k += 1
        n = SymInt(vc.fresh_int('len'))
        vc.assume((n >= 0).e)
        self.pending = types.SimpleNamespace(data=Data(n), crc_pass=1)
        self.newnin()
        return self.pending

    def callback(self, f):
        self.vc.ensure(f is self.pending, 'a packet is passed on once')
        self.vc.ensure(f.data.n > 0, 'only packets are passed on')
        self.pending = None


def add_samples(vc):
    m, lib, ffi = load(vc)
    iq = vc.flag('iq')
    ch = 2 if iq else 1
    rate = vc.pick('rate', [48000, 44100, 8000, 96000])
    cb = vc.flag('callback')
    h = m.HorusLib(stereo_iq=iq, sample_rate=rate, callback=(lambda f: g.callback(f)) if cb else None)
    if not vc.symbolic:
        return add_native(vc, m, lib, h, ch, rate, cb)
    g = Blocks(vc, lib, h, ch, rate)
    h.demodulate = g.demodulate
    vc.loops = {('add_samples', 0): g}
    # a state that the invariant allows
    g.havoc()
    g.total = g.buf().end
    g.assume()
    start = g.consumed
    k = SymInt(vc.fresh_int('added'))
    vc.assume((k >= 0).e)
    chunk = Stream(g.total, g.total + k)
    g.total = g.total + k
    r = vc.call(h.add_samples, chunk)
    vc.ensure(r.ok, 'samples can be added')
    for c, t in g.inv():
        vc.ensure(c, 'afterwards: ' + t)
    vc.ensure(g.atmost(g.buf().symlen()), 'not more than one block is left waiting')


def add_native(vc, m, lib, h, ch, rate, cb):
    seed = vc.int('seed', 0, 2 ** 30)
    rng = random.Random(seed)
    lib.cur = rng.randrange(10, 60)
    taken, frames, called = [], [], []
    h.callback = called.append if cb else None

    def demod(d):
        u = lib.cur * (rate / 48000)
        vc.ensure(len(d) % (2 * ch) == 0 and abs(len(d) / (2 * ch) - u) < 1 and (rate != 48000 or len(d) == 2 * ch * lib.cur), 'each block has the number of samples the modem asks for')
        taken.append(bytes(d))
        f = types.SimpleNamespace(data=b'x' * rng.choice([0, 0, 3]), n=len(frames))
        frames.append(f)
        lib.cur = rng.randrange(10, 60)
        return f
    h.demodulate = demod
    total = b''
    for i in range(vc.int('n', 0, 12)):
        d = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 7, 100, 237, 1000])))
        total += d
        nf = len(frames)
        r = vc.call(h.add_samples, d)
        vc.ensure(r.ok, 'samples can be added')
        got = b''.join(taken)
        vc.ensure(total.startswith(got), 'blocks follow each other without gap or overlap')
        left = len(total) - len(got)
        vc.ensure(left <= 2 * ch * lib.cur * (rate / 48000) + 2 * ch, 'not more than one block is left waiting')
        vc.ensure(r.value is (frames[-1] if len(frames) > nf else None), 'the last block of samples is returned')
        if cb:
            vc.ensure([f.n for f in called] == [f.n for f in frames if f.data], 'a packet is passed on once')
