"""Contracts of encoder.Encoder: packet creation, FEC wrapper, modulation symbols."""
from vc.pyvc import *
import z3
from py.binary import u, s, near


def clip(v, lo, hi):
    if isinstance(v, Sym):
        return mkint(z3.If(v.e < lo, lo, z3.If(v.e > hi, hi, v.e)))
    return min(max(v, lo), hi)


def tozero(x):
    """the integer part of a number"""
    return x.trunc() if isinstance(x, SymFloat) else x if isinstance(x, SymInt) else int(x)


def scaled(raw, x, k, lo, hi):
    """raw is the number x times k cut to an integer (to double rounding), limited to lo..hi"""
    if isinstance(raw, Sym) or isinstance(x, Sym):
        r = z3.ToReal(iv(SymInt.of(raw)))
        e = mkfl(x).e * k
        eps = z3.Q(1, 10 ** 6)
        ab = z3.If(e >= 0, e, -e)
        sg = z3.If(e >= 0, r, -r)
        return mkbool(z3.And(r >= lo, r <= hi,
                             z3.Implies(e >= hi + eps, r == hi), z3.Implies(e <= lo - eps, r == lo),
                             z3.Implies(z3.And(e < hi, e > lo), z3.And(sg <= ab + eps, sg > ab - 1 - eps))))
    e = Q(x) * k
    eps = Q(1, 10 ** 6)
    if not lo <= raw <= hi:
        return False
    if e >= hi + eps:
        return raw == hi
    if e <= lo - eps:
        return raw == lo
    if lo < e < hi:
        sg, ab = (raw, e) if e >= 0 else (-raw, -e)
        return ab - 1 - eps < sg <= ab + eps
    return True


def number(vc, name, lo, hi):
    """an int or a float"""
    if vc.flag(name + ' is int'):
        return vc.int(name, lo, hi)
    return vc.float(name + '.f', lo, hi)


def encoder(vc):
    m = vc.module('horusdemodlib.encoder')
    return m, m.Encoder()


def check(vc, p, want, label):
    vc.ensure(want, label)


def create(group):
    """all parameters are arbitrary; those of `group` range over far more than their field can hold"""
    def contract(vc):
        m, enc = encoder(vc)
        W = 10 ** 9

        def num(name, lo, hi):
            if name in group:
                return number(vc, name, -W, W)
            return vc.float(name, lo, hi)
        kw = dict(payload_id=vc.int('payload_id', 256, 65535), sequence_number=vc.int('sequence_number', -W, W) if 'sequence_number' in group else vc.int('sequence_number', 0, 65535))
        if 'time' in group and vc.flag('clock'):
            if vc.symbolic:
                from vc import pyshim
                us = z3.Int('now_us')
                vc.s.add(us >= 0, us < 10 ** 17)
                t = pyshim.SymDT(SymInt(us))
                vc.inputs['now_us'] = ('int', us)
            else:
                import datetime
                us = vc.int('now_us', 0, 4 * 10 ** 15)
                t = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(microseconds=us)
            kw['time_dt'] = t
            h, mi, se = t.hour, t.minute, t.second
        else:
            lim = 10 ** 6 if 'time' in group else 0
            h0, m0, s0 = vc.int('hours', -lim, 23 + lim), vc.int('minutes', -lim, 59 + lim), vc.int('seconds', -lim, 59 + lim)
            kw.update(hours=h0, minutes=m0, seconds=s0)
            h, mi, se = clip(h0, 0, 23), clip(m0, 0, 59), clip(s0, 0, 59)
        lat, lon = vc.float('latitude', -180.0, 180.0), vc.float('longitude', -180.0, 180.0)
        a = dict(altitude=num('altitude', 0.0, 65535.0), speed=num('speed', 0.0, 255.0), satellites=num('satellites', 0.0, 255.0), temperature=num('temperature', -128.0, 127.0),
                 battery_voltage=num('battery_voltage', 0.0, 5.0), ascent_rate=num('ascent_rate', -327.0, 327.0), ext_temperature=num('ext_temperature', -3276.0, 3276.0),
                 ext_humidity=num('ext_humidity', 0.0, 255.0), ext_pressure=num('ext_pressure', 0.0, 6553.0))
        r = vc.call(enc.create_horus_v2_packet, latitude=lat, longitude=lon, return_uncoded=True, **kw, **a)
        vc.ensure(r.ok, 'a packet is made for every number')
        p = r.value
        vc.ensure(len(p) == 32, 'the packet has 32 bytes')
        vc.ensure(u(p[30:32]) == vc.crc16(p[:30]), 'the packet ends with the checksum of its first 30 bytes')
        vc.ensure(vc.same(u(p[0:2]), kw['payload_id']), 'payload ID field')
        vc.ensure(u(p[2:4]) == kw['sequence_number'] % 65536, 'the sequence number wraps at 65536')
        vc.ensure(And(p[4] == h, p[5] == mi, p[6] == se), 'time fields, limited to 23:59:59')
        for nm, x, b in (('latitude', lat, p[7:11]), ('longitude', lon, p[11:15])):
            y = vc.f32(b)
            vc.ensure(close(y, x), nm + ' to single precision')
        vc.ensure(scaled(u(p[15:17]), a['altitude'], 1, 0, 65535), 'altitude field, limited to its range')
        vc.ensure(scaled(p[17], a['speed'], 1, 0, 255), 'speed field, limited to its range')
        vc.ensure(scaled(p[18], a['satellites'], 1, 0, 255), 'satellites field, limited to its range')
        vc.ensure(scaled(s(p[19:20]), a['temperature'], 1, -128, 127), 'temperature field, limited to its range')
        vc.ensure(scaled(p[20], a['battery_voltage'], 51, 0, 255), 'battery voltage field in steps of 5V/255, limited to its range')
        vc.ensure(scaled(s(p[21:23]), a['ascent_rate'], 100, -32768, 32767), 'ascent rate field in cm/s, limited to its range')
        vc.ensure(scaled(s(p[23:25]), a['ext_temperature'], 10, -32768, 32767), 'external temperature field in 0.1 degrees, limited to its range')
        vc.ensure(scaled(p[25], a['ext_humidity'], 1, 0, 255), 'humidity field, limited to its range')
        vc.ensure(scaled(u(p[26:28]), a['ext_pressure'], 10, 0, 65535), 'pressure field in 0.1 hPa, limited to its range')
        vc.ensure(And(p[28] == 0, p[29] == 0), 'unused custom bytes are zero')
    return contract


def close(y, x):
    if isinstance(x, Sym) or isinstance(y, Sym):
        a, b = mkfl(x).e, mkfl(y).e
        ab = z3.If(a >= 0, a, -a)
        return mkbool(z3.And(z3.Not(mkfl(y).nan), b - a <= ab * z3.Q(1, 2 ** 24) + z3.Q(1, 2 ** 100), a - b <= ab * z3.Q(1, 2 ** 24) + z3.Q(1, 2 ** 100)))
    return abs(x - y) <= abs(x) * 2.0 ** -23 + 1e-30


GROUPS = {'time': ('time', 'sequence_number'), 'position': ('altitude', 'speed', 'satellites'), 'status': ('temperature', 'battery_voltage'),
          'custom1': ('ascent_rate', 'ext_temperature'), 'custom2': ('ext_humidity', 'ext_pressure')}
create_time, create_position, create_status, create_custom1, create_custom2 = [create(GROUPS[k]) for k in ('time', 'position', 'status', 'custom1', 'custom2')]


def create_refuse(vc):
    m, enc = encoder(vc)
    pid = vc.int('payload_id', -10 ** 6, 10 ** 6)
    kw = dict(payload_id=pid, hours=1, minutes=2, seconds=3)
    cd = None
    c = vc.choose(3, 'custom')
    if c:
        cd = vc.bytes('custom_data', 9 if c == 1 else 8)
    r = vc.call(enc.create_horus_v2_packet, custom_data=cd, return_uncoded=True, **kw)
    if r.ok:
        vc.ensure(And(pid >= 256, pid <= 65535), 'payload IDs outside of 256..65535 are refused')
        if c == 1:
            vc.ensure(r.value[21:30] == cd, 'custom data of nine bytes is sent unchanged')
        else:
            vc.ensure(len(r.value) == 32, 'custom data of another size does not change the packet size')
    else:
        vc.ensure(isinstance(r.exc, ValueError), 'a payload ID is refused with ValueError')
        vc.ensure(Or(pid < 256, pid > 65535), 'payload IDs from 256 to 65535 are accepted')


# ---- FEC wrapper
def air(n):
    return 2 + n + ((8 * n + 11) // 12 * 11 + 7) // 8


class Lib:
    """contract of libhorus (proved for the C code by the checks C02, C03, C04)"""
    def __init__(self, vc):
        self.vc = vc
        self.n = 0

    def horus_l2_init(self):
        pass

    def horus_l2_get_num_tx_data_bytes(self, n):
        return air(int(n))

    def horus_l2_encode_tx_packet(self, out, inp, n):
        if len(out.v) < air(n) or len(inp.v) < n:
            raise Unsupported('precondition of horus_l2_encode_tx_packet: buffers')
        out.v[:air(n)] = frame(self.vc, mkbytes(inp.v[:n])).v
        return air(n)

    def horus_l2_decode_rx_packet(self, out, inp, n):
        if len(out.v) < n or len(inp.v) < air(n):
            raise Unsupported('precondition of horus_l2_decode_rx_packet: buffers')
        out.v[:n] = deframe(self.vc, mkbytes(inp.v[:air(n)]), n).v


def uf(tag, data, n):
    es = [iv(x.e if isinstance(x, SymInt) else x) for x in data]
    out = []
    for i in range(n):
        f = z3.Function('%s_%d_%d' % (tag, len(es), i), *([z3.IntSort()] * (len(es) + 1)))
        e = f(*es)
        E_().s.add(e >= 0, e <= 255)
        out.append(SymInt(e))
    return SymBytes(out)


def E_():
    from vc import pyvc
    return pyvc.E


def frame(vc, p):
    return uf('frame', list(p), air(len(p)))


def deframe(vc, p, n):
    return uf('deframe%d' % n, list(p), n)


class Buf:
    def __init__(self, v):
        self.v = list(v)

    def to_symbytes(self):
        return mkbytes(self.v)

    def __getitem__(self, i):
        return mkbytes(self.v[i]) if isinstance(i, slice) else self.v[i]

    def __len__(self):
        return len(self.v)


class Ffi:
    def new(self, t, init=None):
        if t.replace(' ', '') not in ('char[]', 'unsignedchar[]', 'uint8_t[]'):
            raise Unsupported('ffi.new ' + t)
        if isinstance(init, (bytes, SymBytes)):
            return Buf(list(init) + [0])
        if isinstance(init, bytearray):
            raise TypeError('initializer for char[] must be bytes')
        return Buf([0] * init)

    def buffer(self, b, n=None):
        return Buf(b.v[:n] if n is not None else b.v)

    def from_buffer(self, *a):
        return Buf(list(a[-1]))


SIZES = [16, 22, 32, 48, 64, 96, 128, 1, 3]


def fec(vc):
    n = vc.pick('n', SIZES)
    p = vc.bytes('payload', n)
    if vc.symbolic:
        vc.stub('_horus_api_cffi', lib=Lib(vc), ffi=Ffi())
    m, enc = encoder(vc)
    r = vc.call(enc.horus_l2_encode_packet, p)
    vc.ensure(r.ok, 'a payload is encoded')
    coded, k = r.value
    vc.ensure(vc.same(k, air(n)), 'the number of bytes is the documented frame length')
    vc.ensure(len(coded) == air(n), 'the frame has the documented length')
    if vc.symbolic:
        vc.ensure(coded == frame(vc, p), 'the frame is the one the FEC encoder made of exactly the payload bytes')
        q = vc.bytes('frame', air(n))
        d = vc.call(enc.horus_l2_decode_packet, q, n)
        vc.ensure(d.ok and len(d.value) == n and d.value == deframe(vc, q, n), 'decoding returns what the FEC decoder made of exactly the received bytes')
    else:
        vc.ensure(coded == native_frame(p), 'the frame is the one the FEC encoder made of exactly the payload bytes')
        d = vc.call(enc.horus_l2_decode_packet, coded, n)
        vc.ensure(d.ok and d.value == p, 'decoding returns what the FEC decoder made of exactly the received bytes')


def fec_types(vc):
    if vc.symbolic:
        vc.stub('_horus_api_cffi', lib=Lib(vc), ffi=Ffi())
    m, enc = encoder(vc)
    x = vc.pick('bad', ['2424', None, [1, 2], 17])
    for f, a in ((enc.horus_l2_encode_packet, (x,)), (enc.horus_l2_decode_packet, (x, 22))):
        r = vc.call(f, *a)
        vc.ensure(not r.ok and isinstance(r.exc, TypeError), 'anything but bytes is refused with TypeError')


def coded(vc):
    """create_horus_v2_packet returns the coded form of the packet return_uncoded gives"""
    if vc.symbolic:
        vc.stub('_horus_api_cffi', lib=Lib(vc), ffi=Ffi())
    m, enc = encoder(vc)
    kw = dict(payload_id=vc.int('id', 256, 65535), sequence_number=vc.int('seq', 0, 65535), hours=1, minutes=2, seconds=3, custom_data=vc.bytes('custom', 9))
    a = vc.call(enc.create_horus_v2_packet, return_uncoded=True, **kw)
    b = vc.call(enc.create_horus_v2_packet, **kw)
    vc.ensure(a.ok and b.ok, 'coded and uncoded packets are made')
    want = frame(vc, a.value) if vc.symbolic else native_frame(a.value)
    vc.ensure(b.value == want, 'the coded packet is the frame of the uncoded packet')


def native_frame(p):
    """the frame, from the description of the format"""
    n = len(p)
    bits = [(p[i // 8] >> (7 - i % 8)) & 1 for i in range(8 * n)]
    out = list(bits)
    for k in range((8 * n + 11) // 12):
        w = bits[12 * k:12 * k + 12]
        v = 0
        for b in w:
            v = v << 1 | b
        if len(w) < 12:
            v <<= 1
        r = v << 11
        for i in range(22, 10, -1):
            if r >> i & 1:
                r ^= 0xC75 << (i - 11)
        out += [(r >> (10 - i)) & 1 for i in range(11)]
    nb = air(n)
    ilb = 8 * (nb - 2)
    out += [0] * (ilb - len(out))
    B = coprime(ilb)
    body = [0] * ilb
    for lg, bit in enumerate(out):
        k = lg // 8 * 8 + 7 - lg % 8
        body[B * k % ilb] = bit
    st = 0x4a80
    for i in range(ilb):
        o = ((st >> 1) ^ st) & 1
        st = (st >> 1) | (o << 14)
        body[i] ^= o
    return b'$$' + bytes(sum(body[8 * i + j] << j for j in range(8)) for i in range(nb - 2))


def coprime(ilb):
    """the interleaver multiplier of the format for this many bits"""
    b = ilb // 8
    if b in (43, 63):
        return {43: 337, 63: 389}[b]
    k = int(b * 8 / 1.62)
    while True:
        k += 1
        if all(k % d for d in range(2, int(k ** 0.5) + 1)):
            return k


# ---- modulation
def symbols(vc):
    n = vc.pick('n', [0, 1, 2, 3, 22, 32, 45, 47, 65, 96, 129])
    pre = vc.pick('preamble', [0, 1, 8, 16])
    p = vc.bytes('packet', n)
    m, enc = encoder(vc)
    full = [0x1b] * pre + list(p)
    r = vc.call(enc.bytes_to_4fsk_symbols, p, pre)
    vc.ensure(r.ok and len(r.value) == 4 * len(full), 'four symbols per byte, preamble first')
    for i, b in enumerate(full):
        for k in range(4):
            vc.ensure(vc.same(r.value[4 * i + k], b // 4 ** (3 - k) % 4), 'symbols are the bit pairs, most significant first')
    r = vc.call(enc.bytes_to_onebitperbyte, p, pre)
    vc.ensure(r.ok and len(r.value) == 8 * len(full), 'eight bits per byte, preamble first')
    for i, b in enumerate(full):
        for k in range(8):
            vc.ensure(vc.same(r.value[8 * i + k], b // 2 ** (7 - k) % 2), 'one byte per bit, most significant first')


def symbols_default(vc):
    m, enc = encoder(vc)
    p = vc.bytes('packet', 4)
    r, q = vc.call(enc.bytes_to_4fsk_symbols, p), vc.call(enc.bytes_to_4fsk_symbols, p, 8)
    vc.ensure(r.ok and q.ok and same_list(vc, r.value, q.value), 'the default preamble has eight bytes')
    r, q = vc.call(enc.bytes_to_onebitperbyte, p), vc.call(enc.bytes_to_onebitperbyte, p, 8)
    vc.ensure(r.ok and q.ok and r.value == q.value, 'the default preamble has eight bytes (one bit per byte)')


def same_list(vc, a, b):
    return And(*[vc.same(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
