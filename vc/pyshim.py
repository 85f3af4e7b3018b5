"""Contracts of the library functions the code calls, on symbolic values (concrete values use the real functions)."""
import types, sys, struct as rs, binascii as rb, builtins, importlib, datetime as rdt, time as rtime, json as rjson, copy as rcopy, codecs as rcodecs, math as rmath
import z3
from . import pyvc as V
from .pyvc import *
from .pyvc import Q, rv, iv

real_struct = rs


def get(eng, name, create=False):
    if name in eng.shims:
        return eng.shims[name]
    f = {'struct': mk_struct, 'binascii': mk_binascii, 'codecs': mk_codecs, 'time': mk_time, 'datetime': mk_datetime,
         'dateutil.parser': mk_dateutil, 'json': mk_json, 'logging': mk_logging, 'copy': mk_copy, 'gzip': mk_gzip,
         'unittest': mk_unittest, 'unittest.mock': mk_unittest, 'requests': mk_empty, 'socket': mk_empty, 'audioop': mk_empty, 'asn1tools': mk_asn1,
         '_horus_api_cffi': mk_cffi, 'traceback': mk_traceback, 'dateutil': mk_dateutil_pkg, 'math': mk_math, 'numpy': None}.get(name)
    if f is None:
        if create:
            f = mk_empty
        else:
            return None
    m = types.ModuleType(name)
    eng.shims[name] = m
    f(eng, m)
    return m


class Null:
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Null()

    def __call__(self, *a, **k):
        return Null()


def mk_empty(eng, m):
    pass


def mk_logging(eng, m):
    def f(*a, **k):
        return None
    for n in ('debug', 'info', 'warning', 'error', 'critical', 'exception', 'basicConfig', 'log'):
        setattr(m, n, f)
    m.DEBUG, m.INFO, m.WARNING, m.ERROR, m.CRITICAL = 10, 20, 30, 40, 50
    m.getLogger = lambda *a: m


def mk_traceback(eng, m):
    m.format_exc = lambda *a: 'traceback'
    m.print_exc = lambda *a, **k: None


def mk_unittest(eng, m):
    m.TestCase = type('TestCase', (), {})
    m.mock = Null()
    m.patch = Null()
    m.Mock = m.MagicMock = m.mock_open = Null()
    m.main = lambda *a: None


def mk_copy(eng, m):
    m.deepcopy = rcopy.deepcopy
    m.copy = lambda x: x if isinstance(x, Sym) else rcopy.copy(x)


def mk_asn1(eng, m):
    class Spec:
        def decode(self, *a, **k):
            raise ValueError('asn.1 decoding error')

        def encode(self, *a, **k):
            raise ValueError('asn.1 encoding error')
    m.compile_files = lambda *a, **k: Spec()


def mk_cffi(eng, m):
    m.lib = Null()
    m.ffi = Null()


# ---- struct
ITEM = {'c': 1, 'b': 1, 'B': 1, '?': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8, 'e': 2, 'f': 4, 'd': 8}


def parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if isinstance(fmt, Sym):
        raise Unsupported('symbolic struct format')
    order = '@'
    i = 0
    if fmt and fmt[0] in '<>=!@':
        order = fmt[0]
        i = 1
    if order == '@':
        if any(ch not in 'bBcsx0123456789 ' for ch in fmt[i:]) and len(fmt[i:].strip('0123456789 ')) > 1:
            raise Unsupported('native struct alignment')
        order = '<'
    if order == '=':
        order = '<'
    out = []
    n = ''
    for ch in fmt[i:]:
        if ch.isdigit():
            n += ch
            continue
        if ch.isspace():
            continue
        k = int(n) if n else 1
        n = ''
        if ch == 'x':
            out.append(('x', k))
        elif ch in 'sp':
            out.append((ch, k))
        elif ch in ITEM:
            out.extend([(ch, 1)] * k)
        else:
            raise rs.error('bad char in struct format')
    return order in '>!', out


def mk_struct(eng, m):
    m.error = rs.error
    m.calcsize = rs.calcsize

    def unpack(fmt, data):
        if not isinstance(data, SymBytes):
            return rs.unpack(fmt, data)
        if isinstance(data, EncText):
            raise Unsupported('unpack of text')
        big, items = parse_fmt(fmt)
        need = rs.calcsize(fmt)
        if len(data) != need:
            raise rs.error('unpack requires a buffer of %d bytes' % need)
        pos = 0
        out = []
        for ch, k in items:
            if ch == 'x':
                pos += k
                continue
            if ch == 's':
                out.append(data[pos:pos + k])
                pos += k
                continue
            n = ITEM.get(ch)
            if ch == 'p' or n is None:
                raise Unsupported('struct ' + ch)
            raw = data[pos:pos + n]
            pos += n
            if isinstance(raw, bytes):
                out.append(rs.unpack(('>' if big else '<') + ch, raw)[0])
            elif ch == 'f':
                out.append(f32(eng, raw[::-1] if big else raw))
            elif ch in 'de':
                raise Unsupported('struct ' + ch)
            elif ch == 'c':
                out.append(raw)
            elif ch == '?':
                out.append(raw.v[0] != 0)
            else:
                from .pyeng import from_bytes
                out.append(from_bytes(raw.v, not big, ch.islower()))
        return tuple(out)

    def pack(fmt, *args):
        from .pyeng import has_sym
        if not has_sym(list(args)):
            return rs.pack(fmt, *args)
        big, items = parse_fmt(fmt)
        args = list(args)
        if len([x for x in items if x[0] != 'x']) != len(args):
            raise rs.error('pack expected another number of items')
        out = b''
        for ch, k in items:
            if ch == 'x':
                out = out + bytes(k)
                continue
            v = args.pop(0)
            if ch == 's':
                if not isinstance(v, (bytes, bytearray, SymBytes)):
                    raise rs.error("argument for 's' must be a bytes object")
                v = v[:k]
                out = out + v + bytes(k - len(v))
                continue
            n = ITEM[ch]
            if not isinstance(v, Sym):
                out = out + rs.pack(('>' if big else '<') + ch, v)
                continue
            if ch == 'f':
                w = mkfl(v)
                if w is None:
                    raise rs.error('required argument is not a float')
                b = pack_f32(eng, w)
                out = out + (b[::-1] if big else b)
            elif ch in 'bBhHiIlLqQ':
                if isinstance(v, SymBool):
                    v = v._i()
                if not isinstance(v, SymInt):
                    raise rs.error('required argument is not an integer')
                bits = 8 * n
                lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if ch.islower() else (0, (1 << bits) - 1)
                if not bool(And(v >= lo, v <= hi)):
                    raise rs.error("'%s' format requires %d <= number <= %d" % (ch, lo, hi))
                u = mkint(z3.If(v.e < 0, v.e + (1 << bits), v.e)) if ch.islower() else v
                bs = [(u // (1 << (8 * i))) % 256 for i in range(n)]
                out = out + mkbytes(bs[::-1] if big else bs)
            else:
                raise Unsupported('pack ' + ch)
        return out

    m.unpack = unpack
    m.pack = pack
    m.unpack_from = lambda fmt, data, offset=0: unpack(fmt, data[offset:offset + rs.calcsize(fmt)])

    class Struct:
        def __init__(self, fmt):
            self.format, self.size = fmt, rs.calcsize(fmt)

        def unpack(self, d):
            return unpack(self.format, d)

        def pack(self, *a):
            return pack(self.format, *a)
    m.Struct = Struct


def f32(eng, raw):
    """the double value of four little-endian bytes: a function of the bytes"""
    if not isinstance(raw, SymBytes):
        return rs.unpack('<f', bytes(raw))[0]
    es = [iv(x.e if isinstance(x, SymInt) else x) for x in raw.v]
    key = tuple(e.get_id() for e in es)
    if key not in eng.f32map:
        I = z3.IntSort()
        fv = z3.Function('f32_value', I, I, I, I, z3.RealSort())
        fn = z3.Function('f32_nan', I, I, I, I, z3.BoolSort())
        r, n = fv(*es), fn(*es)
        eng.keep.append((r, n))
        eng.s.add(z3.Or(z3.And(r < 2 ** 128, r > -2 ** 128), r == V.INF, r == -V.INF))
        eng.f32map[key] = (raw.v, r, n)
    _, r, n = eng.f32map[key]
    return SymFloat(r, n)


def pack_f32(eng, w):
    if eng.branch(z3.And(z3.Not(w.nan), z3.Or(w.e >= 2 ** 128, w.e <= -2 ** 128), w.e < V.BIG, w.e > -V.BIG)):
        raise OverflowError('float too large to pack with f format')
    R, I = z3.RealSort(), z3.IntSort()
    nn = z3.If(w.nan, z3.IntVal(1), z3.IntVal(0))
    bs = [z3.Function('f32_byte%d' % i, R, I, I)(w.e, nn) for i in range(4)]
    for b in bs:
        eng.s.add(b >= 0, b <= 255)
    out = SymBytes([SymInt(b) for b in bs])
    back = f32(eng, out)
    ab = z3.If(w.e >= 0, w.e, -w.e)
    err = ab * z3.Q(1, 2 ** 24) + z3.Q(1, 2 ** 149)
    eng.s.add(back.nan == w.nan, z3.Implies(z3.Not(w.nan), z3.And(back.e - w.e <= err, w.e - back.e <= err)))
    eng.approx = True
    return out


# ---- binascii
def crc_hqx(eng, data, init):
    if isinstance(data, EncText):
        if init != 0xffff and not isinstance(init, int):
            raise Unsupported('crc')
        f = z3.Function('crc16_text', z3.StringSort(), z3.IntSort(), z3.IntSort())
        r = f(text_z(eng, data.t), iv(init))
        eng.s.add(r >= 0, r <= 65535)
        return SymInt(r)
    if isinstance(init, SymInt):
        prev = eng.crcs.get(init.e.get_id())
        if prev is None:
            raise Unsupported('crc with a symbolic start value')
        data, init = prev[0] + data, prev[1]
    if isinstance(data, (bytes, bytearray)):
        return rb.crc_hqx(data, init)
    if not isinstance(data, SymBytes):
        raise TypeError('a bytes-like object is required')
    es = [iv(x.e if isinstance(x, SymInt) else x) for x in data.v]
    f = z3.Function('crc16_%d' % len(es), *([z3.IntSort()] * (len(es) + 2)))
    r = f(*es, iv(init))
    eng.keep.append(r)
    eng.s.add(r >= 0, r <= 65535)
    eng.crcs[r.get_id()] = (data, init)
    return SymInt(r)


def text_z(eng, t):
    """the text as a z3 string; formatted values become functions of the value"""
    ps = []
    for x in SymStr.of(t).p:
        if isinstance(x, str):
            ps.append(z3.StringVal(x))
        elif x[0] == 'str':
            ps.append(x[1])
        elif x[0] == 'hex':
            ps.append(eng.strfun('hex_' + x[2] + str(len(x[1])), *[iv(b.e if isinstance(b, SymInt) else b) for b in x[1].v]))
        else:
            v = x[1]
            if isinstance(v, SymBool):
                v = v._i()
            if isinstance(v, (SymInt, int)):
                ps.append(eng.strfun('fmt_i_' + x[2], iv(SymInt.of(v))))
            elif isinstance(v, (SymFloat, float)):
                w = mkfl(v)
                ps.append(eng.strfun('fmt_f_' + x[2], w.e, w.nan))
            elif isinstance(v, Opaque):
                ps.append(z3.String('text_' + v.name))
            else:
                raise Unsupported('text of %r' % (v,))
    if not ps:
        return z3.StringVal('')
    return ps[0] if len(ps) == 1 else z3.Concat(*ps)


def mk_binascii(eng, m):
    m.crc_hqx = lambda d, i: crc_hqx(eng, d, i)
    m.Error = rb.Error

    def hexlify(d, *a):
        if isinstance(d, SymBytes):
            return d.hex().encode('ascii')
        return rb.hexlify(d, *a)
    m.hexlify = m.b2a_hex = hexlify
    m.unhexlify = m.a2b_hex = lambda s: eng.unhex(s.t if isinstance(s, EncText) else s) if isinstance(s, Sym) else rb.unhexlify(s)


def mk_codecs(eng, m):
    def encode(x, enc='utf-8', errors='strict'):
        if not isinstance(x, Sym):
            return rcodecs.encode(x, enc, errors)
        if enc in ('hex', 'hex_codec') and isinstance(x, SymBytes):
            return x.hex().encode('ascii')
        if isinstance(x, SymStr):
            return x.encode(enc)
        raise Unsupported('codecs.encode')

    def decode(x, enc='utf-8', errors='strict'):
        if not isinstance(x, Sym):
            return rcodecs.decode(x, enc, errors)
        if enc in ('hex', 'hex_codec'):
            return eng.unhex(x if isinstance(x, SymStr) else x.t)
        raise Unsupported('codecs.decode')
    m.encode, m.decode = encode, decode


# ---- time
class GmTime:
    def __init__(self, s):
        self.s = s
        self.tm_hour, self.tm_min, self.tm_sec = s // 3600 % 24, s // 60 % 60, s % 60


def strf(fmt, h, mi, s, whole):
    if fmt == '%H:%M:%S':
        from .pyeng import h_fstr
        r = h_fstr((h, '02d', None), ':', (mi, '02d', None), ':', (s, '02d', None))
        return r
    return SymStr([('fmt', whole, fmt)])


def mk_time(eng, m):
    def gmtime(s=None):
        if s is None:
            raise Unsupported('gmtime()')
        if isinstance(s, SymFloat):
            s = s.trunc()
        if isinstance(s, SymInt):
            return GmTime(s)
        return rtime.gmtime(s)

    def strftime(f, t=None):
        if isinstance(t, GmTime):
            if f != '%H:%M:%S':
                raise Unsupported('strftime ' + f)
            return strf(f, t.tm_hour, t.tm_min, t.tm_sec, None)
        return rtime.strftime(f, t)

    def now():
        k = ('clock', eng.n)
        t = SymFloat(z3.Real(eng.name('clock')))
        eng.s.add(t.e >= 0, t.e < 2 ** 40)
        last = getattr(eng, '_lastclock', None)
        return t
    m.gmtime, m.strftime, m.time = gmtime, strftime, now
    m.sleep = lambda x: None
    m.monotonic = now
    m.perf_counter = now


# ---- datetime: a point in time is an integer number of microseconds (UTC)
DAY = 86400 * 10 ** 6


class SymDT:
    """day number, second of the day and microsecond; (hour, minute, second) where they are known as such"""
    __pytype__ = rdt.datetime

    def __init__(self, us=None, day=None, sec=None, mic=0, hms=None):
        if us is not None:
            day, sec, mic = us // DAY, us // 10 ** 6 % 86400, us % 10 ** 6
        self.day, self.mic, self.hms = day, mic, hms
        self.sec = sec if hms is None else hms[0] * 3600 + hms[1] * 60 + hms[2]

    @property
    def us(self):
        return self.day * DAY + self.sec * 10 ** 6 + self.mic

    @property
    def hour(self):
        return self.hms[0] if self.hms else self.sec // 3600

    @property
    def minute(self):
        return self.hms[1] if self.hms else self.sec // 60 % 60

    @property
    def second(self):
        return self.hms[2] if self.hms else self.sec % 60

    @property
    def microsecond(self):
        return self.mic

    @property
    def tzinfo(self):
        return rdt.timezone.utc

    def replace(self, **k):
        if set(k) - {'hour', 'minute', 'second', 'microsecond', 'tzinfo'}:
            raise Unsupported('datetime.replace')
        h, mi, s, u = (k.get('hour', self.hour), k.get('minute', self.minute), k.get('second', self.second), k.get('microsecond', self.mic))
        for v, n in ((h, 24), (mi, 60), (s, 60), (u, 10 ** 6)):
            if not bool(And(v >= 0, v < n)):
                raise ValueError('out of range')
        return SymDT(day=self.day, mic=u, hms=(h, mi, s))

    def __add__(self, o):
        if isinstance(o, (SymTD, rdt.timedelta)):
            o = SymTD.of(o)
            mic = self.mic + o.mic
            carry = 0 if isinstance(o.mic, int) and o.mic == 0 else mic // 10 ** 6
            s = self.sec + o.sec + carry
            return SymDT(day=self.day + s // 86400, sec=s % 86400, mic=self.mic if isinstance(carry, int) and carry == 0 and isinstance(o.mic, int) else mic % 10 ** 6)
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, SymDT):
            return SymTD(self.us - o.us)
        if isinstance(o, rdt.datetime):
            raise Unsupported('datetime - constant')
        if isinstance(o, (SymTD, rdt.timedelta)):
            return self + (-SymTD.of(o))
        return NotImplemented

    def __lt__(self, o):
        return self.us < o.us

    def __gt__(self, o):
        return self.us > o.us

    def __le__(self, o):
        return self.us <= o.us

    def __ge__(self, o):
        return self.us >= o.us

    def __eq__(self, o):
        return isinstance(o, SymDT) and self.us == o.us
    __hash__ = None

    def strftime(self, f):
        return strf(f, self.hour, self.minute, self.second, self.us) if f == '%H:%M:%S' else SymStr([('fmt', self.us, 'strftime:' + f)])

    def isoformat(self, *a):
        return SymStr([('fmt', self.us, 'isoformat')])

    def timestamp(self):
        raise Unsupported('timestamp')

    def __deepcopy__(self, memo):
        return self


class SymTD:
    """whole seconds and microseconds (0..999999)"""
    def __init__(self, us=None, sec=None, mic=0):
        if us is not None:
            sec, mic = us // 10 ** 6, us % 10 ** 6
        self.sec, self.mic = sec, mic

    @property
    def us(self):
        return self.sec * 10 ** 6 + self.mic

    @staticmethod
    def of(x):
        if isinstance(x, SymTD):
            return x
        return SymTD(sec=x.days * 86400 + x.seconds, mic=x.microseconds)

    def __abs__(self):
        return SymTD(abs(self.us))

    def __neg__(self):
        if isinstance(self.mic, int) and self.mic == 0:
            return SymTD(sec=-self.sec)
        return SymTD(-self.us)

    def __add__(self, o):
        if isinstance(o, SymDT):
            return o + self
        return SymTD(self.us + SymTD.of(o).us)
    __radd__ = __add__

    def __sub__(self, o):
        return SymTD(self.us - SymTD.of(o).us)

    def __rsub__(self, o):
        return SymTD(SymTD.of(o).us - self.us)

    def __mul__(self, n):
        return SymTD(self.us * n)

    def total_seconds(self):
        us = self.us
        if isinstance(us, int):
            return us / 10 ** 6
        return SymFloat(V.E.round64(z3.ToReal(us.e) / 10 ** 6))

    @property
    def seconds(self):
        return self.sec % 86400

    @property
    def days(self):
        return self.sec // 86400

    def _c(self, o, f):
        return f(self.us, SymTD.of(o).us)

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)


def fresh_now(eng, name=None):
    d, s, u = [z3.Int(eng.name(name or 'now') + x) for x in ('.day', '.sec', '.mic')]
    eng.s.add(d >= 0, d < 10 ** 6, s >= 0, s < 86400, u >= 0, u < 10 ** 6)
    return SymDT(day=SymInt(d), sec=SymInt(s), mic=SymInt(u))


def mk_datetime(eng, m):
    m.timezone = rdt.timezone
    m.UTC = rdt.timezone.utc

    def timedelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        a = [days, seconds, microseconds, milliseconds, minutes, hours, weeks]
        if any(isinstance(x, SymFloat) for x in a):
            raise Unsupported('timedelta of a float')
        if any(isinstance(x, Sym) for x in a):
            sec = days * 86400 + seconds + minutes * 60 + hours * 3600 + weeks * 7 * 86400
            if isinstance(microseconds, int) and microseconds == 0 and isinstance(milliseconds, int) and milliseconds == 0:
                return SymTD(sec=sec)
            return SymTD(sec * 10 ** 6 + microseconds + milliseconds * 1000)
        return rdt.timedelta(days, seconds, microseconds, milliseconds, minutes, hours, weeks)
    m.timedelta = timedelta

    class DT:
        min, max = rdt.datetime.min, rdt.datetime.max

        def __call__(self, *a, **k):
            return rdt.datetime(*a, **k)

        def now(self, tz=None):
            if getattr(eng, 'clock', None) is not None:
                return eng.clock()
            return fresh_now(eng)
        utcnow = now

        def strptime(self, s, f):
            if not isinstance(s, SymStr):
                return rdt.datetime.strptime(s, f)
            z = s.z()
            tag = 'strptime_' + f
            ok = z3.Function(tag + '_ok', z3.StringSort(), z3.BoolSort())
            if not eng.branch(ok(z)):
                raise ValueError('time data does not match format')
            v = z3.Function(tag, z3.StringSort(), z3.IntSort())(z)
            eng.s.add(v >= 0, v < 86400)
            return SymDT(day=-25567, sec=SymInt(v))

        def fromtimestamp(self, *a, **k):
            raise Unsupported('fromtimestamp')

        def combine(self, *a, **k):
            raise Unsupported('combine')
    m.datetime = DT()
    m.date = rdt.date
    m.time = rdt.time


def mk_dateutil_pkg(eng, m):
    m.parser = get(eng, 'dateutil.parser')


def mk_dateutil(eng, m):
    from dateutil.parser import parse as rp

    def parse(s, default=None, **k):
        if isinstance(s, SymStr):
            p = s.p
            if len(p) == 5 and p[1] == ':' and p[3] == ':' and all(not isinstance(p[i], str) and p[i][0] == 'fmt' and p[i][2] == '02d' for i in (0, 2, 4)) and isinstance(default, SymDT):
                h, mi, se = p[0][1], p[2][1], p[4][1]
                if not bool(And(h >= 0, h < 24, mi >= 0, mi < 60, se >= 0, se < 60)):
                    raise ValueError('hour must be in 0..23')
                return default.replace(hour=h, minute=mi, second=se, microsecond=0)
            if len(p) == 1 and not isinstance(p[0], str) and p[0][0] == 'fmt' and p[0][2] == 'isoformat':
                return SymDT(p[0][1])
            raise Unsupported('dateutil parse')
        if isinstance(default, SymDT):
            raise Unsupported('dateutil parse of a constant')
        return rp(s, default=default, **k)
    m.parse = parse


# ---- json / gzip
def mk_json(eng, m):
    from .pyeng import has_sym

    def dumps(o, **k):
        if has_sym(o) or isinstance(o, FDict) or getattr(eng, 'json_opaque', False):
            return SymStr([('json', Frozen(o), '')])
        return rjson.dumps(o, **k)

    def loads(s, **k):
        if isinstance(s, Sym):
            f = getattr(eng, 'json_loads', None)
            if f is not None:
                return f(s)
            if isinstance(s, SymStr) and len(s.p) == 1 and not isinstance(s.p[0], str) and s.p[0][0] == 'json':
                return s.p[0][1].o
            raise Unsupported('json.loads')
        return fdict(rjson.loads(s, **k))
    m.dumps, m.loads = dumps, loads
    m.JSONDecodeError = rjson.JSONDecodeError


class Frozen:
    """a snapshot of the object that was serialised"""
    def __init__(self, o):
        self.o = rcopy.deepcopy(fdict(o))


class Gz(SymBytes):
    __slots__ = ('of_',)

    def __init__(self, o):
        self.of_ = o
        self.v = None
        self.prov = None

    def __len__(self):
        raise Unsupported('len')

    def symlen(self):
        n = V.E.fresh_int('gz')
        V.E.assume(n >= 1)
        return SymInt(n)

    def __repr__(self):
        return 'Gz'

    def __bool__(self):
        return True

    def decode(self, *a):
        raise Unsupported('decode')


def mk_gzip(eng, m):
    m.compress = lambda b, *a, **k: Gz(b)


def mk_math(eng, m):
    for n in dir(rmath):
        if n.startswith('_'):
            continue
        setattr(m, n, getattr(rmath, n))

    def isnan(x):
        if isinstance(x, SymFloat):
            return mkbool(x.nan)
        if isinstance(x, SymInt):
            return False
        return rmath.isnan(x)

    def isinf(x):
        if isinstance(x, SymFloat):
            return mkbool(z3.And(z3.Not(x.nan), z3.Or(x.e >= V.BIG, x.e <= -V.BIG)))
        if isinstance(x, SymInt):
            return False
        return rmath.isinf(x)

    def floor(x):
        if isinstance(x, SymFloat):
            x.trunc()
            return mkint(z3.ToInt(x.e))
        return x if isinstance(x, SymInt) else rmath.floor(x)

    def trunc(x):
        return x.trunc() if isinstance(x, SymFloat) else x if isinstance(x, SymInt) else rmath.trunc(x)

    def ceil(x):
        if isinstance(x, SymFloat):
            x.trunc()
            return mkint(-z3.ToInt(-x.e))
        return x if isinstance(x, SymInt) else rmath.ceil(x)
    m.isnan, m.isinf, m.floor, m.trunc, m.ceil = isnan, isinf, floor, trunc, ceil
    m.isfinite = lambda x: Not(Or(isnan(x), isinf(x)))
