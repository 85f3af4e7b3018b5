"""Contracts of the binary packet decoder (decoder.decode_packet and what it calls): v1 and v2 packets."""
from vc.pyvc import *
import z3
FIELDS = {
    # size: (name in 'modulation', [(key, kind)])   written from the published packet format, not from the code
    22: ('Horus Binary v1', [('payload_id', 'id8'), ('sequence_number', 'u16'), ('time', 'hms'), ('latitude', 'f32'), ('longitude', 'f32'), ('altitude', 'u16'),
                             ('speed', 'u8'), ('satellites', 'u8'), ('temperature', 's8'), ('battery_voltage', 'batt')]),
    16: ('Horus Binary v2', [('payload_id', 'id8'), ('sequence_number', 'u8'), ('time', 'bisec'), ('latitude', 'fix3'), ('longitude', 'fix3'), ('altitude', 'u16'),
                             ('battery_voltage', 'batt'), ('flags', 'u8')]),
    32: ('Horus Binary v2', [('payload_id', 'id16'), ('sequence_number', 'u16'), ('time', 'hms'), ('latitude', 'f32'), ('longitude', 'f32'), ('altitude', 'u16'),
                             ('speed', 'u8'), ('satellites', 'u8'), ('temperature', 's8'), ('battery_voltage', 'batt'), ('custom', 'custom')]),
}
SIZE = {'id8': 1, 'id16': 2, 'u8': 1, 'u16': 2, 's8': 1, 's16': 2, 'u32': 4, 's32': 4, 'hms': 3, 'bisec': 2, 'f32': 4, 'fix3': 3, 'batt': 1, 'custom': 9,
        'batt5': 1, 'd10s': 2, 'd10u': 2, 'd100s': 2}


def u(b):
    v = 0
    for i in range(len(b)):
        v = v + b[i] * (1 << (8 * i))
    return v


def s(b):
    v = u(b)
    n = 8 * len(b)
    if isinstance(v, int):
        return v - (1 << n) if v >= (1 << (n - 1)) else v
    return mkint(z3.If(v.e >= (1 << (n - 1)), v.e - (1 << n), v.e))


def near(v, num, den):
    """|v - num/den| is within double rounding"""
    if isinstance(v, SymFloat) or isinstance(num, Sym):
        w = mkfl(v)
        if w is None:
            return False
        n = num.e if isinstance(num, SymInt) else rv(num)
        n = z3.ToReal(n) if z3.is_int(n) else n
        d = w.e - n / rv(den)
        return mkbool(z3.And(z3.Not(w.nan), d < z3.Q(1, 10 ** 9), d > z3.Q(-1, 10 ** 9)))
    return isinstance(v, float) and abs(v - num / den) < 1e-9


def names(vc, mod):
    """an arbitrary payload ID list (all callsigns ASCII text)"""
    if vc.symbolic:
        I, S = z3.IntSort(), z3.StringSort()
        has, val = z3.Function('listed', I, z3.BoolSort()), z3.Function('callsign', I, S)

        def get(k):
            z = val(iv(SymInt.of(k)))
            vc.assume(vc.ascii(z))
            vc.assume(z3.Length(z) > 0)
            return SymStr([('str', z, '')])
        m = SymMap('payload list', lambda k: mkbool(has(iv(SymInt.of(k)))), get)
    else:
        n = vc.int('names', 0, 6)
        m = {}
        for i in range(0, 65536, 257) if n == 6 else range(256) if n == 5 else [0, 1, 256, 257, 65535][:n]:
            m[i] = 'CALL-%d' % i if i not in (1, 257) else 'HORUSTEST' if i == 1 else 'HORUSTEST2'
    mod.HORUS_PAYLOAD_LIST = m
    return m


def field(vc, kind, b, names, out, key):
    """(condition under which the field is valid, condition that out[key] and its text are right, text)"""
    v = out.get(key) if out is not None else None
    T, F = True, False
    if kind in ('id8', 'id16'):
        k = u(b)
        want = names[k] if k in names else 'UNKNOWN_PAYLOAD_ID'
        return T, lambda: vc.same(v, want), lambda: want
    if kind in ('u8', 'u16', 'u32'):
        return T, lambda: vc.same(v, u(b)), lambda: vc.fmt(u(b))
    if kind in ('s8', 's16', 's32'):
        return T, lambda: vc.same(v, s(b)), lambda: vc.fmt(s(b))
    if kind == 'hms':
        ok = And(b[0] < 24, b[1] < 60, b[2] < 60)
        return ok, lambda: vc.same(v, hms(vc, b[0], b[1], b[2])), lambda: hms(vc, b[0], b[1], b[2])
    if kind == 'bisec':
        k = u(b)
        t = k * 2 % 86400
        return And(k <= 43200), lambda: vc.same(v, hms(vc, t // 3600, t // 60 % 60, t % 60)), lambda: hms(vc, t // 3600, t // 60 % 60, t % 60)
    if kind == 'f32':
        x = vc.f32(b)
        return And(x >= -180.0, x <= 180.0), lambda: vc.same(v, x), lambda: vc.fmt(x, '.5f')
    if kind == 'f32any':
        x = vc.f32(b)
        return T, lambda: vc.same(v, x), lambda: vc.fmt(x, '.6f')
    if kind == 'fix3':
        k = s(b) * 256
        # the nearest representable values of +-180 degrees are one step of 2.56e-5 apart: no rounding question at the limit
        return And(k >= -1800000000, k <= 1800000000), lambda: near(v, k, 10 ** 7), lambda: vc.fmt(v, '.5f')
    if kind in ('batt', 'batt5'):
        return T, lambda: near(v, u(b) * 5, 255), lambda: vc.fmt(v, '.2f')
    if kind == 'd10s':
        return T, lambda: near(v, s(b), 10), lambda: vc.fmt(v, '.1f')
    if kind == 'd10u':
        return T, lambda: near(v, u(b), 10), lambda: vc.fmt(v, '.1f')
    if kind == 'd100s':
        return T, lambda: near(v, s(b), 100), lambda: vc.fmt(v, '.2f')
    if kind == 'd100u':
        return T, lambda: near(v, u(b), 100), lambda: vc.fmt(v, '.2f')
    raise Unsupported(kind)


def hms(vc, h, m, s):
    return vc.cat(vc.fmt(h, '02d'), ':', vc.fmt(m, '02d'), ':', vc.fmt(s, '02d'))


# the built-in custom field definitions, as layouts
CUSTOM = {
    'HORUSTEST': [('cutdown_battery_voltage', 'batt', 1), ('external_temperature', 's8', 1), ('test_counter', 'u8', 1), ('test_float_field', 'f32any', 4), ('test_int_field', 'u16', 2)],
    'HORUSTEST2': [('cutdown_battery_voltage', 'batt', 1), ('external_temperature', 's8', 1), ('test_counter', 'u8', 1), ('test_int_field', 'u16', 2), (None, None, 4)],
    '4FSKTEST-V2': [('ascent_rate', 'd100s', 2), ('ext_temperature', 'd10s', 2), ('ext_humidity', 'u8', 1), ('ext_pressure', 'd10u', 2), (None, None, 2)],
}


def packet(vc, n):
    def gen(r):
        import struct
        out = b''
        for key, kind in FIELDS.get(n, FIELDS[32])[1]:
            if kind == 'hms':
                out += bytes([r.randrange(24), r.randrange(60), r.randrange(60)])
            elif kind == 'f32':
                out += struct.pack('<f', r.choice([r.uniform(-180, 180), 0.0, 180.0, -180.0]))
            elif kind == 'id16':
                out += struct.pack('<H', r.choice([0, 1, 256, 257, 258, 514, 65535, 300]))
            else:
                out += bytes(r.randrange(256) if r.random() < 0.7 else r.choice([0, 1, 128, 255]) for _ in range(SIZE[kind]))
        return (out + bytes(n))[:n - 2]
    body = vc.bytes('body', n - 2, gen=gen)
    return body, body + vc.le16(vc.crc16(body))


def decode(n):
    def contract(vc):
        m = vc.module('horusdemodlib.decoder')
        pl = vc.module('horusdemodlib.payloads')
        nm = names(vc, pl)
        body, data = packet(vc, n)
        # not at the same time a packet of version 3 (the checksum of version 3 is in front)
        vc.assume(Not(u(data[:2]) == vc.crc16(data[2:])))
        r = vc.call(m.decode_packet, data)
        out = r.value if r.ok else None
        mod, fields = FIELDS[n]
        pos = 0
        valid, value, text, cust = True, [], [], None
        for key, kind in fields:
            b = data[pos:pos + SIZE[kind]]
            pos += SIZE[kind]
            if kind == 'custom':
                cust = b
                continue
            ok, val, txt = field(vc, kind, b, nm, out, key)
            valid = And(valid, ok)
            value.append((key, val))
            text.append(txt)
        if not r.ok:
            vc.ensure(isinstance(r.exc, ValueError), 'a packet is refused with ValueError only')
            vc.ensure(Not(valid), 'only packets with an impossible time or position are refused')
            return
        vc.ensure(valid, 'a packet with an impossible time or position is refused')
        vc.ensure(type(out) in (dict, FDict), 'the result is a dictionary')
        for key, val in value:
            vc.ensure(key in out and val(), '%d byte packet: field %s has the transmitted value' % (n, key))
        texts = [t() for t in text]
        if cust is not None:
            cs = out['payload_id']
            lay = None
            for k in CUSTOM:
                if cs == k:
                    lay = CUSTOM[k]
            if lay is None:
                lay = CUSTOM['4FSKTEST-V2']
            p = 0
            keys = []
            for key, kind, w in lay:
                if key is not None:
                    ok, val, txt = field(vc, kind, cust[p:p + w], nm, out, key)
                    vc.ensure(key in out and val(), 'custom field %s has the transmitted value' % key)
                    texts.append(txt())
                    keys.append(key)
                p += w
            vc.ensure(out.get('custom_field_names') == keys, 'the names of the custom fields are reported')
        vc.ensure(vc.same(out.get('modulation'), mod), 'the modulation is reported')
        vc.ensure(out.get('crc_ok') is True, 'a decoded packet is marked as checked')
        vc.ensure(vc.same(out.get('callsign'), out['payload_id']), 'the callsign is the name of the payload ID')
        vc.ensure(vc.same(out.get('raw'), vc.hexup(data)), 'raw is the packet in upper case hexadecimal')
        sent = [x for t in texts for x in (',', t)][1:]
        sent = vc.cat(*sent)
        crc = vc.crc16(sent.encode('ascii'))
        vc.ensure(vc.same(out.get('ukhas_str'), vc.cat('$$', sent, '*', vc.fmt(crc, '04X'))), 'the UKHAS sentence has the fields in order and its checksum')
    return contract


decode22, decode16, decode32 = decode(22), decode(16), decode(32)


def gate(vc):
    """whatever the bytes and the size, without a matching checksum nothing is reported"""
    m = vc.module('horusdemodlib.decoder')
    names(vc, vc.module('horusdemodlib.payloads'))
    n = vc.pick('n', [3, 4, 15, 16, 17, 21, 22, 23, 31, 32, 33, 48, 64, 96, 128, 200, 0, 1, 2])
    data = vc.bytes('data', n)
    r = vc.call(m.decode_packet, data)
    if n < 3:
        vc.ensure(not r.ok and isinstance(r.exc, ValueError), 'too short data is refused')
        return
    head = u(data[:2]) == vc.crc16(data[2:])
    tail = u(data[-2:]) == vc.crc16(data[:-2])
    if r.ok:
        vc.ensure(Or(head, And(tail, n in (16, 22, 32))), 'nothing is reported unless a checksum of the packet matches')
        vc.ensure(r.value.get('crc_ok') is True, 'what is reported is marked as checked')
    elif vc.holds(Not(head)):
        vc.ensure(isinstance(r.exc, ValueError), 'data without a matching checksum is refused with ValueError')


def gate_format(vc):
    """a packet format given by the caller: still only packets of that length with a matching checksum"""
    m = vc.module('horusdemodlib.decoder')
    names(vc, vc.module('horusdemodlib.payloads'))
    f = vc.pick('f', ['horus_binary_v1', 'horus_binary_v2_16byte', 'horus_binary_v2_32byte'])
    want = {'horus_binary_v1': 22, 'horus_binary_v2_16byte': 16, 'horus_binary_v2_32byte': 32}[f]
    n = vc.pick('n', [16, 22, 32, 31, 33])
    if vc.flag('good'):
        body, data = packet(vc, n)
    else:
        data = vc.bytes('data', n)
    r = vc.call(m.decode_packet, data, m.HORUS_PACKET_FORMATS[f])
    tail = u(data[-2:]) == vc.crc16(data[:-2])
    if r.ok:
        vc.ensure(And(tail, n == want), 'with a given format, only packets of that size with a matching checksum are reported')
    else:
        vc.ensure(isinstance(r.exc, ValueError), 'with a given format, a packet is refused with ValueError only')


def helpers(vc):
    m = vc.module('horusdemodlib.checksums')
    n = vc.pick('n', [0, 1, 2, 3, 16, 22, 32, 48, 96, 128])
    d = vc.bytes('d', n)
    r = vc.call(m.ukhas_crc, d)
    vc.ensure(r.ok and vc.same(r.value, vc.fmt(vc.crc16(d), '04X')), 'the UKHAS checksum is four upper case hexadecimal digits of the CRC')
    for tail in (True, False):
        r = vc.call(m.add_packet_crc, d, tail=tail)
        c = vc.le16(vc.crc16(d))
        vc.ensure(r.ok and vc.same(r.value, d + c if tail else c + d), 'adding a checksum puts the CRC, low byte first, at the stated end')
        p = r.value
        q = vc.call(m.check_packet_crc, p, tail=tail)
        vc.ensure(vc.same(q.value, True) if n >= 1 else (not q.ok), 'what add_packet_crc produced is accepted by check_packet_crc')
    if n >= 3:
        r = vc.call(m.check_packet_crc, d)
        vc.ensure(r.ok and vc.same(r.value, u(d[-2:]) == vc.crc16(d[:-2])), 'check_packet_crc accepts exactly the matching tail checksums')
        r = vc.call(m.check_packet_crc, d, tail=False)
        vc.ensure(r.ok and vc.same(r.value, u(d[:2]) == vc.crc16(d[2:])), 'check_packet_crc accepts exactly the matching head checksums')
    else:
        r = vc.call(m.check_packet_crc, d)
        vc.ensure(not r.ok and isinstance(r.exc, ValueError), 'check_packet_crc refuses data that is too short')


# struct code, field type -> kind, width
CODES = [('B', 'none', 'u8', 1), ('b', None, 's8', 1), ('H', 'None', 'u16', 2), ('h', 'none', 's16', 2), ('I', 'none', 'u32', 4), ('i', 'none', 's32', 4),
         ('f', 'none', 'f32any', 4), ('B', 'battery_5v_byte', 'batt', 1), ('h', 'divide_by_10', 'd10s', 2), ('H', 'divide_by_10', 'd10u', 2),
         ('h', 'divide_by_100', 'd100s', 2), ('H', 'divide_by_100', 'd100u', 2)]
SIZE.update(f32any=4, d100u=2)


def layouts():
    """layouts of nine bytes in which every pair of neighbouring field types occurs"""
    out = []
    for i, a in enumerate(CODES):
        for b in CODES:
            lay, left = [a, b], 9 - a[3] - b[3]
            k = i
            while left:
                c = CODES[k % len(CODES)]
                k += 1
                if c[3] <= left:
                    lay.append(c)
                    left -= c[3]
            out.append(lay)
    return out


LAYOUTS = layouts()


def custom(vc):
    """any custom field definition: the values and texts are those the definition gives the nine bytes"""
    m = vc.module('horusdemodlib.delegates')
    pl = vc.module('horusdemodlib.payloads')
    lay = LAYOUTS[vc.pick('layout', list(range(len(LAYOUTS))))]
    pl.HORUS_CUSTOM_FIELDS = {'NODE': {'struct': '<' + ''.join(c[0] for c in lay), 'fields': [['field%d' % i, c[1]] for i, c in enumerate(lay)]}}
    data = vc.bytes('custom', 9)
    r = vc.call(m.decode_custom_fields, data, 'NODE')
    vc.ensure(r.ok, 'nine bytes are decoded with every definition of nine bytes')
    out, text = r.value
    p = 0
    texts = []
    for i, c in enumerate(lay):
        key = 'field%d' % i
        ok, val, txt = field(vc, c[2], data[p:p + c[3]], None, out, key)
        p += c[3]
        vc.ensure(key in out and val(), 'a field of type %s, %s has its value' % (c[0], c[1]))
        texts.append(txt())
    vc.ensure(len(out) == len(lay), 'there are no other fields')
    vc.ensure(vc.same(text, vc.cat(*[x for t in texts for x in (',', t)][1:])), 'the text lists the values in order')


def custom_refuse(vc):
    m = vc.module('horusdemodlib.delegates')
    pl = vc.module('horusdemodlib.payloads')
    n = vc.pick('n', [0, 1, 8, 9, 10, 16])
    data = vc.bytes('custom', n)
    pl.HORUS_CUSTOM_FIELDS = {'NODE': {'struct': '<BbBfH', 'fields': [['a', 'none'], ['b', 'none'], ['c', 'none'], ['d', 'none'], ['e', 'none']]},
                              'LESS': {'struct': '<BbBfH', 'fields': [['a', 'none'], ['b', 'none'], ['c', 'none'], ['d', 'none']]},
                              'TYPE': {'struct': '<BbBfH', 'fields': [['a', 'none'], ['b', 'none'], ['c', 'none'], ['d', 'none'], ['e', 'bogus']]}}
    k = vc.pick('node', ['NODE', 'LESS', 'TYPE', 'OTHER'])
    r = vc.call(m.decode_custom_fields, data, k)
    vc.ensure(r.ok == (n == 9 and k == 'NODE'), 'custom data is decoded if and only if it has the size of a consistent definition of that payload')
    vc.ensure(r.ok or isinstance(r.exc, ValueError), 'custom data is refused with ValueError only')
