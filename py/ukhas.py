"""Contract of decoder.parse_ukhas_string: RTTY telemetry sentences."""
from vc.pyvc import *
import z3


def gen(r):
    call = r.choice(['HORUS', 'A', '', 'X Y', 'CALL-1', 'N0CALL', 'é'])
    f = [call, str(r.choice([0, 1, -1, 65535, 7])), r.choice(['12:34:56', '00:00:00', '23:59:59', '24:00:00', '1:2:3', '123456', '235960', '12:34', '', '12:34:56.5', '010203']),
         r.choice(['-34.1', '0.0', '12', 'abc', '1e3', '']), r.choice(['138.6', '-180.0', '0', 'x']), r.choice(['0', '65535', '65536', '-1', '100', '1.5', '12345'])]
    f += r.choice([[], ['5'], ['a', 'b*c'[0]], ['']])
    if r.random() < 0.1:
        f = f[:r.randrange(7)]
    t = ','.join(f)
    if r.random() < 0.1:
        t = ''.join(r.choice('abcXYZ019 ,.*$:-') for _ in range(r.randrange(12)))
    crc = 0xffff
    for b in t.encode('utf8'):
        crc ^= b << 8
        for _ in range(8):
            crc = ((crc << 1) ^ 0x1021) & 0xffff if crc & 0x8000 else (crc << 1) & 0xffff
    c = '%04X' % crc
    if r.random() < 0.2:
        c = r.choice([c.lower(), c + ' ', c[:3], c + '0', '', c + '*', c + '*9', '0' + c, 'FFFF'])
    s = r.choice(['$$', '$', '$$$$', 'junk$$', '', ' $$', '$$A,1,2*$']) + t + r.choice(['*'] * 8 + ['']) + c
    return r.choice(['', ' ', '\n']) + s + r.choice(['', '\n', '\r\n', ' '])


def parts(vc, st):
    """telemetry and checksum text of the stripped sentence; None when there is no '*' after the last '$'"""
    x = st.split('$')[-1]
    t, star, y = x.partition('*')
    if not star:
        return None
    return t, y.partition('*')[0]


def fields(vc, t, n):
    """the first n comma separated fields; None if there are fewer"""
    out = []
    for i in range(n - 1):
        a, c, t = t.partition(',')
        if not c:
            return None
        out.append(a)
    return out + [t.partition(',')[0]]


def sentence(vc):
    m = vc.module('horusdemodlib.decoder')
    vc.abstract = True
    s = vc.str('sentence', gen=gen)
    isbytes = vc.flag('bytes')
    if isbytes:
        if vc.symbolic:
            vc.assume(vc.ascii(s.z()))
            arg = s.encode('ascii')
        else:
            arg = s.encode('ascii', 'ignore')
            s = arg.decode('ascii')
    else:
        arg = s
    r = vc.call(m.parse_ukhas_string, arg)
    if not r.ok:
        vc.ensure(isinstance(r.exc, ValueError), 'a sentence is refused with ValueError only')
    st = s.strip()
    p = parts(vc, st)
    if p is None:
        vc.ensure(not r.ok, 'a sentence without a checksum is refused')
        return
    t, c = p
    try:
        e = t.encode('ascii')
    except UnicodeEncodeError:
        vc.ensure(not r.ok, 'a sentence with other than ASCII characters is refused')
        return
    crc = vc.fmt(vc.crc16(e), '04X')
    if not (c == crc):
        vc.ensure(not r.ok, 'a sentence whose checksum does not match is refused')
        return
    f = fields(vc, t, 6)
    if f is None:
        vc.ensure(not r.ok, 'a sentence with less than six fields is refused')
        return
    num = vc.lib_int, vc.lib_float
    try:
        seq, lat, lon, alt = num[0](f[1]), num[1](f[3]), num[1](f[4]), num[0](f[5])
    except ValueError:
        vc.ensure(not r.ok, 'a sentence with a malformed number is refused')
        return
    dt = vc.lib('datetime').datetime
    try:
        tm = dt.strptime(f[2], '%H:%M:%S' if ':' in f[2] else '%H%M%S')
    except ValueError:
        vc.ensure(not r.ok, 'a sentence with a malformed time is refused')
        return
    if alt < 0 or alt > 65535:
        vc.ensure(not r.ok, 'a sentence with an altitude outside of 0..65535 m is refused')
        return
    vc.ensure(r.ok, 'a sentence with a matching checksum and well formed fields is accepted')
    o = r.value
    vc.ensure(vc.same(o['raw'], st), 'raw is the sentence')
    vc.ensure(vc.same(o['callsign'], f[0]), 'the callsign is the first field')
    vc.ensure(vc.same(o['sequence_number'], seq), 'the sequence number is the second field')
    vc.ensure(vc.same(o['time'], tm.strftime('%H:%M:%S')), 'the time is the third field, as HH:MM:SS')
    vc.ensure(vc.same(o['latitude'], lat), 'the latitude is the fourth field')
    vc.ensure(vc.same(o['longitude'], lon), 'the longitude is the fifth field')
    vc.ensure(vc.same(o['altitude'], alt), 'the altitude is the sixth field')
    vc.ensure(vc.same(o['modulation'], 'RTTY'), 'the modulation is RTTY')
