"""Contracts of the version 3 packet decoder (decoder.decode_packet with the ASN.1 decoder behind its contract)."""
from vc.pyvc import *
import z3
from py.binary import u, near, hms

# (ASN.1 name, range, output key, divisor, custom field name listed)
TOP = [('velocityHorizontalKilometersPerHour', 0, 512, 'speed', 1, False), ('gnssSatellitesVisible', 0, 31, 'satellites', 1, False),
       ('ascentRateCentimetersPerSecond', -32767, 32767, 'ascent_rate', 100, True), ('pressurehPa-x10', 0, 12000, 'ext_pressure', 10, True),
       ('humidityPercentage', 0, 100, 'ext_humidity', 1, True)]
TEMP = [('internal', 'temperature', False), ('external', 'ext_temperature', True), ('custom1', 'temperature_custom_1', True), ('custom2', 'temperature_custom_2', True)]
MV = [('battery', 'battery_voltage', False), ('solar', 'solar_voltage', True), ('custom1', 'custom1_voltage', True), ('custom2', 'custom2_voltage', True)]
POWER = ['psmNotActive', 'enabled', 'acquisition', 'tracking', 'optimised', 'inactive']
BITS = ['b%d' % i for i in range(8)]


class Asn:
    """contract of the ASN.1 decoder: it returns what `fields` says, or refuses"""
    def __init__(self, vc, body, fields):
        self.vc, self.body, self.fields = vc, body, fields

    def decode(self, name, data, check_constraints=False, **k):
        self.vc.ensure(name == 'Telemetry' and vc_same(self.vc, data, self.body), 'the ASN.1 decoder is given exactly the bytes after the checksum')
        self.vc.ensure(check_constraints is True, 'values outside of their range are refused')
        if self.fields is None:
            raise ValueError('decode error')
        return self.fields


def vc_same(vc, a, b):
    return isinstance(a, (bytes, SymBytes)) and len(a) == len(b) and (a == b)


def fd(d):
    return fdict(d)


def plan(vc, group):
    """which optional fields there are, and their values: those of `group` in every combination, the others all or none"""
    rest = vc.flag('rest')

    def has(g, name):
        return vc.flag(name + '?') if g == group else rest
    v = {'payloadCallsign': vc.str('call', gen=lambda r: ''.join(r.choice('-/abcXYZ0129') for _ in range(r.randrange(1, 16)))),
         'sequenceNumber': vc.int('sequenceNumber', 0, 65535), 'timeOfDaySeconds': vc.int('timeOfDaySeconds', 0, 86400),
         'latitude': vc.int('latitude', -9000000, 9000000), 'longitude': vc.int('longitude', -18000000, 18000000),
         'altitudeMeters': vc.int('altitudeMeters', -1000, 50000)}
    if not vc.symbolic and not 0 < len(v['payloadCallsign']) < 16:
        v['payloadCallsign'] = 'X'
    for name, lo, hi, *_ in TOP:
        if has('top', name):
            v[name] = vc.int(name, lo, hi)
    if has('temp', 'temps'):
        v['temperatureCelsius-x10'] = {k: vc.int('t.' + k, -1023, 1023) for k, *_ in TEMP if has('temp', 't.' + k)}
    if has('mv', 'mvs'):
        v['milliVolts'] = {k: vc.int('v.' + k, 0, 16383) for k, *_ in MV if has('mv', 'v.' + k)}
    n = vc.pick('counts', [0, 1, 2, 8]) if group == 'misc' else 3 if rest else 0
    if n:
        v['counts'] = [vc.int('count%d' % i, -10 ** 6, 10 ** 7) for i in range(n)]
    if has('misc', 'power'):
        v['gnssPowerSaveState'] = vc.pick('powerstate', POWER) if group == 'misc' and not v.get('counts') else 'tracking'
    if has('misc', 'customData'):
        v['customData'] = vc.bytes('custom', vc.pick('ncustom', [0, 1, 7]) if group == 'misc' else 4)
    if has('misc', 'via'):
        v['via'] = vc.pick('viaval', ['sondehub', 'nohub'])
    if group == 'sensors':
        v['extraSensors'] = [sensor(vc, i) for i in range(vc.pick('nsensors', [1, 2]))]
    elif rest:
        v['extraSensors'] = [{'name': 'abc', 'values': ('horusInt', [vc.int('sx', -1000, 1000)])}]
    return v


def sensor(vc, i):
    s = {}
    n = vc.pick('name%d' % i, [None, 'abc', 'crm-114'])
    if n:
        s['name'] = n
    k = vc.pick('kind%d' % i, [None, 'horusInt', 'horusReal', 'horusStr', 'horusBool'] if i == 0 else ['horusInt', 'horusStr'])
    if k == 'horusInt':
        s['values'] = (k, [vc.int('i%d.%d' % (i, j), -10 ** 9, 10 ** 9) for j in range(vc.pick('n%d' % i, [1, 2, 4]) if i == 0 else 2)])
    elif k == 'horusReal':
        s['values'] = (k, [vc.float('r%d.%d' % (i, j), -1e9, 1e9) for j in range(vc.pick('n%d' % i, [1, 4]))])
    elif k == 'horusStr':
        s['values'] = (k, vc.str('s%d' % i, gen=lambda r: ''.join(r.choice('abcXYZ019_ +/') for _ in range(r.randrange(9)))))
    elif k == 'horusBool':
        s['values'] = (k, {b: vc.flag('bits') if j == 3 else j % 2 == 0 for j, b in enumerate(BITS)})
    return s


def expected(vc, v, cache):
    """output key -> (value, divisor), and the set of names to list, from the description of the format"""
    out, cust = {}, []
    out['payload_id'] = out['callsign'] = (v['payloadCallsign'], 1)
    out['sequence_number'] = (v['sequenceNumber'], 1)
    out['latitude'], out['longitude'] = (v['latitude'], 100000), (v['longitude'], 100000)
    if not (v['altitudeMeters'] == -1000):
        out['altitude'] = (v['altitudeMeters'], 1)
    for name, lo, hi, key, div, c in TOP:
        if name in v:
            out[key] = (v[name], div)
            if c:
                cust.append(key)
    for name, table, div in (('temperatureCelsius-x10', TEMP, 10), ('milliVolts', MV, 1000)):
        for k, key, c in table:
            if k in v.get(name, {}):
                out[key] = (v[name][k], div)
                if c:
                    cust.append(key)
    for i, x in enumerate(v.get('counts', [])):
        out['count_%d' % i] = (x, 1)
        cust.append('count_%d' % i)
    if 'gnssPowerSaveState' in v:
        out['gnss_power_save_state'] = (v['gnssPowerSaveState'], 1)
        cust.append('gnss_power_save_state')
    if 'customData' in v:
        out['custom_data'] = (v['customData'].hex(), 1)
        cust.append('custom_data')
    if 'via' in v:
        out['via'] = (v['via'], 1)
    for i, s in enumerate(v.get('extraSensors', [])):
        name = s.get('name') or cache.get(i, 'unknown')
        kind, x = s.get('values', (None, None))
        if kind in ('horusInt', 'horusReal'):
            for j, y in enumerate(x):
                out['%s_%d_%d' % (name, i, j)] = (y, 1)
                cust.append('%s_%d_%d' % (name, i, j))
        elif kind == 'horusStr':
            out['%s_%d' % (name, i)] = (x, 1)
            cust.append('%s_%d' % (name, i))
        elif kind == 'horusBool':
            for b in BITS:
                out['%s_%d_%s' % (name, i, b)] = (x[b], 1)
                cust.append('%s_%d_%s' % (name, i, b))
    return out, cust


def value_ok(vc, got, want, div):
    if div != 1:
        return near(got, want, div)
    return vc.same(got, want)


def verdict(vc, m, v, r, cache):
    vc.ensure(r.ok, 'a packet with a matching checksum that the ASN.1 decoder accepts is reported')
    o = r.value
    want, cust = expected(vc, v, cache)
    for k in want:
        vc.ensure(k in o and value_ok(vc, o[k], *want[k]), 'the field %s has the transmitted value, in its unit' % (k if not k[0:3] in ('unk', 'abc', 'crm') else 'of an extra sensor'))
    t = v['timeOfDaySeconds']
    t = t % 86400
    vc.ensure(vc.same(o['time'], hms(vc, t // 3600, t // 60 % 60, t % 60)), 'the time is the transmitted time of day')
    names = list(o['custom_field_names'])
    vc.ensure(sorted(names) == sorted(cust), 'the names of the additional fields are listed, each once')
    for k in ('speed', 'satellites', 'temperature', 'battery_voltage', 'ext_pressure', 'ext_humidity', 'ext_temperature', 'ascent_rate', 'altitude', 'via', 'custom_data'):
        vc.ensure(k in want or k not in o, 'no value is reported for a field that was not sent')
    vc.ensure(o.get('crc_ok') is True and o.get('modulation') == 'Horus Binary v3', 'the packet is marked as a checked version 3 packet')


def group(g):
    def contract(vc):
        m = vc.module('horusdemodlib.decoder')
        v = plan(vc, g)
        cache = {}
        m.HORUS_V3_NAME_CACHE.clear()
        if vc.symbolic:
            body = vc.bytes('body', 40)
            data = vc.le16(vc.crc16(body)) + body
            m.HORUS_ASN = Asn(vc, body, fdict_deep(v))
            import copy
        else:
            body = m.HORUS_ASN.encode('Telemetry', v, check_constraints=True, check_types=True)
            data = vc.le16(vc.crc16(body)) + body
            v = m.HORUS_ASN.decode('Telemetry', body, check_constraints=True)
            if len(data) not in (30, 32, 46, 48, 62, 64, 94, 96, 126, 128):
                pass
        r = vc.call(m.decode_packet, data)
        verdict(vc, m, v, r, cache)
    return contract


def fdict_deep(x):
    if isinstance(x, dict):
        r = FDict()
        for k in x:
            r[k] = fdict_deep(x[k])
        return r
    if isinstance(x, list):
        return [fdict_deep(y) for y in x]
    if isinstance(x, tuple):
        return tuple(fdict_deep(y) for y in x)
    return x


top, temp, mv, misc, sensors = [group(g) for g in ('top', 'temp', 'mv', 'misc', 'sensors')]


def sensor_names(vc):
    """a sensor keeps the name its payload gave it, until it gives another one; names do not leak to other payloads"""
    m = vc.module('horusdemodlib.decoder')
    m.HORUS_V3_NAME_CACHE.clear()
    calls = ['ONE', 'TWO']
    cache = {c: {} for c in calls}
    for k in range(3):
        c = vc.pick('call%d' % k, calls)
        v = {'payloadCallsign': c, 'sequenceNumber': k, 'timeOfDaySeconds': 5, 'latitude': 0, 'longitude': 0, 'altitudeMeters': 800, 'extraSensors': []}
        for i in range(2):
            s = {'values': ('horusInt', [vc.int('x%d.%d' % (k, i), -5, 100000)])}
            n = vc.pick('name%d.%d' % (k, i), [None, 'abc', 'crm-114'] if i == 0 or k == 0 else [None, 'zzz'])
            if n:
                s['name'] = n
                cache[c][i] = n
            v['extraSensors'].append(s)
        if vc.symbolic:
            body = vc.bytes('body%d' % k, 12)
            m.HORUS_ASN = Asn(vc, body, fdict_deep(v))
        else:
            body = m.HORUS_ASN.encode('Telemetry', v, check_constraints=True, check_types=True)
        data = vc.le16(vc.crc16(body)) + body
        r = vc.call(m.decode_packet, data)
        verdict(vc, m, v, r, cache[c])


def refused(vc):
    """what the ASN.1 decoder refuses is not reported"""
    m = vc.module('horusdemodlib.decoder')
    n = vc.pick('n', [1, 14, 20, 30, 46, 62, 94, 126])
    body = vc.bytes('body', n)
    data = vc.le16(vc.crc16(body)) + body
    if vc.symbolic:
        m.HORUS_ASN = Asn(vc, body, None)
    else:
        try:
            m.HORUS_ASN.decode('Telemetry', body, check_constraints=True)
            return
        except Exception:
            pass
    r = vc.call(m.decode_packet, data)
    vc.ensure(not r.ok, 'a packet that is not well formed is not reported')
