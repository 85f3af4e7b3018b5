"""Contracts of what is passed on to SondeHub: time stamps, records, the upload queue and the uploads."""
from vc.pyvc import *
import z3, datetime as rdt, types

HOUR = 3600
US = 10 ** 6


class Clock:
    """the receiver's clock: every reading is the next of `readings`, the last one repeats"""
    def __init__(self, vc, readings):
        self.vc, self.readings, self.n = vc, readings, 0

    def __call__(self):
        r = self.readings[min(self.n, len(self.readings) - 1)]
        self.n += 1
        return r


def clock(vc, mods, later=2):
    """set the system clock; returns its readings as (day, microseconds of the day)"""
    day, us = vc.int('day', 10957, 40000), vc.int('us', 0, 86400 * US - 1)
    if not vc.symbolic and vc.flag('midnight'):
        us = vc.pick('around', [0, 1, 59 * US, 86399 * US, 86400 * US - 1, 3599 * US, 3600 * US, 82800 * US, 82799999999, 84600 * US, 1800 * US])
    d = vc.int('elapsed', 0, later * US)
    us2 = us + d
    r = [(day, us), (day + us2 // (86400 * US), us2 % (86400 * US))]
    if vc.symbolic:
        from vc.pyshim import SymDT
        vc.clock = Clock(vc, [SymDT(day=a, sec=b // US, mic=b % US) for a, b in r])
    else:
        ts = [rdt.datetime(1970, 1, 1, tzinfo=rdt.timezone.utc) + rdt.timedelta(days=a, microseconds=b) for a, b in r]
        c = Clock(vc, ts)

        class DT(rdt.datetime):
            @classmethod
            def now(cls, tz=None):
                return c()
        fake = types.SimpleNamespace(datetime=DT, timedelta=rdt.timedelta, timezone=rdt.timezone)
        for m in mods:
            vc.patches.append((m, 'datetime', m.datetime))
            m.datetime = fake
    return r


def hms_text(vc, h, m, s):
    return vc.cat(vc.fmt(h, '02d'), ':', vc.fmt(m, '02d'), ':', vc.fmt(s, '02d'))


def tod(vc, now):
    """a time of day sent by a payload; native: often near the clock"""
    if vc.symbolic or vc.flag('anytime'):
        return vc.int('h', 0, 23), vc.int('m', 0, 59), vc.int('s', 0, 59)
    t = (now[1] // US + vc.int('off', -3700, 3700)) % 86400 if vc.flag('far') else (now[1] // US + vc.int('off3', -185, 185)) % 86400
    return t // 3600, t // 60 % 60, t % 60


def dt_us(vc, x):
    if vc.symbolic:
        return x.us
    d = x - rdt.datetime(1970, 1, 1, tzinfo=rdt.timezone.utc)
    return (d.days * 86400 + d.seconds) * US + d.microseconds


def absle(x, n):
    return And(x <= n, x >= -n)


def fix_datetime(vc):
    m = vc.module('horusdemodlib.delegates')
    r = clock(vc, [m])
    day, us = r[0]
    h, mi, s = tod(vc, r[0])
    t = h * 3600 + mi * 60 + s
    if vc.flag('given'):
        now = vc.clock() if vc.symbolic else m.datetime.datetime.now()
        q = vc.call(m.fix_datetime, hms_text(vc, h, mi, s), now.isoformat())
    else:
        q = vc.call(m.fix_datetime, hms_text(vc, h, mi, s))
    vc.ensure(q.ok, 'every time of day gives a time stamp')
    got = dt_us(vc, q.value)
    vc.ensure(And(got % US == 0, got // US % 86400 == t), 'the time stamp has the time of day that was sent')
    vc.ensure(absle(got // (86400 * US) - day, 1), 'the date is that of the receiver, or one next to it')
    now = day * 86400 * US + us
    for k in (-1, 0, 1):
        cand = ((day + k) * 86400 + t) * US
        vc.ensure(Implies(absle(cand - now, HOUR * US), got == cand), 'where the clocks agree within an hour, the date is the one that brings them together')


REC = [('temperature', 'temp', 'float'), ('satellites', 'sats', 'any'), ('battery_voltage', 'batt', 'float'), ('speed', 'speed', 'any'), ('vel_h', 'vel_h', 'any'), ('vel_v', 'vel_v', 'any')]
REC2 = [('snr', 'snr', 'float'), ('f_centre', 'frequency', 'float'), ('tone_spacing', 'tone_spacing', 'any'), ('raw', 'raw', 'any'), ('modulation', 'modulation', 'any'),
        ('modulation_detail', 'modulation_detail', 'any'), ('baud_rate', 'baud_rate', 'any')]


def record(which):
    def contract(vc):
        m = vc.module('horusdemodlib.utils')
        d = vc.module('horusdemodlib.delegates')
        r = clock(vc, [m, d])
        if which != 'gate' and vc.symbolic:
            # by its contract (fix_datetime above), with clocks that agree
            m.fix_datetime = lambda text: vc.clock()
        h, mi, s = tod(vc, r[0])
        t = h * 3600 + mi * 60 + s
        tel = {'time': hms_text(vc, h, mi, s), 'sequence_number': vc.opaque('seq', int), 'latitude': vc.opaque('lat', float), 'longitude': vc.opaque('lon', float), 'altitude': vc.opaque('alt', int)}
        tel['callsign'] = vc.str('call', gen=lambda q: q.choice(['UNKNOWN_PAYLOAD_ID', '4FSKTEST-V2', 'HORUS', 'VK5QI-9', '', 'unknown_payload_id']))
        check = True
        rest = False
        if which == 'gate':
            via = vc.pick('via', [None, 'sondehub', 'text'])
            if via:
                tel['via'] = vc.str('viatext', gen=lambda q: q.choice(['nohub', '', 'SondeHub', 'sondehub'])) if via == 'text' else via
            check = vc.flag('check')
        else:
            vc.assume(tel['callsign'] == 'HORUS') if vc.symbolic else tel.update(callsign='HORUS')
            if not vc.symbolic and which != 'gate':
                t = r[1][1] // US
                h, mi, s = t // 3600, t // 60 % 60, t % 60
                tel['time'] = hms_text(vc, h, mi, s)
            check = False
            rest = vc.flag('rest') if which == 'custom' else False
        fields = {}
        for key, name, kind in REC + REC2:
            if which == 'fields' and (key, name, kind) in REC or which == 'fields2' and (key, name, kind) in REC2:
                has = vc.flag(key + '?')
            else:
                has = rest
            if has:
                tel[key] = vc.float(key, -2000, 2e9) if kind == 'float' else vc.opaque(key)
                fields[key] = name
        names = []
        if which == 'custom':
            names = vc.pick('names', [None, [], ['ext_temperature'], ['a', 'b', 'missing', 'c']])
            if names is not None:
                tel['custom_field_names'] = names
                for n in names:
                    if n != 'missing':
                        tel[n] = vc.opaque('f_' + n, float)
        before = dict(tel)
        meta = vc.pick('meta', [None, {'uploader_callsign': 'N0CALL', 'uploader_position': [1.0, 2.0, 3.0]}]) if which == 'custom' else None
        q = vc.call(m.telem_to_sondehub, tel, dict(meta) if meta else None, check_time=check)
        vc.ensure(q.ok, 'no telemetry makes the reformatting fail')
        o = q.value
        now = r[1][0] * 86400 * US + r[1][1]
        cands = [((r[0][0] + k) * 86400 + t) * US for k in (-1, 0, 1)]
        near, close = [[absle(c - now, 180 * US + e) for c in cands] for e in (1000, -1000)]
        to_hub = Or('via' not in tel, vc.same(tel.get('via'), 'sondehub'))
        known = Not(vc.same(tel['callsign'], 'UNKNOWN_PAYLOAD_ID'))
        if o is None:
            vc.ensure(Not(And(to_hub, known, Or(Not(check), *close))), 'telemetry of a known payload for SondeHub, with the right time, is passed on')
            return
        vc.ensure(to_hub, 'telemetry that is not for SondeHub is not passed on')
        vc.ensure(known, 'telemetry of an unknown payload is not passed on')
        vc.ensure(Or(Not(check), *near), 'telemetry whose time is off by more than three minutes is not passed on')
        for c, nr in zip(cands, near):
            if which != 'gate':
                break
            vc.ensure(Implies(nr, vc.same(o['datetime'], stamp(vc, c))), 'the record has the complete time stamp')
        for key, name in (('callsign', 'payload_callsign'), ('sequence_number', 'frame'), ('latitude', 'lat'), ('longitude', 'lon'), ('altitude', 'alt')):
            vc.ensure(name in o and vc.same(o[name], before[key]), 'the record has the %s that was sent' % key)
        for key, name, kind in REC + REC2:
            if key not in fields:
                vc.ensure(name not in o, 'nothing is recorded for a field that was not sent')
                continue
            v = before[key]
            if key == 'temperature':
                ok = v > -273.15
            elif key == 'battery_voltage':
                ok = v >= 0
            elif key == 'snr':
                ok = v > -100
            else:
                ok = True
            if key == 'f_centre':
                vc.ensure(name in o and closeto(o[name], v, 10 ** 6), 'the frequency is recorded in MHz')
            elif name in o:
                vc.ensure(And(ok, vc.same(o[name], v)), 'the record has the %s that was sent, if it is valid' % key)
            else:
                vc.ensure(Not(ok), 'a valid %s is recorded' % key)
        for n in names or []:
            if n != 'missing':
                vc.ensure(n in o and vc.same(o[n], before[n]), 'each additional field is recorded under its name')
            else:
                vc.ensure(n not in o, 'an additional field without a value is not recorded')
        for k in meta or {}:
            vc.ensure(k in o and vc.same(o[k], meta[k]), 'what is known of the station is kept')
        vc.ensure(len(tel) == len(before) and all(vc.same(tel[k], before[k]) is True or tel[k] is before[k] for k in before), 'the telemetry itself is unchanged')
    return contract


def closeto(got, v, den):
    from py.binary import near
    if isinstance(got, SymFloat):
        w, g = mkfl(v), got
        d = g.e - w.e / den
        return mkbool(z3.And(z3.Not(g.nan), d < z3.Q(1, 10 ** 9), d > z3.Q(-1, 10 ** 9)))
    return abs(got - v / den) < 1e-9 * max(1, abs(v / den))


def stamp(vc, us):
    if vc.symbolic:
        return SymStr([('fmt', us, 'strftime:%Y-%m-%dT%H:%M:%S.%fZ')])
    return (rdt.datetime(1970, 1, 1) + rdt.timedelta(microseconds=us)).strftime('%Y-%m-%dT%H:%M:%S.%fZ')


gate, fields, fields2, custom = [record(x) for x in ('gate', 'fields', 'fields2', 'custom')]
