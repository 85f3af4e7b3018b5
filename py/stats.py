"""Contract of the modem statistics (demodstats.FSKDemodStats) and of the UDP messages."""
from vc.pyvc import *
import z3, json as rjson, types
from collections import deque


def setattrs(vc, m, **k):
    for n, v in k.items():
        if not vc.symbolic:
            vc.patches.append((m, n, getattr(m, n)))
        setattr(m, n, v)


def near(a, b, tol=1e-6):
    d = a - b
    return And(d <= tol, d >= -tol)


def update(vc):
    """after each line of statistics: means (or the maximum) of what arrived within the averaging time"""
    m = vc.module('horusdemodlib.demodstats')
    avg, peak = vc.pick('avg', [4.0, 1.0, 10]), vc.flag('peak')
    d = m.FSKDemodStats(averaging_time=avg, peak_hold=peak)
    vc.ensure(d.snr == -999.0 and d.ppm == 0.0 and len(d.samples) == 0, 'at first nothing is known')
    n = vc.pick('n', [1, 2, 3])
    ntones = vc.pick('tones', [2, 4]) if n == 1 else 2
    t, last = None, []
    clock = [0]
    setattrs(vc, m, time=types.SimpleNamespace(time=lambda: clock[0], monotonic=lambda: clock[0]))
    for i in range(n):
        dt = vc.float('dt%d' % i, 0, 20)
        clock[0] = (clock[0] + dt) if i else vc.float('t0', 1e6, 2e6)
        f = {'EbNodB': vc.float('snr%d' % i, -100, 100), 'ppm': vc.float('ppm%d' % i, -1000, 1000), 'samp_fft': [i]}
        tones = [vc.float('f%d_%d' % (i, j), -24000, 24000) for j in range(ntones)]
        for j, x in enumerate(tones):
            f['f%d_est' % (j + 1)] = x
        r = vc.call(d.update, f)
        vc.ensure(r.ok, 'statistics are accepted')
        spacing = (tones[-1] - tones[0]) / (ntones - 1)
        last = [(a, b, c, e) for a, b, c, e in last] + [(clock[0], f['EbNodB'], f['ppm'], spacing)]
    # which samples are within the averaging time (only this last update matters; earlier ones drop no more than it does)
    now = clock[0]
    keep = []
    for a in last:
        age = now - a[0]
        if age < avg - 1e-6:
            keep.append(a)
        elif age <= avg + 1e-6:
            vc.assume(False) if not vc.symbolic else vc.assume(z3.BoolVal(False))
    vc.ensure(near(d.ppm, total([a[2] for a in keep]) / len(keep)), 'the clock offset is the mean over the averaging time')
    vc.ensure(near(d.fest_spacing, total([a[3] for a in keep]) / len(keep), 1e-5), 'the tone spacing is the mean over the averaging time')
    if peak:
        vc.ensure(And(*[d.snr >= a[1] for a in keep]), 'with peak hold, the SNR is not below any within the averaging time')
        vc.ensure(Or(*[vc.same(d.snr, a[1]) for a in keep]), 'with peak hold, the SNR is one of those within the averaging time')
    else:
        vc.ensure(near(d.snr, total([a[1] for a in keep]) / len(keep)), 'the SNR is the mean over the averaging time')
    vc.ensure(near(d.fest_mean, total(tones) / ntones, 1e-5), 'the centre is the mean of the tones')
    vc.ensure(len(d.fest) == ntones and And(*[vc.same(d.fest[j], tones[j]) for j in range(ntones)]), 'the tones are those of the last line')


def total(xs):
    s = 0
    for x in xs:
        s = s + x
    return s


LINES = ['{"EbNodB": 1.0, "ppm": 2, "f1_est":1, "f2_est":2', '{"EbNodB": 1.0}', '{}', '{"x": nan}', '[1,2', '{"EbNodB": inf, "ppm": 2, "f1_est":1, "f2_est":2, "samp_fft":[]}',
         '{"EbNodB": 1.0, "ppm": 2, "f1_est":1, "samp_fft":[]}', 'garbage', '']
GOOD = ['{"EbNodB": 1.5, "ppm": 2, "f1_est":100, "f2_est":300, "samp_fft":[0,0]}', '{"EbNodB": -3.5, "ppm": -2, "f1_est":100, "f2_est":300, "f3_est": 500, "f4_est":700, "samp_fft":[], "eye":[nan, -nan]}',
        '{"EbNodB": nan, "ppm": nan, "f1_est":100, "f2_est":300, "samp_fft":[nan]}']


def lines(vc):
    """a line that is not a full set of statistics changes nothing; not even the next good line"""
    m = vc.module('horusdemodlib.demodstats')
    setattrs(vc, m, time=types.SimpleNamespace(time=lambda: 1000.0))
    d = m.FSKDemodStats(peak_hold=vc.flag('peak'))
    for i in range(vc.pick('n', [1, 2])):
        x = vc.pick('line%d' % i, LINES + GOOD + [None, 17])
        before = (d.snr, d.ppm, list(d.fest), d.fest_mean, d.fest_spacing, list(d.samples))
        r = vc.call(d.update, x)
        vc.ensure(r.ok, 'no line stops the program')
        after = (d.snr, d.ppm, list(d.fest), d.fest_mean, d.fest_spacing, list(d.samples))
        if x not in GOOD:
            vc.ensure(before == after, 'a line that is not a full set of statistics changes nothing')
        else:
            vc.ensure(len(after[5]) == len(before[5]) + 1, 'a full set of statistics is used')


# ---- UDP messages
class Socket:
    def __init__(self, net):
        self.net = net

    def settimeout(self, t):
        pass

    def setsockopt(self, a, b, c):
        if b == 'reuseport' and self.net.noreuse:
            raise OSError('not supported')
        self.net.opts.append(b)

    def sendto(self, data, addr):
        if addr[0] == '<broadcast>' and self.net.down:
            raise OSError('network is unreachable')
        if self.net.dead:
            raise OSError('network is unreachable')
        self.net.sent.append((data, addr))

    def close(self):
        self.net.closed += 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class Net:
    AF_INET, SOCK_DGRAM, SOL_SOCKET, SO_BROADCAST, SO_REUSEADDR, SO_REUSEPORT = 'inet', 'dgram', 'sol', 'broadcast', 'reuseaddr', 'reuseport'
    error = OSError
    timeout = TimeoutError

    def __init__(self, vc):
        self.down, self.dead, self.noreuse = vc.flag('down'), vc.flag('dead'), vc.flag('noreuse')
        self.sent, self.closed, self.opts = [], 0, []

    def socket(self, *a, **k):
        return Socket(self)


OPT = [('snr', 'snr'), ('satellites', 'sats'), ('battery_voltage', 'batt_voltage'), ('speed', 'speed')]


def summary(vc):
    """one datagram with the position, time and whatever else is known; none for a position of 0,0"""
    m = vc.module('horusdemodlib.horusudp')
    net = Net(vc)
    setattrs(vc, m, socket=net)
    t = {'callsign': 'CALL', 'time': '12:34:56', 'latitude': vc.float('lat', -90, 90), 'longitude': vc.float('lon', -180, 180), 'altitude': vc.int('alt', -1000, 65535)}
    want = {'type': 'PAYLOAD_SUMMARY', 'heading': -1, 'temp': -1, 'comment': 'HorusDemodLib'}
    for k in ('callsign', 'time', 'latitude', 'longitude', 'altitude'):
        want[k] = t[k]
    all_ = vc.flag('all')
    for k, o in OPT:
        if all_ or not net.dead and not net.noreuse and vc.flag(k + '?'):
            t[k] = want[o] = vc.float(k, -1000, 1000)
        elif k != 'snr':
            want[o] = -1
    fc = None
    if vc.flag('fc'):
        fc = t['f_centre'] = vc.float('f_centre', 0, 2e9)
    names = vc.pick('names', [None, [], ['a', 'missing', 'b']])
    if names is not None:
        t['custom_field_names'] = names
        for k in names:
            if k != 'missing':
                t[k] = want[k] = vc.float('c_' + k, -1000, 1000)
    port = vc.pick('port', [55672, 1234])
    r = vc.call(m.send_payload_summary, t, port=port) if port != 55672 else vc.call(m.send_payload_summary, t)
    vc.ensure(r.ok, 'no network state stops the program')
    zero = And(t['latitude'] == 0, t['longitude'] == 0)
    if not net.sent:
        vc.ensure(Or(zero, net.dead), 'a position other than 0,0 is sent')
        return
    vc.ensure(Not(zero), 'a position of 0,0 is not sent')
    vc.ensure(len(net.sent) == 1, 'one datagram is sent')
    data, addr = net.sent[0]
    vc.ensure(addr == ('127.0.0.1' if net.down else '<broadcast>', port), 'it is sent to the given port, to this host only if the network cannot be reached')
    vc.ensure('broadcast' in net.opts, 'broadcast is enabled')
    p = data.t.p[0][1].o if vc.symbolic else rjson.loads(data.decode())
    for k in want:
        vc.ensure(k in p and vc.same(p[k], want[k]), 'the datagram has the %s' % (k if len(k) > 1 else 'additional fields'))
    vc.ensure(set(p) == set(want) | ({'frequency'} if fc is not None else set()), 'the datagram has no other fields')
    if fc is not None:
        g = p['frequency']
        vc.ensure(near(g, fc / 10 ** 6, 1e-9), 'the frequency is in MHz')


def ozimux(vc):
    m = vc.module('horusdemodlib.horusudp')
    net = Net(vc)
    setattrs(vc, m, socket=net)
    h, mi, s = vc.int('h', 0, 23), vc.int('m', 0, 59), vc.int('s', 0, 59)
    t = {'time': vc.cat(vc.fmt(h, '02d'), ':', vc.fmt(mi, '02d'), ':', vc.fmt(s, '02d')), 'latitude': vc.float('lat', -90, 90), 'longitude': vc.float('lon', -180, 180), 'altitude': vc.int('alt', -1000, 65535)}
    miss = vc.pick('missing', [None, 'time', 'latitude', 'longitude', 'altitude'])
    full = dict(t)
    if miss:
        t.pop(miss)
    port = vc.pick('port', [55683, 1234])
    r = vc.call(m.send_ozimux_message, t, port=port) if port != 55683 else vc.call(m.send_ozimux_message, t)
    vc.ensure(r.ok, 'no network state stops the program')
    if miss or net.dead:
        vc.ensure(not net.sent and r.value is None, 'telemetry without a position or time is not sent')
        return
    vc.ensure(len(net.sent) == 1, 'one datagram is sent')
    data, addr = net.sent[0]
    vc.ensure(addr == ('127.0.0.1' if net.down else '<broadcast>', port), 'it is sent to the given port, to this host only if the network cannot be reached')
    want = vc.cat('TELEMETRY,', full['time'], ',', vc.fmt(full['latitude'], '.5f'), ',', vc.fmt(full['longitude'], '.5f'), ',', vc.fmt(full['altitude']), '\n')
    got = data.t if vc.symbolic else data.decode()
    vc.ensure(vc.same(got, want), 'the message has time, latitude, longitude and altitude')
