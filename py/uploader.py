"""Contract of the uploader program (uploader.main): what becomes of each line it reads."""
from vc.pyvc import *
import z3, types

M = 'horusdemodlib.uploader'


def put(vc, m, **k):
    for n, v in k.items():
        if not vc.symbolic:
            vc.patches.append((m, n, getattr(m, n, None)))
        setattr(m, n, v)


class Stdin:
    def __init__(self, lines):
        self.lines = list(lines)

    def readline(self, *a):
        return self.lines.pop(0) if self.lines else ''

    def __iter__(self):
        return self

    def __next__(self):
        l = self.readline()
        if l == '':
            raise StopIteration
        return l


class Log:
    def __init__(self):
        self.text, self.flushed = [], 0

    def write(self, s):
        self.text.append(s)
        return 1

    def flush(self):
        self.flushed = len(self.text)

    def close(self):
        self.flush()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class Thread:
    def join(self, *a):
        pass


class Uploader:
    made = []

    def __init__(self, **k):
        self.options, self.got, self.closed = k, [], 0
        if not k.get('inhibit'):
            self.input_process_thread = Thread()
        Uploader.made.append(self)

    def add(self, t):
        if self.closed:
            raise ValueError('closed')
        self.got.append(dict(t))

    def close(self):
        self.closed += 1


class Stats:
    made = []

    def __init__(self, **k):
        vc = self.vc
        self.options, self.lines = k, []
        self.snr, self.fest_mean, self.fest_spacing = vc.float('snr', -999, 100), vc.float('mean', -48000, 48000), vc.float('spacing', -1000, 48000)
        Stats.made.append(self)

    def update(self, x):
        self.lines.append(x)


BAD = ['', 'zz', 'abc', '0102  CRC OK', 'Error: no device', '$5', 'caf\u00e9', '  ']
GOOD = ['0102', '0A0B0c', '00' * 32]
RTTY = ['$$CALL,1,12:34:56,1.0,2.0,3*ABCD', '$$$$X,9*0000', '$$']
STAT = ['{"EbNodB": 1, "samp_fft": []}', '{', '{}']
CONF = {'user_call': 'ME', 'ozi_udp_port': 55683, 'summary_port': 1234, 'station_lat': 1.0, 'station_lon': 2.0, 'radio_comment': 'R', 'antenna_comment': 'A'}


def world(vc, m, lines, **opts):
    """the program with its environment; every callee is replaced by its contract"""
    w = types.SimpleNamespace(sent=[], lists=0, decoded=[], now=vc.float('t0', 1e9, 2e9))
    a = dict(verbose=False, config='user.cfg', noupload=False, rtty=False, log='none', debuglog='none', payload_list='p', custom_fields='c', nodownload=True, freq_hz=None, freq_target_hz=None, baud_rate=None)
    a.update(opts)
    args = types.SimpleNamespace(**a)

    class Parser:
        def __init__(self, *a, **k):
            pass

        def add_argument(self, *a, **k):
            pass

        def parse_args(self, *a):
            return args
    w.args = args
    put(vc, m, argparse=types.SimpleNamespace(ArgumentParser=Parser, ArgumentDefaultsHelpFormatter=None))
    w.log = Log()
    w.opened = []

    def open_(name, mode='r', *a, **k):
        w.opened.append((name, mode))
        return w.log
    put(vc, m, open=open_)
    w.conf = dict(CONF)

    def exit_(*a):
        raise SystemExit(*a)
    put(vc, m, read_config=lambda f: w.conf, sys=types.SimpleNamespace(stdin=Stdin(lines), exit=exit_, stderr=None, stdout=None))
    put(vc, m, time=types.SimpleNamespace(time=lambda: w.now, monotonic=lambda: w.now, sleep=lambda s: None))

    def init(filename=None):
        w.lists += 1
        w.known = w.known_after
        return {0: 'X'}
    put(vc, m, init_payload_id_list=init, init_custom_field_list=lambda filename=None: {}, read_payload_list=lambda filename=None: {0: 'X'}, read_custom_field_list=lambda filename=None: {})
    w.known = w.known_after = True
    Stats.vc, Stats.made, Uploader.made = vc, [], []
    put(vc, m, FSKDemodStats=Stats, SondehubAmateurUploader=Uploader, send_payload_summary=lambda t, port=None: w.sent.append((dict(t), port)))
    w.lat = vc.float('lat', -90, 90)
    w.refusal = 'value'
    w.valid = {}

    def decode(b, *a, **k):
        w.decoded.append(b)
        if not w.valid.get(b):
            raise (ValueError if w.refusal == 'value' else KeyError)('not a packet')
        c = 'X' if w.known else 'UNKNOWN_PAYLOAD_ID'
        return {'packet_format': {'x': 1}, 'callsign': c, 'latitude': w.lat, 'ukhas_str': '$$' + c + ',%s*1234' % b.hex()}

    def parse(s, *a, **k):
        if not w.valid.get(s):
            raise (ValueError if w.refusal == 'value' else KeyError)('no')
        return {'callsign': 'R', 'latitude': w.lat, 'packet_format': 'x', 'from': s}
    put(vc, m, decode_packet=decode, parse_ukhas_string=parse)
    if not vc.symbolic:
        vc.patches.append((m.horusdemodlib.payloads, 'HORUS_PAYLOAD_LIST', m.horusdemodlib.payloads.HORUS_PAYLOAD_LIST))
        vc.patches.append((m.horusdemodlib.payloads, 'HORUS_CUSTOM_FIELDS', m.horusdemodlib.payloads.HORUS_CUSTOM_FIELDS))
    return w


def check(vc, w, t, src, port):
    s = Stats.made[0]
    vc.ensure(vc.same(t['latitude'], w.lat), 'the telemetry passed on is that of the packet')
    vc.ensure(vc.same(t['snr'], s.snr), 'it has the SNR')
    a = w.args
    if a.freq_hz:
        d = t['f_centre'] - s.fest_mean - a.freq_hz
        vc.ensure(And(d < 2, d > -2), 'it has the frequency, if that of the receiver is known')
    else:
        vc.ensure('f_centre' not in t, 'it has no frequency if that of the receiver is not known')
    if 'tone_spacing' in t:
        d = t['tone_spacing'] - s.fest_spacing
        vc.ensure(And(s.fest_spacing > 0, d <= 0.5, d >= -1), 'it has the tone spacing, if known')
    else:
        vc.ensure(Not(s.fest_spacing > 0), 'it has the tone spacing, if known')
    if a.baud_rate:
        vc.ensure(t['baud_rate'] == a.baud_rate, 'it has the baud rate, if known')
    else:
        vc.ensure('baud_rate' not in t, 'it has no baud rate if it is not known')


def main(vc):
    """every valid packet is sent on once by UDP, to SondeHub and to the log, in order; no other line is, and none stops the program"""
    m = vc.module(M)
    n = vc.pick('n', [0, 1, 2])
    lines, kinds = [], []
    for i in range(n):
        k = vc.pick('kind%d' % i, ['binary', 'rtty', 'stats', 'bad', 'refused', 'refused-rtty'])
        kinds.append(k)
        src = {'binary': GOOD, 'refused': GOOD, 'rtty': RTTY, 'refused-rtty': RTTY, 'stats': STAT, 'bad': BAD}[k]
        lines.append(src[vc.pick('line%d' % i, list(range(len(src)))) if n == 1 else i % len(src)])
    end = vc.pick('end', ['\n', '\r\n'] if n == 1 else ['\n'])
    w = world(vc, m, [l + end for l in lines], rtty=vc.flag('rtty'), log=vc.pick('log', ['none', 'file']), freq_hz=vc.pick('freq', [None, 433000000.0]) if n == 1 else 1000.0, baud_rate=vc.pick('baud', [None, 100]) if n == 1 else 100)
    if 'refused' in kinds or 'refused-rtty' in kinds or 'bad' in kinds:
        w.refusal = vc.pick('refusal', ['value', 'other'])
    valid = []
    for k, l in zip(kinds, lines):
        if k == 'binary':
            w.valid[bytes.fromhex(l)] = True
        elif k == 'rtty':
            w.valid[l] = True
    for l in lines:
        if l in GOOD and w.valid.get(bytes.fromhex(l)) or l in RTTY and w.valid.get(l):
            valid.append(l)
    r = vc.call(m.main)
    vc.ensure(r.ok, 'no line stops the program')
    u = Uploader.made[0]
    vc.ensure(len(Uploader.made) == 1 and u.closed == 1, 'at the end of the input the uploader is closed')
    vc.ensure(len(w.sent) == len(valid), 'each valid packet, and nothing else, is sent by UDP once')
    vc.ensure(len(u.got) == len(valid), 'each valid packet, and nothing else, is uploaded once')
    text = ''.join(w.log.text)
    vc.ensure(text == '' or w.log.flushed == len(w.log.text), 'the log is complete')
    vc.ensure(w.args.log != 'none' or text == '', 'nothing is logged if no log is wanted')
    want = ''
    for (t, port), g, l in zip(w.sent, u.got, valid):
        check(vc, w, t, l, port)
        check(vc, w, g, l, port)
        if l in GOOD:
            vc.ensure(t['ukhas_str'] == g['ukhas_str'] and t['ukhas_str'].split(',')[1] == bytes.fromhex(l).hex() + '*1234', 'packets are passed on in order')
            want += t['ukhas_str'] + '\n'
        else:
            vc.ensure(t['from'] == l and g['from'] == l, 'packets are passed on in order')
            want += '$$' + l.split('$')[-1] + '\n'
        vc.ensure(port == 1234, 'the UDP port is the configured one')
    vc.ensure(w.args.log == 'none' or text == want, 'each valid packet is logged')
    vc.ensure(all(x[1] in ('a', 'a+', 'at') for x in w.opened), 'an existing log is kept')
    vc.ensure(Stats.made[0].lines == [l for l in lines if l in STAT], 'the statistics are used')


def lists(vc):
    """lists are downloaded again for an unknown payload, at most twice an hour"""
    m = vc.module(M)
    steps = [vc.float('dt%d' % i, 0, 10000) for i in range(2)]
    w = world(vc, m, [], nodownload=vc.flag('nodownload'), rtty=vc.flag('rtty'))
    w.valid = {b'\1': True}
    w.known, later = vc.flag('known'), vc.flag('after')
    times = []

    class In(Stdin):
        k = 0

        def readline(self, *a):
            if self.k == 0:
                first[0] = w.lists
                w.known, w.known_after = known0, later
            if self.k < 2:
                w.now = w.now + steps[self.k]
                self.k += 1
                return '01\n'
            return ''
    known0 = w.known
    first = [0]
    t0 = w.now
    m.sys.stdin = In([])
    orig = m.init_payload_id_list

    def init(filename=None):
        times.append(w.now)
        return orig(filename)
    m.init_payload_id_list = init
    r = vc.call(m.main)
    vc.ensure(r.ok, 'the program ends normally')
    u = Uploader.made[0]
    vc.ensure(len(u.got) == 2 and len(w.sent) == 2, 'each valid packet is passed on once')
    vc.ensure(first[0] == (0 if w.args.nodownload or w.args.rtty else 1), 'the lists are downloaded at the start, if wanted')
    again = times[first[0]:]
    vc.ensure(not again or (not known0 and not w.args.nodownload), 'they are downloaded again only for an unknown payload')
    if len(again) == 2:
        vc.ensure(again[1] - again[0] >= 1799, 'they are downloaded again at most twice an hour')
    if later and len(again) == 1 and vc.same(again[0], t0 + steps[0]) is True:
        pass
    if again and later:
        vc.ensure(u.got[-1]['callsign'] == 'X', 'a packet is decoded again with the new lists')


def config(vc):
    """without a configuration the program ends; with one, its settings reach the uploader"""
    m = vc.module(M)
    w = world(vc, m, [], noupload=vc.flag('noupload'), freq_target_hz=vc.pick('target', [None, 434200000.0]))
    c = vc.pick('conf', ['none', 'zero', 'some', 'lat'])
    if c == 'none':
        w.conf = None
    elif c == 'zero':
        w.conf.update(station_lat=0.0, station_lon=0.0)
    elif c == 'lat':
        w.conf.update(station_lat=vc.float('slat', -90, 90), station_lon=vc.float('slon', -180, 180))
    try:
        r = vc.call(m.main)
        ok, ended = r.ok, False
        if not r.ok and isinstance(r.exc, SystemExit):
            ended = True
    except SystemExit:
        ended = True
    if c == 'none':
        vc.ensure(ended and not Uploader.made, 'without a configuration the program ends')
        return
    vc.ensure(not ended and ok, 'with a configuration the program runs')
    o = Uploader.made[0].options
    vc.ensure(o['user_callsign'] == 'ME' and o['user_antenna'] == 'A' and o['user_radio'].startswith('R'), 'the station is that of the configuration')
    vc.ensure(bool(o['inhibit']) == w.args.noupload, 'nothing is uploaded if that is not wanted')
    p = o['user_position']
    lat, lon = w.conf['station_lat'], w.conf['station_lon']
    if p is None:
        vc.ensure(And(lat == 0, lon == 0), 'the position of the station is passed on')
    else:
        vc.ensure(Not(And(lat == 0, lon == 0)), 'an unset position is not passed on')
        vc.ensure(And(vc.same(p[0], lat), vc.same(p[1], lon), p[2] == 0), 'the position of the station is passed on')
