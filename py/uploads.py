"""Contracts of the SondeHub uploader: nothing queued is lost or sent twice, and what is sent."""
from vc.pyvc import *
import types, gzip as rgzip, json as rjson, queue as rq

M = 'horusdemodlib.sondehubamateur'


class Rec:
    pass


class FakeThread:
    made = []

    def __init__(self, target=None, args=(), **k):
        self.target, self.started = target, 0
        FakeThread.made.append(self)

    def start(self):
        self.started += 1

    def join(self, *a):
        pass


class Time:
    def __init__(self, vc, n=40):
        self.vc, self.n, self.now, self.slept = vc, 0, vc.float('clock', 1e9, 2e9), 0
        self.on_sleep = None

    def time(self):
        return self.now

    monotonic = perf_counter = time

    def sleep(self, s):
        self.slept += 1
        if self.on_sleep:
            self.on_sleep()


def load(vc):
    vc.stub('requests', put=None, get=None)
    m = vc.module(M)
    t = Time(vc)
    FakeThread.made = []
    put(vc, m, Thread=FakeThread, time=t, Queue=rq.Queue, requests=Requests())
    return m, t


class Requests:
    """the ways to make a request"""
    server = None

    class exceptions:
        RequestException = ConnectionError = Timeout = HTTPError = OSError
    RequestException = ConnectionError = Timeout = OSError

    def put(self, *a, **k):
        return self.server.put(*a, **k)

    def request(self, method, *a, **k):
        if method.upper() != 'PUT':
            raise OSError('only PUT is accepted')
        return self.put(*a, **k)

    def Session(self):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def post(self, *a, **k):
        raise OSError('only PUT is accepted')
    get = patch = post


def put(vc, m, **k):
    for n, v in k.items():
        if not vc.symbolic:
            vc.patches.append((m, n, getattr(m, n)))
        setattr(m, n, v)


def make(vc, m, **k):
    return vc.call(m.SondehubAmateurUploader, **k)


class Server:
    """the contract of the upload request: any answer, or an exception"""
    def __init__(self, vc, answers):
        self.vc, self.answers, self.requests = vc, list(answers), []

    def put(self, url, data=None, timeout=None, headers=None, json=None, **k):
        i = len(self.requests)
        self.requests.append((url, data, headers, json))
        a = self.answers[i] if i < len(self.answers) else 200
        if a == 'error':
            raise OSError('no route to host')
        r = Rec()
        r.status_code, r.text = a if not isinstance(a, tuple) else a[0], 'text'
        body = a[1] if isinstance(a, tuple) else None

        def js():
            if body is None:
                raise ValueError('not json')
            return body
        r.json = js
        return r


BODIES = [{'message': 'x', 'errors': [], 'warnings': []}, {'errors': [{'error_message': 'bad', 'payload': {'a': 1}}], 'warnings': [{'warning_message': 'w'}]},
          {'errors': [{}], 'warnings': []}, {}, [], None, {'errors': None}]


def plain(vc, data):
    """the list that a request body stands for"""
    if vc.symbolic:
        j = data.of_                # gzip.compress(...)
        return j
    return rjson.loads(rgzip.decompress(data).decode())


def upload(vc):
    """one batch: the same compressed list in each attempt, until it is accepted or refused, at most `retries` times"""
    m, t = load(vc)
    retries = vc.pick('retries', [0, 1, 2, 5])
    u = make(vc, m, upload_retries=retries)
    vc.ensure(u.ok, 'an uploader is made')
    u = u.value
    answers = []
    for i in range(retries):
        a = vc.pick('answer%d' % i, [500, 503, 200, 202, 'other', 'error'])
        if a == 202:
            a = (202, vc.pick('body%d' % i, BODIES))
        if a == 'other':
            a = vc.pick('status%d' % i, [201, 204, 400, 403, 404, 413, 429, 505])
        answers.append(a)
        if a not in (500, 503):
            break
    sv = Server(vc, answers)
    m.requests.server = sv
    n = vc.pick('n', [1, 2, 3])
    batch = [{'frame': vc.int('frame%d' % i, 0, 65535), 'lat': vc.float('lat%d' % i, -90, 90), 'payload_callsign': 'CALL%d' % i} for i in range(n)]
    r = vc.call(u.upload_telemetry, list(batch))
    vc.ensure(r.ok, 'no answer of the server stops the upload thread')
    want = len(answers)
    vc.ensure(len(sv.requests) == want, 'a batch is sent until it is accepted or refused, and at most as often as allowed')
    first = None
    for url, data, headers, js in sv.requests:
        vc.ensure(url == m.SondehubAmateurUploader.SONDEHUB_AMATEUR_URL, 'telemetry is sent to the telemetry address')
        vc.ensure(headers.get('Content-Encoding') == 'gzip' and headers.get('Content-Type') == 'application/json', 'the request says what it carries')
        if vc.symbolic:
            x = data.of_                       # gzip.compress(json.dumps(batch).encode())
            got = jsonof(x)
        else:
            got = plain(vc, data)
        vc.ensure(len(got) == n and all_same(vc, got, batch), 'each attempt carries exactly the telemetry of the batch, in order')


def jsonof(x):
    if isinstance(x, SymBytes):
        x = x.decode('utf-8')
    return x.p[0][1].o


def all_same(vc, a, b):
    return And(*[And(len(x) == len(y), *[(k in x and vc.same(x[k], y[k])) for k in y]) for x, y in zip(a, b)])


def queue(vc):
    """one round of the upload thread: whatever is queued is uploaded once, in order"""
    m, t = load(vc)
    rate = vc.pick('rate', [0, 1, 3])
    u = make(vc, m, upload_rate=rate, user_position=vc.pick('pos', [None, (1.0, 2.0, 3.0)]), user_position_update_rate=6).value
    n = vc.pick('n', [0, 1, 2, 5])
    items = [vc.opaque('item%d' % i) for i in range(n)]
    for x in items:
        u.input_queue.put(x)
    late = [vc.opaque('late%d' % i) for i in range(vc.pick('late', [0, 1, 2]))]
    sent, pos = [], []
    rounds = [0]

    def up(x):
        sent.append(list(x))
        for y in late[:1]:
            if rounds[0] == 0 and n:
                u.input_queue.put(y)           # arrives while uploading
        rounds[0] += 1
    last = vc.float('last', 0, 2e9)
    u.last_user_position_upload = last
    u.upload_telemetry = up
    u.station_position_upload = lambda: pos.append(1)
    slept = [0]

    def on_sleep():
        slept[0] += 1
        if slept[0] == 1:
            for y in (late[1:] if n else late):
                u.input_queue.put(y)           # arrives while waiting
        if slept[0] >= 2 * max(rate, 1):
            u.input_processing_running = False
    t.on_sleep = on_sleep
    if rate == 0:
        # no waiting: stop after the second look
        k = [0]

        def ups():
            k[0] += 1
            return t.now
        t.time = ups
        u.input_processing_running = False
        r = vc.call(u.process_queue)
        vc.ensure(r.ok and not sent, 'a stopped uploader does nothing')
        return
    r = vc.call(u.process_queue)
    vc.ensure(r.ok, 'the upload thread ends only when it is told to')
    flat = [y for s in sent for y in s]
    left = []
    while u.input_queue.qsize():
        left.append(u.input_queue.get_nowait())
    vc.ensure(same_items(flat + left, items + late), 'everything queued is uploaded exactly once, in the order it was queued, or still waiting')
    vc.ensure(not left, 'what was queued before the last look at the queue has been uploaded')
    vc.ensure(all(s for s in sent), 'no empty batch is uploaded')
    if pos:
        vc.ensure(t.now - last > 6 * 3600 - 1, 'the station position is not uploaded more often than asked')
    else:
        vc.ensure(t.now - last < 6 * 3600 + 1, 'the station position is uploaded as often as asked')


def same_items(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def add(vc):
    """telemetry is queued once, with what is known of the station; not if the uploader is inhibited"""
    m, t = load(vc)
    inh = vc.flag('inhibit')
    pos = vc.pick('pos', [None, (1.0, 2.0, 3.0)])
    u = make(vc, m, inhibit=inh, user_callsign='CALL', user_position=pos, user_radio='RADIO', user_antenna='ANT', software_name='SW', software_version='V').value
    vc.ensure(inh or (len(FakeThread.made) == 1 and FakeThread.made[0].started == 1), 'one upload thread is started')
    vc.ensure(not inh or not FakeThread.made, 'an inhibited uploader starts no thread')
    newpos = vc.flag('moved')
    if newpos:
        u.update_station_position(4.0, 5.0, 6.0)
        pos = pos and (4.0, 5.0, 6.0)
    res = []

    def reformat(tel, metadata=None, **k):
        x = vc.pick('record%d' % len(res), [None, 1])
        res.append((tel, dict(metadata), k))
        if x is None:
            return None
        out = dict(metadata)
        out['n'] = tel['n']
        return out
    put(vc, m, telem_to_sondehub=reformat)
    n = vc.pick('n', [0, 1, 2, 3])
    tels = [{'n': i} for i in range(n)]
    for x in tels:
        r = vc.call(u.add, x)
        vc.ensure(r.ok, 'telemetry can be added')
    got = []
    while u.input_queue.qsize():
        got.append(u.input_queue.get_nowait())
    if inh:
        vc.ensure(not got and not res, 'an inhibited uploader queues nothing')
        return
    vc.ensure(len(res) == n and all(res[i][0]['n'] == i for i in range(n)), 'each telemetry is reformatted')
    want = [i for i in range(n) if vc.inputs['record%d' % i] in (1, ('const', 1))]
    vc.ensure([g['n'] for g in got] == want, 'each record is queued exactly once, in order')
    for g in got:
        ok = all(g.get(k) == v for k, v in dict(software_name='SW', software_version='V', uploader_callsign='CALL', uploader_position=pos, uploader_radio='RADIO', uploader_antenna='ANT').items())
        vc.ensure(ok and 'time_received' in g, 'each record names the station and the time of reception')
    for _, _, k in res:
        vc.ensure(k.get('check_time', True) is True, 'the time of telemetry is checked')


def position(vc):
    """the station position: sent to the listeners address with what was configured"""
    m, t = load(vc)
    retries = vc.pick('retries', [1, 2, 5])
    pos = vc.pick('pos', [None, (1.0, 2.0, 3.0)])
    u = make(vc, m, upload_retries=retries, user_callsign='CALL', user_position=pos, user_radio='RADIO', user_antenna='ANT', contact_email='MAIL').value
    answers = []
    for i in range(retries):
        a = vc.pick('answer%d' % i, [500, 200, 404, 400, 'error'])
        answers.append(a)
        if a != 500:
            break
    sv = Server(vc, answers)
    m.requests.server = sv
    r = vc.call(u.station_position_upload)
    vc.ensure(r.ok, 'no answer of the server stops the upload thread')
    vc.ensure(len(sv.requests) == len(answers), 'the position is sent until it is accepted or refused, and at most as often as allowed')
    for url, data, headers, js in sv.requests:
        vc.ensure(url == m.SondehubAmateurUploader.SONDEHUB_AMATEUR_STATION_POSITION_URL, 'the position is sent to the listeners address')
        ok = all(js.get(k) == v for k, v in dict(uploader_callsign='CALL', uploader_position=pos, uploader_radio='RADIO', uploader_antenna='ANT', uploader_contact_email='MAIL').items())
        vc.ensure(ok, 'the station information is what was configured')
    vc.ensure(vc.same(u.last_user_position_upload, t.now), 'the time of the attempt is kept')
