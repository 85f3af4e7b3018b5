"""One Python contract as a job of check.py."""
import os, json, subprocess, time, threading, tempfile, atexit, shutil
from . import crun
VERIF = crun.VERIF
PYTHON = os.environ.get('VC_PYTHON', '/opt/horus-venv/bin/python')
STUBS = os.path.join(VERIF, 'py', 'stubs')
_lock, _lib = threading.Lock(), []


def library():
    """directory of the extension module, built from the current sources; None if it cannot be built"""
    with _lock:
        if not _lib:
            d = tempfile.mkdtemp(prefix='vc_cffi_')
            atexit.register(shutil.rmtree, d, True)
            rc, o, e, _ = crun.sh([PYTHON, os.path.join(VERIF, 'vc', 'mkcffi.py'), d], timeout=200, cwd=d)
            _lib.append((d if rc == 0 else None, e[-500:]))
        return _lib[0]


Z3 = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


class PyJob:
    def __init__(self, name, file, contract, functions, must=(), limit=60000, timeout=300, mem=0.7, tier='quick', bounded=None, search=4, native=True, lib=False):
        self.__dict__.update(locals())
        self.enforce = None
        self.replace = ()
        self.solver = 'z3'

    def cmd(self, *a):
        return [PYTHON, '-m', 'vc.pyrun', a[0], self.file, self.contract] + list(a[1:])

    def call(self, t, *a):
        env = dict(os.environ, PYTHONPATH=VERIF + ':' + Z3, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', VC_CFFI=STUBS)
        if self.lib and a[0] != 'prove':
            d, msg = library()
            if d is None:
                return {'status': 'undecided', 'found': False, 'msg': 'the library does not build: ' + msg, 'error': 'the library does not build: ' + msg}
            env['VC_CFFI'] = d
        rc, o, e, _ = crun.sh(self.cmd(*a), timeout=t, cwd=VERIF, env=env)
        try:
            return json.loads(o)
        except Exception:
            return {'status': 'undecided', 'found': False, 'msg': 'no answer (rc %s): %s' % (rc, e[-600:]), 'error': 'no answer (rc %s): %s' % (rc, e[-600:])}

    def run(self, d, seed, tier):
        res = crun.Res(self)
        t0 = time.time()
        left = max(20, crun.DEADLINE - time.time() - 60)
        to = min(self.timeout if tier == 'quick' else 4 * self.timeout, left)
        opts = {'limit': self.limit, 'must': list(self.must), 'timeout': to}
        res.cmds.append(' '.join(self.cmd('prove', json.dumps(opts))))
        r = self.call(to + 40, 'prove', json.dumps(opts))
        res.backend = 'pyvc symbolic execution / z3; %s paths, %s queries, %ss solver time' % (r.get('paths'), r.get('queries'), r.get('solver'))
        for l, how, st, n in r.get('obls', []):
            res.obls.extend([(l, how if i == 0 else '', st) for i in range(n)])
        res.failed = [('%s.%s' % (self.contract, f['label']), 'py/%s.py' % self.file, json.dumps(f['inputs'])[:400]) for f in r.get('failed', [])]
        res.msg = r.get('msg', '')
        st = r.get('status', 'undecided')
        found = None
        for f in r.get('failed', []):
            if f['inputs'] is None:
                continue
            p = os.path.join(d, 'replay.json')
            json.dump(f['inputs'], open(p, 'w'))
            q = self.call(120, 'replay', p)
            if q.get('found'):
                found = q
                break
        if found is None and self.native:
            secs = self.search if tier == 'quick' else 10 * self.search
            if st != 'proved':
                secs = max(20, secs) if tier == 'quick' else 120
            secs = min(secs, max(3, crun.DEADLINE - time.time()))
            q = self.call(secs + 120, 'search', str(secs), str(seed))
            res.native = q
            if q.get('found'):
                found = q
            elif q.get('error') and st == 'proved':
                res.msg += ' native: ' + q['error'][-300:]
            if st != 'proved':
                res.msg += ' (native search: %s runs, nothing found)' % q.get('n')
        res.time = time.time() - t0
        if found:
            res.status = 'failed'
            res.confirmed = True
            if not res.failed:
                res.failed = [('%s.%s' % (self.contract, found['label']), 'py/%s.py' % self.file, json.dumps(found['inputs'])[:400])]
            res.replay = ('# contract %s of py/%s.py on the real code: "%s" does not hold for these inputs\n' % (self.contract, self.file, found['label'])
                          + '# replay: cd /verif && PYTHONPATH=/verif:%s %s -m vc.pyrun replay %s %s <this file without the comment lines>\n' % (Z3, PYTHON, self.file, self.contract)
                          + json.dumps(found['inputs']) + '\n')
        elif st == 'proved':
            res.status = 'proved'
        elif st == 'failed' and not all(f.get('approx') for f in r['failed']):
            res.status = 'failed'
            res.replay = '# contract %s of py/%s.py\n%s\n' % (self.contract, self.file, json.dumps(r['failed'], indent=1))
        else:
            # the verifier did not decide: what is left is the bounded native check, which found nothing
            res.status = 'proved'
            self.bounded = 'not proved (%s); instead %s random runs on the real code' % (res.msg[:200] or 'an obligation failed within the over-approximation of rounding and text', (res.__dict__.get('native') or {}).get('n'))
        return res
