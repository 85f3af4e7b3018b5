"""Contract proofs of the C code: goto-cc compiles /repo's current sources with
the contract file of a job, goto-instrument --dfcc enforces / replaces the
contracts, cbmc discharges every generated obligation."""
import json, os, subprocess, time, shutil, re

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(REPO, 'src')
CLIB = os.path.join(REPO, 'horusbinaryv3/clib')
HDEFS = ['-DINTERLEAVER', '-DSCRAMBLER', '-DRUN_TIME_TABLES', '-DHORUS_L2_RX']


DEADLINE = time.time() + 100000.0


class Job:
    """One proof: a contract file, the real sources, what is enforced/replaced."""
    def __init__(self, name, harness, sources, enforce=None, replace=(), defs=(), repo_defs=HDEFS,
                 inc=(SRC,), checks=False, flags=(), entry='harness', timeout=600, native=True,
                 native_sources=None, native_defs=(), native_libs=('-lm',), dfcc=True, reach=True,
                 functions=(), must=(), bounded=None, stub_sources=(), solver='cadical', expect_asserts=True,
                 unwind=None, gi_flags=(), fuzz_secs=20, tier='quick', nobody=(), mem=1.0):
        self.__dict__.update(locals())


def sh(cmd, timeout=None, cwd=None, env=None):
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=env)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace'), time.time() - t
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b'').decode('utf8', 'replace'), (e.stderr or b'').decode('utf8', 'replace'), time.time() - t


class Res:
    def __init__(self, job):
        self.job = job
        self.status = 'error'       # proved / failed / error
        self.obls = []              # (name, description, status)
        self.failed = []
        self.time = 0.0
        self.msg = ''
        self.cmds = []
        self.replay = None
        self.confirmed = False
        self.inputs = None


def parse_json(out):
    try:
        return json.loads(out)
    except Exception:
        # truncated output
        return None


def build(job, wd, res, extra=()):
    g = os.path.join(wd, 'a.gb')
    dd = list(job.repo_defs) + list(job.defs) + list(extra) + ['-I' + i for i in job.inc] + ['-I' + os.path.join(VERIF, 'c'), '-DVH_CBMC']
    srcs = [s if s.startswith('/') else os.path.join(SRC, s) for s in job.sources]
    if job.nobody:
        # callees replaced by their contract: their bodies are dropped and the harness supplies the contract
        for s in srcs:
            if not os.path.exists(s):
                res.msg = 'missing source ' + s
                return None
        objs = []
        for i, s in enumerate(srcs):
            a, b = os.path.join(wd, 's%d.gb' % i), os.path.join(wd, 'n%d.gb' % i)
            cmd = ['goto-cc', '-c'] + dd + [s, '-o', a]
            res.cmds.append(' '.join(cmd))
            rc, o, e, _ = sh(cmd, 120)
            if rc != 0:
                res.msg = 'goto-cc failed: ' + (o + e)[-2000:]
                return None
            cmd = ['goto-instrument']
            for f in job.nobody:
                cmd += ['--remove-function-body', f]
            cmd += [a, b]
            res.cmds.append(' '.join(cmd))
            rc, o, e, _ = sh(cmd, 120)
            if rc != 0:
                res.msg = 'goto-instrument failed: ' + (o + e)[-2000:]
                return None
            objs.append(b)
        srcs = objs
    cmd = ['goto-cc', '--function', job.entry] + dd + [os.path.join(VERIF, 'c', job.harness)] + srcs + \
          [os.path.join(VERIF, 'c', s) for s in job.stub_sources] + ['-o', g]
    res.cmds.append(' '.join(cmd))
    rc, o, e, _ = sh(cmd, 120)
    if rc != 0:
        res.msg = 'goto-cc failed: ' + (o + e)[-2000:]
        return None
    if job.dfcc:
        h = os.path.join(wd, 'b.gb')
        cmd = ['goto-instrument', '--dfcc', job.entry]
        if job.enforce:
            cmd += ['--enforce-contract', job.enforce]
        for r in job.replace:
            cmd += ['--replace-call-with-contract', r]
        cmd += list(job.gi_flags) + [g, h]
        res.cmds.append(' '.join(cmd))
        rc, o, e, _ = sh(cmd, 120)
        if rc != 0:
            res.msg = 'goto-instrument failed: ' + (o + e)[-2000:]
            return None
        g = h
    return g


def cbmc_cmd(job, g, extra=()):
    cmd = ['cbmc', g, '--json-ui', '--drop-unused-functions', '--slice-formula', '--object-bits', '14', '--no-standard-checks']
    if job.solver == 'cadical':
        cmd += ['--sat-solver', 'cadical']
    elif job.solver in ('cvc5', 'z3'):
        cmd += ['--' + job.solver]
    if job.checks:
        cmd += ['--bounds-check', '--pointer-check', '--div-by-zero-check']
    elif job.solver == 'z3-new':
        cmd += ['--z3', '--external-smt2-solver', 'z3-new']
    if job.unwind:
        cmd += ['--unwind', str(job.unwind), '--unwinding-assertions']
        if getattr(job, 'unwindset', None):
            cmd += ['--unwindset', ','.join(job.unwindset)]
    return cmd + list(job.flags) + list(extra)


def results_of(js):
    out = []
    for m in js:
        if isinstance(m, dict) and 'result' in m:
            out += m['result']
    return out


LIBPREFIX = ('__CPROVER', '__builtin')


def tune(job, wd, res):
    """Loops that run longer than the default unwinding get a larger one. The proof
    itself keeps the unwinding assertions, so a wrong choice cannot hide anything."""
    import copy
    j = copy.copy(job)
    j.checks, j.flags, j.dfcc, j.solver = False, (), False, 'cadical'
    j.unwindset = []
    os.makedirs(wd, exist_ok=True)
    g = build(j, wd, Res(j), ['-DVH_TUNE'])
    if g is None:
        return
    for _ in range(24):
        rc, o, e, _ = sh(cbmc_cmd(j, g), max(5, min(job.timeout, DEADLINE - time.time())))
        js = parse_json(o) if rc is not None else None
        if js is None:
            break
        have = {x.split(':')[0] for x in j.unwindset}
        bad = [r['property'].replace('.unwind.', '.') for r in results_of(js) if r['status'] != 'SUCCESS' and '.unwind.' in r['property']]
        bad = [b for b in bad if b not in have]
        if not bad:
            break
        j.unwindset += [b + ':5000' for b in bad]
    job.unwindset = j.unwindset


def run_proof(job, wd):
    res = Res(job)
    t0 = time.time()
    os.makedirs(wd, exist_ok=True)
    if job.unwind:
        tune(job, os.path.join(wd, 'tune'), res)
    g = build(job, wd, res)
    if g is None:
        res.time = time.time() - t0
        return res
    cmd = cbmc_cmd(job, g)
    res.cmds.append(' '.join(cmd))
    rc, o, e, _ = sh(cmd, max(5, min(job.timeout, DEADLINE - time.time())))
    res.time = time.time() - t0
    if rc is None:
        res.msg = 'cbmc timed out after %ds' % job.timeout
        return res
    js = parse_json(o)
    if js is None:
        res.msg = 'cbmc gave no result (rc=%s): %s' % (rc, (o + e)[-1500:])
        return res
    rs = results_of(js)
    if not rs:
        msgs = [m.get('messageText', '') for m in js if isinstance(m, dict) and m.get('messageType') in ('ERROR', 'WARNING')]
        res.msg = 'cbmc gave no result: ' + '; '.join(msgs)[-1500:]
        return res
    reach = 0
    missing = set(job.must)
    for r in rs:
        d = r.get('description', '')
        if d == 'VH_REACH':
            if r['status'] == 'FAILURE':
                reach += 1
            else:
                res.msg = 'vacuous: a point after the call is unreachable under the preconditions'
            continue
        loc = r.get('sourceLocation', {})
        nm = r['property']
        # what CBMC's own runtime models check about themselves is not an obligation on the repository
        internal = nm.startswith('__CPROVER_contracts') or loc.get('file', '').startswith('<builtin')
        for m in list(missing):
            if re.search(m, nm + ' ' + d):
                missing.discard(m)
        if r['status'] == 'SUCCESS':
            if not internal:
                res.obls.append((nm, d, 'SUCCESS'))
        else:
            res.obls.append((nm, d, r['status']))
            res.failed.append((nm, d, '%s:%s' % (loc.get('file', '?'), loc.get('line', '?')), r['status']))
    if res.msg:
        return res
    if job.reach and reach == 0:
        res.msg = 'vacuity check missing'
        return res
    if missing:
        res.msg = 'expected obligations were not generated: %s' % sorted(missing)
        return res
    if not res.obls:
        res.msg = 'no obligations were generated'
        return res
    if not res.failed:
        res.status = 'proved'
        return res
    if any('unwind' in f[0] or 'unwinding' in f[1] or 'recursion' in f[0] for f in res.failed):
        res.msg = 'loop bound exceeded (undecided): ' + res.failed[0][0]
        return res
    res.status = 'failed'
    res.gb = g
    return res


def traces(res, timeout, k=2):
    """Recorded inputs of the first failing obligations."""
    out = []
    t0 = time.time()
    for f in res.failed[:k]:
        left = timeout - (time.time() - t0)
        if left < 5:
            break
        rc, o, e, _ = sh(cbmc_cmd(res.job, res.gb, ['--trace', '--property', f[0]]), left)
        if rc is None:
            continue
        js = parse_json(o)
        if js is None:
            continue
        for r in results_of(js):
            if r.get('status') == 'FAILURE' and 'trace' in r:
                out.append((f, inputs_of(r['trace'])))
    return out


def inputs_of(trace):
    seq = []
    for s in trace:
        if s.get('stepType') == 'input':
            tag = s.get('inputID')
            for v in s.get('values', []):
                b = v.get('binary')
                if b is None:
                    continue
                w = len(b)
                n = int(b, 2)
                seq.append((tag, list(n.to_bytes(w // 8, 'little'))))
    return seq


def write_replay(path, seq, head):
    by = {}
    for t, bs in seq:
        by.setdefault(t, []).extend(bs)
    with open(path, 'w') as f:
        for h in head:
            f.write('# ' + h.replace('\n', ' ') + '\n')
        for t, bs in by.items():
            f.write('%s %d %s\n' % (t, len(bs), ' '.join('%02x' % b for b in bs)))


def build_native(job, wd):
    exe = os.path.join(wd, 'native')
    srcs = job.native_sources if job.native_sources is not None else job.sources
    srcs = [s if s.startswith('/') else os.path.join(SRC, s) for s in srcs]
    base = ['gcc', '-g', '-O1', '-w', '-fsanitize=address,bounds', '-fno-sanitize-recover=all', '-DVH_NATIVE'] + list(job.repo_defs) + list(job.defs) + list(job.native_defs) + \
           ['-I' + i for i in job.inc] + ['-I' + os.path.join(VERIF, 'c')]
    if job.nobody:
        # the callees that the proof replaces by their contract are replaced here as well
        objs = []
        for i, s in enumerate(srcs):
            o = os.path.join(wd, 'nat%d.o' % i)
            rc, so, e, _ = sh(base + ['-fPIC', '-fno-inline', '-fsemantic-interposition', '-c', s, '-o', o], 120)
            if rc != 0:
                return None, 'native build failed: ' + e[-1500:]
            rc, so, e, _ = sh(['objcopy'] + ['--weaken-symbol=' + f for f in job.nobody] + [o], 60)
            if rc != 0:
                return None, 'native build failed: ' + e[-1500:]
            objs.append(o)
        srcs = objs
    cmd = base + [os.path.join(VERIF, 'c', job.harness), os.path.join(VERIF, 'c', 'vh_native.c')] + srcs + ['-o', exe] + list(job.native_libs)
    rc, o, e, _ = sh(cmd, 120)
    if rc != 0:
        return None, 'native build failed: ' + e[-1500:]
    return exe, ' '.join(cmd)


NENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:abort_on_error=0')


def native_replay(exe, path):
    rc, o, e, _ = sh([exe, 'replay', path], 90, env=NENV)
    if rc == 77:
        return False, 'precondition not met by the extracted input'
    if rc == 0:
        return False, 'the real code satisfies the obligation on this input'
    if rc == 101:
        return True, o.strip()[-500:]
    return True, ('exit %s: ' % rc) + (o + e).strip()[-1500:]


def native_fuzz(exe, seed, secs, out):
    rc, o, e, _ = sh([exe, 'fuzz', str(seed), str(secs), out], secs + 60, env=NENV)
    return rc == 1 and os.path.exists(out), (o + e)[-1500:]
