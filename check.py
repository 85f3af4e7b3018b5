#!/usr/bin/env python3
"""Run the check of one property:  python3 check.py <id>   (in /verif)."""
import sys, os, json, time, tempfile, shutil, importlib, traceback
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vc import crun


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    if tier == 'quick':
        crun.DEADLINE = t0 + 780
    mod = importlib.import_module('props.' + pid)
    wd = tempfile.mkdtemp(prefix='vc_%s_' % pid)
    outdir = os.path.join(HERE, 'out', pid)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir, exist_ok=True)
    try:
        rc = run(pid, mod, tier, seed, wd, outdir, t0)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def run(pid, mod, tier, seed, wd, outdir, t0):
    jobs = [j for j in mod.jobs(tier) if tier == 'thorough' or getattr(j, 'tier', 'quick') == 'quick']
    only = os.environ.get('VC_ONLY')
    if only:
        jobs = [j for j in jobs if only in j.name]
    workers = int(os.environ.get('VC_WORKERS', '8'))

    def one(j):
        d = os.path.join(wd, j.name)
        os.makedirs(d, exist_ok=True)
        try:
            if hasattr(j, 'run'):
                r = j.run(d, seed, tier)
            else:
                r = crun.run_proof(j, d)
        except Exception:
            r = crun.Res(j)
            r.msg = 'internal error: ' + traceback.format_exc()[-2000:]
        return r
    results = schedule(jobs, one, workers)

    violations, errors, bad = [], [], []
    for r in results:
        j = r.job
        print('%-34s %-7s obligations %4d  %6.1fs %s' % (j.name, r.status, len(r.obls), r.time, r.msg.replace('\n', ' ')[:300]))
        if r.status != 'proved':
            bad.append(r)
    # decide what the jobs that did not prove mean, on the real code
    def left():
        return (870 if tier == 'quick' else 36000) - (time.time() - t0)
    bad.sort(key=lambda r: (r.status != 'failed', r.time))
    for r in bad:
        j = r.job
        d = os.path.join(wd, j.name)
        rp = os.path.join(outdir, j.name + '.replay')
        for f in r.failed[:6]:
            print('  failed obligation: %s [%s] %s' % (f[0], f[1], f[2]))
        if not hasattr(j, 'run') and j.native and left() > 20 and not any(v[2] for v in violations):
            confirm(pid, r, d, rp, seed, left)
        if getattr(r, 'replay', None):
            with open(rp, 'w') as f:
                f.write(r.replay)
        if r.status == 'failed' or r.confirmed:
            if not r.confirmed:
                with open(rp, 'a' if os.path.exists(rp) else 'w') as f:
                    f.write('# no failing input found\n')
                    for x in r.failed:
                        f.write('# failed obligation %s: %s (%s) %s\n' % x)
                    for c in r.cmds:
                        f.write('# command: %s\n' % c)
            violations.append((j.name, rp, r.confirmed, r.failed))
        else:
            errors.append((j.name, r.msg))

    known = load_known(pid)
    # evidence
    nobl = sum(len(r.obls) for r in results if not r.job.bounded)
    ndis = sum(len([o for o in r.obls if o[2] == 'SUCCESS']) for r in results if not r.job.bounded)
    cov = {
        'obligations': nobl,
        'discharged': ndis,
        'checker_cmd': 'python3 /verif/check.py %s  (per job: %s)' % (pid, mod.CHECKER if hasattr(mod, 'CHECKER') else 'goto-cc; goto-instrument --dfcc; cbmc'),
        'trusted_base': list(mod.TRUSTED),
        'functions_under_contract': sorted({f for r in results for f in (r.job.functions or ([r.job.enforce] if getattr(r.job, 'enforce', None) else []))}),
        'jobs': [{'name': r.job.name, 'status': r.status, 'obligations': len(r.obls),
                  'discharged': len([o for o in r.obls if o[2] == 'SUCCESS']),
                  'back_end': getattr(r, 'backend', None) or ('cbmc 6.11 / ' + str(getattr(r.job, 'solver', '?'))),
                  'seconds': round(r.time, 2), 'bounded': r.job.bounded,
                  'replaced_by_contract': list(getattr(r.job, 'replace', ()) or ())} for r in results],
        'solver_seconds': round(sum(r.time for r in results), 2),
        'bounded_jobs': [r.job.name + ': ' + r.job.bounded for r in results if r.job.bounded],
        'bounded_obligations_not_counted_as_proved': sum(len(r.obls) for r in results if r.job.bounded),
        'sample_obligations': [o[0] + ': ' + o[1] for r in results for o in r.obls[-2:]][:24],
    }
    if hasattr(mod, 'extra_evidence'):
        cov.update(mod.extra_evidence(results))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': mod.LEVEL, 'coverage': cov,
          'assumptions': list(mod.ASSUMPTIONS), 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    if violations:
        violations.sort(key=lambda v: not v[2])
        name, rp, conf, failed = violations[0]
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if conf else ' no-failing-input-found'))
        return 1
    if errors:
        for n, m in errors:
            print('ERROR %s: %s' % (n, m))
        return 2
    print('PROPERTY %s: held; %d obligations discharged in %.1fs' % (pid, ndis, time.time() - t0))
    return 0


def confirm(pid, r, d, rp, seed, left):
    """Replay the counterexample on the real code, or search for a failing input."""
    j = r.job
    exe, info = crun.build_native(j, d)
    if exe is None:
        r.msg += ' ' + info
        print('  ' + info.replace('\n', '\n  ')[:1500])
        return

    def replay(path):
        ok, msg = crun.native_replay(exe, path)
        print('  counterexample replay on the real code: %s' % (('REPRODUCED ' if ok else 'not reproduced: ') + msg.replace('\n', ' | ')[:600]))
        if ok:
            r.confirmed = True
            with open(path, 'a') as f:
                f.write('# reproduced: %s\n' % msg.replace('\n', ' | ')[:1500])
        return ok

    def search(secs):
        secs = min(secs, left() - 10)
        if secs < 2:
            return
        ok, msg = crun.native_fuzz(exe, seed, secs, rp + '.search')
        print('  native search: %s' % msg.strip().replace('\n', ' | ')[:300])
        if ok and replay(rp + '.search'):
            shutil.move(rp + '.search', rp)

    search(3 if r.status == 'failed' else j.fuzz_secs)
    if r.status == 'failed' and not r.confirmed:
        for f, seq in crun.traces(r, min(j.timeout, left() - 30)):
            crun.write_replay(rp, seq, ['property %s obligation %s %s' % (pid, f[0], f[1]), 'replay: native harness %s' % j.harness])
            if replay(rp):
                break
        if not r.confirmed:
            search(j.fuzz_secs)
    if r.confirmed and os.environ.get('VC_KEEP'):
        shutil.copy(exe, rp + '.native')


def schedule(jobs, one, workers, budget=22.0):
    """Run the jobs in parallel, the most expensive first, within a memory budget (GB)."""
    import threading
    cv = threading.Condition()
    state = {'mem': 0.0, 'n': 0}
    todo = sorted(range(len(jobs)), key=lambda i: -getattr(jobs[i], 'mem', 1.0))
    res = [None] * len(jobs)

    def work():
        while True:
            with cv:
                while True:
                    if not todo:
                        return
                    pick = next((i for i in todo if state['mem'] + min(getattr(jobs[i], 'mem', 1.0), budget) <= budget), None)
                    if pick is not None:
                        break
                    cv.wait()
                todo.remove(pick)
                m = min(getattr(jobs[pick], 'mem', 1.0), budget)
                state['mem'] += m
            try:
                res[pick] = one(jobs[pick])
            finally:
                with cv:
                    state['mem'] -= m
                    cv.notify_all()
    ts = [threading.Thread(target=work) for _ in range(min(workers, len(jobs)))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return res


def load_known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                out.append(l.split(' ', 2)[2])
    return out


if __name__ == '__main__':
    main()
