"""Runner (in a process of its own):  python -m vc.pyrun prove|search|replay FILE CONTRACT [...]   -> JSON on stdout"""
import sys, os, json, time, random, importlib, traceback, logging
sys.dont_write_bytecode = True
sys.setrecursionlimit(10000)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__))), REPO, os.environ.get('VC_CFFI', os.path.join(REPO, '_build/py'))]
from vc import pyvc as V
from vc import pyeng


def load(fn, name):
    m = importlib.import_module('py.' + fn)
    return m, getattr(m, name)


def prove(fn, name, opts):
    m, c = load(fn, name)
    t0 = time.time()
    eng = pyeng.Symbolic(c, limit=opts.get('limit', 60000), deadline=t0 + opts.get('timeout', 300))
    r = {'status': 'error', 'msg': ''}
    try:
        eng.run()
        if eng.failed:
            r['status'] = 'failed'
        else:
            missing = [l for l in opts.get('must', ()) if l not in eng.labels]
            if missing:
                r['status'] = 'undecided'
                r['msg'] = 'no path reaches: ' + '; '.join(missing)
            elif not eng.obls:
                r['status'] = 'undecided'
                r['msg'] = 'no obligation'
            else:
                r['status'] = 'proved'
    except V.Unsupported as e:
        r['status'] = 'failed' if eng.failed else 'undecided'
        r['msg'] = 'outside of the verifier: %s' % e
        if os.environ.get('VC_DEBUG'):
            traceback.print_exc()
    except V.PathEnd:
        r['msg'] = 'path end'
    except Exception as e:
        r['status'] = 'failed' if eng.failed else 'undecided'
        r['msg'] = 'contract not applicable: %s' % traceback.format_exc()[-800:]
    agg = {}
    for l, how, st in eng.obls:
        agg.setdefault((l, st), 0)
        agg[(l, st)] += 1
    r.update(obls=[[l, '%d instances (paths)' % n, st, n] for (l, st), n in agg.items()], failed=eng.failed, paths=eng.paths,
             queries=eng.queries, solver=round(eng.solver_time, 2), time=round(time.time() - t0, 2), assumed=sorted(eng.assumed))
    return r


def search(fn, name, secs, seed):
    m, c = load(fn, name)
    logging.disable(logging.CRITICAL)
    rng = random.Random(seed)
    t0 = time.time()
    n = skipped = 0
    labels = {}
    while time.time() - t0 < secs:
        e = pyeng.Native(c, rng=rng)
        try:
            f = e.run()
        except Exception:
            return {'found': False, 'n': n, 'error': traceback.format_exc()[-1500:]}
        n += 1
        if f == 'SKIP':
            skipped += 1
            if skipped > 2000 and skipped == n:
                break
            continue
        for l in e.labels:
            labels[l] = labels.get(l, 0) + 1
        if f is not None:
            return {'found': True, 'label': f, 'inputs': e.inputs, 'n': n}
    return {'found': False, 'n': n - skipped, 'labels': labels}


def replay(fn, name, inputs):
    m, c = load(fn, name)
    logging.disable(logging.CRITICAL)
    e = pyeng.Native(c, rng=random.Random(1), given=inputs)
    try:
        f = e.run()
    except Exception:
        return {'found': False, 'error': traceback.format_exc()[-1500:]}
    if f == 'SKIP':
        return {'found': False, 'skip': True}
    return {'found': f is not None, 'label': f, 'inputs': e.inputs}


def main():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    mode, fn, name = sys.argv[1:4]
    if mode == 'prove':
        r = prove(fn, name, json.loads(sys.argv[4]) if len(sys.argv) > 4 else {})
    elif mode == 'search':
        r = search(fn, name, float(sys.argv[4]), int(sys.argv[5]))
    else:
        a = sys.argv[4]
        r = replay(fn, name, json.load(open(a)) if not a.startswith('{') else json.loads(a))
    out.write(json.dumps(r))
    out.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
