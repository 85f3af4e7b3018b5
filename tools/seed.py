"""Helper to write a planted bug:  used interactively; not used by any check.
seed(id, property, needs, breaks, [(file, old, new)], files={name: text}, demo=text)"""
import subprocess, os, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CDEMO = '''#!/bin/bash
# exit 0: the property holds on this input; 1: it does not
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
S=$PWD/src
gcc -g -O1 %s -DINTERLEAVER -DSCRAMBLER -DHORUS_L2_RX %s -I"$S" "$here/demo.c" %s -lm -o "$w/demo" 2>"$w/log" || { cat "$w/log"; exit 2; }
cd "$w" && timeout 120 ./demo
'''
def cdemo(srcs, san='-fsanitize=address', tables='-DRUN_TIME_TABLES'):
    return CDEMO % (san, tables, ' '.join('"$S/%s"' % s for s in srcs))
PYDEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
PY=/opt/horus-venv/bin/python
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD:$PWD/_build/py exec timeout 200 $PY "$here/demo.py"
'''
def seed(id, prop, needs, breaks, edits, files, demo):
    d = os.path.join(V, 'seeded', id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    assert subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout == ''
    for f, o, n in edits:
        p = '/repo/' + f
        s = open(p, newline='').read()
        assert s.count(o) == 1, (f, o, s.count(o))
        open(p, 'w', newline='').write(s.replace(o, n))
    diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
    subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
    open(d + '/patch.diff', 'w').write(diff)
    for k, t in files.items():
        open(d + '/' + k, 'w').write(t)
    open(d + '/demo.sh', 'w').write(demo)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print(id, 'written')
