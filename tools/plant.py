"""Planted bugs.  usage: plant.py make BATCH.py | try ID.. | suite ID..
make: writes seeded/<id>/ from a batch file holding a list BUGS of dicts
      (id, property, file, old, new, needs, breaks, demo[, more=[(file, old, new)]]);
try: applies each patch to /repo, runs its demo and its property's quick check, and undoes it;
suite: applies all the named patches together and runs the test suite (a fail points at one of them)."""
import difflib, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def make(path):
    g = {}
    exec(open(path).read(), g)
    for b in g['BUGS']:
        d = os.path.join(V, 'seeded', b['id'])
        new = {}
        for f, old, rep in [(b['file'], b['old'], b['new'])] + list(b.get('more', [])):
            s = new.get(f) or open(os.path.join(R, f), newline='').read()
            crlf = '\r\n' in s
            if crlf:
                old, rep = old.replace('\n', '\r\n'), rep.replace('\n', '\r\n')
            assert s.count(old) == 1, (b['id'], f, s.count(old), old)
            new[f] = s.replace(old, rep)
        os.makedirs(d, exist_ok=True)
        keep = {f: open(os.path.join(R, f), newline='').read() for f in new}
        for f, s in new.items():
            open(os.path.join(R, f), 'w', newline='').write(s)
        diff = subprocess.run(['git', '-C', R, 'diff', '--binary'], capture_output=True).stdout
        for f, s in keep.items():
            open(os.path.join(R, f), 'w', newline='').write(s)
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n. /opt/vp/env.sh\nexec python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']),
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print('made', b['id'])

def demo(i):
    return sh('bash %s/seeded/%s/demo.sh' % (V, i), cwd=R).returncode

def try_(i, check=True):
    d = os.path.join(V, 'seeded', i)
    prop = json.load(open(d + '/meta.json'))['property']
    if 'c_functions' in open(d + '/patch.diff').read():
        sh('. /opt/vp/env.sh; python /opt/vp/build_ext.py')
    a = demo(i)
    assert sh('git -C %s apply %s/patch.diff' % (R, d)).returncode == 0, i
    try:
        sh('. /opt/vp/env.sh; python /opt/vp/build_ext.py')
        b = demo(i)
        r = sh('./check.sh %s' % prop, cwd=V) if check else None
    finally:
        sh('git -C %s checkout -- .' % R)
    caught = check and r.returncode == 1 and 'VIOLATION property=%s' % prop in r.stdout
    print('%-28s %s demo clean=%d patched=%d check=%s %s' % (
        i, prop, a, b, r.returncode if check else '-', 'CAUGHT' if caught else 'MISSED'), flush=True)
    if check and not caught:
        print(r.stdout[-300:], r.stderr[-300:])

if sys.argv[1] == 'make':
    make(sys.argv[2])
elif sys.argv[1] == 'try':
    for i in sys.argv[2:]:
        try_(i)
elif sys.argv[1] == 'suite':
    for i in sys.argv[2:]:
        q = sh('git -C %s apply %s/seeded/%s/patch.diff' % (R, V, i))
        print(i, 'applied' if q.returncode == 0 else 'CONFLICT ' + q.stderr[:200])
    try:
        sh('bash /opt/vp/test.sh /tmp/w/suite.json')
        b = json.load(open('/opt/vp/BASELINE.json'))['stable']
        p = set(json.load(open('/tmp/w/suite.json'))['passed'])
        print('lost:', [s for s in b if s not in p])
    finally:
        sh('git -C %s checkout -- .' % R)
        sh('. /opt/vp/env.sh; python /opt/vp/build_ext.py')
