"""Shared machinery: rebuild the library, drive it, run TLC, write evidence."""
import contextlib
import glob
import hashlib
import io
import json
import math
import os
import pickle
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
JARS = ['/opt/veriftools/tla/tla2tools.jar', '/opt/veriftools/tla/CommunityModules-deps.jar']
NPROC = max(1, min(8, os.cpu_count() or 1))


class MachineryError(Exception):
    pass


# ----------------------------------------------------------------- build
def build_repo():
    """Rebuild the compiled parts of the library from the working tree (incremental)."""
    r = subprocess.run([sys.executable, '/opt/vp/build_ext.py'], cwd=REPO,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise MachineryError('build failed:\n' + r.stdout[-3000:])


def load_library():
    """Import the library once, before drivers are forked."""
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), \
            warnings.catch_warnings():
        warnings.simplefilter('ignore')
        import wafo
        import wafo.misc, wafo.objects          # noqa
    if not wafo.__file__.startswith(REPO + '/'):
        raise MachineryError('wafo is imported from %r' % wafo.__file__)


# ----------------------------------------------------------------- values
def real(x):
    x = float(x)
    if math.isnan(x):
        return 'nan'
    if math.isinf(x):
        return 'inf' if x > 0 else '-inf'
    return repr(x)


def reals(a):
    import numpy as np
    a = np.asarray(a)
    if a.dtype == object:
        a = a.astype(float)
    if np.iscomplexobj(a):
        if np.any(a.imag != 0):
            return None
        a = a.real
    if a.ndim == 0:
        return real(a)
    return [reals(r) if a.ndim > 1 else real(r) for r in a]


def is_int_array(a):
    import numpy as np
    a = np.asarray(a)
    if a.dtype.kind in 'iub':
        return True
    return a.dtype.kind == 'f' and bool(np.all(np.isfinite(a))) and bool(np.all(a == np.round(a)))


def ints(a):
    import numpy as np
    a = np.asarray(a)
    if a.ndim == 0:
        return int(a)
    return [ints(r) if a.ndim > 1 else int(r) for r in a]


class CallTimeout(BaseException):
    pass


def _alarm(*_):
    raise CallTimeout()


def call(fun, *args, **kw):
    """Run fun(*args, **kw); returns ('ok', value) or ('error', exception type name)."""
    limit = kw.pop('_limit', 60)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            try:
                import numpy as np
                with np.errstate(all='ignore'):
                    return 'ok', fun(*args, **kw)
            except CallTimeout:
                return 'error', 'Timeout'
            except Exception as exc:            # noqa
                return 'error', type(exc).__name__
    except CallTimeout:
        return 'error', 'Timeout'
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def res_ints(out):
    """Canonical record of a result that should be a 1-D integer array."""
    k, v = out
    if k == 'error':
        return dict(kind='error', err=v)
    try:
        import numpy as np
        if v is None:
            return dict(kind='none')
        a = np.asarray(v)
        if a.ndim != 1 or not is_int_array(a) or (a.size and np.abs(a).max() >= 2**31):
            return dict(kind='other', err='dtype/shape %s %s' % (a.dtype, a.shape))
        return dict(kind='ints', v=ints(a))
    except Exception as exc:
        return dict(kind='other', err=type(exc).__name__)


def res_reals(out, ndim=1):
    """Canonical record of a result that should be a real array of the given rank."""
    k, v = out
    if k == 'error':
        return dict(kind='error', err=v)
    try:
        import numpy as np
        if v is None:
            return dict(kind='none')
        a = np.asarray(v)
        if ndim is not None and a.ndim != ndim:
            return dict(kind='other', err='shape %s' % (a.shape,))
        r = reals(a)
        if r is None:
            return dict(kind='other', err='complex')
        return dict(kind='reals', v=r)
    except Exception as exc:
        return dict(kind='other', err=type(exc).__name__)


# ----------------------------------------------------------------- TLC
class TLC:
    def __init__(self, work):
        self.work = work
        self.cls = os.path.join(work, 'classes')
        os.makedirs(self.cls, exist_ok=True)
        src = glob.glob(os.path.join(VERIF, 'java', '*.java'))
        r = subprocess.run(['javac', '-cp', ':'.join(JARS), '-d', self.cls] + src,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise MachineryError('javac: ' + r.stdout)
        self.n = 0

    def _dir(self, name):
        self.n += 1
        d = os.path.join(self.work, '%s_%d' % (name, self.n))
        os.makedirs(d)
        for f in glob.glob(os.path.join(SPEC, '*.tla')):
            os.symlink(f, os.path.join(d, os.path.basename(f)))
        return d

    def _cmd(self, d, module, workers, heap):
        return ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx%s' % heap, '-Djava.io.tmpdir=' + d,
                '-cp', self.cls + ':' + ':'.join(JARS), 'tlc2.TLC', '-config', 'run.cfg',
                '-workers', str(workers), '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE',
                '-deadlock', module]

    def trace(self, module, events, shards=None, heap='3g', timeout=800):
        """Check recorded events against `module` (which instantiates TraceLoop).

        Returns (states, list of (event index, [clauses]))."""
        n = len(events)
        if n == 0:
            return 0, []
        if shards is None:
            shards = max(1, min(NPROC, n // 200 + 1))
        # round robin keeps shards balanced
        parts = [list(range(k, n, shards)) for k in range(shards)]
        procs = []
        for part in parts:
            d = self._dir(module)
            with open(os.path.join(d, 'trace.ndjson'), 'w') as f:
                for i in part:
                    f.write(json.dumps(events[i]) + '\n')
            with open(os.path.join(d, 'run.cfg'), 'w') as f:
                f.write('SPECIFICATION Spec\n')
            env = dict(os.environ, VP_TRACE=os.path.join(d, 'trace.ndjson'),
                       VP_OUT=os.path.join(d, 'out.json'))
            log = open(os.path.join(d, 'log'), 'w')
            procs.append((part, d, subprocess.Popen(self._cmd(d, module, 1, heap), cwd=d, env=env,
                                                    stdout=log, stderr=subprocess.STDOUT)))
        bad, states = [], 0
        for part, d, p in procs:
            try:
                p.wait(timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                raise MachineryError('TLC timed out on %s' % module)
            log = open(os.path.join(d, 'log')).read()
            outf = os.path.join(d, 'out.json')
            if os.path.exists(outf):
                out = json.load(open(outf))
                if out['consumed'] != len(part):
                    raise MachineryError('TLC consumed %s of %s' % (out['consumed'], len(part)))
                for b in out['bad']:
                    bad.append((part[b['i'] - 1], sorted(b['why'])))
                states += len(part) + 2
            else:
                # the event being evaluated is not one the specification can even evaluate
                m = re.findall(r'^/?\\? ?l = (\d+)', log, re.M)
                if not m:
                    m = re.findall(r'\bl = (\d+)', log)
                if not m or ('evaluat' not in log and 'attempted' not in log.lower()):
                    raise MachineryError("TLC failed on %s:\n%s" % (module, log[-1200:]))
                i = int(m[-1])
                tail = [x for x in log.splitlines() if x.startswith(('Error', 'The error', 'Attempted', 'In eval'))]
                if os.environ.get('VP_DEBUG'):
                    print(log[-6000:])
                bad.append((part[i - 1], ['event-not-evaluable', ' '.join(tail)[:300]]))
                states += i
            if not os.environ.get('VP_KEEP'):
                shutil.rmtree(d, ignore_errors=True)
        bad.sort(key=lambda b: b[0])
        return states, bad

    def model(self, module, cfg, workers=4, heap='4g', timeout=800, expect_ok=True):
        """Model check `module` with configuration text cfg.

        Returns dict(states, distinct, prints=[json objects printed by the model])."""
        d = self._dir(module)
        with open(os.path.join(d, 'run.cfg'), 'w') as f:
            f.write(cfg)
        log = os.path.join(d, 'log')
        with open(log, 'w') as f:
            try:
                p = subprocess.run(self._cmd(d, module, workers, heap), cwd=d, stdout=f,
                                   stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise MachineryError('TLC timed out on model %s' % module)
        prints, rest = [], []
        with open(log) as f:
            for line in f:
                if re.match(r'"[\[{].*[\]}]"$', line):
                    prints.append(json.loads(json.loads(line)))
                else:
                    rest.append(line)
        text = ''.join(rest)
        m = re.findall(r'^(\d+) states generated, (\d+) distinct', text, re.M)
        ok = p.returncode == 0 and 'No error has been found' in text and m
        if not os.environ.get('VP_KEEP'):
            shutil.rmtree(d, ignore_errors=True)
        if expect_ok and not ok:
            raise MachineryError('model %s is not clean:\n%s' % (module, text[-1500:]))
        return dict(ok=bool(ok), states=int(m[-1][0]) if m else 0,
                    distinct=int(m[-1][1]) if m else 0, prints=prints, log=text)


# ----------------------------------------------------------------- a check run
class Run:
    """One run of the check of one property."""

    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.level = level
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='vp_%s_' % prop)
        self.states = self.transitions = self.traces = 0
        self.evaluations = 0
        self.samples = []
        self.ops = {}
        self.notes = []
        self.violations = []      # (event, clauses)
        self.distinct = set()
        import numpy as np
        h = int(hashlib.sha256(('%s/%d' % (prop, self.seed)).encode()).hexdigest()[:8], 16)
        self.rng = np.random.RandomState(h)
        self.rnd = random.Random(h)
        self.tlc = TLC(self.work)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- model
    def model(self, module, cfg, **kw):
        r = self.tlc.model(module, cfg, **kw)
        self.states += r['distinct']
        self.transitions += r['states']
        return r

    # -- traces
    def check(self, module, events, **kw):
        for e in events:
            if e['op'] in ('crash', 'driver-exception'):
                self.violations.append((e, ['library-crashed' if e['op'] == 'crash' else 'unexpected-result']))
        events = [e for e in events if e['op'] not in ('crash', 'driver-exception')]
        st, bad = self.tlc.trace(module, events, **kw)
        self.states += st
        self.transitions += st
        self.traces += len(events)
        self.evaluations += len(events)
        for e in events:
            self.ops[e['op']] = self.ops.get(e['op'], 0) + 1
            self.distinct.add(hashlib.md5(json.dumps(e, sort_keys=True).encode()).digest())
        for e in self.rnd.sample(events, min(3, len(events))):
            if len(self.samples) < 12:
                s = json.dumps(e)
                self.samples.append(s if len(s) < 400 else s[:400] + '...')
        for i, why in bad:
            self.violations.append((events[i], why))
        return bad

    def replay(self, op, event, ok, why):
        """Record a comparison of a behaviour generated by the model with the real code."""
        self.evaluations += 1
        self.traces += 1
        self.ops[op] = self.ops.get(op, 0) + 1
        if not ok:
            self.violations.append((event, why))

    def replays(self, results, op='replay'):
        if not results:
            raise MachineryError('no model behaviour was replayed')
        for q in results:
            if isinstance(q, dict):
                self.violations.append((q, ['library-crashed' if q['op'] == 'crash' else 'unexpected-result']))
            else:
                self.replay(op, q[0], q[1], ['replayed-behaviour-differs'])

    def finish(self):
        known = [k for k in load_known() if k.get('property') == self.prop and k.get('status') == 'known']
        hits, new = {}, []
        for ev, why in self.violations:
            k = next((k for k in known if matches(k, ev, why)), None)
            if k is None:
                new.append((ev, why))
            else:
                hits.setdefault(k['id'], k)
        for k in hits.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples or ['(none)'],
                   evaluations=self.evaluations, distinct_nontrivial=len(self.distinct),
                   rule='one evaluation = one recorded library call (or one model behaviour replayed) '
                        'judged by the TLA+ specification; distinct counts different events',
                   per_operation=self.ops)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 2), notes=self.notes)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        if new:
            d = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.prop + '.json')
            with open(path, 'w') as f:
                json.dump([dict(event=e, clauses=w) for e, w in new[:50]], f, indent=1)
            for e, w in new[:5]:
                s = json.dumps(e)
                print('  rejected: clauses=%s event=%s' % (','.join(w), s[:600]))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        print('OK property=%s evaluations=%d states=%d wall=%.1fs' % (
            self.prop, self.evaluations, self.states, time.time() - self.t0))
        return 0


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def matches(k, event, why):
    """A known finding names an operation, the failing clauses and fields of the event."""
    if k.get('op') != event.get('op'):
        return False
    if not set(why) <= set(k.get('clauses', why)):
        return False
    for f, v in k.get('fields', {}).items():
        if event.get(f) != v:
            return False
    return True


def drive(fun, *args):
    """Run fun(*args) -> list of events in a forked child, so that a crash of the library's
    compiled code is observed and not suffered.  The child appends to a side file the call it is
    about to make (see pending())."""
    fd, path = tempfile.mkstemp(prefix='vp_drive_')
    os.close(fd)
    pend = path + '.pending'
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        # a call that does not come back ends here, and is reported like a crash
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(max(5, int(_BEGIN + _LIMIT - time.time())))
        try:
            global _PENDING
            _PENDING = open(pend, 'w')
            out = fun(*args)
            with open(path, 'wb') as f:
                pickle.dump(('ok', out), f)
            os._exit(0)
        except BaseException:
            with open(path, 'wb') as f:
                pickle.dump(('exc', traceback.format_exc()), f)
            os._exit(1)
    _, status = os.waitpid(pid, 0)
    try:
        if os.WIFSIGNALED(status):
            last = open(pend).read() if os.path.exists(pend) else ''
            return [dict(op='crash', signal=os.WTERMSIG(status), last=last[-500:])]
        with open(path, 'rb') as f:
            k, v = pickle.load(f)
        if k == 'exc':
            # the library returned something the recorder cannot even encode, or raised where it never does
            return [dict(op='driver-exception', last=v[-1500:])]
        return v
    finally:
        for q in (path, pend):
            if os.path.exists(q):
                os.unlink(q)


_PENDING = None
_BEGIN = time.time()
_LIMIT = 5400 if os.environ.get('VERIF_TIER') == 'thorough' else 540


def pending(text):
    if _PENDING is not None:
        _PENDING.seek(0)
        _PENDING.truncate()
        _PENDING.write(text)
        _PENDING.flush()
