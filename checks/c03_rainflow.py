"""C03 rainflow cycles and rainflow filters."""
import numpy as np
import vp
import signals as sg
from c02_turning import pair, arg

METHODS = [('rfc', 'clib'), ('rfc', 'numba'), ('rfc', 2), ('lt', 0), ('le', 1)]


def heights(rng, x):
    d = np.unique(np.abs(np.subtract.outer(np.unique(x)[:12], np.unique(x)[:12])))
    hs = {0, int(d[rng.randint(len(d))]), int(d[-1]), int(d[len(d) // 3]), 1}
    return sorted(hs)


def record(seed, ns, nl, ntp):
    import wafo.misc as wm
    import wafo.objects as wo
    rng = np.random.RandomState(seed)
    ev = []
    # sequences of turning points
    for k in range(ntp):
        n = int(rng.choice([2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 17, 30, 31, 100, 101]))
        x = (sg.alternating if k % 2 else sg.walk_alternating)(rng, n, int(rng.choice([2, 3, 6, 50])))
        if rng.rand() < 0.05 and n > 3:
            x[:3] = [0, 1, 2]          # not turning points: refused
        scale = float(rng.choice([1.0, 0.5, 1024.0, 2.0**-20]))
        f = x * scale
        t4 = np.cumsum(rng.randint(1, 9, size=n))
        for h in heights(rng, x):
            for name, m in METHODS:
                vp.pending('findrfc %s %s %s' % (x.tolist(), h, m))
                r = vp.res_ints(vp.call(wm.findrfc, f, h * scale, m))
                ev.append(dict(op='findrfc', x=x.tolist(), h=h, method=name, impl=str(m), r=r))
            tp = wo.TurningPoints(f, t4 / 4.0)
            r = pair(vp.call(tp.rainflow_filter, h * scale, ['clib', 'numba'][rng.randint(2)]), scale)
            ev.append(dict(op='rainflow_filter', x=x.tolist(), t=t4.tolist(), h=h, r=r))
        ev.append(dict(op='same', what='input-unchanged', a=bool(np.array_equal(f, x * scale)), b=True))
    # raw signals: rainflow filtered turning points and the hysteresis filter on signals
    for x in sg.mixed(rng, ns, nl, sizes=(50, 100, 200), huge=True):
        scale = float(rng.choice([1.0, 0.5, 1024.0, 2.0**-20]))
        f = x * scale
        if len(x) < 2:
            continue
        for h in heights(rng, x):
            for name, m in (('lt', 0), ('le', 1)):
                r = vp.call(wm.rfcfilter, f, h * scale, m)
                if r[0] == 'ok':
                    r = ('ok', np.asarray(r[1]) / scale)
                ev.append(dict(op='rfcfilter', x=x.tolist(), h=h, method=name, r=vp.res_ints(r)))
            for kind in ('none', 'mw', 'Mw'):
                if h > 0:
                    r = vp.res_ints(vp.call(wm.findtp, f, h * scale, arg(kind),
                                            ['clib', 'numba'][rng.randint(2)]))
                    ev.append(dict(op='findtp', x=x.tolist(), h=h, kindarg=kind, r=r))
    return ev


def replay(behaviours, hs):
    import wafo.misc as wm
    out = []

    def g(d, h):
        return d[str(h)] if isinstance(d, dict) else d[h - min(hs)]
    for b in behaviours:
        x = np.array(b['x'], dtype=float)
        for h in hs:
            jobs = [('f0', vp.call(wm.rfcfilter, x, float(h), 0), [b['x'][i] for i in g(b['f0'], h)]),
                    ('f1', vp.call(wm.rfcfilter, x, float(h), 1), [b['x'][i] for i in g(b['f1'], h)])]
            if h > 0 and b['has']:
                for m in ('clib', 'numba'):
                    jobs.append(('tp', vp.call(wm.findtp, x, float(h), None, m), g(b['tp'], h)))
                    jobs.append(('mw', vp.call(wm.findtp, x, float(h), 'mw', m), g(b['mw'], h)))
                    jobs.append(('Mw', vp.call(wm.findtp, x, float(h), 'Mw', m), g(b['Mw'], h)))
            for name, got, want in jobs:
                r = vp.res_ints(got)
                w = dict(kind='ints', v=want)
                out.append((dict(op='replay', what=name, x=b['x'], h=h, want=w, got=r), r == w))
    return out


def run(R):
    hs = [1, 2, 3]
    cfg = ('CONSTANTS MaxLen = %d\nMaxVal = %d\nHeights = {1,2,3}\nSPECIFICATION Spec\n'
           'INVARIANTS PartnerBelow PartnerInjective FilteredAlternates FilteredLarge Idempotent '
           'Survives Monotone Filters\n' % R.pick((6, 3), (8, 3)))
    m = R.model('TurningModel', cfg, workers=8)
    R.replays(vp.drive(replay, m['prints'], hs))
    ev = vp.drive(record, R.seed, R.pick(60, 600), R.pick(20, 200), R.pick(120, 1200))
    R.check('TurningTrace', ev)
