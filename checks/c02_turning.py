"""C02 extrema and turning points."""
import numpy as np
import vp
import signals as sg

KINDS = ['none', 'astm', 'mw', 'Mw']


def arg(k):
    return None if k == 'none' else k


def pair(out, scale):
    k, v = out
    if k != 'ok':
        return dict(kind='error', err=str(v))
    try:
        d = np.asarray(v.data) / scale
        t = np.asarray(v.args, dtype=float)
        if not (vp.is_int_array(d) and vp.is_int_array(t * 4)) or d.ndim != 1 or t.ndim != 1:
            return dict(kind='other')
        return dict(kind='pair', data=vp.ints(d), args=vp.ints(t * 4))
    except Exception as exc:
        return dict(kind='other', err=type(exc).__name__)


def record(seed, ns, nl):
    import wafo.misc as wm
    import wafo.objects as wo
    rng = np.random.RandomState(seed)
    ev = []
    for x in sg.mixed(rng, ns, nl, huge=True):
        scale = float(rng.choice([1.0, 0.5, 1024.0, 2.0**-20]))
        name, f = sg.forms(x, scale, rng)
        xl = x.tolist()
        keep = np.array(f, copy=True)
        vp.pending('findextrema %s' % xl)
        ev.append(dict(op='findextrema', x=xl, form=name, r=vp.res_ints(vp.call(wm.findextrema, f))))
        f = x * scale
        for kind in KINDS:
            for h in (0, -1):
                r = vp.res_ints(vp.call(wm.findtp, f, float(h), arg(kind), method=['clib', 'numba'][rng.randint(2)]))
                ev.append(dict(op='findtp', x=xl, h=h, kindarg=kind, r=r))
        ev.append(dict(op='same', what='input-unchanged', a=bool(np.array_equal(f, x * scale)), b=True))
        # container: values and times of the turning points of a recorded series
        if len(x) > 4:
            t4 = np.cumsum(rng.randint(1, 9, size=len(x))) - rng.randint(0, 100)
            ts = wo.TimeSeries(x * scale, t4 / 4.0)
            ind = vp.call(wm.findtp, x * scale)
            if ind[0] == 'ok' and ind[1] is not None:
                for kind in ('none', 'mw', 'Mw', 'astm'):
                    r = pair(vp.call(ts.turning_points, wavetype=arg(kind)), scale)
                    ev.append(dict(op='turning_points', x=xl, t=t4.tolist(), h=0, kindarg=kind, r=r))
    return ev


def replay(behaviours):
    import wafo.misc as wm
    out = []
    for b in behaviours:
        x = np.array(b['x'], dtype=float)
        jobs = [('ext', vp.call(wm.findextrema, x), b['ext'])]
        for kind, key in (('none', 'tp'), ('mw', 'mw'), ('Mw', 'Mw')):
            if not b['has']:
                w = None
            else:
                w = b[key]['0'] if isinstance(b[key], dict) else b[key][0]
            jobs.append((kind, vp.call(wm.findtp, x, 0.0, arg(kind)), w))
        jobs.append(('astm', vp.call(wm.findtp, x, 0.0, 'astm'), b['astm'] if b['has'] else None))
        for name, got, want in jobs:
            r = vp.res_ints(got)
            w = dict(kind='none') if want is None else dict(kind='ints', v=want)
            out.append((dict(op='replay', what=name, x=b['x'], want=w, got=r), r == w))
    return out


def run(R):
    cfg = ('CONSTANTS MaxLen = %d\nMaxVal = %d\nHeights = {0}\nSPECIFICATION Spec\n'
           'INVARIANTS ExtremaAlternate NothingMissed RangeKept VariationKept\n' % R.pick((6, 3), (8, 3)))
    m = R.model('TurningModel', cfg)
    R.replays(vp.drive(replay, m['prints']))
    ev = vp.drive(record, R.seed, R.pick(300, 3000), R.pick(80, 600))
    R.check('TurningTrace', ev)
