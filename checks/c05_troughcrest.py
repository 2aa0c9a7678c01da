"""C05 troughs and crests between level crossings."""
import numpy as np
import vp
import signals as sg
from c02_turning import pair

KINDS = ['all', 'tw', 'cw', 'dw', 'uw']


def arg(k):
    return None if k == 'all' else k


def two(out):
    k, v = out
    if k != 'ok':
        return dict(kind='error', err=str(v))
    try:
        a, b = (vp.res_ints(('ok', q)) for q in v)
        if a['kind'] != 'ints' or b['kind'] != 'ints':
            return dict(kind='other')
        return dict(kind='pair', a=a['v'], b=b['v'])
    except Exception as exc:
        return dict(kind='other', err=type(exc).__name__)


def record(seed, ns, nl):
    import wafo.misc as wm
    import wafo.objects as wo
    rng = np.random.RandomState(seed)
    ev = []
    for x in sg.mixed(rng, ns, nl, sizes=(50, 100, 200)):
        scale = float(rng.choice([1.0, 0.5, 1024.0, 2.0**-20]))
        n = len(x)
        for v in sorted({0, int(np.round(x.mean())), int(x[rng.randint(n)])}):
            f = x * scale
            for kind in KINDS:
                vp.pending('findtc %s %s %s' % (x.tolist(), v, kind))
                ev.append(dict(op='findtc', x=x.tolist(), v=v, kindarg=kind,
                               r=two(vp.call(wm.findtc, f, v * scale, arg(kind)))))
            if n > 4:
                t4 = np.cumsum(rng.randint(1, 9, size=n)) - rng.randint(0, 50)
                ts = wo.TimeSeries(f, t4 / 4.0)
                k = KINDS[rng.randint(len(KINDS))]
                c = vp.call(wm.findtc, f, v * scale, arg(k))
                if c[0] == 'ok' and len(c[1][0]):
                    ev.append(dict(op='trough_crest', x=x.tolist(), t=t4.tolist(), v=v, kindarg=k,
                                   r=pair(vp.call(ts.trough_crest, v * scale, arg(k)), scale)))
            ev.append(dict(op='same', what='input-unchanged', a=bool(np.array_equal(f, x * scale)), b=True))
        # default level is the mean
        s = int(x.sum())
        y = x * n                     # mean of y is the integer s
        for kind in KINDS:
            ev.append(dict(op='findtc', x=y.tolist(), v=s, kindarg=kind,
                           r=two(vp.call(wm.findtc, y * 1.0, None, arg(kind)))))
    return ev


def run(R):
    cfg = ('CONSTANTS MaxLen = %d\nMaxVal = 4\nLevel = 2\nSPECIFICATION Spec\n'
           'INVARIANTS OneBetween AlternatesTC SidesOk\n' % R.pick(6, 8))
    m = R.model('TroughCrestModel', cfg)
    ev = []

    def go():
        import wafo.misc as wm
        out = []
        for b in m['prints']:
            x = np.array(b['x'], dtype=float)
            for kind in KINDS:
                r = two(vp.call(wm.findtc, x, 2.0, arg(kind)))
                w = dict(kind='pair', a=b[kind]['a'], b=b[kind]['b'])
                out.append((dict(op='replay', x=b['x'], kindarg=kind, want=w, got=r), r == w))
        return out
    R.replays(vp.drive(go))
    R.check('TurningTrace', vp.drive(record, R.seed, R.pick(250, 2500), R.pick(30, 300)))
