"""C04 ASTM rainflow counting."""
import numpy as np
import vp
import signals as sg


def rows(out, scale, timed):
    k, v = out
    if k != 'ok':
        return dict(kind='error', err=str(v), v=[])
    try:
        a = np.array(v, dtype=float)
        if a.ndim != 2 or a.shape[1] != (5 if timed else 3):
            return dict(kind='other', err='shape %s' % (a.shape,), v=[])
        a[:, :2] *= 2 / scale
        a[:, 2] *= 2
        if timed:
            a[:, 3:] *= 4
        if not vp.is_int_array(a):
            return dict(kind='other', err='not on the grid', v=[])
        return dict(kind='rows', v=vp.ints(a))
    except Exception as exc:
        return dict(kind='other', err=type(exc).__name__, v=[])


def record(seed, count):
    import wafo.misc as wm
    import wafo.objects as wo
    from wafo import _misc_numba as nb
    rng = np.random.RandomState(seed)
    ev = []
    for k in range(count):
        n = int(rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 25, 40, 80]))
        if k % 7 == 6:
            x = rng.randint(-3, 4, size=n)            # not turning points, ties included
        else:
            x = (sg.alternating if k % 2 else sg.walk_alternating)(rng, n, int(rng.choice([2, 3, 6, 50])))
        scale = float(rng.choice([1.0, 0.5, 1024.0, 2.0**-20]))
        f = x * scale
        t4 = np.cumsum(rng.randint(1, 9, size=n))
        vp.pending('astm %s' % x.tolist())
        ev.append(dict(op='astm', x=x.tolist(), t=[], r=rows(vp.call(wm.findrfc_astm, f), scale, False)))
        ev.append(dict(op='astm', x=x.tolist(), t=[],
                       r=rows(vp.call(lambda: wo.TurningPoints(f, t4 / 4.0).cycle_astm()), scale, False)))
        ev.append(dict(op='astm', x=x.tolist(), t=t4.tolist(),
                       r=rows(vp.call(nb.findrfc_astm, f, t4 / 4.0), scale, True)))
        ev.append(dict(op='same', what='input-unchanged', a=bool(np.array_equal(f, x * scale)), b=True))
    return ev


def replay(behaviours):
    import wafo.misc as wm
    out = []
    for b in behaviours:
        if len(b['y']) < 2:
            continue
        r = rows(vp.call(wm.findrfc_astm, np.array(b['y'], dtype=float)), 1.0, False)
        want = [q[:3] for q in b['rows']]
        out.append((dict(op='replay', y=b['y'], want=want, got=r), r['kind'] == 'rows' and r['v'] == want))
    return out


def run(R):
    cfg = ('CONSTANTS MaxLen = %d\nMaxVal = %d\nSPECIFICATION Spec\nINVARIANTS Conserved Accounted '
           'StackDecreasing LargestReported MatchesFunction\n' % R.pick((7, 4), (9, 4)))
    m = R.model('AstmModel', cfg)
    R.replays(vp.drive(replay, m['prints']))
    R.check('TurningTrace', vp.drive(record, R.seed, R.pick(800, 8000)))
