"""C06 cycle pairs, level crossing spectrum, damage, cycle matrix."""
import numpy as np
import vp
import signals as sg


def pairs(out, scale):
    k, v = out
    if k != 'ok':
        return dict(kind='error', err=str(v))
    try:
        m, M = np.asarray(v.args) / scale, np.asarray(v.data) / scale
        t = float(v.time) * 4
        if m.shape != M.shape or m.ndim != 1 or not vp.is_int_array(m) or not vp.is_int_array(M) or t != int(t):
            return dict(kind='other')
        return dict(kind='pairs', v=[[int(a), int(b)] for a, b in zip(m, M)], time=int(t))
    except Exception as exc:
        return dict(kind='other', err=type(exc).__name__)


def spectrum(out, scale):
    k, v = out
    if k != 'ok':
        return dict(kind='error', err=str(v))
    try:
        l, c = np.asarray(v.args) / scale, np.asarray(v.data)
        if not vp.is_int_array(l) or not vp.is_int_array(c) or l.ndim != 1 or c.ndim != 1:
            return dict(kind='other')
        return dict(kind='spectrum', levels=vp.ints(l), counts=vp.ints(c))
    except Exception as exc:
        return dict(kind='other', err=type(exc).__name__)


def cycles(wo, ps, scale, time, flip=False):
    m = np.array([p[0] for p in ps]) * scale
    M = np.array([p[1] for p in ps]) * scale
    if flip:
        m, M = M, m
    return wo.CyclePairs(M, m, kind='min2max', mean=0.0, sigma=1.0, time=time)


def record(seed, count):
    import wafo.objects as wo
    rng = np.random.RandomState(seed)
    ev = []
    for k in range(count):
        n = int(rng.choice([3, 4, 5, 6, 7, 10, 15, 31, 60]))
        x = (sg.alternating if k % 2 else sg.walk_alternating)(rng, n, int(rng.choice([2, 3, 6, 50])))
        x = x + int(rng.choice([0, 0, -200, 77]))
        scale = float(rng.choice([1.0, 0.5, 1024.0, 2.0**-20]))
        f = x * scale
        t4 = np.cumsum(rng.randint(1, 9, size=n)) + rng.randint(0, 20)
        tp = wo.TurningPoints(f, t4 / 4.0, mean=0.0, sigma=1.0)
        for kind in ('min2max', 'max2min'):
            ev.append(dict(op='cycle_pairs', x=x.tolist(), t=t4.tolist(), h=0, kindarg=kind,
                           r=pairs(vp.call(tp.cycle_pairs, kind=kind), scale)))
            h = int(rng.randint(1, 5))
            c = vp.call(tp.rainflow_filter, h * scale)
            if c[0] == 'ok' and len(c[1].data) >= 3:
                ev.append(dict(op='cycle_pairs', x=x.tolist(), t=t4.tolist(), h=h, kindarg=kind,
                               r=pairs(vp.call(tp.cycle_pairs, h * scale, kind,
                                               ['clib', 'numba'][rng.randint(2)]), scale)))
        ev.append(dict(op='same', what='input-unchanged', a=bool(np.array_equal(f, x * scale)), b=True))
        # free standing cycle counts with ties
        np_ = int(rng.randint(2, 25))
        a = int(rng.choice([2, 5, 30]))
        m = rng.randint(-a, a + 1, size=np_) + int(rng.choice([0, -100, 100]))
        M = m + rng.randint(1, a + 1, size=np_)
        ps = [[int(p), int(q)] for p, q in zip(m, M)]
        tm = float(rng.choice([1.0, 10.0, 37.5]))
        flip = bool(rng.rand() < 0.3)
        cp = cycles(wo, ps, scale, tm, flip)
        if len(set(m) | set(M)) > 1:
            for kd in (1, 2, 3, 4):
                ev.append(dict(op='level_crossings', ps=ps, k=kd, named=False, flip=flip,
                               r=spectrum(vp.call(cp.level_crossings, kd), scale)))
            kd = int(rng.randint(1, 5))
            out = vp.call(cp.level_crossings, kd, True)
            if out[0] == 'ok':
                out = ('ok', out[1].data)
            ev.append(dict(op='intensity', ps=ps, k=kd, time=vp.real(tm), r=vp.res_reals(out)))
        beta = sorted(rng.choice([1.0, 2.0, 3.0, 3.5, 0.5, 7.25], size=int(rng.randint(1, 7)), replace=False).tolist())
        K = float(rng.choice([1.0, 2.5, 1e-4]))
        ev.append(dict(op='damage', ps=[[vp.real(p * scale) for p in q] for q in ps], K=vp.real(K),
                       beta=vp.reals(beta), r=vp.res_reals(vp.call(cp.damage, beta, K))))
        # cycle matrix on a grid lo + d*k
        ng = int(rng.randint(3, 9))
        d = int(rng.choice([1, 2, 4]))
        lo = int(m.min()) + int(rng.randint(-2, 3))
        for ddef in (1, 0, -1):
            dd = 2 * d + 1 if ddef == 0 else d     # odd step: no ties at the midpoints
            out = vp.call(cp.cycle_matrix, (lo * scale, (lo + dd * (ng - 1)) * scale, ng), ddef)
            if out[0] == 'ok':
                try:
                    F = np.asarray(out[1].data)
                    u = np.asarray(out[1].args[0]) / scale
                    u2 = np.asarray(out[1].args[1]) / scale
                    ok = vp.is_int_array(F) and vp.is_int_array(np.round(u, 9)) and np.array_equal(u, u2)
                    if flip:
                        F = F.T
                    r = dict(kind='matrix', v=vp.ints(F), levels=vp.ints(np.round(u))) if ok else dict(kind='other')
                except Exception as exc:
                    r = dict(kind='other', err=type(exc).__name__)
            else:
                r = dict(kind='error', err=out[1])
            ev.append(dict(op='cycle_matrix', ps=ps, a=lo, d=dd, n=ng, ddef=ddef, flip=flip, r=r))
    # the crossing definitions by name
    cp = cycles(wo, [[0, 2], [1, 3]], 1.0, 1.0)
    for k, name in enumerate(('u', 'uM', 'umM', 'um')):
        ev.append(dict(op='level_crossings', ps=[[0, 2], [1, 3]], k=k + 1, named=True, name=name,
                       r=spectrum(vp.call(cp.level_crossings, name), 1.0)))
    return ev


def replay(behaviours):
    import wafo.objects as wo
    out = []
    for b in behaviours:
        y = np.array(b['y'], dtype=float)
        tp = wo.TurningPoints(y, np.arange(len(y)) * 1.0, mean=0.0, sigma=1.0)
        for kind, key in (('min2max', 'mm'), ('max2min', 'MM')):
            r = pairs(vp.call(tp.cycle_pairs, kind=kind), 1.0)
            w = dict(kind='pairs', v=b[key], time=4 * (len(y) - 1))
            out.append((dict(op='replay', what=kind, y=b['y'], want=w, got=r), r == w))
        cp = vp.call(tp.cycle_pairs)
        if cp[0] != 'ok' or not b['mm']:
            continue
        for k in range(4):
            r = spectrum(vp.call(cp[1].level_crossings, k + 1), 1.0)
            w = dict(kind='spectrum', levels=b['lv'], counts=b['lc'][k])
            out.append((dict(op='replay', what='lc%d' % k, y=b['y'], want=w, got=r), r == w))
    return out


def run(R):
    cfg = ('CONSTANTS MaxLen = %d\nMaxVal = %d\nSPECIFICATION Spec\nINVARIANTS SameCrossings NearlySame '
           'Ordered RainflowSameSpectrum MatrixMass\n' % R.pick((6, 4), (8, 4)))
    m = R.model('CyclesModel', cfg)
    R.replays(vp.drive(replay, m['prints']))
    R.check('CyclesTrace', vp.drive(record, R.seed, R.pick(250, 2500)))
