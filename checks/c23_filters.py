"""C23 smoothing filters."""
import numpy as np
import vp


def out(o):
    if o[0] != 'ok':
        return dict(kind=str(o[1])[:80], r=[], rsh=[])
    return dict(kind='ok', r=vp.reals(np.ravel(o[1])), rsh=[int(v) for v in np.shape(o[1])])


def mat(a):
    return [vp.reals(r) for r in np.atleast_2d(a)]


def signal(rng, n, k):
    y = np.cumsum(rng.randn(n)) if rng.rand() < .5 else rng.randn(n) * 3
    y = np.round(y * 16) / 8
    if k % 4 == 1:
        return np.round(y).astype(int)
    if rng.rand() < .4:
        y[int(rng.randint(n))] += 25
    return y


def record(seed, count):
    import wafo.sg_filter as F
    rng = np.random.RandomState(seed)
    ev = []
    for k in range(count):
        # Savitzky-Golay
        n = int(rng.choice([1, 2, 3, 4]))
        deg = int(rng.randint(0, 2 * n))
        d = int(rng.randint(0, min(deg, 2) + 1))
        delta = float(rng.choice([1, .5, .25, 2]))
        mode = str(rng.choice(['interp', 'interp', 'mirror', 'nearest', 'constant', 'wrap']))
        cval = float(rng.choice([0, 1.5])) if mode == 'constant' else 0.
        N = 2 * n + 1 + int(rng.randint(0, 8))
        y = signal(rng, N, k)
        f = F.SavitzkyGolay(n, deg, d, delta, mode=mode, cval=cval)
        base = dict(n=n, deg=deg, d=d, delta=vp.real(delta), mode=mode, cval=vp.real(cval))
        Y = y.tolist() if k % 5 == 2 else y.copy()
        o = vp.call(lambda: f(Y))
        e = out(o)
        e.update(base, op='savgol', y=vp.reals(y))
        ev.append(e)
        # along any axis, and again with the same object
        y2 = np.array([signal(rng, N, 0) for _ in range(2)])
        if rng.rand() < .5:
            kk = int(rng.randint(n, N - n)) if rng.rand() < .7 else int(rng.randint(n, N - n))
            one = rng.rand() < .5
            o = vp.call(lambda: f.smooth_last(y, kk) if one else f.smooth_last(y2.T, kk))
            for c, row in enumerate([y] if one else y2):
                e = out(('ok', np.ravel(o[1])[c]) if o[0] == 'ok' else o)
                e.update(base, op='last', k=kk, y=vp.reals(row))
                ev.append(e)
        ax = int(rng.choice([0, 1, -1]))
        f2 = f if ax == -1 else F.SavitzkyGolay(n, deg, d, delta, ax, mode, cval)
        arg = y2.T if ax == 0 else y2
        keep = arg.copy()
        o = vp.call(lambda: f2.smooth(arg))
        for c in range(2):
            e = out(('ok', (o[1].T if ax == 0 else o[1])[c]) if o[0] == 'ok' and np.shape(o[1]) == arg.shape else ('error', str(o[1])))
            e.update(base, op='savgol', y=vp.reals(y2[c]))
            ev.append(e)
        ev.append(dict(op='same', what='argument-unchanged', a=vp.reals(arg.ravel()), b=vp.reals(keep.ravel())))
        # smoothn
        sh = [[7], [9], [12], [3, 4], [1, 6], [5, 1], [2, 3, 2]][int(rng.randint(7))]
        robust = len(sh) == 1 and rng.rand() < .35
        auto = rng.rand() < .25 and not robust
        y = signal(rng, int(np.prod(sh)), 0) + rng.randn(int(np.prod(sh))) * .01 * (robust or auto)
        miss = bool(rng.rand() < .4)
        w = np.ones(len(y))
        wk = 'none'
        if rng.rand() < .4:
            w = np.round(rng.rand(len(y)) * 8 + 1) / 4
            w[rng.rand(len(y)) < .1] = 0
            w[0] = 1
        elif rng.rand() < .5:
            wk = str(rng.choice(['cauchy', 'talworth', 'bisquare', 'Cauchy']))
        if miss:
            y[rng.permutation(len(y))[:int(rng.choice([1, 2]))]] = [np.nan, np.inf][k % 2]
        y = y.reshape(sh)
        w = w.reshape(sh)
        s = float(rng.choice([.1, 1, 4.5])) if not auto else None
        W = wk if wk != 'none' else (None if np.all(w == 1) and rng.rand() < .5 else w)
        kw = dict(s=s, weight=W, robust=bool(robust), tolz=1e-13, maxiter=30000)
        if rng.rand() < .2:
            kw['z0'] = np.zeros(sh)
        arg = y.copy()
        if auto:
            o = vp.call(lambda: F.smoothn(arg, fulloutput=True, **kw))
            if o[0] == 'ok':
                o, s = ('ok', o[1][0]), float(o[1][1])
        else:
            arg = y.tolist() if rng.rand() < .3 else arg
            o = vp.call(lambda: F.smoothn(arg, **kw)) if rng.rand() < .5 else vp.call(lambda: F.SmoothNd(**kw)(arg))
        e = out(o)
        e.update(op='smooth', y=vp.reals(y.ravel()), w=vp.reals(w.ravel()), s=vp.real(s or 1), sh=sh, robust=bool(robust), wk=wk.lower() if wk != 'none' else 'bisquare', auto=bool(auto and o[0] == 'ok'), weighted=bool(miss or W is w))
        ev.append(e)
        if isinstance(arg, np.ndarray):
            fin = np.isfinite(y)
            ev.append(dict(op='same', what='smoothn-data-unchanged', a=vp.reals(arg[fin]), b=vp.reals(y[fin])))
            ev.append(dict(op='same', what='smoothn-argument-unchanged', missing=bool(miss), a=vp.reals(arg[~fin]), b=vp.reals(y[~fin])))
            if W is w:
                ev.append(dict(op='same', what='weights-unchanged', a=vp.reals(W.ravel()), b=e['w']))
        # Hodrick-Prescott
        y = signal(rng, int(rng.choice([1, 2, 3, 4, 5, 6, 12])), k)
        w = [1, 100, .5, 1600., 3][int(rng.randint(5))]
        keep = y.copy()
        o = vp.call(lambda: F.HodrickPrescott(w)(y))
        e = out(o)
        e.update(op='hp', y=vp.reals(keep), w=vp.real(w))
        ev.append(e)
        # Hampel
        n = int(rng.choice([4, 6, 11]))
        ad = bool(rng.rand() < .35)
        y = signal(rng, n, 0 if ad else k)
        if ad:
            y = y + rng.randn(n)
        x = None if rng.rand() < .4 else np.cumsum(np.round(rng.rand(n) * 4 + 1) / 4)
        dx = None if rng.rand() < .4 else float(rng.choice([.75, 1, 1.5, 2.25]))
        t = float(rng.choice([0, 1, 2, 3]))
        keep = y.copy()
        f = F.HampelFilter(dx=dx, t=t, adaptive=.1 if ad else None, fulloutput=True)
        o = vp.call(lambda: f(y) if x is None else f(y, x))
        e = dict(op='hampel', kind='ok' if o[0] == 'ok' else str(o[1])[:80], y=vp.reals(keep), x=vp.reals(np.arange(n) if x is None else x), hasdx=dx is not None, dx=vp.real(dx or 0), t=vp.real(t), adaptive=ad, lim='0.1', r=[], Y0=[], LB=[], UB=[], out=[], adx=[])
        if o[0] == 'ok':
            g = o[1][1]
            e.update(r=vp.reals(o[1][0]), Y0=vp.reals(g['Y0']), LB=vp.reals(g['LB']), UB=vp.reals(g['UB']), out=vp.reals(g['outliers']), adx=vp.reals(g['ADX']))
            f1 = F.HampelFilter(dx=dx, t=t, adaptive=.1 if ad else None)
            o1 = vp.call(lambda: f1(y) if x is None else f1(y, x))
            ev.append(dict(op='same', what='short-output', a=vp.reals(o1[1]) if o1[0] == 'ok' else [o1[1]], b=e['r']))
        ev.append(e)
        ev.append(dict(op='same', what='argument-unchanged', a=vp.reals(y), b=vp.reals(keep)))
        # Kalman
        n = int(rng.choice([1, 1, 2, 3]))
        m = n if rng.rand() < .6 else int(rng.randint(1, n + 1))
        hasx = m != n or rng.rand() < .5
        def spd(q):
            a = np.round(rng.randn(q, q) * 4) / 4
            return a.dot(a.T) + np.eye(q)
        has = {c: bool(rng.rand() < .6) for c in 'AQHP'}
        has['H'] = has['H'] or m != n
        has['P'] = has['P'] or m != n
        v = dict(A=np.round(rng.randn(n, n) * 4) / 4, Q=spd(n), H=np.round(rng.randn(m, n) * 4) / 4, P=spd(n), R=spd(m), B=np.round(rng.randn(n, 2) * 4) / 4, x=np.round(rng.randn(n) * 4) / 4)
        if m == n:
            v['H'] = v['H'] + 4 * np.eye(n)
        useB = bool(rng.rand() < .5)
        sc = n == 1 and m == 1 and rng.rand() < .6 and not useB
        g = lambda c: (float(np.ravel(v[c])[0]) if sc else v[c].copy()) if has.get(c, True) else None
        kf = vp.call(lambda: F.Kalman(R=g('R'), x=g('x') if hasx else None, P=g('P'), A=g('A'), B=v['B'] if useB else 0, Q=g('Q'), H=g('H')))
        steps = []
        e = dict(op='kalman', steps=steps, n=n, hasx=hasx, x=vp.reals(v['x']), R=mat(v['R']), B=mat(v['B']))
        for c in 'AQHP':
            e['has' + c] = has[c]
            e[c] = mat(v[c])
        ev.append(e)
        for i in range(int(rng.choice([2, 3, 4]))):
            if i and rng.rand() < .25:
                c = str(rng.choice(['A', 'Q', 'R', 'H']))
                nv = dict(A=np.round(rng.randn(n, n) * 4) / 4, Q=spd(n), R=spd(m), H=np.round(rng.randn(m, n) * 4) / 4)[c]
                setattr(kf[1], c, float(nv[0, 0]) if sc else nv)
                steps.append(dict(op='set', what=c, v=mat(nv)))
            z = np.round(rng.randn(m) * 8) / 4
            u = np.round(rng.randn(2) * 4) / 4 if useB and rng.rand() < .7 else np.zeros(2)
            Z = float(z[0]) if sc else z.copy()
            o = vp.call(lambda: kf[1](Z, u) if np.any(u) else kf[1](Z))
            ok = o[0] == 'ok'
            steps.append(dict(op='call', z=vp.reals(z), u=vp.reals(u), kind='ok' if ok else str(o[1])[:80], ret=vp.reals(np.ravel(o[1])) if ok else [], rx=vp.reals(np.ravel(kf[1].x)) if ok else [], rP=vp.reals(np.ravel(kf[1].P)) if ok else []))
            if not ok:
                break
    return ev


def replay(prints):
    import wafo.sg_filter as F
    res = []
    for p in prints:
        bad = None
        for y in (np.array(p['y']), np.array(p['y'], float)):
            for nm, g, want in (('linear', lambda: F.SavitzkyGolay(1, 1)(y), np.array(p['lin']) / 6.), ('median', lambda: F.HampelFilter(dx=1, t=0)(y), np.array(p['med']) / 2.)):
                o = vp.call(g)
                if o[0] != 'ok' or np.shape(o[1]) != want.shape or not np.allclose(o[1], want, atol=1e-12):
                    bad = nm
        res.append((dict(op='replay', y=p['y'], bad=bad), bad is None))
    return res


def run(R):
    m = R.model('FilterModel', 'CONSTANTS MaxLen = %d\nValues = {%s}\nSPECIFICATION Spec\nINVARIANTS LinesKept MonotoneKept\n' % R.pick((6, '0, 1, 3'), (7, '0, 1, 3, 7')))
    R.replays(vp.drive(replay, m['prints']))
    R.check('FilterTrace', vp.drive(record, R.seed, R.pick(60, 900)))
