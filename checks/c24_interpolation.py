"""C24 interpolation, piecewise polynomials, smoothing splines and local polynomial filters."""
import numpy as np
import vp

METHODS = ['catmull-rom', 'cardinal', 'parabola', 'secant', 'akima', 'pchip', 'stineman', 'steffen', 'fritsch-carlson']


def out(o):
    if o[0] != 'ok':
        return dict(kind=str(o[1]).split(':')[0], r=[])
    return dict(kind='ok', r=vp.reals(np.ravel(o[1])))


def data(rng, n):
    x = np.cumsum(rng.choice([.25, .5, 1, 1, 1.5, 3], n)) - 3
    y = np.round(rng.randn(n) * 16) / 8
    c = rng.rand()
    if c < .25:
        y = np.cumsum(np.abs(y))
    elif c < .4:
        y = -np.cumsum(np.abs(y))
    elif c < .5:
        y = np.round(y)
    elif c < .6:
        y[int(rng.randint(n - 1)):] = y[-1]
    elif c < .65:
        y = 2 * x - 1
    return x, y


def points(rng, x, m):
    t = np.concatenate([x, x[0] + (x[-1] - x[0]) * np.round(rng.rand(m) * 256) / 256])
    return t[rng.permutation(len(t))[:m]]


def record(seed, count):
    import wafo.interpolate as I
    rng = np.random.RandomState(seed)
    ev = []
    for k in range(count):
        # slopes
        n = int(rng.choice([2, 3, 3, 4, 5, 7]))
        x, y = data(rng, n)
        method = METHODS[k % 9]
        tension = float(rng.choice([0, .25, .5, 1])) if method == 'cardinal' else 0.
        scale = bool(rng.rand() < .3)
        base = dict(method=method, tension=vp.real(tension), scale=scale)
        name = method.upper() if k % 4 == 1 else method.capitalize() if k % 4 == 2 else method
        refuse = rng.rand() < .07
        if refuse:
            q = int(rng.randint(1, n))
            x[q] = x[q - 1] - rng.choice([0, .5])
        lists = rng.rand() < .3
        ints = rng.rand() < .2 and not refuse
        if ints:
            x, y = np.round(np.arange(n) * 2 + (x - x[0]) % 1), np.round(y)
            x = x.astype(int)
            y = y.astype(int)
        a, b = (x.tolist(), y.tolist()) if lists else (x.copy(), y.copy())
        mono = bool(rng.rand() < .3) and n > 2
        e = out(vp.call(lambda: I.slopes(a, b, name, tension=tension, monotone=mono, scale=scale)))
        e.update(base, op='slopes', x=vp.reals(x), y=vp.reals(y), monotone=mono, refuse=bool(refuse))
        ev.append(e)
        ev.append(dict(op='same', what='argument-unchanged', a=vp.reals(list(a) + list(b)), b=vp.reals(list(x) + list(y))))
        # interpolants
        x, y = data(rng, n)
        t = points(rng, x, 6)
        which = ['pchip', 'hermite', 'stineman', 'stineman_interp'][int(rng.randint(4))]
        given = bool(rng.rand() < .35)
        yp = np.round(rng.randn(n) * 8) / 8
        scale = which == 'stineman' and not given and bool(rng.rand() < .3)
        meth = method if which != 'stineman_interp' else 'stineman'
        default = rng.rand() < .3 and not given and which != 'stineman_interp'
        if default:
            meth = {'pchip': 'pchip', 'hermite': 'catmull-rom', 'stineman': 'stineman'}[which]
        kw = {} if default else dict(yp=yp) if given else dict(method=meth)
        if scale:
            kw['scale'] = True

        def go():
            if which == 'pchip':
                return I.Pchip(x, y, **kw)(t)
            if which == 'hermite':
                return I.CubicHermiteSpline(x, y, **kw)(t)
            if which == 'stineman':
                return I.StinemanInterp(x, y, **kw)(t)
            return I.stineman_interp(t, x, y, **(dict(yp=yp) if given else {}))
        e = out(vp.call(go))
        e.update(op='interp', kindof='stineman' if which.startswith('st') else 'hermite', given=given, yp=vp.reals(yp), x=vp.reals(x), y=vp.reals(y),
                 method=meth, tension='0', scale=scale, t=vp.reals(t))
        ev.append(e)
        # piecewise polynomials
        nb = int(rng.randint(1, 5))
        order = int(rng.randint(1, 5))
        br = np.cumsum(rng.choice([.5, 1, 1, 2, 3], nb + 1)) - 2
        c = np.round(rng.randn(order, nb) * 8) / 4
        if rng.rand() < .3:
            br, c = np.cumsum(rng.choice([1, 2, 3], nb + 1)) - 2, np.round(c).astype(int)
        fill = float(rng.choice([0, 0, -1, 2.5]))
        lo, hi = float(br[0]), float(br[-1])
        kw = {}
        if rng.rand() < .3:
            lo, hi = lo - 1, hi + .5
            kw = dict(a=lo, b=hi)
        shuffled = br[rng.permutation(nb + 1)] if rng.rand() < .3 else None
        what = ['value', 'derivative', 'integral', 'back', 'lin'][int(rng.randint(5))]
        t = np.concatenate([points(rng, br, 6), [br[0] - 1, br[0] - .5, br[-1] + .25, br[-1] + .5, br[-1] + 3, br[0], br[-1]]])
        if rng.rand() < .2:
            t = np.unique(np.round(t)).astype(int)
        sh = [(len(t),), (1, len(t)), (len(t), 1)][int(rng.randint(3))]
        kc, kb = np.array(c, copy=True), np.array(br, copy=True)

        def make():
            if shuffled is not None:
                return I.PPform(c, shuffled, fill=fill, sort=True, **kw)
            return I.PPform(c, br, fill=fill, **kw)

        inplace = rng.rand() < .5

        def pp():
            f = make()
            if what == 'derivative':
                f = f.derivative()
            elif what == 'integral':
                f = f.integrate()
            elif what == 'back':
                f = f.integrate().derivative()
            elif what == 'lin':
                if inplace:
                    f.linear_extrapolate(output=False)
                else:
                    f = f.linear_extrapolate()
            return f(t.reshape(sh))
        o = vp.call(pp)
        e = out(o)
        e.update(op='pp', c=[vp.reals(r) for r in c], br=vp.reals(br), a=vp.real(lo), b=vp.real(hi), fill=vp.real(fill), what=what, t=vp.reals(t), shape=bool(o[0] == 'ok' and np.shape(o[1]) == sh))
        ev.append(e)
        ev.append(dict(op='same', what='argument-unchanged', a=vp.reals(np.r_[c.ravel(), br]), b=vp.reals(np.r_[kc.ravel(), kb])))
        # smoothing spline
        if k % 2 == 0:
            n = int(rng.choice([2, 3, 4, 5, 7]))
            x, y = data(rng, n)
            x = np.cumsum(rng.choice([.5, 1, 1, 2], n))
            hv = rng.rand() < .5
            var = np.round(rng.rand(n) * 8 + 1) / 4 if hv else np.ones(n)
            vv = {} if not hv else dict(var=var.copy())
            if rng.rand() < .2:
                var = np.full(n, 2.)
                vv = dict(var=2)
            hasp = rng.rand() < .75
            p = float(rng.choice([0, 1, .5, .9, .125, .99]))
            order = rng.permutation(n) if rng.rand() < .4 else np.arange(n)
            if 'var' in vv and np.ndim(vv['var']):
                vv['var'] = vv['var'][order]
            if rng.rand() < .2:
                y = np.round(y).astype(int)
            lin = bool(rng.rand() < .7)
            if not lin:
                vv['lin_extrap'] = False
            if hasp:
                vv['p'] = p
            T = np.array([[x[i] + (x[i + 1] - x[i]) * j for j in (0, .25, .75, 1)] for i in range(n - 1)])
            ot = np.array([x[0] - 2, x[0] - .5, x[-1] + .5, x[-1] + 1, x[-1] + 3])

            def sp():
                f = I.SmoothSpline(x[order], y[order], **vv)
                return f(T), f(ot)
            o = vp.call(sp)
            ok = o[0] == 'ok'
            ev.append(dict(op='spline', x=vp.reals(x), y=vp.reals(y), var=vp.reals(var), hasp=bool(hasp), p=vp.real(p), t=[vp.reals(r) for r in T],
                           f=[vp.reals(r) for r in o[1][0]] if ok else [], lin=lin, ot=vp.reals(ot), of=vp.reals(o[1][1]) if ok else [], kind='ok' if ok else str(o[1])[:60]))
        # local polynomials
        n = int(rng.choice([1, 2, 3]))
        deg = int(rng.randint(0, 2 * n))
        d = int(rng.randint(0, min(deg, 2) + 1))
        N = 2 * n + 1 + int(rng.randint(0, 6))
        y = np.round(rng.randn(N) * 16) / 8
        turn = 0
        if rng.rand() < .25:
            turn, d = int(rng.randint(n + 2, N + 1)), 0
            M = int(rng.randint(n + 2, n + 5))
            y = np.round(rng.randn(turn + M) * 16) / 8
            xv = np.r_[np.arange(turn), np.arange(turn - 2, turn - 2 - M, -1)] * 1.
            if k % 3 == 0:
                xv = -xv
        refuse = rng.rand() < .08
        w = 2 * n + 1
        if refuse:
            turn = 0
            w, deg, d = [(2 * n, 0, 0), (w, 2 * n, 0), (w, 2 * n + 2, 0)][int(rng.randint(3))]
        e = out(vp.call(lambda: I.savitzky_golay(y, w, deg, d) if turn == 0 else I.savitzky_golay_piecewise(xv, y, w, deg)))
        e.update(op='sg', y=vp.reals(y), n=n, deg=deg, d=d, turn=turn, refuse=bool(refuse))
        ev.append(e)
        if k % 3 == 0:
            n = int(rng.choice([1, 2]))
            order = int(rng.randint(0, 3))
            z = np.round(rng.randn(2 * n + 3, 2 * n + 2) * 16) / 8
            coef = int(rng.randint(1, 4)) if order else 1
            der = {1: None, 2: 'col', 3: 'row'}[coef]
            both = coef > 1 and rng.rand() < .4

            def go2():
                r = I.sgolay2d(z, 2 * n + 1, order, 'both' if both else der)
                return r[coef - 2] if both else r
            o = vp.call(go2)
            at = [[i + 1, j + 1] for i in range(n, z.shape[0] - n) for j in range(n, z.shape[1] - n)]
            e = out(('ok', [o[1][i - 1, j - 1] for i, j in at]) if o[0] == 'ok' and np.shape(o[1]) == z.shape else ('error', str(o[1])))
            e.update(op='sg2', z=[vp.reals(r) for r in z], at=at, n=n, order=order, coef=coef)
            ev.append(e)
    return ev


def replay(prints):
    import wafo.interpolate as I
    res = []
    for p in prints:
        br = np.array(p['br'])
        t = np.array([v for q in range(len(br) - 1) for v in (br[q], (br[q] + br[q + 1]) // 2)] + [br[-1]])
        f = np.array([v for q in p['f'] for v in q] + [p['end']])
        J = np.array([v for q in p['I'] for v in q] + [p['I2']]) / 2.
        bad = None
        for dt in (int, float):
            o = vp.call(lambda: I.PPform(np.array([p['a'], p['b']], dt), br.astype(dt)))
            for nm, g, want in (('value', lambda: o[1](t), f), ('integral', lambda: o[1].integrate()(t), J), ('derivative', lambda: o[1].integrate().derivative()(t), f)):
                v = vp.call(g)
                if v[0] != 'ok' or np.shape(v[1]) != want.shape or not np.allclose(v[1], want, atol=1e-12):
                    bad = nm
        res.append((dict(op='replay', p=p, bad=bad), bad is None))
    return res


def run(R):
    m = R.model('InterpModel', 'CONSTANTS MaxPieces = 3\nWidths = {2%s}\nSteps = {0, 2, 3}\nLevels = {0, 1%s}\nSPECIFICATION Spec\nINVARIANTS Halves Grows\n' % R.pick(('', ', 3'), (', 4', ', 3')))
    R.replays(vp.drive(replay, m['prints']))
    R.check('InterpTrace', vp.drive(record, R.seed, R.pick(60, 900)))
