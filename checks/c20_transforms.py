"""C20 transformations between Gaussian and observed processes."""
import numpy as np
import vp


def res(o, many=False):
    """list of vectors"""
    if o[0] != 'ok':
        return dict(kind='ValueError' if 'ValueError' in str(o[1]) else 'error', err=str(o[1])[:80], v=[[]])
    v = o[1]
    return dict(kind='ok', v=[vp.reals(np.ravel(q)) for q in v] if many and isinstance(v, list) else [vp.reals(np.ravel(v))])


def ochi_v(skew):
    import mpmath
    if skew == 0 or abs(skew) > 2.82842712474619:
        return '1'
    mpmath.mp.dps = 60
    s = abs(mpmath.mpf(repr(skew)))
    lo, hi = mpmath.mpf(1), mpmath.mpf(2)
    f = lambda v: mpmath.sqrt(2 * (v - 1)) * (4 - v) - s
    for _ in range(190):
        m = (lo + hi) / 2
        if f(m) < 0:
            lo = m
        else:
            hi = m
    return mpmath.nstr((lo + hi) / 2, 50)


def shape(rng, x):
    """the data as scalar, list, vector or matrix"""
    if len(x) % 2 == 0 and rng.rand() < .2:
        return x.reshape(2, -1)
    return x.tolist() if rng.rand() < .3 else x.copy()


def record(seed, count):
    from wafo.transform.models import TrLinear, TrHermite, TrOchi
    from wafo.transform.core import TrData
    from wafo.transform.estimation import TransformEstimator
    from wafo.misc import tranproc, trangood
    from wafo.objects import TimeSeries, LevelCrossings
    rng = np.random.RandomState(seed)
    ev = []
    g = TrOchi(skew=.25)
    ev.append(dict(op='ochieq', skew='0.25', v=ochi_v(.25), g0=vp.real(float(g.dat2gauss(0.)[0]))))
    for k in range(count):
        p = dict(mean=float(rng.choice([0, 1.5, -3])), sigma=float(rng.choice([1., .5, 2., 3.25])),
                 ymean=float(rng.choice([0, 0, -1.25])), ysigma=float(rng.choice([1., 1., .25, 4.])))
        P = {q: vp.real(v) for q, v in p.items()}
        kw = dict(p)
        if rng.rand() < .4:
            kw['var'] = kw.pop('sigma') ** 2
        n = int(rng.choice([1, 2, 4, 7]))
        u = np.round(rng.randn(n) * 64) / 64
        if rng.rand() < .3:
            u = np.sort(u)
        if rng.rand() < .3:
            u[rng.randint(n)] = 0
        X, Y = u * p['sigma'] + p['mean'], u * p['ysigma'] + p['ymean']
        # linear
        g = TrLinear(**kw)
        nd = int(rng.randint(0, 4))
        xi = [np.round(rng.randn(n) * 8) for _ in range(nd)]
        for d, x, fun in (('fwd', X, g.dat2gauss if k % 2 else g), ('bwd', Y, g.gauss2dat)):
            x0 = x.copy()
            o = vp.call(lambda: fun(x, *xi))
            ev.append(dict(op='lin', p=P, dir=d, x=vp.reals(x0), xi=[vp.reals(q) for q in xi], r=res(o, True)))
            ev.append(dict(op='same', what='data-unchanged', a=bool(np.array_equal(x, x0)), b=True))
        # Ochi
        sk = float(rng.choice([0., .1, .16, -.3, .7, -1.2, 2., 2.7, 3., -2.9])) if k % 3 else float(np.round(rng.rand() * 1.5, 3))
        v = ochi_v(sk)
        for d, x in (('fwd', X), ('bwd', Y)):
            if d == 'bwd' and sk:
                x = np.clip(x, p['ymean'] - .15 * p['ysigma'] / abs(sk), p['ymean'] + .15 * p['ysigma'] / abs(sk))
            s = shape(rng, x)
            o = vp.call(lambda: (lambda g: g.dat2gauss(s) if d == 'fwd' else g.gauss2dat(s))(TrOchi(skew=sk, **kw)))
            if o[0] == 'ok' and np.shape(o[1]) != np.shape(np.atleast_1d(s)):
                o = ('error', 'shape')
            ev.append(dict(op='ochi', p=P, skew=vp.real(sk), v=v, dir=d, x=vp.reals(x), r=res(o)))
        # Hermite
        typ = k % 6
        sk = float(rng.choice([0., .1, -.2, .3, .5]))
        ku = 3. if typ == 0 else float(3 - rng.choice([.05, .2, .6, 1.])) if typ in (1, 2) else 3 + float(rng.choice([.04, .2, .5, 1., 2.5, 8.]))
        if typ == 3:
            ku = 3 + float(np.round(1.6 * sk ** 2 + .05, 2))
        if typ == 5 and sk and k % 4 == 1:
            ku = 3 + .5 * sk ** 2
        par = int(rng.choice([1, 2]))
        for d, x in (('fwd', X), ('bwd', Y)):
            if rng.rand() < .3 and n > 2 and d == 'fwd':   # wide, unsorted: may hold a turning point inside
                x = x.copy()
                x[1] += float(rng.choice([-8, 8, 4])) * p['sigma']
            s = shape(rng, x)
            o = vp.call(lambda: (lambda g: g.dat2gauss(s) if d == 'fwd' else g.gauss2dat(s))(TrHermite(skew=sk, kurt=ku, pardef=par, **kw)))
            if o[0] == 'ok' and np.shape(o[1]) != np.shape(np.atleast_1d(s)):
                o = ('error', 'shape')
            ev.append(dict(op='herm', p=P, skew=vp.real(sk), kurt=vp.real(ku), pardef=par, dir=d, x=vp.reals(x), r=res(o)))
        # distance to the Gaussian model, tabulation
        cls = [TrLinear, TrOchi, TrHermite][k % 3]
        g = cls(skew=.2, kurt=3.2, **kw)
        lo, hi, m = float(rng.choice([-5, -2.5])), float(rng.choice([5, 2.])), int(rng.choice([5, 9, 12]))
        xs = np.linspace(lo, hi, m) * p['sigma'] + p['mean']
        y = g.dat2gauss(xs)
        t = g.trdata(xnmin=lo, xnmax=hi, n=m) if k % 2 else g.trdata(x=xs)
        dd = g.dist2gauss(xnmin=lo, xnmax=hi, n=m) if k % 2 else g.dist2gauss(x=xs)
        ev.append(dict(op='dist', p=P, lo=vp.real(lo), hi=vp.real(hi), n=m, y=vp.reals(y), d=vp.real(float(dd)), tx=vp.reals(t.args), ty=vp.reals(t.data), tm=vp.real(float(t.mean)), ts=vp.real(float(t.sigma))))
        # tables
        n = int(rng.choice([6, 8, 11]))
        uni = rng.rand() < .5
        x = np.arange(n) * .5 - 2 if uni else np.cumsum(.25 + np.round(rng.rand(n) * 8) / 8) - 2
        f = np.cumsum(.1 + np.round(rng.rand(n) * 16) / 16) - 3 if rng.rand() < .7 else np.round(rng.randn(n) * 8) / 4
        nd = int(rng.choice([0, 0, 1, 2, 3, 4]))
        h = (x[-1] - x[0]) / (n - 1)
        m = int(rng.choice([1, 3, 5]))
        lo, hi = x[0] + nd * h / 2 + 1e-9, x[-1] - nd * h / 2 - 1e-9
        x0 = lo + (hi - lo) * np.round(rng.rand(m) * 32) / 32
        where = 'inside'
        if k % 10 == 0 and nd == 0:
            where = 'above' if k % 20 else 'below'
            x0[-1] = hi + float(rng.choice([.7, 2.3])) * h if k % 20 else lo - 1.3 * h
        elif nd == 0 and rng.rand() < .5:
            x0[0] = rng.choice([x[0], x[-1] if uni else x[1], x[2]])
        xi = [np.round(rng.randn(m) * 8) / 2 for _ in range(nd)]
        pr = rng.permutation(n) if rng.rand() < .2 else np.arange(n)
        xa, fa = x[pr], f[pr]
        o = vp.call(lambda: tranproc(xa, fa, x0, *xi))
        ev.append(dict(op='tran', x=vp.reals(xa), f=vp.reals(fa), x0=vp.reals(x0), xi=[vp.reals(q) for q in xi], where=where, big=vp.real(float(np.abs(f).max())), r=res(o, True)))
        ev.append(dict(op='same', what='table-unchanged', a=[np.array_equal(xa, x[pr]), np.array_equal(fa, f[pr])], b=[True, True]))
        mn, mx = int(rng.choice([-1, -1, 4, 2 * n, 3 * n + 1])), int(rng.choice([-1, -1, 5, 40]))
        lo = None if rng.rand() < .8 else float(x[0] - rng.choice([.1, .6, 2.3]))
        hi = None if rng.rand() < .4 else float(x[-1] + rng.choice([-.2, .1, .6, 2.3]))
        kw2 = dict(min_n=None if mn == -1 else mn, min_x=lo, max_x=hi)
        if mx != -1:
            kw2['max_n'] = mx
        o = vp.call(lambda: trangood(xa, fa, **kw2))
        ok = o[0] == 'ok'
        ev.append(dict(op='good', x=vp.reals(xa), f=vp.reals(fa), minn=mn, maxn=mx, lo='none' if lo is None else vp.real(lo), hi='none' if hi is None else vp.real(hi), below=lo is not None,
                       kind='ok' if ok else str(o[1])[:60], rx=vp.reals(o[1][0]) if ok else [], rf=vp.reals(o[1][1]) if ok else []))
        # tabulated transformation
        xx, yy = x, np.cumsum(.25 + np.round(rng.rand(n) * 8) / 8)
        yy = yy - yy[n // 2]
        km = {}
        if rng.rand() < .5:
            km['mean'] = 1.25
        if rng.rand() < .5:
            km['sigma'] = .75
        km['ysigma'] = float(rng.choice([1., .5, .25]))
        km['ymean'] = float(rng.choice([0., .125]))
        o = vp.call(lambda: TrData(yy.copy(), xx.copy(), **km))
        ok = o[0] == 'ok'
        inside = yy[0] <= km['ymean'] - km['ysigma'] and km['ymean'] + km['ysigma'] <= yy[-1]
        if inside:
            ev.append(dict(op='trdata', x=vp.reals(xx), y=vp.reals(yy), ymean=vp.real(km['ymean']), ysigma=vp.real(km['ysigma']), gmean=vp.real(km['mean']) if 'mean' in km else 'none',
                           gsigma=vp.real(km['sigma']) if 'sigma' in km else 'none', kind='ok' if ok else str(o[1])[:60], mean=vp.real(float(np.ravel(o[1].mean)[0])) if ok else '', sigma=vp.real(float(np.ravel(o[1].sigma)[0])) if ok else ''))
        if ok:
            t = o[1]
            for d, a, b in (('fwd', xx, yy), ('bwd', yy, xx)):
                x0 = a[0] + (a[-1] - a[0]) * np.round(rng.rand(3) * 31) / 32
                q = vp.call(lambda: t.dat2gauss(x0) if d == 'fwd' else t.gauss2dat(x0))
                ev.append(dict(op='tran', x=vp.reals(a), f=vp.reals(b), x0=vp.reals(x0), xi=[], where='inside', big=vp.real(float(np.abs(b).max())), r=res(q)))
        # estimates
        n = int(rng.choice([7, 20, 40]))
        z = np.round((rng.randn(n) + .1 * rng.randn(n) ** 2) * 16) / 8 + float(rng.choice([0, 2]))
        if z.std() > 0:
            ts = TimeSeries(z.copy(), np.arange(n) * .5)
            for me, nm in (('linear', 'linear'), ('hermite', 'hermite'), ('ochi', 'ochi')):
                o = vp.call(lambda: TransformEstimator(method=me).trdata(ts))
                if o[0] != 'ok' and me == 'ochi':
                    continue
                ok = o[0] == 'ok'
                t = (o[1][0] if isinstance(o[1], tuple) else o[1]) if ok else None
                ev.append(dict(op='est', method=nm, x=vp.reals(z), kind='ok' if ok and type(t).__name__.lower() == 'tr' + nm else 'no', mean=vp.real(float(t.mean)) if ok else '', sigma=vp.real(float(t.sigma)) if ok else '',
                               skew=vp.real(float(t.skew)) if ok else '', kurt=vp.real(float(t.kurt)) if ok and t.kurt is not None else ''))
            if n >= 20:
                te = TransformEstimator(method='mnonlinear', ne=1, param=(-3, 3, 9), chkder=bool(k % 2))
                o = vp.call(lambda: te.trdata(ts))
                ok = o[0] == 'ok'
                ev.append(dict(op='cdf', x=vp.reals(z), kind='ok' if ok else str(o[1])[:80], ex=vp.reals(o[1][1].args) if ok else [], ey=vp.reals(o[1][1].data) if ok else []))
        n = int(rng.choice([9, 14]))
        lv = np.arange(n) * .25 - 1
        c = np.round(20 * np.exp(-.5 * ((np.arange(n) - n // 2) / (n / 6.)) ** 2)) + 1
        inten = bool(k % 2)
        o = vp.call(lambda: TransformEstimator(ne=1, param=(-3, 3, 9), chkder=bool(k % 4 > 1))._trdata_lc(LevelCrossings(c.copy() / (7. if inten else 1.), lv.copy(), mean=.5, sigma=.75, intensity=inten)))
        ok = o[0] == 'ok'
        ev.append(dict(op='lc', x=vp.reals(lv), c=vp.reals(c / (7. if inten else 1.)), intensity=inten, kind='ok' if ok else str(o[1])[:80], ex=vp.reals(o[1][1].args) if ok else [], ey=vp.reals(o[1][1].data) if ok else [],
                       gx=vp.reals(o[1][0].args) if ok else [], mean='0.5', sigma='0.75', lo='-3', hi='3', np=9))
    return ev


def replay(prints):
    from wafo.transform.core import TrData
    from wafo.misc import tranproc
    out = []
    for p in prints:
        f = np.array(p['f'], float)
        n = len(f)
        x = np.arange(n, dtype=float)
        u = np.arange(2 * n - 1) / 2.
        good = np.allclose(2 * tranproc(x, f, u), p['half'], rtol=0, atol=1e-9)
        inc = bool(np.all(np.diff(f) > 0))
        if inc:
            t = TrData(f, x, mean=0, sigma=1)
            y = t.dat2gauss(u)
            good = good and np.allclose(2 * y, p['half'], atol=1e-9)
            if np.all(np.diff(f) == f[1] - f[0]):
                good = good and np.allclose(t.gauss2dat(y), u, atol=1e-9)
        out.append((dict(op='replay', f=p['f']), bool(good)))
    return out


def run(R):
    m = R.model('TransModel', 'CONSTANTS N = %d\nVals = {0, 1, 2, 5}\nSPECIFICATION Spec\nINVARIANTS Monotone Nodes Bounded\n' % R.pick(5, 6))
    R.replays(vp.drive(replay, m['prints']))
    R.check('TransTrace', vp.drive(record, R.seed, R.pick(60, 400)))
