"""C13 kernel density estimation, kernel regression, bandwidths."""
import numpy as np
import vp

KER = ['gaus', 'epan', 'biwe', 'triw', 'p1ep', 'p1bi', 'p1tr', 'rect', 'tria', 'lapl', 'logi']
FULL = dict(gaus='gauss', epan='epanechnikov', biwe='biweight', triw='triweight', p1ep='p1epanechnikov',
            p1bi='p1biweight', p1tr='p1triweight', rect='rectangular', tria='triangular', lapl='laplace', logi='logistic')


def hmat(h, d):
    h = np.asarray(h, dtype=float)
    return np.diag(h * np.ones(d)) if h.ndim < 2 else h


def flat(o, shape=None):
    if o[0] == 'ok' and shape is not None and np.shape(o[1]) != tuple(shape):
        return dict(kind='other', err='shape %s' % (np.shape(o[1]),))
    return vp.res_reals((o[0], np.asarray(o[1]).ravel() if o[0] == 'ok' else o[1]))


def bandwidth(rng, d, sc):
    if d == 1 or rng.rand() < .3:
        return float(rng.choice([.3, .8, 2.])) * sc
    if rng.rand() < .5:
        return rng.choice([.4, .8, 1.7], size=d) * sc
    a = rng.randn(d, d) * .3
    return (a.dot(a.T) + np.eye(d) * .6) * sc


def rec_kde(seed, count):
    import wafo.kdetools as wk
    rng = np.random.RandomState(seed)
    ev = []
    for k in range(count):
        d = int(rng.choice([1, 1, 2, 3]))
        n = int(rng.choice([3, 4, 7, 12]))
        ker = KER[k % len(KER)] if rng.rand() < .7 else 'gaus'
        sc = float(rng.choice([1, 1, 1e-3, 100.]))
        data = rng.randn(d, n) * sc
        trans = bool(rng.rand() < .4)
        L = ['none'] * d
        if trans:
            data = np.exp(rng.randn(d, n) * .5) * sc
            L2 = [float(v) for v in rng.choice([0, 1, .5, 2, -1, 1 / 3.], size=d)]
            if rng.rand() < .3:
                L2 = [L2[0]] * d
            L = [vp.real(v) for v in L2]
        isint = bool(rng.rand() < .15) and sc == 1
        if isint:
            data = np.ceil(np.abs(data) * 4).astype(int)
        raw = np.array(data, dtype=float)
        td = raw.copy()
        if trans:
            for i in range(d):
                td[i] = np.log(raw[i]) if L2[i] == 0 else raw[i] ** L2[i]
        tsc = float(np.mean(np.std(td, axis=1))) or 1.0
        # a bandwidth keeps every kernel positive at the data themselves, so alpha is well defined
        hs = bandwidth(rng, d, tsc)
        alpha = float(rng.choice([0, 0, .5, 1.])) if ker not in ('rect',) else 0.0
        kern = wk.Kernel(FULL[ker] if rng.rand() < .5 else ker)
        arg = data[0] if d == 1 and rng.rand() < .5 else data
        hsin = np.array(hs) if np.ndim(hs) else hs
        if trans:
            o = vp.call(wk.TKDE, arg, hs=hsin, kernel=kern, alpha=alpha, inc=16, L2=L2 if d > 1 or rng.rand() < .5 else L2[0])
        else:
            o = vp.call(wk.TKDE if rng.rand() < .2 else wk.KDE, arg, hs=hsin, kernel=kern, alpha=alpha, inc=16)
        hist = [dict(what='new', data=vp.reals(raw), H=vp.reals(hmat(hs, d)), k=ker, alpha=vp.real(alpha))]
        if o[0] != 'ok':
            ev.append(dict(op='kde', hist=hist, L=L, x=[], y=[], m=0, neg=False, r=dict(kind='error', err=o[1])))
            continue
        kde = o[1]
        for step in range(int(rng.randint(1, 4))):
            if step and alpha == 0 and rng.rand() < .5:
                hs = bandwidth(rng, d, tsc)
                kde.hs = hs
                hist = hist + [dict(what='hs', H=vp.reals(hmat(hs, d)))]
            elif step and not hasattr(kde, 'tkde') and ker != 'rect' and rng.rand() < .5:
                alpha = float(rng.choice([0, .3, .8]))
                kde.alpha = alpha
                hist = hist + [dict(what='alpha', alpha=vp.real(alpha))]
            m = int(rng.choice([1, 2, n, n + 2]))
            pts = raw[:, rng.randint(n, size=m)] * np.exp(rng.randn(d, m) * .2) if trans else \
                raw[:, rng.randint(n, size=m)] + rng.randn(d, m) * tsc * .5
            if isint and rng.rand() < .5:
                pts = np.ceil(np.abs(pts)).astype(int)
            y, kw, mom, neg = np.ones(n), {}, 0, False
            if not hasattr(kde, 'tkde') and rng.rand() < .4:
                y = rng.randn(n)
                neg = True
                mom = int(rng.choice([0, 1, 2]))
                kw = dict(y=y, r=mom)
            p0 = pts.copy()
            if rng.rand() < .6 or d == 3:
                r = flat(vp.call(kde.eval_points, pts[0] if d == 1 and rng.rand() < .5 else pts, **kw), (m,))
                xs = pts.T
            else:
                grd = [np.sort(pts[i]) for i in range(d)]
                if rng.rand() < .3:
                    grd = [g if i else g[:2] for i, g in enumerate(grd)]
                mesh = np.meshgrid(*grd)
                r = flat(vp.call(kde if rng.rand() < .3 else kde.eval_grid, *grd, **kw), mesh[0].shape)
                xs = np.vstack([q.ravel() for q in mesh]).T
            ev.append(dict(op='kde', hist=hist, L=L, x=vp.reals(xs), y=vp.reals(y), m=mom, neg=neg, r=r))
            ev.append(dict(op='same', what='input-unchanged', a=[vp.reals(np.asarray(data, float)), vp.reals(pts), vp.reals(hsin)],
                           b=[vp.reals(raw), vp.reals(p0), hist[0]['H'] if np.ndim(hsin) > 1 else
                              vp.reals(np.diag(np.array(hist[0]['H'], float))) if np.ndim(hsin) else vp.reals(hsin)]))
            hist = hist + [dict(what='query')]
        # binned estimate
        if d > 2 or (d == 2 and k % 3):
            continue
        inc = int(rng.choice([9, 16, 25])) if d == 1 else int(rng.choice([5, 7]))
        kde.inc = inc
        if trans:
            if d == 1:      # with a transformation the values are interpolated in the requested points
                x = np.unique(np.sort(raw[0, rng.randint(n, size=5)] * np.exp(rng.randn(5) * .3)))
                if rng.rand() < .5:
                    o = vp.call(kde.eval_grid_fast, x)
                else:
                    o = vp.call(kde.eval_grid_fast)
                    x = np.ravel(kde.args)
                X = np.atleast_2d(kde.tkde.args)
                if X.shape != (1, inc):
                    o = ('error', 'grid')
                ev.append(dict(op='fast-interpolated', hist=hist, L=L, X=vp.reals(X), inc=inc, x=vp.reals(x), y=vp.reals(np.ones(n)), r=flat(o)))
            continue
        y, kw, mom, neg = np.ones(n), {}, 0, False
        if d == 1 and not hasattr(kde, 'tkde') and rng.rand() < .5:
            y = rng.randn(n)
            neg = True
            mom = int(rng.choice([0, 1, 2]))
            kw = dict(y=y, r=mom)
        grid = []
        if not trans and rng.rand() < .4:
            grid = [np.linspace(raw[i].min() - tsc * rng.rand(), raw[i].max() + tsc * rng.rand(), inc) for i in range(d)]
        if rng.rand() < .3:
            o = vp.call(kde.eval_grid_fast, *grid, output='plot', **kw)
            if o[0] == 'ok':
                o = ('ok', o[1].data)
        else:
            o = vp.call(kde.eval_grid_fast, *grid, **kw)
        X = np.atleast_2d((kde.tkde if hasattr(kde, 'tkde') else kde).args)
        ev.append(dict(op='fast', hist=hist, L=L, X=vp.reals(X), inc=inc, y=vp.reals(y), m=mom, neg=neg,
                       r=flat(o, (inc,) * d)))
    return ev


def rec_reg(seed, count):
    import wafo.kdetools as wk
    rng = np.random.RandomState(seed)
    ev = []
    for k in range(count):
        n = int(rng.choice([4, 8, 15]))
        x = np.sort(rng.rand(n) * 4 + .5)
        if rng.rand() < .4:
            x = x[rng.permutation(n)]
        y = np.sin(2 * x) * float(rng.choice([1, 50.])) + float(rng.choice([0, 2])) + rng.randn(n) * .1
        p = int(rng.randint(2))
        ker = str(rng.choice(['gaus', 'gaus', 'epan', 'biwe', 'lapl', 'tria']))
        trans = bool(rng.rand() < .35)
        L2 = float(rng.choice([0, .5, 2])) if trans else None
        tx = x if not trans else np.log(x) if L2 == 0 else x ** L2
        hs = float(rng.choice([.4, .9]) * tx.std())
        fast = bool(rng.rand() < .5) and not trans
        inc = int(rng.choice([12, 20, 31]))
        o = vp.call(wk.KRegression, x, y, p=p, hs=hs, kernel=wk.Kernel(ker), inc=inc, L2=L2)
        hist = [dict(what='new', data=vp.reals(x[None]), H=vp.reals([[hs]]), k=ker, alpha='0')]
        ev0 = dict(op='regression', hist=hist, L=[vp.real(L2) if trans else 'none'], y=vp.reals(y), p=p, fast=fast)
        g = np.linspace(x.min() - .2, x.max() + .3, inc)
        if o[0] != 'ok':
            r = dict(kind='error', err=o[1])
        else:
            kr = o[1]
            r = flat(vp.call(kr.eval_grid_fast if fast else kr.eval_grid, g)) if rng.rand() < .8 or not fast else flat(vp.call(kr, g))
        ev.append(dict(ev0, x=vp.reals(g), r=r))
        if trans and o[0] == 'ok':     # the fast transformed regression approximates the exact one: compare coarsely
            kr2 = wk.KRegression(x, y, p=0, hs=hs, kernel=wk.Kernel('gauss'), inc=512, L2=L2)
            g2 = np.linspace(x.min(), x.max(), 9)[1:-1]
            a, b = vp.call(kr2.eval_grid_fast, g2), vp.call(kr2.eval_grid, g2)
            ok = a[0] == b[0] == 'ok' and np.shape(a[1]) == np.shape(b[1]) and bool(np.all(np.abs(a[1] - b[1]) < .05 * np.ptp(y)))
            ev.append(dict(op='same', what='fast-regression-approximates', a=ok, b=True))
        # binomial regression
        yb = (rng.rand(n) < .5).astype(int)
        if yb.sum() < 3:           # the default bandwidth needs a few successes, or none
            yb[:] = 0
        meth = str(rng.choice(['beta', 'wilson']))
        alpha = float(rng.choice([.05, .2, .01]))
        o = vp.call(wk.BKRegression, x, yb, method=meth, a=.05, b=.07)
        if o[0] != 'ok':
            continue
        bk = o[1]
        nn = rng.choice([.5, 3, 10, 40.], size=4)
        pp = np.array([rng.rand(), 0., 1., rng.rand()])
        from scipy import special
        c = vp.call(bk.prb_ci, nn, pp, alpha)
        ok = c[0] == 'ok' and len(c[1]) == 2
        r = dict(kind='ci', lo=vp.reals(c[1][0]), hi=vp.reals(c[1][1])) if ok else dict(kind='error', err=str(c[1]))
        ev.append(dict(op='ci', n=vp.reals(nn), p=vp.reals(pp), alpha=vp.real(alpha), a='0.05', b='0.07',
                       z=vp.real(-special.ndtri(alpha / 2)), wilson=meth == 'wilson', r=r))
        o = vp.call(bk.prb_empirical, alpha=alpha)
        if o[0] == 'ok':
            e = o[1]
            r = dict(kind='emp', count=vp.reals(e.count), p=vp.reals(e.data))
            if len(e.args) <= 60:
                ev.append(dict(op='empirical', x=vp.reals(x), X=vp.reals(e.args), y=vp.reals(yb), r=r))
            hv = np.linspace(.2, 1.2, 4) * float(x.std())
            h0 = hv.copy()
            o2 = vp.call(bk.prb_search_best, e, hsvec=hv, alpha=alpha)
            if o2[0] == 'ok':
                b = o2[1]
                after = np.ravel(bk.hs)[0]
                r = dict(kind='best', score=vp.reals(b.score.data), hs=vp.real(b.hs), aicc=vp.real(b.aicc), after=vp.real(after), p=vp.reals(b.data))
            else:
                r = dict(kind='error', err=o2[1])
            ev.append(dict(op='best', hs=vp.reals(h0), r=r))
        else:
            ev.append(dict(op='empirical', x=vp.reals(x), X=vp.reals(x), y=vp.reals(yb), r=dict(kind='error', err=o[1])))
    return ev


def rec_band(seed, count):
    import wafo.kdetools as wk
    from wafo.kdetools import kernels as ks
    rng = np.random.RandomState(seed)
    ev = []
    for k in range(count):
        ker = KER[k % len(KER)]
        K = wk.Kernel(ker)
        d = int(rng.choice([1, 2, 3]))
        u = rng.randn(4, d) * rng.choice([.3, .8])
        s = K.stats()
        o = vp.call(K, u.T)
        ev.append(dict(op='kernel', k=ker, u=vp.reals(u), norm=vp.real(K.norm_factor(d, 4)), mu2=vp.real(s[0]), rough=vp.real(s[1]),
                       r=flat(o, (4,))))
        ev.append(dict(op='same', what='mkernel-agrees', a=flat(vp.call(ks.mkernel, u.T, ker)), b=flat(o)))
        n = int(rng.choice([5, 9, 20, 41]))
        sc = 10.0 ** rng.randint(-4, 5, size=d)
        data = (rng.randn(d, n) + (rng.rand(d, n) < .3) * 4) * sc[:, None]
        if rng.rand() < .1:
            data[:, : (4 * n) // 5 + 1] = sc[:, None]        # no spread between the quartiles
        base = dict(op='bandwidth', k=ker, data=vp.reals(data), stages=0, inc=0)
        ev.append(dict(base, f='hns', r=flat(vp.call(K.hns, data))))
        ev.append(dict(base, f='hos', r=flat(vp.call(K.hos, data[0] if d == 1 else data))))
        ev.append(dict(op='iqr', data=vp.reals(data), r=flat(vp.call(ks.iqrange, data, axis=1))))
        x = rng.randn(n) * sc[0]
        kd = vp.call(wk.KDE, x, hs=1.)
        ev.append(dict(op='range', x=vp.reals(x), r=flat(('ok', [kd[1].xmin[0], kd[1].xmax[0]]) if kd[0] == 'ok' else kd)))
        dd, rad = int(rng.randint(1, 7)), float(rng.choice([1, .5, 3.2]))
        ev.append(dict(op='sphere', d=dd, rad=vp.real(rad), r=vp.res_reals(vp.call(ks.sphere_volume, dd, rad), 0)))
        if n >= 9:
            data = rng.randn(1 + k % 2, n) * 3 + (rng.rand(1 + k % 2, n) < .3) * 9
            base = dict(op='bandwidth', k=ker, data=vp.reals(data))
            st = int(rng.randint(0, 4))
            ev.append(dict(base, f='hldpi', stages=st, inc=24, r=flat(vp.call(K.hldpi, data, L=st, inc=24))))
            if k % 2 == 0:
                ev.append(dict(base, f='hste', stages=0, inc=24, r=flat(vp.call(K.hste, data, inc=24))))
            a = np.array([float(v) for v in rng.choice([1, 2, .25, 1000., 3.7e-4], size=len(data))])
            b = rng.randn(len(data)) * a * 10
            d2 = (data * a[:, None] + b[:, None])[:, rng.permutation(n)]
            for f in ['hns', 'hste', 'hisj', 'hstt', 'hscv', 'hldpi']:
                o1, o2 = vp.call(getattr(K, f), data), vp.call(getattr(K, f), d2)
                r1 = flat(o1)
                if r1['kind'] == 'reals' and all(v not in ('nan', 'inf') for v in r1['v']):
                    ev.append(dict(op='equivariant', f=f, k=ker, a=vp.reals(a), base=r1['v'], r=flat(o2)))
        if ker in ('gaus', 'epan', 'biwe', 'triw'):
            d = int(rng.choice([2, 3])) if ker in ('gaus', 'epan') else 2
            data = rng.randn(d, d).dot(rng.randn(d, max(n, 9))) + rng.randn(d, 1)
            o = vp.call(K.hmns, data)
            ev.append(dict(op='hmns', k=ker, data=vp.reals(data), r=vp.res_reals(o, 2)))
    return ev


def run(R):
    a = vp.drive(rec_kde, R.seed, R.pick(220, 2000))
    b = vp.drive(rec_reg, R.seed + 1, R.pick(80, 700))
    c = vp.drive(rec_band, R.seed + 2, R.pick(60, 500))
    R.check('KdeTrace', a + b + c)
