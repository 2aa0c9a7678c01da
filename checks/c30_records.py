"""C30 records, small tools and the containers that hold results."""
import warnings
import numpy as np
import vp


def kind(o):
    return 'ok' if o[0] == 'ok' else str(o[1])[:60]


def out(o, f=vp.reals, none=()):
    return f(o[1]) if o[0] == 'ok' else list(none)


def series(rng, ev):
    import wafo.misc as m
    n = int(rng.choice([3, 4, 7, 12, 25]))
    x = rng.randint(-9, 10, n) if rng.rand() < .4 else np.round(3 * rng.randn(n), 2)
    L = int(rng.choice([1, 2, 3, 6]))
    x0 = x.copy()
    form = int(rng.randint(3))

    def along(f):
        if form == 0:
            return f(x, L)
        if form == 1:  # one column among others
            return f(np.column_stack([x[::-1] + 1, x, 0 * x]), L)[:, 1]
        return f(np.vstack([x[::-1] + 1, x]), L, axis=1)[1]
    o = vp.call(lambda: np.ravel(along(m.moving_average)))
    ev.append(dict(op='average', x=vp.reals(x), L=L, got=out(o), kind=kind(o)))
    o = vp.call(lambda: np.ravel(along(m.detrendma)))
    ev.append(dict(op='detrend', x=vp.reals(x), L=L, got=out(o), kind=kind(o)))
    # spurious points
    n = int(rng.choice([5, 9, 20, 40]))
    x = np.round(rng.randn(n).cumsum(), 1)
    for _ in range(int(rng.randint(4))):
        k = int(rng.randint(n))
        w = int(rng.randint(4))
        if w == 0:
            x[k] += rng.choice([-1, 1]) * 12
        elif w == 1:
            x[k:k + 3] = x[k]
        elif w == 2:
            x[k] = np.nan
        else:
            x[0:2] = x[0]
    x = np.round(x, 1)
    z = float(rng.choice([0, .0505, .2505]))
    d = [None, 1.55, 4.05, 99.][int(rng.randint(4))]
    dd = [None, 2.55, 6.05, 99.][int(rng.randint(4))]
    x1 = x.copy()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        o = vp.call(lambda: m.findoutliers(x1, z, d, dd))
    ok = o[0] == 'ok'
    ev.append(dict(op='outliers', x=vp.reals(x), z=vp.real(z), d='auto' if d is None else vp.real(d), dd='auto' if dd is None else vp.real(dd),
                   bad=[int(v) for v in o[1][0]] if ok else [], good=[int(v) for v in o[1][1]] if ok else [], kind=kind(o)))
    ev.append(dict(op='same', what='arguments-unchanged', a=vp.reals(np.concatenate([x0, x])), b=vp.reals(np.concatenate([x0, x1]))))
    # Fourier coefficients
    n = int(rng.choice([5, 9, 17]))
    t = np.arange(n) * float(rng.choice([.25, 1, 2])) if rng.rand() < .6 else np.round(np.cumsum(.1 + rng.rand(n)), 2)
    rule = 'simps' if rng.rand() < .4 and np.allclose(np.diff(t), t[1] - t[0]) and abs(t[0]) < 1e-9 else 'trapz'
    rows = np.round(rng.randn(int(rng.choice([1, 3])), n), 2)
    m_ = int(rng.choice([1, 3, 5]))
    period = None if rng.rand() < .5 else float(np.round(t[-1] - t[0], 3))
    t1 = t.copy()
    dt = None if np.array_equal(t, np.arange(n)) and rng.rand() < .5 else t1
    o = vp.call(lambda: m.fourier(rows if len(rows) > 1 else rows[0], dt, period, m_, rule))
    for r in range(len(rows)):
        ev.append(dict(op='fourier', x=vp.reals(rows[r]), t=vp.reals(t), period=vp.real(period or t[-1] - t[0]), rule=rule,
                       a=vp.reals(np.asarray(o[1][0])[:, r]) if o[0] == 'ok' else [], b=vp.reals(np.asarray(o[1][1])[:, r]) if o[0] == 'ok' else [], kind=kind(o)))
    ev.append(dict(op='same', what='arguments-unchanged', a=vp.reals(t) + [str(t.shape)], b=vp.reals(t1) + [str(t1.shape)]))


def tools(rng, ev):
    import wafo.misc as m
    # peaks: all values different
    R, C = [(1, 12), (3, 8), (4, 5), (2, 9)][int(rng.randint(4))]
    M = (rng.permutation(R * C) + 1.).reshape(R, C)
    if rng.rand() < .3:
        M[int(rng.randint(R))].sort()
    n = int(rng.choice([1, 2, 5, 50]))
    minh = [0., 0., 3.][int(rng.randint(3))]
    minp = [0., 0., .505][int(rng.randint(3))]
    M1 = M.copy()
    o = vp.call(lambda: [int(v) for v in m.findpeaks(M1 if R > 1 else M1[0], n, minh, minp)])
    ev.append(dict(op='peaks', M=[vp.reals(r) for r in M], n=n, minh=vp.real(minh) if minh else '0', minp=vp.real(minp) if minp else '0', got=o[1] if o[0] == 'ok' else [], kind=kind(o)))
    # discretization
    c = [float(v) for v in np.round(rng.randn(4), 2)]
    c[3] = abs(c[3]) * float(rng.choice([0, 1, 10]))
    a = float(np.round(rng.randn(), 2))
    b = a + float(np.round(.5 + 3 * rng.rand(), 2))
    tol = float(rng.choice([.05, .005, .3]))
    n0 = int(rng.choice([3, 5, 6]))
    f = lambda x: (c[0] + c[1] * x + c[2] * x * x) / (1 + c[3] * x * x)
    o = vp.call(lambda: m.discretize(f, a, b, tol, n0))
    # only what is decided by a margin
    if o[0] != 'ok' or len(o[1][0]) <= 129 and margin(f, a, b, n0, tol):
        ev.append(dict(op='linear', c=vp.reals(c), a=vp.real(a), b=vp.real(b), n=n0, tol=vp.real(tol), x=vp.reals(o[1][0]) if o[0] == 'ok' else [], y=vp.reals(o[1][1]) if o[0] == 'ok' else [], kind=kind(o)))
    o = vp.call(lambda: m.discretize(f, a, b, tol, n0, method='adaptive'))
    if o[0] != 'ok' or len(o[1][0]) <= 300:
        ev.append(dict(op='adaptive', c=vp.reals(c), a=vp.real(a), b=vp.real(b), n=n0, tol=vp.real(tol), x=vp.reals(o[1][0]) if o[0] == 'ok' else [], y=vp.reals(o[1][1]) if o[0] == 'ok' else [], kind=kind(o)))
    # bins
    data = np.round(rng.randn(int(rng.choice([5, 30, 200]))) * 10. ** rng.randint(-2, 4) + float(rng.choice([0, 0, 50, -7.3])), 4)
    odd, loose = bool(rng.rand() < .4), bool(rng.rand() < .6)
    how = int(rng.randint(3))
    nb = int(np.ceil(4 * np.sqrt(np.sqrt(len(data)))))
    if how == 0:
        kw = dict(data=data)
    elif how == 1:
        nb = int(rng.choice([3, 10, 25]))
        kw = dict(data=data, num_bins=nb)
    else:
        nb = int(rng.choice([3, 10, 25]))
        kw = dict(range=(float(data.min()), float(data.max())), num_bins=nb)
    o = vp.call(lambda: np.ravel(m.good_bins(odd=odd, loose=loose, **kw)))
    ev.append(dict(op='bins', mn=vp.real(data.min()), mx=vp.real(data.max()), n=nb, odd=odd, loose=loose, got=out(o), kind=kind(o)))
    # log of the Stirling error, beta and binomial coefficient
    ns = np.array([float(v) for v in rng.choice([1, 2, 5, 14, 15, 15.5, 16, 30, 35, 36, 60, 80, 81, 200, 500, 501, 2000], 5)])
    o = vp.call(lambda: np.ravel(m.stirlerr(ns)))
    ev.append(dict(op='stirling', n=vp.reals(ns), got=out(o, none=['nan'] * 5)))
    z, w = rng.choice([.3, 1, 2, 5.5, 9.9, 10, 12, 33.3, 80, 90.5, 400, 700], (2, 5))
    o = vp.call(lambda: np.ravel(m.betaloge(z, w)))
    ev.append(dict(op='beta', z=vp.reals(z), w=vp.reals(w), got=out(o, none=['nan'] * 5)))
    z = rng.choice([1, 2, 3, 5, 9, 10, 20, 21, 45, 90, 300], 5)
    w = np.minimum(np.array([int(rng.randint(v + 1)) for v in z]) + (rng.rand(5) < .1) * 1000, z + 1)
    w = np.where(rng.rand(5) < .4, np.maximum(0, z - rng.randint(0, 4, 5)), w)
    if rng.rand() < .5:
        with np.errstate(all='ignore'):
            o = vp.call(lambda: np.ravel(m.binomln(z * 1., w * 1.)))
    else:
        with np.errstate(all='ignore'):
            o = vp.call(lambda: [float(m.binomln(float(p), float(q))) for p, q in zip(z, w)])
    ev.append(dict(op='binomial', z=vp.reals(z), w=vp.reals(w), got=out(o, none=['nan'] * 5)))
    # fractions of pi
    from fractions import Fraction
    p, q = int(rng.randint(-12, 13)), int(rng.randint(1, 13))
    simple = rng.rand() < .7
    x = p * np.pi / q if simple else float(np.round(rng.randn() * 3, 6))
    o = vp.call(lambda: m.num2pistr(x))
    ofpi, P, Q, val, kd = False, 0, 1, 'nan', kind(o)
    if o[0] == 'ok':
        s = o[1]
        try:
            if '\\pi' in s:
                h, t = s.split('\\pi')
                ofpi, P, Q = True, int({'': '1', '-': '-1'}.get(h, h)), int(t[1:] or 1)
                kd = kd if t == '' or t[0] == '/' else 'unreadable'
            else:
                val = vp.real(float(s))
        except ValueError:
            kd = 'unreadable'
    fr = Fraction(p, q)
    ev.append(dict(op='pi', x=vp.real(x), ofpi=ofpi, p=P, q=Q, val=val, simple=bool(simple and p and abs(fr.numerator) < 10 and fr.denominator < 10), kind=kd))
    # ships
    name, v = [('max_deadweight', 10. ** (2 + 3 * rng.rand())), ('length', 30 + 250 * rng.rand()), ('beam', 5 + 30 * rng.rand()), ('draught', 2 + 10 * rng.rand()),
               ('service_speed', 5 + 8 * rng.rand()), ('propeller_diameter', 2 + 5 * rng.rand())][int(rng.randint(6))]
    v = float(np.round(v, 2))
    o = vp.call(lambda: m.getshipchar(**{name: v}))
    keys = ['max_deadweight', 'length', 'beam', 'draught', 'service_speed', 'propeller_diameter']
    ok = o[0] == 'ok'
    ev.append(dict(op='ship', name=name, v=vp.real(v), sc={k: vp.real(o[1].get(k, np.nan)) if ok else 'nan' for k in keys}, sd={k: vp.real(o[1].get(k + 'STD', np.nan)) if ok else 'nan' for k in keys},
                   keys=len(o[1]) if ok else 0, kind=kind(o)))


def margin(f, a, b, n, tol):
    """No decision of the discretization is closer to its limit than rounding."""
    err, tries = 10000., 0
    while tries < 5 and err > tol and n < 200:
        x = np.linspace(a, b, 2 * n - 1)
        y = f(x)
        p, q = (y[:-2:2] + y[2::2]) / 2, y[1::2]
        e = .5 * np.max(np.abs(p - q) / (np.abs(p) + np.abs(q) + tol))
        if abs(e - tol) < 1e-6 or abs(abs(e - err) - tol / 2) < 1e-6:
            return False
        tries += int(abs(e - err) <= tol / 2)
        err, n = e, 2 * n - 1
    return True


def containers(rng, ev):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from wafo.containers import PlotData
    n = int(rng.choice([4, 7, 12]))
    x = np.round(np.cumsum(.1 + rng.rand(n)), 2) if rng.rand() < .6 else np.arange(n) * .5
    y = np.round(rng.randn(n), 2)
    lo, hi = y - 1, y + np.round(rng.rand(n), 2)
    ci = rng.rand() < .5
    d = PlotData(y, x, children=[PlotData(np.vstack((lo, hi)).T, x)]) if ci else PlotData(y, x)
    t = np.round(np.concatenate([x[rng.randint(n, size=2)], x[0] + (x[-1] - x[0]) * rng.rand(3), [x[0] - .5, x[-1] + .25]]), 3)
    t = np.where((t > x[0] - .01) & (t < x[0]), x[0], np.where((t < x[-1] + .01) & (t > x[-1]), x[-1], t))
    arr = rng.rand() < .5
    o = vp.call(lambda: np.ravel(d.eval_points(t)) if arr else [float(np.ravel(d.eval_points(float(v)))[0]) for v in t])
    ev.append(dict(op='line', x=vp.reals(x), y=vp.reals(y), t=vp.reals(t), got=out(o, none=['nan'] * len(t)), kind=kind(o)))
    lim = sorted(float(v) for v in np.round(x[0] + (x[-1] - x[0]) * rng.rand(2), 3))
    if rng.rand() < .3:
        lim = [float(x[1]), float(x[-2])]
    lim = [min(max(v, float(x[0])), float(x[-1])) for v in lim]
    w = int(rng.randint(4))
    A = None if w in (1, 3) else lim[0]
    B = None if w in (2, 3) else lim[1]
    o = vp.call(lambda: np.ravel(d.integrate(A, B, return_ci=True) if ci else d.integrate(A, B)))
    ev.append(dict(op='area', x=vp.reals(x), ys=[vp.reals(v) for v in ((y, lo, hi) if ci else (y,))], a=vp.real(x[0] if A is None else A), b=vp.real(x[-1] if B is None else B),
                   got=out(o, none=['nan'] * 3), kind=kind(o)))
    o = vp.call(lambda: d.to_cdf())
    ok = o[0] == 'ok'
    ev.append(dict(op='cumulative', x=vp.reals(x), y=vp.reals(y), got=vp.reals(o[1].data) if ok else [], at=vp.reals(o[1].args) if ok else [], kind=kind(o)))
    ev.append(dict(op='same', what='container-unchanged', a=vp.reals(np.concatenate([y, x])), b=vp.reals(np.concatenate([d.data, d.args]))))
    # grids
    nx, ny = rng.randint(2, 6, 2)
    gx, gy = np.arange(nx) * float(rng.choice([.5, 1])), np.round(np.cumsum(.4 + .3 * rng.rand(ny)), 2)
    M = np.round(rng.randn(ny, nx), 2)
    g = PlotData(M, [gx, gy])
    k = 5
    s = gx[0] + (gx[-1] - gx[0]) * np.round(.01 + .98 * rng.rand(k), 3)
    u = gy[0] + (gy[-1] - gy[0]) * np.round(.01 + .98 * rng.rand(k), 3)
    s[0], u[0] = gx[rng.randint(nx)], gy[rng.randint(ny)]
    s[1] = gx[-1] + 1
    o = vp.call(lambda: np.ravel(g.eval_points(s, u)))
    ev.append(dict(op='grid', x=vp.reals(gx), y=vp.reals(gy), M=[vp.reals(r) for r in M], s=vp.reals(s), t=vp.reals(u), got=out(o, none=['nan'] * k), kind=kind(o)))
    # what is drawn
    py = np.round(.05 + .1 * rng.rand(n), 3)
    px = np.round(1 + np.cumsum(.1 + .2 * rng.rand(n)), 2)
    tid = int(rng.randint(9))
    flag = 1 + 10 * tid + 100 * int(rng.choice([0, 0, 1, 2, 3, 10, 11, 80, 81]))
    lab = dict(title='T%d' % tid, xlab='xx', ylab='yy')
    p = PlotData(py, px, **lab)
    fig, ax = plt.subplots()
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            via = int(rng.randint(3))
            if via == 0:
                p.plot_kwds = dict(plotflag=flag)
                o = vp.call(lambda: p.plot(axis=ax))
            elif via == 1:
                plt.sca(ax)
                o = vp.call(lambda: p(plotflag=flag))
            else:
                o = vp.call(lambda: p.plot(axis=ax, plotflag=flag))
        ln = ax.get_lines()
        gx_, gy_ = (ln[0].get_xdata(), ln[0].get_ydata()) if ln else ([], [])
        ev.append(dict(op='plot', flag=flag, x=vp.reals(px), y=vp.reals(py), gx=vp.reals(gx_), gy=vp.reals(gy_), sx=ax.get_xscale(), sy=ax.get_yscale(),
                       labels=[ax.get_title().strip(), ax.get_xlabel(), ax.get_ylabel()], want=[lab['title'], 'xx', 'yy'], kind=kind(o)))
    finally:
        plt.close(fig)


def record(seed, count):
    rng = np.random.RandomState(seed)
    ev = []
    for _ in range(count):
        series(rng, ev)
        tools(rng, ev)
        containers(rng, ev)
    return ev


def original(n):
    import wafo.containers as wc
    import wafo.objects as wo
    import wafo.spectrum.core as sc
    import wafo.covariance.core as cc
    z = np.arange(4.)
    if n == 0:
        return wc.PlotData(z, z)
    if n == 1:
        return sc.SpecData1D(z, z)
    if n == 2:
        return cc.CovData1D(z, z)
    return wo.TimeSeries(z, z)


def replay(prints):
    import wafo.misc as m
    res = []
    for q, p in enumerate(prints):
        if p['what'] == 'record':
            x, L = np.array(p['x'], int), p['L']
            n = len(x)
            w = min(n, 2 * L + 1)
            k = n if n <= 2 * L + 1 else L + 1  # further on: finding F30a, judged by the trace specification
            o = vp.call(lambda: np.allclose(m.moving_average(x, L)[:k] * w, p['avg'][:k], atol=1e-9))
            o2 = vp.call(lambda: sorted(int(v) for v in m.findoutliers(x * 1., p['z'], p['d'], p['d'])[0]) == sorted(p['bad']))
            res.append((dict(op='replay', what='record', x=p['x'], z=p['z'], d=p['d'], L=L), o == ('ok', True) and o2 == ('ok', True)))
        else:
            def go():
                objs = {1: original(q % 4)}
                for f in ('data', 'args', 'note'):
                    setattr(objs[1], f, np.zeros(2))
                for s in p['hist']:
                    if s['do'] == 'set':
                        setattr(objs[s['o']], s['f'], np.zeros(2) + s['v'])
                    else:
                        objs[s['p']] = objs[s['o']].copy()
                        if type(objs[s['p']]) is not type(objs[s['o']]):
                            return False
                for o_, want in enumerate(p['val'], 1):
                    for f, v in want.items():
                        if v == -1:
                            if o_ in objs:
                                return False
                        elif not np.array_equal(getattr(objs[o_], f), np.zeros(2) + v):
                            return False
                return True
            o = vp.call(go)
            res.append((dict(op='replay', what='copies', hist=p['hist'], object=q % 4), o == ('ok', True)))
    return res


def run(R):
    m = R.model('RecordsModel', 'CONSTANTS Levels = {%s}\nMaxLen = %d\nDepth = 1\nOnly = "records"\nSPECIFICATION Spec\nINVARIANTS Runs Between\n' % R.pick(('0, 1, 3', 5), ('0, 1, 2, 4', 6)))
    R.replays(vp.drive(replay, m['prints']))
    m = R.model('RecordsModel', 'CONSTANTS Levels = {0}\nMaxLen = 3\nDepth = %d\nOnly = "objects"\nSPECIFICATION Spec\nPROPERTY Own\n' % R.pick(3, 4))
    R.replays(vp.drive(replay, m['prints']))
    R.check('RecordsTrace', vp.drive(record, R.seed, R.pick(50, 700)))
