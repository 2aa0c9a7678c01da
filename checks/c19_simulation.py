"""C19 simulation of Gaussian, conditional and second order waves."""
import numpy as np
import vp


class Tr(object):
    """x = 3 z + z|z|"""
    def gauss2dat(self, z, *d):
        x = 3 * z + z * np.abs(z)
        if not d:
            return x
        return [x, (3 + 2 * np.abs(z)) * d[0]]


def lagcov(x, lags):
    """time and case averaged products; cross products of neighbouring cases"""
    n = len(x)
    c = [float((x[:n - k] * x[k:]).mean()) for k in lags]
    y, z = x[:, 0:x.shape[1] // 2 * 2:2], x[:, 1::2]
    cross = [float((y * z).mean()), float((y[:-1] * z[1:]).mean()), float((y[1:] * z[:-1]).mean())]
    h = x.shape[1] // 2
    cross.append(float((x[:, :h] * x[:, -h:]).mean()))
    cross.append(float((x[:-1, :h] * x[1:, -h:]).mean()))
    cross.append(float((x[1:, :h] * x[:-1, -h:]).mean()))
    return c, cross


def spectrum(rng):
    n = int(rng.choice([9, 17, 12, 33]))
    x = np.linspace(0, 3., n)
    s = np.exp(-.5 * ((x - 1.2) / .5) ** 2) * float(rng.choice([1, 4]))
    s[0] = 0
    return x, s


def record(seed, count):
    from wafo.spectrum import SpecData1D
    from wafo.covariance import CovData1D
    rng = np.random.RandomState(seed)
    np.random.seed(seed)
    ev = []
    for k in range(count):
        cases = 20000
        # from covariance
        n = int(rng.choice([5, 16, 20]))
        dt = float(rng.choice([.5, 1.]))
        t = np.arange(n) * dt
        r0 = float(rng.choice([1, 4., .25]))
        kind = k % 3
        if kind == 0:
            r = np.exp(-float(rng.choice([6., 9.])) * np.arange(n) / n)
        elif kind == 1:
            p = int(rng.randint(2, n))
            r = np.clip(1 - np.arange(n) / p, 0, None)
        else:
            r = np.exp(-.5 * (np.arange(n) / n * 9) ** 2)
            r[-1] = 0
        r = r * r0
        ns = int(rng.choice([7, 12, 24]))
        R = CovData1D(r.copy(), t)
        o = vp.call(lambda: R.sim(ns=ns, cases=cases, iseed=int(rng.randint(1 << 30))))
        ok = o[0] == 'ok'
        lags = [0, 1, 2, 3, min(n, ns - 1), ns - 1]
        c, cr = lagcov(o[1][:, 1:], lags) if ok else ([], [])
        ev.append(dict(op='lag', kind='acf', r=vp.reals(r), dt=vp.real(dt), rows=ns, cases=cases, lags=lags, c=vp.reals(c), cross=vp.reals(cr), mean=vp.reals(o[1][:3, 1:].mean(axis=1)) if ok else [],
                       zero='none', shape=list(o[1].shape) if ok else [], time=vp.reals(o[1][:, 0]) if ok else [], o='ok' if ok else str(o[1])[:80]))
        ev.append(dict(op='same', what='covariance-unchanged', a=[np.array_equal(R.data, r), np.array_equal(R.args, t)], b=[True, True]))
        sc = int(rng.choice([1, 2, 3, 5]))
        o = vp.call(lambda: R.sim(ns=ns, cases=sc, iseed=3))
        ev.append(dict(op='same', what='shape-of-few-cases', a=list(np.shape(o[1])), b=[ns, sc + 1]))
        if k % 4 == 0:
            bad = r.copy()
            bad[n // 2] = 2 * r0
            o = vp.call(lambda: CovData1D(bad, t).sim(ns=8))
            ev.append(dict(op='same', what='no-maximum-at-zero-refused', a=o[0] == 'error' and 'ValueError' in str(o[1]), b=True))
        # derivative from covariance
        s = float(rng.choice([2., 3.]))
        m = 60
        g = np.exp(-.5 * (np.arange(m) * .5 / s) ** 2)
        cs = 8000 + k % 2
        o = vp.call(lambda: CovData1D(g, np.arange(m) * .5).sim(ns=9, cases=cs, iseed=int(rng.randint(1 << 30)), derivative=True))
        ok = o[0] == 'ok'
        if ok:
            X, D = o[1][0][:, 1:], o[1][1][:, 1:]
            lags = [0, 1, 3]
            ev.append(dict(op='derstat', s=vp.real(s), dt='0.5', rows=9, cases=cs, shape=list(o[1][1].shape), time=vp.reals(o[1][1][:, 0]), v=vp.real((D ** 2).mean()), lags=lags,
                           c=vp.reals([(X[:9 - q] * D[q:]).mean() for q in lags]), o='ok'))
        else:
            ev.append(dict(op='derstat', o=str(o[1])[:80]))
        # from spectrum
        x, s = spectrum(rng)
        ft = str(rng.choice(['w', 'f', 'w']))
        S = SpecData1D(s, x, freqtype=ft)
        x0, s0 = S.args.copy(), S.data.copy()
        newdt = rng.rand() < .4
        dt = S.sampling_period() * (float(rng.choice([1., .6])) if newdt else 1.)
        ns = int(rng.choice([8, 15, 16, 20]))
        kw = dict(dt=dt) if newdt else {}
        W = S.interp(dt) if newdt else S
        o = vp.call(lambda: S.sim(ns=ns, cases=cases, iseed=int(rng.randint(1 << 30)), **kw))
        ok = o[0] == 'ok'
        rows = ns + ns % 2
        lags = [0, 1, 2, rows // 2]
        c, cr = lagcov(o[1][:, 1:], lags) if ok else ([], [])
        if len(W.args) < 400:
            ev.append(dict(op='lag', kind='lines', x=vp.reals(W.args), s=vp.reals(W.data), ft=ft, dt=vp.real(dt), rows=rows, cases=cases, lags=lags, c=vp.reals(c), cross=vp.reals(cr),
                           mean=vp.reals(o[1][:3, 1:].mean(axis=1)) if ok else [], zero=vp.real(np.abs(o[1][:, 1:].mean(axis=0)).max()) if ok else 'none',
                           shape=list(o[1].shape) if ok else [], time=vp.reals(o[1][:, 0]) if ok else [], o='ok' if ok else str(o[1])[:80]))
        ev.append(dict(op='same', what='spectrum-unchanged', a=[np.array_equal(S.args, x0), np.array_equal(S.data, s0)], b=[True, True]))
        # exact method
        if k % 2 == 0:
            nf = int(rng.choice([9, 17, 33]))
            xe = np.linspace(0, 3., nf)
            se = np.exp(-.5 * ((xe - 1.5) / .45) ** 2)
            SE = SpecData1D(se, xe, freqtype=ft)
            o = vp.call(lambda: SE.sim(ns=7, cases=cases, method='exact', iseed=int(rng.randint(1 << 30))))
            ok = o[0] == 'ok'
            lags = [0, 1, 2, 4]
            c, cr = lagcov(o[1][:, 1:], lags) if ok else ([], [])
            ev.append(dict(op='lag', kind='spec', x=vp.reals(xe), s=vp.reals(se), ft=ft, dt=vp.real(SE.sampling_period()), rows=7, cases=cases, lags=lags, c=vp.reals(c), cross=vp.reals(cr),
                           mean=vp.reals(o[1][:3, 1:].mean(axis=1)) if ok else [], zero='none', shape=list(o[1].shape) if ok else [], time=vp.reals(o[1][:, 0]) if ok else [], o='ok' if ok else str(o[1])[:80]))
        # derivative, transformation
        sd = int(rng.randint(1 << 30))
        o = vp.call(lambda: S.sim(ns=16, cases=2, iseed=sd, derivative=True))
        p = vp.call(lambda: S.sim(ns=16, cases=2, iseed=sd))
        for q in (1, 2):
            ok = o[0] == 'ok' and np.shape(o[1][1]) == (16, 3)
            ev.append(dict(op='der', dt=vp.real(S.sampling_period()), x=vp.reals(o[1][0][:, q]) if ok else [], d=vp.reals(o[1][1][:, q]) if ok else [], o='ok' if ok else str(o[1])[:80]))
        ev.append(dict(op='same', what='same-with-derivative', a=bool(o[0] == p[0] == 'ok' and np.allclose(o[1][0], p[1], rtol=0, atol=1e-9) and np.array_equal(o[1][1][:, 0], p[1][:, 0])), b=True))
        T = SpecData1D(s, x, freqtype=ft)
        T.tr = Tr()
        for me in ('random', 'exact'):
            a = vp.call(lambda: T.sim(ns=16, cases=2, iseed=sd, method=me))
            b = vp.call(lambda: S.sim(ns=16, cases=2, iseed=sd, method=me))
            good = a[0] == b[0] == 'ok'
            ev.append(dict(op='same', what='transformed', a=bool(good and np.allclose(a[1][:, 1:], Tr().gauss2dat(b[1][:, 1:]), rtol=1e-9, atol=1e-9) and np.array_equal(a[1][:, 0], b[1][:, 0])), b=True))
            a = vp.call(lambda: T.sim(ns=16, cases=2, iseed=sd, method=me, derivative=True))
            b = vp.call(lambda: S.sim(ns=16, cases=2, iseed=sd, method=me, derivative=True))
            good = a[0] == b[0] == 'ok'
            if good:
                u, v = Tr().gauss2dat(b[1][0][:, 1:], b[1][1][:, 1:])
                good = np.allclose(a[1][0][:, 1:], u, rtol=1e-9, atol=1e-9) and np.allclose(a[1][1][:, 1:], v, rtol=1e-9, atol=1e-9)
            ev.append(dict(op='same', what='transformed-with-derivative', a=bool(good), b=True))
        # second order
        for h in (np.inf, float(rng.choice([8., 20., 60.]))):
            ns = int(rng.choice([16, 24, 40, 63]))
            dt = float(rng.choice([.5, 1., .7]))
            xx = np.linspace(0, np.pi / dt, 33)
            fp = float(rng.choice([.6, .9]))
            ss = float(rng.choice([.3, 1.])) * np.exp(-.5 * ((xx - fp) / .3) ** 2)
            ss[0] = 0
            if rng.rand() < .3:
                ss[xx > 1.8] = 0
            ft = str(rng.choice(['w', 'f']))
            if ft == 'f':
                xx, ss = xx / 2 / np.pi, ss * 2 * np.pi
            S2 = SpecData1D(ss, xx, freqtype=ft)
            S2.h = h
            g = float(rng.choice([9.81, 9.81, 5.]))
            kw = dict(ns=ns, cases=int(rng.choice([1, 2])), iseed=int(rng.randint(1 << 30)), g=g)
            fnl, rt = 1.4142, 1e-3
            if rng.rand() < .5:
                fnl = kw['fnlimit'] = float(np.sqrt(.5))
            if rng.rand() < .5:
                rt = kw['reltol'] = .05
            if rng.rand() < .4:
                kw['method'] = str(rng.choice(['apd', 'ade', 'random']))
            rows = ns + ns % 2
            f = np.arange(1, rows // 2) / (rows * dt)
            w = 2 * np.pi * f
            hh = min(h, 1e30)
            kk = [wavenumber(q, hh, g) for q in w]
            from scipy.integrate import simpson
            w0, S0 = (xx, ss) if ft == 'w' else (xx * 2 * np.pi, ss / 2 / np.pi)
            kb = wavenumber(float(np.sqrt(simpson(S0 * w0 ** 2, x=w0) / simpson(S0, x=w0))), hh, g)
            o = vp.call(lambda: S2.sim_nl(output='data', **kw))
            ok = o[0] == 'ok'
            at = sorted(set(rng.choice(rows, 5).tolist()))
            for q in range(1, kw['cases'] + 1):
                ev.append(dict(op='second', x=vp.reals(xx), s=vp.reals(ss), x0=vp.reals(xx), s0=vp.reals(ss), ft=ft, dt=vp.real(dt), h=vp.real(hh), g=vp.real(g), fnl=vp.real(fnl), rtol=vp.real(rt), kbar=vp.real(kb),
                               w=vp.reals(w), k=vp.reals(kk), at=at, x1=vp.reals(o[1][1][:, q]) if ok else [], x2=vp.reals(o[1][0][:, q]) if ok else [], o='ok' if ok else str(o[1])[:80]))
            p = vp.call(lambda: S2.sim_nl(**kw))
            good = ok and p[0] == 'ok' and np.allclose(p[1][0].data, o[1][0][:, 1:], atol=1e-12) and np.allclose(p[1][1].data, o[1][1][:, 1:], atol=1e-12) and np.array_equal(p[1][0].args, o[1][0][:, 0])
            ev.append(dict(op='same', what='as-time-series', a=bool(good), b=True))
        # linear part of sim_nl
        if k % 3 == 0:
            o = vp.call(lambda: S2.sim_nl(ns=12, cases=4000, iseed=int(rng.randint(1 << 30)), output='data'))
            ok = o[0] == 'ok'
            lags = [0, 1, 2, 6]
            c, cr = lagcov(o[1][1][:, 1:], lags) if ok else ([], [])
            ev.append(dict(op='lag', kind='lines', x=vp.reals(xx), s=vp.reals(ss), ft=ft, dt=vp.real(dt), rows=12, cases=4000, lags=lags, c=vp.reals(c), cross=vp.reals(cr),
                           mean=vp.reals(o[1][1][:3, 1:].mean(axis=1)) if ok else [], zero=vp.real(np.abs(o[1][1][:, 1:].mean(axis=0)).max()) if ok else 'none',
                           shape=list(o[1][1].shape) if ok else [], time=vp.reals(o[1][1][:, 0]) if ok else [], o='ok' if ok else str(o[1])[:80]))
        # summation routine, compiled and not
        from wafo import _misc_numba as nb
        from wafo import c_library as cl
        n = int(rng.choice([16, 20]))
        h, g = float(rng.choice([5., 50., 1e6])), float(rng.choice([9.81, 4.]))
        w = np.linspace(0, 4., n // 2 + 1)
        kk = np.array([0] + [wavenumber(q, h, g) for q in w[1:]])
        re, im = rng.randn(n), rng.randn(n)
        lo, hi = int(rng.randint(2, 5)), int(rng.randint(4, n // 2 + 1))
        for lib in (nb, cl):
            o = vp.call(lambda: lib.disufq(re.copy(), im.copy(), w, kk, h, g, lo, hi, 1, n))
            ok = o[0] == 'ok'
            ev.append(dict(op='disufq', w=vp.reals(w), k=vp.reals(kk), re=vp.reals(re), im=vp.reals(im), h=vp.real(h), g=vp.real(g), lo=lo, hi=hi, n=n,
                           rv=vp.res_reals(('ok', o[1][0]) if ok else o), iv=vp.res_reals(('ok', o[1][1]) if ok else o)))
        # conditional
        n = 20
        a = float(rng.choice([.6, 1., 1.6]))
        acf = np.exp(-a * np.arange(n)) * r0
        acf[acf < .08 * r0] = 0
        if rng.rand() < .4:
            acf = np.zeros(n)
            acf[:3] = np.array([1., .45, .1]) * r0
        N = int(rng.choice([4, 8, 14, 40]))
        y = np.round(rng.randn(N) * 8) / 8 * np.sqrt(r0)
        miss = np.sort(rng.choice(N, int(rng.choice([1, 2, 4])), replace=False)).tolist()
        if rng.rand() < .1:
            miss = list(range(N)) if rng.rand() < .5 else []
        how = k % 2
        nacf = int(np.flatnonzero(acf).max()) + 3
        method = str(rng.choice(['exact', 'approx']))
        if method == 'approx' and N > 2 * nacf:
            method = 'exact'
        yy = y.copy()
        if how == 0 or not miss:
            yy[miss] = np.nan
        y0 = yy.copy()
        R = CovData1D(acf.copy(), np.arange(n) * 1.)
        kw = dict(i_unknown=miss) if how and miss else {}
        np.random.seed(int(rng.randint(1 << 30)))
        o = vp.call(lambda: R.simcond(yy, method, **kw))
        ok = o[0] == 'ok'
        y2 = y.copy()
        y2[miss] = np.nan
        sm, sv = [], []
        reps = 300
        if ok and miss and len(miss) < N and k % 3 == 0:
            z = np.array([R.simcond(y0.copy(), method, **kw)[0] for _ in range(reps)])
            sm, sv = z.mean(axis=0), z.var(axis=0)
        ev.append(dict(op='cond', acf=vp.reals(acf), x=vp.reals(y2), method=method, reps=reps, smean=vp.reals(sm), svar=vp.reals(sv), mu=vp.reals(o[1][1]) if ok else [], sd=vp.reals(o[1][2]) if ok else [], o='ok' if ok else str(o[1])[:80]))
        ev.append(dict(op='same', what='data-and-covariance-unchanged', a=[np.array_equal(yy, y0, equal_nan=True), np.array_equal(R.data, acf)], b=[True, True]))
        # long data, approximate method
        N = 90
        y = rng.randn(N) * np.sqrt(r0)
        miss = np.sort(rng.choice(N, 6, replace=False))
        o = vp.call(lambda: R.simcond(y, 'approx', i_unknown=miss.tolist()))
        good = o[0] == 'ok' and all(np.shape(q) == (6,) and np.all(np.isfinite(q)) for q in o[1]) and np.all(o[1][2] <= np.sqrt(acf[0]) * (1 + 1e-6)) and np.all(o[1][2] >= 0)
        ev.append(dict(op='same', what='approximate-method-completes', a=bool(good), b=True))
    return ev


def wavenumber(w, h, g):
    """independent solution of the dispersion relation (checked in the specification)"""
    import mpmath
    if w == 0:
        return 0.
    if h > 1e4:
        return w * w / g
    with mpmath.workdps(40):
        k = mpmath.mpf(w) ** 2 / g
        k = k / mpmath.sqrt(mpmath.tanh(k * h))
        k = mpmath.findroot(lambda q: g * q * mpmath.tanh(q * h) - mpmath.mpf(w) ** 2, k)
        return float(k)


def replay(behaviours):
    from wafo.spectrum import SpecData1D
    x = np.linspace(0, 3., 9)
    s = np.exp(-.5 * ((x - 1.2) / .5) ** 2)
    s[0] = 0
    S = SpecData1D(s, x)
    R = S.tocovdata()
    st1 = np.random.RandomState(1).get_state()
    seeds = dict(none=None, state1=st1)
    seeds['0'], seeds['1'] = 0, 1
    cache = {}
    out = []
    for h in behaviours:
        np.random.seed(77)
        bad = None
        for step in h:
            kw = dict(ns=8, cases=2, iseed=seeds[step['seed']])
            kind = step['kind']
            o = vp.call(lambda: S.sim(**kw) if kind == 'random' else S.sim(method='exact', **kw) if kind == 'exact' else R.sim(**kw) if kind == 'cov' else S.sim_nl(output='data', **kw)[1])
            if o[0] != 'ok':
                bad = str(o[1])
                break
            key = (kind, tuple(step['point']))
            v = o[1].tobytes()
            if cache.setdefault(key, v) != v:
                bad = 'not reproduced: %s' % (key,)
        out.append((dict(op='replay', h=h, bad=bad), bad is None))
    for kind in set(q[0] for q in cache):
        keys = [q for q in cache if q[0] == kind]
        for a in keys:
            for b in keys:
                u, v = a[1], b[1]
                if a != b and (u[0] != v[0] or u == v[:len(u)]) and cache[a] == cache[b]:
                    out.append((dict(op='replay', h=[list(a), list(b)], bad='equal results of different streams'), False))
    return out


def run(R):
    m = R.model('SeedModel', 'CONSTANTS Steps = %d\nKinds = {"random", "exact", "cov", "nl"}\nSeeds = {"none", "0", "1", "state1"}\nSPECIFICATION Spec\nINVARIANTS Independent\n' % 2)
    R.replays(vp.drive(replay, m['prints']))
    R.check('SimTrace', vp.drive(record, R.seed, R.pick(16, 96)))
