"""C29 probabilities and expectations of Gaussian vectors."""
import numpy as np
import vp

INF = float('inf')


def bounds(rng, n, wide=.25):
    a = np.round(rng.randn(n) - .8, 2)
    b = a + np.round(.2 + 2 * rng.rand(n), 2)
    for v, s in ((a, -1), (b, 1)):
        for i in range(n):
            if rng.rand() < wide:
                v[i] = s * [INF, 38., 41.][int(rng.randint(3))]
    return a, b


def text(v):
    """Infinite bounds are written as ends far outside."""
    return vp.reals(np.clip(np.asarray(v, float), -1000, 1000))


def record(seed, count):
    from wafo import gaussian as G
    rng = np.random.RandomState(seed)
    ev = []
    for c in range(count):
        # distribution function, scalars and arrays of mixed correlations
        n = int(rng.choice([1, 4, 6]))
        h, k = np.round(rng.randn(2, n) * 1.4, 2)
        r = rng.choice([-1, -.99, -.95, -.925, -.9, -.8, -.76, -.6, -.3, -.2, 0, .1, .29, .3, .5, .75, .8, .92, .925, .93, .97, .999, 1, 1.2], n)
        r = np.where(rng.rand(n) < .3, np.round(2 * rng.rand(n) - 1, 3), r)
        if rng.rand() < .2:
            h[0] = [0., k[0], -k[0]][int(rng.randint(3))]
        shape = [(n,), (2, -1)][int(rng.rand() < .3 and n % 2 == 0)]
        a3 = [np.reshape(v, shape) for v in (h, k, r)]
        if rng.rand() < .2:
            r[:] = r[0]
            a3[2] = float(r[0])
        b3 = [np.array(v) for v in a3]
        with np.errstate(all='ignore'):
            o = vp.call(lambda: np.ravel(G.cdfnorm2d(*a3)))
        ev.append(dict(op='cdf2', h=vp.reals(h), k=vp.reals(k), r=vp.reals(r), got=vp.reals(o[1]) if o[0] == 'ok' else [], kind='ok' if o[0] == 'ok' else str(o[1])[:60]))
        ev.append(dict(op='same', what='arguments-unchanged', a=vp.reals(np.concatenate([np.ravel(v) for v in a3])), b=vp.reals(np.concatenate([np.ravel(v) for v in b3]))))
        a, b = bounds(rng, 2)
        if rng.rand() < .1:
            a[0], b[0] = 1., .5
        rr = float(rng.choice([-.97, -.5, 0, .4, .95]))
        L = list if rng.rand() < .5 else np.array
        o = vp.call(lambda: float(G.prbnorm2d(L(a), L(b), rr)))
        ev.append(dict(op='box2', a=text(a), b=text(b), r=vp.real(rr), got=vp.real(o[1]) if o[0] == 'ok' else 'nan', kind='ok' if o[0] == 'ok' else str(o[1])[:60]))
        # product correlations
        n = int(rng.randint(2, 5))
        a, b = bounds(rng, n)
        rho = np.round(rng.rand(n) * 1.8 - .9, 2)
        df = 0
        which = c % 4
        eps = float(rng.choice([1e-3, 1e-5]))
        if which == 0:
            d = np.round(rng.randn(n) * .3, 2) if rng.rand() < .5 else None
            o = vp.call(lambda: G.prbnormtndpc(L(rho), L(a) if d is None else np.array(a), L(b) if d is None else np.array(b), d, abseps=eps))
            if d is not None:
                a, b = a - d, b - d
            tol, flag = 2 * eps, 1
        elif which == 1:
            n, df = 1, int(rng.randint(1, 12))
            rho, a, b = np.array([.5]), a[:1], b[:1]
            a[0], b[0] = max(a[0], -4), min(b[0], 5)
            o = vp.call(lambda: G.prbnormtndpc(rho, a, b, df=df, abseps=eps))
            tol, flag = 2 * eps, 1
        elif which == 2:
            o = vp.call(lambda: G.prbnormndpc(L(rho), L(a), L(b), eps, eps, bool(rng.rand() < .5), bool(rng.rand() < .5)))
            tol, flag = 2 * eps, 0
        else:
            C = np.outer(rho, rho)
            np.fill_diagonal(C, 1)
            C0 = C.copy()
            o = vp.call(lambda: (G.prbnormnd(C, L(a), L(b), abseps=eps, releps=eps), 0, 0))
            tol, flag = 3 * eps, 1
            ev.append(dict(op='same', what='arguments-unchanged', a=vp.reals(C.ravel()), b=vp.reals(C0.ravel())))
        ok = o[0] == 'ok'
        ev.append(dict(op='product', n=n, df=df, rho=vp.reals(rho), a=text(a), b=text(b), tol=vp.real(tol), flag=flag if ok and o[1][2] == 0 else 1, call=which,
                       got=vp.real(float(o[1][0])) if ok else 'nan', err=vp.real(float(o[1][1])) if ok else 'nan', kind='ok' if ok else str(o[1])[:60]))
        if c % 4 == 3:
            bad = [(np.eye(2) * 2, [0, 0], [1, 1]), (np.eye(2), [0], [1, 1]), (np.ones((2, 3)), [0, 0], [1, 1]), (np.eye(2), [0, 0], [1, 1, 1])][int(rng.randint(4))]
            o = vp.call(lambda: G.prbnormnd(*[np.array(v, float) for v in bad]))
            ev.append(dict(op='refuse', want='ValueError', kind=str(o[1]).split(':')[0] if o[0] != 'ok' else 'ok'))
            s = float(np.round(rng.rand() * 2 - .5, 2))
            o = vp.call(lambda: float(G.prbnormnd(np.ones((2, 2)), np.array([-1., -INF]), np.array([1., s]), allow_singular=True)))
            ev.append(dict(op='box2', a=text([-1, -INF]), b=text([1, s]), r='1', got=vp.real(np.round(o[1], 3)) if o[0] == 'ok' else 'nan', kind='ok' if o[0] == 'ok' else str(o[1])[:60]) if o[0] != 'ok' else
                      dict(op='product', n=2, df=0, rho=['1', '1'], a=text([-1, -INF]), b=text([1, s]), tol='1e-3', flag=1, call=4, got=vp.real(o[1]), err='0', kind='ok'))
        # expectations
        nt, nd, nc = [(1, 0, 0), (0, 1, 0), (2, 0, 0), (1, 1, 0), (0, 2, 0), (1, 0, 1), (0, 1, 1), (1, 1, 1), (0, 2, 1), (2, 0, 1)][c % 10]
        n = nt + nd + nc
        A = np.round(rng.randn(n, n + 1), 2)
        S = np.round(A.dot(A.T) + .3 * np.eye(n), 2)
        m = np.round(rng.randn(n) * .5, 2)
        a, b = bounds(rng, nt + nd)
        a, b = np.where(np.abs(a) > 30, -INF, a), np.where(np.abs(b) > 30, INF, b)
        xc = np.round(rng.randn(nc, int(rng.randint(1, 4))), 2) if nc else None
        kw = {}
        lo, up, ind = a.copy(), b.copy(), None
        if nt + nd == 2 and rng.rand() < .4:        # one barrier for both
            lo, up, ind = a[:1].copy(), b[:1].copy(), np.array([-1, 1])
            a[1], b[1] = a[0], b[0]
        if nc and rng.rand() < .5:                  # barriers that move with the condition
            q = np.round(rng.randn(2, len(lo)) * .3, 2)
            ea, eb = a, b
            a = [ea + (q[0] if ind is None else q[0][0]) * x for x in xc[0]]
            b = [eb + (q[1] if ind is None else q[1][0]) * x for x in xc[0]]
            lo, up = np.vstack([lo, q[0]]), np.vstack([up, q[1]])
        else:
            a, b = [a] * (xc.shape[1] if nc else 1), [b] * (xc.shape[1] if nc else 1)
        method = int(rng.choice([1, 2, 3, 4]))
        eps = float(rng.choice([1e-3, 1e-4]))
        if rng.rand() < .3:
            G.Rind(method=5, abseps=.5, releps=.5)
        R = G.Rind(method=method, abseps=eps, releps=eps, seed=int(rng.randint(1000)))
        U = np.triu(S) if rng.rand() < .3 else S.copy()
        keep = [np.array(v) for v in (U, m, lo, up)]
        def go():
            with np.errstate(all='ignore'):
                return R(U, m, lo, up, ind, xc, nt) if nd or nc or rng.rand() < .5 else R(U, m, lo, up, ind)
        o = vp.call(go)
        ok = o[0] == 'ok'
        ev.append(dict(op='rind', m=vp.reals(m), S=[vp.reals(v) for v in S], d=list(range(nt + 1, nt + nd + 1)), nc=nc, xc=vp.reals(xc[0]) if nc else [], a=[text(v) for v in a], b=[text(v) for v in b], method=method,
                       got=vp.reals(o[1][0]) if ok else [], err=vp.reals(o[1][1]) if ok else [], terr=vp.reals(o[1][2]) if ok else [], tol=vp.real(eps), kind='ok' if ok else str(o[1])[:60]))
        ev.append(dict(op='same', what='arguments-unchanged', a=vp.reals(np.concatenate([np.ravel(v) for v in (U, m, lo, up)])), b=vp.reals(np.concatenate([np.ravel(v) for v in keep]))))
        if ok:
            again = [np.array(v) for v in go()]
            ev.append(dict(op='same', what='reproducible', a=vp.reals(o[1][0]), b=vp.reals(again[0])))
        # local maxima
        x = np.round(rng.randn(4) * 2, 2)
        alpha, m0 = float(np.round(rng.rand() * .99, 3)), float(np.round(.1 + 4 * rng.rand(), 2))
        o = vp.call(lambda: G.cdflomax(x, alpha, m0))
        ev.append(dict(op='maxima', x=vp.reals(x), alpha=vp.real(alpha), m0=vp.real(m0), got=vp.reals(o[1]) if o[0] == 'ok' else [], kind='ok' if o[0] == 'ok' else str(o[1])[:60]))
    return ev


def replay(prints):
    """Integrators that share the engine."""
    from wafo import gaussian as G
    S = np.array([[1, .5], [.5, 2.]])
    f = lambda r, **k: [float(v[0]) for v in r(S, [0, 0], np.array([-1., -.5]), np.array([1., 1.]), nt=0, **k)[:2]]
    new = lambda m: G.Rind(method=m, seed=1, abseps=1e-4, releps=1e-4)
    alone = {m: f(new(m)) for m in (1, 3, 5)}
    res = []
    for p in prints:
        objs, got = {}, []
        for h in p['hist']:
            if h['what'] == 'make':
                objs[h['o']] = new(h['m'])
            else:
                got.append(f(objs[h['o']], **({'method': h['m']} if h['m'] else {})))
        ok = got == [alone[m] for m in p['used']] and len({str(v) for v in alone.values()}) == 3
        # a call without settings integrates with whatever was set last
        left = p['used'] != p['got'] and got == [alone[m] for m in p['got']]
        res.append((dict(op='replay', p=p, got=got, left=bool(left)), bool(ok)))
    return res


def run(R):
    m = R.model('RindModel', 'CONSTANTS Objects = {1, 2}\nMethods = {1, 3, 5}\nDepth = %d\nSPECIFICATION Spec\nINVARIANTS Current Calls\nCHECK_DEADLOCK FALSE\n' % R.pick(3, 5))
    R.replays(vp.drive(replay, m['prints']))
    R.check('GaussTrace', vp.drive(record, R.seed, R.pick(40, 600)))
