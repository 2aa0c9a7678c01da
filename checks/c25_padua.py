"""C25 Padua points, interpolation and cubature."""
import numpy as np
import vp


def mat(a):
    return [vp.reals(r) for r in np.atleast_2d(a)]


def record(seed, count):
    import wafo.padua as P
    rng = np.random.RandomState(seed)
    ev = []
    for k in range(count):
        n = int(k % 6) if k % 8 < 6 else int(rng.randint(6, 17))
        if k % 2:
            dom = tuple(np.round(np.r_[np.sort(rng.randn(2) * 3), np.sort(rng.randn(2) * 3)], 2) + [0, .5, 0, .5])
        else:
            dom = (-1., 1., -1., 1.)
        a, b, c, d = [float(v) for v in dom]
        D = dict(a=vp.real(a), b=vp.real(b), c=vp.real(c), d=vp.real(d))
        dom = list(dom) if k % 3 == 0 else dom
        kw = {} if (a, b, c, d) == (-1, 1, -1, 1) and rng.rand() < .5 else dict(domain=dom)
        o = vp.call(lambda: P.padua_points(n, **kw))
        ok = o[0] == 'ok'
        ev.append(dict(D, op='points', n=n, x=vp.reals(o[1][0]) if ok else [], y=vp.reals(o[1][1]) if ok else [], kind='ok' if ok else str(o[1])[:60]))
        if not ok:
            continue
        pts = o[1]
        keep = pts.copy()
        co = rng.randn(6)
        form = rng.rand()

        def fun(x, y, *args):
            s = args[0] if args else 1.
            if form < .35:
                return s * (co[0] + (co[1] * x + co[2] * y) ** n)
            if form < .7:
                return s * np.cos(co[0] * x + co[1] * y + co[2])
            return s * (co[0] + co[1] * x * y + np.exp(co[2] * x / 4) - co[3] * y ** 3)
        args = () if rng.rand() < .5 else (2.5,)
        f = fun(pts[0], pts[1], *args)
        o = vp.call(lambda: P.padua_fit(pts, fun, *args))
        ok = o[0] == 'ok' and np.ndim(o[1][0]) == 2
        ev.append(dict(D, op='fit', n=n, x=vp.reals(pts[0]), y=vp.reals(pts[1]), f=vp.reals(f), C=mat(o[1][0]) if ok else [], err=vp.real(float(o[1][1])) if ok else '0', kind='ok' if ok else str(o[1])[:60]))
        ev.append(dict(op='same', what='argument-unchanged', a=vp.reals(pts.ravel()), b=vp.reals(keep.ravel())))
        # any coefficient matrix
        C = np.round(rng.randn(n + 1, n + 1) * 16) / 8
        if rng.rand() < .5:
            C = np.fliplr(np.triu(np.fliplr(C)))
        if ok and rng.rand() < .5:
            C = np.array(o[1][0])
        mesh = bool(rng.rand() < .4)
        sh = [int(rng.randint(1, 6))] if mesh or rng.rand() < .5 else [2, 3]
        x = a + (b - a) * np.round(rng.rand(*sh) * 16) / 16
        y = c + (d - c) * np.round(rng.rand(*([int(rng.randint(1, 6))] if mesh else sh)) * 16) / 16
        X, Y = (x.tolist(), y.tolist()) if rng.rand() < .3 else (x.copy(), y.copy())
        if not mesh and rng.rand() < .2:
            x, y, X, Y, sh = x.ravel()[:1], y.ravel()[:1], float(x.ravel()[0]), float(y.ravel()[0]), [1]
        kc = C.copy()
        o = vp.call(lambda: P.padua_val(X, Y, C, dom, mesh) if mesh else P.padua_val(X, Y, C, dom))
        ok = o[0] == 'ok'
        ev.append(dict(D, op='val', C=mat(C), x=vp.reals(x.ravel()), y=vp.reals(y.ravel()), mesh=mesh, sh=sh, rsh=[int(v) for v in np.shape(o[1])] if ok else [], r=vp.reals(np.ravel(o[1])) if ok else [], kind='ok' if ok else str(o[1])[:60]))
        o = vp.call(lambda: P.padua_cubature(C, **kw))
        ok = o[0] == 'ok'
        ev.append(dict(D, op='cubature', C=mat(C), r=vp.real(float(o[1])) if ok else '0', kind='ok' if ok else str(o[1])[:60]))
        ev.append(dict(op='same', what='argument-unchanged', a=vp.reals(C.ravel()), b=vp.reals(kc.ravel())))
    return ev


def replay(prints):
    import wafo.padua as P
    res = []
    for p in prints:
        n = p['n']
        want = np.array(sorted(map(tuple, p['p'])))
        bad = None
        o = vp.call(lambda: P.padua_points(n))
        if o[0] != 'ok' or np.shape(o[1]) != (2, len(want)):
            bad = 'shape'
        else:
            x, y = np.array(o[1]).clip(-1, 1)
            i, j = np.arccos(-x) * n / np.pi, np.arccos(-y) * (n + 1) / np.pi
            if not np.allclose(i, np.round(i), atol=1e-6) or not np.allclose(j, np.round(j), atol=1e-6):
                bad = 'lattice'
            elif sorted(zip(np.round(i).astype(int).tolist(), np.round(j).astype(int).tolist())) != [tuple(v) for v in want.tolist()]:
                bad = 'points'
        if bad is None:
            # the polynomial of degree n through the values of (1 + x + y)^n is that polynomial
            o = vp.call(lambda: P.padua_fit(P.padua_points(n, (0, 1, 0, .5)), lambda u, v: (u + v) ** n))
            q = vp.call(lambda: P.padua_val(np.linspace(0, 1, 7), np.linspace(0, .5, 7)[::-1], o[1][0], (0, 1, 0, .5)))
            w = (np.linspace(0, 1, 7) + np.linspace(0, .5, 7)[::-1]) ** n
            if q[0] != 'ok' or not np.allclose(q[1], w, rtol=1e-8, atol=1e-10 * 1.5 ** n):
                bad = 'reproduces'
        res.append((dict(op='replay', n=n, bad=bad), bad is None))
    return res


def run(R):
    m = R.model('PaduaModel', 'CONSTANT MaxN = %d\nSPECIFICATION Spec\nINVARIANTS OnTable Parity Number Every\nPROPERTY Ends\n' % R.pick(12, 24))
    R.replays(vp.drive(replay, m['prints']))
    R.check('PaduaTrace', vp.drive(record, R.seed, R.pick(48, 600)))
