"""C14 polynomials in power, orthogonal and Chebyshev form."""
import numpy as np
import vp


def coef(o):
    return vp.res_reals((o[0], np.asarray(getattr(o[1], 'coeffs', o[1])) if o[0] == 'ok' else o[1]))


def record(seed, count):
    import wafo.polynomial as wp
    rng = np.random.RandomState(seed)
    ev = []
    for k in range(count):
        n = int(rng.choice([1, 2, 3, 4, 5, 7]))
        kind = rng.randint(4)
        p = rng.randint(-4, 5, size=n) if kind < 2 else np.round(rng.randn(n) * 16) / 8 * float(rng.choice([1, 100, 1e-3]))
        if rng.rand() < .3:
            p[: n // 2] = 0
        if rng.rand() < .1:
            p[:] = 0
        P = vp.reals(np.asarray(p, float))
        form = [lambda q: q, lambda q: q.tolist(), lambda q: tuple(q.tolist())][rng.randint(3)]
        x, y = float(rng.choice([.5, -1.25, 2, 3, -.1])), float(rng.choice([0, 1, -2.5]))
        if rng.rand() < .3:
            x = int(np.ceil(x))
        a, b = [(-1, 1), (0, 2), (-3., 1.5), (10, 11), (0, 1e3)][rng.randint(5)]
        A, B = vp.real(a), vp.real(b)
        m = int(rng.randint(0, 4))
        base = dict(op='algebra', p=P)
        f0 = form(p)
        ev.append(dict(base, f='polyder', m=m, r=coef(vp.call(wp.polyder, f0, m))))
        ks = [None, 2, [float(v) for v in range(1, m + 1)]][rng.randint(3)]
        if ks == []:
            ks = None
        kl = ['0'] * m if ks is None else [vp.real(ks)] * m if np.ndim(ks) == 0 else vp.reals(ks)
        ev.append(dict(base, f='polyint', m=m, ks=kl, r=coef(vp.call(wp.polyint, f0, m, **({} if ks is None else dict(k=ks))))))
        ev.append(dict(base, f='polyreloc', x=vp.real(x), y=vp.real(y), r=coef(vp.call(wp.polyreloc, f0, x, y) if y else vp.call(wp.polyreloc, f0, x))))
        if x:
            yy = y or 1.0
            ev.append(dict(base, f='polyrescl', x=vp.real(x), y=vp.real(yy), r=coef(vp.call(wp.polyrescl, f0, x, yy) if y else vp.call(wp.polyrescl, f0, x))))
        ev.append(dict(base, f='polyshift', a=A, b=B, r=coef(vp.call(wp.polyshift, p, a, b))))
        ev.append(dict(base, f='polyishift', a=A, b=B, r=coef(vp.call(wp.polyishift, p, a, b))))
        ev.append(dict(base, f='polytrim', r=coef(vp.call(wp.polytrim, f0))))
        ev.append(dict(op='same', what='input-unchanged', a=vp.reals(np.asarray(p, float)), b=P))
        if np.any(p):       # poly1d objects keep their type
            q = np.poly1d(p)
            o = vp.call(wp.polyreloc, q, x, y)
            qs = vp.reals(np.asarray(q.coeffs, float))
            ev.append(dict(op='algebra', p=qs, f='polyder', m=m, r=coef(vp.call(wp.polyder, q, m))))
            ev.append(dict(op='same', what='type-kept', a=[isinstance(vp.call(g, q, 1)[1], np.poly1d) for g in (wp.polyder, wp.polyint, wp.polyreloc)],
                           b=[True] * 3))
            ev.append(dict(op='same', what='poly1d-same', a=vp.reals(np.asarray(q(1.5))), b=vp.reals(np.asarray(o[1](1.5 + x) - y)) if
                           o[0] == 'ok' and np.allclose(q(1.5), o[1](1.5 + x) - y) is False else vp.reals(np.asarray(q(1.5)))))
        # matrices: column by column
        M = np.array([p, p[::-1], p * 2]).T
        for g, args in ((wp.polyder, (1,)), (wp.polyint, (1,)), (wp.polyreloc, (x, y)), (wp.polyrescl, (x or 2,))):
            o = vp.call(g, M, *args)
            w = [vp.call(g, M[:, j], *args) for j in range(3)]
            ok = o[0] == 'ok' and all(q[0] == 'ok' for q in w) and np.shape(o[1]) == (len(w[0][1]), 3) and \
                np.allclose(o[1], np.array([q[1] for q in w]).T)
            ev.append(dict(op='same', what='columnwise', a=bool(ok), b=True))
        T = M.copy()
        T[:rng.randint(0, n + 1), rng.randint(3)] = 0
        o = vp.call(wp.polytrim, T)
        ok = o[0] == 'ok' and np.ndim(o[1]) == 2
        ev.append(dict(op='trimcols', p=[vp.reals(q) for q in T.T * 1.], r=dict(kind='cols', v=[vp.reals(q) for q in o[1].T * 1.]) if ok else dict(kind='error', err=str(o[1])[:80])))
        # strings
        ps = rng.randint(-12, 13, size=n) * float(rng.choice([1, 1, .25]))
        if rng.rand() < .4:
            ps[rng.rand(n) < .5] = 0
        if rng.rand() < .2:
            ps[rng.rand(n) < .5] = -1
        xs = np.array([-2., -.5, 0., 1., 3.])
        for g in (wp.poly2str, wp.poly2hstr):
            var = str(rng.choice(['x', 't']))
            o = vp.call(g, ps, var)
            v = ('error', 'string')
            if o[0] == 'ok':
                v = vp.call(lambda: np.array([float(eval(o[1], {'__builtins__': {}}, {var: q})) for q in xs.tolist()]))
            ev.append(dict(op='string', f=g.__name__, s=str(o[1]), p=vp.reals(ps), x=vp.reals(xs), r=vp.res_reals(v)))
        # Chebyshev form
        ck = np.round(rng.randn(n) * 16) / 8 if rng.rand() < .7 else rng.randint(-4, 5, size=n)
        if rng.rand() < .2:
            ck[0] = 0
        C = vp.reals(np.asarray(ck, float))
        cl = ck if rng.rand() < .6 else ck.tolist()
        t = np.r_[-1, 1, rng.rand(3) * 2 - 1]
        xx = wp.map_to_interval(t, a, b)
        if rng.rand() < .5:
            xx = np.r_[xx, b + (b - a) * .3, a - (b - a)]
        fill = [None, 0, 0.0, -1.5, np.nan][rng.randint(5)]
        kd = int(rng.randint(1, 3))
        ev.append(dict(op='chebval', ck=C, a=A, b=B, kind=kd, fill='none' if fill is None else vp.real(fill), x=vp.reals(xx),
                       r=vp.res_reals(vp.call(wp.chebval, xx, cl, a, b, kd, fill))))
        ev.append(dict(op='chebder', ck=C, a=A, b=B, r=coef(vp.call(wp.chebder, cl, a, b))))
        ev.append(dict(op='chebint', ck=C, a=A, b=B, r=coef(vp.call(wp.chebint, cl, a, b))))
        ev.append(dict(op='algebra', f='cheb2poly', p=C, a=A, b=B, r=coef(vp.call(wp.cheb2poly, cl, a, b))))
        if np.any(p):
            ev.append(dict(base, f='poly2cheb', a=A, b=B, r=coef(vp.call(wp.poly2cheb, f0, a, b))))
        ev.append(dict(op='interval', f='from', a=A, b=B, x=vp.reals(xx), r=vp.res_reals(vp.call(wp.map_from_interval, xx, a, b))))
        ev.append(dict(op='interval', f='to', a=A, b=B, x=vp.reals(t), r=vp.res_reals(vp.call(wp.map_to_interval, t, a, b))))
        nn = int(rng.randint(1, 12))
        g = [np.exp, np.cos, lambda v: 1.0 / (1 + v * v), lambda v: np.abs(v)][rng.randint(4)]
        aa, bb = [(-1, 1), (0, 2), (-2.5, .5)][rng.randint(3)]
        fx = np.asarray(g(wp.map_to_interval(wp.chebroot(nn), aa, bb)), float)
        ev.append(dict(op='chebfit', low=False, f=vp.reals(fx), r=coef(vp.call(wp.chebfit, g, nn, aa, bb))))
        ev.append(dict(op='chebfit', low=False, f=vp.reals(fx), r=coef(vp.call(wp.chebfit, fx))))
        ev.append(dict(op='chebfit', low=True, f=vp.reals(fx), r=coef(vp.call(wp.chebfit_dct, g, n=(nn,), domain=(aa, bb)))))
        if (aa, bb) == (-1, 1):
            ev.append(dict(op='chebfit', low=True, f=vp.reals(fx), r=coef(vp.call(wp.chebinterpolate, g, nn - 1))))
        ev.append(dict(op='chebpoly', n=nn, kind=kd, r=coef(vp.call(wp.chebpoly, nn, kind=kd))))
        cf = np.zeros(nn + 1)
        cf[0] = 1
        ev.append(dict(op='chebval', ck=vp.reals(cf), a='-1', b='1', kind=kd, fill='none', x=vp.reals(t), r=vp.res_reals(vp.call(wp.chebpoly, nn, t, kd))))
        ev.append(dict(op='chebroot', n=nn, kind=kd, r=vp.res_reals(vp.call(wp.chebroot, nn, kd))))
        ev.append(dict(op='chebextr', n=nn, r=vp.res_reals(vp.call(wp.chebextr, nn))))
        # objects
        co = vp.call(wp.Cheb1d, cl, a, b)
        c2 = vp.call(wp.Cheb1d, C and [1.5, -2., .5], a, b)
        if co[0] != 'ok' or c2[0] != 'ok':
            ev.append(dict(op='chebval', ck=C, a=A, b=B, kind=1, fill='none', x=[], r=dict(kind='error', err='Cheb1d')))
        else:
            c1, c2 = co[1], c2[1]
            pad = np.r_[np.zeros(max(0, 3 - n)), ck]
            q2 = np.r_[np.zeros(max(0, n - 3)), 1.5, -2, .5]
            for what, fn, cc in (('call', lambda: c1(xx), ck), ('neg', lambda: (-c1)(xx), -ck), ('add', lambda: (c1 + c2)(xx), pad + q2),
                                 ('sub', lambda: (c1 - c2)(xx), pad - q2), ('rsub', lambda: (2 - c1)(xx), np.r_[-ck[:-1], 2 - ck[-1]]),
                                 ('radd', lambda: (2 + c1)(xx), np.r_[ck[:-1], 2 + ck[-1]])):
                ev.append(dict(op='chebval', what=what, ck=vp.reals(np.asarray(cc, float)), a=A, b=B, kind=1, fill='none', x=vp.reals(xx),
                               r=vp.res_reals(vp.call(fn))))
            ev.append(dict(op='chebder', ck=C, a=A, b=B, r=coef(vp.call(c1.deriv))))
            ev.append(dict(op='chebint', ck=C, a=A, b=B, r=coef(vp.call(c1.integ))))
        # two dimensions
        n1, n2 = [int(v) for v in rng.randint(1, 5, size=2)]
        c = np.round(rng.randn(n1, n2) * 8) / 8
        x1, x2 = rng.rand(2, 4) * 2 - 1
        C2 = vp.reals(c)
        ev.append(dict(op='chebval2', c=C2, x=vp.reals(x1), y=vp.reals(x2), r=vp.res_reals(vp.call(wp.chebvalnd, c, x1, x2))))
        o = vp.call(wp.chebgridnd, c, x1, x2[:3])
        gx, gy = [q.ravel() for q in np.meshgrid(x1, x2[:3], indexing='ij')]
        ev.append(dict(op='chebval2', c=C2, x=vp.reals(gx), y=vp.reals(gy),
                       r=vp.res_reals((o[0], np.ravel(o[1]) if o[0] == 'ok' and np.shape(o[1]) == (4, 3) else o[1]) )))
        X1, X2 = np.meshgrid(np.linspace(-1, 1, 6), np.cos(np.arange(5.)))
        F = np.polynomial.chebyshev.chebval2d(X1, X2, c)
        w = None if rng.rand() < .5 else rng.rand(*F.shape) + .5
        ev.append(dict(op='chebfit2', c=C2, r=vp.res_reals(vp.call(wp.chebfitnd, (X1, X2), F, [n1 - 1, n2 - 1], w=w), 2)))
        d4 = [-1, 1, 0, 3] if rng.rand() < .5 else [-2, 1, -1, 1]

        def fun2(u, v, s=1.0):
            return s * np.polynomial.chebyshev.chebval2d(wp.map_from_interval(u, d4[0], d4[1]), wp.map_from_interval(v, d4[2], d4[3]), c)
        m1, m2 = n1 + int(rng.randint(3)), n2 + int(rng.randint(3))
        cp = np.zeros((m1, m2))
        cp[:n1, :n2] = c
        ev.append(dict(op='chebfit2', c=vp.reals(cp), r=vp.res_reals(vp.call(wp.chebfit_dct, fun2, n=(m1, m2), domain=d4), 2)))
        ev.append(dict(op='chebfit2', c=vp.reals(cp * 2.5), r=vp.res_reals(vp.call(wp.chebfit_dct, fun2, n=(m1, m2), domain=d4, args=(2.5,)), 2)))
        # orthogonal polynomials
        N = int(rng.randint(6, 14))
        xo = np.sort(rng.rand(N) * 4 - 1)
        yo = np.cos(2 * xo) + rng.randn(N) * .1
        no = int(rng.randint(0, 5))
        xi = np.linspace(-1, 3, 5)
        o = vp.call(wp.orthofit, xo, yo, no)
        if o[0] == 'ok':
            e0 = dict(op='ortho', n=no, x=vp.reals(xo), y=vp.reals(yo), xi=vp.reals(xi))
            ev.append(dict(e0, r=vp.res_reals(vp.call(wp.orthoval, o[1], xi))))
            o2 = vp.call(wp.ortho2poly, o[1])
            ev.append(dict(e0, r=vp.res_reals(vp.call(np.polyval, o2[1], xi) if o2[0] == 'ok' else o2)))
        # rational approximation
        cc = np.array([1.0 / np.prod(np.r_[1:j + 1]) for j in range(int(rng.randint(3, 7)))])[::-1] * (1 + .3 * rng.rand())
        mm = int(rng.randint(1, len(cc) - 1))
        o = vp.call(wp.padefit, cc, mm)
        r = dict(kind='pade', p=vp.reals(o[1][0].coeffs), q=vp.reals(o[1][1].coeffs)) if o[0] == 'ok' else dict(kind='error', err=o[1])
        ev.append(dict(op='padefit', c=vp.reals(cc), m=mm, r=r))
        pn, qn = rng.randn(1 + rng.randint(3)), np.r_[rng.rand(1 + rng.randint(2)) * .3, 1]
        ra, rb = [(-1, 1), (0, 2)][rng.randint(2)]
        o = vp.call(wp.padefitlsq, lambda v: np.polyval(pn, v) / np.polyval(qn, v), len(pn) - 1, len(qn) - 1, ra, rb)
        r = dict(kind='pade', p=vp.reals(o[1][0].coeffs), q=vp.reals(o[1][1].coeffs)) if o[0] == 'ok' else dict(kind='error', err=o[1])
        if r['kind'] == 'pade' and all(v not in ('nan', 'inf', '-inf') for v in r['p'] + r['q']):
            ev.append(dict(op='padefitlsq', p=vp.reals(pn), q=vp.reals(qn), x=vp.reals(np.linspace(ra, rb, 5)), r=r))
    return ev


def replay(behaviours):
    import wafo.polynomial as wp
    out = []
    f = {'reloc+': lambda p: wp.polyreloc(p, 1), 'reloc-': lambda p: wp.polyreloc(p, -2),
         'half': lambda p: wp.polyrescl(p, .5), 'mirror': lambda p: wp.polyrescl(p, -1),
         'der': lambda p: wp.polyder(p) if len(p) > 1 else np.zeros(1), 'int': lambda p: wp.polyint(p)}
    for k, b in enumerate(behaviours):
        p = np.array(b['p'], dtype=[float, int][k % 2])

        def go():
            q = p
            for o in b['ops']:
                q = f[o](q)
            return np.asarray(q)
        o = vp.call(go)
        w = np.array(b['want']) / float(b['unit'])
        ok = o[0] == 'ok' and np.shape(o[1]) == w.shape and np.allclose(o[1], w, atol=1e-9)
        out.append((dict(op='replay', b=b, got=str(o[1])[:200]), bool(ok)))
    return out


def run(R):
    cfg = ('CONSTANTS Deg = 2\nMax = %d\nSteps = %d\nSPECIFICATION Spec\nINVARIANTS RelocValue RelocGroup ResclValue DerOfInt DerShift\n'
           % R.pick((2, 2), (2, 3)))
    m = R.model('PolyModel', cfg)
    R.replays(vp.drive(replay, m['prints']))
    R.check('PolyTrace', vp.drive(record, R.seed, R.pick(120, 1200)))
