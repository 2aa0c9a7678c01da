"""C21 quadrature."""
import numpy as np
import vp


def flat(o, first=True):
    if o[0] != 'ok':
        return dict(kind='ValueError' if 'ValueError' in str(o[1]) else 'error', err=str(o[1])[:80], r=[])
    v = o[1][0] if first else o[1]
    return dict(kind='ok', r=vp.reals(np.ravel(v)))


def poly(c):
    return lambda x: sum(ck * np.asarray(x) ** k for k, ck in enumerate(c)) + 0 * np.asarray(x)


def record(seed, count):
    from wafo import integrate as I
    from wafo.integrate_oscillating import QuadOsc, AdaptiveLevin, EvansWebster
    rng = np.random.RandomState(seed)
    ev = []
    for k in range(count):
        # rules
        w = k % 11
        n = int(rng.choice([1, 2, 3, 4, 5, 8, 13])) if count < 200 else int(rng.randint(1, 26))
        al, be = float(rng.choice([-.5, 0, .25, 1, 2.5])), float(rng.choice([-.75, 0, .5, 1, 3]))
        a, b = 'none', 'none'
        if w == 1:
            m = str(rng.choice(['newton', 'newton1', 'orthog']))
            if rng.rand() < .5:
                a, b = float(rng.choice([-1, 0, -2.5])), float(rng.choice([1, 3., 7.25]))
                o = vp.call(lambda: I.p_roots(n, m, a, b))
            else:
                o = vp.call(lambda: I.p_roots(n, m))
        elif w == 2 and k % 2:
            o = vp.call(lambda: I.h_roots(n, str(rng.choice(['newton', 'orthog']))))
        elif w == 3 and k % 2:
            o = vp.call(lambda: I.la_roots(n, al, str(rng.choice(['newton', 'orthog']))))
        elif w == 4 and k % 2:
            o = vp.call(lambda: I.j_roots(n, al, be, str(rng.choice(['newton', 'orthog']))))
        else:
            o = vp.call(lambda: I.qrule(n, w, al, be))
        ok = o[0] == 'ok'
        ev.append(dict(op='rule', wfun=w, n=n, al=vp.real(al), be=vp.real(be), a='none' if a == 'none' else vp.real(a), b='none' if b == 'none' else vp.real(b), tol='1e-9', kind='ok' if ok and np.ndim(o[1][1]) == 1 else flat(o)['kind'] if not ok else 'shape',
                       x=vp.reals(np.ravel(o[1][0])) if ok else [], wt=vp.reals(np.ravel(o[1][1])) if ok else []))
        # gaussq
        w = int(rng.randint(1, 10))
        al, be = float(rng.choice([0, .5, .1234567, .1234568, -.25])), float(rng.choice([0, .5, 1.5, .7654321, .7654322]))
        m = int(rng.choice([1, 1, 2, 3]))
        lo = np.round(rng.randn(m) * 4) / 2
        hi = lo + float(rng.choice([.5, 1, 3])) + np.round(rng.rand(m) * 4) / 4
        if w == 1 and rng.rand() < .2:
            lo, hi = hi, lo
        deg = int(rng.choice([0, 1, 2, 4]))
        c = np.round(rng.randn(deg + 1) * 4) / 2
        p = np.ones(m) if rng.rand() < .4 else np.round(rng.rand(m) * 8) + 1
        if w in (2, 3):
            f = lambda x, q: poly(c)(x) * q
            g = f
        elif w in (1, 4, 5, 6):
            g = lambda x, q, A, B: poly(c)((2 * x - A - B) / (B - A)) * q
        else:
            g = lambda x, q, A, B: poly(c)((x - A) / (B - A)) * q
        sc = m == 1 and rng.rand() < .5
        L, H, P = (float(lo[0]), float(hi[0]), float(p[0])) if sc else (lo.copy(), hi.copy(), p.copy())
        args = (P,) if w in (2, 3) else (P, L, H)
        if sc and w not in (2, 3) and rng.rand() < .5:
            g0, args0 = g, args
            g, args = (lambda x: g0(x, *args0)), ()
        kw = dict(releps=1e-12, abseps=1e-12) if rng.rand() < .5 else {}
        o = vp.call(lambda: I.gaussq(g, L, H, wfun=w, alpha=al, beta=be, args=args, **kw))
        e = flat(o)
        e.update(op='gaussq', wfun=w, al=vp.real(al), be=vp.real(be), lo=vp.reals(lo), hi=vp.reals(hi), c=vp.reals(c), p=vp.reals(p), shape=bool(o[0] != 'ok' or (np.shape(o[1][0]) == (m,) and np.shape(o[1][1]) == (m,))))
        ev.append(e)
        # integer valued functions
        q = int(rng.randint(-3, 4))
        fi = [lambda x: np.full(np.shape(x), q), lambda x: np.full(np.shape(x), True)][k % 2]
        q = 1 if k % 2 else q
        L, H = float(np.round(rng.randn() * 4) / 4), float(np.round(rng.rand() * 8 + 1) / 4)
        H = L + H
        for nm, o in (('gaussq', vp.call(lambda: I.gaussq(fi, L, H))), ('quadgr', vp.call(lambda: I.quadgr(fi, L, H))), ('clencurt', vp.call(lambda: I.clencurt(fi, L, H, int(rng.choice([1, 3, 5]))))), ('romberg', vp.call(lambda: I.romberg(fi, L, H)))):
            e = flat(o)
            t = '0.001' if nm == 'romberg' else '0'
            e.update(op='poly', by=nm, c=vp.reals([q]), lo=vp.reals([L]), hi=vp.reals([H]), tol=t, rtol=t)
            ev.append(e)
        # polynomials
        n = int(rng.choice([1, 2, 3, 5, 8]))
        m = int(rng.choice([1, 2, 4]))
        c = np.round(rng.randn(int(rng.randint(1, 2 * n + 2))) * 8) / 2
        lo = np.round(rng.randn(m) * 4) / 4
        hi = lo + np.round(rng.randn(m) * 8) / 4
        c0 = c.copy()
        o = vp.call(lambda: I.clencurt(poly(c), lo if m > 1 else float(lo[0]), hi if m > 1 else float(hi[0]), n))
        e = flat(o)
        e.update(op='poly', by='clencurt', c=vp.reals(c), lo=vp.reals(lo), hi=vp.reals(hi), tol='0', rtol='0')
        ev.append(e)
        c = np.round(rng.randn(int(rng.choice([1, 2, 4, 7, 12]))) * 8) / 2
        L, H = float(np.round(rng.randn() * 4) / 4), float(np.round(rng.randn() * 4) / 4)
        o = vp.call(lambda: I.quadgr(poly(c), L, H))
        e = flat(o)
        e.update(op='poly', by='quadgr', c=vp.reals(c), lo=vp.reals([L]), hi=vp.reals([H]), tol='0', rtol='0')
        ev.append(e)
        H = L + float(rng.choice([.1, .5, 1, 3]))
        ab, re = float(rng.choice([1e-3, 1e-8])), float(rng.choice([1e-3, 1e-8]))
        o = vp.call(lambda: I.romberg(poly(c[:4]), L, H, releps=re, abseps=ab))
        e = flat(o)
        e.update(op='poly', by='romberg', c=vp.reals(c[:4]), lo=vp.reals([L]), hi=vp.reals([H]), tol=vp.real(ab), rtol=vp.real(re))
        ev.append(e)
        x = np.linspace(L, H, 4 * int(rng.choice([1, 2, 3])) + 1)
        o = vp.call(lambda: (I.boole(poly(c[:6])(x), x),))
        e = flat(o)
        e.update(op='poly', by='boole', c=vp.reals(c[:6]), lo=vp.reals([L]), hi=vp.reals([H]), tol='1e-9', rtol='0')
        ev.append(e)
        # smooth functions
        cc = float(rng.choice([.5, 1, 2.]))
        what = ['exp', 'cos', 'expinf', 'expminf', 'gauss'][k % 5]
        rev = False
        by = 'quadgr'
        ab, re = float(rng.choice([1e-5, 1e-9])), 0.
        if what in ('exp', 'cos'):
            f = (lambda x: np.exp(cc * x)) if what == 'exp' else (lambda x: np.cos(cc * x))
            by = str(rng.choice(['quadgr', 'gaussq', 'romberg', 'clencurt']))
            L, H = float(np.round(rng.randn() * 4) / 4), 0.
            H = L + float(rng.choice([.25, 1., 2.5]))
            if by == 'quadgr':
                rev = bool(rng.rand() < .3)
                o = vp.call(lambda: I.quadgr(f, H if rev else L, L if rev else H, abseps=ab))
            elif by == 'gaussq':
                re = float(rng.choice([1e-3, 1e-9]))
                o = vp.call(lambda: I.gaussq(f, L, H, abseps=ab, releps=re))
            elif by == 'romberg':
                re = float(rng.choice([1e-3, 1e-9]))
                o = vp.call(lambda: I.romberg(f, L, H, abseps=ab, releps=re))
            else:
                ab = 1e-7
                o = vp.call(lambda: I.clencurt(f, L, H, 9))
        else:
            L = H = float(np.round(rng.randn() * 4) / 4)
            f = dict(expinf=lambda x: np.exp(-cc * x), expminf=lambda x: np.exp(cc * x), gauss=lambda x: np.exp(-cc * x ** 2))[what]
            lims = dict(expinf=(L, np.inf), expminf=(-np.inf, H), gauss=(-np.inf, np.inf))[what]
            rev = bool(rng.rand() < .3)
            o = vp.call(lambda: I.quadgr(f, *(lims[::-1] if rev else lims), abseps=ab))
        e = flat(o)
        e.update(op='smooth', by=by, what=what, c=vp.real(cc), lo=vp.real(L), hi=vp.real(H), atol=vp.real(ab), rtol=vp.real(re), reverse=rev)
        ev.append(e)
        m = int(rng.choice([2, 3, 5]))
        lo = np.round(rng.randn(m) * 4) / 4
        hi = lo + np.array([.125, 1., 4., 8., 2.])[rng.permutation(5)[:m]]
        cs = np.array([.25, 1., 2.])[rng.randint(0, 3, m)]
        o = vp.call(lambda: I.gaussq(lambda x, q: np.cos(q * x), lo, hi, abseps=1e-9, releps=1e-9, args=(cs,)))
        e = flat(o)
        for i in range(m):
            ev.append(dict(kind=e['kind'], r=e['r'][i:i + 1], op='smooth', by='gaussq-vector', what='cos', c=vp.real(cs[i]), lo=vp.real(lo[i]), hi=vp.real(hi[i]), atol='1e-8', rtol='1e-8', reverse=False))
        o = vp.call(lambda: I.quadgr(np.exp, L, L))
        ev.append(dict(op='same', what='empty-interval', a=[float(np.ravel(v)[0]) == 0 for v in o[1]] if o[0] == 'ok' else 'error', b=[True, True]))
        # oscillating
        if k % 3 == 0:
            om = float(rng.choice([2., 10., 25., 100.]))
            c = np.round(rng.randn(int(rng.choice([1, 2, 4]))) * 4) / 2
            g = 't' if rng.rand() < .6 else 't2'
            L = float(np.round(rng.rand() * 4) / 4)
            H = L + float(rng.choice([.5, 1., 2.]))
            cls = [QuadOsc, EvansWebster, AdaptiveLevin][(k // 3) % 3]
            lo, hi = L, H
            if cls is QuadOsc and rng.rand() < .2:
                lo, hi = H, L
            F, G, D = (poly(c), lambda t: t, lambda t: 1 + 0 * t) if g == 't' else (lambda t: 2 * t, lambda t: t * t, lambda t: 2 * t)
            o = vp.call(lambda: cls(F, G, D, lo, hi)(om))
            ok = o[0] == 'ok'
            v = complex(np.ravel(o[1])[0]) if ok else 0
            ev.append(dict(op='osc', by=cls.__name__, g=g, c=vp.reals(c), w=vp.real(om), lo=vp.real(lo), hi=vp.real(hi), kind='ok' if ok else str(o[1])[:80], re=vp.real(v.real), im=vp.real(v.imag), tol='1e-7'))
    return ev


def replay(prints):
    from wafo import integrate as I
    out = []
    for p in prints:
        c = p['c']
        f = poly(np.array(c, float))
        bad = None
        for m, want in enumerate(p['i'], 1):
            want = want / 60.
            for nm, g in (('gaussq', lambda: I.gaussq(f, 0, m, releps=1e-10, abseps=1e-10)[0]), ('quadgr', lambda: I.quadgr(f, 0, m)[0]), ('clencurt', lambda: I.clencurt(f, 0, m, 3)[0]),
                          ('rule', lambda: (lambda x, w: np.sum(f(x) * w))(*I.p_roots(3, a=0, b=m))), ('boole', lambda: I.boole(f(np.linspace(0, m, 9)), np.linspace(0, m, 9)))):
                o = vp.call(g)
                if o[0] != 'ok' or not np.allclose(o[1], want, rtol=1e-10, atol=1e-10):
                    bad = '%s: %s' % (nm, o[1])
        out.append((dict(op='replay', c=c, bad=bad), bad is None))
    return out


def run(R):
    m = R.model('QuadModel', 'CONSTANTS Deg = %d\nCoefs = {0, 1, 3}\nM = 2\nSPECIFICATION Spec\nINVARIANTS Additive Empty\n' % R.pick(4, 5))
    R.replays(vp.drive(replay, m['prints']))
    R.check('QuadTrace', vp.drive(record, R.seed, R.pick(66, 990)))
