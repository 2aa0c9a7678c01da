"""C16 spectrum models and directional spreading."""
import warnings
import numpy as np
import vp
from c15_wavetheory import wavenumber


def gl(a, b, panels, n=24):
    x, w = np.polynomial.legendre.leggauss(n)
    e = np.linspace(a, b, panels + 1)
    h = .5 * np.diff(e)[:, None]
    return (h * x + .5 * (e[:-1] + e[1:])[:, None]).ravel(), (h * w).ravel()


def nodes(wp, wnc):
    x, w = zip(gl(0, .7, 2), gl(.7, 1, 6), gl(1, 1.4, 6), gl(1.4, min(3, max(wnc, 1.5)), 3), *([gl(3, wnc, 3)] if wnc > 3 else []))
    x, w = np.hstack(x), np.hstack(w)
    return x * wp, w * wp


def torset(H, T, g):
    """periods of the two systems (witness, checked by the specification)"""
    from scipy.special import gamma
    Tf = 6.6 * H ** (1 / 3.)
    if T < Tf:
        return T, Tf + 2
    N = .5 * np.sqrt(H) + 3.2
    Eu = min(max((T - Tf) / (25 - Tf), 0), 1)
    R = min(.4 * np.exp(-(Eu / .3) ** 2) + .6, 1)
    mw = 4 * (1 - .7 * np.exp(-H / 3))
    hw = np.sqrt(1 - R * R) * H
    if hw == 0:
        return np.inf, T
    C = (N - 1) / mw
    G0 = (N / mw) ** C * mw / gamma(C)
    return (16 * .08 * (1 - np.exp(-H / 3)) * .4 ** N / (G0 * hw ** 2)) ** (-1 / (N - 1)), T


def quiet(fun, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return vp.call(fun, *a, **k)


def vals(o, w):
    return quiet(lambda: np.asarray(o[1](w), float)) if o[0] == 'ok' else o


def record_models(seed, count):
    import wafo.spectrum.models as m
    rng = np.random.RandomState(seed)
    ev = []
    for k in range(count):
        H = float(np.round(rng.uniform(.5, 14), 2))
        T = float(np.round(rng.uniform(2.5, 22), 2))
        if rng.rand() < .3:
            H, T = float(int(H) + 1), float(int(T) + 1)
        wp = 2 * np.pi / T
        nw = int(rng.choice([1, 4, 9]))
        w = np.round(np.sort(rng.uniform(.5, 3, nw)) * wp, 5)
        w[0] = rng.choice([0, w[0], wp])
        if rng.rand() < .15:
            w = np.arange(nw)
        if rng.rand() < .1:
            w = -w
        wf = np.asarray(w, float)
        arg = [w, w.tolist(), tuple(w.tolist()), w.reshape(1, -1)][rng.randint(4)]
        if nw == 1 and rng.rand() < .5:
            arg = w[0].item()
        b = dict(op='model', w=vp.reals(wf), hm0=vp.real(H), tp=vp.real(T))
        flat = lambda o: vp.res_reals(('ok', np.ravel(o[1])) if o[0] == 'ok' else o)
        which = k % 8
        N, M = [(5, 4), (5, 4), (4.5, 3), (6., 4), (4, 5)][rng.randint(5)]
        if which == 0:
            S = quiet(m.Bretschneider, H, T, N=N, M=M)
            ev.append(dict(b, model='bretschneider', n=vp.real(N), m=vp.real(M), r=flat(vals(S, arg))))
        elif which == 1:
            n = [None, 5, 6.5][rng.randint(3)]
            S = quiet(m.Wallop, H, T, **({} if n is None else dict(N=n)))
            ev.append(dict(b, model='wallop', n='none' if n is None else vp.real(n), r=flat(vals(S, arg))))
        elif which == 2:
            from scipy.optimize import brentq
            from scipy.special import gamma
            tz = T * float(rng.choice([.8143, .75, .7, .9]))
            f = lambda x: (1 + x) ** x / gamma(1 + x) - T / tz
            xx = brentq(f, 1e-3, 5, xtol=1e-14) if f(1e-3) * f(5) < 0 else None
            if xx is not None:
                S = quiet(m.McCormick, H, T, **({} if abs(tz / T - .8143) < 1e-12 else dict(Tz=tz)))
                ev.append(dict(b, model='mccormick', m=vp.real(1 / xx), tz=vp.real(tz), r=flat(vals(S, arg))))
        elif which == 3:
            par = int(rng.randint(0, 11))
            S = quiet(m.OchiHubble, H, par=par)
            ev.append(dict(b, model='ochihubble', par=par, r=flat(vals(S, arg))))
            for bad in (-1, 11):
                o = quiet(m.OchiHubble, H, par=bad)
                ev.append(dict(op='same', what='invalid-parameter-set', a=str(o[1]) if o[0] == 'error' else 'accepted', b='ValueError') if o[0] != 'error' or 'ValueError' not in str(o[1])
                          else dict(op='same', what='invalid-parameter-set', a='x', b='x'))
        elif which in (4, 5, 6):
            gam = [None, 1, 1.0, 2.5, 3.3, 7., .5][rng.randint(7)]
            sa, sb = [(.07, .09), (.07, .09), (.1, .05)][rng.randint(3)]
            meth = ['integration', 'integration', 'parametric', 'custom'][rng.randint(4)]
            wnc = float(rng.choice([6, 6, 3, 10]))
            kw = dict(gamma=gam, sigmaA=sa, sigmaB=sb, N=N, M=M, method=meth, wnc=wnc)
            ag = '1'
            if meth == 'custom':
                ag = '0.75'
                kw['Ag'] = .75
            j = dict(b, gam='none' if gam is None else vp.real(gam), sa=vp.real(sa), sb=vp.real(sb), n=vp.real(N), m=vp.real(M), method=meth, ag=ag)
            if which < 6:
                S = quiet(m.Jonswap, H, T, **kw)
                x, wt = nodes(wp, wnc)
                a = vals(S, x) if meth == 'integration' and k % 2 else ('error', '')
                ev.append(dict(j, model='jonswap', r=flat(vals(S, arg)), ar=vp.reals(a[1]) if a[0] == 'ok' else [], wt=vp.reals(wt) if a[0] == 'ok' else []))
            else:
                h = float(rng.choice([5, 20, 42, 300, np.inf]))
                g = float(rng.choice([9.81, 9.81, 5.]))
                wf = np.abs(wf)
                S = quiet(m.Tmaspec, H, T, h=h, g=g, **kw)
                J = quiet(m.Jonswap, H, T, **kw)
                h2 = h
                if rng.rand() < .4:       # depth given in the call
                    h2 = float(rng.choice([7, 30, np.inf]))
                    r = quiet(lambda: np.ravel(S[1](wf, h=h2)))
                else:
                    r = vals(S, wf)
                ph = quiet(m.phi1, wf, h2, g)
                jv = vals(J, wf)
                if jv[0] == 'ok':
                    ev.append(dict(j, model='tma', w=vp.reals(wf), h='inf' if np.isinf(h2) else vp.real(h2), g=vp.real(g), r=flat(r), jon=vp.reals(jv[1]),
                                   phi=vp.reals(np.ravel(ph[1])) if ph[0] == 'ok' else ['nan'] * nw, k=vp.reals([wavenumber(q, h2, g) for q in wf])))
        else:
            meth = ['integration', 'parametric'][rng.randint(2)]
            g = float(rng.choice([9.81, 9.81, 5.]))
            wnc = float(rng.choice([6, 6, 10]))
            Tt = T if rng.rand() < .5 else float(np.round(6.6 * H ** (1 / 3.) * rng.uniform(.6, 1.4), 2))
            S = quiet(m.Torsethaugen, H, Tt, method=meth, wnc=wnc, gravity=g)
            if S[0] == 'ok':
                tw, ts = torset(H, Tt, g)
                which = ['wind', 'swell'][rng.randint(2)]
                ta = tw if which == 'wind' else ts
                part = getattr(S[1], which)
                gv = float(np.ravel(part.gamma)[0])
                ar, wt = [], []
                if meth == 'integration' and gv > 1 and np.isfinite(ta):
                    x, ww = nodes(2 * np.pi / ta, wnc)
                    a = quiet(lambda: np.ravel(part(x)))
                    ar, wt = (vp.reals(a[1]), vp.reals(ww)) if a[0] == 'ok' else ([], [])
                wv, sv = quiet(lambda: np.ravel(S[1].wind(wf))), quiet(lambda: np.ravel(S[1].swell(wf)))
                if wv[0] == 'ok' and sv[0] == 'ok':
                    ev.append(dict(b, tp=vp.real(Tt), model='torsethaugen', g=vp.real(g), method=meth, r=flat(vals(S, arg)), wind=vp.reals(wv[1]), swell=vp.reals(sv[1]),
                                   which=which, ar=ar, wt=wt, art=vp.real(ta)))
                else:
                    ev.append(dict(op='same', what='torsethaugen-parts', a=str((wv, sv))[:100], b=''))
            else:
                ev.append(dict(op='same', what='torsethaugen', a=str(S[1]), b=''))
        # gridded spectrum
        cls = [m.Bretschneider, m.Jonswap, m.Torsethaugen, m.Tmaspec, m.McCormick, m.Wallop][k % 6]
        S = quiet(cls, H, T)
        if S[0] == 'ok':
            form = rng.randint(3)
            args, want = [((), np.linspace(0, 33. / T, 257)), ((None, 2.5, 33), np.linspace(0, 2.5, 33)), ((np.array([0., .5, 1, 2.])), np.array([0., .5, 1, 2.]))][form]
            args = (args,) if form == 2 else args
            o = quiet(S[1].tospecdata, *args)
            ok = o[0] == 'ok' and np.array_equal(o[1].args, want) and np.array_equal(o[1].data, quiet(S[1], want)[1]) and o[1].freqtype == 'w' and \
                o[1].type == 'freq' and o[1].h == getattr(S[1], 'h', np.inf)
            ev.append(dict(op='same', what='gridded-spectrum', a=bool(ok), b=True))
        for cl in (m.Bretschneider, m.Jonswap, m.Torsethaugen):
            for hh, tt in ((-1., 5.), (2., 0.), (2., -3.)):
                o = quiet(cl, hh, tt)
                ev.append(dict(op='same', what='invalid-sea-state', a='ValueError' in str(o[1]) if o[0] == 'error' else False, b=True))
        o = vals(quiet(m.Bretschneider, 0., 5.), wf)
        ev.append(dict(op='same', what='calm-sea', a=o[0] == 'ok' and bool(np.all(o[1] == 0)), b=True))
        hs, ts = np.round(rng.uniform(.5, 12, 4), 2), np.round(rng.uniform(2, 20, 4), 2)
        ts[0] = 3. * np.sqrt(hs[0])
        ts[1] = 4.6 * np.sqrt(hs[1])
        ev.append(dict(op='peakfact', h=vp.reals(hs), t=vp.reals(ts), r=vp.res_reals(vp.call(m.jonswap_peakfact, hs, ts))))
        u, fe = float(rng.choice([5, 10, 22.5])), float(rng.choice([5e4, 150000, 1e6]))
        mt = [('lewis', 'lewis'), ('hasselman73', 'h73'), ('hasselman76', 'h76')][rng.randint(3)]
        g = float(rng.choice([9.81, 9.]))
        if rng.rand() < .5:
            o = vp.call(m.jonswap_seastate, u, fe, mt[0], g, 'list')
            o = (o[0], np.array([float(q) for q in o[1]])) if o[0] == 'ok' else o
        else:
            o = vp.call(m.jonswap_seastate, u, fe, mt[0], g)
            o = (o[0], np.array([float(o[1][q]) for q in ('Hm0', 'Tp', 'gamma', 'sigmaA', 'sigmaB', 'Ag')])) if o[0] == 'ok' else o
        ev.append(dict(op='seastate', u=vp.real(u), fetch=vp.real(fe), method=mt[1], g=vp.real(g), r=vp.res_reals(o)))
    return ev


def r1sech(B):
    x = np.pi / (2 * B)
    return x / np.sinh(x) if B > 1e-3 and x < 700 else 0.


def param(t, s):
    """parameter of the distribution whose first Fourier coefficient is s/(s+1): a witness"""
    from scipy.optimize import brentq
    from scipy.special import ive
    r = s / (s + 1.)
    if t == 'c':
        return s
    if t == 'p':
        return r
    if t == 'w':
        return np.inf if r == 0 else np.sqrt(-2 * np.log(r))
    if r == 0:
        return np.pi if t == 'b' else 0.
    if t == 'b':
        return brentq(lambda a: np.sinc(a / np.pi) - r, 1e-9, np.pi, xtol=1e-15, rtol=1e-14)
    if t == 'm':
        return brentq(lambda q: ive(1, q) / ive(0, q) - r, 0, 1e5, xtol=1e-14, rtol=1e-14)
    return brentq(lambda B: r1sech(B) - r, 1e-2, 1e4, xtol=1e-14, rtol=1e-14)


def sparam(c, wn):
    f = lambda q: 10 ** (-.4 + .8393 * np.exp(-.567 * np.log(q ** 2)))
    main = 0. if wn <= c['lo'] else c['sa'] * wn ** c['ma'] if wn < c['cut'] else c['sb'] * wn ** c['mb']
    top = c['sb'] * c['up'] ** c['mb']
    m = c['method']
    if m == 'n':
        return c['sa']
    if m == 'm':
        return 0. if wn > c['up'] else main
    B = main if wn <= c['up'] else top if m == 'd' else top * f(wn) / f(c['up'])
    r = r1sech(B) if B > 0 else 0.
    return r / (1 - r)


TYPES = ['cos2s', 'box', 'mises', 'von-Mises', 'poisson', 'sech2', 'wrap_norm']


def mat(o):
    if o[0] == 'ok' and np.ndim(o[1]) == 2:
        return dict(kind='matrix', v=[vp.reals(q) for q in np.asarray(o[1], float)])
    return dict(kind='error', err=str(o[1])[:90])


def record_spread(seed, count):
    import wafo.spectrum.models as m
    rng = np.random.RandomState(seed)
    ev = []
    for k in range(count):
        t = TYPES[k % len(TYPES)]
        letter = 'm' if t[0] == 'v' else t[0]
        meth = ['n', 'm', 'd', 'b'][rng.randint(4)]
        sa, sb, ma, mb, lo, cut, up = [(15., 15., 5., -2.5, 0., 1., np.inf), (15., 15., 5., -2.5, 0., 1., 3.), (6.97, 9.77, 4.06, -2.3, 0., 1.05, 3.), (2.61, 2.28, 1.3, -1.3, .56, .95, 1.6), (300., 75., 4., -2., .1, 1., 3.)][rng.randint(5)]
        if meth in 'db':
            sa, sb, ma, mb, lo, cut, up = 2.61, 2.28, 1.3, -1.3, .56, .95, float(rng.choice([1.6, 2.5]))
        c = dict(sa=sa, sb=sb, ma=ma, mb=mb, lo=lo, cut=cut, up=up, method=meth)
        nw = int(rng.choice([1, 2, 3]))
        wc = float(rng.choice([1., .52, 2.]))
        wn = rng.uniform(.3, 4, nw)
        if rng.rand() < .3:
            wn[0] = 0
        w = np.round(wn * wc, 4)
        wn = w / wc
        th = np.round(rng.uniform(-7, 7, int(rng.choice([1, 5, 12]))), 3)
        if rng.rand() < .4:
            th = np.linspace(-np.pi, np.pi, int(rng.choice([11, 40])))
        kind = rng.randint(4)
        t0 = np.round(rng.uniform(-3, 4, nw), 3) if kind == 2 else np.array([float(rng.choice([0, .5, -2, 3]))])
        th0 = t0 if kind == 2 else (lambda q: q * .5) if kind == 3 else t0[0].item()
        if kind == 3:
            t0 = wn * .5
        name = {'n': [None, 0, 'n'], 'm': ['mitsuyasu', 1], 'd': ['donelan', 2], 'b': ['banner', 3]}[meth]
        S = vp.call(m.Spreading, type=t, theta0=th0, method=name[rng.randint(len(name))], s_a=sa, s_b=sb, m_a=ma, m_b=mb, wn_lo=lo, wn_c=cut, wn_up=up)
        keep = th.copy(), w.copy()
        o = quiet(lambda: np.atleast_2d(S[1](th, w, wc)[0])) if S[0] == 'ok' else S
        cs = dict(type=letter, method=meth, **{q: vp.real(c[q]) for q in ('sa', 'sb', 'ma', 'mb', 'lo', 'cut')})
        cs['up'] = 'inf' if np.isinf(up) else vp.real(up)
        p = [param(letter, sparam(c, float(q))) for q in (wn if not (meth == 'n' and len(t0) == 1) else wn[:1])]
        ev.append(dict(op='spread', c=cs, wn=vp.reals(wn), th=vp.reals(th), th0=vp.reals(t0), p=['inf' if np.isinf(q) else vp.real(q) for q in p], r=mat(o)))
        ev.append(dict(op='same', what='arguments-kept', a=bool(np.array_equal(keep[0], th) and np.array_equal(keep[1], w)), b=True))
        # directional spectrum
        if k % 3 == 0:
            ws = np.linspace(0, 2, 6)
            s1 = m.SpecData1D(np.round(rng.uniform(0, 3, 6), 3), ws, freqtype='w')
            s1.h = 25.
            nt = int(rng.choice([41, 51]))
            D = m.Spreading(type=t, method='mitsuyasu' if rng.rand() < .5 else None, theta0=.5)
            thv = np.linspace(-np.pi, np.pi, nt)
            d = quiet(lambda: D(thv, ws, .52)[0])
            o = quiet(lambda: D.tospecdata2d(s1, nt=nt) if rng.rand() < .5 else D.tospecdata2d(s1, theta=thv))
            ok = o[0] == 'ok' and np.array_equal(o[1].args[0], ws) and np.array_equal(o[1].args[1], thv) and o[1].h == 25. and o[1].freqtype == 'w' and o[1].type == 'dir'
            ev.append(dict(op='same', what='axes', a=bool(ok), b=True))
            if d[0] == 'ok':
                ev.append(dict(op='product', d=[vp.reals(q) for q in np.atleast_2d(d[1])], s=vp.reals(s1.data), r=mat((o[0], o[1].data) if o[0] == 'ok' else o)))
            o = quiet(lambda: D.tospecdata2d(s1, theta=np.linspace(-1, 1, 50)))
            ev.append(dict(op='same', what='partial-circle-refused', a='ValueError' in str(o[1]) if o[0] == 'error' else False, b=True))
    return ev


def replay(behaviours):
    import wafo.spectrum.models as m
    conv = {'None': None, '0': 0, '1': 1, '2': 2, '3': 3, '4': 4, '-1': -1}
    out = []
    th = np.linspace(-np.pi, np.pi, 9)
    for h in behaviours:
        first = next((q['type'] for q in h if q['do'] == 'method'), None)
        S = m.Spreading(type=first or h[0]['type'])
        ok = True
        for s in h:
            if s['do'] == 'type':
                S.type = s['arg']
                continue
            S.type = s['type']
            o = vp.call(setattr, S, 'method', conv.get(s['arg'], s['arg']))
            ok = ok and (o[0] == 'ok') == s['ok'] and (o[0] == 'ok' or 'ValueError' in str(o[1])) and S.method == s['method']
        fresh = m.Spreading(type=h[-1]['type'], method=None if h[-1]['method'].startswith('freq') else h[-1]['method'], wn_up=3.)
        S.wn_up = 3.
        w = np.array([.4, 1.3])
        a, b = quiet(lambda: S(th, w)[0]), quiet(lambda: fresh(th, w)[0])
        ok = ok and a[0] == b[0] and (a[0] != 'ok' or np.array_equal(a[1], b[1]))
        out.append((dict(op='replay', h=h), bool(ok)))
    return out


def run(R):
    m = R.model('SpreadModel', 'CONSTANTS Steps = %d\nSPECIFICATION Spec\nINVARIANTS TypeOK\n' % R.pick(2, 2))
    R.replays(vp.drive(replay, m['prints']))
    R.check('SpecModelsTrace', vp.drive(record_models, R.seed, R.pick(120, 1500)) + vp.drive(record_spread, R.seed, R.pick(140, 1500)))
