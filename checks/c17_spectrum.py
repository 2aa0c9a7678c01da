"""C17 spectra given in points: moments, characteristics, normalization, resampling."""
import numpy as np
import vp

CN = ['Hm0', 'Tm01', 'Tm02', 'Tm24', 'Tm_10', 'Tp', 'Ss', 'Sp', 'Ka', 'Rs', 'Tp1', 'Alpha', 'Eps2', 'Eps4', 'Qp']


def matrix(o):
    if o[0] != 'ok' or np.ndim(o[1]) != 2:
        return dict(kind='error', err=str(o[1])[:80])
    return dict(kind='matrix', v=[vp.reals(q) for q in np.asarray(o[1], float)])


def spectrum(rng, n):
    x = np.linspace(0, float(rng.choice([2., 3.5, 12.])), n)
    if rng.rand() < .3:
        x = np.cumsum(np.r_[0, rng.choice([.125, .25, .1875], n - 1)])
    if rng.rand() < .3:
        x = x + x[1] * float(rng.choice([.5, 1, 2]))
    if rng.rand() < .4:
        s = np.round(rng.rand(n) * 64) / 8 + .125
    else:
        s = np.exp(-.5 * ((x - x[n // 2]) / x[-1] * 8) ** 2) * float(rng.choice([.01, 1, 30.]))
    s[0] = 0
    return x, s


def record(seed, count):
    from wafo.spectrum import SpecData1D, SpecData2D
    from wafo.spectrum.core import qtf
    rng = np.random.RandomState(seed)
    ev = []
    for k in range(count):
        n = int(rng.choice([3, 4, 5, 8, 9, 14, 17]))
        x, s = spectrum(rng, n)
        ft = str(rng.choice(['w', 'w', 'f']))
        x0, s0 = x.copy(), s.copy()
        X, Y = vp.reals(x), vp.reals(s)
        def obj(ft=ft):
            return SpecData1D(s, x, freqtype=ft, type='freq' if ft != 'k' else 'k1d')
        base = dict(x=X, s=Y, ft=ft)
        # moments
        t = str(rng.choice([ft, ft, 'k']))
        nr, even, j = int(rng.randint(0, 6)), bool(rng.rand() < .5), int(rng.choice([0, 0, 1, 2]))
        sg = s * (1 if rng.rand() < .8 else -1)
        o = vp.call(lambda: SpecData1D(sg, x, freqtype=t, type='freq' if t != 'k' else 'k1d').moment(nr, even, j))
        ok = o[0] == 'ok'
        v = 'x' if t == 'k' else 't'
        ev.append(dict(op='moment', x=X, s=vp.reals(sg), ft=t, nr=nr, even=even, j=j, r=vp.res_reals(('ok', np.array(o[1][0])) if ok else o),
                       orders=[q.count(v) for q in o[1][1]] if ok else [], prefix=bool(ok and all(q == 'm%d' % j + v * q.count(v) for q in o[1][1]))))
        # characteristics
        f = rng.choice(15, size=int(rng.choice([1, 2, 3, 15])), replace=False).tolist()
        if rng.rand() < .4:
            f = [[0, 1], [0, 2], [2, 0, 1], [1, 2], [0, 3]][rng.randint(5)]
        form = rng.randint(4)
        arg = [CN[q] for q in f] if form == 0 else [CN[q].lower() for q in f] if form == 1 else np.array(f) if form == 2 else list(f)
        if len(f) == 1 and rng.rand() < .7:
            arg = arg[0]
        T, g = float(rng.choice([1200, 600, 3600])), float(rng.choice([9.81, 1.62]))
        o = vp.call(lambda: obj().characteristic(arg, T=T, g=g))
        ok = o[0] == 'ok'
        ev.append(dict(base, op='char', f=f, T=vp.real(T), g=vp.real(g), r=vp.res_reals(('ok', o[1][0]) if ok else o), names=list(o[1][2]) if ok else [],
                       cov=[vp.reals(q) for q in o[1][1]] if ok else []))
        if k % 8 == 0:
            o = vp.call(lambda: obj().characteristic([['Hs'], [15], [-1], 'none'][rng.randint(4)]))
            ev.append(dict(op='same', what='unknown-factor-refused', a=o[0] == 'error' and 'ValueError' in str(o[1]), b=True))
        # bandwidth
        names = [['alpha', 'Alpha'][0], 'eps2', 'eps4', 'Qp']
        f = rng.choice(4, size=int(rng.choice([1, 2, 4])), replace=False).tolist()
        arg = [names[q] if rng.rand() < .5 else q for q in f]
        if len(f) == 1 and rng.rand() < .7:
            arg = arg[0]
        if rng.rand() < .1:
            f, o = [0], vp.call(lambda: obj().bandwidth())
        else:
            o = vp.call(lambda: obj().bandwidth(arg))
        ev.append(dict(base, op='bandwidth', f=f, r=vp.res_reals(o)))
        # normalization
        S = obj()
        gr = float(rng.choice([9.81, 1.62]))
        C = S.copy()
        o = vp.call(S.normalize, gr)
        if o[0] == 'ok':
            ev.append(dict(base, op='normalize', x2=vp.reals(S.args), s2=vp.reals(S.data), A=vp.real(S.A), grav=vp.real(S.g) if hasattr(S, 'g') else 'none'))
        ev.append(dict(op='same', what='normalizes-only-itself', a=[o[0], bool(S.norm), bool(C.norm), np.array_equal(C.args, x0), np.array_equal(C.data, s0)], b=['ok', True, False, True, True]))
        S = obj()
        ev.append(dict(base, op='period', r=vp.real(S.sampling_period()), ny=vp.real(S.nyquist_freq())))
        # resampling
        if k % 2 == 0 and n > 3:
            method = str(rng.choice(['linear', 'stineman']))
            dt0 = (.5 if ft == 'f' else np.pi) / x[-1]
            dt = dt0 * float(rng.choice([.3, .5, .96, 1.3, 2.]))
            nmin = int(rng.choice([0, 0, 30]))
            S = obj()
            o = vp.call(S.resample, dt, Nmin=nmin, method=method)
            if o[0] == 'ok' and len(S.args) <= 520:
                r = dict(kind='pairs', x=vp.reals(S.args), s=vp.reals(S.data))
                if len(S.args) > 65:
                    # thin: check a regular sub grid that keeps the shape 2^k + 1
                    q = (len(S.args) - 1) // 64
                    if len(S.args) == q * 64 + 1 and q & (q - 1) == 0:
                        r = dict(kind='pairs', x=vp.reals(S.args[::q]), s=vp.reals(S.data[::q]))
                    nn = 3
                else:
                    nn = max(n, nmin)
                ev.append(dict(base, op='resample', dt=vp.real(dt), method=method, nmin=nn, r=r))
            elif o[0] != 'ok':
                ev.append(dict(base, op='resample', dt=vp.real(dt), method=method, nmin=n, r=dict(kind='error', err=str(o[1])[:80])))
            S = obj()
            o = vp.call(S.interp, dt)
            ev.append(dict(op='same', what='interp-copies', a=[o[0], o[1] is not S, np.array_equal(S.args, x0), np.array_equal(S.data, s0)], b=['ok', True, True, True]))
        # second order statistics in infinite depth
        mom = ['m', 'v', 's', 'k']
        sel = sorted(rng.choice(4, size=int(rng.randint(1, 5)), replace=False).tolist())
        kw = {} if rng.rand() < .5 else dict(h=np.inf)
        S = obj()
        o = vp.call(lambda: S.stats_nl(moments=''.join(mom[q] for q in sel), g=g, **kw))
        ev.append(dict(base, op='stats', mom=[q + 1 for q in sel], g=vp.real(g), r=vp.res_reals(('ok', np.array(o[1])) if o[0] == 'ok' else o)))
        w = np.abs(np.round(rng.randn(int(rng.randint(1, 5))) * 16) / 8)
        o = vp.call(lambda: qtf(w if len(w) > 1 or rng.rand() < .5 else float(w[0]), g=g))
        ok = o[0] == 'ok'
        ev.append(dict(op='qtf', w=vp.reals(w), g=vp.real(g), hs=matrix(('ok', o[1][0]) if ok else o), hd=matrix(('ok', o[1][1]) if ok else o),
                       hdii=vp.res_reals(('ok', o[1][2]) if ok else o)))
        # two dimensional moments
        if k % 2 == 0:
            nw, nt = int(rng.choice([3, 4, 5])), int(rng.choice([5, 6, 7]))
            w = np.linspace(0, 2, nw)
            th = np.linspace(-np.pi, np.pi, nt)
            d = np.round(rng.rand(nt, nw) * 64) / 8
            phi = float(rng.choice([0, 0, .5, -1.25]))
            nr = int(rng.randint(0, 5))
            vari = ''.join(rng.permutation(['x', 'y', 't'])[:rng.randint(1, 4)])
            S = SpecData2D(d, args=(w, th), type='dir', phi=phi, freqtype='w')
            gx = gy = 9.81
            if rng.rand() < .4:
                gx, gy = [(1.5, 1.5), (2., 3.)][rng.randint(2)]
                S.g = gx if gx == gy else [gx, gy]
            else:
                from wafo.misc import gravity
                gx = gy = float(gravity())
            va = vari
            if rng.rand() < .15:
                va = None
                vari = 'x' if nr <= 1 else 'xt'
            elif rng.rand() < .2:
                va = vari.upper()
            o = vp.call(lambda: S.moment(nr, va))
            ok = o[0] == 'ok'
            ev.append(dict(op='moment2', w=vp.reals(w), th=vp.reals(th), d=[vp.reals(q) for q in d], phi=vp.real(phi), nr=nr, vars=list(vari), yt=bool(nr > 1 and set(vari) == set('yt')), gx=vp.real(gx), gy=vp.real(gy),
                           names=[[q.count('x'), q.count('y'), q.count('t')] for q in o[1][1]] if ok else [], r=vp.res_reals(('ok', o[1][0]) if ok else o)))
        ev.append(dict(op='same', what='arrays-unchanged', a=[np.array_equal(x, x0), np.array_equal(s, s0)], b=[True, True]))
    return ev


def replay(behaviours, n):
    """the abstract objects of FreqModel against real ones; arrays may be integer"""
    from wafo.spectrum import SpecData1D
    out = []
    for k, h in enumerate(behaviours):
        hist = h['hist']
        f0 = h['ft0']
        x = np.arange(n) if k % 3 == 0 else np.linspace(0, 3, n)
        s = np.array([0, 2, 5, 3, 1][:n]) if k % 2 else np.array([0, .5, 2.5, 1.75, .125][:n])
        x0, s0 = x.copy(), s.copy()
        o = dict(a=SpecData1D(s, x, freqtype=f0))
        o['b'] = o['a'].copy()
        w0, S0 = (x0 * 1., s0 * 1.) if f0 == 'w' else (x0 * 2 * np.pi, s0 / 2 / np.pi)
        from scipy.integrate import simpson
        m0, m2 = simpson(S0, x=w0), simpson(S0 * w0 ** 2, x=w0)
        A = np.sqrt(m0 / m2)
        bad = None
        try:
            for st in hist:
                who, what = st['do']
                if what in ('w', 'f'):
                    o[who].freqtype = what
                elif what == 'normalize':
                    o[who].normalize()
                elif what == 'specnorm':
                    o['b'] = o['a'].to_specnorm()
                else:
                    o['b'] = o['a'].copy()
                for q in 'ab':
                    z = st[q]
                    w, S = (w0 * A, S0 / A / m0) if z['norm'] else (w0, S0)
                    if z['ft'] == 'f':
                        w, S = w / 2 / np.pi, S * 2 * np.pi
                    if o[q].freqtype != z['ft'] or bool(o[q].norm) != z['norm'] or not np.allclose(o[q].args, w, rtol=1e-9, atol=1e-12) or not np.allclose(o[q].data, S, rtol=1e-9, atol=1e-12):
                        bad = bad or 'object %s after %s' % (q, st['do'])
            if not (np.array_equal(x, x0) and np.array_equal(s, s0)):
                bad = bad or 'arrays changed'
        except Exception as e:
            bad = repr(e)
        out.append((dict(op='replay', h=h, bad=bad), bad is None))
    return out


def run(R):
    m = R.model('FreqModel', 'CONSTANTS Steps = %d\nSPECIFICATION Spec\nINVARIANTS TypeOK\n' % R.pick(3, 4))
    R.replays(vp.drive(replay, m['prints'], 5))
    R.check('SpecDataTrace', vp.drive(record, R.seed, R.pick(80, 500)))
