"""C15 dispersion relation and linear wave transfer functions."""
import numpy as np
import vp

NAMES = ['n', 'n_t', 'n_tt', 'n_x', 'n_y', 'n_xx', 'n_yy', 'n_xy', 'p', 'u', 'v', 'w', 'u_t', 'v_t', 'w_t', 'x_p', 'y_p', 'z_p']
PARTICLE = set(NAMES[9:])


def wavenumber(w, h, g):
    """root of k tanh(k h) = w^2/g, by our own bisection (a witness, verified by the specification)"""
    w2 = w * w / g
    if np.isinf(h):
        return w2
    lo, hi = w2, w2 + np.sqrt(w2 / h) + 1e-300
    while hi * np.tanh(hi * h) < w2:
        hi *= 2
    for _ in range(200):
        m = .5 * (lo + hi)
        if m in (lo, hi):
            break
        lo, hi = (m, hi) if m * np.tanh(m * h) < w2 else (lo, m)
    return .5 * (lo + hi)


def two(o):
    if o[0] == 'ok' and isinstance(o[1], tuple) and len(o[1]) == 2:
        return [vp.res_reals(('ok', np.ravel(q))) for q in o[1]]
    return [dict(kind='error', err=str(o[1])[:80])] * 2


def form(rng, v):
    return [lambda q: q, lambda q: q.tolist(), lambda q: q.reshape(1, -1) if q.ndim == 1 else q][rng.randint(3)](v)


def hstr(v):
    return ['inf' if np.isinf(q) else vp.real(q) for q in np.ravel(v).tolist()]


def record(seed, count):
    import wafo.wave_theory.core as wc
    import wafo.wave_theory.dispersion_relation as wd
    rng = np.random.RandomState(seed)
    ev = []
    for k in range(count):
        n = int(rng.choice([0, 1, 1, 3, 5])) if k else 0
        g = float(rng.choice([9.81, 9.81, 1.62, 9.8, 1.]))
        w = np.round(10. ** rng.uniform(-3, 1.5, n), 6) * rng.choice([1, 1, 1, -1], n)
        if rng.rand() < .2:
            w = rng.randint(0, 5, n)
        if rng.rand() < .2 and n:
            w = w * 1.0
            w[rng.randint(n)] = 0
        th = [0., 0, np.pi / 2, 1.25, -2.5, None][rng.randint(6)]
        th = rng.uniform(-3, 3, n) if th is None else th
        h = [np.inf, 1e3, 20., 1., .05, None][rng.randint(6)]
        h = rng.choice([np.inf, 5., 50., .2, 1e30], n) if h is None else h
        # outer products of frequencies and angles or depths
        wi, thi, hi = w, th, h
        if rng.rand() < .3 and n and np.ndim(h) == 0:
            thi = rng.uniform(-3, 3, 3)
            wi = w.reshape(-1, 1)
        elif rng.rand() < .3:
            wi = w.reshape(-1, 1)
            thi = th.reshape(-1, 1) if np.ndim(th) else th
            hi = h.reshape(-1, 1) if np.ndim(h) else h
        elif n == 1 and rng.rand() < .5:
            wi = w[0].item()
            thi = float(np.ravel(th)[0])
            hi = float(np.ravel(h)[0])
        W, TH, H = np.broadcast_arrays(wi, thi, hi)
        keep = [np.copy(q) for q in (wi, thi, hi)]
        o = vp.call(wd.w2k, wi, thi, hi, g)
        r = two(o)
        ev.append(dict(op='w2k', w=vp.reals(np.ravel(W) * 1.), th=vp.reals(np.ravel(TH) * 1.), h=hstr(H), g=vp.real(g), gr='1', r=r[0], r2=r[1]))
        ev.append(dict(op='same', what='shape-and-arguments-kept', a=[list(np.shape(o[1][0])) if o[0] == 'ok' else 'error'] + [bool(np.array_equal(p, q)) for p, q in zip(keep, (wi, thi, hi))],
                       b=[list(W.shape)] + [True] * 3))
        if np.all(np.isinf(H)) and n:     # three dimensional normalization
            r = two(vp.call(wd.w2k, wi, thi, np.inf, np.array([g, 2 * g])))
            ev.append(dict(op='w2k', w=vp.reals(np.ravel(W) * 1.), th=vp.reals(np.ravel(TH) * 1.), h=hstr(H), g=vp.real(g), gr='2', r=r[0], r2=r[1]))
        # wave number to frequency
        k1 = np.round(rng.randn(n) * 10. ** rng.uniform(-3, 1), 5)
        k2 = [0, .5, None][rng.randint(3)]
        k2 = np.round(rng.randn(n), 4) if k2 is None else k2
        if rng.rand() < .3 and n:
            k1[0] = 0
            if np.ndim(k2):
                k2[0] = 0
        u1, u2 = float(rng.choice([0, 0, 2., -3.])), float(rng.choice([0, 0, 1.5, -1]))
        hh = [np.inf, 30., .5][rng.randint(3)]
        K1, K2 = np.broadcast_arrays(k1, k2)
        r = two(vp.call(wd.k2w, k1, k2, hh, g, u1, u2))
        ev.append(dict(op='k2w', k1=vp.reals(K1 * 1.), k2=vp.reals(K2 * 1.), a=vp.reals(K1 * 1.), b=vp.reals(K2 * 1.), h=hstr(np.full(K1.shape, hh)), g=vp.real(g), u1=vp.real(u1), u2=vp.real(u2), r=r[0], r2=r[1]))
        # ratio of hyperbolic functions
        m = int(rng.choice([1, 3, 6]))
        a, b = np.round(rng.randn(m) * 10. ** rng.uniform(-2, 2.5, m), 5), np.round(rng.randn(m) * 10. ** rng.uniform(-2, 2.5, m), 5)
        if rng.rand() < .3:
            b = a.copy()
        if rng.rand() < .3:
            a[0] = 0
        if rng.rand() < .2:
            b[0] = 0
        a = np.where(a - b > 600, b, a)
        sa, sb = int(rng.choice([-1, 1])), int(rng.choice([-1, 1]))
        with np.errstate(all='ignore'):
            ev.append(dict(op='hyp', a=vp.reals(a), b=vp.reals(b), sa=sa, sb=sb, r=vp.res_reals(vp.call(wc.hyperbolic_ratio, a, b, sa, sb))))
        # transfer functions
        nw, nt = int(rng.choice([1, 2, 4])), int(rng.choice([1, 2, 3]))
        wv = np.round(rng.uniform(.05, 3, nw), 4)
        if rng.rand() < .2:
            wv = rng.randint(1, 4, nw)
        tv = np.round(rng.uniform(-3.1, 3.1, nt), 4)
        ht = float(rng.choice([np.inf, 100., 20., 3.]))
        igam = int(rng.choice([1, 1, 2, 3])) if np.isfinite(ht) else int(rng.choice([1, 1, 2]))
        depth = float(rng.choice([0, 0, .5, 1.5, 2.75]))
        z = -depth if igam == 1 else depth if igam == 2 else ht - depth
        pos = (float(rng.choice([0, 2.5, -40])), float(rng.choice([0, -1.5, 7])), z)
        name = NAMES[k % len(NAMES)]
        c = dict(h=hstr(ht)[0], z=vp.real(z), x=vp.real(pos[0]), y=vp.real(pos[1]), igam=igam, bet=str(int(rng.choice([1, 1, -1]))),
                 thx=vp.real(float(rng.choice([90, 90, 45, 0]))), thy=vp.real(float(rng.choice([0, 0, 30, -90]))), g=vp.real(g), rho=vp.real(float(rng.choice([1028, 1000]))), type=name)
        st = [name, name.upper()[0] + name[1:] if name[0] != 'n' else name, NAMES.index(name)][rng.randint(3)]
        tf = vp.call(wc.TransferFunction, pos=pos, sensortype=st, h=ht, g=g, rho=float(c['rho']), bet=int(c['bet']), igam=igam, thetax=float(c['thx']), thetay=float(c['thy']))
        kk = np.array([wavenumber(float(q), ht, g) for q in wv])
        wa, ta = wv, tv
        if rng.rand() < .3:
            wa = wv.tolist()
        if nw == 1 and rng.rand() < .5:
            wa = wv[0].item()
        args = (wa, ta) if rng.rand() < .6 else (wa, ta, kk)
        keep = [np.copy(q) for q in args]
        o = vp.call(tf[1], *args) if tf[0] == 'ok' else tf
        if o[0] == 'ok' and isinstance(o[1], tuple):
            H, G = o[1]
            H = np.ravel(np.asarray(H, float))
            G = np.atleast_2d(np.asarray(G) + 0j)
            r = dict(kind='tran', hw=vp.reals(H), re=[vp.reals(q) for q in G.real], im=[vp.reals(q) for q in G.imag])
            try:       # results do not share memory with the arguments
                for q in o[1]:
                    if isinstance(q, np.ndarray):
                        q.fill(99)
            except Exception:
                pass
        else:
            r = dict(kind='error', err=str(o[1])[:80])
        ev.append(dict(op='tran', c=c, w=vp.reals(wv * 1.), k=vp.reals(kk), th=vp.reals(tv), r=r))
        ev.append(dict(op='same', what='arguments-kept', a=[bool(np.shape(p) == np.shape(q) and np.array_equal(p, q)) for p, q in zip(keep, args)], b=[True] * len(args)))
        if k % 4 == 0:
            hm0 = float(rng.choice([1, 2.5, 7]))
            hp = float(rng.choice([10, 20., 200., 1e4]))
            tp = 4 * np.sqrt(hm0)
            x = tp / np.sqrt(hm0)
            gam = min(np.exp(3.484 * (1 - .1975 * (.036 - .0056 * x) * x ** 4)), 7.) if x <= 5.14285714285714 else 1.
            wp = 2 * np.pi / (tp / (1.30301 - .01698 * gam + .12102 / gam))
            zz = -np.linspace(0, hp, 4)
            ev.append(dict(op='pressure', z=vp.reals(zz), hm0=vp.real(hm0), h=vp.real(hp), g=vp.real(g), rho='1028', w=vp.real(wp), k=vp.real(wavenumber(wp, hp, g)),
                           r=vp.res_reals(vp.call(wc.wave_pressure, zz, hm0, hp, g))))
    ids = vp.call(wc.sensor_typeid, *NAMES)
    ev.append(dict(op='same', what='sensor-ids', a=list(map(int, ids[1])) if ids[0] == 'ok' else 'error', b=list(range(18))))
    nm = vp.call(wc.sensor_type, *range(18))
    ev.append(dict(op='same', what='sensor-names', a=list(nm[1]) if nm[0] == 'ok' else 'error', b=NAMES))
    nm = vp.call(wc.sensor_type, np.arange(18)[::-1])
    ev.append(dict(op='same', what='sensor-names-array', a=list(nm[1]) if nm[0] == 'ok' else 'error', b=NAMES[::-1]))
    bad = vp.call(wc.sensor_type, [-1, 18, 40])
    ev.append(dict(op='same', what='unknown-sensors', a=[str(q) for q in bad[1]] if bad[0] == 'ok' else 'error', b=['nan'] * 3))
    return ev


def replay(behaviours):
    """a walk along derivatives multiplies the transfer function by -iw, i kx, i ky"""
    import wafo.wave_theory.core as wc
    out = []
    w = np.array([.2, .7, 1.5, 3.])
    th = np.array([-2., 0., .5, 1.75])
    for b in behaviours:
        ok = True
        for h, g, pos, bet in ((20., 9.81, (3., -2., -1.5), 1), (np.inf, 9.81, (0., 10., -4.), 1), (5., 1.62, (1., 1., 0.), -1)):
            kk = np.array([wavenumber(q, h, g) for q in w])
            fac = np.ones((4, 4), complex)
            for s in b['path']:
                fac = fac * {'t': -1j * w[None, :], 'x': 1j * bet * kk[None, :] * np.cos(th[:, None]), 'y': 1j * bet * kk[None, :] * np.sin(th[:, None])}[s]
            res = []
            for sid in (b['from'], b['to'], b['tid']):
                o = vp.call(lambda: wc.TransferFunction(pos=pos, sensortype=sid, h=h, g=g, bet=bet).tran(w.copy(), th.copy()))
                res.append(np.asarray(o[1][0]) * o[1][1] if o[0] == 'ok' else None)
            ok = ok and all(q is not None for q in res) and bool(np.allclose(res[1], res[0] * fac, rtol=1e-5, atol=1e-8)) and bool(np.array_equal(res[1], res[2]))
        out.append((dict(op='replay', b=b), ok))
    return out


def run(R):
    m = R.model('SensorModel', 'CONSTANTS Depth = 3\nSPECIFICATION Spec\nINVARIANTS Commute AtMostTwo\n')
    R.replays(vp.drive(replay, m['prints']))
    R.check('WaveTheoryTrace', vp.drive(record, R.seed, R.pick(500, 6000)))
