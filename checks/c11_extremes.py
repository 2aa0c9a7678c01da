"""C11 peaks over threshold, declustering, empirical distributions, return periods."""
import numpy as np
import vp


def pair(out):
    if out[0] != 'ok':
        return dict(kind='error', err=out[1])
    try:
        x, f = vp.res_reals(('ok', out[1].args)), vp.res_reals(('ok', out[1].data))
        return dict(kind='pair', x=x['v'], f=f['v']) if x['kind'] == f['kind'] == 'reals' else dict(kind='other')
    except Exception as exc:
        return dict(kind='other', err=type(exc).__name__)


def scalar(out):
    return vp.res_reals((out[0], float(out[1])) if out[0] == 'ok' and np.ndim(out[1]) == 0 else
                        ('error', str(out[1])), 0)


def record(seed, count):
    import wafo.stats as ws
    import wafo.stats.core as wc
    rng = np.random.RandomState(seed)
    ev = []
    for k in range(count):
        n = int(rng.choice([1, 2, 3, 5, 8, 12, 20, 40, 60]))
        ties = bool(rng.rand() < .25)
        d = rng.randint(0, 6, size=n) if ties else rng.permutation(3 * n)[:n]
        t = np.cumsum(rng.randint(1, int(rng.choice([2, 4, 9])), size=n)) + int(rng.randint(-20, 20))
        if rng.rand() < .2:
            t = t[rng.permutation(n)]
        u = int(rng.choice([-1, d.min(), int(np.median(d)), d.max()]))
        tmin = int(rng.choice([0, 1, 2, 3, 5, 12]))
        scale = float(rng.choice([1.0, 0.25, 64.0]))
        dd, tt = d * scale, t * 0.5
        args = dict(d=vp.ints(d), t=vp.ints(t), u=u, tmin=tmin, ties=ties)
        r = vp.res_ints(vp.call(wc.findpot, dd, tt, u * scale, tmin * 0.5))
        ev.append(dict(op='findpot', r=r, **args))
        o = vp.call(wc.decluster, dd, tt, u * scale, tmin * 0.5)
        if r['kind'] == 'ints':
            ix = np.array(r['v'], dtype=int)
            w = [vp.reals(dd[ix]), vp.reals(tt[ix])]
            g = [vp.reals(q) for q in o[1]] if o[0] == 'ok' else str(o[1])
            ev.append(dict(op='same', what='decluster-values', a=g, b=w))
        i0 = vp.res_ints(vp.call(wc.findpot, dd, None, u * scale, tmin))
        ev.append(dict(op='findpot', r=i0, **dict(args, t=list(range(n)))))
        ev.append(dict(op='same', what='input-unchanged', a=bool(np.array_equal(dd, d * scale) and np.array_equal(tt, t * 0.5)), b=True))
        # empirical distribution
        x = np.round(rng.randn(n) * 8) / 4 if ties else rng.randn(n) * scale
        x0 = x.copy()
        m = int(rng.randint(1, 4))
        c = float(x[rng.randint(n)])
        ev.append(dict(op='edf', x=vp.reals(x), method=m, cond=False, c='0', r=pair(vp.call(ws.edf, x, m))))
        ev.append(dict(op='edf', x=vp.reals(x0), method=2, cond=False, c='0', r=pair(vp.call(ws.edf, x0.copy()))))
        ev.append(dict(op='edf', x=vp.reals(x0), method=m, cond=True, c=vp.real(c), r=pair(vp.call(ws.edfcnd, x0.copy(), c, m))))
        ev.append(dict(op='same', what='input-unchanged', a=vp.reals(x), b=vp.reals(x0)))
        # return periods
        q = [float(v) for v in rng.choice([0.1, 0.5, 1e-3, 1.0, 0.0, -0.1, 1e-9, 0.999, 2.0], size=3)]
        npu = float(rng.choice([1, 0.01, 50.0, -1.0, 0.0, 365.25]))
        tv = [float(v) for v in rng.choice([1000.0, 1.0, 0.5, 100, 7, 1e6, 2.75], size=3)]
        form = int(rng.randint(3))
        for j in range(3):
            if form == 0:
                a, b = vp.call(wc.sf2returnperiod, q[j], npu), vp.call(wc.returnperiod2sf, tv[j], npu)
            elif form == 1:
                a, b = vp.call(wc.sf2returnperiod, np.array(q), npu), vp.call(wc.returnperiod2sf, np.array(tv), npu)
            else:
                a = vp.call(wc.sf2returnperiod, q, [npu] * 3)
                b = vp.call(wc.returnperiod2sf, [int(v) if v == int(v) else v for v in tv], npu)
            if form:
                a, b = [(z[0], np.asarray(z[1])[j]) if z[0] == 'ok' and np.shape(z[1]) == (3,) else ('error', 'shape') for z in (a, b)]
            ev.append(dict(op='sf2returnperiod', q=vp.real(q[j]), n=vp.real(npu), r=scalar(a)))
            ev.append(dict(op='returnperiod2sf', t=vp.real(tv[j]), n=vp.real(npu), r=scalar(b)))
        # extremal index
        if n > 2:
            te = np.cumsum(rng.randint(1, int(rng.choice([2, 3, 4, 30])), size=n))
            te = te[rng.permutation(n)]
            ev.append(dict(op='interexceedance_times', t=vp.ints(te), r=vp.res_ints(vp.call(wc.interexceedance_times, te))))
            ti = np.diff(np.sort(te))
            ev.append(dict(op='extremal_idx', ti=vp.ints(ti), r=scalar(vp.call(wc.extremal_idx, ti))))
            ev.append(dict(op='declustering_time', t=vp.ints(te), r=scalar(vp.call(wc.declustering_time, te))))
        if n >= 8 and k % 2 == 0:
            x = rng.exponential(size=n) * scale
            s = np.sort(x)
            alpha = float(rng.choice([0.05, 0.01, 0.2]))
            u = np.linspace(s[0] - .1, s[-4], 5)
            out = vp.call(ws.reslife, x, u, alpha=alpha) if rng.rand() < .7 else \
                vp.call(ws.reslife, x, None, umin=s[1], umax=s[-3], nu=4, nmin=2, alpha=alpha)
            r = dict(kind='error', err=str(out[1]))
            if out[0] == 'ok':
                z = out[1]
                u = np.asarray(z.args)
                ci = np.asarray(z.children[0].data)
                r = dict(kind='reslife', mrl=vp.reals(z.data), lo=vp.reals(ci[:, 0]), hi=vp.reals(ci[:, 1]),
                         num=vp.reals(z.workspace['numdata']))
            ev.append(dict(op='reslife', x=vp.reals(x), u=vp.reals(u), alpha=vp.real(alpha), r=r))
            d = rng.randint(0, 30, size=n)
            t = np.sort(rng.choice(5 * n, n, replace=False)) + 7
            tb = int(rng.choice([2, 5, 11, 20]))
            if (t.max() - t.min()) // tb > 1:
                u = np.array([1, 5, 9, 14])[: 4]
                u = u[u < d.max()]
                out = vp.call(ws.dispersion_idx, d * 1.0, t * 1.0, u=u * 1.0, tb=tb, alpha=alpha) if len(u) else ('error', '')
                r = dict(kind='error', err=str(out[1]))
                if out[0] == 'ok':
                    z, bu, oku = out[1]
                    ci = np.asarray(z.children[0].data)
                    r = dict(kind='disp', di=vp.reals(z.data), lo=vp.real(ci[0, 0]), hi=vp.real(ci[0, 1]),
                             ok=[] if oku is None else vp.ints(oku))
                if len(u):
                    ev.append(dict(op='dispersion_idx', d=vp.ints(d), t=vp.ints(t), tb=tb, u=vp.ints(u), alpha=vp.real(alpha), r=r))
    return ev


def replay(behaviours):
    import wafo.stats.core as wc
    out = []
    for b in behaviours:
        d, t = np.array(b['d'], dtype=float), np.array(b['t'], dtype=float)
        r = vp.res_ints(vp.call(wc.findpot, d, t, b['u'], b['tmin']))
        ok = r['kind'] == 'ints' and [q + 1 for q in r['v']] == b['want']
        out.append((dict(op='replay', b=b, got=r), ok))
    return out


def run(R):
    cfg = ('CONSTANTS N = %d\nMaxGap = 3\nSPECIFICATION Spec\nINVARIANTS KeptApart NothingLost Maximum SameAsDef\n'
           % R.pick(5, 6))
    m = R.model('ExtremesModel', cfg)
    R.replays(vp.drive(replay, m['prints']))
    R.check('ExtremesTrace', vp.drive(record, R.seed, R.pick(250, 2500)))
