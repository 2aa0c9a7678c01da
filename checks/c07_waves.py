"""C07 wave periods, heights and steepness."""
import numpy as np
import vp

PD = ['d2d', 'u2u', 'd2u', 'u2d']
KIND = {0: 'maxVcfVcb', 1: 'Vcf', -1: 'Vcb', 2: 'Scf', -2: 'Scb', 3: 'StHd', -3: 'StHu'}


def sea(rng, n, odd):
    """integer samples, never exactly on an even level"""
    t = np.arange(n)
    c = rng.randint(0, 4)
    if c == 0:
        x = np.round(60 * np.sin(t * rng.uniform(0.2, 1.5)) + 30 * rng.randn(n)).astype(int)
    elif c == 1:
        x = np.cumsum(rng.randint(-6, 7, size=n))
    elif c == 2:
        x = rng.randint(-9, 10, size=n)
    else:
        x = np.round(80 * np.sin(t * 0.4 + rng.rand()) * np.cos(t * 0.11)).astype(int)
    x = x - int(np.round(x.mean()))
    return 2 * x + 1 if odd else x


def periods(out):
    if out[0] != 'ok':
        return dict(kind='error', err=out[1]), []
    try:
        T, ix = out[1]
        return vp.res_reals(('ok', T)), vp.res_ints(('ok', ix)).get('v', [])
    except Exception as exc:
        return dict(kind='other', err=type(exc).__name__), []


def params(out, names):
    if out[0] != 'ok':
        return dict(kind='error', err=out[1])
    try:
        r = dict(kind='params')
        for k in names:
            v = vp.res_reals(('ok', out[1][k]))
            if v['kind'] != 'reals':
                return dict(kind='other')
            r[k] = v['v']
        return r
    except Exception as exc:
        return dict(kind='other', err=type(exc).__name__)


def record(seed, count):
    import wafo.objects as wo
    import wafo.misc as wm
    from wafo.interpolate import stineman_interp
    rng = np.random.RandomState(seed)
    ev = []
    for k in range(count):
        n = int(rng.choice([8, 12, 20, 35, 60]))
        x = sea(rng, n, True)
        v = 2 * int(rng.randint(-3, 4))
        scale = float(rng.choice([1.0, 0.125, 8.0]))
        uniform = rng.rand() < 0.6
        dt = np.full(n, float(rng.choice([0.25, 0.5, 1.0]))) if uniform else rng.choice([0.25, 0.5, 1.5], size=n)
        t = np.cumsum(dt) + float(rng.choice([0.0, -17.0, 100.0]))
        ts = wo.TimeSeries(x * scale, t)
        base = dict(x=x.tolist(), t=vp.reals(t), f=vp.reals(x * scale))
        if np.sum(np.diff(np.sign(x - v)) != 0) >= 2:
            for pd in PD:
                r, ix = periods(vp.call(ts.wave_periods, v * scale, pd))
                ev.append(dict(op='wave_periods', v=v, fv=vp.real(v * scale), wdef='all', to=pd[2], ix=ix, r=r,
                               **dict(base, **{'from': pd[0]})))
        wdef = ['dw', 'uw'][rng.randint(2)]
        c = vp.call(wm.findcross, x * scale, v * scale, wdef)
        if c[0] == 'ok' and len(c[1]) >= 2:
            pd = wdef[0] + '2' + wdef[0]
            r, ix = periods(vp.call(ts.wave_periods, v * scale, pd, wdef))
            ev.append(dict(op='wave_periods', v=v, fv=vp.real(v * scale), wdef=wdef, to=pd[2], ix=ix, r=r,
                           **dict(base, **{'from': pd[0]})))
        # heights and steepness around level 0
        c = vp.call(wm.findcross, x * scale, 0.0, 'tw')
        if c[0] == 'ok' and len(c[1]) > 3:
            dT = (t[-1] - t[0]) / (n - 1)
            b0 = dict(base, v=0, fv='0', dT=vp.real(dT))
            ev.append(dict(op='wave_parameters', r=params(vp.call(ts.wave_parameters), (
                'Ac', 'At', 'Hu', 'Hd', 'Tu', 'Td', 'Tcf', 'Tcb')), **b0))
            for kd in sorted(KIND):
                g = None if rng.rand() < 0.5 else 9.81
                out = vp.call(ts.wave_height_steepness, KIND[kd] if rng.rand() < .5 else kd, 1, g)
                r = dict(kind='error', err=str(out[1]))
                if out[0] == 'ok':
                    s, h = (vp.res_reals(('ok', q)) for q in out[1])
                    r = dict(kind='sh', s=s['v'], h=h['v']) if s['kind'] == h['kind'] == 'reals' else dict(kind='other')
                ev.append(dict(op='steepness', k=kd, g=vp.real(wm.gravity() if g is None else g), r=r, **b0))
            # interpolation before the analysis is the same as analysing the interpolated record
            rate = int(rng.choice([2, 3]))
            ti = np.linspace(t[0], t[-1], n * rate)
            xi = stineman_interp(ti, t, x * scale)
            a = params(vp.call(ts.wave_parameters, rate), ('Ac', 'At', 'Tu', 'Td'))
            b = params(vp.call(wo.TimeSeries(xi, ti).wave_parameters), ('Ac', 'At', 'Tu', 'Td'))
            ev.append(dict(op='same', what='interpolated-record', rate=rate, x=x.tolist(), a=a, b=b))
        ev.append(dict(op='same', what='input-unchanged', a=bool(np.array_equal(ts.data, x * scale)), b=True))
    # a record whose trough to trough periods are all 2
    x = np.array([1, -1, 1, -2, 1, -3, 1, -4, 1])
    ts = wo.TimeSeries(x * 1.0, np.arange(9.0))
    r, ix = periods(vp.call(ts.wave_periods, 0.0, 't2t'))
    ev.append(dict(op='wave_periods_tc', x=x.tolist(), t=vp.reals(np.arange(9.0)), v=0, r=r, pdef='t2t'))
    return ev


def replay(behaviours):
    import wafo.objects as wo
    out = []
    for b in behaviours:
        x = np.array(b['x'], dtype=float)
        ts = wo.TimeSeries(x, np.arange(len(x)) * 1.0)
        for pd in PD:
            r = periods(vp.call(ts.wave_periods, 0.0, pd))[0]
            want = b[pd[0] + pd[2]]
            got = [2 * float(q) for q in r['v']] if r['kind'] == 'reals' else None
            swap = dict(d='u', u='d')
            late = b[swap[pd[0]] + swap[pd[2]]]
            late = late[1:] if pd[0] == 'u' else late      # known finding F07
            down_first = x[0] > 0 and got != want and got == late
            out.append((dict(op='replay', x=b['x'], pdef=pd, want=want, got=r, late=bool(down_first)), got == want))
    return out


def run(R):
    cfg = 'CONSTANT MaxLen = %d\nSPECIFICATION Spec\nINVARIANTS MatchesDef Tiles\n' % R.pick(10, 13)
    m = R.model('Waves', cfg)
    R.replays(vp.drive(replay, m['prints']))
    R.check('WavesTrace', vp.drive(record, R.seed, R.pick(120, 1200)))
