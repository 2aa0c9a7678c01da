"""C18 covariance functions from spectra and data, and back."""
import numpy as np
import vp


class Tr(object):
    def dat2gauss(self, x, *a):
        return 2 * x + 1


def first(x):
    return x - x[0]


def cov_of(o, nr, keep):
    if o[0] != 'ok':
        return dict(kind='error', err=str(o[1])[:80], value='ValueError' in str(o[1]))
    R = o[1]
    lt = R.lagtype
    d = [R.data] + [getattr(R, 'R' + lt * i) for i in range(1, nr + 1)]
    return dict(kind='cov', t=vp.reals(R.args), d=[vp.reals(q) for q in d], lt=lt, keep=bool(keep(R)))


def spec_of(o, keep=lambda S: True):
    if o[0] != 'ok':
        return dict(kind='error', err=str(o[1])[:80], x=[], s=[])
    S = o[1]
    return dict(kind='spec', x=vp.reals(S.args), s=vp.reals(S.data), ft=S.freqtype, keep=bool(keep(S)))


def record(seed, count):
    from wafo.spectrum import SpecData1D
    from wafo.covariance import CovData1D
    from wafo.covariance.estimation import CovarianceEstimator
    from wafo.objects import TimeSeries
    from scipy.signal.windows import get_window
    from matplotlib.mlab import detrend_mean
    rng = np.random.RandomState(seed)
    ev = []
    for k in range(count):
        # covariance from spectrum
        n = int(rng.choice([3, 4, 5, 6, 9, 11, 17]))
        x = np.linspace(0, float(rng.choice([2., 3.5, .4])), n)
        s = np.round(rng.rand(n) * 64) / 8 if rng.rand() < .5 else np.exp(-.5 * ((x - x[n // 2]) / x[-1] * 6) ** 2)
        ft = str(rng.choice(['w', 'f', 'k']))
        typ = 'k1d' if ft == 'k' else 'freq'
        bad = rng.rand() < .1
        xb = x.copy()
        if bad:
            if rng.rand() < .5:
                xb = xb + .1
            else:
                xb[-1] += float(rng.choice([.5, 1e-3]))
        x0, s0 = xb.copy(), s.copy()
        nr = int(rng.randint(0, 5))
        rate = int(rng.choice([1, 1, 2, 3, 4, 8, 16, 32]))
        nt = int(rng.choice([-1, 0, 1, 5, 100]))
        S = SpecData1D(s, xb, freqtype=ft, type=typ)
        S.h = 17.
        S.norm = bool(k % 2)
        tr = S.tr
        kw = dict(nr=nr)
        if nt >= 0:
            kw['nt'] = nt
        if rate > 1 or rng.rand() < .5:
            kw['rate'] = rate
        o = vp.call(lambda: S.tocovdata(**kw))
        ev.append(dict(op='tocov', x=vp.reals(xb), s=vp.reals(s), ft=ft, nr=nr, nt=nt, rate=rate, bad=bool(bad), r=cov_of(o, nr, lambda R: R.h == 17. and R.norm == S.norm and R.tr is tr)))
        ev.append(dict(op='same', what='spectrum-unchanged', a=[np.array_equal(S.args, x0), np.array_equal(S.data, s0), S.freqtype], b=[True, True, ft]))
        # covariance matrix
        if k % 3 == 0:
            ft2 = str(rng.choice(['w', 'f']))
            n2 = int(rng.choice([7, 9, 12]))
            x2 = np.linspace(0, 3., n2)
            if rng.rand() < .3:
                x2 = x2 + x2[1]
            s2 = np.exp(-.5 * ((x2 - 1.4) / .7) ** 2)
            s2[0] = 0
            S = SpecData1D(s2, x2, freqtype=ft2)
            dt0 = S.sampling_period()
            dt = float(dt0 * rng.choice([1., .5, .7, .3, 1.3]))
            nr2, nt2 = int(rng.randint(0, 5)), int(rng.choice([-1, 1, 2, 7, 40]))
            kw = dict(nr=nr2)
            if nt2 >= 0:
                kw['nt'] = nt2
            if dt != dt0 or rng.rand() < .5:
                kw['dt'] = dt
            o = vp.call(lambda: S.tocov_matrix(**kw))
            W = vp.call(lambda: S.interp(dt))
            if o[0] == 'ok' and np.ndim(o[1]) == 2:
                N = len(o[1])
                rows = sorted(set([0, min(1, N - 1), N // 2, N - 1]))
                r = dict(kind='matrix', n=N, v=[vp.reals(o[1][q]) for q in rows])
            else:
                rows, r = [], dict(kind='error', err=str(o[1])[:80])
            if W[0] == 'ok' and len(W[1].args) < 3000:
                ev.append(dict(op='covmat', x=vp.reals(x2), ft=ft2, dt=vp.real(dt), nr=nr2, nt=nt2, rate=int(max(round(dt0 / dt), 1)), x2=vp.reals(W[1].args), s2=vp.reals(W[1].data), rows=rows, r=r))
        # spectrum from covariance
        n = int(rng.choice([3, 4, 5, 6, 9, 12]))
        dt = float(rng.choice([.5, .1, 2.]))
        t = np.arange(n) * dt
        r = np.exp(-.5 * (t / t[-1] * 3) ** 2) * float(rng.choice([1, 4.]))
        if rng.rand() < .5:
            r = r * np.cos(t / dt)
        if rng.rand() < .3:
            r = np.round(rng.randn(n) * 8) / 8
            r[0] = abs(r).max() + .125
        lt = str(rng.choice(['t', 't', 'x']))
        R = CovData1D(r, t, lagtype=lt)
        R.h = 12.
        R.norm = bool(k % 2)
        r0, t0 = R.data.copy(), R.args.copy()
        method = str(rng.choice(['fft', 'fft', 'linear', 'stineman']))
        rate = int(rng.choice([1, 2, 4]))
        if method == 'stineman' and rate > 1 and np.any(np.abs(np.diff(r)) < 1e-9):
            method = 'linear'
        nug, trunc, fast = float(rng.choice([0, 0, .25, 1e-12])), float(rng.choice([1e-5, 0, .2])), bool(rng.rand() < .5)
        kw = dict(method=method, nugget=nug, trunc=trunc, fast=fast)
        if rate > 1 or rng.rand() < .5:
            kw['rate'] = rate
        o = vp.call(lambda: R.tospecdata(**kw))
        base = vp.call(lambda: CovData1D(r0.copy(), t0.copy(), lagtype=lt).tospecdata(rate=1, nugget=nug, trunc=trunc, fast=fast))
        be = spec_of(base)
        if method == 'stineman' and rate > 1 and np.any(np.diff(base[1].data) == 0):
            be['kind'] = 'flat'
        e = dict(op='tospec', r=vp.reals(r0), t=vp.reals(t0), lt=lt, rate=rate, method=method, nugget=vp.real(nug), trunc=vp.real(trunc), fast=fast,
                 base=be, o=spec_of(o, lambda S: S.h == 12. and S.norm == R.norm))
        ev.append(e)
        if method != 'fft' and rate > 1:
            ev.append(dict(e, rate=1, method='fft', o=dict(be, kind='spec', keep=True)))
        ev.append(dict(op='same', what='covariance-unchanged', a=[np.array_equal(R.data, r0), np.array_equal(R.args, t0)], b=[True, True]))
        # round trip
        p = int(rng.choice([1, 2, 3, 4]))
        x = np.linspace(0, 2.5, 2 ** p + 1)
        s = np.round(rng.rand(len(x)) * 64) / 8 + .125
        ft = str(rng.choice(['w', 'f']))
        S = SpecData1D(s, x, freqtype=ft)
        o = vp.call(lambda: S.tocovdata().tospecdata(trunc=0, fast=bool(k % 2)))
        ev.append(dict(op='round', x=vp.reals(x), s=vp.reals(s), ft=ft, r=spec_of(o)))
        # estimate
        n = int(rng.choice([6, 8, 9, 15, 16, 17, 30]))
        dt = float(rng.choice([1, .5, .1]))
        y = np.round(rng.randn(n) * 8) / 8
        if rng.rand() < .5:
            y = np.cumsum(y)
        unb = bool(rng.rand() < .3)
        miss = not unb and rng.rand() < .4
        if miss:
            y[rng.choice(n, int(rng.randint(1, n // 3 + 1)), replace=False)] = np.nan
        win = rng.choice(['boxcar', 'boxcar', 'parzen', 'hann', 'bartlett', 'array'])
        lag = int(rng.choice([2, 3, n // 2, n - 2, n + 3, -1]))
        if win == 'array' and not 2 <= lag <= n - 2:
            lag = n // 2
        arr = np.round(rng.rand(2 * abs(lag) - 1) * 8) / 8 if win == 'array' else None
        det = str(rng.choice(['none', 'mean', 'first'])) if not miss else 'mean'
        norm, usetr = bool(rng.rand() < .3), bool(rng.rand() < .2)
        kw = dict(window=arr if win == 'array' else str(win), norm=norm, tr=Tr() if usetr else None, flag='unbiased' if unb else 'biased', detrend=dict(none=None, mean=detrend_mean, first=first)[det])
        if lag >= 0:
            kw['lag'] = lag
        dte = dt
        if rng.rand() < .2:
            dte = kw['dt'] = 3.
        tt = 5 + np.arange(n) * dt
        y0 = y.copy()
        if k % 2:
            o = vp.call(lambda: TimeSeries(y, tt).tocovdata(**kw))
        else:
            o = vp.call(lambda: CovarianceEstimator(**kw)(np.column_stack((tt, y))))
        ev.append(dict(op='same', what='data-unchanged', a=np.array_equal(y, y0, equal_nan=True), b=True))
        if np.nanstd(y) > 0:
            ln = len(o[1].data) - 1 if o[0] == 'ok' else 2
            ws = wp = arr[ln - 1:] if win == 'array' else None
            if win != 'array' and ln >= 2:
                ws, wp = get_window(str(win), 2 * ln - 1, fftbins=False)[ln - 1:], get_window(str(win), 2 * ln - 1)[ln - 1:]
            if ws is not None:
                ev.append(dict(op='est', x=vp.reals(y0), dt=vp.real(dte), lag=lag, win=str(win), unb=unb, norm=norm, tr=usetr, detrend=det, wsym=vp.reals(ws), wper=vp.reals(wp),
                               o=dict(kind='cov', r=vp.reals(o[1].data), t=vp.reals(o[1].args), sig=vp.reals(np.ravel(o[1].sigma)[:ln + 1]), norm=bool(o[1].norm)) if o[0] == 'ok' else dict(kind='error', err=str(o[1])[:80])))
        # spectrum of a time series
        n = int(rng.choice([20, 24, 31]))
        y = np.round(np.cumsum(rng.randn(n)) * 8) / 8
        L = int(rng.choice([2, 3, 5, 8]))
        method = str(rng.choice(['cov', 'psd', 'psdo']))
        win = str(rng.choice(['parzen', 'hann', 'boxcar', 'bartlett', 'array']))
        if L == 2 and win != 'boxcar':
            L = 4
        arr = np.round(rng.rand(2 * L - 1) * 8) / 8 + .125
        det = str(rng.choice(['mean', 'first'])) if method == 'cov' else 'mean'
        ft, al, nov = str(rng.choice(['w', 'f'])), rng.choice([0, .05, .2]), int(rng.choice([0, 0, 1]))
        if L < 3:
            nov = 0
        kw = dict(L=L, method=method, window=arr if win == 'array' else win, detrend=first if det == 'first' else detrend_mean, ftype=ft)
        if al:
            kw['alpha'] = float(al)
        if nov:
            kw['noverlap'] = nov
        if k % 4 == 0:
            kw['tr'] = Tr()
        o = vp.call(lambda: TimeSeries(y.copy(), 1 + np.arange(n) * dt).tospecdata(**kw))
        m = 2 * L - 1
        wp, ws = (arr, arr) if win == 'array' else (get_window(win, m), get_window(win, m, fftbins=False))
        oo = spec_of(o)
        if o[0] == 'ok':
            oo.update(bw=vp.real(o[1].Bw), ci=vp.reals(o[1].CI) if al else [], L=int(o[1].L))
        ev.append(dict(op='tsspec', x=vp.reals(y), dt=vp.real(dt), L=L, method=method[:3], win=win, detrend=det, ft=ft, alpha=vp.real(al) if al else 'none', tr=k % 4 == 0,
                       nover=m // 2 if method == 'psdo' else nov, wsym=vp.reals(ws[L - 1:]), wperc=vp.reals(wp[L - 1:]), wper=vp.reals(wp), o=oo))
        if k % 10 == 0:
            o = vp.call(lambda: TimeSeries(y.copy(), np.arange(n) * dt).tospecdata(L=4, method='unknown'))
            ev.append(dict(op='same', what='unknown-method-refused', a=o[0] == 'error' and 'ValueError' in str(o[1]), b=True))
    return ev


def replay(behaviours, n):
    from wafo.covariance.estimation import CovarianceEstimator
    out = []
    for b in behaviours:
        x = np.array([np.nan if v == 9 else v for v in b['x']], float)
        want = np.array(b['num']) / b['c'] ** 3
        bad = None
        o = vp.call(lambda: CovarianceEstimator(lag=n - 2)(np.column_stack((np.arange(n) * .5, x))))
        if o[0] != 'ok':
            bad = str(o[1])
        elif len(o[1].data) != n - 1 or not np.allclose(o[1].data[:-1], want[:n - 2], rtol=0, atol=1e-12) or o[1].data[-1] != 0:
            bad = str(o[1].data.tolist())
        out.append((dict(op='replay', h=b, bad=bad), bad is None))
    return out


def run(R):
    n = R.pick(5, 6)
    m = R.model('CovModel', 'CONSTANTS N = %d\nVals = {0, 1, 3, 9}\nSPECIFICATION Spec\nINVARIANTS PositiveDefinite\n' % n)
    R.replays(vp.drive(replay, m['prints'], n))
    R.check('CovTrace', vp.drive(record, R.seed, R.pick(60, 400)))
