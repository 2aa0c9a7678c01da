"""C31 ordinal logistic regression."""
import contextlib
import io
import warnings
import numpy as np
import vp


def quiet(f):
    def g():
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            return f()
    return vp.call(g)


def kind(o):
    return 'ok' if o[0] == 'ok' else str(o[1])[:60]


def rows(M):
    return [vp.reals(np.ravel(r)) for r in np.atleast_2d(M)]


def overlapping(x, y):
    """No threshold separates two categories along one covariate."""
    c = np.unique(y)
    return all(np.max(x[y <= k]) > np.min(x[y > k]) and np.max(x[y > k]) > np.min(x[y <= k]) for k in c[:-1])


def record(seed, count):
    from scipy.special import ndtri
    from wafo.stats.core import RegLogit
    rng = np.random.RandomState(seed)
    ev = []
    shared = RegLogit()
    while len(ev) < 6 * count:
        n = int(rng.choice([9, 16, 30]))
        nx = int(rng.choice([0, 1, 1, 2]))
        K = int(rng.choice([2, 3, 3, 4]))
        X = np.round(rng.randn(n, nx), 2) * float(rng.choice([.1, 1, 10]))
        X = np.round(X, 3)
        b = rng.randn(nx) * .8
        v = rng.permutation([-1, 0, 1, 2, 3, 5, 7])[:K] if rng.rand() < .3 else np.arange(K) + int(rng.randint(3))
        v = np.sort(v)
        s = X.dot(b) / max(np.max(np.abs(X)), 1) + rng.logistic(size=n) if nx else rng.randn(n)
        y = v[np.searchsorted(np.quantile(s, np.arange(1, K) / K + .05 * rng.randn(K - 1)), s)]
        K = len(np.unique(y))
        if K < 2 or nx and not all(overlapping(X[:, k], y) for k in range(nx)):
            continue
        if nx == 2 and n < 16:
            continue
        acc = float(rng.choice([1e-6, 1e-10]))
        alpha = float(rng.choice([.05, .1, .3]))
        m = RegLogit(accuracy=acc, alpha=alpha)
        if rng.rand() < .3:
            m = shared
            acc, alpha = 1e-6, .05
        form = int(rng.randint(4))
        yy = [y.reshape(-1, 1), y, y.astype(float).reshape(-1, 1), y.reshape(-1, 1)][form]
        if form == 3 and K == 2:
            y = (y == y.max()).astype(int)
            yy = (y > 0).reshape(-1, 1)
        XX = X if nx else None
        if nx and rng.rand() < .25:  # a colinear covariate is left out
            k = int(rng.randint(nx))
            XX = np.insert(X, k + 1, 2 * X[:, k], axis=1)
        kw = {}
        if rng.rand() < .25:
            kw = dict(theta0=np.sort(rng.randn(K - 1)) * .5) if rng.rand() < .5 or not nx else dict(beta0=rng.randn(nx) * .1 / max(np.max(np.abs(X)), 1))
        y1, X1 = yy.copy(), None if XX is None else XX.copy()
        o = quiet(lambda: m.fit(y1, X1, **kw))
        ok = o[0] == 'ok'
        e = dict(op='fit', y=[int(q) for q in y], X=[vp.reals(r) for r in X], alpha=vp.real(alpha), acc=vp.real(acc), crit=vp.real(-ndtri(alpha / 2)), form=form, start=sorted(kw), kind=kind(o))
        if ok:
            e.update(theta=vp.reals(m.theta), beta=vp.reals(m.beta), dev=vp.real(m.deviance), dev0=vp.real(m.deviance_null), cov=rows(m.params_cov), std=vp.reals(m.params_std), t=vp.reals(m.params_tstat),
                     p=vp.reals(m.params_pvalue), lo=vp.reals(np.min(m.params_ci, axis=0)), hi=vp.reals(np.max(m.params_ci, axis=0)), mu=rows(m.mu), res=vp.reals(np.ravel(m.residual)), resD=vp.reals(np.ravel(m.residualD)),
                     counts=[int(m.numvar), int(m.numobs), int(m.numk), int(m.df), int(m.df_null)], family=m.family, converged=bool(m.converged))
        ev.append(e)
        ev.append(dict(op='same', what='arguments-unchanged', a=vp.reals(np.ravel(yy)) + ([] if XX is None else vp.reals(np.ravel(XX))), b=vp.reals(np.ravel(y1)) + ([] if XX is None else vp.reals(np.ravel(X1)))))
        if not ok:
            continue
        # prediction
        al = float(rng.choice([.05, .2]))
        full = bool(rng.rand() < .7)
        Xn = np.round(rng.randn(3, nx), 2) * np.max(np.abs(X)) if nx and rng.rand() < .6 else X
        o = quiet(lambda: m.predict(None if Xn is X else Xn, alpha=al, fulloutput=full))
        r = [[], [], []]
        if o[0] == 'ok':
            r = [rows(q) for q in (o[1] if full else (o[1], o[1], o[1]))]
        ev.append(dict(op='predict', theta=vp.reals(m.theta), beta=vp.reals(m.beta), cov=rows(m.params_cov), X=[vp.reals(q) for q in Xn], alpha=vp.real(al), crit=vp.real(-ndtri(al / 2)), full=full,
                       got=r[0], lo=r[1], up=r[2], kind=kind(o)))
        # tests
        if nx:
            o = quiet(lambda: m.anode())
            ev.append(dict(op='compare', what='null', dev1=vp.real(m.deviance_null), dev2=vp.real(m.deviance), df=nx, got=vp.real(o[1]) if o[0] == 'ok' else 'nan', kind=kind(o)))
            o = quiet(lambda: m.summary())
            ev.append(dict(op='same', what='summary', a=[kind(o)], b=['ok']))
        else:
            o = quiet(lambda: m.summary())
            ev.append(dict(op='same', what='summary', a=[kind(o)], b=['ok']))
        if nx == 2:
            s = RegLogit()
            o = quiet(lambda: s.fit(y.reshape(-1, 1), X[:, :1]))
            if o[0] == 'ok':
                two = (s, m) if rng.rand() < .5 else (m, s)
                o = quiet(lambda: two[0].compare(two[1]))
                ev.append(dict(op='compare', what='nested', dev1=vp.real(s.deviance), dev2=vp.real(m.deviance), df=1, got=vp.real(o[1]) if o[0] == 'ok' else 'nan', kind=kind(o)))
    return ev


def replay(prints):
    from wafo.stats.core import RegLogit
    res = []
    for q, p in enumerate(prints):
        def go():
            m = RegLogit(accuracy=1e-10)
            for s in p['hist']:
                c = s['c']
                if s['kind'] == 'plain':
                    y, X = np.repeat([1, 2, 3], c), None
                    at = [0]
                else:
                    y, X = np.repeat([0, 1, 0, 1], c), np.repeat([0., 0, 1, 1], c).reshape(-1, 1)
                    at = [0, len(y) - 1]
                o = np.argsort((np.arange(len(y)) * 7 + q) % 11, kind='stable')
                m.fit(y[o].reshape(-1, 1), None if X is None else X[o])
            back = np.argsort(o)
            got = np.asarray(m.mu)[back][at]
            want = [[a / b for a, b in r] for r in p['shares']]
            return np.shape(got) == np.shape(want) and np.allclose(got, want, atol=1e-4)
        res.append((dict(op='replay', hist=p['hist']), quiet(go) == ('ok', True)))
    return res


def run(R):
    m = R.model('LogitModel', 'CONSTANTS Most = %d\nDepth = %d\nSPECIFICATION Spec\nINVARIANTS AddUp Positive\n' % R.pick((4, 2), (6, 3)))
    R.replays(vp.drive(replay, m['prints']))
    R.check('LogitTrace', vp.drive(record, R.seed, R.pick(40, 500)))
