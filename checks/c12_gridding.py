"""C12 linear binning on a grid and accumulation by index."""
import itertools
import numpy as np
import vp


def flat(out):
    if out[0] != 'ok':
        return dict(kind='error', err=out[1]), []
    a = np.asarray(out[1])
    return vp.res_reals(('ok', a.ravel())), [int(n) for n in a.shape]


def pairs(out):
    if out[0] != 'ok':
        return dict(kind='error', err=out[1])
    a = out[1]
    a = np.asarray(a.todense()) if hasattr(a, 'todense') else np.asarray(a)
    if not vp.is_int_array(a):
        return dict(kind='other')
    return dict(kind='pairs', shape=[int(n) for n in a.shape],
                v=[dict(k=list(ix), v=int(a[ix])) for ix in itertools.product(*[range(n) for n in a.shape])])


FUNS = dict(sum=None, max=np.max, min=np.min, prod=np.prod, last=lambda x: x[-1], len=len)


def record(seed, count):
    from wafo.kdetools import gridding as gr
    rng = np.random.RandomState(seed)
    ev = []
    for k in range(count):
        d = int(rng.choice([1, 1, 2, 2, 3]))
        inc = int(rng.choice({1: [2, 3, 5, 9, 33], 2: [2, 3, 5, 7], 3: [2, 3, 4]}[d]))
        n = int(rng.choice([1, 2, 3, 7, 20]))
        sc = 10.0 ** rng.randint(-6, 7, size=d)
        lo = rng.randint(-3, 4, size=d) * sc * rng.choice([0, 1, 0.37], size=d)
        wid = sc * rng.choice([1, 2, 0.3, np.pi], size=d)
        X = np.array([np.linspace(lo[i], lo[i] + wid[i], inc) for i in range(d)])
        u = rng.rand(d, n)
        data = np.array([np.clip(lo[i] + u[i] * wid[i], X[i, 0], X[i, -1]) for i in range(d)])
        for i in range(d):                       # data on grid points, ends included
            on = rng.rand(n) < rng.choice([0, .3, 1])
            j = rng.randint(0, inc, size=n)
            j[rng.rand(n) < .3] = inc - 1
            data[i, on] = X[i, j[on]]
        outside = bool(rng.rand() < .06)
        if outside:
            i = rng.randint(d)
            data[i, rng.randint(n)] = X[i, 0] - .01 * sc[i] if rng.rand() < .5 else X[i, -1] + .01 * sc[i]
        wk = rng.randint(4)
        y = [1, 2.5, rng.rand(n) * 3, rng.randn(n)][wk]
        yy = np.ones(n) * y
        X0, d0 = X.copy(), data.copy()
        if d == 1 and rng.rand() < .6:
            o = vp.call(gr.gridcount, data[0], X[0], **({} if wk == 0 else dict(y=y)))
        else:
            o = vp.call(gr.gridcount, data, X, **({} if wk == 0 else dict(y=y)))
        r, shape = flat(o)
        if X.shape != (d, inc) or data.shape != (d, n):
            ev.append(dict(op='same', what='input-unchanged', a='shape changed', b=''))
            continue
        ev.append(dict(op='same', what='input-unchanged', a=[vp.reals(X), vp.reals(data)], b=[vp.reals(X0), vp.reals(d0)]))
        ev.append(dict(op='gridcount', outside=outside, data=vp.reals(data), X=vp.reals(X), y=vp.reals(yy), r=r,
                       shape=shape, full=bool(inc ** d * n <= 300 or k % 3 == 0)))
        # accumulation
        m = int(rng.randint(1, 12))
        form = rng.randint(4)
        fill = int(rng.choice([0, 0, -7, 5]))
        f = str(rng.choice(sorted(FUNS)))
        if form == 0:
            a, am = rng.randint(-4, 5, size=m), rng.randint(0, 6, size=m)
            keys, vals = [[int(q)] for q in am], vp.ints(a)
            size = [int(am.max()) + 1]
        elif form == 1:
            a, am = rng.randint(-4, 5, size=m), rng.randint(0, 4, size=(m, 2))
            keys, vals = vp.ints(am), vp.ints(a)
            size = [int(q) + 1 for q in am.max(axis=0)]
        elif form == 2:
            a, am = rng.randint(-4, 5, size=(3, m)), rng.randint(0, 5, size=(3, m))
            keys, vals = [[int(q)] for q in am.ravel()], vp.ints(a.ravel())
            size = [int(am.max()) + 1]
        else:
            a, am = rng.randint(-4, 5, size=(2, m)), rng.randint(0, 3, size=(2, m, 2))
            keys, vals = vp.ints(am.reshape(-1, 2)), vp.ints(a.ravel())
            size = [int(q) + 1 for q in am.max(axis=(0, 1))]
        kw = {}
        if rng.rand() < .4:
            size = [q + int(rng.randint(0, 3)) for q in size]
            kw = dict(shape=tuple(size))
        fkw = dict(kw, fill_value=fill)
        if FUNS[f] is not None:
            fkw['func'] = FUNS[f]
        ev.append(dict(op='accum', map=keys, a=vals, f=f, fill=fill, shape=size, r=pairs(vp.call(gr.accum, am, a, **fkw))))
        if form in (0, 2):
            ev.append(dict(op='accumsum', map=keys, a=vals, f='sum', fill=0, shape=size,
                           r=pairs(vp.call(gr.accumsum, am, a, **kw))))
        elif form == 1:
            ev.append(dict(op='accumsum_sparse', map=keys, a=vals, f='sum', fill=0, shape=size,
                           r=pairs(vp.call(gr.accumsum_sparse, am, a, shape=tuple(size)))))
    return ev


def replay(behaviours):
    from wafo.kdetools import gridding as gr
    out = []
    for k, b in enumerate(behaviours):
        p = np.array(b['pts'], dtype=float).T
        inc, q = b['inc'], b['q']
        sx, ox, sy, oy = [(1, 0, 1, 0), (.5, -3, 4, 2), (1 / 64., .25, 1, -100)][k % 3]
        X = np.array([np.arange(inc) * q * sx + ox, np.arange(inc) * q * sy + oy])
        want = np.array(b['want']) / float(q * q)
        o = vp.call(gr.gridcount, np.array([p[0] * sx + ox, p[1] * sy + oy]), X)
        ok = o[0] == 'ok' and np.shape(o[1]) == (inc, inc) and np.allclose(o[1].T, want, atol=1e-12)
        o1 = vp.call(gr.gridcount, p[0] * sx + ox, X[0])
        ok1 = o1[0] == 'ok' and np.shape(o1[1]) == (inc,) and np.allclose(o1[1], want.sum(axis=1), atol=1e-12)
        out.append((dict(op='replay', b=b, got=str(o[1])[:200], got1=str(o1[1])[:200]), bool(ok and ok1)))
    return out


def run(R):
    cfg = ('CONSTANTS Q = 2\nInc = %d\nN = %d\nSPECIFICATION Spec\nINVARIANTS Mass Moment NonNegative SameAsHat\n'
           % R.pick((3, 2), (4, 2)))
    m = R.model('GridModel', cfg)
    R.replays(vp.drive(replay, m['prints']))
    R.check('GridTrace', vp.drive(record, R.seed, R.pick(400, 4000)))
